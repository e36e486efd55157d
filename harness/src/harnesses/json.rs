//! C27: the JSON of a document says what the document says
use super::docgen::*;
use super::lexical::sample;
use super::text::p;
use super::util::*;
use super::{paragraph, run, table};
use crate::sx;
use docx_rs::*;

pub enum J {
    Leaf(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
type R<T> = Result<T, &'static str>;
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> R<u8> {
        self.b.get(self.i).copied().ok_or("unexpected end")
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = (self.peek()? as char).to_digit(16).ok_or("bad escape")?;
            self.i += 1;
            v = v * 16 + d;
        }
        Ok(v)
    }
    fn string(&mut self) -> R<Vec<u8>> {
        self.i += 1;
        let mut o = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return Ok(o),
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    o.push(match e {
                        b'"' | b'\\' | b'/' => e,
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        b'b' => 8,
                        b'f' => 12,
                        b'u' => {
                            let c = char::from_u32(self.hex4()?).ok_or("surrogate")?;
                            o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                            continue;
                        }
                        _ => return Err("bad escape"),
                    });
                }
                c if c < 0x20 => return Err("control character in string"),
                c => o.push(c),
            }
        }
    }
    fn value(&mut self) -> R<J> {
        self.ws();
        match self.peek()? {
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    self.i += 1;
                    match self.b[self.i - 1] {
                        b',' => {}
                        b']' => return Ok(J::Arr(v)),
                        _ => return Err("list"),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(Vec<u8>, J)> = vec![];
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek()? != b'"' {
                        return Err("key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek()? != b':' {
                        return Err("colon");
                    }
                    self.i += 1;
                    if v.iter().any(|x| x.0 == k) {
                        return Err("key twice");
                    }
                    let w = self.value()?;
                    v.push((k, w));
                    self.ws();
                    self.i += 1;
                    match self.b[self.i - 1] {
                        b',' => {}
                        b'}' => return Ok(J::Obj(v)),
                        _ => return Err("object"),
                    }
                }
            }
            _ => {
                let s = self.i;
                while !matches!(self.peek()?, b',' | b'\n' | b'}' | b']' | b' ') {
                    self.i += 1;
                }
                let t = &self.b[s..self.i];
                let word = t == b"true" || t == b"false" || t == b"null";
                let number = !t.is_empty()
                    && t.iter().enumerate().all(|(i, c)| c.is_ascii_digit() || *c == b'.' || (*c == b'-' && i == 0) || *c == b'e')
                    && t[t.len() - 1].is_ascii_digit();
                if word || number {
                    Ok(J::Leaf(t.to_vec()))
                } else {
                    Err("bad word")
                }
            }
        }
    }
}
pub fn json(s: &str) -> Option<J> {
    let mut q = P { b: s.as_bytes(), i: 0 };
    let r = q.value();
    q.ws();
    match r {
        Ok(j) if q.i == s.len() => Some(j),
        Ok(_) => {
            sx::check(false, "valid JSON: end");
            None
        }
        Err(m) => {
            sx::check_eq(m.as_bytes(), b"valid", "valid JSON");
            None
        }
    }
}
/// equality without a branch for every byte
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0, |m, (x, y)| m | (x ^ y)) == 0
}
fn among(v: &[&[u8]], w: &[u8]) -> bool {
    v.iter().fold(false, |m, x| m | eq(x, w))
}
impl J {
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k.as_bytes()).map(|x| &x.1),
            _ => None,
        }
    }
    fn at(&self, path: &str) -> Option<&J> {
        let mut j = self;
        for s in path.split('/') {
            j = match (j, s.parse::<usize>()) {
                (J::Arr(v), Ok(i)) => v.get(i)?,
                _ => j.get(s)?,
            };
        }
        Some(j)
    }
    fn leaves<'a>(&'a self, o: &mut Vec<&'a [u8]>) {
        match self {
            J::Leaf(v) | J::Str(v) => o.push(v),
            J::Arr(v) => v.iter().for_each(|j| j.leaves(o)),
            J::Obj(v) => v.iter().for_each(|j| j.1.leaves(o)),
        }
    }
    /// leaves which are not in `b`
    fn news<'a>(&'a self, b: &J, o: &mut Vec<&'a [u8]>) {
        match (self, b) {
            (J::Obj(v), J::Obj(_)) => {
                for (k, j) in v {
                    match unsafe { b.get(core::str::from_utf8_unchecked(k)) } {
                        Some(x) => j.news(x, o),
                        None => {
                            o.push(k);
                            j.leaves(o);
                        }
                    }
                }
            }
            (J::Arr(v), J::Arr(w)) if v.len() == w.len() => v.iter().zip(w).for_each(|(x, y)| x.news(y, o)),
            (J::Leaf(v), J::Leaf(w)) | (J::Str(v), J::Str(w)) if eq(v, w) => {}
            _ => self.leaves(o),
        }
    }
}
/// any text, in any place: valid JSON which holds that text
#[no_mangle]
pub extern "C-unwind" fn h_c27_text() {
    let s = format!("q{}z", sx::text(1, 4));
    let (mut foot, mut style) = (false, false);
    let d = match sx::choice(3) {
        0 => {
            let k = sx::choice(CONTENTS.len());
            foot = CONTENTS[k].0.contains("footnote");
            sx::assume(!matches!(CONTENTS[k].0, "empty" | "picture in deletion" | "picture in move" | "picture in deleted insertion"));
            base(k).add_paragraph(CONTENTS[k].1(1, &s))
        }
        1 => {
            let k = sx::choice(PLACES.len());
            foot = PLACES[k].0 == "footnote";
            PLACES[k].1(Docx::new(), 1, p(&s))
        }
        _ => {
            style = true;
            Docx::new().add_style(Style::new(&s, StyleType::Paragraph))
        }
    };
    let Some(j) = json(&d.json()) else { return };
    let mut v = vec![];
    j.leaves(&mut v);
    let id = match (foot, style && s.bytes().any(|c| matches!(c, b'&' | b'<' | b'>' | b'"' | b'\''))) {
        (true, _) => "text of a footnote in JSON",
        (_, true) => "style with markup characters in JSON",
        _ => "text in JSON",
    };
    sx::check(among(&v, s.as_bytes()), id);
    sx::reach("end");
}
fn values<'a>(e: &'a Exp, o: &mut Vec<(&'static str, &'static str, &'a Val)>) {
    for w in &e.els {
        for (n, v) in &w.attrs {
            o.push((w.name, n, v));
        }
        values(&w.kids, o);
    }
}
/// every setting: its values are in the JSON and were not there without it
#[no_mangle]
pub extern "C-unwind" fn h_c27_settings() {
    let mut e = Exp::default();
    let (with, without, name) = match sx::choice(5) {
        0 => {
            let k = sx::choice(run::SETTERS);
            let mut r = Run::new().add_text("x");
            let plain = r.clone();
            r.run_property = run::set(k, RunProperty::new(), &mut e, false);
            let d = |r| Docx::new().add_paragraph(Paragraph::new().add_run(r));
            (d(r), d(plain), format!("run {k}"))
        }
        1 => {
            let k = sx::choice(paragraph::SETTERS);
            let mut q = p("x");
            let plain = q.clone();
            q.property = paragraph::set(k, ParagraphProperty::new(), &mut e, false);
            (Docx::new().add_paragraph(q), Docx::new().add_paragraph(plain), format!("paragraph {k}"))
        }
        2 => {
            let k = sx::choice(table::TSET);
            let t = Table::new(vec![]);
            e = table::tbase(false);
            let u = table::tset(k, t.clone(), &mut e, false);
            // as it is anyway
            for (n, set_by) in [("w:tblW", 3), ("w:jc", 1), ("w:tblBorders", 5)] {
                if k != set_by {
                    e.drop(n);
                }
            }
            (Docx::new().add_table(u), Docx::new().add_table(t), format!("table {k}"))
        }
        3 => {
            let k = sx::choice(table::RSET);
            let r = TableRow::new(vec![]);
            let d = |r| Docx::new().add_table(Table::new(vec![r]));
            // fractional types: some values only
            sx::still(matches!(k, 2 | 3 | 4));
            (d(table::rset(k, r.clone(), &mut e, false)), d(r), format!("row {k}"))
        }
        _ => {
            let k = sx::choice(table::CSET);
            let c = TableCell::new();
            let d = |c| Docx::new().add_table(Table::new(vec![TableRow::new(vec![c])]));
            (d(table::cset(k, c.clone(), &mut e, false)), d(c), format!("cell {k}"))
        }
    };
    sx::still(false);
    let (Some(a), Some(b)) = (json(&with.json()), json(&without.json())) else { return };
    let mut news = vec![];
    let (Some(x), Some(y)) = (a.at("document/children/0"), b.at("document/children/0")) else {
        sx::check(false, "JSON of the document");
        return;
    };
    x.news(y, &mut news);
    let mut want = vec![];
    values(&e, &mut want);
    sx::check(want.is_empty() || !news.is_empty(), &format!("{name} in JSON"));
    for (n, at, v) in want {
        let id = if at.starts_with("w:theme") { String::from("theme colour in JSON") } else { format!("{name} {n} {at}") };
        // constants of the file format
        if (matches!(n, "w:wAfter" | "w:wBefore") && at == "w:type") || at == "w:space" {
            continue;
        }
        match v {
            // fractional types are written with their fraction
            Val::S(v) => sx::check(among(&news, v) | among(&news, &[&v[..], b".0"].concat()), &id),
            Val::On => sx::check(among(&news, b"true"), &id),
            Val::Off => sx::check(among(&news, b"false"), &id),
            Val::Any => {}
        }
    }
    sx::reach("end");
}

fn setting(kind: usize) -> (Docx, String) {
    let mut e = Exp::default();
    match kind {
        0 => {
            let k = sx::choice(run::SETTERS);
            let mut r = Run::new().add_text("x");
            r.run_property = run::set(k, RunProperty::new(), &mut e, false);
            (Docx::new().add_paragraph(Paragraph::new().add_run(r)), format!("run {k}"))
        }
        1 => {
            let k = sx::choice(paragraph::SETTERS);
            let mut q = p("x");
            q.property = paragraph::set(k, ParagraphProperty::new(), &mut e, false);
            (Docx::new().add_paragraph(q), format!("paragraph {k}"))
        }
        2 => {
            let k = sx::choice(table::TSET);
            e = table::tbase(false);
            (Docx::new().add_table(table::tset(k, Table::new(vec![]), &mut e, false)), format!("table {k}"))
        }
        3 => {
            let k = sx::choice(table::RSET);
            (Docx::new().add_table(Table::new(vec![table::rset(k, TableRow::new(vec![]), &mut e, false)])), format!("row {k}"))
        }
        _ => {
            let k = sx::choice(table::CSET);
            let c = table::cset(k, TableCell::new(), &mut e, false);
            (Docx::new().add_table(Table::new(vec![TableRow::new(vec![c])])), format!("cell {k}"))
        }
    }
}
/// settings which make different files have different JSON
#[no_mangle]
pub extern "C-unwind" fn h_c27_apart() {
    let kind = sx::choice(5);
    // fractional types: some values only
    sx::still(kind == 3);
    let (mut a, x) = setting(kind);
    sx::still(true);
    let (mut b, y) = setting(kind);
    // changes are numbered anew every time
    sx::assume(kind != 3 || x != y);
    let same = eq(a.json().as_bytes(), b.json().as_bytes());
    sx::check(!same || a.build().document == b.build().document, &format!("apart: {x}, {y}"));
    sx::reach("end");
}
/// everything else that can be given: it is in the JSON
#[no_mangle]
pub extern "C-unwind" fn h_c27_others() {
    let k = sx::choice(68);
    // one of them is used
    sx::still(k == 67);
    let s = &format!("{}{}", sx::alpha(1, b'F', b'Z'), sx::alpha(1, b'f', b'z'))[..];
    let n = sx::u32v(310, 341) as usize;
    sx::still(false);
    let (is, ns) = (1u8, 2u8);
    let d = Docx::new();
    let run = || Run::new().add_text("x");
    let q = |f: &dyn Fn(Paragraph) -> Paragraph| Docx::new().add_paragraph(f(Paragraph::new()));
    let level = || Level::new(1, Start::new(3), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"));
    let list = |l: Level| Docx::new().add_abstract_numbering(AbstractNumbering::new(2).add_level(l));
    let style = || Style::new("id", StyleType::Paragraph);
    let section = |f: &dyn Fn(Section) -> Section| Docx::new().add_section(f(Section::new()).add_paragraph(p("x")));
    let toc = |f: &dyn Fn(TableOfContents) -> TableOfContents| Docx::new().add_table_of_contents(f(TableOfContents::new().heading_styles_range(1, 3)));
    let (d, what) = match k {
        0 => (d.page_size(n as u32, 5), ns),
        1 => (d.page_size(5, n as u32), ns),
        2 => (d.page_margin(PageMargin::new().top(n as i32)), ns),
        3 => (d.page_margin(PageMargin::new().bottom(n as i32)), ns),
        4 => (d.page_margin(PageMargin::new().left(n as i32)), ns),
        5 => (d.page_margin(PageMargin::new().right(n as i32)), ns),
        6 => (d.page_margin(PageMargin::new().header(n as i32)), ns),
        7 => (d.page_margin(PageMargin::new().footer(n as i32)), ns),
        8 => (d.page_margin(PageMargin::new().gutter(n as i32)), ns),
        9 => (d.default_tab_stop(n), ns),
        10 => (d.add_doc_var(s, "v"), is),
        11 => (d.add_doc_var("v", s), is),
        12 => (d.add_style(Style::new(s, StyleType::Paragraph)), is),
        13 => (d.add_style(style().name(s)), is),
        14 => (d.add_style(style().based_on(s)), is),
        15 => (d.add_style(style().next(s)), is),
        16 => (d.add_style(style().link(s)), is),
        17 => (d.add_style(style().size(n)), ns),
        18 => (d.add_style(style().color(s)), is),
        19 => (d.default_size(n), ns),
        20 => (d.default_fonts(RunFonts::new().ascii(s)), is),
        21 => (d.default_spacing(n as i32), ns),
        22 => (list(Level::new(n, Start::new(3), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"))), ns),
        23 => (list(Level::new(1, Start::new(n), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"))), ns),
        24 => (list(Level::new(1, Start::new(3), NumberFormat::new(s), LevelText::new("%1."), LevelJc::new("left"))), is),
        25 => (list(Level::new(1, Start::new(3), NumberFormat::new("decimal"), LevelText::new(s), LevelJc::new("left"))), is),
        26 => (list(Level::new(1, Start::new(3), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new(s))), is),
        27 => (list(level().paragraph_style(s)), is),
        28 => (list(level().level_restart(n as u32)), ns),
        29 => (list(level().indent(Some(n as i32), None, None, None)), ns),
        30 => (list(level().indent(None, Some(SpecialIndentType::Hanging(n as i32)), None, None)), ns),
        31 => (d.add_abstract_numbering(AbstractNumbering::new(n)), ns),
        32 => (d.add_abstract_numbering(AbstractNumbering::new(2).style_link(s)), is),
        33 => (d.add_abstract_numbering(AbstractNumbering::new(2).num_style_link(s)), is),
        34 => (d.add_numbering(Numbering::new(n, 2)), ns),
        35 => (d.add_numbering(Numbering::new(2, n)), ns),
        36 => (d.add_numbering(Numbering::new(2, 2).add_override(LevelOverride::new(n))), ns),
        37 => (d.add_numbering(Numbering::new(2, 2).add_override(LevelOverride::new(1).start(n))), ns),
        38 => (q(&|q| q.add_insert(Insert::new(run()).author(s))), is),
        39 => (q(&|q| q.add_insert(Insert::new(run()).date(s))), is),
        40 => (q(&|q| q.add_delete(Delete::new().author(s))), is),
        41 => (q(&|q| q.add_delete(Delete::new().date(s))), is),
        42 => (q(&|q| q.add_move_from(MoveFrom::new().author(s))), is),
        43 => (q(&|q| q.add_move_to(MoveTo::new(run()).author(s))), is),
        44 => (q(&|q| q.add_bookmark_start(n, "b")), ns),
        45 => (q(&|q| q.add_bookmark_start(1, s)), is),
        46 => (q(&|q| q.add_bookmark_end(n)), ns),
        47 => (q(&|q| q.add_hyperlink(Hyperlink::new(s, HyperlinkType::External))), is),
        48 => (q(&|q| q.add_hyperlink(Hyperlink::new(s, HyperlinkType::Anchor))), is),
        49 => (q(&|q| q.add_comment_start(Comment::new(n).add_paragraph(p("c")))), ns),
        50 => (q(&|q| q.add_comment_start(Comment::new(1).author(s))), is),
        51 => (q(&|q| q.add_comment_start(Comment::new(1).date(s))), is),
        52 => (q(&|q| q.add_comment_end(n)), ns),
        53 => (q(&|q| q.add_run(Run::new().add_sym(Sym::new(s, "F0")))), is),
        54 => (q(&|q| q.add_run(Run::new().add_sym(Sym::new("f", s)))), is),
        55 => (q(&|q| q.add_run(Run::new().add_instr_text(InstrText::Unsupported(s.into())))), is),
        56 => (q(&|q| q.add_run(Run::new().add_delete_text(s))), is),
        57 => (d.custom_property("k", s), is),
        58 => (d.custom_property(s, "v"), is),
        59 => (d.add_structured_data_tag(StructuredDataTag::new().alias(s)), is),
        60 => (d.add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().xpath(s))), is),
        61 => (section(&|x| x.page_size(PageSize::new().size(n as u32, 5))), ns),
        62 => (section(&|x| x.page_margin(PageMargin::new().left(n as i32))), ns),
        63 => (section(&|x| x.text_direction(s.into())), is),
        64 => (toc(&|t| t.add_item(TableOfContentsItem::new().text(s).level(1))), is),
        65 => (toc(&|t| t.alias(s)), is),
        66 => (Docx::new().add_table(Table::new(vec![]).set_grid(vec![5, n])), ns),
        _ => (q(&|q| q.add_run(Run::new().add_image(Pic::new_with_dimensions(png(1), n as u32, 5)))), 0),
    };
    let (Some(j), Some(b)) = (json(&d.json()), json(&Docx::new().json())) else { return };
    let mut v = vec![];
    j.news(&b, &mut v);
    let id = format!("other {k}");
    if what == is {
        sx::check(among(&v, s.as_bytes()), &id);
    } else if what == ns {
        sx::check(among(&v, n.to_string().as_bytes()), &id);
    } else {
        sx::check(among(&v, (n * 9525).to_string().as_bytes()), &id);
    }
    sx::reach("end");
}
/// kinds of content by their type, nested ones in parentheses
fn kinds(j: &J, o: &mut Vec<u8>) {
    match j {
        J::Arr(v) => v.iter().for_each(|j| kinds(j, o)),
        J::Obj(v) => {
            let typed = match (j.get("type"), j.get("data")) {
                (Some(J::Str(t)), _) => {
                    o.push(b' ');
                    o.extend_from_slice(t);
                    true
                }
                _ => false,
            };
            let n = o.len();
            if typed {
                o.push(b'(');
            }
            for (k, x) in v {
                if k == b"data" || k == b"children" || k == b"cells" || k == b"rows" || k == b"comment" {
                    kinds(x, o);
                }
            }
            if typed && o.len() > n + 1 {
                o.push(b')');
            } else if typed {
                o.truncate(n);
            }
        }
        _ => {}
    }
}
#[no_mangle]
pub extern "C-unwind" fn h_c27_kinds() {
    let k = sx::choice(CONTENTS.len());
    let s = sx::alpha(1, b'a', b'z');
    let d = base(k).add_paragraph(CONTENTS[k].1(1, &s));
    let Some(j) = json(&d.json()) else { return };
    let mut o = vec![];
    if let Some(c) = j.at("document/children") {
        kinds(c, &mut o);
    }
    let want = KINDS.iter().find(|x| x.0 == CONTENTS[k].0).map_or("", |x| x.1);
    sx::check_eq(&o, want.as_bytes(), &format!("kinds: {}", CONTENTS[k].0));
    sx::reach("end");
}
/// as the type declarations of the JavaScript package have them
const KINDS: &[(&str, &str)] = &[
    ("text", " paragraph( run( text))"),
    ("empty", " paragraph"),
    ("external link", " paragraph( hyperlink( external( run( text))))"),
    ("anchor link", " paragraph( hyperlink( anchor( run( text))))"),
    ("insertion", " paragraph( insert( run( text)))"),
    ("deletion", " paragraph( delete( run( deleteText)))"),
    ("deleted insertion", " paragraph( insert( delete( run( deleteText))))"),
    ("move", " paragraph( moveFrom( run( text)) moveTo( run( text)))"),
    ("comment", " paragraph( run( text) commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd)"),
    ("comment in link", " paragraph( hyperlink( external( commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd)))"),
    ("comment in insertion", " paragraph( insert( run( text) commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd))"),
    ("comment in deletion", " paragraph( delete( commentRangeStart( paragraph( run( text))) run( deleteText) commentRangeEnd))"),
    ("comment in move", " paragraph( moveTo( commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd))"),
    ("comment with reply", " paragraph( run( text) commentRangeStart( paragraph( run( text))) commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd commentRangeEnd)"),
    ("comment of two paragraphs", " paragraph( run( text) commentRangeStart( paragraph( run( text)) paragraph( run( text))) run( text) commentRangeEnd)"),
    ("footnote", " paragraph( run( text footnoteReference))"),
    ("footnote in link", " paragraph( hyperlink( anchor( run( footnoteReference))))"),
    ("footnote in insertion", " paragraph( insert( run( footnoteReference)))"),
    ("picture", " paragraph( run( text drawing( pic)))"),
    ("same picture twice", " paragraph( run( text drawing( pic)) run( drawing( pic)))"),
    ("floating picture", " paragraph( run( text drawing( pic)))"),
    ("picture in link", " paragraph( hyperlink( external( run( text drawing( pic)))))"),
    ("picture in insertion", " paragraph( insert( run( text drawing( pic))))"),
    ("picture in deletion", " paragraph( delete( run( drawing( pic))))"),
    ("picture in move", " paragraph( moveFrom( run( drawing( pic))) moveTo( run( drawing( pic))))"),
    ("picture in deleted insertion", " paragraph( insert( delete( run( drawing( pic)))))"),
    ("picture in deleted move", " paragraph( moveTo( run( text) delete( run( drawing( pic)))))"),
    ("picture in insertion in link", " paragraph( hyperlink( anchor( run( text) insert( run( drawing( pic))))))"),
    ("comment in deleted insertion", " paragraph( insert( delete( commentRangeStart( paragraph( run( text))) run( deleteText) commentRangeEnd)))"),
    ("comment in old place of a move", " paragraph( moveFrom( commentRangeStart( paragraph( run( text))) run( text) commentRangeEnd))"),
    ("inline content control", " paragraph( structuredDataTag( run( text)))"),
    ("picture in content control", " paragraph( structuredDataTag( run( text drawing( pic))))"),
    ("content control in link", " paragraph( hyperlink( external( structuredDataTag( run( text)))))"),
    ("bookmark", " paragraph( bookmarkStart run( text) bookmarkEnd)"),
    ("page numbers", " paragraph( run( text) pageNum numPages)"),
    ("breaks and tabs", " paragraph( run( text tab break break break carriageReturn))"),
    ("symbol", " paragraph( run( text sym))"),
    ("numbered", " paragraph( run( text))"),
    ("changed formatting", " paragraph( run( text))"),
    ("paragraph mark inserted", " paragraph( run( text))"),
    ("field", " paragraph( run( fieldChar instrText( unsupported) fieldChar text fieldChar))"),
];
