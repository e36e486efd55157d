//! C12: fields and tables of contents
use super::paragraph::two;
use super::util::*;
use crate::sx;
use docx_rs::*;
use std::str::FromStr;

fn run(t: &str) -> Run {
    Run::new().add_text(t)
}
fn par(t: &str) -> Paragraph {
    Paragraph::new().add_run(run(t))
}

/// A field code taken apart as a word processor does: words, quoted where they hold spaces.
fn words(s: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b' ' {
            i += 1;
            continue;
        }
        let mut w = vec![];
        while i < s.len() && s[i] != b' ' {
            if s[i] == b'"' {
                i += 1;
                while i < s.len() && s[i] != b'"' {
                    w.push(s[i]);
                    i += 1;
                }
                i += 1;
            } else {
                w.push(s[i]);
                i += 1;
            }
        }
        out.push(w);
    }
    out
}
/// switches with their arguments, in any order
fn same_code(code: &[u8], name: &str, first: Option<&str>, want: &[(u8, Option<String>)], id: &str) {
    let w = words(code);
    let mut i = 1;
    sx::check_eq(w.first().map(|w| &w[..]).unwrap_or(b""), name.as_bytes(), id);
    if let Some(f) = first {
        sx::check_eq(w.get(1).map(|w| &w[..]).unwrap_or(b"(none)"), f.as_bytes(), id);
        i = 2;
    }
    let mut got: Vec<(u8, Option<&[u8]>)> = vec![];
    while i < w.len() {
        if w[i].len() == 2 && w[i][0] == b'\\' {
            got.push((w[i][1], None));
        } else if let Some(l) = got.last_mut() {
            sx::check(l.1.is_none(), id);
            l.1 = Some(&w[i]);
        } else {
            sx::check(false, id);
        }
        i += 1;
    }
    sx::check(got.len() == want.len(), id);
    for (k, v) in want {
        match got.iter().find(|g| g.0 == *k) {
            None => sx::check(false, id),
            Some((_, g)) => match (g, v) {
                (None, None) => {}
                (Some(g), Some(v)) => sx::check_eq(g, v.as_bytes(), id),
                _ => sx::check(false, id),
            },
        }
    }
}
/// any printable text a quoted argument can hold
fn arg(n: usize) -> String {
    let mut b = vec![];
    for _ in 0..n {
        let c = sx::byte(0x20, 0x7e);
        sx::assume(c != b'"' && c != b'\\' && c != b',');
        b.push(c);
    }
    String::from_utf8(b).unwrap()
}
type Switches = Vec<(u8, Option<String>)>;
const SWITCHES: usize = 16;
fn switch(k: usize, t: InstrToC, w: &mut Switches, wide: bool) -> InstrToC {
    let range = |n: usize| {
        let (a, b) = if wide {
            if sx::choice(2) == 0 {
                (sx::usizev(0, 9_999), 9)
            } else {
                (1, sx::usizev(0, 9_999))
            }
        } else {
            (n, n + 3)
        };
        (a, b, Some(format!("{a}-{b}")))
    };
    let text = |s: &str| if wide { arg(2) } else { s.to_string() };
    match k {
        0 => {
            let (a, b, s) = range(1);
            w.push((b'o', s));
            t.heading_styles_range(a, b)
        }
        1 => {
            let (a, b, s) = range(2);
            w.push((b'l', s));
            t.tc_field_level_range(a, b)
        }
        2 => {
            let (a, b, s) = range(3);
            w.push((b'n', s));
            t.omit_page_numbers_level_range(a, b)
        }
        3 => {
            let s = text("a b");
            w.push((b'b', Some(s.clone())));
            t.entry_bookmark_name(s)
        }
        4 => {
            let s = text("c<d");
            let l = if wide { sx::usizev(0, 9_999) } else { 4 };
            let more = sx::choice(2) == 1;
            let mut v = format!("{s},{l}");
            let mut t = t.add_style_with_level(StyleWithLevel::new(s, l));
            if more {
                v += ",My style,2";
                t = t.add_style_with_level(StyleWithLevel::new("My style", 2));
            }
            w.push((b't', Some(v)));
            t
        }
        5 => {
            let s = text("p");
            w.push((b'p', Some(s.clone())));
            t.entry_and_page_number_separator(s)
        }
        6 => {
            let s = text(" - ");
            w.push((b'd', Some(s.clone())));
            t.sequence_and_page_numbers_separator(s)
        }
        7 => {
            let s = text("Tab.");
            w.push((b'a', Some(s.clone())));
            t.caption_label(s)
        }
        8 => {
            let s = text("Fig&");
            w.push((b'c', Some(s.clone())));
            t.caption_label_including_numbers(s)
        }
        9 => {
            let s = text("s");
            w.push((b's', Some(s.clone())));
            t.seq_field_identifier_for_prefix(s)
        }
        10 => {
            if sx::choice(2) == 0 {
                w.push((b'f', None));
                t.tc_field_identifier(None)
            } else {
                let s = text("f g");
                w.push((b'f', Some(s.clone())));
                t.tc_field_identifier(Some(s))
            }
        }
        11 => {
            w.push((b'h', None));
            t.hyperlink()
        }
        12 => {
            w.push((b'w', None));
            t.preserve_tab()
        }
        13 => {
            w.push((b'x', None));
            t.preserve_new_line()
        }
        14 => {
            w.push((b'u', None));
            t.use_applied_paragraph_line_level()
        }
        _ => {
            w.push((b'z', None));
            t.hide_tab_and_page_numbers_in_webview()
        }
    }
}
fn code(d: &El) -> Vec<u8> {
    let mut v = vec![];
    d.all("w:instrText", &mut v);
    d.all("w:delInstrText", &mut v);
    sx::check(v.len() == 1, "one field code");
    v.first().map(|v| v.text()).unwrap_or_default()
}
fn check_toc(t: InstrToC, w: &Switches) {
    let d = Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_instr_text(InstrText::TOC(t.clone()))));
    let x = d.build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    let c = code(&e);
    same_code(&c, "TOC", None, w, "field code");
    // the code is understood again
    let s = String::from_utf8(c).unwrap();
    sx::check(InstrToC::from_str(&s).ok() == Some(t.clone()), "code taken apart");
    let q = InstrToC::with_instr_text(s.strip_prefix("TOC ").unwrap_or(&s));
    sx::check(q == t, "code taken apart without its name");
    // and read back as it is
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    let want = Paragraph::new().add_run(Run { run_property: RunProperty::new(), children: vec![RunChild::InstrTextString(s)] });
    let got = match r.document.children.first() {
        Some(DocumentChild::Paragraph(p)) => p.children == want.children,
        _ => false,
    };
    sx::check(got, "code read");
}

/// each switch of a table of contents
#[no_mangle]
pub extern "C-unwind" fn h_c12_toc_switch() {
    let mut w = vec![];
    let t = switch(sx::choice(SWITCHES), InstrToC::new(), &mut w, true);
    // an empty identifier is no identifier
    if w.iter().any(|w| w.1.as_deref() == Some("")) {
        return sx::reach("end");
    }
    check_toc(t, &w);
    sx::reach("end");
}

/// any two switches, and all but one
#[no_mangle]
pub extern "C-unwind" fn h_c12_toc_switches() {
    let mut w = vec![];
    let mut t = InstrToC::new();
    let a = sx::choice(SWITCHES + 1);
    if a == SWITCHES {
        let out = sx::choice(SWITCHES + 1);
        for k in 0..SWITCHES {
            if k != out {
                t = switch(k, t, &mut w, false);
            }
        }
    } else {
        let b = sx::choice(SWITCHES);
        sx::assume(a != b);
        t = switch(a, t, &mut w, false);
        t = switch(b, t, &mut w, false);
    }
    check_toc(t, &w);
    sx::reach("end");
}

/// codes as other programs write them
#[no_mangle]
pub extern "C-unwind" fn h_c12_toc_foreign() {
    let n = sx::usizev(1, 9);
    let sp = pick(&[" ", "  "]);
    let q = pick(&["\"", ""]);
    let lead = pick(&["", " "]);
    let trail = pick(&["", " "]);
    let (mid, t) = match sx::choice(7) {
        0 => (format!("\\o{sp}{q}{n}-9{q}{sp}\\h"), InstrToC::new().heading_styles_range(n, 9).hyperlink()),
        1 => (format!("\\n{sp}\\h{sp}\\z"), InstrToC::new().hyperlink().hide_tab_and_page_numbers_in_webview()),
        2 => (format!("\\o{sp}\\h{sp}\\u"), InstrToC::new().hyperlink().use_applied_paragraph_line_level()),
        3 => (
            format!("\\h{sp}\\t{sp}\"Heading One,{n},b,2\""),
            InstrToC::new()
                .hyperlink()
                .add_style_with_level(StyleWithLevel::new("Heading One", n))
                .add_style_with_level(StyleWithLevel::new("b", 2)),
        ),
        4 => (format!("\\f{sp}\\l{sp}{q}{n}-{n}{q}"), InstrToC::new().tc_field_identifier(None).tc_field_level_range(n, n)),
        5 => (format!("\\c{sp}{q}Figure{q}{sp}\\f"), InstrToC::new().caption_label_including_numbers("Figure").tc_field_identifier(None)),
        _ => (format!("\\b{sp}{q}x{n}{q}{sp}\\w{sp}\\x"), InstrToC::new().entry_bookmark_name(format!("x{n}")).preserve_tab().preserve_new_line()),
    };
    let s = format!("{lead}TOC{sp}{mid}{trail}");
    sx::check(InstrToC::from_str(&s).ok() == Some(t), "code taken apart");
    sx::reach("end");
}

/// the other field codes
#[no_mangle]
pub extern "C-unwind" fn h_c12_codes() {
    let s = arg(2);
    let mut w: Switches = vec![];
    let (i, name, first) = match sx::choice(7) {
        0 => {
            let mut c = InstrTC::new(&s[..]);
            match sx::choice(3) {
                0 => {}
                1 => {
                    let l = sx::usizev(0, 9_999);
                    w.push((b'l', Some(l.to_string())));
                    c = c.level(l);
                }
                _ => {
                    w.push((b'f', Some("k".to_string())));
                    c = c.item_type_identifier("k");
                }
            }
            if sx::choice(2) == 1 {
                w.push((b'n', None));
                c = c.omits_page_number();
            }
            (InstrText::TC(c), "TC", Some(s.clone()))
        }
        1 => {
            let s = ident(3);
            let mut c = InstrPAGEREF::new(&s[..]);
            if sx::choice(2) == 1 {
                w.push((b'h', None));
                c = c.hyperlink();
            }
            if sx::choice(2) == 1 {
                w.push((b'p', None));
                c = c.relative_position();
            }
            let mut text = s.clone();
            for (k, _) in &w {
                text += &format!(" \\{}", *k as char);
            }
            sx::check(InstrPAGEREF::from_str(&text).ok() == Some(c.clone()), "code taken apart");
            (InstrText::PAGEREF(c), "PAGEREF", Some(s))
        }
        2 => {
            (InstrText::HYPERLINK(InstrHyperlink::new(&s[..])), "HYPERLINK", Some(s.clone()))
        }
        3 => {
            w.push((b'l', Some(s.clone())));
            let mut c = InstrHyperlink::new(&s[..]);
            c.anchor = true;
            (InstrText::HYPERLINK(c), "HYPERLINK", None)
        }
        4 => (InstrText::PAGE(InstrPAGE::new()), "PAGE", None),
        5 => (InstrText::NUMPAGES(InstrNUMPAGES::new()), "NUMPAGES", None),
        _ => {
            w.push((b'b', Some(s.clone())));
            (InstrText::Unsupported(format!("SEQ \\b \"{s}\"")), "SEQ", None)
        }
    };
    let d = Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_instr_text(i)));
    let x = d.build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    let c = code(&e);
    same_code(&c, name, first.as_deref(), &w, "field code");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    let y = r.build();
    let Some(e) = part(&y.document, "wf") else { return };
    sx::check_eq(&code(&e), &c, "field code rewritten");
    sx::reach("end");
}

/// What a story says about fields, in order: b(egin), s(eparate), e(nd), c(ode), t(ext).
fn story(e: &El, out: &mut Vec<(u8, Vec<u8>)>) {
    for c in e.els() {
        match &c.name[..] {
            "w:fldChar" => {
                let k = c.attr("w:fldCharType").unwrap_or(b"?")[0];
                out.push((k, vec![]));
            }
            "w:instrText" | "w:delInstrText" => out.push((b'c', c.text())),
            "w:t" => out.push((b't', c.text())),
            _ => {}
        }
        story(c, out);
    }
}
/// every field begins, has its code, and ends, one inside the other
fn balanced(s: &[(u8, Vec<u8>)]) {
    // 1: in its code, 2: in its result
    let mut open: Vec<u8> = vec![];
    for (k, _) in s {
        match k {
            b'b' => open.push(1),
            b's' => {
                sx::check(open.last() == Some(&1), "field separated");
                if let Some(l) = open.last_mut() {
                    *l = 2;
                }
            }
            b'c' => sx::check(open.last() == Some(&1), "code inside a field"),
            b'e' => sx::check(open.pop().is_some(), "field ended"),
            _ => sx::check(open.last() != Some(&1), "text outside of codes"),
        }
    }
    sx::check(open.is_empty(), "field left open");
}
fn table(t: &str) -> Table {
    Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(par(t))])])
}

/// a table of contents with what stands around and in it
#[no_mangle]
pub extern "C-unwind" fn h_c12_toc() {
    let n = two();
    let mut t = TableOfContents::new().heading_styles_range(1, 3);
    let mut want: Vec<String> = vec!["first".into()];
    match sx::choice(3) {
        0 => {}
        1 => {
            want.push(format!("B{n}"));
            t = t.add_before_paragraph(par(&format!("B{n}")));
        }
        _ => {
            want.push(format!("B{n}"));
            t = t.add_before_table(table(&format!("B{n}")));
        }
    }
    let items = sx::choice(3);
    for i in 0..items {
        let mut item = TableOfContentsItem::new().text(format!("item {i}<")).toc_key(format!("k{i}&")).level(i + 2);
        want.push(format!("item {i}<"));
        if sx::choice(2) == 1 {
            item = item.page_ref("77");
            want.push("77".into());
        } else {
            want.push("1".into());
        }
        t = t.add_item(item);
    }
    for i in 0..sx::choice(3) {
        let s = format!("A{i}{n}");
        t = if sx::choice(2) == 0 { t.add_after_paragraph(par(&s)) } else { t.add_after_table(table(&s)) };
        want.push(s);
    }
    want.push("last".into());
    let hyper = sx::choice(2) == 1;
    if hyper {
        t = t.hyperlink();
    }
    match sx::choice(4) {
        0 => t = t.without_sdt(),
        1 => t = t.delete("A&B", "d"),
        2 => t = t.alias("al<"),
        _ => t = t.dirty(),
    }
    let deleted = t.delete.is_some() && items == 0;
    let d = Docx::new().add_paragraph(par("first")).add_table_of_contents(t).add_paragraph(par("last"));
    let x = d.build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    let mut s = vec![];
    story(&e, &mut s);
    balanced(&s);
    let codes: Vec<&Vec<u8>> = s.iter().filter(|s| s.0 == b'c').map(|s| &s.1).collect();
    sx::check(codes.len() == 1 + items, "number of fields");
    let mut w: Switches = vec![(b'o', Some("1-3".to_string()))];
    if hyper {
        w.push((b'h', None));
    }
    for (i, c) in codes.iter().enumerate() {
        if i == 0 {
            same_code(c, "TOC", None, &w, "field code");
        } else {
            same_code(c, "PAGEREF", Some(&format!("k{}&", i - 1)), &vec![(b'h', None)], "page reference");
        }
    }
    let texts: Vec<&Vec<u8>> = s.iter().filter(|s| s.0 == b't' && !s.1.is_empty()).map(|s| &s.1).collect();
    sx::check(texts.len() == want.len(), "number of texts");
    for (g, w) in texts.iter().zip(&want) {
        sx::check_eq(g, w.as_bytes(), "order of content");
    }
    let mut del = vec![];
    e.all("w:del", &mut del);
    sx::check(del.len() == deleted as usize, "deleted");
    for d in del {
        sx::check_eq(d.attr("w:author").unwrap_or(b""), b"A&B", "author");
        sx::check_eq(d.attr("w:date").unwrap_or(b""), b"d", "date");
    }
    let mut links = vec![];
    e.all("w:hyperlink", &mut links);
    sx::check(links.len() == if hyper { items } else { 0 }, "links");
    for (i, l) in links.iter().enumerate() {
        sx::check_eq(l.attr("w:anchor").unwrap_or(b""), format!("k{i}&").as_bytes(), "anchor");
    }
    let mut styles = vec![];
    e.all("w:pStyle", &mut styles);
    for i in 0..items {
        sx::check_eq(styles.get(i).and_then(|s| s.attr("w:val")).unwrap_or(b""), format!("ToC{}", i + 2).as_bytes(), "level");
    }
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    let y = r.build();
    let Some(e) = part(&y.document, "wf") else { return };
    let mut s2 = vec![];
    story(&e, &mut s2);
    balanced(&s2);
    sx::reach("end");
}

/// page numbers and other fields next to each other
#[no_mangle]
pub extern "C-unwind" fn h_c12_page_fields() {
    let mut p = Paragraph::new();
    let mut codes: Vec<Vec<u8>> = vec![];
    for i in 0..sx::choice(3) {
        p = match sx::choice(4) {
            0 => {
                codes.push(b"PAGE".to_vec());
                p.add_page_num(PageNum::new())
            }
            1 => {
                codes.push(b"NUMPAGES".to_vec());
                p.add_num_pages(NumPages::new())
            }
            2 => p.add_run(run(&format!("t{i}"))),
            _ => {
                let c = format!("X {}", sx::u32v(0, 99));
                codes.push(c.clone().into_bytes());
                let dirty = sx::choice(2) == 1;
                p.add_run(Run::new().add_field_char(FieldCharType::Begin, dirty))
                    .add_run(Run::new().add_instr_text(InstrText::Unsupported(c)))
                    .add_run(Run::new().add_field_char(FieldCharType::Separate, false))
                    .add_run(run("r"))
                    .add_run(Run::new().add_field_char(FieldCharType::End, false))
            }
        };
    }
    let d = match sx::choice(3) {
        0 => Docx::new().add_paragraph(p),
        1 => Docx::new().footer(Footer::new().add_paragraph(p)),
        _ => {
            // the footer's own calls
            Docx::new().header(Header::new().add_paragraph(p))
        }
    };
    let b = pack(d);
    let Some(parts) = trees(&b, "wf") else { return };
    let check = |parts: &[(String, El)], id: &str| {
        let mut s = vec![];
        for n in ["word/document.xml", "word/header1.xml", "word/footer1.xml"] {
            if let Some(p) = parts.iter().find(|p| p.0 == n) {
                story(&p.1, &mut s);
            }
        }
        balanced(&s);
        let got: Vec<&Vec<u8>> = s.iter().filter(|s| s.0 == b'c').map(|s| &s.1).collect();
        sx::check(got.len() == codes.len(), id);
        for (g, w) in got.iter().zip(&codes) {
            sx::check_eq(g, w, id);
        }
    };
    check(&parts, "fields");
    let Some(r) = read_ok(&b, "readable") else { return };
    let Some(parts) = trees(&pack(r), "wf2") else { return };
    check(&parts, "fields read");
    sx::reach("end");
}

const STYLES: [(&str, &str, usize); 6] = [
    ("H1", "heading 1", 1),
    ("H2", "Heading 2", 2),
    ("H9", "heading 9", 9),
    ("Ha", "heading 10", 10),
    ("Other", "Other", 0),
    ("Hx", "heading x", 0),
];

/// an automatic table lists the headings asked for, in order, and refers to them
#[no_mangle]
pub extern "C-unwind" fn h_c12_auto() {
    let n = two();
    let mut d = Docx::new();
    for (id, name, _) in STYLES {
        d = d.add_style(Style::new(id, StyleType::Paragraph).name(name));
    }
    let mut t = TableOfContents::new().auto();
    let mut range = (0, 9);
    match sx::choice(4) {
        0 => {}
        1 => {
            range = (1, 1);
            t = t.heading_styles_range(1, 1);
        }
        2 => {
            range = (2, 9);
            t = t.heading_styles_range(2, 9);
        }
        _ => {
            let (a, b) = (sx::usizev(0, 9), 3);
            range = (a, b);
            t = t.heading_styles_range(a, b);
        }
    }
    let custom = sx::choice(2) == 1;
    if custom {
        t = t.add_style_with_level(StyleWithLevel::new("Other", 2)).add_style_with_level(StyleWithLevel::new("None", 1));
    }
    // without headings asked for nothing is collected for other styles alone
    let none = custom && t.instr.heading_styles_range.is_none();
    // where the table stands, whether its entries are links, whether the document has bookmarks
    let (at, hyper, own) = pick(&[(0, false, false), (1, true, false), (2, false, true)]);
    if hyper {
        t = t.hyperlink();
    }
    let mut want: Vec<(usize, String)> = vec![];
    for i in 0..3 {
        if i == at {
            d = d.add_table_of_contents(t.clone());
        }
        if i == 2 {
            break;
        }
        let mut p = Paragraph::new();
        let text = format!(" P{i}&{n} ");
        if own && i == 1 {
            // a bookmark of the document's own
            let id = sx::usizev(0, 9);
            let name = if sx::choice(2) == 0 { "mine".to_string() } else { format!("_Toc0000000{}", sx::usizev(0, 9)) };
            p = p.add_bookmark_start(id, name).add_run(run(&text)).add_bookmark_end(id);
        } else {
            p = p.add_run(run(&text));
        }
        let k = sx::choice(STYLES.len() + 1);
        if k < STYLES.len() {
            p = p.style(STYLES[k].0);
            let l = if custom && STYLES[k].0 == "Other" { 2 } else { STYLES[k].2 };
            if !none && l > 0 && range.0 <= l && l <= range.1 {
                want.push((l, text));
            }
        }
        d = d.add_paragraph(p);
    }
    let x = d.build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    let mut s = vec![];
    story(&e, &mut s);
    balanced(&s);
    // the entries: paragraphs styled as such which hold text
    let mut ps = vec![];
    e.all("w:p", &mut ps);
    let style = |p: &El| p.at("w:pPr/w:pStyle").and_then(|s| s.attr("w:val")).map(|v| v.to_vec()).unwrap_or_default();
    let entries: Vec<&El> = ps.iter().filter(|p| style(p).starts_with(b"ToC")).copied().collect();
    let entries: Vec<&El> = entries
        .into_iter()
        .filter(|p| {
            let mut v = vec![];
            p.all("w:t", &mut v);
            !v.is_empty()
        })
        .collect();
    sx::check(entries.len() == want.len(), "number of entries");
    if entries.len() != want.len() {
        return;
    }
    let mut ids: Vec<&[u8]> = vec![];
    let mut starts = vec![];
    e.all("w:bookmarkStart", &mut starts);
    for b in &starts {
        let id = b.attr("w:id").unwrap_or(b"");
        sx::check(!ids.contains(&id), "bookmark id used twice");
        ids.push(id);
    }
    for (p, (l, text)) in entries.iter().zip(&want) {
        sx::check_eq(&style(p), format!("ToC{l}").as_bytes(), "level");
        let mut s = vec![];
        story(p, &mut s);
        let first = s.iter().find(|s| s.0 == b't').map(|s| &s.1[..]).unwrap_or(b"");
        sx::check_eq(first, text.as_bytes(), "entry");
        let code = s.iter().filter(|s| s.0 == b'c').last().map(|s| s.1.clone()).unwrap_or_default();
        let w = words(&code);
        let Some(key) = w.get(1) else {
            return sx::check(false, "page reference");
        };
        // the key names exactly one bookmark, which holds the heading
        let mut holds = vec![];
        for p in &ps {
            if p.els().any(|c| c.name == "w:bookmarkStart" && c.attr("w:name") == Some(key)) {
                let mut v = vec![];
                p.all("w:t", &mut v);
                holds.push(v.iter().flat_map(|t| t.text()).collect::<Vec<u8>>());
            }
        }
        sx::check(holds.len() == 1, "one heading per entry");
        sx::check_eq(holds.first().map(|h| &h[..]).unwrap_or(b""), text.as_bytes(), "heading referred to");
        if hyper {
            let h = p.child("w:hyperlink").and_then(|h| h.attr("w:anchor")).unwrap_or(b"");
            sx::check_eq(h, key, "anchor");
        }
    }
    sx::reach("end");
}
