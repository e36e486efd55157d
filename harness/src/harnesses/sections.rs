//! C07: page layout of sections, their headers and footers.
use super::paragraph::two;
use super::util::*;
use crate::sx;
use docx_rs::*;

/// one layout call, applicable to the document and to inner sections
#[derive(Clone)]
enum Op {
    Size(u32, u32),
    Orient(PageOrientationType),
    Margin(PageMargin),
    Grid(DocGrid),
    Dir(String),
    Title,
    Num(PageNumType),
    Type(SectionType),
    Cols(usize, usize),
}
/// operations of the document, and of inner sections
const DOC: [usize; 5] = [0, 1, 2, 3, 4];
const INNER: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];
const OPS: usize = 9;

const GRID: [(DocGridType, &str); 4] = [
    (DocGridType::Default, "default"),
    (DocGridType::Lines, "lines"),
    (DocGridType::LinesAndChars, "linesAndChars"),
    (DocGridType::SnapToChars, "snapToChars"),
];
const TYPE: [(SectionType, &str); 5] = [
    (SectionType::NextPage, "nextPage"),
    (SectionType::NextColumn, "nextColumn"),
    (SectionType::Continuous, "continuous"),
    (SectionType::EvenPage, "evenPage"),
    (SectionType::OddPage, "oddPage"),
];

fn base() -> Exp {
    let mut e = Exp::default();
    e.el("w:pgSz", vec![("w:w", dec(11906)), ("w:h", dec(16838))]);
    e.el(
        "w:pgMar",
        vec![
            ("w:top", dec(1985)),
            ("w:right", dec(1701)),
            ("w:bottom", dec(1701)),
            ("w:left", dec(1701)),
            ("w:header", dec(851)),
            ("w:footer", dec(992)),
            ("w:gutter", dec(0)),
        ],
    );
    e.el("w:cols", vec![("w:space", dec(425)), ("w:num", dec(1))]);
    e
}
fn put(e: &mut Exp, el: &'static str, at: &'static str, v: Val) {
    let w = e.get(el).unwrap();
    w.attrs.retain(|a| a.0 != at);
    w.attrs.push((at, v));
}

fn op(k: usize, e: &mut Exp, wide: bool) -> Op {
    match k {
        0 => {
            let c = if wide { sx::choice(2) } else { 2 };
            let w = if c == 0 { i31w() as u32 } else { two() };
            let h = if c == 1 { i31w() as u32 } else { two() };
            put(e, "w:pgSz", "w:w", dec(w));
            put(e, "w:pgSz", "w:h", dec(h));
            Op::Size(w, h)
        }
        1 => {
            let l = !wide || sx::choice(2) == 0;
            put(e, "w:pgSz", "w:orient", st(if l { "landscape" } else { "portrait" }));
            Op::Orient(if l { PageOrientationType::Landscape } else { PageOrientationType::Portrait })
        }
        2 => {
            let c = if wide { sx::choice(8) } else { 7 };
            let mut m = PageMargin::new();
            let mut v = |k: usize, n: &'static str| {
                let x = if c == k { i32w() } else { two() as i32 };
                put(e, "w:pgMar", n, dec(x));
                x
            };
            // one alone keeps the defaults of the others
            match c {
                0 => m = m.top(v(0, "w:top")),
                1 => m = m.left(v(1, "w:left")),
                2 => m = m.bottom(v(2, "w:bottom")),
                3 => m = m.right(v(3, "w:right")),
                4 => m = m.header(v(4, "w:header")),
                5 => m = m.footer(v(5, "w:footer")),
                6 => m = m.gutter(v(6, "w:gutter")),
                _ => {
                    m = PageMargin {
                        top: v(9, "w:top"),
                        left: v(9, "w:left"),
                        bottom: v(9, "w:bottom"),
                        right: v(9, "w:right"),
                        header: v(9, "w:header"),
                        footer: v(9, "w:footer"),
                        gutter: v(9, "w:gutter"),
                    }
                }
            }
            Op::Margin(m)
        }
        3 => {
            e.val("w:titlePg", Val::On);
            Op::Title
        }
        4 => {
            let c = if wide { sx::choice(4) } else { 3 };
            let mut p = PageNumType::new();
            let mut a = vec![];
            if c & 1 != 0 {
                let n = if wide && c == 1 { u32w() } else { two() };
                p = p.start(n);
                a.push(("w:start", dec(n)));
            }
            if c & 2 != 0 {
                let s = if wide && c == 2 { sx::ascii(3) } else { ident(1) };
                a.push(("w:chapStyle", st(&s)));
                p = p.chap_style(s);
            }
            e.el("w:pgNumType", a);
            Op::Num(p)
        }
        5 => {
            let (t, n) = if wide { pick(&GRID) } else { GRID[2] };
            let c = if wide { sx::choice(4) } else { 3 };
            let mut g = DocGrid::with_empty().grid_type(t);
            let mut a = vec![("w:type", st(n))];
            if c & 1 != 0 {
                let n = if wide && c == 1 { sx::u32v(0, 9999) } else { two() };
                g = g.line_pitch(n as usize);
                a.push(("w:linePitch", dec(n)));
            }
            if c & 2 != 0 {
                let n = if wide && c == 2 { [1, -1][sx::choice(2)] * sx::u32v(1, 9999) as i32 } else { two() as i32 };
                g = g.char_space(n as isize);
                a.push(("w:charSpace", dec(n)));
            }
            e.el("w:docGrid", a);
            Op::Grid(g)
        }
        6 => {
            let d = if wide { pick(&["tbRl", "btLr", "lrTbV", "tbRlV"]) } else { "tbRl" };
            e.val("w:textDirection", st(d));
            Op::Dir(d.to_string())
        }
        7 => {
            let (t, n) = if wide { pick(&TYPE) } else { TYPE[3] };
            e.val("w:type", st(n));
            Op::Type(t)
        }
        _ => {
            let n = if wide { usizew() } else { two() as usize };
            let s = two() as usize;
            e.el("w:cols", vec![("w:space", dec(s)), ("w:num", dec(n))]);
            Op::Cols(n, s)
        }
    }
}
fn on_docx(d: Docx, o: &Op) -> Docx {
    match o.clone() {
        Op::Size(w, h) => d.page_size(w, h),
        Op::Orient(o) => d.page_orient(o),
        Op::Margin(m) => d.page_margin(m),
        Op::Title => d.title_pg(),
        Op::Num(p) => d.page_num_type(p),
        _ => unreachable!(),
    }
}
fn on_section(s: Section, o: &Op) -> Section {
    match o.clone() {
        Op::Size(w, h) => s.page_size(PageSize::new().size(w, h)),
        Op::Orient(o) => s.page_orient(o),
        Op::Margin(m) => s.page_margin(m),
        Op::Grid(g) => s.doc_grid(g),
        Op::Dir(d) => s.text_direction(d),
        Op::Title => s.title_pg(),
        Op::Num(p) => s.page_num_type(p),
        _ => unreachable!(),
    }
}
fn on_property(mut s: SectionProperty, o: &Op) -> SectionProperty {
    match o.clone() {
        Op::Size(w, h) => s.page_size = s.page_size.size(w, h),
        Op::Orient(o) => s = s.page_orient(o),
        Op::Margin(m) => s = s.page_margin(m),
        Op::Grid(g) => s = s.doc_grid(g),
        Op::Dir(d) => s = s.text_direction(d),
        Op::Title => s = s.title_pg(),
        Op::Num(p) => s = s.page_num_type(p),
        Op::Type(t) => s.section_type = Some(t),
        Op::Cols(n, c) => {
            s.columns = n;
            s.space = c;
        }
    }
    s
}

fn para(t: &str) -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(t))
}
/// the layout settings of the sections of a body, in order, with the texts of
/// the paragraphs each section holds
fn sections(t: &El) -> Vec<(&El, Vec<u8>)> {
    let mut v = vec![];
    let mut text = vec![];
    let Some(b) = t.child("w:body") else { return v };
    for e in b.els() {
        if e.name == "w:sectPr" {
            v.push((e, std::mem::take(&mut text)));
        }
        let mut ts = vec![];
        e.all("w:t", &mut ts);
        for t in ts {
            text.extend_from_slice(&t.text());
        }
        if let Some(s) = e.at("w:pPr/w:sectPr") {
            v.push((s, std::mem::take(&mut text)));
        }
    }
    if !text.is_empty() {
        sx::check(false, "content outside sections");
    }
    v
}
/// sections as the document read back has them
fn read_sections(d: &Docx) -> Vec<(SectionProperty, String)> {
    let mut v = vec![];
    let mut text = String::new();
    for c in &d.document.children {
        if let DocumentChild::Paragraph(p) = c {
            text.push_str(&p.raw_text());
            if let Some(s) = &p.property.section_property {
                v.push((s.clone(), std::mem::take(&mut text)));
            }
        }
    }
    v.push((d.document.section_property.clone(), text));
    v
}
/// `want` in order: settings, text of the section, the same as an element
fn verify(d: Docx, want: Vec<(SectionProperty, &str, Exp)>) {
    let x = d.build();
    let Some(t) = part(&x.document, "wf") else { return };
    let got = sections(&t);
    sx::check(got.len() == want.len(), "number of sections");
    for ((e, text), (_, s, exp)) in got.iter().zip(&want) {
        sx::check_eq(text, s.as_bytes(), "section content");
        exp.verify(Some(e), "written");
    }
    let b = mini(&x.document);
    let Some(r) = read_ok(&b, "readable") else { return };
    let got = read_sections(&r);
    sx::check(got.len() == want.len(), "number of sections read");
    for ((p, text), (w, s, _)) in got.into_iter().zip(want) {
        sx::check_eq(text.as_bytes(), s.as_bytes(), "section content read");
        // portrait is the same as nothing said
        let upright = |s: &PageSize| s.clone().orient(PageOrientationType::Portrait);
        sx::check(p.page_size == w.page_size || upright(&p.page_size) == w.page_size, "page size");
        sx::check(p.page_margin == w.page_margin, "margins");
        sx::check(p.doc_grid == w.doc_grid, "grid");
        sx::check(p.page_num_type == w.page_num_type, "page numbers");
        sx::check(p.title_pg == w.title_pg, "title page");
        sx::check(p.section_type == w.section_type, "section type");
        sx::check(p.text_direction == w.text_direction, "text direction");
        // a single column has no space beside it
        let one = p.columns == 1 && w.columns <= 1;
        sx::check(one || p.columns == w.columns && p.space == w.space, "columns");
    }
    sx::reach("end");
}
/// apply the operations at one of the places layout can be given
fn place(ops: &[Op], e: Exp) {
    let mut w = SectionProperty::new();
    for o in ops {
        w = on_property(w, o);
    }
    match sx::choice(3) {
        0 => {
            let mut d = Docx::new();
            for o in ops {
                sx::assume(!matches!(o, Op::Grid(_) | Op::Dir(_) | Op::Type(_) | Op::Cols(..)));
                d = on_docx(d, o);
            }
            verify(d.add_paragraph(para("a")), vec![(w, "a", e)]);
        }
        1 => {
            let mut s = Section::new().add_paragraph(para("a"));
            for (i, o) in ops.iter().enumerate() {
                sx::assume(!matches!(o, Op::Type(_) | Op::Cols(..)));
                // sections are given a complete page size
                sx::assume(!(matches!(o, Op::Size(..)) && ops[..i].iter().any(|p| matches!(p, Op::Orient(_)))));
                s = on_section(s, o);
            }
            let d = Docx::new().add_section(s).add_paragraph(para("b"));
            verify(d, vec![(w, "a", e), (SectionProperty::new(), "b", base())]);
        }
        _ => {
            let p = para("b");
            let p = Paragraph { property: p.property.clone().section_property(w.clone()), ..p };
            let d = Docx::new().add_paragraph(para("a")).add_paragraph(p).add_paragraph(para("c"));
            verify(d, vec![(w, "ab", e), (SectionProperty::new(), "c", base())]);
        }
    }
}

/// one setting alone over its value range
#[no_mangle]
pub extern "C-unwind" fn h_c07_single() {
    let mut e = base();
    let o = op(sx::choice(OPS), &mut e, true);
    place(&[o], e);
}
/// two settings in either order, or the same one twice
#[no_mangle]
pub extern "C-unwind" fn h_c07_combined() {
    let mut e = base();
    let j = sx::choice(OPS + 1);
    if j == OPS {
        let all: Vec<Op> = (0..OPS).map(|k| op(k, &mut e, false)).collect();
        let (a, b) = (sx::choice(2), sx::choice(2));
        // everything a place offers
        let n = [DOC.len(), INNER.len(), OPS][a + b];
        if n < OPS {
            for el in [(5, "w:docGrid"), (6, "w:textDirection"), (7, "w:type"), (8, "w:cols")] {
                if n <= el.0 {
                    if el.0 == 8 {
                        e.el("w:cols", vec![("w:space", dec(425)), ("w:num", dec(1))]);
                    } else {
                        e.drop(el.1);
                    }
                }
            }
        }
        place(&all[..n], e);
        return;
    }
    let k = sx::choice(OPS);
    let (mut a, mut b) = (base(), base());
    // what an earlier call of the same setting left is replaced
    let o = op(j, &mut a, false);
    let p = op(k, &mut b, false);
    if j == k {
        e = b;
    } else {
        e = b;
        match (j, &o) {
            (0, Op::Size(w, h)) => {
                put(&mut e, "w:pgSz", "w:w", dec(*w));
                put(&mut e, "w:pgSz", "w:h", dec(*h));
            }
            (1, _) => put(&mut e, "w:pgSz", "w:orient", st("landscape")),
            _ => {
                let name = ["", "", "w:pgMar", "w:titlePg", "w:pgNumType", "w:docGrid", "w:textDirection", "w:type", "w:cols"][j];
                e.drop(name);
                let i = a.els.iter().position(|w| w.name == name).unwrap();
                e.els.push(a.els.remove(i));
            }
        }
    }
    place(&[o, p], e);
}
/// several sections, each with a setting of its own
#[no_mangle]
pub extern "C-unwind" fn h_c07_several() {
    let n = sx::choice(4);
    let mut d = Docx::new();
    let mut want = vec![];
    const T: [&str; 4] = ["a", "b", "c", "d"];
    for i in 0..n {
        let mut e = base();
        let mut w = SectionProperty::new();
        let mut s = Section::new().add_paragraph(para(T[i]));
        let k = sx::choice(if i == 0 { INNER.len() + 1 } else { 3 });
        if k < INNER.len() {
            let o = op(k, &mut e, false);
            s = on_section(s, &o);
            w = on_property(w, &o);
        }
        d = d.add_section(s);
        want.push((w, T[i], e));
    }
    let mut e = base();
    let mut w = SectionProperty::new();
    let k = sx::choice(if n < 2 { DOC.len() + 1 } else { 2 });
    if k < DOC.len() {
        let o = op(k, &mut e, false);
        d = on_docx(d, &o);
        w = on_property(w, &o);
    }
    want.push((w, T[n], e));
    verify(d.add_paragraph(para(T[n])), want);
}

const KIND: [&str; 3] = ["default", "first", "even"];
fn head(d: Docx, k: usize, t: &str) -> Docx {
    match k {
        0 => d.header(Header::new().add_paragraph(para(t))),
        1 => d.first_header(Header::new().add_paragraph(para(t))),
        2 => d.even_header(Header::new().add_paragraph(para(t))),
        3 => d.footer(Footer::new().add_paragraph(para(t))),
        4 => d.first_footer(Footer::new().add_paragraph(para(t))),
        _ => d.even_footer(Footer::new().add_paragraph(para(t))),
    }
}
fn section_head(d: Section, k: usize, t: &str) -> Section {
    match k {
        0 => d.header(Header::new().add_paragraph(para(t))),
        1 => d.first_header(Header::new().add_paragraph(para(t))),
        2 => d.even_header(Header::new().add_paragraph(para(t))),
        3 => d.footer(Footer::new().add_paragraph(para(t))),
        4 => d.first_footer(Footer::new().add_paragraph(para(t))),
        _ => d.even_footer(Footer::new().add_paragraph(para(t))),
    }
}
/// text shown by the header (k < 3) or footer of a section element
fn shown(parts: &[(String, El)], s: &El, k: usize) -> Vec<u8> {
    let name = if k < 3 { "w:headerReference" } else { "w:footerReference" };
    let v: Vec<&El> =
        s.els().filter(|e| e.name == name && e.attr("w:type") == Some(KIND[k % 3].as_bytes())).collect();
    if v.is_empty() {
        return b"(none)".to_vec();
    }
    sx::check(v.len() == 1, "one reference of a kind");
    let id = v[0].attr("r:id").unwrap_or(b"");
    let Some((_, rels)) = parts.iter().find(|p| p.0 == "word/_rels/document.xml.rels") else {
        return b"(no relationships)".to_vec();
    };
    let Some(r) = rels.els().find(|r| r.attr("Id") == Some(id)) else {
        return b"(no relationship)".to_vec();
    };
    let target = r.attr("Target").unwrap_or(b"");
    let Some((_, p)) = parts.iter().find(|p| p.0.as_bytes().strip_prefix(b"word/") == Some(target)) else {
        return b"(no part)".to_vec();
    };
    sx::check_eq(p.name.as_bytes(), if k < 3 { b"w:hdr" } else { b"w:ftr" }, "kind of part");
    let mut ts = vec![];
    p.all("w:t", &mut ts);
    ts.iter().flat_map(|t| t.text()).collect()
}
fn first(h: &Option<(String, Header)>) -> String {
    match h {
        None => "(none)".into(),
        Some((_, h)) => h.children.iter().map(|c| if let HeaderChild::Paragraph(p) = c { p.raw_text() } else { "?".into() }).collect(),
    }
}
fn first_f(h: &Option<(String, Footer)>) -> String {
    match h {
        None => "(none)".into(),
        Some((_, h)) => h.children.iter().map(|c| if let FooterChild::Paragraph(p) = c { p.raw_text() } else { "?".into() }).collect(),
    }
}
/// headers and footers: `inner[i][k]` of the sections before the last, `last[k]`
fn verify_heads(d: Docx, inner: Vec<[Option<String>; 6]>, last: [Option<String>; 6]) {
    let b = pack(d);
    let Some(parts) = trees(&b, "wf") else { return };
    let Some((_, doc)) = parts.iter().find(|p| p.0 == "word/document.xml") else {
        sx::check(false, "main document");
        return;
    };
    let got = sections(doc);
    sx::check(got.len() == inner.len() + 1, "number of sections");
    let even = inner.iter().chain([&last]).any(|h| h[2].is_some() || h[5].is_some());
    for (i, (s, _)) in got.iter().enumerate() {
        let want = inner.get(i).unwrap_or(&last);
        for k in 0..6 {
            let w = want[k].as_deref().unwrap_or("(none)");
            sx::check_eq(&shown(&parts, s, k), w.as_bytes(), ["header", "first header", "even header", "footer", "first footer", "even footer"][k]);
        }
        // a first-page header shows only with the title page setting, an even
        // one only with the document-wide setting
        sx::check((s.count("w:titlePg") == 1) == (want[1].is_some() || want[4].is_some()), "title page");
    }
    let on = parts.iter().any(|p| p.0 == "word/settings.xml" && p.1.count("w:evenAndOddHeaders") == 1);
    sx::check(on == even, "even and odd");
    let Some(r) = read_ok(&b, "readable") else { return };
    let p = &r.document.section_property;
    let got = [
        first(&p.header),
        first(&p.first_header),
        first(&p.even_header),
        first_f(&p.footer),
        first_f(&p.first_footer),
        first_f(&p.even_footer),
    ];
    for k in 0..6 {
        sx::check_eq(got[k].as_bytes(), last[k].as_deref().unwrap_or("(none)").as_bytes(), "read back");
    }
    sx::check(p.title_pg == (last[1].is_some() || last[4].is_some()), "title page read");
    sx::reach("end");
}
/// headers and footers of the document: any subset, in two orders of calls
#[no_mangle]
pub extern "C-unwind" fn h_c07_headers() {
    let set = sx::choice(64);
    let rev = sx::choice(2) == 1;
    let mut last: [Option<String>; 6] = Default::default();
    let mut d = Docx::new().add_paragraph(para("x"));
    for i in 0..6 {
        let k = if rev { 5 - i } else { i };
        if set & (1 << k) != 0 {
            let t = ident(1) + &k.to_string();
            d = head(d, k, &t);
            last[k] = Some(t);
        }
    }
    verify_heads(d, vec![], last);
}
/// headers and footers of an inner section: any subset, with one of the
/// document's set before or after the section is added
#[no_mangle]
pub extern "C-unwind" fn h_c07_inner_headers() {
    let set = sx::choice(64);
    let mut h: [Option<String>; 6] = Default::default();
    let mut last: [Option<String>; 6] = Default::default();
    let mut s = Section::new().add_paragraph(para("x"));
    for k in 0..6 {
        if set & (1 << k) != 0 {
            let t = ident(1) + &k.to_string();
            s = section_head(s, k, &t);
            h[k] = Some(t);
        }
    }
    let mut d = Docx::new();
    let k = sx::choice(7);
    let before = sx::choice(2) == 0;
    if k < 6 {
        last[k] = Some(ident(2));
    }
    if before {
        if k < 6 {
            d = head(d, k, last[k].as_ref().unwrap());
        }
        d = d.add_section(s);
    } else {
        d = d.add_section(s);
        if k < 6 {
            d = head(d, k, last[k].as_ref().unwrap());
        }
    }
    verify_heads(d.add_paragraph(para("y")), vec![h], last);
}
/// three sections, each with one header or footer of any kind or none
#[no_mangle]
pub extern "C-unwind" fn h_c07_three() {
    let mut d = Docx::new();
    let mut inner = vec![];
    for _ in 0..2 {
        let mut h: [Option<String>; 6] = Default::default();
        let mut s = Section::new().add_paragraph(para("x"));
        let k = sx::choice(7);
        if k < 6 {
            let t = ident(2);
            s = section_head(s, k, &t);
            h[k] = Some(t);
        }
        d = d.add_section(s);
        inner.push(h);
    }
    let mut last: [Option<String>; 6] = Default::default();
    let k = sx::choice(7);
    if k < 6 {
        let t = ident(2);
        d = head(d, k, &t);
        last[k] = Some(t);
    }
    verify_heads(d.add_paragraph(para("y")), inner, last);
}
