//! C01: text fidelity in every container
use super::util::*;
use crate::sx;
use docx_rs::*;

pub fn p(s: &str) -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(s))
}
pub fn r(s: &str) -> Run {
    Run::new().add_text(s)
}
pub fn cell(c: TableCell) -> Table {
    Table::new(vec![TableRow::new(vec![c])])
}

pub const TEXT_SITES: usize = 34;
/// a document with the text in the k-th kind of place
pub fn text_site(k: usize, s: &str) -> Docx {
    let d = Docx::new();
    match k {
        0 => d.add_paragraph(p(s)),
        1 => d.add_paragraph(p("x").add_run(Run::new().add_text("y").add_tab().add_text(s))),
        2 => d.add_table(cell(TableCell::new().add_paragraph(p(s)))),
        3 => d.add_table(cell(TableCell::new().add_table(cell(TableCell::new().add_paragraph(p(s)))))),
        4 => d.add_section(Section::new().add_paragraph(p(s))),
        5 => d.add_paragraph(Paragraph::new().add_structured_data_tag(StructuredDataTag::new().add_run(r(s)))),
        6 => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p(s))),
        7 => d.add_paragraph(
            Paragraph::new().add_hyperlink(Hyperlink::new("http://a", HyperlinkType::External).add_run(r(s))),
        ),
        8 => d.add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new("a", HyperlinkType::Anchor).add_run(r(s)))),
        9 => d.add_paragraph(Paragraph::new().add_insert(Insert::new(r(s)))),
        10 => d.add_paragraph(Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text(s)))),
        11 => d.add_paragraph(
            Paragraph::new()
                .add_insert(Insert::new_with_del(Delete::new().add_run(Run::new().add_delete_text(s)))),
        ),
        12 => d.add_paragraph(Paragraph::new().add_move_from(MoveFrom::new().add_run(r(s)))),
        13 => d.add_paragraph(Paragraph::new().add_move_to(MoveTo::new(r(s)))),
        14 => d.header(Header::new().add_paragraph(p(s))),
        15 => d.first_header(Header::new().add_paragraph(p(s))),
        16 => d.even_header(Header::new().add_paragraph(p(s))),
        17 => d.footer(Footer::new().add_paragraph(p(s))),
        18 => d.first_footer(Footer::new().add_paragraph(p(s))),
        19 => d.even_footer(Footer::new().add_paragraph(p(s))),
        20 => d.add_paragraph(
            Paragraph::new()
                .add_comment_start(Comment::new(3).author("m").date("2024-01-01T00:00:00Z").add_paragraph(p(s)))
                .add_run(r("x"))
                .add_comment_end(3),
        ),
        21 => {
            let mut f = Footnote::new();
            f.add_content(p(s));
            d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(f)))
        }
        22 => d.add_table(cell(TableCell::new().add_structured_data_tag(StructuredDataTag::new().add_paragraph(p(s))))),
        23 => d.header(Header::new().add_table(cell(TableCell::new().add_paragraph(p(s))))),
        24 => d.footer(Footer::new().add_table(cell(TableCell::new().add_paragraph(p(s))))),
        25 => d.add_table(cell(TableCell::new().add_paragraph(
            Paragraph::new()
                .add_comment_start(Comment::new(3).add_paragraph(p(s)))
                .add_hyperlink(Hyperlink::new("a", HyperlinkType::Anchor).add_run(r(s)))
                .add_comment_end(3),
        ))),
        26 => d.add_paragraph(
            Paragraph::new().add_hyperlink(Hyperlink::new("a", HyperlinkType::Anchor).add_insert(Insert::new(r(s)))),
        ),
        27 => d.add_paragraph(p("a")).add_paragraph(p(s)).add_table(cell(TableCell::new().add_paragraph(p("b")))),
        28 => d.add_structured_data_tag(
            StructuredDataTag::new().add_table(cell(TableCell::new().add_paragraph(p(s)))),
        ),
        29 => d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).add_before_paragraph(p(s))),
        30 => d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).add_after_paragraph(p(s))),
        31 => d.add_section(Section::new().add_paragraph(p("a")).header(Header::new().add_paragraph(p(s)))),
        32 => d.add_table_of_contents(
            TableOfContents::new()
                .heading_styles_range(1, 3)
                .add_item(TableOfContentsItem::new().text(s).level(1).toc_key("k").page_ref("2")),
        ),
        _ => d.add_paragraph(Paragraph::new().add_run(Run::new().add_text("a").bold()).add_run(r(s)).add_run(r("b"))),
    }
}

/// symbolic text: the shapes below, characters symbolic
fn shape(k: usize) -> String {
    let sp = |n: usize| {
        let mut v = vec![];
        for _ in 0..n {
            v.push(match sx::choice(3) {
                0 => b' ',
                1 => b'\t',
                _ => sx::byte(b'a', b'z'),
            });
        }
        unsafe { String::from_utf8_unchecked(v) }
    };
    match k {
        0 => sx::ascii(1),
        // looks like a character reference
        1 => {
            let n = 1 + sx::choice(6);
            format!("&{};", ident(n))
        }
        2 => format!("&#{};", sx::alpha(1 + sx::choice(3), b'0', b'9')),
        // white space in all positions
        3 => sp(3),
        4 => sx::ascii(2),
        // other encodings
        5 => sx::text(2, 4),
        6 => String::new(),
        7 => format!("&#x{};", sx::alpha(2, b'0', b'9')),
        8 => sx::ascii(3),
        // longer text with one arbitrary character somewhere
        9 => {
            let base = "The quick brown fox jumps over the lazy dog";
            let at = sx::choice(base.len());
            format!("{}{}{}", &base[..at], sx::ascii(1), &base[at..])
        }
        10 => {
            let mut b = vec![];
            match sx::choice(6) {
                0 => b.extend([0xe0, sx::byte(0xa0, 0xbf), sx::byte(0x80, 0xbf)]),
                1 => b.extend([0xed, sx::byte(0x80, 0x9f), sx::byte(0x80, 0xbf)]),
                2 => b.extend([0xee, sx::byte(0x80, 0xbf), sx::byte(0x80, 0xbf)]),
                3 => b.extend([0xef, sx::byte(0x80, 0xbe), sx::byte(0x80, 0xbf)]),
                4 => b.extend([0xf0, sx::byte(0x90, 0xbf), sx::byte(0x80, 0xbf), sx::byte(0x80, 0xbf)]),
                _ => b.extend([0xf4, sx::byte(0x80, 0x8f), sx::byte(0x80, 0xbf), sx::byte(0x80, 0xbf)]),
            }
            unsafe { String::from_utf8_unchecked(b) }
        }
        _ => format!("<{}>{}</{}>", ident(1), sx::ascii(1), ident(1)),
    }
}

fn texts(t: &[(String, El)]) -> Vec<(String, Vec<u8>)> {
    let mut o = vec![];
    fn walk(e: &El, n: &str, o: &mut Vec<(String, Vec<u8>)>) {
        for c in e.els() {
            if c.name == "w:t" || c.name == "w:delText" {
                o.push((format!("{} {}", n, c.name), c.text()));
            }
            walk(c, n, o);
        }
    }
    for (n, e) in t {
        if n.starts_with("word/") {
            walk(e, n, &mut o);
        }
    }
    o
}

const MARK: &str = "qzq";

/// the text is found, unchanged, exactly where a plain marker text ends up
fn in_package(site: usize, s: &str) -> Option<(Vec<u8>, Vec<(String, El)>)> {
    let m = trees(&pack(text_site(site, MARK)), "wf")?;
    let b = pack(text_site(site, s));
    let t = trees(&b, "wf")?;
    same_package(&m, &t, MARK.as_bytes(), s.as_bytes(), "text in package");
    Some((b, t))
}
/// read and written again the texts are the same
fn read_again(b: &[u8], t: &[(String, El)], s: &str, plain: bool, id: &str) {
    let Some(d) = read_ok(b, "readable") else { return };
    if plain {
        // the document built in memory and the one read have the same text
        if let Some(DocumentChild::Paragraph(p)) = d.document.children.first() {
            sx::check_eq(p.raw_text().as_bytes(), s.as_bytes(), "raw text");
            sx::check(p.children == self::p(s).children, "document read");
        } else {
            sx::check(false, "paragraph read");
        }
    }
    let Some(u) = trees(&pack(d), "wf again") else { return };
    let (x, y) = (texts(t), texts(&u));
    let f = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|e| e.0.clone()).collect::<Vec<_>>().join(" ");
    sx::check_eq(f(&y).as_bytes(), f(&x).as_bytes(), id);
    for (a, b) in x.iter().zip(&y) {
        sx::check_eq(&b.1, &a.1, id);
    }
}
/// kinds of places the reader keeps (the rest is checked as written only)
fn readable(site: usize) -> bool {
    !matches!(site, 21 | 31)
}

#[no_mangle]
pub extern "C-unwind" fn h_c01_all_places() {
    let site = sx::choice(TEXT_SITES);
    let s = match sx::choice(4) {
        0 => sx::ascii(1),
        1 => format!("&{};", ident(2)),
        2 => format!("a{}b", sx::ascii(1)),
        _ => sx::text(1, 4),
    };
    let Some((b, t)) = in_package(site, &s) else { return };
    if readable(site) && !s.is_empty() {
        read_again(&b, &t, &s, site == 0, &format!("text read, place {}", site));
    }
    sx::reach("end");
}

#[no_mangle]
pub extern "C-unwind" fn h_c01_all_shapes() {
    let k = sx::choice(12);
    let s = shape(k);
    let site = match k {
        8 => 0,
        _ => pick(&[0, 10, 2]),
    };
    let Some((b, t)) = in_package(site, &s) else { return };
    for (_, x) in texts(&t) {
        sx::obs(&x);
    }
    if !s.is_empty() {
        read_again(&b, &t, &s, site == 0, "text read");
    }
    sx::reach("end");
}

/// text among other content of the same run
#[no_mangle]
pub extern "C-unwind" fn h_c01_among() {
    let del = sx::choice(2) == 1;
    let (a, b) = (sx::choice(5), sx::choice(5));
    let s = match sx::choice(5) {
        0 => " ".to_string(),
        1 => "\t ".to_string(),
        2 => sx::ascii(1),
        3 => format!(" {}", sx::ascii(1)),
        _ => sx::text(1, 4),
    };
    let text = |r: Run, s: &str| if del { r.add_delete_text(s) } else { r.add_text(s) };
    let put = |r: Run, k: usize| match k {
        0 => r,
        1 => text(r, "x"),
        2 => text(r, " "),
        3 => r.add_tab(),
        _ => r.add_break(BreakType::TextWrapping),
    };
    let make = |s: &str| {
        let r = put(text(put(Run::new(), a), s), b);
        let q = Paragraph::new();
        Docx::new().add_paragraph(if del { q.add_delete(Delete::new().add_run(r)) } else { q.add_run(r) })
    };
    let Some(m) = trees(&pack(make(MARK)), "wf") else { return };
    let z = pack(make(&s));
    let Some(t) = trees(&z, "wf") else { return };
    same_package(&m, &t, MARK.as_bytes(), s.as_bytes(), "text in package");
    read_again(&z, &t, &s, false, "text read");
    sx::reach("end");
}
