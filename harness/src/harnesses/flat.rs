//! C26: a flat package (one XML file) is read like the archive with the same parts
use super::lexical::{same_docs, sample};
use super::text::p;
use super::util::*;
use crate::sx;
use docx_rs::*;

fn base64(b: &[u8], lines: bool) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for (i, c) in b.chunks(3).enumerate() {
        if lines && i % 2 == 0 {
            o.extend_from_slice(b"\r\n ");
        }
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= c.len() { A[(n >> (18 - 6 * k) & 63) as usize] } else { b'=' });
        }
    }
    o
}
struct Form {
    slash: bool,
    indent: bool,
    padding: bool,
    reversed: bool,
}
/// the parts of an archive as one XML file
fn flat(parts: &[(String, Vec<u8>)], f: &Form) -> Vec<u8> {
    let mut o = vec![];
    let nl: &[u8] = if f.indent { b"\r\n  " } else { b"" };
    o.extend_from_slice(b"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?><?mso-application progid=\"Word.Document\"?>");
    o.extend_from_slice(b"<pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    let mut parts: Vec<&(String, Vec<u8>)> = parts.iter().collect();
    if f.reversed {
        parts.reverse();
    }
    // the archive may hold a numbering part nothing refers to
    let numbered = parts.iter().any(|(n, d)| n == "word/_rels/document.xml.rels" && d.windows(13).any(|w| w == b"numbering.xml"));
    for (n, d) in parts {
        if n.starts_with('[') || n == "word/numbering.xml" && !numbered {
            continue;
        }
        o.extend_from_slice(nl);
        o.extend_from_slice(b"<pkg:part pkg:name=\"");
        if f.slash {
            o.push(b'/');
        }
        o.extend_from_slice(n.as_bytes());
        o.extend_from_slice(b"\" pkg:contentType=\"application/any\"");
        if f.padding {
            o.extend_from_slice(b" pkg:padding=\"512\"");
        }
        o.push(b'>');
        o.extend_from_slice(nl);
        if is_xml(n) {
            let s = d.windows(2).position(|w| w == b"?>").map_or(0, |i| i + 2);
            o.extend_from_slice(b"<pkg:xmlData>");
            o.extend_from_slice(nl);
            o.extend_from_slice(&d[s..]);
            o.extend_from_slice(b"</pkg:xmlData>");
        } else {
            o.extend_from_slice(b"<pkg:binaryData>");
            o.extend_from_slice(&base64(d, f.indent));
            o.extend_from_slice(nl);
            o.extend_from_slice(b"</pkg:binaryData>");
        }
        o.extend_from_slice(nl);
        o.extend_from_slice(b"</pkg:part>");
    }
    o.extend_from_slice(b"</pkg:package>");
    o
}
fn form() -> Form {
    let k = sx::choice(4);
    Form { slash: k != 1, indent: k == 2, padding: k >= 2, reversed: k == 3 }
}
fn compare(d: Docx) {
    let b = pack(d);
    let f = flat(&unzip(&b), &form());
    let s = unsafe { core::str::from_utf8_unchecked(&f) };
    let Some(x) = read_ok(&b, "readable") else { return };
    let Ok(y) = read_xml(s) else {
        sx::check(false, "flat package read");
        return;
    };
    let pics = |d: &Docx| {
        let mut v: Vec<_> = d.images.iter().map(|i| (i.0.clone(), i.2 .0.clone())).collect();
        v.sort();
        v
    };
    sx::check(pics(&x) == pics(&y), "flat: pictures");
    let links = |d: &Docx| {
        let mut v = d.hyperlinks.clone();
        v.sort();
        v
    };
    sx::check(links(&x) == links(&y), "flat: links");
    sx::check(x.themes == y.themes, "flat: themes");
    sx::check(x.web_settings == y.web_settings, "flat: web settings");
    same_docs(x, y, "flat");
}
/// each kind of document, in each form of a flat package
#[no_mangle]
pub extern "C-unwind" fn h_c26_flat() {
    compare(sample(true));
    sx::reach("end");
}
/// several things of one kind
#[no_mangle]
pub extern "C-unwind" fn h_c26_several() {
    let s = sx::alpha(2, b'a', b'z');
    let link = |t: &str| {
        Paragraph::new().add_hyperlink(Hyperlink::new(format!("http://{}", t), HyperlinkType::External).add_run(Run::new().add_text("l")))
    };
    let pic = |k: usize| Paragraph::new().add_run(Run::new().add_image(super::docgen::pic(k)));
    let note = |n: usize| Comment::new(n).author("a").date("2024-01-01T00:00:00Z").add_paragraph(p(&s));
    let d = Docx::new();
    compare(match sx::choice(6) {
        0 => d.add_paragraph(link(&s)).add_paragraph(link("b")).add_paragraph(link("c")),
        1 => d.add_paragraph(pic(1)).add_paragraph(link(&s)).add_paragraph(pic(2)),
        2 => d
            .header(Header::new().add_paragraph(pic(1)).add_paragraph(p(&s)))
            .first_header(Header::new().add_paragraph(pic(2)).add_paragraph(pic(3)))
            .even_header(Header::new().add_paragraph(p("e")).add_paragraph(pic(7)))
            .footer(Footer::new().add_paragraph(pic(4)))
            .first_footer(Footer::new().add_paragraph(p("g")).add_paragraph(pic(5)))
            .even_footer(Footer::new().add_paragraph(p("f")).add_paragraph(pic(8)))
            .add_paragraph(pic(6)),
        3 => d.add_paragraph(
            p("x")
                .add_comment_start(note(1))
                .add_comment_start(note(2).parent_comment_id(1))
                .add_run(Run::new().add_text("y"))
                .add_comment_end(1)
                .add_comment_end(2),
        ),
        4 => d.custom_property("k", &s).custom_property(&s, "v").add_paragraph(p("<pkg:part pkg:name=\"\">&lt;")),
        _ => super::docgen::numbering(d)
            .add_style(Style::new(&s, StyleType::Paragraph).name("n"))
            .add_paragraph(p("x").style(&s).numbering(NumberingId::new(2), IndentLevel::new(0))),
    });
    sx::reach("end");
}
/// the parts themselves: any names, types and contents
#[no_mangle]
pub extern "C-unwind" fn h_c26_parts() {
    let doubled = sx::choice(2) == 1;
    let q = if doubled { "\"\"" } else { "\"" };
    let n = 1 + sx::choice(2);
    let mut x = String::from("<pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    let mut want = vec![];
    for i in 0..n {
        let name = match if i > 0 { 2 } else { sx::choice(3) } {
            0 => format!("{}w", sx::alpha(1, b'*', b';')),
            1 => format!("/{}", sx::alpha(2, b'?', b'~')),
            _ => String::from(pick(&["é/x", "€", "/a b"])),
        };
        let raw = |n: usize| if sx::choice(2) == 0 { sx::alpha(n, b' ', b';') } else { sx::alpha(n, b'=', b'~') };
        let (tag, data) = match if i > 0 { 0 } else { sx::choice(3) } {
            0 => ("xmlData", format!("<a>{}</a>", raw(1 + i))),
            1 => ("xmlData", format!("é{}<pkg:x/>", raw(1))),
            _ => ("binaryData", sx::alpha(2, b'A', b'z')),
        };
        if i == 1 {
            x.push_str("\n<!-- <pkg:other/> -->\n");
        }
        x.push_str(&format!("<pkg:part pkg:name={q}{name}{q} pkg:contentType={q}t{q}><pkg:{tag}>{data}</pkg:{tag}></pkg:part>"));
        want.push((name, data));
    }
    x.push_str("</pkg:package>");
    let Ok(v) = extract_xml_package_parts(&x) else {
        sx::check(false, "parts found");
        return;
    };
    sx::check(v.len() == n, "number of parts");
    for (a, (name, data)) in v.iter().zip(&want) {
        sx::check_eq(a.name.as_bytes(), name.as_bytes(), "part name");
        sx::check_eq(a.data.as_bytes(), data.as_bytes(), "part content");
    }
    sx::reach("end");
}
/// flat packages cut and mixed arbitrarily are read or refused
#[no_mangle]
pub extern "C-unwind" fn h_c26_mixed() {
    const T: &[&str] = &[
        "<pkg:part", "</pkg:part>", " pkg:name=\"", " pkg:contentType=\"", "\"", "\"\"", ">", "<pkg:xmlData>", "</pkg:xmlData>",
        "<pkg:binaryData>", "</pkg:binaryData>", "é", "/_rels/.rels", "<a",
    ];
    let mut x = String::from(pick(&["", "<pkg:part pkg:name=\"\"", "<pkg:part pkg:name=\"a\" pkg:contentType=\"\""]));
    for _ in 0..3 {
        x.push_str(pick(T));
    }
    x.push_str(pick(&["", "</pkg:part>", "<pkg:xmlData></pkg:xmlData></pkg:part>"]));
    let _ = read_xml(&x);
    sx::reach("end");
}
