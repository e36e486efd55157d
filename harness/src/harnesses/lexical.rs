//! C24: reading depends on what the XML says and not on how it is spelled;
//! C25: what the reader does not know does not disturb the rest
use super::docgen::*;
use super::text::p;
use super::util::*;
use super::{paragraph, run, table};
use crate::sx;
use docx_rs::*;

fn formatted_run() -> Run {
    let mut e = Exp::default();
    let mut rp = RunProperty::new();
    for k in 0..run::SETTERS {
        if !matches!(k, 6 | 8 | 10 | 11) {
            rp = run::set(k, rp, &mut e, false);
        }
    }
    let mut r = Run::new().add_text("x").add_tab().add_break(BreakType::Page).add_sym(Sym::new("f", "F0"));
    r.run_property = rp;
    r
}
fn formatted_paragraph() -> Paragraph {
    let mut e = paragraph::base();
    let mut pp = ParagraphProperty::new();
    for k in 0..paragraph::SETTERS - 1 {
        pp = paragraph::set(k, pp, &mut e, false);
    }
    let mut q = p("x");
    q.has_numbering = pp.numbering_property.is_some();
    q.property = pp;
    q
}
fn formatted_table() -> Table {
    let mut e = table::tbase(true);
    let mut c = TableCell::new().add_paragraph(p("c"));
    for k in 0..table::CSET {
        c = table::cset(k, c, &mut e, false);
    }
    let mut r = TableRow::new(vec![TableCell::new().add_paragraph(p("b")), c]);
    for k in 0..table::RSET {
        r = table::rset(k, r, &mut e, false);
    }
    let mut t = Table::new(vec![r]);
    for k in 0..table::TSET {
        t = table::tset(k, t, &mut e, false);
    }
    t
}
fn level() -> Level {
    Level::new(1, Start::new(3), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"))
        .suffix(LevelSuffixType::Space)
        .level_restart(2)
        .is_lgl()
        .paragraph_style("s")
        .indent(Some(10), Some(SpecialIndentType::Hanging(20)), None, None)
        .bold()
}
const FORMS: usize = 8;
/// documents which together use everything the writer can say
pub fn sample(forms: bool) -> Docx {
    let s = || format!("té]>&{}", sx::alpha(1, b'a', b'z'));
    match sx::choice(if forms { 4 } else { 3 }) {
        0 => {
            let k = sx::choice(CONTENTS.len());
            base(k).add_paragraph(CONTENTS[k].1(1, &s()))
        }
        1 => PLACES[sx::choice(PLACES.len())].1(Docx::new(), 1, p(&s())),
        2 => EXTRAS[sx::choice(EXTRAS.len())].1(Docx::new().add_paragraph(p(&s()))),
        _ => {
            let d = Docx::new();
            sx::still(true);
            let d = match sx::choice(FORMS) {
                0 => d.add_paragraph(Paragraph::new().add_run(formatted_run())),
                1 => d.add_paragraph(formatted_paragraph()),
                2 => d.add_table(formatted_table()),
                3 => {
                    let mut st = Style::new("a", StyleType::Paragraph).name("b").based_on("c").next("d").link("e").ui_priority(3).q_format(true);
                    st.run_property = formatted_run().run_property;
                    st.paragraph_property = formatted_paragraph().property;
                    d.add_style(st)
                        .default_size(21)
                        .default_spacing(3)
                        .default_fonts(RunFonts::new().ascii("f"))
                        .default_line_spacing(LineSpacing::new().before(4))
                }
                4 => d
                    .add_abstract_numbering(AbstractNumbering::new(2).add_level(level()).num_style_link("l").style_link("m"))
                    .add_numbering(Numbering::new(2, 2).add_override(LevelOverride::new(1).start(4).level(level()))),
                5 => {
                    let sec = Section::new()
                        .page_size(PageSize::new().size(100, 200).orient(PageOrientationType::Landscape))
                        .page_margin(PageMargin::new().top(1).bottom(2).left(3).right(4).header(5).footer(6).gutter(7))
                        .page_num_type(PageNumType::new().start(3).chap_style("c"))
                        .text_direction("tbRl".into())
                        .add_paragraph(p("x"));
                    let mut d = d.add_section(sec.doc_grid(DocGrid::with_empty().grid_type(DocGridType::Lines).line_pitch(3).char_space(4))).title_pg();
                    d.document.section_property.columns = 2;
                    d.document.section_property.section_type = Some(SectionType::Continuous);
                    d
                }
                6 => {
                    let set = d.settings.clone();
                    let set = set
                        .default_tab_stop(3)
                        .add_doc_var("a", "b")
                        .add_doc_var("c", "d")
                        .even_and_odd_headers()
                        .adjust_line_height_in_table()
                        .character_spacing_control(CharacterSpacingValues::CompressPunctuation);
                    d.settings(set).doc_id("50C7F5B0-7E8B-4D42-A8F9-A6C1A4E2C1A3")
                }
                _ => {
                    let pic = Pic::new_with_dimensions(png(1), 2, 3)
                        .floating()
                        .offset_x(4)
                        .position_v(DrawingPosition::Align(PicAlign::Top))
                        .relative_from_h(RelativeFromHType::Column)
                        .dist_t(1)
                        .dist_b(2)
                        .dist_l(3)
                        .dist_r(4)
                        .overlapping()
                        .rotate(30);
                    d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)))
                }
            };
            sx::still(false);
            d
        }
    }
}

/// how to spell a part
#[derive(Clone, Copy, PartialEq)]
enum Spell {
    Reversed,
    Apostrophes,
    Spaced,
    Pairs,
    Decimal,
    Hex,
    Cdata,
    HalfCdata,
    Comments,
    Instructions,
    Indented,
    Declared,
    Mark,
    Bare,
}
use Spell::*;
const SPELLS: [Spell; 14] = [
    Reversed, Apostrophes, Spaced, Pairs, Decimal, Hex, Cdata, HalfCdata, Comments, Instructions, Indented, Declared, Mark, Bare,
];
fn chars(v: &[u8], how: Spell, o: &mut Vec<u8>) {
    let s = unsafe { core::str::from_utf8_unchecked(v) };
    for (i, c) in s.chars().enumerate() {
        match how {
            Decimal if i < 3 => o.extend_from_slice(format!("&#{};", c as u32).as_bytes()),
            Hex if i < 3 => o.extend_from_slice(format!("&#x0{:X};", c as u32).as_bytes()),
            _ => match c {
                '&' => o.extend_from_slice(b"&amp;"),
                '<' => o.extend_from_slice(b"&lt;"),
                '>' => o.extend_from_slice(b"&gt;"),
                '"' => o.extend_from_slice(b"&quot;"),
                '\'' => o.extend_from_slice(b"&apos;"),
                '\t' => o.extend_from_slice(b"&#9;"),
                '\n' => o.extend_from_slice(b"&#10;"),
                '\r' => o.extend_from_slice(b"&#13;"),
                c => o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
            },
        }
    }
}
fn textual(e: &El) -> bool {
    const T: [&str; 12] = [
        "w:t", "w:delText", "w:instrText", "w:delInstrText", "wp:posOffset", "wp:align", "vt:lpwstr", "dcterms:created",
        "dcterms:modified", "a:t", "cp:revision", "w:fldSimple",
    ];
    T.contains(&&e.name[..]) || e.kids.iter().any(|k| matches!(k, Node::T(t) if !t.is_empty()))
}
/// `extra` is put between the children of elements, `attr` among attributes
struct Form<'a> {
    how: Option<Spell>,
    between: &'a [u8],
    before_attrs: &'a [u8],
    after_attrs: &'a [u8],
    decls: Vec<(String, Vec<u8>)>,
}
fn spell(e: &El, f: &Form, root: bool, o: &mut Vec<u8>) {
    let how = f.how.unwrap_or(Pairs);
    o.push(b'<');
    o.extend_from_slice(e.name.as_bytes());
    let mut attrs: Vec<&(String, Vec<u8>)> = e.attrs.iter().collect();
    if how == Reversed {
        attrs.reverse();
    }
    if how == Declared && !root {
        attrs.extend(f.decls.iter().filter(|d| !e.attrs.iter().any(|a| a.0 == d.0)));
    }
    if !root {
        o.extend_from_slice(f.before_attrs);
    }
    for (n, v) in attrs {
        o.extend_from_slice(if how == Spaced { b"\n\t " } else { b" " });
        o.extend_from_slice(n.as_bytes());
        o.extend_from_slice(if how == Spaced { b" = " } else { b"=" });
        let q = if how == Apostrophes { b'\'' } else { b'"' };
        o.push(q);
        // declarations are spelled plainly
        chars(v, if n.starts_with("xmlns") { Pairs } else { how }, o);
        o.push(q);
    }
    if !root {
        o.extend_from_slice(f.after_attrs);
    }
    if how == Spaced {
        o.push(b' ');
    }
    let empty = e.kids.iter().all(|k| matches!(k, Node::T(t) if t.is_empty()));
    if empty && how != Pairs && f.between.is_empty() {
        o.extend_from_slice(b"/>");
        return;
    }
    o.push(b'>');
    let between: &[u8] = match how {
        _ if textual(e) => b"",
        Comments => b"<!-- <w:r> & -- -->",
        Instructions => b"<?a w:b='c'?>",
        Indented => b"\r\n\t  ",
        _ => f.between,
    };
    let between = if how == Comments && !between.is_empty() { b"<!-- <w:r> & - -->" } else { between };
    o.extend_from_slice(between);
    for k in &e.kids {
        match k {
            Node::E(c) => {
                spell(c, f, false, o);
                o.extend_from_slice(between);
            }
            Node::T(t) if t.is_empty() => {}
            Node::T(t) => match how {
                Cdata => {
                    o.extend_from_slice(b"<![CDATA[");
                    o.extend_from_slice(t);
                    o.extend_from_slice(b"]]>");
                }
                HalfCdata => {
                    let s = unsafe { core::str::from_utf8_unchecked(t) };
                    let n = s.chars().next().map_or(0, |c| c.len_utf8());
                    chars(&t[..n], how, o);
                    o.extend_from_slice(b"<![CDATA[");
                    o.extend_from_slice(&t[n..]);
                    o.extend_from_slice(b"]]>");
                }
                Comments => {
                    let s = unsafe { core::str::from_utf8_unchecked(t) };
                    let n = s.chars().next().map_or(0, |c| c.len_utf8());
                    chars(&t[..n], how, o);
                    o.extend_from_slice(b"<!--x-->");
                    chars(&t[n..], how, o);
                }
                _ => chars(t, how, o),
            },
        }
    }
    o.extend_from_slice(b"</");
    o.extend_from_slice(e.name.as_bytes());
    if how == Spaced {
        o.push(b'\n');
    }
    o.push(b'>');
}
fn respelled(b: &[u8], how: Option<Spell>, between: &[u8], before_attrs: &[u8], after_attrs: &[u8]) -> Vec<u8> {
    let mut parts: Vec<(String, Vec<u8>)> = vec![];
    for (n, d) in unzip(b) {
        let mut o = vec![];
        let packaging = n.ends_with(".rels") || n.starts_with('[');
        match parse(&d) {
            Ok(e) if is_xml(&n) && !(how.is_none() && packaging) => {
                match how {
                    Some(Mark) => o.extend_from_slice(b"\xef\xbb\xbf<?xml version='1.0' encoding='utf-8'?>\n"),
                    Some(Bare) => {}
                    _ => o.extend_from_slice(b"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n"),
                }
                let decls = e.attrs.iter().filter(|a| a.0.starts_with("xmlns:")).cloned().collect();
                let f = Form { how, between, before_attrs, after_attrs, decls };
                spell(&e, &f, true, &mut o);
                if how == Some(Comments) {
                    o.extend_from_slice(b"\n<!-- the end -->\n");
                }
            }
            _ => o = d,
        }
        parts.push((n, o));
    }
    let v: Vec<(&str, &[u8])> = parts.iter().map(|(n, d)| (&n[..], &d[..])).collect();
    zip_parts(&v)
}
fn same(b: &[u8], c: &[u8], id: &str) {
    let (Some(x), Some(y)) = (read_ok(b, "readable"), read_ok(c, id)) else { return };
    same_docs(x, y, id);
}
/// read documents which say the same
pub fn same_docs(x: Docx, y: Docx, id: &str) {
    let in_part = |n: &str| format!("{id}: {n}");
    sx::check(x.document == y.document, &in_part("document"));
    sx::check(x.styles == y.styles, &in_part("styles"));
    sx::check(x.numberings == y.numberings, &in_part("numbering"));
    sx::check(x.settings == y.settings, &in_part("settings"));
    sx::check(x.doc_props == y.doc_props, &in_part("properties"));
    sx::check(x.comments == y.comments, &in_part("comments"));
    sx::check(x.comments_extended == y.comments_extended, &in_part("threads"));
    sx::check(x.images.len() == y.images.len() && x.hyperlinks.len() == y.hyperlinks.len(), &in_part("pictures and links"));
    let (Some(t), Some(u)) = (trees(&pack(x), "wf"), trees(&pack(y), "wf")) else { return };
    same_package(&t, &u, b"", b"", id);
}

/// the same document in other spellings
#[no_mangle]
pub extern "C-unwind" fn h_c24_spelling() {
    let how = SPELLS[sx::choice(SPELLS.len())];
    let b = pack(sample(!matches!(how, Decimal | Hex)));
    let id = ["attribute order", "apostrophes", "blanks in tags", "start and end tags", "decimal references", "hexadecimal references",
        "CDATA", "CDATA after text", "comments", "processing instructions", "indentation", "repeated declarations", "byte order mark",
        "no declaration"][how as usize];
    let c = respelled(&b, Some(how), b"", b"", b"");
    same(&b, &c, id);
    sx::reach("end");
}
/// any character of a text or an attribute value, as a reference
#[no_mangle]
pub extern "C-unwind" fn h_c24_references() {
    // ASCII, or sixteen characters at the beginning or end of each length in UTF-8
    let c = match sx::choice(7) {
        0 => sx::byte(b' ', b'~') as u32,
        k => [0, 0x80, 0x7f0, 0x800, 0xffe0, 0x1_0000, 0x10_fff0][k] + sx::u32v(0, 15),
    };
    let plain = sx::choice(2) == 0;
    let r = match sx::choice(4) {
        0 => format!("&#{};", c),
        1 => format!("&#00{};", c),
        2 => format!("&#x{:x};", c),
        _ => format!("&#x{:X};", c),
    };
    let mut raw = vec![];
    chars(char::from_u32(c).unwrap_or('x').to_string().as_bytes(), Pairs, &mut raw);
    let (x, y): (&[u8], &[u8]) = if plain { (&raw, r.as_bytes()) } else { (r.as_bytes(), &raw) };
    let at = sx::choice(4);
    let doc = |v: &[u8]| {
        let mut o = vec![];
        let (a, b) = [
            ("<w:p><w:r><w:t>q", "r</w:t></w:r></w:p>"),
            ("<w:p><w:r><w:delText xml:space=\"preserve\">", "</w:delText></w:r></w:p>"),
            ("<w:p><w:r><w:rPr><w:rFonts w:ascii=\"q", "\"/></w:rPr><w:t>x</w:t></w:r></w:p>"),
            ("<w:p><w:pPr><w:pStyle w:val='", "q'/></w:pPr><w:bookmarkStart w:id=\"1\" w:name=\"n\"/></w:p>"),
        ][at];
        o.extend_from_slice(a.as_bytes());
        o.extend_from_slice(v);
        o.extend_from_slice(b.as_bytes());
        mini(&doc_around(&o))
    };
    let (Some(a), Some(b)) = (read_ok(&doc(x), "readable"), read_ok(&doc(y), "readable")) else { return };
    // paragraphs without identifiers are given new ones
    let kids = |d: &Docx| match d.document.children.first() {
        Some(DocumentChild::Paragraph(p)) => Some((p.children.clone(), p.property.clone())),
        _ => None,
    };
    sx::check(kids(&a).is_some() && kids(&a) == kids(&b), "references");
    sx::reach("end");
}
/// elements and attributes nobody knows
#[no_mangle]
pub extern "C-unwind" fn h_c25_unknown() {
    let b = pack(sample(true));
    let none: &[u8] = b"";
    let (between, before, after, id) = pick(&[
        (&b"<x:unknown xmlns:x=\"urn:x\" x:val=\"0\"/>"[..], none, none, "unknown elements"),
        (b"<x:unknown xmlns:x=\"urn:x\">hidden</x:unknown>", none, none, "unknown elements with text"),
        (b"<w:unheardOf w:val=\"0\" w:id=\"7\"><w:stillUnheardOf w:val=\"1\"/></w:unheardOf>", none, none, "unknown nested elements"),
        (none, b" xmlns:x=\"urn:x\" x:unknown=\"0\"", none, "unknown attributes in front"),
        (none, none, b" xmlns:x=\"urn:x\" x:unknown=\"0\"", "unknown attributes behind"),
    ]);
    let c = respelled(&b, None, between, before, after);
    same(&b, &c, id);
    sx::reach("end");
}
