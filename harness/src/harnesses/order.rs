//! C18 order and nesting of content
use super::docgen::*;
use super::text::cell;
use super::util::*;
use crate::sx;
use docx_rs::*;

/// What a part shows, in order: texts, breaks, fields and the elements around
/// them. Properties and runs without content are left out.
fn shape(e: &El, o: &mut Vec<u8>) {
    let mark = |o: &mut Vec<u8>, m: &str, a: &str| {
        o.extend_from_slice(m.as_bytes());
        o.extend_from_slice(e.attr(a).unwrap_or(b""));
        o.push(b' ');
    };
    let group = |o: &mut Vec<u8>, m: &str| {
        o.extend_from_slice(m.as_bytes());
        o.push(b'[');
        for c in e.els() {
            shape(c, o);
        }
        o.extend_from_slice(b"]");
    };
    let quoted = |o: &mut Vec<u8>, m: &str| {
        o.extend_from_slice(m.as_bytes());
        o.push(b'"');
        o.extend_from_slice(&e.text());
        o.push(b'"');
    };
    match &e.name[..] {
        "w:rPr" | "w:pPr" | "w:tcPr" | "w:trPr" | "w:tblPr" | "w:tblGrid" | "w:sectPr" | "w:sdtPr" => {}
        "w:r" => {
            if e.els().any(|c| c.name != "w:rPr") {
                group(o, "r");
            }
        }
        "w:body" | "w:hdr" | "w:ftr" | "w:sdtContent" | "w:comment" => {
            for c in e.els() {
                shape(c, o);
            }
        }
        "w:p" => group(o, "p"),
        "w:tbl" => group(o, "tbl"),
        "w:tr" => group(o, "tr"),
        "w:tc" => group(o, "tc"),
        "w:sdt" => group(o, "sdt"),
        "w:hyperlink" => group(o, "link"),
        "w:ins" => group(o, "ins"),
        "w:del" => group(o, "del"),
        "w:moveFrom" => group(o, "from"),
        "w:moveTo" => group(o, "to"),
        "w:t" => quoted(o, "t"),
        "w:delText" => quoted(o, "d"),
        "w:instrText" => quoted(o, "i"),
        "w:delInstrText" => quoted(o, "di"),
        "w:br" => mark(o, "br", "w:type"),
        "w:tab" => mark(o, "tab", ""),
        "w:ptab" => mark(o, "ptab", ""),
        "w:cr" => mark(o, "cr", ""),
        "w:sym" => mark(o, "sym", "w:char"),
        "w:fldChar" => mark(o, "fld", "w:fldCharType"),
        "w:drawing" => mark(o, "pic", ""),
        "w:commentRangeStart" => mark(o, "cs", "w:id"),
        "w:commentRangeEnd" => mark(o, "ce", "w:id"),
        "w:commentReference" => mark(o, "cr", "w:id"),
        "w:bookmarkStart" => mark(o, "bs", "w:id"),
        "w:bookmarkEnd" => mark(o, "be", "w:id"),
        n => mark(o, n, ""),
    }
}
fn shown(b: &[u8], part: &str, id: &str) -> Vec<u8> {
    let ts = trees(b, id).unwrap_or_default();
    let mut o = vec![];
    if let Some((_, t)) = ts.iter().find(|x| x.0 == part) {
        for c in t.els() {
            shape(c, &mut o);
        }
        if part != "word/document.xml" {
            return o;
        }
    }
    o
}
/// a document, the part to look at, what it must show, and what the document is
type Made = (Docx, &'static str, Vec<u8>, String);
/// both what is written and what is written after reading show `want`
fn check((d, part, want, id): Made) {
    let b = pack(d);
    let got = shown(&b, part, &id);
    sx::check_eq(&got, &want, &format!("written: {}", id));
    let m = format!("read: {}", id);
    let Some(r) = read_ok(&b, &m) else { return };
    let got = shown(&pack(r), part, &m);
    sx::check_eq(&got, &want, &m);
    sx::reach("end");
}
fn join(v: &[&str]) -> String {
    v.join(", ")
}
fn word() -> String {
    sx::alpha(1, b'a', b'z')
}

// ---- runs ---------------------------------------------------------------------

const RUN: &[&str] = &[
    "text", "deleted text", "tab", "page break", "column break", "line break", "carriage return", "symbol", "picture",
    "field begin", "field separate", "field end", "instruction", "positional tab",
];
fn run_child(r: Run, k: usize, o: &mut Vec<u8>) -> Run {
    let t = word();
    let mut put = |m: &str| o.extend_from_slice(m.as_bytes());
    match RUN[k] {
        "text" => {
            put(&format!("t\"{}\"", t));
            r.add_text(t)
        }
        "deleted text" => {
            put(&format!("d\"{}\"", t));
            r.add_delete_text(t)
        }
        "tab" => {
            put("tab ");
            r.add_tab()
        }
        "page break" => {
            put("brpage ");
            r.add_break(BreakType::Page)
        }
        "column break" => {
            put("brcolumn ");
            r.add_break(BreakType::Column)
        }
        "line break" => {
            put("brtextWrapping ");
            r.add_break(BreakType::TextWrapping)
        }
        "carriage return" => {
            put("cr ");
            r.add_carriage_return()
        }
        "symbol" => {
            put("symF0A0 ");
            r.add_sym(Sym::new("F", "F0A0"))
        }
        "picture" => {
            put("pic ");
            r.add_image(pic(1))
        }
        "field begin" => {
            put("fldbegin ");
            r.add_field_char(FieldCharType::Begin, false)
        }
        "field separate" => {
            put("fldseparate ");
            r.add_field_char(FieldCharType::Separate, false)
        }
        "field end" => {
            put("fldend ");
            r.add_field_char(FieldCharType::End, false)
        }
        "instruction" => {
            put(&format!("i\"D{}\"", t));
            r.add_instr_text(InstrText::Unsupported(format!("D{}", t)))
        }
        _ => {
            put("ptab ");
            r.add_ptab(PositionalTab::new(
                PositionalTabAlignmentType::Left,
                PositionalTabRelativeTo::Margin,
                TabLeaderType::None,
            ))
        }
    }
}
/// any three children of a run
fn gen_run() -> Made {
    let (a, b, c) = (sx::choice(RUN.len()), sx::choice(RUN.len()), sx::choice(RUN.len()));
    let mut want = b"p[r[".to_vec();
    let mut r = Run::new();
    for k in [a, b, c] {
        r = run_child(r, k, &mut want);
    }
    want.extend_from_slice(b"]]");
    let id = join(&[RUN[a], RUN[b], RUN[c]]);
    (Docx::new().add_paragraph(Paragraph::new().add_run(r)), "word/document.xml", want, id)
}

// ---- wrappers inside a paragraph ------------------------------------------------

fn run(o: &mut Vec<u8>) -> Run {
    let t = word();
    o.extend_from_slice(format!("r[t\"{}\"]", t).as_bytes());
    Run::new().add_text(t)
}
fn del_run(o: &mut Vec<u8>) -> Run {
    let t = word();
    o.extend_from_slice(format!("r[d\"{}\"]", t).as_bytes());
    Run::new().add_delete_text(t)
}
fn open(o: &mut Vec<u8>, n: usize) -> Comment {
    o.extend_from_slice(format!("cs{} ", n).as_bytes());
    comment(n)
}
fn close(o: &mut Vec<u8>, n: usize) -> usize {
    o.extend_from_slice(format!("ce{0} r[cr{0} ]", n).as_bytes());
    n
}
fn deletion(o: &mut Vec<u8>, ks: &[usize], n: usize) -> Delete {
    o.extend_from_slice(b"del[");
    let mut d = Delete::new();
    for (i, k) in ks.iter().enumerate() {
        let n = n * 10 + i;
        d = match k {
            0 => d.add_run(del_run(o)),
            _ => {
                let s = open(o, n);
                let d = d.add_comment_start(s).add_run(del_run(o));
                d.add_comment_end(close(o, n))
            }
        };
    }
    o.push(b']');
    d
}
fn insertion(o: &mut Vec<u8>, ks: &[usize], n: usize) -> Insert {
    o.extend_from_slice(b"ins[");
    let mut d = Insert::new_with_empty();
    for (i, k) in ks.iter().enumerate() {
        let n = n * 10 + i;
        d = match k {
            0 => d.add_run(run(o)),
            1 => d.add_delete(deletion(o, &[0], n)),
            _ => {
                let s = open(o, n);
                let d = d.add_comment_start(s).add_run(run(o));
                d.add_comment_end(close(o, n))
            }
        };
    }
    o.push(b']');
    d
}
fn moved_from(o: &mut Vec<u8>, ks: &[usize], n: usize) -> MoveFrom {
    o.extend_from_slice(b"from[");
    let mut d = MoveFrom::new();
    for (i, k) in ks.iter().enumerate() {
        let n = n * 10 + i;
        d = match k {
            0 => d.add_run(run(o)),
            _ => {
                let s = open(o, n);
                let d = d.add_comment_start(s).add_run(run(o));
                d.add_comment_end(close(o, n))
            }
        };
    }
    o.push(b']');
    d
}
fn moved_to(o: &mut Vec<u8>, ks: &[usize], n: usize) -> MoveTo {
    o.extend_from_slice(b"to[");
    let mut d = MoveTo::new_with_empty();
    for (i, k) in ks.iter().enumerate() {
        let n = n * 10 + i;
        d = match k {
            0 => d.add_run(run(o)),
            1 => d.add_delete(deletion(o, &[0], n)),
            _ => {
                let s = open(o, n);
                let d = d.add_comment_start(s).add_run(run(o));
                d.add_comment_end(close(o, n))
            }
        };
    }
    o.push(b']');
    d
}
fn link(o: &mut Vec<u8>, ks: &[usize], n: usize) -> Hyperlink {
    o.extend_from_slice(b"link[");
    let mut d = Hyperlink::new("b", HyperlinkType::Anchor);
    for (i, k) in ks.iter().enumerate() {
        let n = n * 10 + i;
        d = match k {
            0 => d.add_run(run(o)),
            1 => d.add_insert(insertion(o, &[0], n)),
            2 => d.add_delete(deletion(o, &[0], n)),
            3 => {
                let s = open(o, n);
                let d = d.add_comment_start(s).add_run(run(o));
                d.add_comment_end(close(o, n))
            }
            _ => {
                o.extend_from_slice(format!("bs{} ", n).as_bytes());
                let d = d.add_bookmark_start(n, format!("b{}", n)).add_run(run(o));
                o.extend_from_slice(format!("be{} ", n).as_bytes());
                d.add_bookmark_end(n)
            }
        };
    }
    o.push(b']');
    d
}
/// any three children of an insertion, deletion, move or link
fn gen_wrappers() -> Made {
    let w = sx::choice(5);
    let kinds = [3, 2, 2, 3, 5][w];
    let ks = [sx::choice(kinds), sx::choice(kinds), sx::choice(kinds)];
    let mut o = b"p[".to_vec();
    let q = Paragraph::new();
    let q = match w {
        0 => q.add_insert(insertion(&mut o, &ks, 1)),
        1 => q.add_delete(deletion(&mut o, &ks, 1)),
        2 => q.add_move_from(moved_from(&mut o, &ks, 1)),
        3 => q.add_move_to(moved_to(&mut o, &ks, 1)),
        _ => q.add_hyperlink(link(&mut o, &ks, 1)),
    };
    o.push(b']');
    let id = format!("{} of {:?}", ["insertion", "deletion", "moved from", "moved to", "link"][w], ks);
    (Docx::new().add_paragraph(q), "word/document.xml", o, id)
}

const PARA: &[&str] =
    &["run", "link", "insertion", "deletion", "moved from", "moved to", "comment", "bookmark", "page number", "page count"];
fn para_child(q: Paragraph, k: usize, n: usize, o: &mut Vec<u8>) -> Paragraph {
    match PARA[k] {
        "run" => q.add_run(run(o)),
        "link" => q.add_hyperlink(link(o, &[0], n)),
        "insertion" => q.add_insert(insertion(o, &[0, 1], n)),
        "deletion" => q.add_delete(deletion(o, &[0], n)),
        "moved from" => q.add_move_from(moved_from(o, &[0], n)),
        "moved to" => q.add_move_to(moved_to(o, &[0], n)),
        "comment" => {
            let s = open(o, n);
            let q = q.add_comment_start(s).add_run(run(o));
            q.add_comment_end(close(o, n))
        }
        "bookmark" => {
            o.extend_from_slice(format!("bs{} ", n).as_bytes());
            let q = q.add_bookmark_start(n, format!("b{}", n)).add_run(run(o));
            o.extend_from_slice(format!("be{} ", n).as_bytes());
            q.add_bookmark_end(n)
        }
        "page number" => {
            o.extend_from_slice(b"r[fldbegin i\"PAGE\"fldseparate t\"1\"fldend ]");
            q.add_page_num(PageNum::new())
        }
        _ => {
            o.extend_from_slice(b"r[fldbegin i\"NUMPAGES\"fldseparate t\"1\"fldend ]");
            q.add_num_pages(NumPages::new())
        }
    }
}
/// any three children of a paragraph
fn gen_paragraph() -> Made {
    let n = PARA.len();
    let ks = [sx::choice(n), sx::choice(n), sx::choice(n)];
    let mut o = b"p[".to_vec();
    let mut q = Paragraph::new();
    for (i, k) in ks.iter().enumerate() {
        q = para_child(q, *k, i + 1, &mut o);
    }
    o.push(b']');
    let id = join(&[PARA[ks[0]], PARA[ks[1]], PARA[ks[2]]]);
    (Docx::new().add_paragraph(q), "word/document.xml", o, id)
}

// ---- blocks -------------------------------------------------------------------

fn para(o: &mut Vec<u8>) -> Paragraph {
    o.extend_from_slice(b"p[");
    let q = Paragraph::new().add_run(run(o));
    o.push(b']');
    q
}
fn table(o: &mut Vec<u8>, rows: &[usize]) -> Table {
    o.extend_from_slice(b"tbl[");
    let mut v = vec![];
    for n in rows {
        o.extend_from_slice(b"tr[");
        let mut cs = vec![];
        for _ in 0..*n {
            o.extend_from_slice(b"tc[");
            cs.push(TableCell::new().add_paragraph(para(o)));
            o.push(b']');
        }
        v.push(TableRow::new(cs));
        o.push(b']');
    }
    o.push(b']');
    Table::new(v)
}
fn control(o: &mut Vec<u8>, ks: &[usize]) -> StructuredDataTag {
    o.extend_from_slice(b"sdt[");
    let mut d = StructuredDataTag::new();
    for k in ks {
        d = match k {
            0 => d.add_paragraph(para(o)),
            1 => d.add_table(table(o, &[1])),
            4 => d.add_run(run(o)),
            _ => {
                let t = control(o, if *k == 2 { &[0] } else { &[] });
                d.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(t)));
                d
            }
        };
    }
    o.push(b']');
    d
}
/// any three blocks of the body, the last section's content included
fn gen_body() -> Made {
    const K: &[&str] = &["paragraph", "table", "content control", "section", "bookmark", "comment"];
    let ks = [sx::choice(K.len()), sx::choice(K.len()), sx::choice(K.len())];
    let mut o = vec![];
    let mut d = Docx::new();
    for (i, k) in ks.iter().enumerate() {
        let n = i + 1;
        d = match K[*k] {
            "paragraph" => d.add_paragraph(para(&mut o)),
            "table" => d.add_table(table(&mut o, &[2, 1])),
            "content control" => d.add_structured_data_tag(control(&mut o, &[0, 1])),
            "section" => {
                let s = Section::new().add_paragraph(para(&mut o)).add_table(table(&mut o, &[1])).add_paragraph(para(&mut o));
                // the section ends with a paragraph of its own
                o.extend_from_slice(b"p[]");
                d.add_section(s)
            }
            "bookmark" => {
                o.extend_from_slice(format!("bs{} ", n).as_bytes());
                let d = d.add_bookmark_start(n, format!("b{}", n)).add_paragraph(para(&mut o));
                o.extend_from_slice(format!("be{} ", n).as_bytes());
                d.add_bookmark_end(n)
            }
            _ => {
                let c = open(&mut o, n);
                d.document = d.document.add_comment_start(c).add_paragraph(para(&mut o));
                d.document = d.document.add_comment_end(close(&mut o, n));
                d
            }
        };
    }
    let id = format!("body of {}", join(&[K[ks[0]], K[ks[1]], K[ks[2]]]));
    (d, "word/document.xml", o, id)
}
fn toc(o: &mut Vec<u8>) -> TableOfContents {
    o.extend_from_slice(b"sdt[p[r[fldbegin i\"TOC \\o \"1-3\"\"fldseparate ]]p[r[fldend ]]]");
    TableOfContents::new().heading_styles_range(1, 3)
}
/// cells, headers, footers, content controls and comments of any three blocks
fn gen_blocks() -> Made {
    let w = sx::choice(5);
    let kinds = if w == 3 { 5 } else { 4 };
    let ks = [sx::choice(kinds), sx::choice(kinds), sx::choice(kinds)];
    let mut o = vec![];
    let names = ["paragraph", "table", "content control", "empty content control", "run"];
    let what = join(&[names[ks[0]], names[ks[1]], names[ks[2]]]);
    match w {
        0 => {
            o.extend_from_slice(b"tbl[tr[tc[");
            let mut c = TableCell::new();
            for k in ks {
                c = match k {
                    0 => c.add_paragraph(para(&mut o)),
                    1 => c.add_table(table(&mut o, &[1, 2])),
                    _ => c.add_structured_data_tag(control(&mut o, if k == 2 { &[0] } else { &[] })),
                };
            }
            if ks[2] == 1 {
                // a cell must not end with a table
                o.extend_from_slice(b"p[]");
            }
            o.extend_from_slice(b"]]]");
            (Docx::new().add_table(cell(c)), "word/document.xml", o, format!("cell of {}", what))
        }
        1 => {
            let mut h = Header::new();
            for k in ks {
                match k {
                    0 => h = h.add_paragraph(para(&mut o)),
                    1 => h = h.add_table(table(&mut o, &[1, 2])),
                    _ => h.children.push(HeaderChild::StructuredDataTag(Box::new(control(&mut o, if k == 2 { &[0] } else { &[] })))),
                };
            }
            (Docx::new().header(h), "word/header1.xml", o, format!("header of {}", what))
        }
        2 => {
            let mut h = Footer::new();
            for k in ks {
                match k {
                    0 => h = h.add_paragraph(para(&mut o)),
                    1 => h = h.add_table(table(&mut o, &[1, 2])),
                    _ => h.children.push(FooterChild::StructuredDataTag(Box::new(control(&mut o, if k == 2 { &[0] } else { &[] })))),
                };
            }
            (Docx::new().footer(h), "word/footer1.xml", o, format!("footer of {}", what))
        }
        3 => {
            let d = Docx::new().add_structured_data_tag(control(&mut o, &ks)).add_paragraph(para(&mut o));
            (d, "word/document.xml", o, format!("content control of {}", what))
        }
        _ => {
            sx::assume(ks.iter().all(|k| *k < 2));
            let mut c = Comment::new(1).author("m").date("2024-01-01T00:00:00Z");
            for k in ks {
                c = match k {
                    0 => c.add_paragraph(para(&mut o)),
                    _ => c.add_table(table(&mut o, &[1])),
                };
            }
            let d = Docx::new().add_paragraph(Paragraph::new().add_comment_start(c).add_run(Run::new().add_text("x")).add_comment_end(1));
            (d, "word/comments.xml", o, format!("comment of {}", what))
        }
    }
}
/// tables of any shape up to three rows of up to three cells
fn gen_tables() -> Made {
    let n = sx::choice(4);
    let mut rows = vec![];
    for _ in 0..n {
        rows.push(sx::choice(3) + 1);
    }
    let mut o = vec![];
    let d = Docx::new().add_table(table(&mut o, &rows)).add_paragraph(para(&mut o));
    (d, "word/document.xml", o, format!("table of {:?}", rows))
}
/// a table of contents beside and between other blocks
fn gen_contents() -> Made {
    let w = sx::choice(3);
    let mut o = vec![];
    let d = match w {
        0 => {
            let d = Docx::new().add_paragraph(para(&mut o));
            let d = d.add_table_of_contents(toc(&mut o));
            d.add_paragraph(para(&mut o))
        }
        1 => {
            let d = Docx::new().add_table_of_contents(toc(&mut o));
            let d = d.add_table(table(&mut o, &[1]));
            d.add_table_of_contents(toc(&mut o))
        }
        _ => {
            o.extend_from_slice(b"tbl[tr[tc[");
            let c = TableCell::new().add_paragraph(para(&mut o)).add_table_of_contents(toc(&mut o)).add_paragraph(para(&mut o));
            o.extend_from_slice(b"]]]");
            Docx::new().add_table(cell(c))
        }
    };
    (d, "word/document.xml", o, format!("contents {}", w))
}

fn rewritten((d, _, _, id): Made) {
    super::package::stable(d, &id);
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_run() {
    check(gen_run());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_run() {
    rewritten(gen_run());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_wrappers() {
    check(gen_wrappers());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_wrappers() {
    rewritten(gen_wrappers());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_paragraph() {
    check(gen_paragraph());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_paragraph() {
    rewritten(gen_paragraph());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_body() {
    check(gen_body());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_body() {
    rewritten(gen_body());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_blocks() {
    check(gen_blocks());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_blocks() {
    rewritten(gen_blocks());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_tables() {
    check(gen_tables());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_tables() {
    rewritten(gen_tables());
}
#[no_mangle]
pub extern "C-unwind" fn h_c18_contents() {
    check(gen_contents());
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_contents() {
    rewritten(gen_contents());
}
