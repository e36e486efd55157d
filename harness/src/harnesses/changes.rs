//! C11: tracked changes
use super::paragraph;
use super::util::*;
use crate::sx;
use docx_rs::*;

/// One change as the document shows it.
struct Mark {
    name: &'static str,
    /// the element the change stands in
    within: &'static str,
    author: String,
    date: String,
    /// shown and deleted text under it
    text: Vec<u8>,
    gone: Vec<u8>,
}
const CHANGES: [&str; 5] = ["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange"];

fn texts(e: &El, name: &str) -> Vec<u8> {
    let mut v = vec![];
    e.all(name, &mut v);
    v.iter().flat_map(|t| t.text()).collect()
}
fn collect<'a>(e: &'a El, out: &mut Vec<(&'a El, &'a El)>) {
    for c in e.els() {
        if CHANGES.contains(&&c.name[..]) {
            out.push((e, c));
        }
        collect(c, out);
    }
}
fn compare(part: &El, want: &[Mark], id: &str) {
    let mut got = vec![];
    collect(part, &mut got);
    sx::check(got.len() == want.len(), "number of changes");
    if got.len() != want.len() {
        return;
    }
    let mut ids: Vec<&[u8]> = vec![];
    for ((parent, g), w) in got.iter().zip(want) {
        sx::check(g.name == w.name, "kind of change");
        sx::check(parent.name == w.within, "place of change");
        sx::check_eq(g.attr("w:author").unwrap_or(b"(none)"), w.author.as_bytes(), id);
        sx::check_eq(g.attr("w:date").unwrap_or(b"(none)"), w.date.as_bytes(), id);
        sx::check_eq(&texts(g, "w:t"), &w.text, "changed text");
        sx::check_eq(&texts(g, "w:delText"), &w.gone, "deleted text");
        let own = g.attr("w:id").unwrap_or(b"");
        sx::check(!own.is_empty() && own.iter().all(|c| c.is_ascii_digit()), "id");
        // paragraph formatting has a numbering of its own
        if w.name != "w:pPrChange" {
            sx::check(!ids.contains(&own), "id shared");
            ids.push(own);
        }
    }
}

fn run(t: &str) -> Run {
    Run::new().add_text(t)
}
fn gone(t: &str) -> Run {
    Run::new().add_delete_text(t)
}
pub const CONTENT: usize = 7;
/// a change among the content of a paragraph or hyperlink
fn content(k: usize, a: &str, d: &str, t: &str, within: &'static str, m: &mut Vec<Mark>) -> ParagraphChild {
    // a deletion inside another change has an owner of its own
    let (a2, d2) = (format!("{a}+"), format!("+{d}"));
    let mut mark = |name, within: &'static str, text: &str, gone: &str| {
        let (a, d) = if within == "w:ins" || within == "w:moveTo" { (&a2[..], &d2[..]) } else { (a, d) };
        m.push(Mark { name, within, author: a.to_string(), date: d.to_string(), text: text.into(), gone: gone.into() })
    };
    let del = |t| Delete::new().author(a).date(d).add_run(gone(t));
    let inner = |t| Delete::new().author(&a2[..]).date(&d2[..]).add_run(gone(t));
    match k {
        0 => {
            mark("w:ins", within, t, "");
            ParagraphChild::Insert(Insert::new(run(t)).author(a).date(d))
        }
        1 => {
            mark("w:del", within, "", t);
            ParagraphChild::Delete(del(t))
        }
        2 => {
            mark("w:moveFrom", within, t, "");
            ParagraphChild::MoveFrom(MoveFrom::new().author(a).date(d).add_run(run(t)))
        }
        3 => {
            mark("w:moveTo", within, t, "");
            ParagraphChild::MoveTo(MoveTo::new(run(t)).author(a).date(d))
        }
        4 => {
            mark("w:ins", within, "", t);
            mark("w:del", "w:ins", "", t);
            ParagraphChild::Insert(Insert::new_with_del(inner(t)).author(a).date(d))
        }
        5 => {
            let (x, y) = (format!("{t}y"), format!("{t}x"));
            mark("w:moveTo", within, &format!("{x}{x}"), &y);
            mark("w:del", "w:moveTo", "", &y);
            ParagraphChild::MoveTo(MoveTo::new_with_empty().add_run(run(&x)).add_delete(inner(&y)).add_run(run(&x)).author(a).date(d))
        }
        _ => {
            let (x, y) = (format!("{t}y"), format!("{t}x"));
            mark("w:ins", within, &format!("{x}{x}"), &y);
            mark("w:del", "w:ins", "", &y);
            let i = Insert::new_with_empty().add_run(run(&x)).add_delete(inner(&y)).add_run(run(&x));
            ParagraphChild::Insert(i.author(a).date(d))
        }
    }
}
fn add(p: Paragraph, c: ParagraphChild) -> Paragraph {
    match c {
        ParagraphChild::Insert(i) => p.add_insert(i),
        ParagraphChild::Delete(i) => p.add_delete(i),
        ParagraphChild::MoveFrom(i) => p.add_move_from(i),
        ParagraphChild::MoveTo(i) => p.add_move_to(i),
        _ => p,
    }
}
const KINDS: usize = CONTENT + 7;
/// a block with one change of any kind
fn block(k: usize, a: &str, d: &str, t: &str, m: &mut Vec<Mark>) -> DocumentChild {
    if k < CONTENT {
        let c = content(k, a, d, t, "w:p", m);
        let p = add(Paragraph::new().add_run(run("a")), c).add_run(run("b"));
        return DocumentChild::Paragraph(Box::new(p));
    }
    let mut mark = |name, within| {
        m.push(Mark { name, within, author: a.to_string(), date: d.to_string(), text: vec![], gone: vec![] })
    };
    let p = Paragraph::new().add_run(run(t));
    let ins = Insert::new_with_empty().author(a).date(d);
    let del = Delete::new().author(a).date(d);
    let row = || TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_run(run(t)))]);
    match k - CONTENT {
        0 => {
            mark("w:ins", "w:rPr");
            DocumentChild::Paragraph(Box::new(p.insert(a, d)))
        }
        1 => {
            mark("w:del", "w:rPr");
            DocumentChild::Paragraph(Box::new(p.delete(a, d)))
        }
        2 => {
            mark("w:ins", "w:trPr");
            DocumentChild::Table(Box::new(Table::new(vec![row(), row().insert(ins)])))
        }
        3 => {
            mark("w:del", "w:trPr");
            DocumentChild::Table(Box::new(Table::new(vec![row().delete(del), row()])))
        }
        4 => {
            mark("w:ins", "w:rPr");
            let mut r = run(t);
            r.run_property = RunProperty::new().bold().insert(ins);
            DocumentChild::Paragraph(Box::new(p.add_run(r)))
        }
        5 => {
            mark("w:del", "w:rPr");
            let mut r = run(t);
            r.run_property = RunProperty::new().italic().delete(del);
            DocumentChild::Paragraph(Box::new(p.add_run(r)))
        }
        _ => {
            mark("w:pPrChange", "w:pPr");
            let c = ParagraphPropertyChange::new().author(a).date(d).property(ParagraphProperty::new().keep_next(true));
            DocumentChild::Paragraph(Box::new(p.paragraph_property_change(c)))
        }
    }
}
fn check(d: Docx, want: &[Mark]) {
    let x = d.clone().build();
    sx::obs(&x.document);
    let Some(t) = part(&x.document, "wf") else { return };
    compare(&t, want, "author and date");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::check(r.document.children == d.document.children, "read back");
    let y = r.build();
    let Some(t) = part(&y.document, "wf") else { return };
    compare(&t, want, "author and date, rewritten");
}

/// who changed something and when, for every kind of change
#[no_mangle]
pub extern "C-unwind" fn h_c11_single() {
    let k = sx::choice(KINDS);
    let (a, d) = match sx::choice(3) {
        0 => (sx::text(2, 2), "2024-01-02T03:04:05Z".to_string()),
        1 => ("A&B <c>".to_string(), sx::ascii(2)),
        _ => ("unnamed".to_string(), "1970-01-01T00:00:00Z".to_string()),
    };
    let mut m = vec![];
    let b = block(k, &a, &d, "c", &mut m);
    let mut x = Docx::new();
    x.document.children.push(b);
    check(x, &m);
    sx::reach("end");
}

/// changes in every place that holds content
#[no_mangle]
pub extern "C-unwind" fn h_c11_places() {
    let n = paragraph::two();
    let (a, d, t) = (format!("A&{n}"), format!("2024-01-{n}T03:04:05Z"), format!("t{n}"));
    let mut m = vec![];
    let place = sx::choice(6);
    let k = sx::choice(if place == 3 { CONTENT } else { KINDS });
    if place == 3 {
        let mut h = Hyperlink::new("x", HyperlinkType::Anchor).add_run(run("a"));
        h.history = Some(1);
        h = match content(k, &a, &d, &t, "w:hyperlink", &mut m) {
            ParagraphChild::Insert(i) => h.add_insert(i),
            ParagraphChild::Delete(i) => h.add_delete(i),
            // a link offers no call for moved content
            _ => return sx::reach("end"),
        };
        check(Docx::new().add_paragraph(Paragraph::new().add_hyperlink(h)), &m);
        return sx::reach("end");
    }
    let b = block(k, &a, &d, &t, &mut m);
    let x = Docx::new();
    match place {
        0 => {
            let mut c = TableCell::new();
            c = match b {
                DocumentChild::Paragraph(p) => c.add_paragraph(*p),
                DocumentChild::Table(t) => c.add_table(*t).add_paragraph(Paragraph::new()),
                _ => c,
            };
            check(x.add_table(Table::new(vec![TableRow::new(vec![c])])), &m);
        }
        1 => {
            let c = match b {
                DocumentChild::Paragraph(p) => StructuredDataTag::new().add_paragraph(*p),
                DocumentChild::Table(t) => StructuredDataTag::new().add_table(*t),
                _ => StructuredDataTag::new(),
            };
            check(x.add_structured_data_tag(c), &m);
        }
        2 => {
            // two of them, one after the other
            let j = sx::choice(KINDS);
            let b2 = block(j, "Z", "2000", "z", &mut m);
            let mut x = x;
            x.document.children.push(b);
            x.document.children.push(b2);
            check(x, &m);
        }
        4 => {
            let h = match b {
                DocumentChild::Paragraph(p) => Header::new().add_paragraph(*p),
                DocumentChild::Table(t) => Header::new().add_table(*t),
                _ => Header::new(),
            };
            let x = pack(x.header(h.clone()));
            let Some(parts) = trees(&x, "wf") else { return };
            let Some(p) = parts.iter().find(|p| p.0 == "word/header1.xml") else {
                return sx::check(false, "header part");
            };
            compare(&p.1, &m, "author and date");
            let Some(r) = read_ok(&x, "readable") else { return };
            let back = r.document.section_property.header.map(|h| h.1.children);
            sx::check(back.as_ref() == Some(&h.children), "read back in a header");
        }
        _ => {
            let DocumentChild::Paragraph(p) = b else { return sx::reach("end") };
            let c = Comment::new(1).author("x").date("y").add_paragraph(*p);
            let q = Paragraph::new().add_comment_start(c.clone()).add_run(run("a")).add_comment_end(1);
            let x = pack(x.add_paragraph(q));
            let Some(parts) = trees(&x, "wf") else { return };
            let Some(q) = parts.iter().find(|p| p.0 == "word/comments.xml") else {
                return sx::check(false, "comments part");
            };
            compare(&q.1, &m, "author and date");
            let Some(r) = read_ok(&x, "readable") else { return };
            let back = r.comments.inner().first().map(|c| c.children.clone());
            sx::check(back.as_ref() == Some(&c.children), "read back in a comment");
        }
    }
    sx::reach("end");
}

/// several changes by different people in one paragraph keep their order and owners;
/// the plain text is the text with every change accepted
#[no_mangle]
pub extern "C-unwind" fn h_c11_sequence() {
    let n = sx::choice(4);
    let mut m = vec![];
    let mut p = Paragraph::new();
    let mut text = String::new();
    for i in 0..n {
        let k = sx::choice(CONTENT + 1);
        let t = format!("{}{}", ["a", "b", "c"][i], sx::u32v(1, 9));
        if k == CONTENT {
            text += &t;
            p = p.add_run(run(&t));
        } else {
            let (a, d) = (format!("author {}", 9 - i), format!("date {i}"));
            p = add(p, content(k, &a, &d, &t, "w:p", &mut m));
            text += &match k {
                0 | 3 => t,
                5 | 6 => format!("{t}y{t}y"),
                _ => String::new(),
            };
        }
    }
    sx::check_eq(p.raw_text().as_bytes(), text.as_bytes(), "plain text");
    check(Docx::new().add_paragraph(p), &m);
    sx::reach("end");
}

/// tabs and breaks are part of the plain text wherever the text is shown
#[no_mangle]
pub extern "C-unwind" fn h_c11_plain_text() {
    let mut r = Run::new();
    let mut want = vec![];
    for _ in 0..2 {
        match sx::choice(6) {
            0 => {
                let t = sx::text(1, 3);
                want.extend_from_slice(t.as_bytes());
                r = r.add_text(t);
            }
            1 => {
                want.push(b'\t');
                r = r.add_tab();
            }
            2 => {
                want.push(b'\n');
                r = r.add_break(pick(&[BreakType::Page, BreakType::Column, BreakType::TextWrapping]));
            }
            3 => {
                want.push(b'\n');
                r = r.add_carriage_return();
            }
            4 => {
                want.push(b'\t');
                r = r.add_ptab(PositionalTab::new(
                    PositionalTabAlignmentType::Left,
                    PositionalTabRelativeTo::Margin,
                    TabLeaderType::None,
                ));
            }
            _ => r = r.add_delete_text("q"),
        }
    }
    let p = Paragraph::new();
    let p = match sx::choice(3) {
        0 => p.add_run(r),
        1 => p.add_insert(Insert::new(r)),
        _ => p.add_move_to(MoveTo::new(r)),
    };
    sx::check_eq(p.raw_text().as_bytes(), &want, "plain text");
    let x = Docx::new().add_paragraph(p).build();
    let Some(d) = read_ok(&mini(&x.document), "readable") else { return };
    let Some(DocumentChild::Paragraph(p)) = d.document.children.first() else {
        return sx::check(false, "paragraph");
    };
    sx::check_eq(p.raw_text().as_bytes(), &want, "plain text read");
    sx::reach("end");
}

/// the formatting before a change is kept apart from the formatting after it
#[no_mangle]
pub extern "C-unwind" fn h_c11_formatting() {
    let (mut before, mut after) = (paragraph::base(), paragraph::base());
    let old = paragraph::set(sx::choice(paragraph::SETTERS - 1), ParagraphProperty::new(), &mut before, false);
    let mut new = ParagraphProperty::new();
    match sx::choice(3) {
        0 => {}
        1 => new = paragraph::set(0, new, &mut after, false),
        _ => new = paragraph::set(3, new, &mut after, false),
    }
    let t = ident(2);
    let c = ParagraphPropertyChange::new().property(old).author(&t[..]).date("d");
    let mut p = Paragraph::new().add_run(run("a"));
    p.has_numbering = new.numbering_property.is_some();
    p.property = new.paragraph_property_change(c);
    let d = Docx::new().add_paragraph(p);
    let x = d.clone().build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    let change = after.el("w:pPrChange", vec![("w:id", Val::Any), ("w:author", st(&t)), ("w:date", st("d"))]);
    change.el("w:pPr", vec![]);
    change.get("w:pPr").unwrap().kids = before;
    after.verify(e.at("w:body/w:p/w:pPr"), "written");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::check(r.document.children == d.document.children, "read back");
    sx::reach("end");
}

/// changes other programs write
#[no_mangle]
pub extern "C-unwind" fn h_c11_foreign() {
    let n = paragraph::two();
    let a = ident(2);
    let author = format!(" w:author=\"{a}&amp;\"");
    let date = " w:date=\"2024-01-02T03:04:05Z\"";
    let ids = format!(" w:id=\"{n}\"");
    let attrs = match sx::choice(5) {
        0 => format!("{ids}{author}{date}"),
        1 => format!("{date}{author}{ids}"),
        2 => format!("{author}{ids}"),
        3 => format!(" w:rsid=\"00\"{author}{ids} w16du:dateUtc=\"2024-01-02T03:04:05Z\"{date}"),
        _ => format!("{ids}\n  {author}\n  {date}"),
    };
    let dated = attrs.contains("w:date=");
    let (name, kid) = pick(&[("ins", "t"), ("del", "delText"), ("moveFrom", "t"), ("moveTo", "t")]);
    let r = |t: &str| format!("<w:r w:rsidR=\"01\"><w:rPr><w:b/></w:rPr><w:{kid} xml:space=\"preserve\">{t}</w:{kid}></w:r>");
    let mid = pick(&[
        "",
        "<w:bookmarkStart w:id=\"3\" w:name=\"k\"/><w:bookmarkEnd w:id=\"3\"/>",
        "<w:proofErr w:type=\"spellStart\"/>",
    ]);
    let between = pick(&["", "\n "]);
    let body = format!(
        "<w:p><w:r><w:t>x</w:t></w:r>{between}<w:{name}{attrs}>{between}{}{mid}{between}{}{between}</w:{name}>{between}<w:r><w:t>y</w:t></w:r></w:p>",
        r("c1"),
        r("c2"),
    );
    let Some(d) = read_ok(&mini(&doc_around(body.as_bytes())), "readable") else { return };
    let Some(DocumentChild::Paragraph(p)) = d.document.children.first() else {
        return sx::check(false, "paragraph");
    };
    let bold = |t: &str| {
        let r = Run::new().bold();
        if kid == "t" {
            r.add_text(t)
        } else {
            r.add_delete_text(t)
        }
    };
    let (a, t) = (format!("{a}&"), if dated { "2024-01-02T03:04:05Z" } else { "1970-01-01T00:00:00Z" });
    let want = match name {
        "ins" => ParagraphChild::Insert(Insert::new(bold("c1")).add_run(bold("c2")).author(a).date(t)),
        "del" => ParagraphChild::Delete(Delete::new().add_run(bold("c1")).add_run(bold("c2")).author(a).date(t)),
        "moveFrom" => ParagraphChild::MoveFrom(MoveFrom::new().add_run(bold("c1")).add_run(bold("c2")).author(a).date(t)),
        _ => ParagraphChild::MoveTo(MoveTo::new(bold("c1")).add_run(bold("c2")).author(a).date(t)),
    };
    sx::check(p.children.len() == 3, "number of items");
    sx::check(p.children.get(1) == Some(&want), "change read");
    sx::reach("end");
}
