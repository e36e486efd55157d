//! C10: comments, their threads and anchors.
use super::paragraph::two;
use super::util::*;
use crate::sx;
use docx_rs::*;

fn para(t: &str) -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(t))
}
struct Given {
    id: usize,
    author: String,
    date: String,
    texts: Vec<String>,
    /// position of the comment answered to
    parent: Option<usize>,
}
fn comment(g: &Given, all: &[usize], table: bool) -> Comment {
    let mut c = Comment::new(g.id).author(&g.author[..]).date(&g.date[..]);
    for (i, t) in g.texts.iter().enumerate() {
        if table && i == 0 {
            c = c.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(para(t))])]));
        } else {
            c = c.add_paragraph(para(t));
        }
    }
    if let Some(p) = g.parent {
        c = c.parent_comment_id(all[p]);
    }
    c
}
/// a commented word in a paragraph of its own
fn anchored(c: Comment, word: &str, how: usize) -> Paragraph {
    let id = c.id();
    let run = Run::new().add_text(word);
    let p = Paragraph::new();
    match how {
        0 => p.add_comment_start(c).add_run(run).add_comment_end(id),
        1 => p.add_insert(Insert::new_with_empty().add_comment_start(c).add_run(run).add_comment_end(id)),
        2 => p.add_run(Run::new().add_text("x")).add_comment_start(c).add_hyperlink(
            Hyperlink::new("http://a", HyperlinkType::External).add_run(run)).add_comment_end(id),
        3 => p.add_hyperlink(Hyperlink::new("http://a", HyperlinkType::External).add_comment_start(c).add_run(run).add_comment_end(id)),
        4 => p.add_move_to(MoveTo::new_with_empty().add_comment_start(c).add_run(run).add_comment_end(id)),
        5 => p.add_hyperlink(Hyperlink::new("a", HyperlinkType::Anchor).add_run(Run::new().add_text("x")).add_comment_start(c).add_run(run)).add_comment_end(id),
        6 => p.add_comment_start(c).add_insert(Insert::new_with_empty().add_run(run).add_comment_end(id)),
        7 => p.add_delete(Delete::new().add_comment_start(c).add_run(Run::new().add_delete_text(word)).add_comment_end(id)),
        _ => p.add_move_from(MoveFrom::new().add_comment_start(c).add_run(run).add_comment_end(id)),
    }
}
const PLACES: usize = 4;
fn place(d: Docx, k: usize, p: Paragraph) -> Docx {
    match k {
        0 => d.add_paragraph(p),
        1 => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p)])])),
        2 => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p)),
        _ => d.add_section(Section::new().add_paragraph(p)),
    }
}
fn text_of(e: &El) -> Vec<u8> {
    let mut v = vec![];
    e.all("w:t", &mut v);
    v.iter().flat_map(|t| t.text()).collect()
}
/// text between the start and the end of the range of a comment, in document order
fn covered(e: &El, id: &[u8], on: &mut bool, out: &mut Vec<u8>, marks: &mut [usize; 3]) {
    for c in e.els() {
        let mine = c.attr("w:id") == Some(id);
        match &c.name[..] {
            "w:commentRangeStart" if mine => {
                *on = true;
                marks[0] += 1;
            }
            "w:commentRangeEnd" if mine => {
                *on = false;
                marks[1] += 1;
            }
            "w:commentReference" if mine => marks[2] += 1,
            "w:t" | "w:delText" if *on => out.extend_from_slice(&c.text()),
            _ => {}
        }
        covered(c, id, on, out, marks);
    }
}
fn last_para<'a>(c: &'a El) -> &'a [u8] {
    c.els().filter(|e| e.name == "w:p").last().and_then(|p| p.attr("w14:paraId")).unwrap_or(b"(none)")
}
const WORDS: [&str; 3] = ["one", "two", "three"];
fn check_package(b: &[u8], given: &[Given], what: &str) {
    let Some(parts) = trees(b, "wf") else { return };
    let of = |n: &str| parts.iter().find(|p| p.0 == n).map(|p| &p.1);
    let (Some(doc), Some(com), Some(ext)) = (of("word/document.xml"), of("word/comments.xml"), of("word/commentsExtended.xml")) else {
        sx::check(false, "parts");
        return;
    };
    sx::check(com.els().count() == given.len(), "number of comments");
    let mut cs: Vec<&El> = vec![];
    for g in given {
        let id = g.id.to_string();
        cs.extend(com.els().find(|c| c.attr("w:id") == Some(id.as_bytes())));
    }
    sx::check(cs.len() == given.len(), "each comment");
    sx::check(ext.els().count() == given.len(), "number of thread entries");
    let entry = |g: usize| {
        let id = last_para(cs[g]);
        let v: Vec<&El> = ext.els().filter(|e| e.attr("w15:paraId") == Some(id)).collect();
        sx::check(v.len() == 1, "one thread entry");
        v.first().copied()
    };
    if cs.len() != given.len() {
        return;
    }
    for (i, g) in given.iter().enumerate() {
        let id = g.id.to_string();
        sx::check_eq(cs[i].attr("w:id").unwrap_or(b""), id.as_bytes(), what);
        sx::check_eq(cs[i].attr("w:author").unwrap_or(b""), g.author.as_bytes(), what);
        sx::check_eq(cs[i].attr("w:date").unwrap_or(b""), g.date.as_bytes(), what);
        sx::check_eq(&text_of(cs[i]), g.texts.concat().as_bytes(), what);
        let Some(e) = entry(i) else { continue };
        match g.parent {
            None => sx::check(e.attr("w15:paraIdParent").is_none(), "answers nothing"),
            Some(p) => sx::check_eq(e.attr("w15:paraIdParent").unwrap_or(b"(none)"), last_para(cs[p]), "answers"),
        }
        let (mut on, mut t, mut m) = (false, vec![], [0; 3]);
        covered(doc, id.as_bytes(), &mut on, &mut t, &mut m);
        sx::check_eq(&t, WORDS[i].as_bytes(), "range");
        sx::check(m == [1, 1, 1], "range marks");
    }
}
fn check(d: Docx, given: &[Given]) {
    let b = pack(d);
    check_package(&b, given, "comment");
    let Some(r) = read_ok(&b, "readable") else { return };
    let got = r.comments.inner();
    sx::check(got.len() == given.len(), "number of comments read");
    for g in given {
        let Some(c) = got.iter().find(|c| c.id == g.id) else {
            sx::check(false, "id read");
            continue;
        };
        sx::check_eq(c.author.as_bytes(), g.author.as_bytes(), "author read");
        sx::check_eq(c.date.as_bytes(), g.date.as_bytes(), "date read");
        sx::check(c.parent_comment_id == g.parent.map(|p| given[p].id), "parent read");
        let t: Vec<String> = c
            .children
            .iter()
            .map(|c| match c {
                CommentChild::Paragraph(p) => p.raw_text(),
                CommentChild::Table(t) => {
                    let TableChild::TableRow(r) = &t.rows[0];
                    let TableRowChild::TableCell(c) = &r.cells[0];
                    match &c.children[0] {
                        TableCellContent::Paragraph(p) => p.raw_text(),
                        _ => "?".into(),
                    }
                }
            })
            .collect();
        sx::check_eq(t.join("\n").as_bytes(), g.texts.join("\n").as_bytes(), "content read");
    }
    check_package(&pack(r), given, "comment written again");
    sx::reach("end");
}
/// one comment: values over their ranges, content, anchor and place
#[no_mangle]
pub extern "C-unwind" fn h_c10_single() {
    let (mut author, mut date, mut text) = (ident(1), ident(1), ident(1));
    let mut id = 7;
    let mut paras = 1;
    let (mut how, mut at, mut table) = (0, 0, false);
    match sx::choice(6) {
        0 => author = sx::ascii(3),
        1 => date = sx::ascii(3),
        2 => text = sx::ascii(3),
        3 => id = sx::u32v(0, 9_999_999) as usize,
        4 => {
            paras = sx::choice(4);
            table = sx::choice(2) == 1;
            // a comment ends with a paragraph
            sx::assume(paras > 1 || paras == 1 && !table);
        }
        _ => {
            how = sx::choice(9);
            at = sx::choice(PLACES);
            if at == 0 {
                id = sx::u32v(0, 9_999_999) as usize;
            }
        }
    }
    let texts = (0..paras).map(|i| if i == 0 { text.clone() } else { ident(1) }).collect();
    let g = Given { id, author, date, texts, parent: None };
    let c = comment(&g, &[], table);
    check(place(Docx::new(), at, anchored(c, WORDS[0], how)), &[g]);
}
/// threads of up to three comments: any identifiers, answers to any other one
#[no_mangle]
pub extern "C-unwind" fn h_c10_threads() {
    let n = 2 + sx::choice(2);
    let ids: Vec<usize> = (0..n).map(|_| two() as usize).collect();
    for i in 0..n {
        for j in 0..i {
            sx::assume(ids[i] != ids[j]);
        }
    }
    // answers go to comments before or after, never in circles
    let order = [[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0]][sx::choice(if n == 2 { 2 } else { 4 })];
    let mut given = vec![];
    for i in 0..n {
        let before: Vec<usize> = (0..n).filter(|&j| order[j] < order[i]).collect();
        let k = sx::choice(before.len() + 1);
        let paras = 1 + if i == 0 { sx::choice(2) } else { 0 };
        given.push(Given {
            id: ids[i],
            author: ident(1),
            date: "d".into(),
            texts: (0..paras).map(|_| ident(1)).collect(),
            parent: before.get(k).copied(),
        });
    }
    let at = sx::choice(PLACES);
    let mut d = Docx::new();
    for (i, g) in given.iter().enumerate() {
        d = place(d, if i == 1 { at } else { 0 }, anchored(comment(g, &ids, false), WORDS[i], 0));
    }
    check(d, &given);
}
/// comments of another writer: threads and resolved marks survive reading and
/// writing again
#[no_mangle]
pub extern "C-unwind" fn h_c10_resolved() {
    let n = 1 + sx::choice(3);
    let mut body = String::new();
    let mut com = format!("<?xml version=\"1.0\"?><w:comments{}>", NS);
    let mut ext = format!("<?xml version=\"1.0\"?><w15:commentsEx{}>", NS);
    let mut want: Vec<(String, Option<usize>, bool)> = vec![];
    for i in 0..n {
        let done = sx::choice(2) == 1;
        let parent = if i > 0 && sx::choice(2) == 1 { Some(i - 1) } else { None };
        let t = ident(1);
        body += &format!("<w:p><w:commentRangeStart w:id=\"{i}\"/><w:r><w:t>a</w:t></w:r><w:commentRangeEnd w:id=\"{i}\"/><w:r><w:commentReference w:id=\"{i}\"/></w:r></w:p>");
        com += &format!("<w:comment w:id=\"{i}\" w:author=\"x\" w:date=\"y\"><w:p w14:paraId=\"0000001{i}\"><w:r><w:t>{t}</w:t></w:r></w:p></w:comment>");
        let p = parent.map(|p: usize| format!(" w15:paraIdParent=\"0000001{p}\"")).unwrap_or_default();
        let done_at = ["", " w15:done=\"0\"", " w15:done=\"1\"", " w15:done=\"true\""][if done { 2 + sx::choice(2) } else { sx::choice(2) }];
        ext += &format!("<w15:commentEx w15:paraId=\"0000001{i}\"{p}{done_at}/>");
        want.push((t, parent, done));
    }
    com += "</w:comments>";
    ext += "</w15:commentsEx>";
    let rels = r#"<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/comments" Target="comments.xml"/><Relationship Id="rId2" Type="http://schemas.microsoft.com/office/2011/relationships/commentsExtended" Target="commentsExtended.xml"/></Relationships>"#;
    let b = zip_parts(&[
        ("[Content_Types].xml", CT.as_bytes()),
        ("_rels/.rels", RELS.as_bytes()),
        ("word/_rels/document.xml.rels", rels.as_bytes()),
        ("word/document.xml", &doc_around(body.as_bytes())),
        ("word/comments.xml", com.as_bytes()),
        ("word/commentsExtended.xml", ext.as_bytes()),
    ]);
    let Some(r) = read_ok(&b, "readable") else { return };
    for (i, (c, w)) in r.comments.inner().iter().zip(&want).enumerate() {
        sx::check(c.id == i && c.parent_comment_id == w.1, "thread read");
    }
    for (c, w) in r.comments_extended.children.iter().zip(&want) {
        sx::check(c.done == w.2, "resolved read");
    }
    let Some(parts) = trees(&pack(r), "wf") else { return };
    let of = |n: &str| parts.iter().find(|p| p.0 == n).map(|p| &p.1);
    let (Some(com), Some(ext)) = (of("word/comments.xml"), of("word/commentsExtended.xml")) else {
        sx::check(false, "parts");
        return;
    };
    let cs: Vec<&El> = com.els().collect();
    sx::check(cs.len() == n, "number of comments");
    for (i, w) in want.iter().enumerate() {
        sx::check_eq(&text_of(cs[i]), w.0.as_bytes(), "comment written again");
        let Some(e) = ext.els().find(|e| e.attr("w15:paraId") == Some(last_para(cs[i]))) else {
            sx::check(false, "thread entry");
            return;
        };
        sx::check(matches!(e.attr("w15:done"), Some(b"1" | b"true")) == w.2, "resolved written again");
        match w.1 {
            None => sx::check(e.attr("w15:paraIdParent").is_none(), "answers nothing"),
            Some(p) => sx::check_eq(e.attr("w15:paraIdParent").unwrap_or(b"(none)"), last_para(cs[p]), "answers"),
        }
    }
    sx::reach("end");
}
