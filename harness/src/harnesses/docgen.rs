//! Documents made of one kind of paragraph content placed in one kind of
//! container; shared by the whole-package checks.
use super::text::{cell, p, r};
use docx_rs::*;

pub fn png(n: usize) -> Vec<u8> {
    vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10, n as u8, 1, 2, 3]
}
pub fn pic(n: usize) -> Pic {
    Pic::new_with_dimensions(png(n), 10, 20)
}
pub fn comment(n: usize) -> Comment {
    Comment::new(n).author("m").date("2024-01-01T00:00:00Z").add_paragraph(p("c"))
}
pub fn foot(s: Paragraph) -> Footnote {
    let mut f = Footnote::new();
    f.add_content(s);
    f
}
fn ext(s: &str) -> Hyperlink {
    Hyperlink::new(s, HyperlinkType::External)
}
fn anchor(s: &str) -> Hyperlink {
    Hyperlink::new(s, HyperlinkType::Anchor)
}

pub const CONTENTS: &[(&str, fn(usize, &str) -> Paragraph)] = &[
    ("text", |_, s| p(s)),
    ("empty", |_, _| Paragraph::new()),
    ("external link", |n, s| Paragraph::new().add_hyperlink(ext(&format!("http://{}", n)).add_run(r(s)))),
    ("anchor link", |_, s| Paragraph::new().add_hyperlink(anchor("b").add_run(r(s)))),
    ("insertion", |_, s| Paragraph::new().add_insert(Insert::new(r(s)).author("a").date("2024-01-01T00:00:00Z"))),
    ("deletion", |_, s| Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text(s)))),
    ("deleted insertion", |_, s| {
        Paragraph::new().add_insert(Insert::new_with_del(Delete::new().add_run(Run::new().add_delete_text(s))))
    }),
    ("move", |_, s| {
        Paragraph::new().add_move_from(MoveFrom::new().add_run(r(s))).add_move_to(MoveTo::new(r(s)))
    }),
    ("comment", |n, s| p("x").add_comment_start(comment(n)).add_run(r(s)).add_comment_end(n)),
    ("comment in link", |n, s| {
        Paragraph::new().add_hyperlink(
            ext(&format!("http://{}", n)).add_comment_start(comment(n)).add_run(r(s)).add_comment_end(n),
        )
    }),
    ("comment in insertion", |n, s| {
        Paragraph::new().add_insert(Insert::new(r(s)).add_comment_start(comment(n)).add_run(r("y")).add_comment_end(n))
    }),
    ("comment in deletion", |n, s| {
        Paragraph::new().add_delete(
            Delete::new()
                .add_comment_start(comment(n))
                .add_run(Run::new().add_delete_text(s))
                .add_comment_end(n),
        )
    }),
    ("comment in move", |n, s| {
        Paragraph::new().add_move_to(MoveTo::new_with_empty().add_comment_start(comment(n)).add_run(r(s)).add_comment_end(n))
    }),
    ("comment with reply", |n, s| {
        p("x")
            .add_comment_start(comment(n))
            .add_comment_start(comment(n + 50).parent_comment_id(n))
            .add_run(r(s))
            .add_comment_end(n + 50)
            .add_comment_end(n)
    }),
    ("comment of two paragraphs", |n, s| {
        p("x").add_comment_start(comment(n).add_paragraph(p("d"))).add_run(r(s)).add_comment_end(n)
    }),
    ("footnote", |_, s| Paragraph::new().add_run(r("x").add_footnote_reference(foot(p(s))))),
    ("footnote in link", |_, s| {
        Paragraph::new().add_hyperlink(anchor("b").add_run(Run::new().add_footnote_reference(foot(p(s)))))
    }),
    ("footnote in insertion", |_, s| {
        Paragraph::new().add_insert(Insert::new(Run::new().add_footnote_reference(foot(p(s)))))
    }),
    ("picture", |n, s| Paragraph::new().add_run(r(s).add_image(pic(n)))),
    ("same picture twice", |_, s| Paragraph::new().add_run(r(s).add_image(pic(0))).add_run(Run::new().add_image(pic(0)))),
    ("floating picture", |n, s| Paragraph::new().add_run(r(s).add_image(pic(n).floating().overlapping()))),
    ("picture in link", |n, s| {
        Paragraph::new().add_hyperlink(ext(&format!("http://{}", n)).add_run(r(s).add_image(pic(n))))
    }),
    ("picture in insertion", |n, s| Paragraph::new().add_insert(Insert::new(r(s).add_image(pic(n))))),
    ("picture in deletion", |n, _| Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_image(pic(n))))),
    ("picture in move", |n, _| {
        Paragraph::new()
            .add_move_from(MoveFrom::new().add_run(Run::new().add_image(pic(n))))
            .add_move_to(MoveTo::new(Run::new().add_image(pic(n + 60))))
    }),
    ("picture in deleted insertion", |n, _| {
        Paragraph::new().add_insert(Insert::new_with_del(Delete::new().add_run(Run::new().add_image(pic(n)))))
    }),
    ("picture in deleted move", |n, s| {
        Paragraph::new().add_move_to(MoveTo::new(r(s)).add_delete(Delete::new().add_run(Run::new().add_image(pic(n)))))
    }),
    ("picture in insertion in link", |n, s| {
        Paragraph::new().add_hyperlink(
            anchor("b").add_run(r(s)).add_insert(Insert::new(Run::new().add_image(pic(n)))),
        )
    }),
    ("comment in deleted insertion", |n, s| {
        Paragraph::new().add_insert(Insert::new_with_del(
            Delete::new().add_comment_start(comment(n)).add_run(Run::new().add_delete_text(s)).add_comment_end(n),
        ))
    }),
    ("comment in old place of a move", |n, s| {
        Paragraph::new().add_move_from(MoveFrom::new().add_comment_start(comment(n)).add_run(r(s)).add_comment_end(n))
    }),
    ("inline content control", |_, s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().add_run(r(s)))),
    ("picture in content control", |n, s| {
        Paragraph::new().add_structured_data_tag(StructuredDataTag::new().add_run(r(s).add_image(pic(n))))
    }),
    ("content control in link", |n, s| {
        Paragraph::new().add_hyperlink(
            ext(&format!("http://{}", n)).add_structured_data_tag(StructuredDataTag::new().add_run(r(s))),
        )
    }),
    ("bookmark", |n, s| Paragraph::new().add_bookmark_start(n, format!("b{}", n)).add_run(r(s)).add_bookmark_end(n)),
    ("page numbers", |_, s| p(s).add_page_num(PageNum::new()).add_num_pages(NumPages::new())),
    ("breaks and tabs", |_, s| {
        Paragraph::new().add_run(
            r(s).add_tab().add_break(BreakType::Page).add_break(BreakType::Column).add_break(BreakType::TextWrapping).add_carriage_return(),
        )
    }),
    ("symbol", |_, s| Paragraph::new().add_run(r(s).add_sym(Sym::new("F", "F0A0")))),
    ("numbered", |_, s| p(s).numbering(NumberingId::new(2), IndentLevel::new(0))),
    ("changed formatting", |_, s| {
        p(s).paragraph_property_change(
            ParagraphPropertyChange::new()
                .author("a")
                .date("2024-01-01T00:00:00Z")
                .property(ParagraphProperty::new().align(AlignmentType::Center)),
        )
    }),
    ("paragraph mark inserted", |_, s| p(s).insert("a", "2024-01-01T00:00:00Z")),
    ("field", |_, s| {
        Paragraph::new().add_run(
            Run::new()
                .add_field_char(FieldCharType::Begin, false)
                .add_instr_text(InstrText::Unsupported("DATE".into()))
                .add_field_char(FieldCharType::Separate, false)
                .add_text(s)
                .add_field_char(FieldCharType::End, false),
        )
    }),
];

/// containers: index, name; the paragraph sits somewhere inside
pub const PLACES: &[(&str, fn(Docx, usize, Paragraph) -> Docx)] = &[
    ("body", |d, _, q| d.add_paragraph(q)),
    ("cell", |d, _, q| d.add_table(cell(TableCell::new().add_paragraph(q)))),
    ("nested cell", |d, _, q| {
        d.add_table(cell(TableCell::new().add_table(cell(TableCell::new().add_paragraph(q))).add_paragraph(p("z"))))
    }),
    ("section", |d, _, q| d.add_section(Section::new().add_paragraph(q))),
    ("cell in section", |d, _, q| d.add_section(Section::new().add_table(cell(TableCell::new().add_paragraph(q))))),
    ("content control", |d, _, q| d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(q))),
    ("cell in content control", |d, _, q| {
        d.add_structured_data_tag(StructuredDataTag::new().add_table(cell(TableCell::new().add_paragraph(q))))
    }),
    ("content control in cell", |d, _, q| {
        d.add_table(cell(TableCell::new().add_structured_data_tag(StructuredDataTag::new().add_paragraph(q))))
    }),
    ("before contents", |d, _, q| {
        d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).add_before_paragraph(q))
    }),
    ("after contents", |d, _, q| {
        d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).add_after_paragraph(q))
    }),
    ("cell after contents", |d, _, q| {
        d.add_table_of_contents(
            TableOfContents::new()
                .heading_styles_range(1, 3)
                .add_item(TableOfContentsItem::new().text("t").level(1).toc_key("k").page_ref("2"))
                .add_after_table(cell(TableCell::new().add_paragraph(q))),
        )
    }),
    ("contents in cell", |d, _, q| {
        d.add_table(cell(TableCell::new().add_table_of_contents(
            TableOfContents::new().heading_styles_range(1, 3).add_before_paragraph(q),
        )))
    }),
    ("last cell", |d, _, q| {
        d.add_table(Table::new(vec![
            TableRow::new(vec![TableCell::new(), TableCell::new().add_paragraph(p("y"))]),
            TableRow::new(vec![TableCell::new().add_paragraph(p("y")), TableCell::new().add_paragraph(p("z")).add_paragraph(q)]),
        ]))
    }),
    ("nested content control", |d, _, q| {
        let mut t = StructuredDataTag::new();
        let inner = StructuredDataTag::new().add_paragraph(q);
        t.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(inner)));
        d.add_structured_data_tag(t)
    }),
    // header and footer parts
    ("header", |d, _, q| d.header(Header::new().add_paragraph(q))),
    ("first header", |d, _, q| d.first_header(Header::new().add_paragraph(q))),
    ("even header", |d, _, q| d.even_header(Header::new().add_paragraph(q))),
    ("footer", |d, _, q| d.footer(Footer::new().add_paragraph(q))),
    ("first footer", |d, _, q| d.first_footer(Footer::new().add_paragraph(q))),
    ("even footer", |d, _, q| d.even_footer(Footer::new().add_paragraph(q))),
    ("cell in header", |d, _, q| d.header(Header::new().add_table(cell(TableCell::new().add_paragraph(q))))),
    ("cell in footer", |d, _, q| d.footer(Footer::new().add_table(cell(TableCell::new().add_paragraph(q))))),
    ("content control in header", |d, _, q| {
        let mut h = Header::new();
        h.children.push(HeaderChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_paragraph(q))));
        d.header(h)
    }),
    ("content control in footer", |d, _, q| {
        let mut h = Footer::new();
        h.children.push(FooterChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_paragraph(q))));
        d.footer(h)
    }),
    ("section first header", |d, _, q| d.add_section(Section::new().add_paragraph(p("s")).first_header(Header::new().add_paragraph(q)))),
    ("section even footer", |d, _, q| d.add_section(Section::new().add_paragraph(p("s")).even_footer(Footer::new().add_paragraph(q)))),
    ("section header", |d, _, q| d.add_section(Section::new().add_paragraph(p("s")).header(Header::new().add_paragraph(q)))),
    ("section footer", |d, _, q| d.add_section(Section::new().add_paragraph(p("s")).footer(Footer::new().add_paragraph(q)))),
    // parts of their own
    ("comment", |d, n, q| {
        d.add_paragraph(
            p("x").add_comment_start(Comment::new(n + 90).author("a").add_paragraph(q)).add_run(r("y")).add_comment_end(n + 90),
        )
    }),
    ("footnote", |d, _, q| d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(foot(q))))),
    ("cell in comment", |d, n, q| {
        let c = Comment::new(n + 190).author("a").add_table(cell(TableCell::new().add_paragraph(q))).add_paragraph(p("c"));
        d.add_paragraph(p("x").add_comment_start(c).add_run(r("y")).add_comment_end(n + 190))
    }),
];
/// places before this one are in the main document part
pub const BODY_PLACES: usize = 14;
/// places before this one are in the main document, header and footer parts
pub const PART_PLACES: usize = 28;

/// Comments and footnotes exist only in the main document part. Links and
/// pictures in comments and footnotes are a known defect, represented by the
/// plain external link and the plain picture.
pub fn allowed(content: usize, place: usize) -> bool {
    let c = CONTENTS[content].0;
    if place >= BODY_PLACES && (c.contains("comment") || c.contains("footnote")) {
        return false;
    }
    if place >= PART_PLACES {
        return match c {
            "external link" | "picture" => PLACES[place].0 != "cell in comment",
            "content control in link" | "same picture twice" => false,
            c => !c.contains("picture"),
        };
    }
    true
}
/// contents which involve other parts of the package
pub const LINKED: &[&str] = &[
    "external link", "comment", "comment with reply", "footnote", "picture", "same picture twice", "picture in content control", "numbered",
];

pub fn base(content: usize) -> Docx {
    let d = Docx::new();
    if CONTENTS[content].0 == "numbered" {
        numbering(d)
    } else {
        d
    }
}
pub fn numbering(d: Docx) -> Docx {
    d.add_abstract_numbering(
        AbstractNumbering::new(2).add_level(Level::new(
            0,
            Start::new(1),
            NumberFormat::new("decimal"),
            LevelText::new("%1."),
            LevelJc::new("left"),
        )),
    )
    .add_numbering(Numbering::new(2, 2))
}

/// document-wide additions
pub const EXTRAS: &[(&str, fn(Docx) -> Docx)] = &[
    ("nothing", |d| d),
    ("all headers and footers", |d| {
        d.header(Header::new().add_paragraph(p("h1")))
            .first_header(Header::new().add_paragraph(p("h2")))
            .even_header(Header::new().add_paragraph(p("h3")))
            .footer(Footer::new().add_paragraph(p("f1")))
            .first_footer(Footer::new().add_paragraph(p("f2")))
            .even_footer(Footer::new().add_paragraph(p("f3")))
    }),
    ("numbering", |d| numbering(d)),
    ("custom XML", |d| d.add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<a>b</a>")),
    ("two custom XML items", |d| {
        d.add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<a>b</a>")
            .add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC4", "<c/>")
    }),
    ("web extension", |d| {
        d.taskpanes().web_extension(WebExtension::new("7f33b723-fb58-4524-8733-dbedc4b7c095", "w1", "1", "s", "t"))
    }),
    ("custom XML and two web extensions", |d| {
        d.taskpanes()
            .web_extension(WebExtension::new("7f33b723-fb58-4524-8733-dbedc4b7c095", "w1", "1", "s", "t"))
            .add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<a>b</a>")
            .web_extension(WebExtension::new("7f33b723-fb58-4524-8733-dbedc4b7c096", "w2", "1", "s", "t"))
    }),
    ("properties", |d| d.custom_property("k", "v").created_at("2024-01-01T00:00:00Z").updated_at("2024-01-01T00:00:00Z")),
    ("picture in body", |d| d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic(70))))),
    ("picture in header", |d| {
        d.header(Header::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic(71)))))
    }),
    ("picture in even footer after others", |d| {
        d.footer(Footer::new().add_paragraph(p("f1")))
            .first_footer(Footer::new().add_paragraph(p("f2")))
            .even_footer(Footer::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic(72)))))
    }),
    ("footnote", |d| d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(foot(p("g")))))),
    ("comment", |d| d.add_paragraph(Paragraph::new().add_comment_start(comment(80)).add_run(r("k")).add_comment_end(80))),
    ("comment around a paragraph", |mut d| {
        d.document = d.document.add_comment_start(comment(81)).add_paragraph(p("k")).add_comment_end(81);
        d
    }),
    ("comment around a paragraph of a section", |d| {
        d.add_section(Section::new().add_comment_start(comment(82)).add_paragraph(p("k")).add_comment_end(82))
    }),
    ("link", |d| d.add_paragraph(Paragraph::new().add_hyperlink(ext("http://e").add_run(r("k"))))),
    ("contents", |d| d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto())),
];

/// a paragraph carrying `q` in a comment or footnote
pub const CARRIERS: &[(&str, fn(usize, Paragraph) -> Paragraph)] = &[
    ("comment", |n, q| Paragraph::new().add_comment_start(note(n, q)).add_run(r("a")).add_comment_end(n)),
    ("comment in link", |n, q| {
        Paragraph::new().add_hyperlink(anchor("b").add_comment_start(note(n, q)).add_run(r("a")).add_comment_end(n))
    }),
    ("comment in insertion", |n, q| {
        Paragraph::new().add_insert(Insert::new(r("a")).add_comment_start(note(n, q)).add_comment_end(n))
    }),
    ("comment in deletion", |n, q| Paragraph::new().add_delete(Delete::new().add_comment_start(note(n, q)).add_comment_end(n))),
    ("comment in old place", |n, q| {
        Paragraph::new().add_move_from(MoveFrom::new().add_comment_start(note(n, q)).add_comment_end(n))
    }),
    ("comment in new place", |n, q| {
        Paragraph::new().add_move_to(MoveTo::new(r("a")).add_comment_start(note(n, q)).add_comment_end(n))
    }),
    ("comment in deleted insertion", |n, q| {
        Paragraph::new().add_insert(Insert::new_with_del(Delete::new().add_comment_start(note(n, q)).add_comment_end(n)))
    }),
    ("comment in deleted move", |n, q| {
        Paragraph::new()
            .add_move_to(MoveTo::new(r("a")).add_delete(Delete::new().add_comment_start(note(n, q)).add_comment_end(n)))
    }),
    ("comment in insertion in link", |n, q| {
        Paragraph::new().add_hyperlink(
            anchor("b").add_insert(Insert::new(r("a")).add_comment_start(note(n, q)).add_comment_end(n)),
        )
    }),
    ("comment in deletion in link", |n, q| {
        Paragraph::new().add_hyperlink(anchor("b").add_delete(Delete::new().add_comment_start(note(n, q)).add_comment_end(n)))
    }),
    ("comment in content control", |n, q| {
        let mut t = StructuredDataTag::new();
        t.children.push(StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(note(n, q)))));
        t.children.push(StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(n)));
        Paragraph::new().add_structured_data_tag(t)
    }),
    ("cell in comment", |n, q| {
        let c = Comment::new(n).author("a").add_table(cell(TableCell::new().add_paragraph(q))).add_paragraph(p("c"));
        Paragraph::new().add_comment_start(c).add_run(r("a")).add_comment_end(n)
    }),
    ("footnote", |_, q| Paragraph::new().add_run(Run::new().add_footnote_reference(foot(q)))),
    ("footnote in link", |_, q| Paragraph::new().add_hyperlink(anchor("b").add_run(Run::new().add_footnote_reference(foot(q))))),
    ("footnote in insertion", |_, q| Paragraph::new().add_insert(Insert::new(Run::new().add_footnote_reference(foot(q))))),
    ("footnote in deletion", |_, q| {
        Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_footnote_reference(foot(q))))
    }),
    ("footnote in move", |_, q| Paragraph::new().add_move_to(MoveTo::new(Run::new().add_footnote_reference(foot(q))))),
    ("footnote in content control", |_, q| {
        Paragraph::new().add_structured_data_tag(StructuredDataTag::new().add_run(Run::new().add_footnote_reference(foot(q))))
    }),
];
fn note(n: usize, q: Paragraph) -> Comment {
    Comment::new(n).author("m").date("2024-01-01T00:00:00Z").add_paragraph(q)
}
