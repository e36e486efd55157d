//! C02/C03: every string-taking API
use super::text::{cell, p, r};
use super::util::*;
use crate::sx;
use docx_rs::*;

fn dp(p: Paragraph) -> Docx {
    Docx::new().add_paragraph(p)
}
fn dr(r: Run) -> Docx {
    dp(Paragraph::new().add_run(r.add_text("t")))
}
fn fonts(f: RunFonts) -> Docx {
    dr(Run::new().fonts(f))
}
fn frame(f: FrameProperty) -> Docx {
    let mut p = p("t");
    p.property.frame_property = Some(f);
    dp(p)
}
fn style(s: Style) -> Docx {
    Docx::new().add_style(s).add_paragraph(p("t"))
}
fn lvl(l: Level) -> Docx {
    Docx::new()
        .add_abstract_numbering(AbstractNumbering::new(2).add_level(l))
        .add_numbering(Numbering::new(2, 2))
        .add_paragraph(p("t").numbering(NumberingId::new(2), IndentLevel::new(0)))
}
fn level() -> Level {
    Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"))
}
fn web(f: impl Fn(WebExtension) -> WebExtension, a: [&str; 5]) -> Docx {
    Docx::new()
        .taskpanes()
        .web_extension(f(WebExtension::new(a[0], a[1], a[2], a[3], a[4])))
        .add_paragraph(p("t"))
}
fn tpos(t: TablePositionProperty) -> Docx {
    Docx::new().add_table(cell(TableCell::new().add_paragraph(p("t"))).position(t))
}
fn sdt(t: StructuredDataTag) -> Docx {
    Docx::new().add_structured_data_tag(t.add_paragraph(p("t")))
}
fn bind(b: DataBinding) -> Docx {
    sdt(StructuredDataTag::new().data_binding(b))
}
fn instr(i: InstrText) -> Docx {
    dp(Paragraph::new().add_run(
        Run::new()
            .add_field_char(FieldCharType::Begin, false)
            .add_instr_text(i)
            .add_field_char(FieldCharType::Separate, false)
            .add_text("t")
            .add_field_char(FieldCharType::End, false),
    ))
}
fn toc(i: InstrToC) -> Docx {
    instr(InstrText::TOC(i))
}
fn tocd(t: TableOfContents) -> Docx {
    Docx::new().add_table_of_contents(t)
}
fn item() -> TableOfContentsItem {
    TableOfContentsItem::new().text("i").level(1).toc_key("k").page_ref("2")
}
fn comment(c: Comment) -> Docx {
    dp(Paragraph::new().add_comment_start(c.add_paragraph(p("c"))).add_run(r("t")).add_comment_end(1))
}
const D: &str = "2024-01-01T00:00:00Z";

/// (name, whether the reader keeps the string, builder)
type Site = (&'static str, bool, fn(&str) -> Docx);
pub const SITES: &[Site] = &[
    ("run color", true, |s| dr(Run::new().color(s))),
    ("run highlight", true, |s| dr(Run::new().highlight(s))),
    ("run underline", true, |s| dr(Run::new().underline(s))),
    ("run theme shade", true, |s| dr(Run::new().color("auto").theme_shade(s))),
    ("run theme tint", true, |s| dr(Run::new().color("auto").theme_tint(s))),
    ("run style", true, |s| dr(Run::new().style(s))),
    ("font ascii", true, |s| fonts(RunFonts::new().ascii(s))),
    ("font hAnsi", true, |s| fonts(RunFonts::new().hi_ansi(s))),
    ("font eastAsia", true, |s| fonts(RunFonts::new().east_asia(s))),
    ("font cs", true, |s| fonts(RunFonts::new().cs(s))),
    ("font asciiTheme", true, |s| fonts(RunFonts::new().ascii_theme(s))),
    ("font hAnsiTheme", true, |s| fonts(RunFonts::new().hi_ansi_theme(s))),
    ("font eastAsiaTheme", true, |s| fonts(RunFonts::new().east_asia_theme(s))),
    ("font csTheme", true, |s| fonts(RunFonts::new().cs_theme(s))),
    ("font hint", true, |s| fonts(RunFonts::new().hint(s))),
    ("text border color", true, |s| dr(Run::new().text_border(TextBorder::new().color(s)))),
    ("run shading color", true, |s| dr(Run::new().shading(Shading::new().color(s)))),
    ("run shading fill", true, |s| dr(Run::new().shading(Shading::new().fill(s)))),
    ("symbol font", true, |s| dr(Run::new().add_sym(Sym::new(s, "F0E0")))),
    ("symbol char", true, |s| dr(Run::new().add_sym(Sym::new("Wingdings", s)))),
    ("paragraph style", true, |s| dp(p("t").style(s))),
    ("bookmark in paragraph", true, |s| dp(Paragraph::new().add_bookmark_start(1, s).add_run(r("t")).add_bookmark_end(1))),
    ("bookmark in body", true, |s| Docx::new().add_bookmark_start(1, s).add_paragraph(p("t")).add_bookmark_end(1)),
    ("bookmark in hyperlink", true, |s| {
        dp(Paragraph::new().add_hyperlink(
            Hyperlink::new("a", HyperlinkType::Anchor).add_bookmark_start(1, s).add_run(r("t")).add_bookmark_end(1),
        ))
    }),
    ("paragraph mark color", true, |s| dp(p("t").color(s))),
    ("paragraph inserted author", true, |s| dp(p("t").insert(s, D))),
    ("paragraph inserted date", true, |s| dp(p("t").insert("a", s))),
    ("paragraph deleted author", true, |s| dp(p("t").delete(s, D))),
    ("paragraph deleted date", true, |s| dp(p("t").delete("a", s))),
    ("frame wrap", true, |s| frame(FrameProperty::new().wrap(s))),
    ("frame vAnchor", true, |s| frame(FrameProperty::new().v_anchor(s))),
    ("frame hAnchor", true, |s| frame(FrameProperty::new().h_anchor(s))),
    ("frame hRule", true, |s| frame(FrameProperty::new().h_rule(s))),
    ("frame xAlign", true, |s| frame(FrameProperty::new().x_align(s))),
    ("frame yAlign", true, |s| frame(FrameProperty::new().y_align(s))),
    ("paragraph border color", true, |s| {
        dp(p("t").set_borders(
            ParagraphBorders::with_empty().set(ParagraphBorder::new(ParagraphBorderPosition::Left).color(s)),
        ))
    }),
    ("property change author", true, |s| {
        dp(p("t").paragraph_property_change(ParagraphPropertyChange::new().author(s).date(D)))
    }),
    ("property change date", true, |s| {
        dp(p("t").paragraph_property_change(ParagraphPropertyChange::new().author("a").date(s)))
    }),
    ("insertion author", true, |s| dp(Paragraph::new().add_insert(Insert::new(r("t")).author(s)))),
    ("insertion date", true, |s| dp(Paragraph::new().add_insert(Insert::new(r("t")).date(s)))),
    ("deletion author", true, |s| dp(Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text("t")).author(s)))),
    ("deletion date", true, |s| dp(Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text("t")).date(s)))),
    ("move from author", true, |s| dp(Paragraph::new().add_move_from(MoveFrom::new().add_run(r("t")).author(s)))),
    ("move from date", true, |s| dp(Paragraph::new().add_move_from(MoveFrom::new().add_run(r("t")).date(s)))),
    ("move to author", true, |s| dp(Paragraph::new().add_move_to(MoveTo::new(r("t")).author(s)))),
    ("move to date", true, |s| dp(Paragraph::new().add_move_to(MoveTo::new(r("t")).date(s)))),
    ("table style", true, |s| Docx::new().add_table(cell(TableCell::new().add_paragraph(p("t"))).style(s))),
    ("table vertical anchor", true, |s| tpos(TablePositionProperty::new().vertical_anchor(s))),
    ("table horizontal anchor", true, |s| tpos(TablePositionProperty::new().horizontal_anchor(s))),
    ("table x alignment", true, |s| tpos(TablePositionProperty::new().position_x_alignment(s))),
    ("table y alignment", true, |s| tpos(TablePositionProperty::new().position_y_alignment(s))),
    ("table border color", true, |s| {
        Docx::new().add_table(
            cell(TableCell::new().add_paragraph(p("t")))
                .set_border(TableBorder::new(TableBorderPosition::Left).color(s)),
        )
    }),
    ("cell border color", true, |s| {
        Docx::new().add_table(cell(
            TableCell::new()
                .add_paragraph(p("t"))
                .set_border(TableCellBorder::new(TableCellBorderPosition::Left).color(s)),
        ))
    }),
    ("cell shading fill", true, |s| {
        Docx::new().add_table(cell(TableCell::new().add_paragraph(p("t")).shading(Shading::new().fill(s))))
    }),
    ("cell shading color", true, |s| {
        Docx::new().add_table(cell(TableCell::new().add_paragraph(p("t")).shading(Shading::new().color(s))))
    }),
    ("hyperlink target", true, |s| {
        dp(Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::External).add_run(r("t"))))
    }),
    ("hyperlink anchor", true, |s| {
        dp(Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::Anchor).add_run(r("t"))))
    }),
    ("hyperlink target in cell", true, |s| {
        Docx::new().add_table(cell(TableCell::new().add_paragraph(
            Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::External).add_run(r("t"))),
        )))
    }),
    ("structured data alias", false, |s| sdt(StructuredDataTag::new().alias(s))),
    ("data binding xpath", false, |s| bind(DataBinding::new().xpath(s))),
    ("data binding prefix mappings", false, |s| bind(DataBinding::new().prefix_mappings(s))),
    ("data binding store item", false, |s| bind(DataBinding::new().store_item_id(s))),
    ("comment author", true, |s| comment(Comment::new(1).author(s).date(D))),
    ("comment date", true, |s| comment(Comment::new(1).author("a").date(s))),
    ("toc alias", false, |s| tocd(TableOfContents::new().heading_styles_range(1, 3).alias(s).add_item(item()))),
    ("toc field identifier", true, |s| tocd(TableOfContents::new().tc_field_identifier(Some(s.to_string())).add_item(item()))),
    ("toc style with level", true, |s| tocd(TableOfContents::new().add_style_with_level(StyleWithLevel::new(s, 2)).add_item(item()))),
    ("toc item text", true, |s| tocd(TableOfContents::new().heading_styles_range(1, 3).add_item(item().text(s)))),
    ("toc item key", true, |s| tocd(TableOfContents::new().heading_styles_range(1, 3).add_item(item().toc_key(s)))),
    ("toc item page", true, |s| tocd(TableOfContents::new().heading_styles_range(1, 3).add_item(item().page_ref(s)))),
    ("toc deleted author", true, |s| {
        tocd(TableOfContents::new().heading_styles_range(1, 3).delete(s, D).add_item(item()))
    }),
    ("toc deleted date", true, |s| {
        tocd(TableOfContents::new().heading_styles_range(1, 3).delete("a", s).add_item(item()))
    }),
    ("toc instr identifier", true, |s| toc(InstrToC::new().tc_field_identifier(Some(s.to_string())))),
    ("toc instr entry separator", true, |s| toc(InstrToC::new().entry_and_page_number_separator(s))),
    ("toc instr bookmark", true, |s| toc(InstrToC::new().entry_bookmark_name(s))),
    ("toc instr caption", true, |s| toc(InstrToC::new().caption_label(s))),
    ("toc instr caption with numbers", true, |s| toc(InstrToC::new().caption_label_including_numbers(s))),
    ("toc instr sequence separator", true, |s| toc(InstrToC::new().sequence_and_page_numbers_separator(s))),
    ("toc instr prefix sequence", true, |s| toc(InstrToC::new().seq_field_identifier_for_prefix(s))),
    ("tc text", true, |s| instr(InstrText::TC(InstrTC::new(s)))),
    ("tc item type", true, |s| instr(InstrText::TC(InstrTC::new("x").item_type_identifier(s)))),
    ("page reference", true, |s| instr(InstrText::PAGEREF(InstrPAGEREF::new(s)))),
    ("other instruction", true, |s| instr(InstrText::Unsupported(s.to_string()))),
    ("style id", true, |s| style(Style::new(s, StyleType::Paragraph).name("n"))),
    ("style name", true, |s| style(Style::new("i", StyleType::Paragraph).name(s))),
    ("style based on", true, |s| style(Style::new("i", StyleType::Paragraph).name("n").based_on(s))),
    ("style next", false, |s| style(Style::new("i", StyleType::Paragraph).name("n").next(s))),
    ("style link", true, |s| style(Style::new("i", StyleType::Paragraph).name("n").link(s))),
    ("style color", true, |s| style(Style::new("i", StyleType::Character).name("n").color(s))),
    ("style highlight", true, |s| style(Style::new("i", StyleType::Character).name("n").highlight(s))),
    ("style underline", true, |s| style(Style::new("i", StyleType::Character).name("n").underline(s))),
    ("style fonts", true, |s| style(Style::new("i", StyleType::Character).name("n").fonts(RunFonts::new().east_asia(s)))),
    ("default fonts", true, |s| Docx::new().default_fonts(RunFonts::new().ascii(s)).add_paragraph(p("t"))),
    ("level text", true, |s| {
        lvl(Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new(s), LevelJc::new("left")))
    }),
    ("number format", true, |s| {
        lvl(Level::new(0, Start::new(1), NumberFormat::new(s), LevelText::new("%1"), LevelJc::new("left")))
    }),
    ("level alignment", true, |s| {
        lvl(Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1"), LevelJc::new(s)))
    }),
    ("level paragraph style", true, |s| lvl(level().paragraph_style(s))),
    ("level color", true, |s| lvl(level().color(s))),
    ("level highlight", true, |s| lvl(level().highlight(s))),
    ("level underline", true, |s| lvl(level().underline(s))),
    ("level fonts", true, |s| lvl(level().fonts(RunFonts::new().cs(s)))),
    ("numbering style link", true, |s| {
        Docx::new()
            .add_abstract_numbering(AbstractNumbering::new(2).style_link(s).add_level(level()))
            .add_paragraph(p("t").numbering(NumberingId::new(1), IndentLevel::new(0)))
    }),
    ("numbering num style link", true, |s| {
        Docx::new()
            .add_abstract_numbering(AbstractNumbering::new(2).num_style_link(s).add_level(level()))
            .add_paragraph(p("t").numbering(NumberingId::new(1), IndentLevel::new(0)))
    }),
    ("override level text", true, |s| {
        Docx::new()
            .add_abstract_numbering(AbstractNumbering::new(2).add_level(level()))
            .add_numbering(Numbering::new(2, 2).add_override(LevelOverride::new(0).level(Level::new(
                0,
                Start::new(1),
                NumberFormat::new("decimal"),
                LevelText::new(s),
                LevelJc::new("left"),
            ))))
            .add_paragraph(p("t").numbering(NumberingId::new(2), IndentLevel::new(0)))
    }),
    ("document id", true, |s| Docx::new().doc_id(s).add_paragraph(p("t"))),
    ("document variable name", true, |s| Docx::new().add_doc_var(s, "v").add_paragraph(p("t"))),
    ("document variable value", true, |s| Docx::new().add_doc_var("n", s).add_paragraph(p("t"))),
    ("created", false, |s| Docx::new().created_at(s).add_paragraph(p("t"))),
    ("updated", false, |s| Docx::new().updated_at(s).add_paragraph(p("t"))),
    ("custom property name", true, |s| Docx::new().custom_property(s, "v").add_paragraph(p("t"))),
    ("custom property value", true, |s| Docx::new().custom_property("n", s).add_paragraph(p("t"))),
    ("custom item id", false, |s| Docx::new().add_custom_item(s, "<a/>").add_paragraph(p("t"))),
    ("web extension id", false, |s| web(|w| w, [s, "r", "v", "s", "t"])),
    ("web extension reference", false, |s| web(|w| w, ["i", s, "v", "s", "t"])),
    ("web extension version", false, |s| web(|w| w, ["i", "r", s, "s", "t"])),
    ("web extension store", false, |s| web(|w| w, ["i", "r", "v", s, "t"])),
    ("web extension store type", false, |s| web(|w| w, ["i", "r", "v", "s", s])),
    ("web extension property name", false, |s| web(|w| w.property(s, "v"), ["i", "r", "v", "s", "t"])),
    ("web extension property value", false, |s| web(|w| w.property("n", s), ["i", "r", "v", "s", "t"])),
    ("text direction", true, |s| {
        let mut d = Docx::new().add_paragraph(p("t"));
        d.document = d.document.text_direction(s.to_string());
        d
    }),
    ("section text direction", true, |s| Docx::new().add_section(Section::new().text_direction(s.to_string()).add_paragraph(p("t")))),
    ("chapter style", true, |s| Docx::new().page_num_type(PageNumType::new().chap_style(s)).add_paragraph(p("t"))),
    ("section chapter style", true, |s| {
        Docx::new().add_section(Section::new().page_num_type(PageNumType::new().chap_style(s)).add_paragraph(p("t")))
    }),
    ("table cell inner bookmark", true, |s| {
        Docx::new().add_table(cell(
            TableCell::new().add_paragraph(Paragraph::new().add_bookmark_start(1, s).add_bookmark_end(1)),
        ))
    }),
    ("header style", true, |s| Docx::new().header(Header::new().add_paragraph(p("t").style(s))).add_paragraph(p("t"))),
    ("footer insertion author", true, |s| {
        Docx::new()
            .footer(Footer::new().add_paragraph(Paragraph::new().add_insert(Insert::new(r("t")).author(s))))
            .add_paragraph(p("t"))
    }),
];

const MARK: &str = "qzq";

fn sym(k: usize) -> String {
    match k {
        0 => sx::ascii(1),
        1 => format!("{}{}", ident(1), sx::ascii(1)),
        2 => format!("&{};", ident(2)),
        3 => format!("{}x", sx::ascii(1)),
        4 => sx::text(1, 4),
        5 => sx::ascii(2),
        _ => format!("\"{}=\"{}", ident(1), sx::ascii(1)),
    }
}

#[no_mangle]
pub extern "C-unwind" fn h_c02_strings() {
    let n = sx::choice(SITES.len());
    let (name, _, f) = SITES[n];
    let s = sym(sx::choice(if sx::deep() { 7 } else { 5 }));
    let json;
    let want = if name == "web extension property value" {
        // these are JSON strings
        json = s.replace('\\', "\\\\").replace('"', "\\\"");
        json.as_bytes()
    } else {
        s.as_bytes()
    };
    let (a, b) = (pack(f(MARK)), pack(f(&s)));
    let Some(a) = trees(&a, name) else { return };
    let Some(b) = trees(&b, name) else { return };
    same_package(&a, &b, MARK.as_bytes(), want, name);
    sx::reach("end");
}

/// where the marker occurs
fn places(t: &[(String, El)]) -> String {
    fn has(v: &[u8]) -> bool {
        v.windows(MARK.len()).any(|w| w == MARK.as_bytes())
    }
    fn walk(e: &El, o: &mut Vec<String>) {
        for (n, v) in &e.attrs {
            if has(v) {
                o.push(format!("{}@{}", e.name, n));
            }
        }
        if has(&e.text()) {
            o.push(e.name.clone());
        }
        for c in e.els() {
            walk(c, o);
        }
    }
    let mut o = vec![];
    for (n, e) in t {
        let k = o.len();
        walk(e, &mut o);
        for x in &mut o[k..] {
            *x = format!("{} {}", n, x);
        }
    }
    o.join(", ")
}

#[no_mangle]
pub extern "C-unwind" fn h_c03_strings() {
    let n = sx::choice(SITES.len());
    let (name, back, f) = SITES[n];
    if !back {
        return;
    }
    let s = sym(sx::choice(if sx::deep() { 6 } else { 4 }));
    if name == "document id" {
        // braces are part of the format of this id
        sx::assume(!s.bytes().any(|c| c == b'{' || c == b'}'));
    }
    let a0 = pack(f(MARK));
    let Some(d) = read_ok(&a0, name) else { return };
    let a1 = pack(d);
    let Some(d) = read_ok(&pack(f(&s)), name) else { return };
    let b1 = pack(d);
    let Some(a0) = trees(&a0, name) else { return };
    let Some(a1) = trees(&a1, name) else { return };
    let Some(b1) = trees(&b1, name) else { return };
    sx::check_eq(places(&a1).as_bytes(), places(&a0).as_bytes(), name);
    same_package(&a1, &b1, MARK.as_bytes(), s.as_bytes(), name);
    sx::reach("end");
}
