//! C08: styles and document defaults
use super::paragraph::{self, two};
use super::run::{self, BORDER};
use super::table;
use super::util::*;
use crate::sx;
use docx_rs::*;

pub const STYLEREL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles";
const TYPES: [(StyleType, &str); 4] = [
    (StyleType::Paragraph, "paragraph"),
    (StyleType::Character, "character"),
    (StyleType::Numbering, "numbering"),
    (StyleType::Table, "table"),
];

fn sbase(table: bool) -> Exp {
    let mut e = Exp::default();
    e.val("w:name", st(""));
    e.val("w:qFormat", Val::On);
    *e.el("w:pPr", vec![]) = paragraph::base();
    e.el("w:rPr", vec![]);
    if table {
        e.el("w:tcPr", vec![]);
        *e.el("w:tblPr", vec![]) = table::tbase(true);
    }
    e
}
/// the fields which reading does not restore
fn unread(mut s: Style) -> Style {
    s.next = None;
    s.q_format = true;
    s.ui_priority = None;
    s.semi_hidden = false;
    s.unhide_when_used = false;
    s
}
const SSET: usize = 12;
fn sset(k: usize, mut s: Style, e: &mut Exp, wide: bool) -> Style {
    let word = |n| if wide { sx::ascii(n) } else { ident(1) };
    match k {
        0 => {
            let v = word(3);
            e.val("w:name", st(&v));
            s.name(v)
        }
        1 => {
            let v = word(3);
            e.val("w:basedOn", st(&v));
            s.based_on(v)
        }
        2 => {
            let v = word(3);
            e.val("w:next", st(&v));
            s.next(v)
        }
        3 => {
            let v = word(3);
            e.val("w:link", st(&v));
            s.link(v)
        }
        4 => {
            e.drop("w:qFormat");
            s.q_format(false)
        }
        5 => {
            let n = if wide { usizew() } else { two() as usize };
            e.val("w:uiPriority", dec(n));
            s.ui_priority(n)
        }
        6 => {
            e.val("w:semiHidden", Val::On);
            s.semi_hidden()
        }
        7 => {
            e.val("w:unhideWhenUsed", Val::On);
            s.unhide_when_used()
        }
        8 => {
            let w = &mut e.get("w:rPr").unwrap().kids;
            s.run_property = run::set(if wide { sx::choice(run::SETTERS) } else { 1 }, s.run_property, w, false);
            s
        }
        9 => {
            let w = &mut e.get("w:pPr").unwrap().kids;
            s.paragraph_property =
                paragraph::set(if wide { sx::choice(paragraph::SETTERS - 1) } else { 2 }, s.paragraph_property, w, false);
            s
        }
        10 => {
            let t = Table::new(vec![]);
            let mut other = table::tbase(true);
            let t = table::tset(if wide { sx::choice(table::TSET) } else { 3 }, t, &mut other, false);
            if let Some(w) = e.get("w:tblPr") {
                w.kids = other;
            }
            s.table_property(t.property)
        }
        _ => {
            let mut other = Exp::default();
            let c = table::cset(if wide { sx::choice(table::CSET) } else { 2 }, TableCell::new(), &mut other, false);
            if let Some(w) = e.get("w:tcPr") {
                w.kids = other;
            }
            s.table_cell_property(c.property)
        }
    }
}
/// `want`: the expected style definitions in order: id, type, children
fn check_styles(styles: Styles, want: Vec<(String, &'static str, Exp)>) {
    let d = Docx::new().styles(styles.clone());
    let x = d.clone().build();
    let Some(t) = part(&x.styles, "wf") else { return };
    let mut k = 0;
    let mut normal = 0;
    for s in t.els().filter(|e| e.name == "w:style") {
        let id = s.attr("w:styleId").unwrap_or(b"");
        if id == b"Normal" {
            normal += 1;
            if !(k < want.len() && want[k].0 == "Normal") {
                continue;
            }
        }
        if k == want.len() {
            sx::check_eq(id, b"(no style)", "written");
            continue;
        }
        let (i, ty, e) = &want[k];
        sx::check_eq(id, i.as_bytes(), "identifier");
        sx::check_eq(s.attr("w:type").unwrap_or(b""), ty.as_bytes(), "type");
        e.verify(Some(s), "written");
        k += 1;
    }
    sx::check(k == want.len(), "all written");
    sx::check(normal == 1, "one default style");
    let b = mini_with(&doc_around(b"<w:p/>"), STYLEREL, "styles.xml", &x.styles);
    let Some(r) = read_ok(&b, "readable") else { return };
    let want: Vec<Style> = styles
        .styles
        .iter()
        .map(|s| {
            let mut s = unread(s.clone());
            if s.style_type != StyleType::Table {
                // not part of the definition of other styles
                s.table_property = TableProperty::new();
                s.table_cell_property = TableCellProperty::new();
            }
            s
        })
        .collect();
    let mut k = 0;
    for s in &r.styles.styles {
        if s.style_id == "Normal" && !(k < want.len() && want[k].style_id == "Normal") {
            continue;
        }
        if k < want.len() {
            sx::check(*s == want[k], "read back");
        }
        k += 1;
    }
    sx::check(k == want.len(), "all read back");
    sx::check(r.styles.doc_defaults == styles.doc_defaults, "defaults read back");
    sx::reach("end");
}
fn docstyles() -> Styles {
    Docx::new().styles
}
#[no_mangle]
pub extern "C-unwind" fn h_c08_single() {
    let k = sx::choice(SSET + 1);
    let (ty, tn) = if k == 0 || k >= 8 { pick(&TYPES) } else { TYPES[0] };
    let mut e = sbase(tn == "table");
    let id = if k == SSET { sx::ascii(2) } else { ident(2) };
    let s = if k == SSET { Style::new(&id, ty) } else { sset(k, Style::new(&id, ty), &mut e, true) };
    check_styles(docstyles().add_style(s), vec![(id, tn, e)]);
}
#[no_mangle]
pub extern "C-unwind" fn h_c08_combined() {
    let (ty, tn) = pick(&[TYPES[0], TYPES[3]]);
    let mut e = sbase(tn == "table");
    let mut s = Style::new("a", ty);
    if sx::choice(2) == 0 {
        let (i, j) = (sx::choice(SSET), sx::choice(SSET));
        sx::assume(i < j);
        s = sset(i, s, &mut e, false);
        s = sset(j, s, &mut e, false);
    } else {
        let out = sx::choice(SSET + 1);
        for k in 0..SSET {
            if k != out {
                s = sset(k, s, &mut e, false);
            }
        }
    }
    check_styles(docstyles().add_style(s), vec![("a".into(), tn, e)]);
}
/// up to three styles, in order; one of them may replace the default style
#[no_mangle]
pub extern "C-unwind" fn h_c08_several() {
    let n = sx::choice(4);
    let normal = sx::choice(4);
    let mut all = docstyles();
    let mut want = vec![];
    for k in 0..n {
        let id = if k == normal { "Normal".to_string() } else { ident(2) };
        let (ty, tn) = if k == 0 { pick(&TYPES) } else { TYPES[0] };
        let mut e = sbase(tn == "table");
        let s = sset(k % 3, Style::new(&id, ty), &mut e, false);
        all = if k == 1 { Docx::new().styles(all).add_style(s).styles } else { all.add_style(s) };
        want.push((id, tn, e));
    }
    check_styles(all, want);
}
/// the defaults, set on the document or on its styles
#[no_mangle]
pub extern "C-unwind" fn h_c08_defaults() {
    let mut r = Exp::default();
    let mut p = paragraph::base();
    let direct = sx::choice(2) == 0;
    let which = sx::choice(16);
    let wide = which.count_ones() == 1;
    let mut d = Docx::new();
    let mut s = Styles::new();
    if which & 1 != 0 {
        let n = if wide { usizew() } else { two() as usize };
        r.val("w:sz", dec(n));
        r.val("w:szCs", dec(n));
        (d, s) = (d.default_size(n), s.default_size(n));
    }
    if which & 2 != 0 {
        let n = if wide { i32w() } else { two() as i32 };
        r.val("w:spacing", dec(n));
        (d, s) = (d.default_spacing(n), s.default_spacing(n));
    }
    if which & 4 != 0 {
        let f = ident(3);
        r.el("w:rFonts", vec![("w:ascii", st(&f)), ("w:cs", st("c"))]);
        let f = RunFonts::new().ascii(f).cs("c");
        (d, s) = (d.default_fonts(f.clone()), s.default_fonts(f));
    }
    if which & 8 != 0 {
        let n = if wide { u32w() } else { two() };
        let l = LineSpacing::new().before(7).after(n).line(11).line_rule(LineSpacingType::AtLeast);
        p.el("w:spacing", vec![("w:before", st("7")), ("w:after", dec(n)), ("w:line", st("11")), ("w:lineRule", st("atLeast"))]);
        (d, s) = (d.default_line_spacing(l.clone()), s.default_line_spacing(l));
    }
    if !direct {
        d = Docx::new().styles(s);
    }
    let want = d.styles.doc_defaults.clone();
    let x = d.build();
    let Some(t) = part(&x.styles, "wf") else { return };
    sx::check(t.count("w:docDefaults") == 1, "defaults once");
    r.verify(t.at("w:docDefaults/w:rPrDefault/w:rPr"), "run defaults");
    p.verify(t.at("w:docDefaults/w:pPrDefault/w:pPr"), "paragraph defaults");
    let b = mini_with(&doc_around(b"<w:p/>"), STYLEREL, "styles.xml", &x.styles);
    let Some(r) = read_ok(&b, "readable") else { return };
    sx::check(r.styles.doc_defaults == want, "read back");
    sx::reach("end");
}
/// the style's own formatting methods
#[no_mangle]
pub extern "C-unwind" fn h_c08_methods() {
    let (ty, tn) = TYPES[3];
    let mut e = sbase(true);
    let s = Style::new("a", ty);
    let n = sx::i32v(10, 9999);
    let w = ident(2);
    fn kids<'a>(e: &'a mut Exp, n: &'static str) -> &'a mut Exp {
        &mut e.get(n).unwrap().kids
    }
    let k = sx::choice(24);
    let s = if sx::choice(2) == 1 {
        // over other settings
        sx::assume(!matches!(k, 3 | 9 | 15));
        kids(&mut e, "w:rPr").val("w:b", Val::On);
        kids(&mut e, "w:rPr").val("w:bCs", Val::On);
        kids(&mut e, "w:pPr").val("w:jc", st("center"));
        kids(&mut e, "w:tblPr").el("w:tblInd", vec![("w:w", st("33")), ("w:type", st("dxa"))]);
        s.bold().align(AlignmentType::Center).table_indent(33)
    } else {
        s
    };
    let s = match k {
        0 => {
            kids(&mut e, "w:rPr").val("w:sz", dec(n));
            kids(&mut e, "w:rPr").val("w:szCs", dec(n));
            s.size(n as usize)
        }
        1 => {
            let r = kids(&mut e, "w:rPr");
            let attrs = vec![
                ("w:val", st(&w)),
                ("w:themeColor", st("accent5")),
                ("w:themeShade", st("AB")),
                ("w:themeTint", st("CD")),
            ];
            r.el("w:color", attrs);
            s.color(&w).theme_color(ThemeColor::Accent5).theme_shade("AB").theme_tint("CD")
        }
        2 => {
            kids(&mut e, "w:rPr").val("w:highlight", st(&w));
            s.highlight(w)
        }
        3 => {
            kids(&mut e, "w:rPr").val("w:b", Val::On);
            kids(&mut e, "w:rPr").val("w:bCs", Val::On);
            s.bold()
        }
        4 => {
            kids(&mut e, "w:rPr").val("w:i", Val::On);
            kids(&mut e, "w:rPr").val("w:iCs", Val::On);
            s.italic()
        }
        5 => {
            kids(&mut e, "w:rPr").val("w:u", st(&w));
            s.underline(w)
        }
        6 => {
            kids(&mut e, "w:rPr").val("w:vanish", Val::On);
            s.vanish()
        }
        7 => {
            let (b, bn) = pick(&BORDER);
            kids(&mut e, "w:rPr")
                .el("w:bdr", vec![("w:val", st(bn)), ("w:sz", dec(n)), ("w:space", st("0")), ("w:color", st("AA"))]);
            s.text_border(TextBorder::new().border_type(b).size(n as usize).color("AA"))
        }
        8 => {
            kids(&mut e, "w:rPr").el("w:rFonts", vec![("w:ascii", st(&w))]);
            s.fonts(RunFonts::new().ascii(w))
        }
        9 => {
            kids(&mut e, "w:pPr").val("w:jc", st("right"));
            s.align(AlignmentType::Right)
        }
        10 => {
            kids(&mut e, "w:pPr").val("w:textAlignment", st("top"));
            s.text_alignment(TextAlignmentType::Top)
        }
        11 => {
            kids(&mut e, "w:pPr").val("w:snapToGrid", Val::Off);
            s.snap_to_grid(false)
        }
        12 => {
            kids(&mut e, "w:pPr").el("w:spacing", vec![("w:before", dec(n))]);
            s.line_spacing(LineSpacing::new().before(n as u32))
        }
        13 => {
            kids(&mut e, "w:pPr").el("w:ind", vec![("w:left", dec(n)), ("w:right", st("9")), ("w:hanging", st("7"))]);
            s.indent(Some(n), Some(SpecialIndentType::Hanging(7)), Some(9), None)
        }
        14 => {
            kids(&mut e, "w:pPr").val("w:outlineLvl", st("5"));
            s.outline_lvl(5)
        }
        15 => {
            kids(&mut e, "w:tblPr").el("w:tblInd", vec![("w:w", dec(n)), ("w:type", st("dxa"))]);
            s.table_indent(n)
        }
        16 => {
            kids(&mut e, "w:tblPr").val("w:jc", st("center"));
            s.table_align(TableAlignmentType::Center)
        }
        17 => {
            kids(&mut e, "w:tblPr").val("w:tblStyle", st(&w));
            s.style(w)
        }
        18 => {
            kids(&mut e, "w:tblPr").el("w:tblW", vec![("w:w", dec(n)), ("w:type", st("pct"))]);
            s.width(n as usize, WidthType::Pct)
        }
        19 => {
            let k = kids(&mut e, "w:tblPr").el("w:tblCellMar", vec![]);
            for (i, v) in [("w:top", dec(n)), ("w:left", st("3")), ("w:bottom", st("2")), ("w:right", st("1"))] {
                k.el(i, vec![("w:w", v), ("w:type", st("dxa"))]);
            }
            s.margins(TableCellMargins::new().margin(n as usize, 1, 2, 3))
        }
        20 => {
            let b = &mut kids(&mut e, "w:tblPr").get("w:tblBorders").unwrap().kids;
            let attrs = |t: &str, n: Val, c: &str| vec![("w:val", st(t)), ("w:sz", n), ("w:space", st("0")), ("w:color", st(c))];
            b.el("w:top", attrs("double", dec(n), "BB"));
            b.el("w:left", attrs("nil", st("2"), "000000"));
            let t = TableBorder::new(TableBorderPosition::Top).border_type(BorderType::Double).size(n as usize).color("BB");
            s.set_border(t).clear_border(TableBorderPosition::Left)
        }
        21 => {
            let b = &mut kids(&mut e, "w:tblPr").get("w:tblBorders").unwrap().kids;
            for w in &mut b.els {
                w.attrs[0].1 = st("nil");
            }
            s.clear_all_border()
        }
        22 => {
            let b = &mut kids(&mut e, "w:tblPr").get("w:tblBorders").unwrap().kids;
            b.els.clear();
            b.el("w:bottom", vec![("w:val", st("double")), ("w:sz", dec(n)), ("w:space", st("0")), ("w:color", st("CC"))]);
            let t = TableBorder::new(TableBorderPosition::Bottom).border_type(BorderType::Double).size(n as usize).color("CC");
            s.set_borders(TableBorders::with_empty().set(t))
        }
        _ => {
            kids(&mut e, "w:pPr").el(
                "w:framePr",
                vec![
                    ("w:h", dec(n)),
                    ("w:w", st("2")),
                    ("w:hSpace", st("3")),
                    ("w:vSpace", st("4")),
                    ("w:x", st("5")),
                    ("w:y", st("6")),
                    ("w:wrap", st(&w)),
                    ("w:hRule", st("a")),
                    ("w:hAnchor", st("b")),
                    ("w:vAnchor", st("c")),
                    ("w:xAlign", st("d")),
                    ("w:yAlign", st("e")),
                ],
            );
            let q = s.frame_height(n as u32).frame_width(2).h_space(3).v_space(4).frame_x(5).frame_y(6);
            q.wrap(&w).h_rule("a").h_anchor("b").v_anchor("c").x_align("d").y_align("e")
        }
    };
    check_styles(docstyles().add_style(s), vec![("a".into(), tn, e)]);
}
