//! C05: paragraph formatting
use super::run::{BORDER, SHD};
use super::util::*;
use crate::sx;
use docx_rs::*;

const ALIGN: [(AlignmentType, &str); 8] = [
    (AlignmentType::Both, "both"),
    (AlignmentType::Center, "center"),
    (AlignmentType::Distribute, "distribute"),
    (AlignmentType::Start, "start"),
    (AlignmentType::End, "end"),
    (AlignmentType::Left, "left"),
    (AlignmentType::Right, "right"),
    (AlignmentType::Justified, "justified"),
];
const TEXT_ALIGN: [(TextAlignmentType, &str); 5] = [
    (TextAlignmentType::Auto, "auto"),
    (TextAlignmentType::Baseline, "baseline"),
    (TextAlignmentType::Bottom, "bottom"),
    (TextAlignmentType::Center, "center"),
    (TextAlignmentType::Top, "top"),
];
const TABV: [(TabValueType, &str); 9] = [
    (TabValueType::Bar, "bar"),
    (TabValueType::Center, "center"),
    (TabValueType::Clear, "clear"),
    (TabValueType::Decimal, "decimal"),
    (TabValueType::End, "end"),
    (TabValueType::Right, "right"),
    (TabValueType::Num, "num"),
    (TabValueType::Start, "start"),
    (TabValueType::Left, "left"),
];
const TABL: [(TabLeaderType, &str); 6] = [
    (TabLeaderType::Dot, "dot"),
    (TabLeaderType::Heavy, "heavy"),
    (TabLeaderType::Hyphen, "hyphen"),
    (TabLeaderType::MiddleDot, "middleDot"),
    (TabLeaderType::None, "none"),
    (TabLeaderType::Underscore, "underscore"),
];
const RULE: [(LineSpacingType, &str); 3] =
    [(LineSpacingType::Auto, "auto"), (LineSpacingType::AtLeast, "atLeast"), (LineSpacingType::Exact, "exact")];
fn pos(k: usize) -> (ParagraphBorderPosition, &'static str) {
    match k {
        0 => (ParagraphBorderPosition::Top, "w:top"),
        1 => (ParagraphBorderPosition::Left, "w:left"),
        2 => (ParagraphBorderPosition::Bottom, "w:bottom"),
        3 => (ParagraphBorderPosition::Right, "w:right"),
        4 => (ParagraphBorderPosition::Between, "w:between"),
        _ => (ParagraphBorderPosition::Bar, "w:bar"),
    }
}

/// two-digit number: no case split over the length of its notation
pub fn two() -> u32 {
    sx::u32v(10, 99)
}

pub const SETTERS: usize = 20;

pub fn set(k: usize, p: ParagraphProperty, e: &mut Exp, wide: bool) -> ParagraphProperty {
    match k {
        0 => {
            let (t, n) = if wide { pick(&ALIGN) } else { ALIGN[1] };
            e.val("w:jc", st(n));
            p.align(t)
        }
        1 => {
            let s = ident(if wide { 4 } else { 1 });
            e.val("w:pStyle", st(&s));
            p.style(&s)
        }
        2 => {
            // indent: left, right, first line or hanging, start in characters
            let which = if wide { sx::choice(4) } else { 4 };
            let n = |k| if which == k { i32w() } else { two() as i32 };
            let (l, r, s, c) = (n(0), n(1), n(2), n(3));
            let hang = wide && sx::choice(2) == 1;
            let chars = wide && sx::choice(2) == 1;
            let mut a = vec![("w:left", dec(l)), ("w:right", dec(r))];
            a.push((if hang { "w:hanging" } else { "w:firstLine" }, dec(s)));
            if chars {
                a.push(("w:leftChars", dec(c)));
            }
            e.el("w:ind", a);
            let sp = if hang { SpecialIndentType::Hanging(s) } else { SpecialIndentType::FirstLine(s) };
            p.indent(Some(l), Some(sp), Some(r), if chars { Some(c) } else { None })
        }
        3 => {
            let (id, lv) = if wide { (usizew(), sx::usizev(0, 8)) } else { (two() as usize, sx::usizev(0, 8)) };
            let k = e.el("w:numPr", vec![]);
            k.val("w:numId", dec(id));
            k.val("w:ilvl", dec(lv));
            p.numbering(NumberingId::new(id), IndentLevel::new(lv))
        }
        4 => {
            let which = if wide { sx::choice(6) } else { 5 };
            let mut s = LineSpacing::new();
            let mut a = vec![];
            let all = which == 5;
            let n = || if wide && !all { u32w() } else { two() };
            if all || which == 0 {
                let v = n();
                a.push(("w:before", dec(v)));
                s = s.before(v);
            }
            if all || which == 1 {
                let v = n();
                a.push(("w:after", dec(v)));
                s = s.after(v);
            }
            if all || which == 2 {
                let v = n();
                a.push(("w:beforeLines", dec(v)));
                s = s.before_lines(v);
            }
            if all || which == 3 {
                let v = n();
                a.push(("w:afterLines", dec(v)));
                s = s.after_lines(v);
            }
            if all || which == 4 {
                let v = if wide && !all { i32w() } else { two() as i32 };
                let (t, m) = if wide { pick(&RULE) } else { RULE[1] };
                a.push(("w:line", dec(v)));
                a.push(("w:lineRule", st(m)));
                s = s.line(v).line_rule(t);
            }
            e.el("w:spacing", a);
            p.line_spacing(s)
        }
        5 => {
            let b = !wide || sx::choice(2) == 1;
            e.val("w:snapToGrid", if b { Val::On } else { Val::Off });
            p.snap_to_grid(b)
        }
        6 => {
            let (t, n) = if wide { pick(&SHD) } else { SHD[20] };
            let (c, f) = (hex(6), hex(6));
            e.el("w:shd", vec![("w:val", st(n)), ("w:color", st(&c)), ("w:fill", st(&f))]);
            p.shading(Shading::new().shd_type(t).color(c).fill(f))
        }
        7 => {
            e.val("w:keepNext", Val::On);
            p.keep_next(true)
        }
        8 => {
            e.val("w:keepLines", Val::On);
            p.keep_lines(true)
        }
        9 => {
            let v = sx::usizev(0, 9);
            e.val("w:outlineLvl", dec(v));
            p.outline_lvl(v)
        }
        10 => {
            e.val("w:pageBreakBefore", Val::On);
            p.page_break_before(true)
        }
        11 => {
            let b = !wide || sx::choice(2) == 1;
            e.val("w:widowControl", if b { Val::On } else { Val::Off });
            p.widow_control(b)
        }
        12 => {
            // up to three tab stops
            let k = if wide { 1 + sx::choice(3) } else { 2 };
            let mut p = p;
            let t = e.el("w:tabs", vec![]);
            for i in 0..k {
                let wide = wide && i + 1 == k;
                let (v, vn) = if wide && k == 1 { pick(&TABV) } else { TABV[i] };
                let (l, ln) = if wide && k == 2 { pick(&TABL) } else { TABL[i] };
                let n = if wide && k == 3 { sx::usizev(0, 9_999_999) } else { two() as usize };
                t.push("w:tab", vec![("w:val", st(vn)), ("w:leader", st(ln)), ("w:pos", dec(n))]);
                p = p.add_tab(Tab::new().val(v).leader(l).pos(n));
            }
            p
        }
        13 => {
            let which = if wide { sx::choice(6) } else { 6 };
            let u = |k| if which == k { u32w() } else { two() };
            let n = |k| if which == k { i32w() } else { two() as i32 };
            let (h, w, hs, vs, x, y) = (u(0), u(1), n(2), n(3), n(4), n(5));
            let s: Vec<String> = (0..6).map(|_| ident(3)).collect();
            e.el(
                "w:framePr",
                vec![
                    ("w:h", dec(h)),
                    ("w:w", dec(w)),
                    ("w:hSpace", dec(hs)),
                    ("w:vSpace", dec(vs)),
                    ("w:x", dec(x)),
                    ("w:y", dec(y)),
                    ("w:wrap", st(&s[0])),
                    ("w:hRule", st(&s[1])),
                    ("w:hAnchor", st(&s[2])),
                    ("w:vAnchor", st(&s[3])),
                    ("w:xAlign", st(&s[4])),
                    ("w:yAlign", st(&s[5])),
                ],
            );
            let f = FrameProperty::new().height(h).width(w).h_space(hs).v_space(vs).x(x).y(y);
            let f = f.wrap(&s[0]).h_rule(&s[1]).h_anchor(&s[2]).v_anchor(&s[3]).x_align(&s[4]).y_align(&s[5]);
            p.frame_property(f)
        }
        14 => {
            let (t, n) = if wide { pick(&TEXT_ALIGN) } else { TEXT_ALIGN[3] };
            e.val("w:textAlignment", st(n));
            p.text_alignment(t)
        }
        15 => {
            let v = if wide { i32w() as isize } else { two() as isize };
            e.val("w:adjustRightInd", dec(v));
            p.adjust_right_ind(v)
        }
        16 => {
            // borders: from the default set, one replaced
            let (q, n) = if wide { pos(sx::choice(6)) } else { pos(2) };
            let which = if wide { sx::choice(3) } else { 3 };
            let (t, tn) = if which == 0 { pick(&BORDER) } else { BORDER[5] };
            let sz = if which == 1 { usizew() } else { two() as usize };
            let sp = if which == 2 { usizew() } else { two() as usize };
            let c = hex(6);
            let b = e.el("w:pBdr", vec![]);
            for d in ["w:top", "w:left", "w:bottom", "w:right"] {
                b.el(d, vec![("w:val", st("single")), ("w:space", st("0")), ("w:sz", st("2")), ("w:color", st("auto"))]);
            }
            b.el(n, vec![("w:val", st(tn)), ("w:space", dec(sp)), ("w:sz", dec(sz)), ("w:color", st(&c))]);
            p.set_border(ParagraphBorder::new(q).val(t).size(sz).space(sp).color(c))
        }
        17 => {
            // the run property of the paragraph mark
            let mut k = Exp::default();
            let r = super::run::set(if wide { sx::choice(super::run::SETTERS) } else { 1 }, RunProperty::new(), &mut k, false);
            e.el("w:rPr", vec![]);
            e.get("w:rPr").unwrap().kids = k;
            p.run_property(r)
        }
        18 if wide => {
            // cleared border / all cleared
            let b = e.el("w:pBdr", vec![]);
            let nil = |b: &mut Exp, n| {
                b.el(n, vec![("w:val", st("nil")), ("w:space", st("0")), ("w:sz", st("2")), ("w:color", st("auto"))]);
            };
            if sx::choice(2) == 0 {
                for k in 0..6 {
                    nil(b, pos(k).1);
                }
                p.clear_all_borders()
            } else {
                let (q, n) = pos(sx::choice(6));
                nil(b, n);
                p.set_borders(ParagraphBorders::with_empty()).clear_border(q)
            }
        }
        19 if wide => {
            // settings switched off leave no trace that means on
            p.keep_next(false).keep_lines(false).page_break_before(false)
        }
        20 if wide => {
            e.val("w:bidi", Val::On);
            p.bidi(true)
        }
        _ => p,
    }
}

pub fn base() -> Exp {
    let mut e = Exp::default();
    e.el("w:rPr", vec![]);
    e
}

fn check_par(p: ParagraphProperty, e: &Exp, back: &str) {
    let mut par = Paragraph::new().add_run(Run::new().add_text("a"));
    par.has_numbering = p.numbering_property.is_some();
    par.property = p;
    let d = Docx::new().add_paragraph(par);
    let x = d.clone().build();
    sx::obs(&x.document);
    let Some(t) = part(&x.document, "wf") else { return };
    e.verify(t.at("w:body/w:p/w:pPr"), "written");
    if !back.is_empty() {
        let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
        sx::check(r.document.children == d.document.children, back);
    }
    sx::reach("end");
}

#[no_mangle]
pub extern "C-unwind" fn h_c05_single() {
    let mut e = base();
    let k = sx::choice(SETTERS + 1);
    let p = set(k, ParagraphProperty::new(), &mut e, true);
    let id = match k {
        11 if p.widow_control == Some(false) => "read back (widow control off)",
        20 => "read back (bidi)",
        19 => "",
        _ => "read back",
    };
    check_par(p, &e, id);
}

#[no_mangle]
pub extern "C-unwind" fn h_c05_pair() {
    let mut e = base();
    let i = sx::choice(SETTERS - 2);
    let j = sx::choice(SETTERS - 2);
    sx::assume(i < j);
    let p = set(i, ParagraphProperty::new(), &mut e, false);
    let p = set(j, p, &mut e, false);
    check_par(p, &e, "read back");
}

#[no_mangle]
pub extern "C-unwind" fn h_c05_all() {
    let out = sx::choice(SETTERS);
    let mut e = base();
    let mut p = ParagraphProperty::new();
    for k in 0..SETTERS {
        if k != out {
            p = set(k, p, &mut e, false);
        }
    }
    check_par(p, &e, "read back");
}

/// setters offered by the paragraph itself
#[no_mangle]
pub extern "C-unwind" fn h_c05_paragraph_api() {
    let mut e = base();
    let q = Paragraph::new().add_run(Run::new().add_text("a"));
    let n = sx::i32v(0, 9999);
    let s = ident(3);
    let p = match sx::choice(17) {
        15 => {
            e.el("w:ind", vec![("w:left", st("5")), ("w:right", st("9")), ("w:hanging", st("7")), ("w:hangingChars", dec(n))]);
            q.indent(Some(5), Some(SpecialIndentType::Hanging(7)), Some(9), None).hanging_chars(n)
        }
        16 => {
            let c = ("w:firstLineChars", dec(n));
            e.el("w:ind", vec![("w:left", st("5")), ("w:right", st("9")), ("w:firstLine", st("7")), ("w:leftChars", st("6")), c]);
            q.indent(Some(5), Some(SpecialIndentType::FirstLine(7)), Some(9), Some(6)).first_line_chars(n)
        }
        0 => {
            e.val("w:jc", st("right"));
            q.align(AlignmentType::Right)
        }
        1 => {
            e.val("w:pStyle", st(&s));
            q.style(&s)
        }
        2 => {
            e.el("w:ind", vec![("w:left", dec(n)), ("w:right", st("9")), ("w:hanging", st("7"))]);
            q.indent(Some(n), Some(SpecialIndentType::Hanging(7)), Some(9), None)
        }
        3 => {
            let k = e.el("w:numPr", vec![]);
            k.val("w:numId", dec(n));
            k.val("w:ilvl", st("3"));
            q.numbering(NumberingId::new(n as usize), IndentLevel::new(3))
        }
        4 => {
            e.val("w:keepNext", Val::On);
            q.keep_next(true)
        }
        5 => {
            e.val("w:keepLines", Val::On);
            q.keep_lines(true)
        }
        6 => {
            e.val("w:pageBreakBefore", Val::On);
            q.page_break_before(true)
        }
        7 => {
            e.val("w:widowControl", Val::On);
            q.widow_control(true)
        }
        8 => {
            e.val("w:outlineLvl", st("5"));
            q.outline_lvl(5)
        }
        9 => {
            e.el("w:spacing", vec![("w:before", dec(n))]);
            q.line_spacing(LineSpacing::new().before(n as u32))
        }
        10 => {
            e.el("w:rPr", vec![]).val("w:spacing", dec(n));
            q.character_spacing(n)
        }
        11 => {
            e.el("w:tabs", vec![]).push("w:tab", vec![("w:val", st("right")), ("w:leader", st("dot")), ("w:pos", dec(n))]);
            q.add_tab(Tab::new().val(TabValueType::Right).leader(TabLeaderType::Dot).pos(n as usize))
        }
        12 => {
            e.el(
                "w:framePr",
                vec![
                    ("w:h", dec(n)),
                    ("w:w", st("2")),
                    ("w:hSpace", st("3")),
                    ("w:vSpace", st("4")),
                    ("w:x", st("5")),
                    ("w:y", st("6")),
                    ("w:wrap", st(&s)),
                    ("w:hRule", st("a")),
                    ("w:hAnchor", st("b")),
                    ("w:vAnchor", st("c")),
                    ("w:xAlign", st("d")),
                    ("w:yAlign", st("e")),
                ],
            );
            let q = q.frame_height(n as u32).frame_width(2).h_space(3).v_space(4).frame_x(5).frame_y(6);
            q.wrap(&s).h_rule("a").h_anchor("b").v_anchor("c").x_align("d").y_align("e")
        }
        13 => {
            let r = e.el("w:rPr", vec![]);
            r.val("w:color", st("AB"));
            r.val("w:b", Val::On);
            r.val("w:bCs", Val::On);
            r.el("w:rFonts", vec![("w:ascii", st(&s))]);
            q.color("AB").bold().fonts(RunFonts::new().ascii(s))
        }
        _ => {
            let r = e.el("w:rPr", vec![]);
            r.val("w:sz", dec(n));
            r.val("w:szCs", dec(n));
            r.val("w:i", Val::On);
            r.val("w:iCs", Val::On);
            q.size(n as usize).italic()
        }
    };
    let d = Docx::new().add_paragraph(p);
    let x = d.clone().build();
    let Some(t) = part(&x.document, "wf") else { return };
    e.verify(t.at("w:body/w:p/w:pPr"), "written");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::check(r.document.children == d.document.children, "read back");
    sx::reach("end");
}
