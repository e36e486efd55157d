//! C04: run formatting
use super::util::*;
use crate::sx;
use docx_rs::*;

pub const SHD: [(ShdType, &str); 38] = [
    (ShdType::Nil, "nil"),
    (ShdType::Clear, "clear"),
    (ShdType::Solid, "solid"),
    (ShdType::HorzStripe, "horzStripe"),
    (ShdType::VertStripe, "vertStripe"),
    (ShdType::ReverseDiagStripe, "reverseDiagStripe"),
    (ShdType::DiagStripe, "diagStripe"),
    (ShdType::HorzCross, "horzCross"),
    (ShdType::DiagCross, "diagCross"),
    (ShdType::ThinHorzStripe, "thinHorzStripe"),
    (ShdType::ThinVertStripe, "thinVertStripe"),
    (ShdType::ThinReverseDiagStripe, "thinReverseDiagStripe"),
    (ShdType::ThinDiagStripe, "thinDiagStripe"),
    (ShdType::ThinHorzCross, "thinHorzCross"),
    (ShdType::ThinDiagCross, "thinDiagCross"),
    (ShdType::Pct5, "pct5"),
    (ShdType::Pct10, "pct10"),
    (ShdType::Pct12, "pct12"),
    (ShdType::Pct15, "pct15"),
    (ShdType::Pct20, "pct20"),
    (ShdType::Pct25, "pct25"),
    (ShdType::Pct30, "pct30"),
    (ShdType::Pct35, "pct35"),
    (ShdType::Pct37, "pct37"),
    (ShdType::Pct40, "pct40"),
    (ShdType::Pct45, "pct45"),
    (ShdType::Pct50, "pct50"),
    (ShdType::Pct55, "pct55"),
    (ShdType::Pct60, "pct60"),
    (ShdType::Pct62, "pct62"),
    (ShdType::Pct65, "pct65"),
    (ShdType::Pct70, "pct70"),
    (ShdType::Pct75, "pct75"),
    (ShdType::Pct80, "pct80"),
    (ShdType::Pct85, "pct85"),
    (ShdType::Pct87, "pct87"),
    (ShdType::Pct90, "pct90"),
    (ShdType::Pct95, "pct95"),
];
pub const BORDER: [(BorderType, &str); 31] = [
    (BorderType::Nil, "nil"),
    (BorderType::None, "none"),
    (BorderType::Single, "single"),
    (BorderType::Thick, "thick"),
    (BorderType::Double, "double"),
    (BorderType::Dotted, "dotted"),
    (BorderType::Dashed, "dashed"),
    (BorderType::DotDash, "dotDash"),
    (BorderType::DotDotDash, "dotDotDash"),
    (BorderType::Triple, "triple"),
    (BorderType::ThinThickSmallGap, "thinThickSmallGap"),
    (BorderType::ThickThinSmallGap, "thickThinSmallGap"),
    (BorderType::ThinThickThinSmallGap, "thinThickThinSmallGap"),
    (BorderType::ThinThickMediumGap, "thinThickMediumGap"),
    (BorderType::ThickThinMediumGap, "thickThinMediumGap"),
    (BorderType::ThinThickThinMediumGap, "thinThickThinMediumGap"),
    (BorderType::ThinThickLargeGap, "thinThickLargeGap"),
    (BorderType::ThickThinLargeGap, "thickThinLargeGap"),
    (BorderType::ThinThickThinLargeGap, "thinThickThinLargeGap"),
    (BorderType::Wave, "wave"),
    (BorderType::DoubleWave, "doubleWave"),
    (BorderType::DashSmallGap, "dashSmallGap"),
    (BorderType::DashDotStroked, "dashDotStroked"),
    (BorderType::ThreeDEmboss, "threeDEmboss"),
    (BorderType::ThreeDEngrave, "threeDEngrave"),
    (BorderType::Outset, "outset"),
    (BorderType::Inset, "inset"),
    (BorderType::Apples, "apples"),
    (BorderType::ArchedScallops, "archedScallops"),
    (BorderType::BabyPacifier, "babyPacifier"),
    (BorderType::BabyRattle, "babyRattle"),
];
const THEME: [(ThemeColor, &str); 17] = [
    (ThemeColor::Dark1, "dark1"),
    (ThemeColor::Light1, "light1"),
    (ThemeColor::Dark2, "dark2"),
    (ThemeColor::Light2, "light2"),
    (ThemeColor::Accent1, "accent1"),
    (ThemeColor::Accent2, "accent2"),
    (ThemeColor::Accent3, "accent3"),
    (ThemeColor::Accent4, "accent4"),
    (ThemeColor::Accent5, "accent5"),
    (ThemeColor::Accent6, "accent6"),
    (ThemeColor::Hyperlink, "hyperlink"),
    (ThemeColor::FollowedHyperlink, "followedHyperlink"),
    (ThemeColor::None, "none"),
    (ThemeColor::Background1, "background1"),
    (ThemeColor::Text1, "text1"),
    (ThemeColor::Background2, "background2"),
    (ThemeColor::Text2, "text2"),
];
const VERT: [(VertAlignType, &str); 3] = [
    (VertAlignType::Baseline, "baseline"),
    (VertAlignType::SuperScript, "superscript"),
    (VertAlignType::SubScript, "subscript"),
];

pub const SETTERS: usize = 25;

/// one setter through the run property API; `wide` explores full value ranges
/// and every enumeration member
pub fn set(k: usize, p: RunProperty, e: &mut Exp, wide: bool) -> RunProperty {
    match k {
        0 => {
            let s = ident(if wide { 4 } else { 1 });
            e.val("w:rStyle", st(&s));
            p.style(&s)
        }
        1 => {
            let n = if wide { u32w() } else { sx::u32v(1000, 9999) } as usize;
            e.val("w:sz", dec(n));
            e.val("w:szCs", dec(n));
            p.size(n)
        }
        2 => {
            let n = if wide { i32w() } else { sx::u32v(10, 99) as i32 };
            e.val("w:spacing", dec(n));
            if wide && sx::choice(2) == 0 {
                p.character_spacing(n)
            } else {
                p.spacing(n)
            }
        }
        3 => {
            let s = hex(6);
            e.val("w:color", st(&s));
            p.color(s)
        }
        4 => {
            // a theme colour keeps a colour set before
            let (t, n) = if wide { pick(&THEME) } else { THEME[5] };
            let old = match e.get("w:color") {
                Some(w) => match &w.attrs[0].1 {
                    Val::S(v) => v.clone(),
                    _ => vec![],
                },
                None => b"auto".to_vec(),
            };
            let (s, u) = (hex(2), hex(2));
            e.el("w:color", vec![("w:val", Val::S(old)), ("w:themeColor", st(n)), ("w:themeShade", st(&s)), ("w:themeTint", st(&u))]);
            p.theme_color(t).theme_shade(s).theme_tint(u)
        }
        5 => {
            let s = ident(5);
            e.val("w:highlight", st(&s));
            p.highlight(s)
        }
        6 => {
            e.val("w:b", Val::On);
            e.val("w:bCs", Val::On);
            p.bold()
        }
        7 => {
            e.val("w:b", Val::Off);
            e.val("w:bCs", Val::Off);
            p.disable_bold()
        }
        8 => {
            e.val("w:i", Val::On);
            e.val("w:iCs", Val::On);
            p.italic()
        }
        9 => {
            e.val("w:i", Val::Off);
            e.val("w:iCs", Val::Off);
            p.disable_italic()
        }
        10 => {
            e.val("w:strike", Val::On);
            e.drop("w:dstrike");
            p.strike()
        }
        11 => {
            e.val("w:dstrike", Val::On);
            e.drop("w:strike");
            p.dstrike()
        }
        12 => {
            let (t, n) = if wide { pick(&BORDER) } else { BORDER[5] };
            let s = if wide { u32w() } else { sx::u32v(10, 99) } as usize;
            let c = hex(6);
            e.el("w:bdr", vec![("w:val", st(n)), ("w:sz", dec(s)), ("w:space", st("0")), ("w:color", st(&c))]);
            p.text_border(TextBorder::new().border_type(t).size(s).color(c))
        }
        13 => {
            let s = ident(5);
            e.val("w:u", st(&s));
            p.underline(s)
        }
        14 => {
            e.val("w:vanish", Val::On);
            p.vanish()
        }
        15 => {
            e.val("w:specVanish", Val::On);
            p.spec_vanish()
        }
        16 => {
            // every subset boundary of the font slots: one slot alone, or all
            let v: Vec<String> = (0..9).map(|_| ident(2)).collect();
            let w = if wide { sx::choice(10) } else { 9 };
            let mut f = RunFonts::new();
            let mut a = vec![];
            for i in 0..9 {
                if w != 9 && w != i {
                    continue;
                }
                let s = v[i].clone();
                let n = ["w:ascii", "w:hAnsi", "w:eastAsia", "w:cs", "w:asciiTheme", "w:hAnsiTheme", "w:eastAsiaTheme", "w:cstheme", "w:hint"][i];
                a.push((n, st(&s)));
                f = match i {
                    0 => f.ascii(s),
                    1 => f.hi_ansi(s),
                    2 => f.east_asia(s),
                    3 => f.cs(s),
                    4 => f.ascii_theme(s),
                    5 => f.hi_ansi_theme(s),
                    6 => f.east_asia_theme(s),
                    7 => f.cs_theme(s),
                    _ => f.hint(s),
                };
            }
            e.el("w:rFonts", a);
            p.fonts(f)
        }
        17 => {
            let (t, n) = if wide { pick(&SHD) } else { SHD[20] };
            let (c, f) = (hex(6), hex(6));
            e.el("w:shd", vec![("w:val", st(n)), ("w:color", st(&c)), ("w:fill", st(&f))]);
            p.shading(Shading::new().shd_type(t).color(c).fill(f))
        }
        18 => {
            let n = if wide { usizew() } else { sx::usizev(10, 99) };
            let mut a = vec![("w:val", dec(n))];
            let id = if wide && sx::choice(2) == 0 {
                None
            } else {
                let i = if wide { u32w() } else { sx::u32v(10, 99) };
                a.push(("w:id", dec(i)));
                Some(i)
            };
            e.el("w:fitText", a);
            p.fit_text(n, id)
        }
        19 => {
            let (t, n) = if wide { pick(&VERT) } else { VERT[1] };
            e.val("w:vertAlign", st(n));
            p.vert_align(t)
        }
        20 => {
            e.val("w:caps", Val::On);
            p.caps()
        }
        21 => {
            e.val("w:strike", Val::Off);
            p.disable_strike()
        }
        22 => {
            e.val("w:dstrike", Val::Off);
            p.disable_dstrike()
        }
        _ => p,
    }
}

/// the same setters as far as the run offers them directly
fn set_run(k: usize, r: Run, e: &mut Exp) -> Option<Run> {
    Some(match k {
        0 => {
            let s = ident(3);
            e.val("w:rStyle", st(&s));
            r.style(&s)
        }
        1 => {
            let n = sx::u16v(0, 65535) as usize;
            e.val("w:sz", dec(n));
            e.val("w:szCs", dec(n));
            r.size(n)
        }
        2 => {
            let n = sx::i32v(-999, 999);
            e.val("w:spacing", dec(n));
            r.character_spacing(n)
        }
        3 => {
            let s = hex(6);
            e.val("w:color", st(&s));
            r.color(s)
        }
        4 => {
            let (t, n) = THEME[7];
            let (s, u) = (hex(2), hex(2));
            e.el("w:color", vec![("w:val", st("auto")), ("w:themeColor", st(n)), ("w:themeShade", st(&s)), ("w:themeTint", st(&u))]);
            r.theme_color(t).theme_shade(s).theme_tint(u)
        }
        5 => {
            let s = ident(5);
            e.val("w:highlight", st(&s));
            r.highlight(s)
        }
        6 => {
            e.val("w:b", Val::On);
            e.val("w:bCs", Val::On);
            r.bold()
        }
        7 => {
            e.val("w:b", Val::Off);
            e.val("w:bCs", Val::Off);
            r.disable_bold()
        }
        8 => {
            e.val("w:i", Val::On);
            e.val("w:iCs", Val::On);
            r.italic()
        }
        9 => {
            e.val("w:i", Val::Off);
            e.val("w:iCs", Val::Off);
            r.disable_italic()
        }
        10 => {
            e.val("w:strike", Val::On);
            r.strike()
        }
        11 => {
            e.val("w:dstrike", Val::On);
            r.dstrike()
        }
        12 => {
            let s = sx::u16v(0, 999) as usize;
            let c = hex(6);
            e.el("w:bdr", vec![("w:val", st("wave")), ("w:sz", dec(s)), ("w:space", st("0")), ("w:color", st(&c))]);
            r.text_border(TextBorder::new().border_type(BorderType::Wave).size(s).color(c))
        }
        13 => {
            let s = ident(5);
            e.val("w:u", st(&s));
            r.underline(s)
        }
        14 => {
            e.val("w:vanish", Val::On);
            r.vanish()
        }
        16 => {
            let (a, b) = (ident(2), ident(2));
            e.el("w:rFonts", vec![("w:ascii", st(&a)), ("w:eastAsia", st(&b))]);
            r.fonts(RunFonts::new().ascii(a).east_asia(b))
        }
        17 => {
            let (c, f) = (hex(6), hex(6));
            e.el("w:shd", vec![("w:val", st("solid")), ("w:color", st(&c)), ("w:fill", st(&f))]);
            r.shading(Shading::new().shd_type(ShdType::Solid).color(c).fill(f))
        }
        _ => return None,
    })
}

fn with(p: RunProperty) -> Run {
    let mut r = Run::new().add_text("a");
    r.run_property = p;
    r
}

/// the run survives as the only run of the only paragraph
fn check_run(run: Run, e: &Exp) {
    let d = Docx::new().add_paragraph(Paragraph::new().add_run(run.clone()));
    let mut w = d.clone();
    let x = w.build();
    sx::obs(&x.document);
    let Some(t) = part(&x.document, "wf") else { return };
    e.verify(t.at("w:body/w:p/w:r/w:rPr"), "written");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::check(r.document.children == d.document.children, "read back");
    sx::reach("end");
}

#[no_mangle]
pub extern "C-unwind" fn h_c04_single() {
    let mut e = Exp::default();
    let k = sx::choice(SETTERS);
    let p = set(k, RunProperty::new(), &mut e, true);
    check_run(with(p), &e);
}

#[no_mangle]
pub extern "C-unwind" fn h_c04_run_api() {
    let mut e = Exp::default();
    let k = sx::choice(18);
    if let Some(r) = set_run(k, Run::new().add_text("a"), &mut e) {
        check_run(r, &e);
    }
}

/// written, alone and beside another setting
#[no_mangle]
pub extern "C-unwind" fn h_c04_stretch() {
    let mut e = Exp::default();
    let n = i32w();
    let mut r = Run::new().add_text("a");
    if sx::choice(2) == 0 {
        r = r.stretch(n);
    } else {
        r = r.bold();
        e.val("w:b", Val::On);
        e.val("w:bCs", Val::On);
        r.run_property = r.run_property.stretch(n);
    }
    e.val("w:w", dec(n));
    let d = Docx::new().add_paragraph(Paragraph::new().add_run(r));
    let x = d.clone().build();
    let Some(t) = part(&x.document, "wf") else { return };
    e.verify(t.at("w:body/w:p/w:r/w:rPr"), "written");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::reach("end");
    sx::check(r.document.children == d.document.children, "stretch read back");
}

#[no_mangle]
pub extern "C-unwind" fn h_c04_pair() {
    let mut e = Exp::default();
    let i = sx::choice(SETTERS);
    let j = sx::choice(SETTERS);
    sx::assume(i != j);
    // combinations whose outcome depends on the setter order by design
    let strikes = |k| matches!(k, 10 | 11 | 21 | 22);
    sx::assume(!(strikes(i) && strikes(j)));
    let p = set(i, RunProperty::new(), &mut e, false);
    let p = set(j, p, &mut e, false);
    check_run(with(p), &e);
}

#[no_mangle]
pub extern "C-unwind" fn h_c04_all() {
    // everything at once except one setting left out
    let out = sx::choice(SETTERS + 1);
    let off = sx::choice(2) == 1;
    let mut e = Exp::default();
    let mut p = RunProperty::new();
    for k in 0..SETTERS {
        let skip = k == out
            || (off && matches!(k, 6 | 8 | 10 | 11))
            || (!off && matches!(k, 7 | 9 | 21 | 22))
            || k == 10;
        if !skip {
            p = set(k, p, &mut e, false);
        }
    }
    check_run(with(p), &e);
}
