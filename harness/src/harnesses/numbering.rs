//! C09: numbering definitions
use super::paragraph::{self, two};
use super::run;
use super::util::*;
use crate::sx;
use docx_rs::*;

pub const NUMREL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/numbering";

fn level(l: usize) -> Level {
    Level::new(l, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"))
}
fn lbase() -> Exp {
    let mut e = Exp::default();
    e.val("w:start", st("1"));
    e.val("w:numFmt", st("decimal"));
    e.val("w:lvlText", st("%1."));
    e.val("w:lvlJc", st("left"));
    *e.el("w:pPr", vec![]) = paragraph::base();
    e.el("w:rPr", vec![]);
    e
}
/// level text: any printable characters, those XML reserves included
fn ltext(n: usize) -> String {
    sx::ascii(n)
}

const LSET: usize = 12;
/// one setting of a level
fn lset(k: usize, mut l: Level, e: &mut Exp, wide: bool) -> Level {
    let num = |w: bool| if w { usizew() } else { two() as usize };
    match k {
        0 => {
            let n = num(wide);
            e.val("w:start", dec(n));
            l.start = Start::new(n);
            l
        }
        1 => {
            let s = ident(if wide { 3 } else { 1 });
            e.val("w:numFmt", st(&s));
            l.format = NumberFormat::new(s);
            l
        }
        2 => {
            let s = ltext(if wide { 3 } else { 1 });
            e.val("w:lvlText", st(&s));
            l.text = LevelText::new(s);
            l
        }
        3 => {
            let s = ident(if wide { 3 } else { 1 });
            e.val("w:lvlJc", st(&s));
            l.jc = LevelJc::new(s);
            l
        }
        4 => {
            let w = &mut e.get("w:pPr").unwrap().kids;
            l.paragraph_property = paragraph::set(if wide { sx::choice(paragraph::SETTERS - 1) } else { 2 }, l.paragraph_property, w, false);
            l
        }
        5 => {
            let w = &mut e.get("w:rPr").unwrap().kids;
            l.run_property = run::set(if wide { sx::choice(run::SETTERS) } else { 3 }, l.run_property, w, false);
            l
        }
        6 => match if wide { sx::choice(3) } else { 1 } {
            0 => {
                e.val("w:suff", st("nothing"));
                l.suffix(LevelSuffixType::Nothing)
            }
            1 => {
                e.val("w:suff", st("space"));
                l.suffix(LevelSuffixType::Space)
            }
            _ => l.suffix(LevelSuffixType::Tab),
        },
        7 => {
            let s = ident(if wide { 3 } else { 1 });
            e.val("w:pStyle", st(&s));
            l.paragraph_style(&s)
        }
        8 => {
            let n = if wide { u32w() } else { two() };
            e.val("w:lvlRestart", dec(n));
            l.level_restart(n)
        }
        9 => {
            e.val("w:isLgl", Val::On);
            l.is_lgl()
        }
        10 => {
            let n = if wide { sx::i32v(0, 9999) } else { two() as i32 };
            e.get("w:pPr").unwrap().kids.el("w:ind", vec![("w:left", dec(n)), ("w:right", st("3")), ("w:hanging", st("7"))]);
            l.indent(Some(n), Some(SpecialIndentType::Hanging(7)), Some(3), None)
        }
        _ if wide => {
            // formatting through the level's own methods
            let r = &mut e.get("w:rPr").unwrap().kids;
            let n = sx::u32v(10, 9999);
            match sx::choice(14) {
                0 => {
                    r.val("w:sz", dec(n));
                    r.val("w:szCs", dec(n));
                    l.size(n as usize)
                }
                1 => {
                    r.val("w:spacing", dec(n));
                    l.spacing(n as i32)
                }
                2 => {
                    let s = hex(6);
                    r.val("w:color", st(&s));
                    l.color(s)
                }
                3 => {
                    let s = ident(3);
                    r.val("w:highlight", st(&s));
                    l.highlight(s)
                }
                4 => {
                    r.val("w:b", Val::On);
                    r.val("w:bCs", Val::On);
                    l.bold()
                }
                5 => {
                    r.val("w:b", Val::Off);
                    r.val("w:bCs", Val::Off);
                    l.disable_bold()
                }
                6 => {
                    r.val("w:i", Val::On);
                    r.val("w:iCs", Val::On);
                    l.italic()
                }
                7 => {
                    r.val("w:i", Val::Off);
                    r.val("w:iCs", Val::Off);
                    l.disable_italic()
                }
                8 => {
                    r.val("w:strike", Val::On);
                    l.strike()
                }
                9 => {
                    r.val("w:strike", Val::Off);
                    l.disable_strike()
                }
                10 => {
                    r.val("w:dstrike", Val::On);
                    l.dstrike()
                }
                11 => {
                    r.val("w:dstrike", Val::Off);
                    l.disable_dstrike()
                }
                12 => {
                    let s = ident(3);
                    r.val("w:u", st(&s));
                    l.underline(s)
                }
                _ => {
                    let s = ident(3);
                    r.val("w:vanish", Val::On);
                    r.el("w:rFonts", vec![("w:ascii", st(&s))]);
                    l.vanish().fonts(RunFonts::new().ascii(s))
                }
            }
        }
        _ => l,
    }
}

fn by_id<'a>(t: &'a El, name: &str, attr: &str, id: &[u8]) -> Vec<&'a El> {
    t.els().filter(|e| e.name == name && e.attr(attr) == Some(id)).collect()
}
/// writing, and reading back what was written
fn written(nums: &Numberings) -> Option<(Vec<u8>, El)> {
    let mut d = Docx::new().numberings(nums.clone());
    let x = d.build();
    let t = part(&x.numberings, "wf")?;
    Some((x.numberings, t))
}
fn back(nums: &Numberings, part: &[u8], id: &str) {
    let b = mini_with(&doc_around(b"<w:p/>"), NUMREL, "numbering.xml", part);
    let Some(r) = read_ok(&b, "readable") else { return };
    // besides the definitions of the document there may be the default ones
    let mut k = 0;
    for n in &r.numberings.abstract_nums {
        if k < nums.abstract_nums.len() && n.id == nums.abstract_nums[k].id {
            sx::check(*n == nums.abstract_nums[k], id);
            k += 1;
        } else {
            sx::check(n.id == 1, id);
        }
    }
    sx::check(k == nums.abstract_nums.len(), id);
    let mut k = 0;
    for n in &r.numberings.numberings {
        if k < nums.numberings.len() && n.id == nums.numberings[k].id {
            sx::check(*n == nums.numberings[k], id);
            k += 1;
        } else {
            sx::check(n.id == 1 && n.abstract_num_id == 1, id);
        }
    }
    sx::check(k == nums.numberings.len(), id);
}
fn check_level(l: Level, e: &Exp) {
    let ilvl = l.level.to_string();
    let nums = Numberings::new().add_abstract_numbering(AbstractNumbering::new(2).add_level(l)).add_numbering(Numbering::new(2, 2));
    let Some((x, t)) = written(&nums) else { return };
    let a = by_id(&t, "w:abstractNum", "w:abstractNumId", b"2");
    sx::check(a.len() == 1, "written once");
    let l: Vec<&El> = a[0].els().filter(|c| c.name == "w:lvl").collect();
    sx::check(l.len() == 1, "written once");
    sx::check_eq(l[0].attr("w:ilvl").unwrap_or(b""), ilvl.as_bytes(), "level");
    e.verify(Some(l[0]), "written");
    back(&nums, &x, "read back");
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c09_level() {
    let mut e = lbase();
    let k = sx::choice(LSET);
    let n = if k == 0 { sx::choice(9) } else { 3 };
    let l = lset(k, level(n), &mut e, true);
    check_level(l, &e);
}
#[no_mangle]
pub extern "C-unwind" fn h_c09_combined() {
    let mut e = lbase();
    let mut l = level(sx::usizev(0, 8));
    let k = LSET - 2;
    if sx::choice(2) == 0 {
        let (i, j) = (sx::choice(k), sx::choice(k));
        sx::assume(i < j);
        l = lset(i, l, &mut e, false);
        l = lset(j, l, &mut e, false);
    } else {
        let out = sx::choice(k + 1);
        for i in 0..k {
            if i != out {
                l = lset(i, l, &mut e, false);
            }
        }
    }
    check_level(l, &e);
}
/// any few definitions with their levels and links, in order
#[no_mangle]
pub extern "C-unwind" fn h_c09_definitions() {
    let n = sx::choice(4);
    graph(n, 1, if n == 1 { 0 } else { 2 }, true)
}
/// any few instances with their overrides, in order
#[no_mangle]
pub extern "C-unwind" fn h_c09_instances() {
    let n = sx::choice(4);
    graph(1, n, if n == 1 { 1 } else { 2 }, false)
}
fn graph(na: usize, nn: usize, wide: usize, defs: bool) {
    let mut nums = Numberings::new();
    // the identifier or the start of the single override over its full range
    let long = nn == 1 && !defs && sx::choice(2) == 1;
    let idv = |k: usize, first: bool| if first && wide == k && !long { sx::usizev(0, 9_999_999) } else { sx::usizev(1, 9) };
    let (mut aids, mut nids) = (vec![], vec![]);
    let mut e = Exp::default();
    for k in 0..na {
        let id = idv(0, k == 0);
        sx::assume(!aids.contains(&id));
        aids.push(id);
        let mut a = AbstractNumbering::new(id);
        let w = e.push("w:abstractNum", vec![("w:abstractNumId", dec(id))]);
        if k == 0 && defs {
            for l in 0..sx::choice(3) {
                let i = sx::usizev(0, 9);
                let _ = l;
                *w.push("w:lvl", vec![("w:ilvl", dec(i))]) = lbase();
                a = a.add_level(level(i));
            }
            let links = sx::choice(4);
            if links & 1 != 0 {
                let s = ident(2);
                w.val("w:styleLink", st(&s));
                a = a.style_link(s);
            }
            if links & 2 != 0 {
                let s = ident(2);
                w.val("w:numStyleLink", st(&s));
                a = a.num_style_link(s);
            }
        }
        nums = nums.add_abstract_numbering(a);
    }
    for k in 0..nn {
        let id = idv(1, k == 0);
        sx::assume(!nids.contains(&id));
        nids.push(id);
        let to = sx::usizev(0, 9);
        let mut n = Numbering::new(id, to);
        let w = e.push("w:num", vec![("w:numId", dec(id))]);
        w.val("w:abstractNumId", dec(to));
        if k == 0 && !defs {
            for _ in 0..if long { 1 } else { sx::choice(3) } {
                let i = sx::usizev(0, 9);
                let mut o = LevelOverride::new(i);
                let w = w.push("w:lvlOverride", vec![("w:ilvl", dec(i))]);
                let parts = if long { 1 } else if nn == 3 { 3 } else { sx::choice(4) };
                if parts & 1 != 0 {
                    let s = if long { usizew() } else { two() as usize };
                    w.val("w:startOverride", dec(s));
                    o = o.start(s);
                }
                if parts & 2 != 0 {
                    let i = sx::usizev(0, 9);
                    *w.push("w:lvl", vec![("w:ilvl", dec(i))]) = lbase();
                    o = o.level(level(i));
                }
                n = n.add_override(o);
            }
        }
        nums = nums.add_numbering(n);
    }
    let Some((x, t)) = written(&nums) else { return };
    // the definitions of the document in order; the default ones only where
    // the identifier is free
    let (mut got, mut extra) = (El { name: "w:numbering".into(), attrs: vec![], kids: vec![] }, 0);
    for c in &t.kids {
        if let Node::E(c) = c {
            let (attr, ids) = if c.name == "w:num" { ("w:numId", &nids) } else { ("w:abstractNumId", &aids) };
            if c.attr(attr) == Some(b"1") && !ids.contains(&1) {
                extra += 1;
            } else {
                got.kids.push(Node::E(c.clone()));
            }
        }
    }
    sx::check(extra <= 2, "default definitions");
    e.verify(Some(&got), "written");
    back(&nums, &x, "read back");
    sx::reach("end");
}
