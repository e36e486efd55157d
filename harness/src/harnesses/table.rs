//! C06: tables
use super::paragraph::two;
use super::run::{BORDER, SHD};
use super::util::*;
use crate::sx;
use docx_rs::*;

const WIDTH: [(WidthType, &str); 4] =
    [(WidthType::Dxa, "dxa"), (WidthType::Auto, "auto"), (WidthType::Pct, "pct"), (WidthType::Nil, "nil")];
const TALIGN: [(TableAlignmentType, &str); 3] =
    [(TableAlignmentType::Center, "center"), (TableAlignmentType::Left, "left"), (TableAlignmentType::Right, "right")];
const RULE: [(HeightRule, &str); 3] = [(HeightRule::Auto, "auto"), (HeightRule::AtLeast, "atLeast"), (HeightRule::Exact, "exact")];
const VALIGN: [(VAlignType, &str); 3] =
    [(VAlignType::Top, "top"), (VAlignType::Center, "center"), (VAlignType::Bottom, "bottom")];
const VMERGE: [(VMergeType, &str); 2] = [(VMergeType::Continue, "continue"), (VMergeType::Restart, "restart")];
const DIR: [(TextDirectionType, &str); 10] = [
    (TextDirectionType::Lr, "lr"),
    (TextDirectionType::LrV, "lrV"),
    (TextDirectionType::Rl, "rl"),
    (TextDirectionType::RlV, "rlV"),
    (TextDirectionType::Tb, "tb"),
    (TextDirectionType::TbV, "tbV"),
    (TextDirectionType::TbRlV, "tbRlV"),
    (TextDirectionType::TbRl, "tbRl"),
    (TextDirectionType::BtLr, "btLr"),
    (TextDirectionType::LrTbV, "lrTbV"),
];
fn tpos(k: usize) -> (TableBorderPosition, &'static str) {
    match k {
        0 => (TableBorderPosition::Top, "w:top"),
        1 => (TableBorderPosition::Left, "w:left"),
        2 => (TableBorderPosition::Bottom, "w:bottom"),
        3 => (TableBorderPosition::Right, "w:right"),
        4 => (TableBorderPosition::InsideH, "w:insideH"),
        _ => (TableBorderPosition::InsideV, "w:insideV"),
    }
}
fn cpos(k: usize) -> (TableCellBorderPosition, &'static str) {
    match k {
        0 => (TableCellBorderPosition::Top, "w:top"),
        1 => (TableCellBorderPosition::Left, "w:left"),
        2 => (TableCellBorderPosition::Bottom, "w:bottom"),
        3 => (TableCellBorderPosition::Right, "w:right"),
        4 => (TableCellBorderPosition::InsideH, "w:insideH"),
        5 => (TableCellBorderPosition::InsideV, "w:insideV"),
        6 => (TableCellBorderPosition::Tl2br, "w:tl2br"),
        _ => (TableCellBorderPosition::Tr2bl, "w:tr2bl"),
    }
}
fn bd(e: &mut Exp, n: &'static str, t: &str, sz: usize, c: &str) {
    e.el(n, vec![("w:val", st(t)), ("w:sz", dec(sz)), ("w:space", st("0")), ("w:color", st(c))]);
}
/// number for a single-setting harness: wide range when `k` is the chosen field
fn num(wide: bool) -> usize {
    if wide {
        i31w() as usize
    } else {
        two() as usize
    }
}

pub const TSET: usize = 8;
/// table-level settings; the expectation starts as `tbase`
pub fn tset(k: usize, t: Table, e: &mut Exp, wide: bool) -> Table {
    match k {
        0 => {
            // (the reader compares the parsed value with 0: five digits)
            let v = match if wide { sx::choice(4) } else { 4 } {
                0 => sx::u32v(1, 99_999) as i32,
                1 => -(sx::u32v(1, 99_999) as i32),
                2 => sx::u32v(0x7fff_fff0, 0x7fff_ffff) as i32,
                3 => i32::MIN + sx::u32v(0, 1) as i32,
                _ => two() as i32,
            };
            e.el("w:tblInd", vec![("w:w", dec(v)), ("w:type", st("dxa"))]);
            t.indent(v)
        }
        1 => {
            let (a, n) = if wide { pick(&TALIGN) } else { TALIGN[2] };
            e.val("w:jc", st(n));
            t.align(a)
        }
        2 => {
            let s = ident(if wide { 4 } else { 1 });
            e.val("w:tblStyle", st(&s));
            t.style(&s)
        }
        3 => {
            let v = num(wide);
            let (ty, n) = if wide { pick(&WIDTH) } else { WIDTH[2] };
            e.el("w:tblW", vec![("w:w", dec(v)), ("w:type", st(n))]);
            t.width(v, ty)
        }
        4 => {
            let (mut t, mut through) = (t, false);
            let mut m = TableCellMargins::new();
            let mut v = [(0usize, "dxa"), (55, "dxa"), (0, "dxa"), (55, "dxa")];
            if wide && sx::choice(2) == 0 {
                let n = [num(false), num(false), num(false), num(false)];
                m = m.margin(n[0], n[1], n[2], n[3]);
                // given as top, right, bottom, left
                v = [(n[0], "dxa"), (n[3], "dxa"), (n[2], "dxa"), (n[1], "dxa")];
            } else {
                let side = if wide { sx::choice(4) } else { 2 };
                let n = num(wide);
                let (ty, tn) = if wide { pick(&WIDTH) } else { WIDTH[0] };
                v[side] = (n, tn);
                through = wide && sx::choice(2) == 1;
                if through {
                    if tn == "dxa" {
                        t = t.margins(TableCellMargins::new().margin(5, 6, 7, 8));
                        v = [(5, tn), (8, tn), (7, tn), (6, tn)];
                        v[side] = (n, tn);
                    }
                    t.property = match side {
                        0 => t.property.cell_margin_top(n, ty),
                        1 => t.property.cell_margin_left(n, ty),
                        2 => t.property.cell_margin_bottom(n, ty),
                        _ => t.property.cell_margin_right(n, ty),
                    };
                }
                m = match side {
                    0 => m.margin_top(n, ty),
                    1 => m.margin_left(n, ty),
                    2 => m.margin_bottom(n, ty),
                    _ => m.margin_right(n, ty),
                };
            }
            let k = e.el("w:tblCellMar", vec![]);
            for (i, n) in ["w:top", "w:left", "w:bottom", "w:right"].into_iter().enumerate() {
                k.el(n, vec![("w:w", dec(v[i].0)), ("w:type", st(v[i].1))]);
            }
            if through {
                t
            } else {
                t.margins(m)
            }
        }
        5 => {
            let which = if wide { sx::choice(3) } else { 2 };
            let (p, n) = if wide { tpos(sx::choice(6)) } else { tpos(4) };
            let b = &mut e.get("w:tblBorders").unwrap().kids;
            match which {
                0 => {
                    bd(b, n, "nil", 2, "000000");
                    t.clear_border(p)
                }
                1 => {
                    for k in 0..6 {
                        bd(b, tpos(k).1, "nil", 2, "000000");
                    }
                    t.clear_all_border()
                }
                _ => {
                    let f = if wide { sx::choice(2) } else { 2 };
                    let (ty, tn) = if f == 0 { pick(&BORDER) } else { BORDER[5] };
                    let sz = if f == 1 { usizew() } else { two() as usize };
                    let c = hex(6);
                    bd(b, n, tn, sz, &c);
                    t.set_border(TableBorder::new(p).border_type(ty).size(sz).color(c))
                }
            }
        }
        6 => {
            let which = if wide { sx::choice(5) } else { 4 };
            let f = |k| if which == k { i32w() } else { two() as i32 };
            let (l, r, x, y) = (f(0), f(1), f(2), f(3));
            let s: Vec<String> = (0..4).map(|_| ident(2)).collect();
            e.el(
                "w:tblpPr",
                vec![
                    ("w:leftFromText", dec(l)),
                    ("w:rightFromText", dec(r)),
                    ("w:vertAnchor", st(&s[0])),
                    ("w:horzAnchor", st(&s[1])),
                    ("w:tblpXSpec", st(&s[2])),
                    ("w:tblpYSpec", st(&s[3])),
                    ("w:tblpX", dec(x)),
                    ("w:tblpY", dec(y)),
                ],
            );
            let p = TablePositionProperty::new().left_from_text(l).right_from_text(r).position_x(x).position_y(y);
            let p = p.vertical_anchor(&s[0]).horizontal_anchor(&s[1]).position_x_alignment(&s[2]).position_y_alignment(&s[3]);
            t.position(p)
        }
        _ => t,
    }
}

pub fn tbase(borders: bool) -> Exp {
    let mut e = Exp::default();
    e.el("w:tblW", vec![("w:w", st("0")), ("w:type", st("auto"))]);
    e.val("w:jc", st("left"));
    let b = e.el("w:tblBorders", vec![]);
    if borders {
        for k in 0..6 {
            bd(b, tpos(k).1, "single", 2, "000000");
        }
    }
    e
}

pub const RSET: usize = 7;
pub fn rset(k: usize, r: TableRow, e: &mut Exp, wide: bool) -> TableRow {
    match k {
        0 => {
            let v = if wide { u32w() } else { two() };
            e.val("w:gridAfter", dec(v));
            r.grid_after(v)
        }
        1 => {
            let v = if wide { u32w() } else { two() };
            e.val("w:gridBefore", dec(v));
            r.grid_before(v)
        }
        2 => {
            let (h, hn) = pick_h(wide);
            e.el("w:wAfter", vec![("w:w", st(hn)), ("w:type", st("dxa"))]);
            r.width_after(h)
        }
        3 => {
            let (h, hn) = pick_h(wide);
            e.el("w:wBefore", vec![("w:w", st(hn)), ("w:type", st("dxa"))]);
            r.width_before(h)
        }
        4 => {
            let (h, hn) = pick_h(wide);
            let (ru, rn) = if wide { pick(&RULE) } else { RULE[2] };
            e.el("w:trHeight", vec![("w:val", st(hn)), ("w:hRule", st(rn))]);
            r.row_height(h).height_rule(ru)
        }
        5 => {
            let a = ident(2);
            e.el("w:del", vec![("w:id", Val::Any), ("w:author", st(&a)), ("w:date", st("2024-01-01T00:00:00Z"))]);
            r.delete(Delete::new().author(&a).date("2024-01-01T00:00:00Z"))
        }
        6 => {
            let a = ident(2);
            e.el("w:ins", vec![("w:id", Val::Any), ("w:author", st(&a)), ("w:date", st("2024-01-01T00:00:00Z"))]);
            r.insert(Insert::new_with_empty().author(&a).date("2024-01-01T00:00:00Z"))
        }
        _ => r,
    }
}
fn pick_h(wide: bool) -> (f32, &'static str) {
    if wide {
        pick(&[(0.0, "0"), (1.0, "1"), (255.0, "255"), (256.0, "256"), (31680.0, "31680"), (70000.0, "70000")])
    } else {
        (300.0, "300")
    }
}

pub const CSET: usize = 8;
pub fn cset(k: usize, c: TableCell, e: &mut Exp, wide: bool) -> TableCell {
    match k {
        0 => {
            let (v, n) = if wide { pick(&VMERGE) } else { VMERGE[1] };
            e.val("w:vMerge", st(n));
            c.vertical_merge(v)
        }
        1 => {
            let (t, n) = if wide { pick(&SHD) } else { SHD[20] };
            let (a, f) = (hex(6), hex(6));
            e.el("w:shd", vec![("w:val", st(n)), ("w:color", st(&a)), ("w:fill", st(&f))]);
            c.shading(Shading::new().shd_type(t).color(a).fill(f))
        }
        2 => {
            let (v, n) = if wide { pick(&VALIGN) } else { VALIGN[2] };
            e.val("w:vAlign", st(n));
            c.vertical_align(v)
        }
        3 => {
            let (v, n) = if wide { pick(&DIR) } else { DIR[7] };
            e.val("w:textDirection", st(n));
            c.text_direction(v)
        }
        4 => {
            let v = if wide { usizew() } else { two() as usize };
            e.val("w:gridSpan", dec(v));
            c.grid_span(v)
        }
        5 => {
            let v = num(wide);
            let (ty, n) = if wide { pick(&WIDTH) } else { WIDTH[0] };
            e.el("w:tcW", vec![("w:w", dec(v)), ("w:type", st(n))]);
            c.width(v, ty)
        }
        6 => {
            // borders: starting from the default set of six, or from none
            let which = if wide { sx::choice(4) } else { 2 };
            let (p, n) = if wide { cpos(sx::choice(8)) } else { cpos(6) };
            let b = e.el("w:tcBorders", vec![]);
            if which < 3 {
                for k in 0..6 {
                    bd(b, cpos(k).1, "single", 2, "000000");
                }
            }
            match which {
                0 => {
                    bd(b, n, "nil", 2, "000000");
                    c.clear_border(p)
                }
                1 => {
                    for k in 0..8 {
                        bd(b, cpos(k).1, "nil", 2, "000000");
                    }
                    c.clear_all_border()
                }
                _ => {
                    let f = if wide { sx::choice(2) } else { 2 };
                    let (ty, tn) = if f == 0 { pick(&BORDER) } else { BORDER[5] };
                    let sz = if f == 1 { usizew() } else { two() as usize };
                    let col = hex(6);
                    bd(b, n, tn, sz, &col);
                    let x = TableCellBorder::new(p).border_type(ty).size(sz).color(col);
                    if which == 2 {
                        c.set_border(x)
                    } else {
                        c.set_borders(TableCellBorders::with_empty().set(x))
                    }
                }
            }
        }
        7 => {
            // any subset of the four margins
            let mask = if wide { sx::choice(16) } else { 15 };
            let mut c = c;
            let m = e.el("w:tcMar", vec![]);
            let mut some = false;
            for (i, n) in ["w:top", "w:left", "w:bottom", "w:right"].into_iter().enumerate() {
                if mask >> i & 1 == 0 {
                    continue;
                }
                some = true;
                let v = num(wide && mask == 1 << i);
                let (ty, tn) = if wide && mask == 1 << i { pick(&WIDTH) } else { WIDTH[i] };
                m.el(n, vec![("w:w", dec(v)), ("w:type", st(tn))]);
                let p = std::mem::take(&mut c.property);
                c.property = match i {
                    0 => p.margin_top(v, ty),
                    1 => p.margin_left(v, ty),
                    2 => p.margin_bottom(v, ty),
                    _ => p.margin_right(v, ty),
                };
            }
            if !some {
                e.drop("w:tcMar");
            }
            c
        }
        _ => c,
    }
}

fn cell(t: &str) -> TableCell {
    TableCell::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text(t)))
}

fn written(d: &Docx) -> Option<(XMLDocx, El)> {
    let x = d.clone().build();
    sx::obs(&x.document);
    let t = part(&x.document, "wf")?;
    Some((x, t))
}
fn back(d: &Docx, x: &XMLDocx, id: &str) {
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    sx::check(r.document.children == d.document.children, id);
    sx::reach("end");
}

/// the value is kept whichever route (before or after adding rows) was taken
fn wrap(t: Table) -> Docx {
    Docx::new().add_table(t.add_row(TableRow::new(vec![cell("a")])))
}

#[no_mangle]
pub extern "C-unwind" fn h_c06_table_single() {
    let without = sx::choice(2) == 1;
    let mut e = tbase(!without);
    let t = if without { Table::without_borders(vec![]) } else { Table::new(vec![]) };
    let t = tset(sx::choice(TSET), t, &mut e, true);
    let d = wrap(t);
    let Some((x, tree)) = written(&d) else { return };
    e.verify(tree.at("w:body/w:tbl/w:tblPr"), "written");
    back(&d, &x, "read back");
}
#[no_mangle]
pub extern "C-unwind" fn h_c06_table_combined() {
    // pairs, and all but one
    let mut e = tbase(true);
    let mut t = Table::new(vec![]);
    if sx::choice(2) == 0 {
        let (i, j) = (sx::choice(TSET - 1), sx::choice(TSET - 1));
        sx::assume(i < j);
        t = tset(i, t, &mut e, false);
        t = tset(j, t, &mut e, false);
    } else {
        let out = sx::choice(TSET);
        for k in 0..TSET {
            if k != out {
                t = tset(k, t, &mut e, false);
            }
        }
    }
    let d = wrap(t);
    let Some((x, tree)) = written(&d) else { return };
    e.verify(tree.at("w:body/w:tbl/w:tblPr"), "written");
    back(&d, &x, "read back");
}
/// layout and unsplittable rows are written (the reader ignores them)
#[no_mangle]
pub extern "C-unwind" fn h_c06_write_only() {
    let mut e = tbase(true);
    let (l, n) = pick(&[(TableLayoutType::Fixed, "fixed"), (TableLayoutType::Autofit, "autofit")]);
    e.el("w:tblLayout", vec![("w:type", st(n))]);
    let d = Docx::new().add_table(Table::new(vec![TableRow::new(vec![cell("a")]).cant_split()]).layout(l));
    let Some((_, tree)) = written(&d) else { return };
    e.verify(tree.at("w:body/w:tbl/w:tblPr"), "written");
    let mut e = Exp::default();
    e.el("w:cantSplit", vec![]);
    e.verify(tree.at("w:body/w:tbl/w:tr/w:trPr"), "written row");
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c06_row() {
    let mut e = Exp::default();
    let mut r = TableRow::new(vec![cell("a")]);
    match sx::choice(3) {
        0 => r = rset(sx::choice(RSET), r, &mut e, true),
        1 => {
            let (i, j) = (sx::choice(RSET), sx::choice(RSET));
            sx::assume(i < j);
            r = rset(i, r, &mut e, false);
            r = rset(j, r, &mut e, false);
        }
        _ => {
            let out = sx::choice(RSET + 1);
            for k in 0..RSET {
                if k != out {
                    r = rset(k, r, &mut e, false);
                }
            }
        }
    }
    let d = Docx::new().add_table(Table::new(vec![]).add_row(r));
    let Some((x, tree)) = written(&d) else { return };
    e.verify(tree.at("w:body/w:tbl/w:tr/w:trPr"), "written");
    back(&d, &x, "read back");
}
#[no_mangle]
pub extern "C-unwind" fn h_c06_cell_single() {
    let mut e = Exp::default();
    let c = cset(sx::choice(CSET), cell("a"), &mut e, true);
    let d = Docx::new().add_table(Table::new(vec![]).add_row(TableRow::new(vec![cell("b"), c])));
    let Some((x, tree)) = written(&d) else { return };
    let mut v = vec![];
    tree.all("w:tc", &mut v);
    sx::check(v.len() == 2, "cells");
    Exp::default().verify(v[0].child("w:tcPr"), "other cell untouched");
    e.verify(v[1].child("w:tcPr"), "written");
    back(&d, &x, "read back");
}
#[no_mangle]
pub extern "C-unwind" fn h_c06_cell_combined() {
    let mut e = Exp::default();
    let mut c = cell("a");
    if sx::choice(2) == 0 {
        let (i, j) = (sx::choice(CSET), sx::choice(CSET));
        sx::assume(i < j);
        c = cset(i, c, &mut e, false);
        c = cset(j, c, &mut e, false);
    } else {
        let out = sx::choice(CSET + 1);
        for k in 0..CSET {
            if k != out {
                c = cset(k, c, &mut e, false);
            }
        }
    }
    let d = Docx::new().add_table(Table::new(vec![]).add_row(TableRow::new(vec![c])));
    let Some((x, tree)) = written(&d) else { return };
    e.verify(tree.at("w:body/w:tbl/w:tr/w:tc/w:tcPr"), "written");
    back(&d, &x, "read back");
}

/// grid columns, rows and cells: any small shape, contents in place; cells
/// hold nothing, paragraphs, a nested table or both
#[no_mangle]
pub extern "C-unwind" fn h_c06_shape() {
    let rows = sx::choice(4);
    let mut t = Table::new(vec![]);
    let mut want = vec![]; // per row: per cell: kinds of children with text
    let mut grid = vec![];
    let gc = sx::choice(4);
    for i in 0..gc {
        grid.push(if i == 0 { sx::usizev(0, 99_999) } else { two() as usize });
    }
    t = t.set_grid(grid.clone());
    for r in 0..rows {
        let n = if r == 0 { sx::choice(4) } else { 1 + r % 2 };
        let mut cells = vec![];
        let mut wr = vec![];
        for c in 0..n {
            let kind = if r == 0 && c < 2 { sx::choice(5) } else { 1 };
            let s = ident(1);
            let p = || Paragraph::new().add_run(Run::new().add_text(&s));
            let nested = || Table::new(vec![]).add_row(TableRow::new(vec![TableCell::new().add_paragraph(p())]));
            let (cell, k) = match kind {
                0 => (TableCell::new(), vec![("w:p", "")]),
                1 => (TableCell::new().add_paragraph(p()), vec![("w:p", &s[..])]),
                2 => (TableCell::new().add_paragraph(p()).add_paragraph(p()), vec![("w:p", &s[..]), ("w:p", &s[..])]),
                3 => (TableCell::new().add_table(nested()), vec![("w:tbl", &s[..]), ("w:p", "")]),
                _ => (TableCell::new().add_table(nested()).add_paragraph(p()), vec![("w:tbl", &s[..]), ("w:p", &s[..])]),
            };
            cells.push(cell);
            wr.push(k.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>());
        }
        t = t.add_row(TableRow::new(cells));
        want.push(wr);
    }
    let d = Docx::new().add_table(t);
    let Some((x, tree)) = written(&d) else { return };
    let tbl = tree.at("w:body/w:tbl").unwrap();
    let mut e = Exp::default();
    for g in &grid {
        e.push("w:gridCol", vec![("w:w", dec(g)), ("w:type", st("dxa"))]);
    }
    e.verify(tbl.child("w:tblGrid"), "grid");
    let check = |tbl: &El, id: &str| {
        let trs: Vec<&El> = tbl.els().filter(|e| e.name == "w:tr").collect();
        sx::check(trs.len() == want.len(), id);
        for (tr, w) in trs.iter().zip(&want) {
            let tcs: Vec<&El> = tr.els().filter(|e| e.name == "w:tc").collect();
            sx::check(tcs.len() == w.len(), id);
            for (tc, k) in tcs.iter().zip(w) {
                let kids: Vec<&El> = tc.els().filter(|e| e.name != "w:tcPr").collect();
                sx::check(kids.len() == k.len(), id);
                for (kid, (n, s)) in kids.iter().zip(k) {
                    sx::check_eq(kid.name.as_bytes(), n.as_bytes(), id);
                    let mut ts = vec![];
                    kid.all("w:t", &mut ts);
                    let got: Vec<u8> = ts.iter().flat_map(|t| t.text()).collect();
                    sx::check_eq(&got, s.as_bytes(), id);
                }
            }
        }
    };
    check(tbl, "content");
    // what was read, written again, has the same content
    let Some(mut r) = read_ok(&mini(&x.document), "readable") else { return };
    let y = r.build();
    let Some(tree) = part(&y.document, "wf again") else { return };
    let tbl = tree.at("w:body/w:tbl").unwrap();
    e.verify(tbl.child("w:tblGrid"), "grid again");
    check(tbl, "content again");
    sx::reach("end");
}
