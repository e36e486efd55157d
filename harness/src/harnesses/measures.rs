//! C22: lengths mean what they say, however they are written
use super::toggles::{again, last, package};
use super::util::*;
use crate::sx;

/// a length in the file and the number it denotes
fn length(points: bool, percent: bool, negative: bool) -> (String, i64) {
    let mut forms: Vec<usize> = vec![0, 1, 2];
    if points {
        forms.extend([3, 4, 5]);
    }
    if percent {
        forms = vec![6, 7, 8];
    }
    let minus = negative && sx::choice(2) == 1;
    let form = forms[sx::choice(forms.len())];
    let whole = matches!(form, 0 | 3 | 6);
    let n = match sx::choice(if whole { 3 } else { 1 }) {
        0 => sx::u32v(0, 9),
        1 => sx::u32v(10, 99),
        _ => sx::u32v(100, 999),
    } as i64;
    let (s, v) = match form {
        0 => (format!("{}", n), n),
        1 => (format!("{}.0", n), n),
        2 => (format!("{}.75", n), n),
        3 => (format!("{}pt", n), n * 20),
        4 => (format!("{}.5pt", n), n * 20 + 10),
        5 => (format!("{}.25pt", n), n * 20 + 5),
        6 => (format!("{}%", n), n * 50),
        7 => (format!("{}.5%", n), n * 50 + 25),
        _ => (format!("{}.0%", n), n * 50),
    };
    if minus {
        (format!("-{}", s), -v)
    } else {
        (s, v)
    }
}

/// (before, after, part, path to the element, attribute, points?, negative?)
type Place = (&'static str, &'static str, &'static str, &'static str, &'static str, bool, bool);
const PLACES: [Place; 32] = [
    ("<w:p/><w:sectPr><w:pgSz w:h=\"7\" w:w=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgSz", "w:w", true, false),
    ("<w:p/><w:sectPr><w:pgSz w:w=\"7\" w:h=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgSz", "w:h", true, false),
    ("<w:p/><w:sectPr><w:pgMar w:top=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:top", true, true),
    ("<w:p/><w:sectPr><w:pgMar w:bottom=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:bottom", true, true),
    ("<w:p/><w:sectPr><w:pgMar w:left=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:left", true, false),
    ("<w:p/><w:sectPr><w:pgMar w:right=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:right", true, false),
    ("<w:p/><w:sectPr><w:pgMar w:header=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:header", true, false),
    ("<w:p/><w:sectPr><w:pgMar w:footer=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:footer", true, false),
    ("<w:p/><w:sectPr><w:pgMar w:gutter=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:pgMar", "w:gutter", true, false),
    ("<w:p/><w:sectPr><w:cols w:num=\"2\" w:space=\"", "\"/></w:sectPr>", "", "w:body/w:sectPr/w:cols", "w:space", true, false),
    ("<w:p><w:pPr><w:ind w:left=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:left", true, true),
    ("<w:p><w:pPr><w:ind w:start=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:left", true, true),
    ("<w:p><w:pPr><w:ind w:right=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:right", true, true),
    ("<w:p><w:pPr><w:ind w:end=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:right", true, true),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:hanging=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:hanging", true, false),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:leftChars=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:leftChars", false, true),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:startChars=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:leftChars", false, true),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:hangingChars=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:hangingChars", false, false),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:firstLineChars=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:firstLineChars", false, false),
    ("<w:p><w:pPr><w:ind w:left=\"5\" w:firstLine=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:ind", "w:firstLine", true, false),
    (
        "<w:style w:type=\"paragraph\" w:styleId=\"a\"><w:name w:val=\"a\"/><w:pPr><w:ind w:left=\"",
        "\"/></w:pPr></w:style>",
        "styles",
        "w:style/w:pPr/w:ind",
        "w:left",
        true,
        true,
    ),
    ("<w:p><w:pPr><w:spacing w:before=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:spacing", "w:before", false, false),
    ("<w:p><w:pPr><w:spacing w:after=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:spacing", "w:after", false, false),
    ("<w:p><w:pPr><w:spacing w:line=\"", "\"/></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:spacing", "w:line", false, true),
    ("<w:p><w:r><w:rPr><w:sz w:val=\"", "\"/></w:rPr><w:t>x</w:t></w:r></w:p>", "", "w:body/w:p/w:r/w:rPr/w:sz", "w:val", false, false),
    ("<w:p><w:r><w:rPr><w:spacing w:val=\"", "\"/></w:rPr><w:t>x</w:t></w:r></w:p>", "", "w:body/w:p/w:r/w:rPr/w:spacing", "w:val", false, true),
    (
        "<w:tbl><w:tblPr><w:tblInd w:type=\"dxa\" w:w=\"",
        "\"/></w:tblPr><w:tblGrid/><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tblPr/w:tblInd",
        "w:w",
        false,
        true,
    ),
    (
        "<w:tbl><w:tblPr/><w:tblGrid><w:gridCol w:w=\"",
        "\"/></w:tblGrid><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tblGrid/w:gridCol",
        "w:w",
        false,
        false,
    ),
    (
        "<w:tbl><w:tblPr><w:tblCellMar><w:left w:type=\"dxa\" w:w=\"",
        "\"/></w:tblCellMar></w:tblPr><w:tblGrid/><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tblPr/w:tblCellMar/w:left",
        "w:w",
        false,
        false,
    ),
    (
        "<w:tbl><w:tblPr/><w:tblGrid/><w:tr><w:tc><w:tcPr><w:tcMar><w:top w:type=\"dxa\" w:w=\"",
        "\"/></w:tcMar></w:tcPr><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tr/w:tc/w:tcPr/w:tcMar/w:top",
        "w:w",
        false,
        false,
    ),
    (
        "<w:tbl><w:tblPr><w:tblW w:type=\"dxa\" w:w=\"",
        "\"/></w:tblPr><w:tblGrid/><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tblPr/w:tblW",
        "w:w",
        false,
        false,
    ),
    (
        "<w:tbl><w:tblPr/><w:tblGrid/><w:tr><w:tc><w:tcPr><w:tcW w:type=\"dxa\" w:w=\"",
        "\"/></w:tcPr><w:p/></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tr/w:tc/w:tcPr/w:tcW",
        "w:w",
        false,
        false,
    ),
];
fn at(p: &Place, from: &str, to: &str, (s, v): (String, i64)) {
    let before = p.0.replace(from, to);
    let body = [before.as_bytes(), s.as_bytes(), p.1.as_bytes()].concat();
    let Some(e) = again(p.2, &package(p.2, &body)) else { return };
    let found = match p.3.split_once('/') {
        Some(("w:style", rest)) => e.els().find(|s| s.attr("w:styleId") == Some(b"a")).and_then(|s| last(s, rest)),
        _ => last(&e, p.3),
    };
    let id = format!("{} {}", p.3, p.4);
    // no indentation of a table is said by saying nothing
    if v == 0 && found.is_none() && p.3.ends_with("tblInd") {
        return;
    }
    let got = found.and_then(|f| f.attr(p.4));
    sx::check_eq(got.unwrap_or(b"(nothing)"), v.to_string().as_bytes(), &id);
    if !to.is_empty() {
        sx::check_eq(found.and_then(|f| f.attr("w:type")).unwrap_or(b"(nothing)"), b"pct", &id);
    }
}

/// whole and fractional numbers, and numbers of points
#[no_mangle]
pub extern "C-unwind" fn h_c22_lengths() {
    let p = &PLACES[sx::choice(PLACES.len())];
    let l = length(p.5, false, p.6);
    at(p, "", "", l);
    sx::reach("end");
}
/// percentages of the width of a table
#[no_mangle]
pub extern "C-unwind" fn h_c22_percent() {
    let p = &PLACES[PLACES.len() - 2 + sx::choice(2)];
    let l = length(false, true, false);
    at(p, "dxa", "pct", l);
    sx::reach("end");
}
