//! C13: pictures and text boxes
use super::paragraph::two;
use super::util::*;
use crate::sx;
use docx_rs::*;

const ALIGN: [(PicAlign, &str); 5] = [
    (PicAlign::Left, "left"),
    (PicAlign::Right, "right"),
    (PicAlign::Center, "center"),
    (PicAlign::Bottom, "bottom"),
    (PicAlign::Top, "top"),
];
const FROM_H: [(RelativeFromHType, &str); 8] = [
    (RelativeFromHType::Character, "character"),
    (RelativeFromHType::Column, "column"),
    (RelativeFromHType::InsideMargin, "insideMargin"),
    (RelativeFromHType::LeftMargin, "leftMargin"),
    (RelativeFromHType::Margin, "margin"),
    (RelativeFromHType::OutsizeMargin, "outsideMargin"),
    (RelativeFromHType::Page, "page"),
    (RelativeFromHType::RightMargin, "rightMargin"),
];
const FROM_V: [(RelativeFromVType, &str); 8] = [
    (RelativeFromVType::BottomMargin, "bottomMargin"),
    (RelativeFromVType::InsideMargin, "insideMargin"),
    (RelativeFromVType::Line, "line"),
    (RelativeFromVType::Margin, "margin"),
    (RelativeFromVType::OutsizeMargin, "outsideMargin"),
    (RelativeFromVType::Page, "page"),
    (RelativeFromVType::Paragraph, "paragraph"),
    (RelativeFromVType::TopMargin, "topMargin"),
];

/// What a picture is meant to look like.
struct Look {
    floating: bool,
    size: (u32, u32),
    rot: u32,
    h: (String, bool, &'static str),
    v: (String, bool, &'static str),
    dist: [i32; 4],
    simple: bool,
    at: (i32, i32),
    height: u32,
    overlap: bool,
    in_cell: bool,
}
fn base(floating: bool) -> (Pic, Look) {
    let p = Pic::new_with_dimensions(vec![1, 2, 3], 2, 3);
    let p = if floating { p.floating() } else { p };
    let l = Look {
        floating,
        size: (2 * 9525, 3 * 9525),
        rot: 0,
        h: ("0".into(), false, "margin"),
        v: ("0".into(), false, "margin"),
        dist: [0; 4],
        simple: false,
        at: (0, 0),
        height: 190500,
        overlap: false,
        in_cell: false,
    };
    (p, l)
}
fn signed(wide: bool) -> i32 {
    let n = if wide { sx::i32v(0, 9_999) } else { two() as i32 };
    if wide && sx::choice(2) == 1 {
        -n
    } else {
        n
    }
}
const SETTERS: usize = 11;
fn set(k: usize, p: Pic, l: &mut Look, wide: bool) -> Pic {
    match k {
        0 => {
            let (w, h) = match wide {
                true if sx::choice(2) == 0 => (u32w(), 7),
                true => (7, u32w()),
                _ => (two(), two()),
            };
            l.size = (w, h);
            p.size(w, h)
        }
        1 => {
            // degrees
            let d = if wide { sx::u32v(0, 359) } else { 45 };
            l.rot = d;
            p.rotate(d as u16)
        }
        2 => {
            let x = signed(wide);
            l.h = (x.to_string(), false, l.h.2);
            p.offset_x(x)
        }
        3 => {
            let y = signed(wide);
            l.v = (y.to_string(), false, l.v.2);
            p.offset_y(y)
        }
        4 => {
            let (a, n) = if wide { pick(&ALIGN) } else { ALIGN[2] };
            l.h = (n.into(), true, l.h.2);
            p.position_h(DrawingPosition::Align(a))
        }
        5 => {
            let (a, n) = if wide { pick(&ALIGN) } else { ALIGN[3] };
            l.v = (n.into(), true, l.v.2);
            p.position_v(DrawingPosition::Align(a))
        }
        6 => {
            let (a, n) = if wide { pick(&FROM_H) } else { FROM_H[5] };
            l.h.2 = n;
            p.relative_from_h(a)
        }
        7 => {
            let (a, n) = if wide { pick(&FROM_V) } else { FROM_V[4] };
            l.v.2 = n;
            p.relative_from_v(a)
        }
        8 => {
            // unsigned in the file format
            let i = sx::choice(4);
            let n = if wide { sx::i32v(0, 9_999) } else { two() as i32 };
            l.dist[i] = n;
            match i {
                0 => p.dist_t(n),
                1 => p.dist_b(n),
                2 => p.dist_l(n),
                _ => p.dist_r(n),
            }
        }
        9 => {
            l.simple = true;
            let mut p = p.simple_pos(true);
            let x = signed(wide);
            l.at = if wide && sx::choice(2) == 1 { (5, x) } else { (x, 6) };
            p.simple_pos_x = l.at.0;
            p.simple_pos_y = l.at.1;
            if wide && sx::choice(2) == 1 {
                l.in_cell = true;
                p.layout_in_cell = true;
            }
            p
        }
        _ => {
            let n = if wide { sx::u32v(0, 9_999) } else { two() };
            l.height = n;
            l.overlap = l.floating;
            let p = p.relative_height(n);
            if l.floating {
                p.overlapping()
            } else {
                p
            }
        }
    }
}
fn num(e: Option<&El>, a: &str, v: &str, id: &str) {
    sx::check_eq(e.and_then(|e| e.attr(a)).unwrap_or(b"(none)"), v.as_bytes(), id);
}
fn onoff(e: Option<&El>, a: &str, v: bool, id: &str) {
    let g = e.and_then(|e| e.attr(a)).unwrap_or(b"(none)");
    let ok = if v { g == b"1" || g == b"true" } else { g == b"0" || g == b"false" };
    sx::check(ok, id);
}
fn verify(d: &El, l: &Look, id: &str) {
    let name = if l.floating { "wp:anchor" } else { "wp:inline" };
    let mut v = vec![];
    d.all("w:drawing", &mut v);
    sx::check(v.len() == 1, "one drawing");
    let Some(a) = v.first().and_then(|v| v.child(name)) else {
        return sx::check(false, "kind of drawing");
    };
    for (n, v) in ["distT", "distB", "distL", "distR"].iter().zip(l.dist) {
        num(Some(a), n, &v.to_string(), id);
    }
    num(a.child("wp:extent"), "cx", &l.size.0.to_string(), id);
    num(a.child("wp:extent"), "cy", &l.size.1.to_string(), id);
    let x = a.at("a:graphic/a:graphicData/pic:pic/pic:spPr/a:xfrm");
    num(x.and_then(|x| x.child("a:ext")), "cx", &l.size.0.to_string(), id);
    num(x.and_then(|x| x.child("a:ext")), "cy", &l.size.1.to_string(), id);
    num(x, "rot", &(l.rot * 60_000).to_string(), id);
    if !l.floating {
        sx::check(a.child("wp:wrapNone").is_none() && a.child("wp:wrapSquare").is_none(), "wrapping");
        return;
    }
    for (n, w) in [("wp:positionH", &l.h), ("wp:positionV", &l.v)] {
        let p = a.child(n);
        num(p, "relativeFrom", w.2, id);
        let (yes, no) = if w.1 { ("wp:align", "wp:posOffset") } else { ("wp:posOffset", "wp:align") };
        sx::check_eq(&p.and_then(|p| p.child(yes)).map(|e| e.text()).unwrap_or_default(), w.0.as_bytes(), id);
        sx::check(p.is_some_and(|p| p.child(no).is_none()), id);
    }
    onoff(Some(a), "simplePos", l.simple, id);
    num(a.child("wp:simplePos"), "x", &l.at.0.to_string(), id);
    num(a.child("wp:simplePos"), "y", &l.at.1.to_string(), id);
    num(Some(a), "relativeHeight", &l.height.to_string(), id);
    onoff(Some(a), "allowOverlap", l.overlap, id);
    onoff(Some(a), "layoutInCell", l.in_cell, id);
}
fn pic_of(d: &Docx) -> Option<&Pic> {
    let DocumentChild::Paragraph(p) = d.document.children.first()? else { return None };
    let ParagraphChild::Run(r) = p.children.first()? else { return None };
    let RunChild::Drawing(d) = r.children.first()? else { return None };
    match d.data.as_ref()? {
        DrawingData::Pic(p) => Some(p),
        _ => None,
    }
}
fn check(p: Pic, l: &Look) {
    let x = Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(p.clone()))).build();
    sx::obs(&x.document);
    let Some(e) = part(&x.document, "wf") else { return };
    verify(&e, l, "written");
    let Some(r) = read_ok(&mini(&x.document), "readable") else { return };
    let Some(q) = pic_of(&r) else {
        return sx::check(false, "picture read");
    };
    sx::check(q.size == p.size, "size read");
    sx::check(q.rot == p.rot, "rotation read");
    sx::check(q.position_type == p.position_type, "kind read");
    sx::check((q.dist_t, q.dist_b, q.dist_l, q.dist_r) == (p.dist_t, p.dist_b, p.dist_l, p.dist_r), "distances read");
    if l.floating {
        sx::check((q.position_h, q.position_v) == (p.position_h, p.position_v), "position read");
        sx::check((q.relative_from_h, q.relative_from_v) == (p.relative_from_h, p.relative_from_v), "reference read");
        sx::check((q.simple_pos, q.simple_pos_x, q.simple_pos_y) == (p.simple_pos, p.simple_pos_x, p.simple_pos_y), "simple position read");
        sx::check(q.relative_height == p.relative_height, "order read");
        sx::check((q.allow_overlap, q.layout_in_cell) == (p.allow_overlap, p.layout_in_cell), "behaviour read");
    }
    let y = r.build();
    let Some(e) = part(&y.document, "wf") else { return };
    verify(&e, l, "rewritten");
}

/// each setting of a picture
#[no_mangle]
pub extern "C-unwind" fn h_c13_single() {
    let (p, mut l) = base(sx::choice(2) == 1);
    let p = set(sx::choice(SETTERS), p, &mut l, true);
    check(p, &l);
    sx::reach("end");
}

/// settings next to each other, in both orders
#[no_mangle]
pub extern "C-unwind" fn h_c13_pair() {
    let (p, mut l) = base(true);
    let (a, b) = (sx::choice(SETTERS), sx::choice(SETTERS));
    sx::assume(a != b);
    let p = set(a, p, &mut l, false);
    let p = set(b, p, &mut l, false);
    check(p, &l);
    sx::reach("end");
}

/// the size follows from the pixels given
#[no_mangle]
pub extern "C-unwind" fn h_c13_pixels() {
    let (w, h) = if sx::choice(2) == 0 { (sx::u32v(0, 99_999), 3) } else { (3, sx::u32v(0, 99_999)) };
    let p = Pic::new_with_dimensions(vec![1], w, h);
    sx::check(p.size == (w * 9525, h * 9525), "size in EMU");
    sx::reach("end");
}

/// pictures and text boxes other programs write
#[no_mangle]
pub extern "C-unwind" fn h_c13_foreign() {
    let n = sx::u32v(0, 9_999);
    let neg = sx::choice(2) == 1;
    let off = if neg { -(n as i32) } else { n as i32 };
    let (yes, no) = pick(&[("1", "0"), ("true", "false")]);
    let layout = match sx::choice(3) {
        0 => None,
        1 => Some(yes),
        _ => Some(no),
    };
    let cell = layout.map(|l| format!(" layoutInCell=\"{l}\"")).unwrap_or_default();
    let (ph, want_h) = match sx::choice(2) {
        0 => (format!("<wp:posOffset>{off}</wp:posOffset>"), DrawingPosition::Offset(off)),
        _ => ("<wp:align>right</wp:align>".to_string(), DrawingPosition::Align(PicAlign::Right)),
    };
    let sp = pick(&["", "\n  "]);
    let boxed = sx::choice(2) == 1;
    let t = format!("t{}", two());
    let graphic = if boxed {
        format!(
            "<wps:wsp><wps:cNvSpPr txBox=\"1\"/><wps:spPr><a:xfrm><a:off x=\"0\" y=\"0\"/><a:ext cx=\"5\" cy=\"6\"/></a:xfrm></wps:spPr>\
             <wps:txbx><w:txbxContent><w:p><w:r><w:t>{t}</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl></w:txbxContent></wps:txbx><wps:bodyPr/></wps:wsp>"
        )
    } else {
        "<pic:pic><pic:nvPicPr><pic:cNvPr id=\"1\" name=\"x\"/><pic:cNvPicPr/></pic:nvPicPr><pic:blipFill><a:blip r:embed=\"rId7\"/><a:stretch><a:fillRect/></a:stretch></pic:blipFill>\
         <pic:spPr><a:xfrm rot=\"-5400000\"><a:off x=\"0\" y=\"0\"/><a:ext cx=\"5\" cy=\"6\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom></pic:spPr></pic:pic>"
            .to_string()
    };
    let body = format!(
        "<w:p><w:r><w:drawing>{sp}<wp:anchor distT=\"1\" distB=\"2\" distL=\"3\" distR=\"4\" simplePos=\"{no}\" relativeHeight=\"9\" behindDoc=\"0\" locked=\"0\"{cell} allowOverlap=\"{yes}\">{sp}\
         <wp:simplePos x=\"0\" y=\"0\"/><wp:positionH relativeFrom=\"column\">{sp}{ph}{sp}</wp:positionH><wp:positionV relativeFrom=\"paragraph\"><wp:posOffset>12</wp:posOffset></wp:positionV>\
         <wp:extent cx=\"5\" cy=\"6\"/><wp:effectExtent l=\"0\" t=\"0\" r=\"0\" b=\"0\"/><wp:wrapSquare wrapText=\"bothSides\"/><wp:docPr id=\"1\" name=\"x\"/><wp:cNvGraphicFramePr/>\
         <a:graphic><a:graphicData uri=\"u\">{sp}{graphic}{sp}</a:graphicData></a:graphic>{sp}</wp:anchor>{sp}</w:drawing><w:t>after</w:t></w:r></w:p>"
    );
    let Some(d) = read_ok(&mini(&doc_around(body.as_bytes())), "readable") else { return };
    let Some(DocumentChild::Paragraph(p)) = d.document.children.first() else {
        return sx::check(false, "paragraph");
    };
    let Some(ParagraphChild::Run(r)) = p.children.first() else {
        return sx::check(false, "run");
    };
    sx::check(r.children.len() == 2 && r.children.get(1) == Some(&RunChild::Text(Text::new("after"))), "text after");
    let Some(RunChild::Drawing(w)) = r.children.first() else {
        return sx::check(false, "drawing");
    };
    let want_cell = layout != Some(no);
    match w.data.as_ref() {
        Some(DrawingData::Pic(q)) if !boxed => {
            sx::check(q.position_h == want_h && q.position_v == DrawingPosition::Offset(12), "position");
            sx::check((q.relative_from_h, q.relative_from_v) == (RelativeFromHType::Column, RelativeFromVType::Paragraph), "reference");
            sx::check((q.dist_t, q.dist_b, q.dist_l, q.dist_r) == (1, 2, 3, 4), "distances");
            sx::check(q.size == (5, 6) && q.rot == 270 && q.relative_height == 9, "size and rotation");
            sx::check(q.allow_overlap && q.layout_in_cell == want_cell && !q.simple_pos, "behaviour");
            sx::check(q.id == "rId7", "picture named");
        }
        Some(DrawingData::TextBox(q)) if boxed => {
            sx::check(q.position_h == want_h && q.position_v == DrawingPosition::Offset(12), "position");
            sx::check((q.relative_from_h, q.relative_from_v) == (RelativeFromHType::Column, RelativeFromVType::Paragraph), "reference");
            sx::check((q.dist_t, q.dist_b, q.dist_l, q.dist_r) == (1, 2, 3, 4), "distances");
            sx::check(q.allow_overlap && q.layout_in_cell == want_cell && !q.simple_pos, "behaviour");
            sx::check(q.children.len() == 2, "content of the box");
            let ok = match q.children.first() {
                Some(TextBoxContentChild::Paragraph(p)) => p.raw_text() == t,
                _ => false,
            };
            sx::check(ok, "text of the box");
        }
        _ => sx::check(false, "kind of drawing"),
    }
    sx::reach("end");
}
/// the bytes of pictures are read, under the ids the content uses
#[no_mangle]
pub extern "C-unwind" fn h_c13_images() {
    let bytes = |k: usize| {
        let mut v = super::docgen::png(k);
        v.push(sx::byte(0, 255));
        v
    };
    let (a, b) = (bytes(1), bytes(2));
    let q = |v: &Vec<u8>| Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(v.clone(), 10, 20)));
    let (x, y) = (q(&a), q(&b));
    let (h, f) = (Header::new().add_paragraph(x.clone()), Footer::new().add_paragraph(x.clone()));
    let d = Docx::new();
    let d = match sx::choice(9) {
        0 => d.add_paragraph(x),
        1 => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(x)])])),
        2 => d.header(h),
        3 => d.first_header(h),
        4 => d.even_header(h),
        5 => d.footer(f),
        6 => d.first_footer(f),
        7 => d.even_footer(f),
        _ => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(x)),
    };
    let d = match sx::choice(4) {
        0 => d,
        1 => d.add_paragraph(y),
        // the places taken above come first
        2 => {
            sx::assume(d.document.section_property.header.is_none());
            d.header(Header::new().add_paragraph(y))
        }
        _ => {
            sx::assume(d.document.section_property.even_footer.is_none());
            d.even_footer(Footer::new().add_paragraph(y))
        }
    };
    let z = pack(d);
    let two = unzip(&z).iter().filter(|x| x.0.starts_with("word/media/")).count();
    let Some(r) = read_ok(&z, "readable") else { return };
    sx::check(r.images.len() == two, "number of pictures");
    for v in [a, b].iter().take(two) {
        let Some(i) = r.images.iter().find(|i| i.2 .0.len() == v.len() && i.2 .0[8] == v[8]) else {
            sx::check(false, "picture read");
            return;
        };
        sx::check_eq(&i.2 .0, v, "bytes of the picture");
        let used = format!("r:embed=\"{}\"", i.0);
        let found = unzip(&z).iter().any(|(n, d)| is_xml(n) && d.windows(used.len()).any(|w| w == used.as_bytes()));
        sx::check(found, "id of the picture");
    }
    sx::reach("end");
}
/// pictures in the older drawing language
#[no_mangle]
pub extern "C-unwind" fn h_c13_vml() {
    let s = format!("width:{}pt;height:{}pt", two(), two());
    let id = format!("rId{}", two());
    let style = sx::choice(2) == 1;
    let image = sx::choice(2) == 1;
    let more = pick(&["", "<v:stroke on=\"f\"/>", "<v:fill/><v:path/>"]);
    let body = format!(
        "<w:p><w:r><w:pict><v:shape id=\"s\"{}>{more}{}{more}</v:shape></w:pict><w:t>after</w:t></w:r></w:p>",
        if style { format!(" style=\"{s}\"") } else { String::new() },
        if image { format!("<v:imagedata r:id=\"{id}\" o:title=\"t\"/>") } else { String::new() },
    );
    let Some(d) = read_ok(&mini(&doc_around(body.as_bytes())), "readable") else { return };
    let Some(DocumentChild::Paragraph(p)) = d.document.children.first() else {
        return sx::check(false, "paragraph");
    };
    let Some(ParagraphChild::Run(r)) = p.children.first() else {
        return sx::check(false, "run");
    };
    sx::check(r.children.get(1) == Some(&RunChild::Text(Text::new("after"))), "text after");
    let Some(RunChild::Shape(w)) = r.children.first() else {
        return sx::check(false, "shape");
    };
    sx::check(w.style.as_deref() == style.then_some(&s[..]), "style of the shape");
    sx::check(w.image_data.as_ref().map(|i| &i.id[..]) == image.then_some(&id[..]), "picture of the shape");
    sx::reach("end");
}
