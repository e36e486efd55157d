//! C23: on/off values mean the same in every spelling
use super::util::*;
use crate::sx;
use docx_rs::*;

const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";

/// one of the spellings of on and off (`None`: no value at all)
fn value() -> (Option<Vec<u8>>, bool) {
    let n = sx::choice(6);
    if n == 0 {
        return (None, true);
    }
    let v: Vec<u8> = (0..n).map(|_| sx::byte(b'0', b'z')).collect();
    let (on, off): (&[u8], &[&[u8]]) = match n {
        1 => (b"1", &[b"0"]),
        2 => (b"on", &[]),
        3 => (b"", &[b"off"]),
        4 => (b"true", &[]),
        _ => (b"", &[b"false"]),
    };
    let is_on = v == on;
    let is_off = off.iter().any(|o| v == *o);
    sx::assume(is_on || is_off);
    (Some(v), is_on)
}
fn means_on(v: Option<&[u8]>) -> bool {
    matches!(v, None | Some(b"true") | Some(b"1") | Some(b"on"))
}
fn means_off(v: Option<&[u8]>) -> bool {
    matches!(v, Some(b"false") | Some(b"0") | Some(b"off"))
}

/// name, and whether the reader keeps an explicit off
type Toggle = (&'static str, bool);
const RUN: [Toggle; 7] = [
    ("w:b", true),
    ("w:i", true),
    ("w:caps", true),
    ("w:strike", true),
    ("w:dstrike", true),
    ("w:vanish", false),
    ("w:specVanish", false),
];
const PARA: [Toggle; 5] =
    [("w:keepNext", false), ("w:keepLines", false), ("w:pageBreakBefore", false), ("w:widowControl", false), ("w:snapToGrid", true)];

/// all toggles of a kind: one with any spelling of any state, the others
/// alternately on and off
fn write(ts: &[Toggle], o: &mut Vec<u8>) -> Vec<Option<bool>> {
    let k = sx::choice(ts.len());
    let turn = sx::choice(2);
    let mut on = vec![];
    for (i, (n, _)) in ts.iter().enumerate() {
        // one kind of strike replaces the other
        if *n == "w:dstrike" && i != k || *n == "w:strike" && ts[k].0 == "w:dstrike" {
            on.push(None);
            continue;
        }
        let (v, s) = if i == k {
            value()
        } else if i % 2 == turn {
            (Some(b"0".to_vec()), false)
        } else {
            (None, true)
        };
        o.push(b'<');
        o.extend_from_slice(n.as_bytes());
        if let Some(v) = v {
            o.extend_from_slice(b" w:val=\"");
            o.extend_from_slice(&v);
            o.push(b'"');
        }
        o.extend_from_slice(b"/>");
        on.push(Some(s));
    }
    on
}
fn expect(ts: &[Toggle], on: &[Option<bool>], e: Option<&El>) {
    for ((n, keeps), on) in ts.iter().zip(on) {
        let got = e.and_then(|e| e.child(n));
        let Some(on) = on else { continue };
        let id = format!("{} {}", n, if *on { "on" } else { "off" });
        match got {
            Some(g) if *on => sx::check(means_on(g.attr("w:val")), &id),
            Some(g) => sx::check(means_off(g.attr("w:val")), &id),
            None => sx::check(!*on && !*keeps, &id),
        }
    }
}

/// where run properties can be: (before, after, part, path)
type Spot = (&'static str, &'static str, &'static str, &'static str);
const RUN_AT: [Spot; 12] = [
    ("<w:p><w:r><w:rPr>", "</w:rPr><w:t>x</w:t></w:r></w:p>", "", "w:body/w:p/w:r/w:rPr"),
    ("<w:p><w:pPr><w:rPr>", "</w:rPr></w:pPr></w:p>", "", "w:body/w:p/w:pPr/w:rPr"),
    ("<w:p><w:hyperlink w:anchor=\"a\"><w:r><w:rPr>", "</w:rPr><w:t>x</w:t></w:r></w:hyperlink></w:p>", "", "w:body/w:p/w:hyperlink/w:r/w:rPr"),
    (
        "<w:p><w:ins w:id=\"1\" w:author=\"a\" w:date=\"2020-01-01T00:00:00Z\"><w:r><w:rPr>",
        "</w:rPr><w:t>x</w:t></w:r></w:ins></w:p>",
        "",
        "w:body/w:p/w:ins/w:r/w:rPr",
    ),
    (
        "<w:p><w:del w:id=\"1\" w:author=\"a\" w:date=\"2020-01-01T00:00:00Z\"><w:r><w:rPr>",
        "</w:rPr><w:delText>x</w:delText></w:r></w:del></w:p>",
        "",
        "w:body/w:p/w:del/w:r/w:rPr",
    ),
    (
        "<w:tbl><w:tblPr/><w:tblGrid/><w:tr><w:tc><w:tcPr/><w:p><w:r><w:rPr>",
        "</w:rPr><w:t>x</w:t></w:r></w:p></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tr/w:tc/w:p/w:r/w:rPr",
    ),
    (
        "<w:sdt><w:sdtPr/><w:sdtContent><w:p><w:r><w:rPr>",
        "</w:rPr><w:t>x</w:t></w:r></w:p></w:sdtContent></w:sdt>",
        "",
        "w:body/w:sdt/w:sdtContent/w:p/w:r/w:rPr",
    ),
    (
        "<w:style w:type=\"character\" w:styleId=\"a\"><w:name w:val=\"a\"/><w:rPr>",
        "</w:rPr></w:style>",
        "styles",
        "w:style/w:rPr",
    ),
    (
        "<w:docDefaults><w:rPrDefault><w:rPr>",
        "</w:rPr></w:rPrDefault></w:docDefaults>",
        "styles",
        "w:docDefaults/w:rPrDefault/w:rPr",
    ),
    (
        "<w:abstractNum w:abstractNumId=\"2\"><w:lvl w:ilvl=\"0\"><w:start w:val=\"1\"/><w:numFmt w:val=\"decimal\"/><w:lvlText w:val=\"a\"/><w:lvlJc w:val=\"left\"/><w:rPr>",
        "</w:rPr></w:lvl></w:abstractNum><w:num w:numId=\"2\"><w:abstractNumId w:val=\"2\"/></w:num>",
        "numbering",
        "w:abstractNum/w:lvl/w:rPr",
    ),
    ("<w:p><w:r><w:rPr>", "</w:rPr><w:t>x</w:t></w:r></w:p>", "header", "w:p/w:r/w:rPr"),
    ("<w:p><w:r><w:rPr>", "</w:rPr><w:t>x</w:t></w:r></w:p>", "footer", "w:p/w:r/w:rPr"),
];
const PARA_AT: [Spot; 7] = [
    ("<w:p><w:pPr>", "</w:pPr></w:p>", "", "w:body/w:p/w:pPr"),
    (
        "<w:tbl><w:tblPr/><w:tblGrid/><w:tr><w:tc><w:tcPr/><w:p><w:pPr>",
        "</w:pPr></w:p></w:tc></w:tr></w:tbl>",
        "",
        "w:body/w:tbl/w:tr/w:tc/w:p/w:pPr",
    ),
    ("<w:sdt><w:sdtPr/><w:sdtContent><w:p><w:pPr>", "</w:pPr></w:p></w:sdtContent></w:sdt>", "", "w:body/w:sdt/w:sdtContent/w:p/w:pPr"),
    ("<w:style w:type=\"paragraph\" w:styleId=\"a\"><w:name w:val=\"a\"/><w:pPr>", "</w:pPr></w:style>", "styles", "w:style/w:pPr"),
    (
        "<w:abstractNum w:abstractNumId=\"2\"><w:lvl w:ilvl=\"0\"><w:start w:val=\"1\"/><w:numFmt w:val=\"decimal\"/><w:lvlText w:val=\"a\"/><w:lvlJc w:val=\"left\"/><w:pPr>",
        "</w:pPr></w:lvl></w:abstractNum><w:num w:numId=\"2\"><w:abstractNumId w:val=\"2\"/></w:num>",
        "numbering",
        "w:abstractNum/w:lvl/w:pPr",
    ),
    ("<w:p><w:pPr>", "</w:pPr></w:p>", "header", "w:p/w:pPr"),
    ("<w:p><w:pPr>", "</w:pPr></w:p>", "footer", "w:p/w:pPr"),
];
/// the package with `body` in the named part
pub fn package(kind: &str, body: &[u8]) -> Vec<u8> {
    let around = |tag: &str| {
        let mut v = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><w:{}{}>", tag, NS).into_bytes();
        v.extend_from_slice(body);
        v.extend_from_slice(format!("</w:{}>", tag).as_bytes());
        v
    };
    let rel = format!("{}{}", R, kind);
    match kind {
        "" => mini(&doc_around(body)),
        "header" | "footer" => {
            let d = format!("<w:p/><w:sectPr><w:{}Reference w:type=\"default\" r:id=\"rId1\"/></w:sectPr>", kind);
            mini_with(&doc_around(d.as_bytes()), &rel, &format!("{}1.xml", kind), &around(if kind == "header" { "hdr" } else { "ftr" }))
        }
        _ => mini_with(&doc_around(b"<w:p/>"), &rel, &format!("{}.xml", kind), &around(kind)),
    }
}
/// read, write again, and find the part
pub fn again(kind: &str, b: &[u8]) -> Option<El> {
    let d = read_ok(b, "readable")?;
    let name = match kind {
        "" => "word/document.xml".to_string(),
        "header" | "footer" => format!("word/{}1.xml", kind),
        _ => format!("word/{}.xml", kind),
    };
    let out = pack(d);
    let parts = unzip(&out);
    let found = parts.iter().find(|(n, _)| *n == name);
    sx::check(found.is_some(), "part written");
    part(&found?.1, "well-formed")
}
pub fn last<'a>(e: &'a El, path: &str) -> Option<&'a El> {
    let mut e = e;
    for n in path.split('/') {
        e = e.els().filter(|x| x.name == n).last()?;
    }
    Some(e)
}
fn check(ts: &[Toggle], spot: &Spot) {
    let mut body = spot.0.as_bytes().to_vec();
    let on = write(ts, &mut body);
    body.extend_from_slice(spot.1.as_bytes());
    let Some(e) = again(spot.2, &package(spot.2, &body)) else { return };
    // written documents hold further styles and numberings: take the one named here
    let found = match spot.3.split_once('/') {
        Some(("w:style", rest)) => e.els().find(|s| s.attr("w:styleId") == Some(b"a")).and_then(|s| last(s, rest)),
        Some(("w:abstractNum", rest)) => e.els().find(|s| s.attr("w:abstractNumId") == Some(b"2")).and_then(|s| last(s, rest)),
        _ => last(&e, spot.3),
    };
    expect(ts, &on, found);
}

/// on/off properties of runs
#[no_mangle]
pub extern "C-unwind" fn h_c23_runs() {
    check(&RUN, &RUN_AT[sx::choice(RUN_AT.len())]);
    sx::reach("end");
}
/// on/off properties of paragraphs
#[no_mangle]
pub extern "C-unwind" fn h_c23_paragraphs() {
    check(&PARA, &PARA_AT[sx::choice(PARA_AT.len())]);
    sx::reach("end");
}
/// on/off elements and attributes elsewhere
#[no_mangle]
pub extern "C-unwind" fn h_c23_others() {
    let (v, on) = value();
    let at = sx::choice(9);
    let attr = |n: &str| {
        let mut o = vec![];
        if let Some(v) = &v {
            o.push(b' ');
            o.extend_from_slice(n.as_bytes());
            o.extend_from_slice(b"=\"");
            o.extend_from_slice(v);
            o.push(b'"');
        }
        o
    };
    let join = |a: &str, b: &[u8], c: &str| [a.as_bytes(), b, c.as_bytes()].concat();
    let val = attr("w:val");
    let state = |e: Option<&El>| match e {
        None => false,
        Some(e) => means_on(e.attr("w:val")),
    };
    // attributes without a value have their own defaults
    if at > 4 {
        sx::assume(v.is_some());
    }
    match at {
        0 => {
            let b = join("<w:p/><w:sectPr><w:titlePg", &val, "/></w:sectPr>");
            let Some(e) = again("", &package("", &b)) else { return };
            sx::check(state(e.at("w:body/w:sectPr/w:titlePg")) == on, "titlePg");
        }
        1 => {
            let b = join("<w:p><w:pPr><w:sectPr><w:titlePg", &val, "/></w:sectPr></w:pPr></w:p><w:p/><w:sectPr/>");
            let Some(e) = again("", &package("", &b)) else { return };
            sx::check(state(e.at("w:body/w:p/w:pPr/w:sectPr/w:titlePg")) == on, "titlePg of an inner section");
        }
        2 => {
            let b = join("<w:evenAndOddHeaders", &val, "/>");
            let Some(e) = again("settings", &package("settings", &b)) else { return };
            sx::check(state(e.at("w:evenAndOddHeaders")) == on, "evenAndOddHeaders");
        }
        3 => {
            let b = join("<w:compat><w:adjustLineHeightInTable", &val, "/></w:compat>");
            let Some(e) = again("settings", &package("settings", &b)) else { return };
            sx::check(state(e.at("w:compat/w:adjustLineHeightInTable")) == on, "adjustLineHeightInTable");
        }
        4 => {
            let b = join(
                "<w:abstractNum w:abstractNumId=\"2\"><w:lvl w:ilvl=\"0\"><w:start w:val=\"1\"/><w:numFmt w:val=\"decimal\"/><w:isLgl",
                &val,
                "/><w:lvlText w:val=\"a\"/><w:lvlJc w:val=\"left\"/></w:lvl></w:abstractNum><w:num w:numId=\"2\"><w:abstractNumId w:val=\"2\"/></w:num>",
            );
            let Some(e) = again("numbering", &package("numbering", &b)) else { return };
            let l = e.els().find(|s| s.attr("w:abstractNumId") == Some(b"2")).and_then(|s| last(s, "w:lvl/w:isLgl"));
            sx::check(state(l) == on, "isLgl");
        }
        5 => {
            let b = join("<w:p><w:r><w:fldChar w:fldCharType=\"begin\"", &attr("w:dirty"), "/></w:r></w:p>");
            let Some(e) = again("", &package("", &b)) else { return };
            let f = e.at("w:body/w:p/w:r/w:fldChar");
            sx::check(f.is_some(), "field character");
            let d = f.and_then(|f| f.attr("w:dirty"));
            sx::check((d.is_some() && means_on(d)) == on, "dirty");
        }
        6 => {
            let ext = join("<w15:commentEx w15:paraId=\"00000001\"", &attr("w15:done"), "/>");
            let ext = join(
                &format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><w15:commentsEx{}>", NS),
                &ext,
                "</w15:commentsEx>",
            );
            let com = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><w:comments{}><w:comment w:id=\"1\" w:author=\"a\" w:date=\"2020-01-01T00:00:00Z\"><w:p w14:paraId=\"00000001\"/></w:comment></w:comments>", NS);
            let rels = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{}comments\" Target=\"comments.xml\"/><Relationship Id=\"rId2\" Type=\"http://schemas.microsoft.com/office/2011/relationships/commentsExtended\" Target=\"commentsExtended.xml\"/></Relationships>", R);
            let doc = doc_around(b"<w:p><w:commentRangeStart w:id=\"1\"/><w:r><w:t>x</w:t></w:r><w:commentRangeEnd w:id=\"1\"/><w:r><w:commentReference w:id=\"1\"/></w:r></w:p>");
            let b = zip_parts(&[
                ("[Content_Types].xml", CT.as_bytes()),
                ("_rels/.rels", RELS.as_bytes()),
                ("word/_rels/document.xml.rels", rels.as_bytes()),
                ("word/document.xml", &doc),
                ("word/comments.xml", com.as_bytes()),
                ("word/commentsExtended.xml", &ext),
            ]);
            let Some(d) = read_ok(&b, "readable") else { return };
            sx::check(d.comments_extended.children.len() == 1, "comment state");
            sx::check(d.comments_extended.children.iter().all(|c| c.done == on), "done");
        }
        _ => {
            let n = ["layoutInCell", "allowOverlap"][at - 7];
            let b = join(
                "<w:p><w:r><w:drawing><wp:anchor distT=\"0\" distB=\"0\" distL=\"0\" distR=\"0\" simplePos=\"0\" relativeHeight=\"3\"",
                &attr(n),
                "><wp:extent cx=\"1\" cy=\"1\"/><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/picture\"><pic:pic><pic:blipFill><a:blip r:embed=\"rId5\"/></pic:blipFill><pic:spPr><a:xfrm><a:ext cx=\"1\" cy=\"1\"/></a:xfrm></pic:spPr></pic:pic></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r></w:p>",
            );
            let Some(d) = read_ok(&package("", &b), "readable") else { return };
            let mut seen = false;
            if let Some(DocumentChild::Paragraph(p)) = d.document.children.first() {
                for c in &p.children {
                    let ParagraphChild::Run(r) = c else { continue };
                    for c in &r.children {
                        let RunChild::Drawing(d) = c else { continue };
                        let Some(DrawingData::Pic(p)) = &d.data else { continue };
                        seen = true;
                        sx::check(if at == 7 { p.layout_in_cell } else { p.allow_overlap } == on, n);
                    }
                }
            }
            sx::check(seen, "picture");
        }
    }
    sx::reach("end");
}
