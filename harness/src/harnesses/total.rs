//! C15/C16 reading anything
use super::util::*;
use crate::sx;
use docx_rs::*;

const R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
/// parts of the package: relationship type, name below word/, root element
const PARTS: &[(&str, &str, &str)] = &[
    ("", "", "w:document"),
    ("header", "header1.xml", "w:hdr"),
    ("footer", "footer1.xml", "w:ftr"),
    ("comments", "comments.xml", "w:comments"),
    ("http://schemas.microsoft.com/office/2011/relationships/commentsExtended", "commentsExtended.xml", "w15:commentsEx"),
    ("styles", "styles.xml", "w:styles"),
    ("numbering", "numbering.xml", "w:numbering"),
    ("settings", "settings.xml", "w:settings"),
    ("webSettings", "webSettings.xml", "w:webSettings"),
    ("theme", "theme/theme1.xml", "a:theme"),
    ("custom-properties", "custom.xml", "Properties"),
];
/// elements which have element readers of their own, by the path to them
const PATHS: &[&str] = &[
    "w:document",
    "w:document|w:body",
    "w:document|w:body|w:p",
    "w:document|w:body|w:p|w:pPr",
    "w:document|w:body|w:p|w:pPr|w:numPr",
    "w:document|w:body|w:p|w:pPr|w:tabs",
    "w:document|w:body|w:p|w:pPr|w:pBdr",
    "w:document|w:body|w:p|w:pPr|w:rPr",
    "w:document|w:body|w:p|w:pPr|w:framePr",
    "w:document|w:body|w:p|w:pPr|w:sectPr",
    "w:document|w:body|w:p|w:pPr|w:pPrChange w:id='1'|w:pPr",
    "w:document|w:body|w:p|w:r",
    "w:document|w:body|w:p|w:r|w:rPr",
    "w:document|w:body|w:p|w:r|w:rPr|w:rPrChange w:id='1'|w:rPr",
    "w:document|w:body|w:p|w:r|w:t",
    "w:document|w:body|w:p|w:r|w:delText",
    "w:document|w:body|w:p|w:r|w:instrText",
    "w:document|w:body|w:p|w:r|w:fldChar w:fldCharType='begin'",
    "w:document|w:body|w:p|w:r|w:drawing",
    "w:document|w:body|w:p|w:r|w:drawing|wp:inline",
    "w:document|w:body|w:p|w:r|w:drawing|wp:inline|a:graphic|a:graphicData uri='http://schemas.openxmlformats.org/drawingml/2006/picture'",
    "w:document|w:body|w:p|w:r|w:drawing|wp:inline|a:graphic|a:graphicData uri='http://schemas.openxmlformats.org/drawingml/2006/picture'|pic:pic",
    "w:document|w:body|w:p|w:r|w:drawing|wp:inline|a:graphic|a:graphicData uri='http://schemas.openxmlformats.org/drawingml/2006/picture'|pic:pic|pic:spPr|a:xfrm",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|wp:positionH",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|wp:positionV",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|a:graphic",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|a:graphic|a:graphicData uri='http://schemas.microsoft.com/office/word/2010/wordprocessingShape'",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|a:graphic|a:graphicData uri='http://schemas.microsoft.com/office/word/2010/wordprocessingShape'|wps:wsp",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|a:graphic|a:graphicData uri='http://schemas.microsoft.com/office/word/2010/wordprocessingShape'|wps:wsp|wps:txbx",
    "w:document|w:body|w:p|w:r|w:drawing|wp:anchor|a:graphic|a:graphicData uri='http://schemas.microsoft.com/office/word/2010/wordprocessingShape'|wps:wsp|wps:txbx|w:txbxContent",
    "w:document|w:body|w:p|w:r|w:pict",
    "w:document|w:body|w:p|w:r|w:pict|v:shape",
    "w:document|w:body|w:p|w:r|w:pict|v:rect|v:textbox",
    "w:document|w:body|w:p|w:r|mc:AlternateContent",
    "w:document|w:body|w:p|w:r|mc:AlternateContent|mc:Choice Requires='wps'",
    "w:document|w:body|w:p|w:r|mc:AlternateContent|mc:Fallback",
    "w:document|w:body|w:p|w:hyperlink w:anchor='a'",
    "w:document|w:body|w:p|w:ins w:id='1'",
    "w:document|w:body|w:p|w:del w:id='1'",
    "w:document|w:body|w:p|w:moveFrom w:id='1'",
    "w:document|w:body|w:p|w:moveTo w:id='1'",
    "w:document|w:body|w:p|w:sdt|w:sdtContent",
    "w:document|w:body|w:sdt",
    "w:document|w:body|w:sdt|w:sdtPr",
    "w:document|w:body|w:sdt|w:sdtContent",
    "w:document|w:body|w:tbl",
    "w:document|w:body|w:tbl|w:tblPr",
    "w:document|w:body|w:tbl|w:tblPr|w:tblBorders",
    "w:document|w:body|w:tbl|w:tblPr|w:tblCellMar",
    "w:document|w:body|w:tbl|w:tblGrid",
    "w:document|w:body|w:tbl|w:tr",
    "w:document|w:body|w:tbl|w:tr|w:trPr",
    "w:document|w:body|w:tbl|w:tr|w:tc",
    "w:document|w:body|w:tbl|w:tr|w:tc|w:tcPr",
    "w:document|w:body|w:tbl|w:tr|w:tc|w:tcPr|w:tcBorders",
    "w:document|w:body|w:tbl|w:tr|w:tc|w:tcPr|w:tcMar",
    "w:document|w:body|w:sectPr",
    "w:hdr",
    "w:ftr",
    "w:comments",
    "w:comments|w:comment w:id='1'",
    "w15:commentsEx",
    "w:styles",
    "w:styles|w:docDefaults",
    "w:styles|w:docDefaults|w:rPrDefault",
    "w:styles|w:docDefaults|w:rPrDefault|w:rPr",
    "w:styles|w:docDefaults|w:pPrDefault",
    "w:styles|w:docDefaults|w:pPrDefault|w:pPr",
    "w:styles|w:style w:type='paragraph' w:styleId='a'",
    "w:styles|w:style w:type='table' w:styleId='a'|w:tblPr",
    "w:numbering",
    "w:numbering|w:abstractNum w:abstractNumId='1'",
    "w:numbering|w:abstractNum w:abstractNumId='1'|w:lvl w:ilvl='0'",
    "w:numbering|w:num w:numId='1'",
    "w:numbering|w:num w:numId='1'|w:lvlOverride w:ilvl='0'",
    "w:settings",
    "w:settings|w:docVars",
    "w:webSettings",
    "w:webSettings|w:divs",
    "w:webSettings|w:divs|w:div w:id='1'",
    "w:webSettings|w:divs|w:div w:id='1'|w:divsChild",
    "a:theme",
    "a:theme|a:themeElements|a:fontScheme",
    "a:theme|a:themeElements|a:fontScheme|a:majorFont",
    "Properties",
    "Properties|property name='a'",
];
const ELEMENTS: &[&str] = &[
    "w:body", "w:p", "w:pPr", "w:r", "w:rPr", "w:t", "w:delText", "w:instrText", "w:delInstrText", "w:fldChar",
    "w:fldSimple", "w:tab", "w:ptab", "w:br", "w:cr", "w:sym", "w:noBreakHyphen", "w:drawing", "w:pict", "w:object",
    "w:hyperlink", "w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:bookmarkStart", "w:bookmarkEnd",
    "w:commentRangeStart", "w:commentRangeEnd", "w:commentReference", "w:footnoteReference", "w:sdt", "w:sdtPr",
    "w:sdtContent", "w:tag", "w:alias", "w:dataBinding", "w:tbl", "w:tblPr", "w:tblGrid", "w:gridCol", "w:tr",
    "w:trPr", "w:tc", "w:tcPr", "w:sectPr", "w:pStyle", "w:rStyle", "w:jc", "w:ind", "w:spacing", "w:numPr",
    "w:ilvl", "w:numId", "w:keepNext", "w:keepLines", "w:pageBreakBefore", "w:widowControl", "w:outlineLvl",
    "w:snapToGrid", "w:textAlignment", "w:adjustRightInd", "w:shd", "w:tabs", "w:pBdr", "w:framePr", "w:divId",
    "w:pPrChange", "w:rPrChange", "w:b", "w:bCs", "w:i", "w:iCs", "w:u", "w:color", "w:sz", "w:szCs", "w:highlight",
    "w:strike", "w:dstrike", "w:vanish", "w:specVanish", "w:caps", "w:rFonts", "w:vertAlign", "w:fitText", "w:bdr",
    "w:tblW", "w:tblInd", "w:tblBorders", "w:tblCellMar", "w:tblStyle", "w:tblLayout", "w:tblpPr", "w:tblPrChange",
    "w:tblGridChange", "w:trPrChange", "w:tcPrChange", "w:trHeight", "w:gridBefore", "w:gridAfter", "w:wBefore",
    "w:wAfter", "w:cantSplit", "w:tcW", "w:gridSpan", "w:vMerge", "w:vAlign", "w:textDirection", "w:tcBorders",
    "w:tcMar", "w:top", "w:left", "w:start", "w:bottom", "w:right", "w:end", "w:insideH", "w:insideV", "w:tl2br",
    "w:tr2bl", "w:between", "w:bar", "w:pgSz", "w:pgMar", "w:cols", "w:docGrid", "w:titlePg", "w:type", "w:pgNumType",
    "w:headerReference", "w:footerReference", "w:hdr", "w:ftr", "w:comments", "w:comment", "w15:commentsEx",
    "w15:commentEx", "w:styles", "w:docDefaults", "w:rPrDefault", "w:pPrDefault", "w:style", "w:name", "w:basedOn",
    "w:next", "w:link", "w:uiPriority", "w:qFormat", "w:numbering", "w:abstractNum", "w:abstractNumId", "w:num",
    "w:lvl", "w:numFmt", "w:lvlText", "w:lvlJc", "w:lvlRestart", "w:suff", "w:isLgl", "w:lvlOverride",
    "w:startOverride", "w:styleLink", "w:numStyleLink", "w:settings", "w:defaultTabStop", "w:zoom",
    "w:adjustLineHeightInTable", "w:characterSpacingControl", "w:evenAndOddHeaders", "w15:docId", "w:docVars",
    "w:docVar", "w:webSettings", "w:divs", "w:div", "w:marLeft", "w:marRight", "w:marTop", "w:marBottom",
    "w:divsChild", "w:txbxContent", "mc:AlternateContent", "mc:Choice", "mc:Fallback", "wp:inline", "wp:anchor",
    "wp:simplePos", "wp:positionH", "wp:positionV", "wp:posOffset", "wp:align", "wp:extent", "wp:effectExtent",
    "wp:wrapNone", "wp:wrapSquare", "wp:docPr", "a:graphic", "a:graphicData", "a:blip", "a:xfrm", "a:off", "a:ext",
    "a:prstGeom", "a:srcRect", "a:solidFill", "a:ln", "a:theme", "a:themeElements", "a:fontScheme", "a:majorFont",
    "a:minorFont", "a:latin", "a:ea", "a:cs", "a:font", "pic:pic", "pic:blipFill", "pic:spPr", "wps:wsp",
    "wps:cNvSpPr", "wps:spPr", "wps:style", "wps:txbx", "wps:bodyPr", "v:rect", "v:shape", "v:stroke", "v:fill",
    "v:textbox", "v:imagedata", "Properties", "property", "vt:lpwstr", "vt:i4", "Relationships", "Relationship",
    "x:unknown",
];
/// attributes by element, each tried on every place where the element has a reader
const ATTRS: &[(&str, &str)] = &[
    ("w:p", "w14:paraId"),
    ("w:numId", "w:val"), ("w:ilvl", "w:val"), ("w:pStyle", "w:val"), ("w:rStyle", "w:val"), ("w:jc", "w:val"),
    ("w:ind", "w:left"), ("w:ind", "w:start"), ("w:ind", "w:right"), ("w:ind", "w:end"), ("w:ind", "w:firstLine"),
    ("w:ind", "w:hanging"), ("w:ind", "w:startChars"), ("w:ind", "w:leftChars"), ("w:ind", "w:firstLineChars"),
    ("w:ind", "w:hangingChars"), ("w:spacing", "w:before"), ("w:spacing", "w:after"), ("w:spacing", "w:line"),
    ("w:spacing", "w:lineRule"), ("w:spacing", "w:beforeLines"), ("w:spacing", "w:afterLines"), ("w:spacing", "w:val"),
    ("w:keepNext", "w:val"), ("w:keepLines", "w:val"), ("w:pageBreakBefore", "w:val"), ("w:widowControl", "w:val"),
    ("w:outlineLvl", "w:val"), ("w:snapToGrid", "w:val"), ("w:textAlignment", "w:val"), ("w:adjustRightInd", "w:val"),
    ("w:shd", "w:val"), ("w:shd", "w:color"), ("w:shd", "w:fill"), ("w:tab", "w:val"), ("w:tab", "w:pos"),
    ("w:tab", "w:leader"), ("w:framePr", "w:wrap"), ("w:framePr", "w:hRule"), ("w:framePr", "w:hAnchor"),
    ("w:framePr", "w:vAnchor"), ("w:framePr", "w:hSpace"), ("w:framePr", "w:vSpace"), ("w:framePr", "w:w"),
    ("w:framePr", "w:h"), ("w:framePr", "w:x"), ("w:framePr", "w:y"), ("w:framePr", "w:xAlign"),
    ("w:framePr", "w:yAlign"), ("w:divId", "w:val"), ("w:pPrChange", "w:date"), ("w:b", "w:val"), ("w:bCs", "w:val"),
    ("w:i", "w:val"), ("w:iCs", "w:val"), ("w:u", "w:val"), ("w:color", "w:val"), ("w:color", "w:themeColor"),
    ("w:color", "w:themeTint"), ("w:color", "w:themeShade"), ("w:sz", "w:val"), ("w:szCs", "w:val"),
    ("w:highlight", "w:val"), ("w:strike", "w:val"), ("w:dstrike", "w:val"), ("w:vanish", "w:val"),
    ("w:specVanish", "w:val"), ("w:caps", "w:val"), ("w:rFonts", "w:ascii"), ("w:rFonts", "w:hint"),
    ("w:vertAlign", "w:val"), ("w:fitText", "w:val"), ("w:fitText", "w:id"), ("w:bdr", "w:val"), ("w:bdr", "w:sz"),
    ("w:bdr", "w:space"), ("w:bdr", "w:color"), ("w:fldChar", "w:fldCharType"), ("w:fldChar", "w:dirty"),
    ("w:sym", "w:char"), ("w:sym", "w:font"), ("w:br", "w:type"), ("w:ptab", "w:alignment"), ("w:ptab", "w:relativeTo"),
    ("w:ptab", "w:leader"), ("w:hyperlink", "r:id"), ("w:hyperlink", "w:anchor"), ("w:hyperlink", "w:history"),
    ("w:ins", "w:id"), ("w:ins", "w:date"), ("w:del", "w:id"), ("w:moveFrom", "w:id"), ("w:moveTo", "w:id"),
    ("w:bookmarkStart", "w:id"), ("w:bookmarkStart", "w:name"), ("w:bookmarkEnd", "w:id"),
    ("w:commentRangeStart", "w:id"), ("w:commentRangeEnd", "w:id"), ("w:tblW", "w:w"), ("w:tblW", "w:type"),
    ("w:tblInd", "w:w"), ("w:tblInd", "w:type"), ("w:tblStyle", "w:val"), ("w:tblLayout", "w:type"),
    ("w:tblpPr", "w:leftFromText"), ("w:tblpPr", "w:rightFromText"), ("w:tblpPr", "w:vertAnchor"),
    ("w:tblpPr", "w:horzAnchor"), ("w:tblpPr", "w:tblpX"), ("w:tblpPr", "w:tblpY"), ("w:tblpPr", "w:tblpXSpec"),
    ("w:gridCol", "w:w"), ("w:trHeight", "w:val"), ("w:trHeight", "w:hRule"), ("w:gridBefore", "w:val"),
    ("w:gridAfter", "w:val"), ("w:wBefore", "w:w"), ("w:wAfter", "w:w"), ("w:tcW", "w:w"), ("w:tcW", "w:type"),
    ("w:gridSpan", "w:val"), ("w:vMerge", "w:val"), ("w:vAlign", "w:val"), ("w:textDirection", "w:val"),
    ("w:top", "w:w"), ("w:top", "w:type"), ("w:top", "w:val"), ("w:top", "w:sz"), ("w:top", "w:space"),
    ("w:top", "w:color"), ("w:left", "w:w"), ("w:left", "w:sz"), ("w:left", "w:val"), ("w:start", "w:w"),
    ("w:bottom", "w:w"), ("w:bottom", "w:sz"), ("w:right", "w:w"), ("w:right", "w:sz"), ("w:insideH", "w:sz"),
    ("w:insideH", "w:val"), ("w:insideV", "w:sz"), ("w:between", "w:sz"), ("w:bar", "w:space"), ("w:tl2br", "w:sz"),
    ("w:pgSz", "w:w"), ("w:pgSz", "w:h"), ("w:pgSz", "w:orient"), ("w:pgMar", "w:top"), ("w:pgMar", "w:left"),
    ("w:pgMar", "w:gutter"), ("w:pgMar", "w:header"), ("w:cols", "w:num"), ("w:cols", "w:space"),
    ("w:docGrid", "w:type"), ("w:docGrid", "w:linePitch"), ("w:docGrid", "w:charSpace"), ("w:titlePg", "w:val"),
    ("w:type", "w:val"), ("w:pgNumType", "w:start"), ("w:pgNumType", "w:chapStyle"), ("w:headerReference", "w:type"),
    ("w:headerReference", "r:id"), ("w:footerReference", "w:type"), ("w:comment", "w:id"), ("w:comment", "w:date"),
    ("w15:commentEx", "w15:paraId"), ("w15:commentEx", "w15:done"), ("w15:commentEx", "w15:paraIdParent"),
    ("w:style", "w:type"), ("w:style", "w:styleId"), ("w:name", "w:val"), ("w:basedOn", "w:val"), ("w:link", "w:val"),
    ("w:uiPriority", "w:val"), ("w:abstractNum", "w:abstractNumId"), ("w:num", "w:numId"), ("w:abstractNumId", "w:val"),
    ("w:lvl", "w:ilvl"), ("w:start", "w:val"), ("w:numFmt", "w:val"), ("w:lvlText", "w:val"), ("w:lvlJc", "w:val"),
    ("w:lvlRestart", "w:val"), ("w:suff", "w:val"), ("w:isLgl", "w:val"), ("w:lvlOverride", "w:ilvl"),
    ("w:startOverride", "w:val"), ("w:styleLink", "w:val"), ("w:numStyleLink", "w:val"), ("w:defaultTabStop", "w:val"),
    ("w:zoom", "w:percent"), ("w:characterSpacingControl", "w:val"), ("w15:docId", "w15:val"), ("w:docVar", "w:name"),
    ("w:docVar", "w:val"), ("w:div", "w:id"), ("w:marLeft", "w:val"), ("w:marTop", "w:val"), ("wp:inline", "distT"),
    ("wp:inline", "distR"), ("wp:anchor", "distL"), ("wp:anchor", "simplePos"), ("wp:anchor", "allowOverlap"),
    ("wp:anchor", "layoutInCell"), ("wp:anchor", "relativeHeight"), ("wp:simplePos", "x"), ("wp:positionH", "relativeFrom"),
    ("wp:positionV", "relativeFrom"), ("wp:extent", "cx"), ("wp:extent", "cy"), ("wp:docPr", "id"),
    ("a:graphicData", "uri"), ("a:blip", "r:embed"), ("a:xfrm", "rot"), ("a:off", "x"), ("a:ext", "cx"),
    ("a:latin", "typeface"), ("a:font", "script"), ("v:shape", "style"), ("v:imagedata", "r:id"),
    ("property", "name"), ("mc:Choice", "Requires"),
];

fn opened(path: &str, o: &mut Vec<u8>) {
    for (i, s) in path.split('|').enumerate() {
        o.push(b'<');
        o.extend_from_slice(s.as_bytes());
        if i == 0 {
            o.extend_from_slice(NS.as_bytes());
        }
        o.push(b'>');
    }
}
fn closed(path: &str, o: &mut Vec<u8>) {
    for s in path.rsplit('|') {
        o.extend_from_slice(b"</");
        o.extend_from_slice(s.split(' ').next().unwrap_or("").as_bytes());
        o.push(b'>');
    }
}
/// a package with the given part (by its root element)
fn package(root: &str, part: &[u8]) -> Vec<u8> {
    let body = doc_around(b"<w:p/><w:sectPr><w:headerReference w:type='default' r:id='rId1'/><w:footerReference w:type='default' r:id='rId1'/></w:sectPr>");
    let (t, n, _) = PARTS.iter().find(|p| p.2 == root).copied().unwrap_or(PARTS[0]);
    if n.is_empty() {
        return mini(part);
    }
    let t = if t.contains(':') { t.to_string() } else { format!("{}{}", R, t) };
    if root == "Properties" {
        let rels = RELS.replace(
            "</Relationships>",
            &format!("<Relationship Id='rId2' Type='{}' Target='word/custom.xml'/></Relationships>", t),
        );
        return zip_parts(&[
            ("[Content_Types].xml", CT.as_bytes()),
            ("_rels/.rels", rels.as_bytes()),
            ("word/_rels/document.xml.rels", NODOCRELS.as_bytes()),
            ("word/document.xml", &body),
            ("word/custom.xml", part),
        ]);
    }
    mini_with(&body, &t, n, part)
}
/// reading ends
fn ends(b: &[u8], id: &str) {
    sx::site(id);
    if read_docx(b).is_ok() {
        sx::reach("read");
    }
    sx::reach("end");
}
/// reading ends; what was read can be written and printed
fn survive(b: &[u8], id: &str) {
    sx::site(id);
    if let Ok(d) = read_docx(b) {
        sx::reach("read");
        let _ = d.json();
        trees(&pack(d), id);
    }
    sx::reach("end");
}
fn root(path: &str) -> &str {
    path.split('|').next().unwrap_or("")
}
fn last(path: &str) -> &str {
    path.rsplit('|').next().unwrap_or("")
}
/// any element inside any other
#[no_mangle]
pub extern "C-unwind" fn h_c15_misplaced() {
    let path = pick(PATHS);
    let e = pick(ELEMENTS);
    let mut o = vec![];
    opened(path, &mut o);
    // with a value of one arbitrary letter or digit
    o.extend_from_slice(format!("<{} w:val='", e).as_bytes());
    o.push(sx::byte(b'0', b'z'));
    sx::assume(o[o.len() - 1] != b'<');
    o.extend_from_slice(b"'/>");
    closed(path, &mut o);
    let (b, id) = (package(root(path), &o), format!("{} in {}", e, last(path)));
    if sx::deep() {
        survive(&b, &id)
    } else {
        ends(&b, &id)
    }
}
/// a value of up to two arbitrary characters, or a number at the limits
fn value() -> Vec<u8> {
    match sx::choice(5) {
        0 => sx::ascii(1).into_bytes(),
        1 => sx::ascii(2).into_bytes(),
        2 => sx::text(1, 4).into_bytes(),
        3 => {
            let mut v = pick(&["-", "", "+", "1.", "0x"]).as_bytes().to_vec();
            v.extend_from_slice(pick(&["0", "7", "99"]).as_bytes());
            v.extend_from_slice(pick(&["", "pt", "%", "00000000", "000000000000000000"]).as_bytes());
            v
        }
        _ => pick(&["", "NaN", "inf", "1e400", "2147483648", "-2147483649", "4294967296", "18446744073709551616", "true", "on", "auto"])
            .as_bytes()
            .to_vec(),
    }
}
fn escaped(v: &[u8], o: &mut Vec<u8>) {
    for c in v {
        match c {
            b'&' => o.extend_from_slice(b"&amp;"),
            b'<' => o.extend_from_slice(b"&lt;"),
            b'\'' => o.extend_from_slice(b"&apos;"),
            c => o.push(*c),
        }
    }
}
/// elements which can stand in the last element of a path
fn fits(path: &str, e: &str) -> bool {
    let l = last(path).split(' ').next().unwrap_or("");
    let l = &l[l.find(':').map(|i| i + 1).unwrap_or(0)..];
    let n = &e[e.find(':').map(|i| i + 1).unwrap_or(0)..];
    let any = |v: &[&str]| v.contains(&n);
    match l {
        "body" | "sdtContent" | "hdr" | "ftr" | "tc" | "txbxContent" | "comment" => any(&["p", "bookmarkStart", "bookmarkEnd", "commentRangeStart", "commentRangeEnd", "ins"]),
        "p" | "hyperlink" | "ins" | "del" | "moveFrom" | "moveTo" => {
            any(&["hyperlink", "ins", "del", "moveFrom", "moveTo", "bookmarkStart", "bookmarkEnd", "commentRangeStart", "commentRangeEnd", "p"])
        }
        "pPr" => any(&[
            "pStyle", "jc", "ind", "spacing", "keepNext", "keepLines", "pageBreakBefore", "widowControl", "outlineLvl", "snapToGrid",
            "textAlignment", "adjustRightInd", "shd", "framePr", "divId", "pPrChange",
        ]),
        "numPr" => any(&["numId", "ilvl", "ins"]),
        "tabs" => any(&["tab"]),
        "pBdr" | "tblBorders" | "tcBorders" => any(&["top", "left", "bottom", "right", "insideH", "insideV", "between", "bar", "tl2br"]),
        "tblCellMar" | "tcMar" => any(&["top", "left", "start", "bottom", "right"]),
        "rPr" => any(&[
            "rStyle", "b", "bCs", "i", "iCs", "u", "color", "sz", "szCs", "highlight", "strike", "dstrike", "vanish", "specVanish",
            "caps", "rFonts", "vertAlign", "fitText", "bdr", "spacing", "ins", "del", "shd",
        ]),
        "r" => any(&["fldChar", "sym", "br", "ptab"]),
        "inline" | "anchor" | "drawing" => any(&["inline", "anchor", "simplePos", "positionH", "positionV", "extent", "docPr"]),
        "graphic" => any(&["graphicData"]),
        "pic" => any(&["blip", "off", "ext", "xfrm"]),
        "xfrm" => any(&["off", "ext"]),
        "shape" | "pict" => any(&["shape", "imagedata"]),
        "AlternateContent" => any(&["Choice"]),
        "tblPr" => any(&["tblW", "tblInd", "tblStyle", "tblLayout", "tblpPr", "jc"]),
        "tblGrid" => any(&["gridCol"]),
        "trPr" => any(&["trHeight", "gridBefore", "gridAfter", "wBefore", "wAfter", "ins", "del"]),
        "tcPr" => any(&["tcW", "gridSpan", "vMerge", "vAlign", "textDirection", "shd"]),
        "sectPr" => any(&["pgSz", "pgMar", "cols", "docGrid", "titlePg", "type", "pgNumType", "headerReference", "footerReference", "textDirection"]),
        "comments" => any(&["comment"]),
        "commentsEx" => any(&["commentEx"]),
        "styles" => any(&["style"]),
        "style" => any(&["name", "basedOn", "link", "uiPriority"]),
        "numbering" => any(&["abstractNum", "num"]),
        "abstractNum" => any(&["lvl", "styleLink", "numStyleLink"]),
        "lvl" => any(&["start", "numFmt", "lvlText", "lvlJc", "lvlRestart", "suff", "isLgl", "pStyle"]),
        "num" => any(&["abstractNumId", "lvlOverride"]),
        "lvlOverride" => any(&["startOverride", "lvl"]),
        "settings" => any(&["defaultTabStop", "zoom", "characterSpacingControl", "docId"]),
        "docVars" => any(&["docVar"]),
        "divs" | "divsChild" => any(&["div"]),
        "div" => any(&["marLeft", "marTop"]),
        "fontScheme" => any(&["latin"]),
        "majorFont" => any(&["latin", "font"]),
        "Properties" => any(&["property"]),
        _ => false,
    }
}
/// numbers and words at the limits in any attribute of any element: written again
#[no_mangle]
pub extern "C-unwind" fn h_c15_limits() {
    let path = pick(PATHS);
    let (e, a) = pick(ATTRS);
    sx::assume(fits(path, e));
    let v = pick(&["", "-", "1.5", "NaN", "214748364", "-214748364", "429496729", "1844674407370955161", "\"", "true", "auto"]);
    let mut v = v.to_string();
    if v.ends_with(|c: char| c == '-' || c.is_ascii_digit()) {
        v.push(sx::byte(b'0', b'9') as char);
    }
    let mut o = vec![];
    opened(path, &mut o);
    o.extend_from_slice(format!("<{} {}='{}'/>", e, a, v).as_bytes());
    closed(path, &mut o);
    survive(&package(root(path), &o), &format!("{} of {} in {} at the limits", a, e, last(path)));
}
/// any value of any attribute of any element
#[no_mangle]
pub extern "C-unwind" fn h_c15_values() {
    let path = pick(PATHS);
    let (e, a) = pick(ATTRS);
    sx::assume(fits(path, e));
    let mut o = vec![];
    opened(path, &mut o);
    o.extend_from_slice(format!("<{} {}='", e, a).as_bytes());
    escaped(&value(), &mut o);
    o.extend_from_slice(b"'/>");
    closed(path, &mut o);
    ends(&package(root(path), &o), &format!("{} of {} in {}", a, e, last(path)));
}
/// text where elements are expected and arbitrary text where text is
#[no_mangle]
pub extern "C-unwind" fn h_c15_text() {
    let path = pick(PATHS);
    let inner = pick(&["", "w:t", "w:instrText", "w:delText", "wp:posOffset", "wp:align", "vt:lpwstr", "w:p"]);
    let mut o = vec![];
    opened(path, &mut o);
    if !inner.is_empty() {
        opened_inner(inner, &mut o);
    }
    escaped(&value(), &mut o);
    if !inner.is_empty() {
        closed(inner, &mut o);
    }
    closed(path, &mut o);
    ends(&package(root(path), &o), &format!("text in {} in {}", inner, last(path)));
}
fn opened_inner(e: &str, o: &mut Vec<u8>) {
    o.extend_from_slice(format!("<{}>", e).as_bytes());
}
/// parts which end inside any element
#[no_mangle]
pub extern "C-unwind" fn h_c16_truncated() {
    let path = pick(PATHS);
    let cut = sx::choice(4);
    let mut o = vec![];
    opened(path, &mut o);
    match cut {
        0 => {}
        1 => o.extend_from_slice(b"<w:x>"),
        2 => {
            for _ in 0..sx::choice(2) + 1 {
                o.push(sx::byte(0, 255));
            }
        }
        _ => {
            let n = o.len() - 1;
            o.truncate(n);
        }
    }
    survive(&package(root(path), &o), &format!("end {} in {}", cut, last(path)));
}
/// parts which end after the start of any element in any other
#[no_mangle]
pub extern "C-unwind" fn h_c16_unclosed() {
    let path = pick(PATHS);
    let e = pick(ELEMENTS);
    let mut o = vec![];
    opened(path, &mut o);
    o.extend_from_slice(format!("<{} w:val='", e).as_bytes());
    o.push(sx::byte(b'0', b'z'));
    sx::assume(o[o.len() - 1] != b'<');
    o.extend_from_slice(b"'>");
    survive(&package(root(path), &o), &format!("unclosed {} in {}", e, last(path)));
}
/// any three bytes anywhere between the elements of any part
#[no_mangle]
pub extern "C-unwind" fn h_c15_bytes() {
    let path = pick(PATHS);
    sx::assume(path.split('|').count() <= 4);
    let mut o = vec![];
    opened(path, &mut o);
    for _ in 0..sx::choice(2) + 1 {
        o.push(sx::byte(0, 255));
    }
    closed(path, &mut o);
    survive(&package(root(path), &o), &format!("bytes in {}", last(path)));
}
