//! C14 package graph, C17 the two writing routes, C21 identifiers
use super::docgen::*;
use super::text::p;
use super::util::*;
use crate::sx;
use docx_rs::*;

pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
}

fn s(v: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(v.to_vec()) }
}

/// resolve a relationship target against the directory of its source part
fn resolve(source: &str, target: &str) -> String {
    if let Some(t) = target.strip_prefix('/') {
        return t.to_string();
    }
    let mut dir: Vec<&str> = source.split('/').collect();
    dir.pop();
    for c in target.split('/') {
        match c {
            ".." => {
                dir.pop();
            }
            "." => {}
            c => dir.push(c),
        }
    }
    dir.join("/")
}
fn rels_of(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, n)) => format!("{}/_rels/{}.rels", d, n),
        None => format!("_rels/{}.rels", part),
    }
}

/// (relationship type, content type its target must have)
const KINDS: &[(&str, &str)] = &[
    ("officeDocument", "wordprocessingml.document.main+xml"),
    ("styles", "wordprocessingml.styles+xml"),
    ("fontTable", "wordprocessingml.fontTable+xml"),
    ("settings", "wordprocessingml.settings+xml"),
    ("comments", "wordprocessingml.comments+xml"),
    ("commentsExtended", "wordprocessingml.commentsExtended+xml"),
    ("numbering", "wordprocessingml.numbering+xml"),
    ("footnotes", "wordprocessingml.footnotes+xml"),
    ("header", "wordprocessingml.header+xml"),
    ("footer", "wordprocessingml.footer+xml"),
    ("core-properties", "core-properties+xml"),
    ("extended-properties", "extended-properties+xml"),
    ("custom-properties", "custom-properties+xml"),
    ("customXml", "application/xml"),
    ("customXmlProps", "customXmlProperties+xml"),
    ("image", "image/png"),
    ("webextensiontaskpanes", "webextensiontaskpanes+xml"),
    ("webextension", "webextension+xml"),
];

fn walk<'a>(e: &'a El, f: &mut impl FnMut(&'a El)) {
    f(e);
    for c in e.els() {
        walk(c, f);
    }
}

/// all references of the package resolve
pub fn graph(b: &[u8], ctx: &str) {
    let id = |m: &str| format!("{}: {}", m, ctx);
    let parts = unzip(b);
    let names: Vec<&str> = parts.iter().map(|x| &x.0[..]).collect();
    for (i, n) in names.iter().enumerate() {
        if names[..i].contains(n) {
            sx::check_eq(n.as_bytes(), b"one part of a name", &id("part names"));
        }
    }
    let Some(ts) = trees(b, &id("well-formed")) else { return };
    let get = |n: &str| ts.iter().find(|x| x.0 == n).map(|x| &x.1);
    // content types
    let Some(ct) = get("[Content_Types].xml") else {
        sx::check_eq(b"no [Content_Types].xml", b"", &id("content types"));
        return;
    };
    let mut defaults: Vec<(String, String)> = vec![];
    let mut overrides: Vec<(String, String)> = vec![];
    for e in ct.els() {
        let t = s(e.attr("ContentType").unwrap_or(b""));
        match &e.name[..] {
            "Default" => defaults.push((s(e.attr("Extension").unwrap_or(b"")), t)),
            "Override" => overrides.push((s(e.attr("PartName").unwrap_or(b"")), t)),
            n => sx::check_eq(n.as_bytes(), b"Default or Override", &id("content types")),
        }
    }
    for v in [&defaults, &overrides] {
        for (i, (n, _)) in v.iter().enumerate() {
            if v[..i].iter().any(|x| x.0 == *n) {
                sx::check_eq(n.as_bytes(), b"one entry", &id("content types"));
            }
        }
    }
    for (n, _) in &overrides {
        if !n.starts_with('/') || !names.contains(&&n[1..]) {
            sx::check_eq(n.as_bytes(), b"a part of the package", &id("content types"));
        }
    }
    let ctype = |n: &str| -> Option<&str> {
        if let Some(o) = overrides.iter().find(|o| o.0.len() == n.len() + 1 && o.0.ends_with(n)) {
            return Some(&o.1);
        }
        let x = n.rsplit_once('.')?.1;
        defaults.iter().find(|d| d.0 == x).map(|d| &d.1[..])
    };
    for n in &names {
        if *n != "[Content_Types].xml" && ctype(n).is_none() {
            sx::check_eq(n.as_bytes(), b"a part with a content type", &id("content types"));
        }
    }
    // relationships
    let mut reach: Vec<String> = vec!["[Content_Types].xml".into()];
    let rels = |source: &str| -> Vec<Rel> {
        let mut v = vec![];
        if let Some(t) = get(&rels_of(source)) {
            for e in t.els() {
                v.push(Rel {
                    id: s(e.attr("Id").unwrap_or(b"")),
                    typ: s(e.attr("Type").unwrap_or(b"")),
                    target: s(e.attr("Target").unwrap_or(b"")),
                    external: e.attr("TargetMode") == Some(b"External"),
                });
            }
        }
        v
    };
    let mut queue: Vec<String> = vec!["".into()];
    let mut seen_doc = false;
    while let Some(src) = queue.pop() {
        let rs = rels(&src);
        if !rs.is_empty() {
            reach.push(rels_of(&src));
        }
        for (i, x) in rs.iter().enumerate() {
            if rs[..i].iter().any(|y| y.id == x.id) {
                let m = format!("{} {}", src, x.id);
                sx::check_eq(m.as_bytes(), b"relationship ids of a part differ", &id("relationship ids"));
            }
            if x.external {
                continue;
            }
            let t = resolve(&src, &x.target);
            if !names.contains(&&t[..]) {
                let m = format!("{} -> {}", src, t);
                sx::check_eq(m.as_bytes(), b"a part of the package", &id("relationship targets"));
                continue;
            }
            let short = x.typ.rsplit_once('/').map(|y| y.1).unwrap_or("");
            match KINDS.iter().find(|k| k.0 == short) {
                Some((_, want)) => {
                    let c = ctype(&t).unwrap_or("");
                    if !c.ends_with(want) {
                        let m = format!("{}: {}", t, c);
                        sx::check_eq(m.as_bytes(), want.as_bytes(), &id("content types"));
                    }
                }
                None => sx::check_eq(x.typ.as_bytes(), b"a known relationship type", &id("relationship types")),
            }
            seen_doc |= src.is_empty() && short == "officeDocument" && t == "word/document.xml";
            if !reach.contains(&t) {
                reach.push(t.clone());
                queue.push(t);
            }
        }
    }
    sx::check(seen_doc, &id("main document"));
    // parts with content must be reachable; the library always writes these,
    // empty, even when nothing refers to them
    for n in &names {
        if !reach.iter().any(|x| x == n) {
            let empty = match get(n) {
                Some(t) => {
                    let c = t.els().filter(|e| {
                        // separator footnotes and definitions nothing uses are no content
                        !(e.name == "w:footnote" && e.attr("w:type").is_some()) && *n != "word/numbering.xml"
                    });
                    c.count() == 0
                }
                None => false,
            };
            if !empty && !n.ends_with(".rels") {
                sx::check_eq(n.as_bytes(), b"reachable", &id("every part is reachable"));
            }
        }
    }
    // references from content
    for (n, t) in &ts {
        if n.ends_with(".rels") || !n.starts_with("word/") {
            continue;
        }
        let rs = rels(n);
        walk(t, &mut |e| {
            for (a, v) in &e.attrs {
                if a == "r:id" || a == "r:embed" || a == "r:link" || a == "r:pict" {
                    let v = s(v);
                    let want = match &e.name[..] {
                        "w:hyperlink" => "hyperlink",
                        "w:headerReference" => "header",
                        "w:footerReference" => "footer",
                        "a:blip" | "v:imagedata" => "image",
                        "wetp:webextensionref" => "webextension",
                        _ => "",
                    };
                    let got = match rs.iter().find(|x| x.id == v) {
                        Some(r) => r.typ.rsplit_once('/').map(|y| y.1.to_string()).unwrap_or_default(),
                        None => format!("{} {} without relationship", e.name, v),
                    };
                    if want.is_empty() {
                        sx::check(rs.iter().any(|x| x.id == v), &id("references resolve"));
                    } else {
                        sx::check_eq(got.as_bytes(), want.as_bytes(), &id("references resolve"));
                    }
                }
            }
        });
    }
    // comments, footnotes, numbering
    let ids = |part: &str, el: &str, at: &str| -> Vec<String> {
        let mut v = vec![];
        if let Some(t) = get(part) {
            for e in t.els() {
                if e.name == el {
                    v.push(s(e.attr(at).unwrap_or(b"")));
                }
            }
        }
        v
    };
    let linked = |n: &str| reach.iter().any(|x| x == n);
    let comments = ids("word/comments.xml", "w:comment", "w:id");
    let foots = ids("word/footnotes.xml", "w:footnote", "w:id");
    let nums = ids("word/numbering.xml", "w:num", "w:numId");
    let abs = ids("word/numbering.xml", "w:abstractNum", "w:abstractNumId");
    for (v, m) in [(&comments, "comment ids"), (&foots, "footnote ids"), (&nums, "numbering ids"), (&abs, "numbering ids")] {
        for (i, x) in v.iter().enumerate() {
            if v[..i].contains(x) {
                sx::check_eq(x.as_bytes(), b"given once", &id(m));
            }
        }
    }
    let mut starts: Vec<String> = vec![];
    let mut ends: Vec<String> = vec![];
    let mut refs: Vec<String> = vec![];
    let mut feet: Vec<String> = vec![];
    for (n, t) in &ts {
        if !n.starts_with("word/") || n.ends_with(".rels") {
            continue;
        }
        walk(t, &mut |e| {
            let i = || s(e.attr("w:id").unwrap_or(b""));
            match &e.name[..] {
                "w:commentRangeStart" => starts.push(i()),
                "w:commentRangeEnd" => ends.push(i()),
                "w:commentReference" => refs.push(i()),
                "w:footnoteReference" => feet.push(i()),
                "w:numId" if n != "word/numbering.xml" => {
                    let v = s(e.attr("w:val").unwrap_or(b""));
                    let ok = nums.contains(&v) && linked("word/numbering.xml");
                    sx::check(ok, &id("numbering used is defined"));
                }
                _ => {}
            }
        });
    }
    if let Some(t) = get("word/numbering.xml") {
        for e in t.els() {
            if e.name == "w:num" {
                let a = s(e.child("w:abstractNumId").and_then(|x| x.attr("w:val")).unwrap_or(b""));
                sx::check(abs.contains(&a), &id("numbering used is defined"));
            }
        }
    }
    for x in starts.iter().chain(&ends).chain(&refs) {
        let ok = comments.contains(x) && linked("word/comments.xml");
        if !ok {
            sx::check_eq(x.as_bytes(), b"a comment of the package", &id("comments resolve"));
        }
    }
    for x in &comments {
        let n = |v: &Vec<String>| v.iter().filter(|y| *y == x).count();
        if (n(&starts), n(&ends), n(&refs)) != (1, 1, 1) {
            sx::check_eq(x.as_bytes(), b"anchored once", &id("comments resolve"));
        }
    }
    for x in &feet {
        let ok = foots.contains(x) && linked("word/footnotes.xml");
        if !ok {
            sx::check_eq(x.as_bytes(), b"a footnote of the package", &id("footnotes resolve"));
        }
    }
    // threads of comments
    let mut last: Vec<(String, String)> = vec![];
    if let Some(t) = get("word/comments.xml") {
        for c in t.els() {
            if let Some(q) = c.els().filter(|e| e.name == "w:p").last() {
                last.push((s(c.attr("w:id").unwrap_or(b"")), s(q.attr("w14:paraId").unwrap_or(b""))));
            }
        }
    }
    if let Some(t) = get("word/commentsExtended.xml") {
        for e in t.els() {
            let q = s(e.attr("w15:paraId").unwrap_or(b""));
            if !last.iter().any(|x| x.1 == q) {
                sx::check_eq(q.as_bytes(), b"the last paragraph of a comment", &id("comment threads"));
            }
            if let Some(v) = e.attr("w15:paraIdParent") {
                let v = s(v);
                if !last.iter().any(|x| x.1 == v) {
                    sx::check_eq(v.as_bytes(), b"the last paragraph of a comment", &id("comment threads"));
                }
            }
        }
    }
    // paragraph ids
    let mut paras: Vec<String> = vec![];
    for (n, t) in &ts {
        if !n.starts_with("word/") || n.ends_with(".rels") {
            continue;
        }
        walk(t, &mut |e| {
            if e.name == "w:p" {
                if let Some(v) = e.attr("w14:paraId") {
                    paras.push(s(v));
                }
            }
        });
    }
    for (i, x) in paras.iter().enumerate() {
        let ok = x.len() == 8 && x.bytes().all(|c| c.is_ascii_hexdigit()) && &x[..] < "80000000" && x != "00000000";
        if paras[..i].contains(x) || !ok {
            sx::check_eq(x.as_bytes(), b"an id of its own", &id("paragraph ids"));
        }
    }
}

fn letter() -> String {
    ident(1)
}

/// any number below 90 to tell contents apart; pictures get a fixed one
fn number(c: usize) -> usize {
    if CONTENTS[c].0.contains("picture") {
        5
    } else {
        sx::usizev(0, 89)
    }
}
fn place() -> (Docx, String) {
    let c = sx::choice(CONTENTS.len());
    let k = sx::choice(PLACES.len());
    sx::assume(allowed(c, k));
    let d = PLACES[k].1(base(c), 4, CONTENTS[c].1(number(c), &sx::ascii(1)));
    (d, format!("{} in {}", CONTENTS[c].0, PLACES[k].0))
}
fn copies(counts: &[usize]) -> (Docx, String) {
    let c = sx::choice(CONTENTS.len());
    let e = sx::choice(EXTRAS.len());
    let n = pick(counts);
    let mut d = base(c);
    for i in 0..n {
        d = d.add_paragraph(CONTENTS[c].1(5 + i, &letter()));
    }
    let d = if CONTENTS[c].0 == "numbered" && EXTRAS[e].0 == "numbering" { d } else { EXTRAS[e].1(d) };
    (d, format!("{} copies of {} with {}", n, CONTENTS[c].0, EXTRAS[e].0))
}
fn two_places() -> (Docx, String) {
    let l = pick(LINKED);
    let c = CONTENTS.iter().position(|c| c.0 == l).unwrap();
    let j = sx::choice(PLACES.len());
    let k = sx::choice(PLACES.len());
    sx::assume(allowed(c, j) && allowed(c, k));
    if j >= PART_PLACES || k >= PART_PLACES {
        sx::assume(CONTENTS[c].0 == "numbered");
    }
    let d = PLACES[j].1(base(c), 4, CONTENTS[c].1(5, &letter()));
    let d = PLACES[k].1(d, 6, CONTENTS[c].1(7, &letter()));
    (d, format!("{} in {} and {}", CONTENTS[c].0, PLACES[j].0, PLACES[k].0))
}
fn extras() -> (Docx, String) {
    let a = sx::choice(EXTRAS.len());
    let b = sx::choice(EXTRAS.len());
    sx::assume(a != b || a < 2);
    let d = EXTRAS[b].1(EXTRAS[a].1(Docx::new().add_paragraph(p(&letter()))));
    (d, format!("{} and {}", EXTRAS[a].0, EXTRAS[b].0))
}

/// every content in every place
#[no_mangle]
pub extern "C-unwind" fn h_c14_places() {
    let (d, ctx) = place();
    graph(&pack(d), &ctx);
    sx::reach("end");
}
/// several copies of a content next to document-wide additions
#[no_mangle]
pub extern "C-unwind" fn h_c14_copies() {
    let (d, ctx) = copies(&[2, 12]);
    graph(&pack(d), &ctx);
    sx::reach("end");
}
/// the same content in two places
#[no_mangle]
pub extern "C-unwind" fn h_c14_two_places() {
    let (d, ctx) = two_places();
    graph(&pack(d), &ctx);
    sx::reach("end");
}
/// two additions
#[no_mangle]
pub extern "C-unwind" fn h_c14_extras() {
    let (d, ctx) = extras();
    graph(&pack(d), &ctx);
    sx::reach("end");
}

/// what the reference `r` of part `n` leads to: an address or the bytes of a part
fn target(b: &[u8], n: &str, r: &[u8], id: &str) -> Vec<u8> {
    let ts = trees(b, id).unwrap_or_default();
    let name = rels_of(n);
    let Some((_, t)) = ts.iter().find(|x| x.0 == name) else { return b"no relationships".to_vec() };
    let mut o = b"no relationship".to_vec();
    for e in t.els() {
        if e.attr("Id") == Some(r) {
            o = e.attr("Target").unwrap_or(b"").to_vec();
            if e.attr("TargetMode") != Some(b"External") {
                let p = resolve(n, &s(&o));
                o = unzip(b).into_iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or(b"no part".to_vec());
            }
        }
    }
    o
}
/// the element of a kind which holds the given text, with its part
fn holder<'a>(ts: &'a [(String, El)], name: &str, text: &[u8]) -> Option<(&'a str, &'a El)> {
    let mut o = None;
    for (n, t) in ts {
        walk(t, &mut |e| {
            if e.name == name {
                let mut hit = false;
                walk(e, &mut |c| hit |= c.name == "w:t" && c.text() == text);
                if hit {
                    o = Some((&n[..], e));
                }
            }
        });
    }
    o
}

/// links and pictures lead to what was given for them
#[no_mangle]
pub extern "C-unwind" fn h_c14_targets() {
    let j = sx::choice(PART_PLACES);
    let k = sx::choice(PART_PLACES);
    let pics = sx::boolv();
    let id = format!("{} in {} and {} lead to what was given", if pics { "pictures" } else { "links" }, PLACES[j].0, PLACES[k].0);
    let (x, y, q, r) = if pics {
        let x = png(1);
        let y = png(sx::choice(2) + 1);
        let f = |t: &str, v: &Vec<u8>| {
            Paragraph::new().add_run(Run::new().add_text(t).add_image(Pic::new_with_dimensions(v.clone(), 10, 20)))
        };
        let (q, r) = (f("tA", &x), f("tB", &y));
        (x, y, q, r)
    } else {
        let x = format!("http://{}", sx::alpha(2, b'a', b'z'));
        let y = format!("http://{}", sx::alpha(2, b'a', b'z'));
        let f = |t: &str, v: &String| {
            Paragraph::new().add_hyperlink(Hyperlink::new(v, HyperlinkType::External).add_run(Run::new().add_text(t)))
        };
        let (q, r) = (f("tA", &x), f("tB", &y));
        (x.into_bytes(), y.into_bytes(), q, r)
    };
    let b = pack(PLACES[k].1(PLACES[j].1(Docx::new(), 4, q), 6, r));
    let ts = trees(&b, &id).unwrap_or_default();
    let replaced = replaced(j, k);
    for (t, v) in [(&b"tA"[..], &x), (&b"tB"[..], &y)] {
        if replaced && t == b"tA" {
            continue;
        }
        match holder(&ts, if pics { "w:r" } else { "w:hyperlink" }, t) {
            Some((n, e)) => {
                let mut r = None;
                walk(e, &mut |c| {
                    if c.name == "w:hyperlink" {
                        r = c.attr("r:id");
                    }
                    if c.name == "a:blip" {
                        r = c.attr("r:embed");
                    }
                });
                sx::check_eq(&target(&b, n, r.unwrap_or(b""), &id), v, &id);
            }
            None => sx::check_eq(b"missing", t, &id),
        }
    }
    graph(&b, &id);
    sx::reach("end");
}
/// a header or footer of the document is replaced by a second one of its kind
fn replaced(j: usize, k: usize) -> bool {
    let slot = |i: usize| PLACES[i].0.rsplit(" in ").next().unwrap();
    (BODY_PLACES..PART_PLACES).contains(&j) && !slot(j).starts_with("section") && slot(j) == slot(k)
}

/// two comments of any ids in two places
#[no_mangle]
pub extern "C-unwind" fn h_c14_comments() {
    let kinds: Vec<usize> = (0..CONTENTS.len()).filter(|i| CONTENTS[*i].0.starts_with("comment") && CONTENTS[*i].0 != "comment with reply").collect();
    let c = pick(&kinds);
    let j = sx::choice(BODY_PLACES);
    let k = sx::choice(BODY_PLACES);
    let (x, y) = (sx::usizev(0, 99), sx::usizev(0, 99));
    sx::assume(x != y);
    let id = format!("{} in {} and {}", CONTENTS[c].0, PLACES[j].0, PLACES[k].0);
    let b = pack(PLACES[k].1(PLACES[j].1(Docx::new(), 4, CONTENTS[c].1(x, "a")), 6, CONTENTS[c].1(y, "b")));
    graph(&b, &id);
    sx::reach("end");
}

// ---- C17: both routes write the same package ---------------------------------

fn both(d: Docx, ctx: &str) {
    let id = format!("both routes: {}", ctx);
    let (x, y) = (pack(d.clone()), pack_direct(d));
    let (a, b) = (unzip(&x), unzip(&y));
    let names = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    let (m, n) = (names(&a), names(&b));
    sx::check_eq(n.as_bytes(), m.as_bytes(), &id);
    if m != n {
        return;
    }
    for (p, q) in a.iter().zip(&b) {
        if !is_xml(&p.0) {
            sx::check_eq(&q.1, &p.1, &id);
        }
    }
    // ids of tracked changes are drawn anew for every write
    let (Some(x), Some(y)) = (trees(&x, &id), trees(&y, &id)) else { return };
    same_package(&x, &y, b"", b"", &id);
}
#[no_mangle]
pub extern "C-unwind" fn h_c17_places() {
    let (d, ctx) = place();
    both(d, &ctx);
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c17_copies() {
    let (d, ctx) = copies(&[1, 3]);
    both(d, &ctx);
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c17_extras() {
    let (d, ctx) = extras();
    both(d, &ctx);
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c17_two_places() {
    let (d, ctx) = two_places();
    both(d, &ctx);
    sx::reach("end");
}

// ---- C21: paragraph identifiers ----------------------------------------------

fn para_ids(b: &[u8], id: &str) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (n, t) in trees(b, id).unwrap_or_default() {
        if n.starts_with("word/") && !n.ends_with(".rels") {
            walk(&t, &mut |e| {
                if e.name == "w:p" {
                    v.push(e.attr("w14:paraId").unwrap_or(b"(none)").to_vec());
                }
            });
        }
    }
    v
}
fn distinct(v: &[Vec<u8>], id: &str) {
    for (i, x) in v.iter().enumerate() {
        sx::check(x.len() == 8, id);
        for y in &v[..i] {
            if x == y {
                sx::check_eq(x, b"an id of its own", id);
            }
        }
    }
}
/// paragraphs with given ids, equal or not, in any two places
#[no_mangle]
pub extern "C-unwind" fn h_c21_given() {
    let j = sx::choice(PLACES.len());
    let k = sx::choice(PLACES.len());
    let x = format!("0000000{}", sx::alpha(1, b'0', b'9'));
    let y = format!("000000{}", sx::alpha(2, b'0', b'9'));
    let d = PLACES[j].1(Docx::new(), 4, p("a").id(x.clone()));
    let d = PLACES[k].1(d, 6, p("b").id(y.clone()));
    let id = format!("paragraph ids: {} and {}", PLACES[j].0, PLACES[k].0);
    let v = para_ids(&pack(d), &id);
    distinct(&v, &id);
    // the first header or footer of a kind is replaced by the second
    if !replaced(j, k) || x == y {
        sx::check(v.iter().any(|i| i == x.as_bytes()), &id);
    }
    sx::check(v.iter().any(|i| i == y.as_bytes()), &id);
    sx::reach("end");
}
/// a paragraph of a comment or footnote and one of the body, with ids equal or not
#[no_mangle]
pub extern "C-unwind" fn h_c21_carried() {
    let c = sx::choice(CARRIERS.len());
    let k = sx::choice(BODY_PLACES);
    let x = format!("0000000{}", sx::alpha(1, b'0', b'9'));
    let y = format!("000000{}", sx::alpha(2, b'0', b'9'));
    sx::assume(x != "00000000" && y != "00000000");
    let first = sx::choice(2) == 0;
    let id = format!("paragraph ids: {} in {}", CARRIERS[c].0, PLACES[k].0);
    let mut d = Docx::new();
    if first {
        d = d.add_paragraph(p("b").id(y.clone()));
    }
    d = PLACES[k].1(d, 4, CARRIERS[c].1(3, p("a").id(x.clone())));
    if !first {
        d = d.add_paragraph(p("b").id(y.clone()));
    }
    let b = pack(d);
    let v = para_ids(&b, &id);
    distinct(&v, &id);
    sx::check(v.iter().any(|i| i == x.as_bytes()), &id);
    sx::check(v.iter().any(|i| i == y.as_bytes()), &id);
    graph(&b, &id);
    sx::reach("end");
}
/// the same paragraph put in two places, n times in the second
#[no_mangle]
pub extern "C-unwind" fn h_c21_clones() {
    let j = sx::choice(PLACES.len());
    let k = sx::choice(PLACES.len());
    let n = pick(&[1usize, 3]);
    let q = p(&letter());
    let mut d = PLACES[j].1(Docx::new(), 4, q.clone());
    for i in 0..n {
        d = PLACES[k].1(d, 6 + i, q.clone());
    }
    let id = format!("paragraph ids: copies in {} and {}", PLACES[j].0, PLACES[k].0);
    distinct(&para_ids(&pack(d), &id), &id);
    sx::reach("end");
}
/// a package that was read and then extended
#[no_mangle]
pub extern "C-unwind" fn h_c21_extended() {
    let j = sx::choice(PLACES.len());
    let k = sx::choice(PLACES.len());
    let x = format!("000000{}", sx::alpha(2, b'0', b'9'));
    let id = format!("paragraph ids: {} read, {} added", PLACES[j].0, PLACES[k].0);
    let d = PLACES[j].1(Docx::new(), 4, p("a").id(x.clone()));
    let Some(d) = read_ok(&pack(d), &id) else { return };
    let d = PLACES[k].1(d, 6, p("b"));
    let d = d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new()])]));
    distinct(&para_ids(&pack(d), &id), &id);
    sx::reach("end");
}

// ---- C19: a written package is read completely -------------------------------

/// empty runs and run properties mean nothing, neither does `xml:space` when
/// there is no space to preserve
fn no_empty_runs(e: El) -> El {
    let mut o = El { name: e.name, attrs: e.attrs, kids: vec![] };
    o.attrs.retain(|a| a.0 != "xml:space");
    for k in e.kids {
        match k {
            Node::E(c) => {
                let c = no_empty_runs(c);
                let empty = match &c.name[..] {
                    "w:r" => !c.els().any(|x| x.name != "w:rPr"),
                    "w:rPr" => c.els().count() == 0,
                    _ => false,
                };
                if !empty {
                    o.kids.push(Node::E(c));
                }
            }
            k => o.kids.push(k),
        }
    }
    o
}
/// What the reader does not support: footnotes, content controls inside a
/// paragraph, and the bytes of pictures (kept beside the document). A control
/// ends with the table of contents in it. Headers of inner sections are a known
/// defect, represented by plain text.
fn read_completely(c: usize, k: usize) -> bool {
    let (c, k) = (CONTENTS[c].0, PLACES[k].0);
    let header = ["section header", "section footer", "section first header", "section even footer"].contains(&k);
    !c.contains("footnote")
        && !c.contains("content control")
        && c != "picture in move"
        && k != "footnote"
        && k != "cell after contents"
        && (!header || (c == "text" && (k == "section header" || k == "section footer")))
}
pub fn stable(d: Docx, ctx: &str) {
    let id = format!("written again: {}", ctx);
    let a = pack(d);
    let Some(r) = read_ok(&a, &id) else { return };
    let (Some(x), Some(y)) = (trees(&a, &id), trees(&pack(r), &id)) else { return };
    let content = |v: Vec<(String, El)>| -> Vec<(String, El)> {
        v.into_iter()
            .filter(|(n, _)| n.starts_with("word/") && !n.ends_with(".rels") && *n != "word/fontTable.xml" && *n != "word/settings.xml")
            .map(|(n, t)| (n, no_empty_runs(t)))
            .collect()
    };
    same_package(&content(x), &content(y), b"", b"", &id);
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_places() {
    let c = sx::choice(CONTENTS.len());
    let k = sx::choice(PLACES.len());
    sx::assume(allowed(c, k) && read_completely(c, k));
    let d = PLACES[k].1(base(c), 4, CONTENTS[c].1(number(c), &sx::ascii(1)));
    let ctx = format!("{} in {}", CONTENTS[c].0, PLACES[k].0);
    stable(d, &ctx);
    sx::reach("end");
}
#[no_mangle]
pub extern "C-unwind" fn h_c19_extras() {
    let a = sx::choice(EXTRAS.len());
    let b = sx::choice(EXTRAS.len());
    sx::assume(a != b);
    for i in [a, b] {
        sx::assume(!EXTRAS[i].0.contains("web extension") && EXTRAS[i].0 != "footnote");
    }
    let d = EXTRAS[b].1(EXTRAS[a].1(Docx::new().add_paragraph(p(&letter()))));
    let ctx = format!("{} and {}", EXTRAS[a].0, EXTRAS[b].0);
    stable(d, &ctx);
    sx::reach("end");
}
