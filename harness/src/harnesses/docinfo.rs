//! C20: settings, properties and data attached to the document.
use super::paragraph::two;
use super::util::*;
use crate::sx;
use docx_rs::*;

const SETTINGS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/settings";

/// what the settings part must say beyond what is there without any call
struct Set {
    tab: usize,
    id: Option<String>,
    vars: Vec<(String, String)>,
    even: bool,
    lines: bool,
    spacing: Option<&'static str>,
}
const SPACING: [(CharacterSpacingValues, &str); 3] = [
    (CharacterSpacingValues::DoNotCompress, "doNotCompress"),
    (CharacterSpacingValues::CompressPunctuation, "compressPunctuation"),
    (CharacterSpacingValues::CompressPunctuationAndJapaneseKana, "compressPunctuationAndJapaneseKana"),
];
const CALLS: usize = 6;
/// one call, on the settings or on the document as `doc` says
fn call(k: usize, doc: bool, d: Docx, w: &mut Set, wide: bool) -> Docx {
    let s = d.settings.clone();
    let word = |n| if wide { sx::ascii(n) } else { ident(1) };
    match k {
        0 => {
            let n = if wide { sx::u32v(0, 9_999_999) as usize } else { two() as usize };
            w.tab = n;
            if doc { d.default_tab_stop(n) } else { d.settings(s.default_tab_stop(n)) }
        }
        1 => {
            let i = ident(4);
            w.id = Some(i.clone());
            if doc { d.doc_id(&i) } else { d.settings(s.doc_id(i)) }
        }
        2 => {
            let (n, v) = if sx::choice(2) == 0 { (word(3), ident(1)) } else { (ident(1), word(3)) };
            w.vars.push((n.clone(), v.clone()));
            if doc { d.add_doc_var(&n, &v) } else { d.settings(s.add_doc_var(n, v)) }
        }
        3 => {
            w.even = true;
            d.settings(s.even_and_odd_headers())
        }
        4 => {
            w.lines = true;
            d.settings(s.adjust_line_height_in_table())
        }
        _ => {
            let (v, n) = if wide { pick(&SPACING) } else { SPACING[1] };
            w.spacing = Some(n);
            d.settings(s.character_spacing_control(v))
        }
    }
}
fn verify(d: Docx, w: Set) {
    let given = d.settings.clone();
    let plain = Docx::new().build().settings;
    let x = d.build().settings;
    let (Some(t), Some(p)) = (part(&x, "wf"), part(&plain, "wf")) else { return };
    sx::check_eq(t.at("w:defaultTabStop").and_then(|e| e.attr("w:val")).unwrap_or(b""), w.tab.to_string().as_bytes(), "tab stop");
    let id: Vec<&El> = t.els().filter(|e| e.name == "w15:docId").collect();
    match (&w.id, &id[..]) {
        (None, []) => {}
        (Some(i), [e]) => sx::check_eq(e.attr("w15:val").unwrap_or(b""), format!("{{{}}}", i).as_bytes(), "document id"),
        _ => sx::check(false, "document id"),
    }
    let mut vars = vec![];
    t.all("w:docVar", &mut vars);
    sx::check(vars.len() == w.vars.len(), "variables");
    for (e, (n, v)) in vars.iter().zip(&w.vars) {
        sx::check_eq(e.attr("w:name").unwrap_or(b""), n.as_bytes(), "variable name");
        sx::check_eq(e.attr("w:val").unwrap_or(b""), v.as_bytes(), "variable value");
    }
    sx::check(t.count("w:evenAndOddHeaders") == w.even as usize, "even and odd");
    // these stand in the compatibility block
    let mut v = vec![];
    t.all("w:adjustLineHeightInTable", &mut v);
    sx::check(v.len() == w.lines as usize, "line heights");
    let mut v = vec![];
    t.all("w:characterSpacingControl", &mut v);
    let got: Vec<u8> = v.iter().flat_map(|e| e.attr("w:val").unwrap_or(b"")).copied().collect();
    sx::check_eq(&got, w.spacing.unwrap_or("").as_bytes(), "spacing control");
    // everything else stays as it is
    let rest = |t: &El| {
        let mut v: Vec<String> = vec![];
        fn walk(e: &El, v: &mut Vec<String>) {
            for c in e.els() {
                if !["w:docVars", "w:docVar", "w:evenAndOddHeaders", "w:adjustLineHeightInTable", "w:characterSpacingControl", "w15:docId"]
                    .contains(&&c.name[..])
                {
                    v.push(format!("{} {:?}", c.name, c.attrs.iter().filter(|_| c.name != "w:defaultTabStop").collect::<Vec<_>>()));
                    walk(c, v);
                }
            }
        }
        walk(t, &mut v);
        v.join("\n")
    };
    sx::check(rest(&t) == rest(&p), "other settings");
    let b = mini_with(&doc_around(b"<w:p/>"), SETTINGS, "settings.xml", &x);
    let Some(r) = read_ok(&b, "readable") else { return };
    sx::check(r.settings == given, "read back");
    sx::reach("end");
}
fn none() -> Set {
    Set { tab: 840, id: None, vars: vec![], even: false, lines: false, spacing: None }
}
/// one setting alone over its value range
#[no_mangle]
pub extern "C-unwind" fn h_c20_single() {
    let mut w = none();
    let d = call(sx::choice(CALLS), sx::choice(2) == 1, Docx::new(), &mut w, true);
    verify(d, w);
}
/// up to three calls in any order
#[no_mangle]
pub extern "C-unwind" fn h_c20_combined() {
    let mut w = none();
    let mut d = Docx::new();
    for _ in 0..sx::choice(4) {
        d = call(sx::choice(CALLS), false, d, &mut w, false);
    }
    verify(d, w);
}

/// custom properties: each name once with the value given last
#[no_mangle]
pub extern "C-unwind" fn h_c20_custom() {
    let n = sx::choice(4);
    let mut d = Docx::new();
    let mut other = Docx::new();
    let mut want: Vec<(String, String)> = vec![];
    for _ in 0..n {
        // names may coincide
        let wide = n == 1 && sx::choice(2) == 0;
        let name = if wide { sx::ascii(3) } else { sx::alpha(1, b'a', b'c') };
        let val = if n == 1 && !wide { sx::ascii(sx::choice(4)) } else { ident(1) };
        d = d.custom_property(&name[..], &val[..]);
        want.retain(|w| w.0 != name);
        want.push((name, val));
    }
    for (n, v) in want.iter().rev() {
        other = other.custom_property(&n[..], &v[..]);
    }
    let b = pack(d);
    let Some(parts) = trees(&b, "wf") else { return };
    let Some((_, t)) = parts.iter().find(|p| p.0 == "docProps/custom.xml") else {
        sx::check(false, "part");
        return;
    };
    sx::check(t.count("property") == want.len(), "number of properties");
    let mut pids: Vec<&[u8]> = vec![];
    for e in t.els() {
        let name = e.attr("name").unwrap_or(b"");
        let pid = e.attr("pid").unwrap_or(b"");
        sx::check(!pids.contains(&pid) && pid != b"0" && pid != b"1", "property number");
        pids.push(pid);
        match want.iter().find(|w| w.0.as_bytes() == name) {
            None => sx::check(false, "property name"),
            Some((_, v)) => sx::check_eq(&e.child("vt:lpwstr").map(|e| e.text()).unwrap_or_default(), v.as_bytes(), "property value"),
        }
    }
    // what is written does not depend on the order of the calls
    let Some(again) = trees(&pack(other), "wf") else { return };
    same_package(&parts, &again, b"", b"", "order of calls");
    let Some(r) = read_ok(&b, "readable") else { return };
    let got = &r.doc_props.custom.properties;
    sx::check(got.len() == want.len(), "number of properties read");
    for (n, v) in &want {
        sx::check(got.iter().any(|(a, b)| a == n && b == v), "read back");
    }
    sx::reach("end");
}

/// creation and change dates
#[no_mangle]
pub extern "C-unwind" fn h_c20_dates() {
    let (a, b) = (sx::choice(2) == 1, sx::choice(2) == 1);
    let (c, m) = if b { (ident(1), sx::ascii(3)) } else { (sx::ascii(3), ident(1)) };
    let mut d = Docx::new();
    if a {
        d = d.created_at(&c);
    }
    if b {
        d = d.updated_at(&m);
    }
    let x = d.build().doc_props.core;
    let Some(t) = part(&x, "wf") else { return };
    let plain = "1970-01-01T00:00:00Z";
    let get = |n: &str| t.child(n).map(|e| e.text()).unwrap_or_default();
    sx::check_eq(&get("dcterms:created"), if a { &c } else { plain }.as_bytes(), "created");
    sx::check_eq(&get("dcterms:modified"), if b { &m } else { plain }.as_bytes(), "modified");
    sx::reach("end");
}

fn esc(s: &[u8], o: &mut Vec<u8>) {
    for &c in s {
        match c {
            b'&' => o.extend_from_slice(b"&amp;"),
            b'<' => o.extend_from_slice(b"&lt;"),
            b'>' => o.extend_from_slice(b"&gt;"),
            b'"' => o.extend_from_slice(b"&quot;"),
            _ => o.push(c),
        }
    }
}
/// names, attributes, text and namespace bindings agree
fn same(a: &El, b: &El, ea: &[(String, Vec<u8>)], eb: &[(String, Vec<u8>)], id: &str) {
    let split = |e: &El, env: &[(String, Vec<u8>)]| {
        let mut env = env.to_vec();
        let mut at: Vec<(String, Vec<u8>)> = vec![];
        for (n, v) in &e.attrs {
            match n.strip_prefix("xmlns") {
                Some(p) => env.insert(0, (p.trim_start_matches(':').to_string(), v.clone())),
                None => at.push((n.clone(), v.clone())),
            }
        }
        at.sort();
        (env, at)
    };
    let (ea, aa) = split(a, ea);
    let (eb, ab) = split(b, eb);
    sx::check_eq(a.name.as_bytes(), b.name.as_bytes(), id);
    sx::check(aa.len() == ab.len(), id);
    let bind = |n: &str, env: &[(String, Vec<u8>)]| {
        let p = n.split_once(':').map(|x| x.0).unwrap_or("");
        env.iter().find(|x| x.0 == p).map(|x| x.1.clone()).unwrap_or_default()
    };
    sx::check_eq(&bind(&a.name, &ea), &bind(&b.name, &eb), "namespace");
    for ((n, v), (m, w)) in aa.iter().zip(&ab) {
        sx::check_eq(n.as_bytes(), m.as_bytes(), id);
        sx::check_eq(v, w, id);
        if n.contains(':') {
            sx::check_eq(&bind(n, &ea), &bind(m, &eb), "namespace");
        }
    }
    sx::check_eq(&a.text(), &b.text(), id);
    let (ka, kb): (Vec<&El>, Vec<&El>) = (a.els().collect(), b.els().collect());
    sx::check(ka.len() == kb.len(), id);
    for (x, y) in ka.into_iter().zip(kb) {
        same(x, y, &ea, &eb, id);
    }
}
fn check_items(items: &[(String, Vec<u8>)]) {
    let mut d = Docx::new();
    for (i, x) in items {
        d = d.add_custom_item(i, std::str::from_utf8(x).unwrap());
    }
    let Some(parts) = trees(&pack(d), "wf") else { return };
    let of = |p: &str| parts.iter().find(|x| x.0 == p).map(|x| &x.1);
    sx::check(parts.iter().filter(|p| p.0.starts_with("customXml/item") && !p.0.contains("Props")).count() == items.len(), "number of items");
    for (k, (i, x)) in items.iter().enumerate() {
        let n = k + 1;
        let Some(want) = part(x, "given") else { return };
        match of(&format!("customXml/item{}.xml", n)) {
            None => sx::check(false, "item part"),
            Some(t) => same(t, &want, &[], &[], "item content"),
        }
        // the properties the item refers to hold its identifier
        let target = of(&format!("customXml/_rels/item{}.xml.rels", n)).and_then(|r| r.els().next()).and_then(|r| r.attr("Target")).unwrap_or(b"");
        let target = String::from_utf8_lossy(target).into_owned();
        match of(&format!("customXml/{}", target)) {
            None => sx::check(false, "item properties"),
            Some(t) => sx::check_eq(t.attr("ds:itemID").unwrap_or(b""), format!("{{{}}}", i).as_bytes(), "item identifier"),
        }
    }
    sx::reach("end");
}
/// data items with arbitrary text and attribute values
#[no_mangle]
pub extern "C-unwind" fn h_c20_item() {
    let (v, t) = if sx::choice(2) == 0 { (sx::ascii(3), ident(1)) } else { (ident(1), sx::ascii(3)) };
    // blanks around texts are layout
    let b = t.as_bytes();
    sx::assume(b[0] > b' ' && b[b.len() - 1] > b' ');
    let mut x = b"<r a=\"".to_vec();
    esc(v.as_bytes(), &mut x);
    x.extend_from_slice(b"\"><b>");
    esc(t.as_bytes(), &mut x);
    x.extend_from_slice(b"</b><c/></r>");
    check_items(&[(ident(2), x)]);
}
/// several items, namespaces declared and used at different places
#[no_mangle]
pub extern "C-unwind" fn h_c20_items() {
    let mut v = vec![];
    for i in 0..sx::choice(4) {
        let x = match if i == 0 { sx::choice(6) } else { sx::choice(2) } {
            0 => "<r/>",
            1 => "<p:r xmlns:p=\"u\"><p:a p:b=\"c\">t</p:a></p:r>",
            2 => "<r xmlns=\"u\"><a/><b xmlns=\"v\"><c/></b><d/></r>",
            3 => "<r><a xmlns:p=\"u\"><p:b/></a><c xmlns:p=\"u\"><p:d/></c></r>",
            4 => "<r xmlns:p=\"u\"><a xmlns:p=\"v\"><p:b/></a><p:c><d xmlns:p=\"v\" p:e=\"f\"/></p:c></r>",
            _ => "<?xml version=\"1.0\"?><!-- x --><r><a>1</a><a>2</a><b><a>3</a></b></r>",
        };
        v.push((ident(2), x.as_bytes().to_vec()));
    }
    check_items(&v);
}

/// a JSON string literal's value
fn json_string(v: &[u8]) -> Option<Vec<u8>> {
    let n = v.len();
    if n < 2 || v[0] != b'"' || v[n - 1] != b'"' {
        return None;
    }
    let mut o = vec![];
    let mut i = 1;
    while i < n - 1 {
        match v[i] {
            b'"' | 0..=0x1f => return None,
            b'\\' => {
                i += 1;
                if i >= n - 1 {
                    return None;
                }
                o.push(match v[i] {
                    c @ (b'"' | b'\\' | b'/') => c,
                    b'n' => b'\n',
                    b't' => b'\t',
                    b'r' => b'\r',
                    _ => return None,
                });
            }
            c => o.push(c),
        }
        i += 1;
    }
    Some(o)
}
/// web extensions: identifiers and properties, whose values are JSON strings
#[no_mangle]
pub extern "C-unwind" fn h_c20_extensions() {
    let n = sx::choice(3);
    let mut d = Docx::new().taskpanes();
    let mut want = vec![];
    for i in 0..n {
        let id: Vec<String> = (0..5).map(|_| ident(1)).collect();
        let mut e = WebExtension::new(&id[0][..], &id[1][..], &id[2][..], &id[3][..], &id[4][..]);
        let mut ps = vec![];
        for j in 0..if i == 0 { sx::choice(3) } else { 1 } {
            let (k, v) = if i == 0 && j == 0 { if n == 1 && sx::choice(2) == 0 { (sx::ascii(2), ident(1)) } else if n == 1 { (ident(1), sx::ascii(3)) } else { (ident(1), ident(1)) } } else { (ident(1), ident(1)) };
            e = e.property(&k[..], &v[..]);
            ps.push((k, v));
        }
        d = d.web_extension(e);
        want.push((id, ps));
    }
    let x = d.build().web_extensions;
    sx::check(x.len() == n, "number of extensions");
    for (x, (id, ps)) in x.iter().zip(&want) {
        let Some(t) = part(x, "wf") else { return };
        sx::check_eq(t.attr("id").unwrap_or(b""), format!("{{{}}}", id[0]).as_bytes(), "extension");
        let r = t.child("we:reference");
        for (k, a) in ["id", "version", "store", "storeType"].iter().enumerate() {
            sx::check_eq(r.and_then(|r| r.attr(a)).unwrap_or(b""), id[k + 1].as_bytes(), "extension reference");
        }
        let got: Vec<&El> = t.child("we:properties").map(|p| p.els().collect()).unwrap_or_default();
        sx::check(got.len() == ps.len(), "number of properties");
        for (e, (k, v)) in got.iter().zip(ps) {
            sx::check_eq(e.attr("name").unwrap_or(b""), k.as_bytes(), "extension property");
            let v2 = json_string(e.attr("value").unwrap_or(b"")).unwrap_or(b"(no JSON string)".to_vec());
            sx::check_eq(&v2, v.as_bytes(), "extension value");
        }
    }
    sx::reach("end");
}

/// division margins of a web page saved as a document
#[no_mangle]
pub extern "C-unwind" fn h_c20_divs() {
    // (marginal values, children) of a small tree
    let mut x = b"<?xml version=\"1.0\"?><w:webSettings".to_vec();
    x.extend_from_slice(NS.as_bytes());
    x.extend_from_slice(b"><w:divs>");
    let mut id = 0;
    fn div(depth: usize, id: &mut usize, x: &mut Vec<u8>) -> Div {
        *id += 1;
        let n = id.to_string();
        x.extend_from_slice(format!("<w:div w:id=\"{}\">", n).as_bytes());
        let mut d = Div::new(n);
        let set = sx::choice(if depth == 0 { 16 } else { 2 });
        for (k, m) in ["marLeft", "marRight", "marTop", "marBottom"].iter().enumerate() {
            if set & (1 << k) != 0 {
                let v = two() as usize;
                x.extend_from_slice(format!("<w:{} w:val=\"{}\"/>", m, v).as_bytes());
                d = match k {
                    0 => d.margin_left(v),
                    1 => d.margin_right(v),
                    2 => d.margin_top(v),
                    _ => d.margin_bottom(v),
                };
            }
        }
        let kids = if depth < 2 { sx::choice(3) } else { 0 };
        if kids > 0 {
            x.extend_from_slice(b"<w:divsChild>");
            for _ in 0..kids {
                d = d.add_child(div(depth + 1, id, x));
            }
            x.extend_from_slice(b"</w:divsChild>");
        }
        x.extend_from_slice(b"</w:div>");
        d
    }
    let mut want = vec![];
    for _ in 0..sx::choice(3) {
        want.push(div(if want.is_empty() { 0 } else { 2 }, &mut id, &mut x));
    }
    x.extend_from_slice(b"</w:divs></w:webSettings>");
    let b = mini_with(
        &doc_around(b"<w:p/>"),
        "http://schemas.openxmlformats.org/officeDocument/2006/relationships/webSettings",
        "webSettings.xml",
        &x,
    );
    let Some(r) = read_ok(&b, "readable") else { return };
    sx::check(r.web_settings.divs == want, "divisions");
    sx::reach("end");
}
