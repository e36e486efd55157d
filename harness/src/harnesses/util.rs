//! Shared pieces of the harnesses: packing, unpacking, a minimal package for
//! feeding hand-written parts to the reader, and a strict XML parser that
//! shares no code with the library under test and serves as the oracle.
use crate::sx;
use docx_rs::*;
use std::io::{Cursor, Read, Write};

pub fn pack(mut d: Docx) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    d.build().pack(&mut c).expect("pack");
    c.into_inner()
}

pub fn pack_direct(mut d: Docx) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    d.pack(&mut c).expect("pack");
    c.into_inner()
}

pub fn unzip(b: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut a = zip::ZipArchive::new(Cursor::new(b)).expect("archive");
    let mut v = vec![];
    for i in 0..a.len() {
        let mut f = a.by_index(i).expect("entry");
        let mut d = vec![];
        f.read_to_end(&mut d).expect("entry data");
        let n = f.name().to_string();
        if !n.ends_with('/') {
            v.push((n, d));
        }
    }
    v
}

pub fn zip_parts(parts: &[(&str, &[u8])]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
    for (n, d) in parts {
        z.start_file(*n, zip::write::SimpleFileOptions::default()).expect("start");
        z.write_all(d).expect("write");
    }
    z.finish().expect("finish").into_inner()
}

pub const CT: &str = r#"<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/></Types>"#;
pub const RELS: &str = r#"<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="word/document.xml"/></Relationships>"#;
pub const NODOCRELS: &str = r#"<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"></Relationships>"#;
pub const NS: &str = r#" xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:w14="http://schemas.microsoft.com/office/word/2010/wordml" xmlns:w15="http://schemas.microsoft.com/office/word/2012/wordml" xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" xmlns:wp="http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture" xmlns:wps="http://schemas.microsoft.com/office/word/2010/wordprocessingShape" xmlns:v="urn:schemas-microsoft-com:vml""#;

/// package holding only the given main document part
pub fn mini(document: &[u8]) -> Vec<u8> {
    zip_parts(&[
        ("[Content_Types].xml", CT.as_bytes()),
        ("_rels/.rels", RELS.as_bytes()),
        ("word/_rels/document.xml.rels", NODOCRELS.as_bytes()),
        ("word/document.xml", document),
    ])
}

/// package with the main document and one further part reached through a
/// relationship of the given type
pub fn mini_with(document: &[u8], rel: &str, name: &str, part: &[u8]) -> Vec<u8> {
    let rels = format!(
        r#"<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="{}" Target="{}"/></Relationships>"#,
        rel, name
    );
    let path = format!("word/{}", name);
    zip_parts(&[
        ("[Content_Types].xml", CT.as_bytes()),
        ("_rels/.rels", RELS.as_bytes()),
        ("word/_rels/document.xml.rels", rels.as_bytes()),
        ("word/document.xml", document),
        (&path, part),
    ])
}

/// main document part around body content
pub fn doc_around(body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + NS.len() + 100);
    v.extend_from_slice(br#"<?xml version="1.0" encoding="UTF-8"?><w:document"#);
    v.extend_from_slice(NS.as_bytes());
    v.extend_from_slice(b"><w:body>");
    v.extend_from_slice(body);
    v.extend_from_slice(b"</w:body></w:document>");
    v
}

// ---- strict XML parser (oracle) --------------------------------------------

#[derive(Clone, Debug)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, Vec<u8>)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug)]
pub enum Node {
    E(El),
    T(Vec<u8>),
}

type R<T> = Result<T, &'static str>;

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

fn name_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b':' || c >= 0x80
}
fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'
}

impl<'a> P<'a> {
    fn peek(&self) -> R<u8> {
        if self.i < self.b.len() {
            Ok(self.b[self.i])
        } else {
            Err("unexpected end of part")
        }
    }
    fn starts(&self, s: &str) -> bool {
        self.b.len() - self.i >= s.len() && &self.b[self.i..self.i + s.len()] == s.as_bytes()
    }
    fn skip_ws(&mut self) -> bool {
        let s = self.i;
        while self.i < self.b.len() && ws(self.b[self.i]) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> R<String> {
        let s = self.i;
        while self.i < self.b.len() && name_char(self.b[self.i]) {
            self.i += 1;
        }
        if self.i == s {
            return Err("name expected");
        }
        let c = self.b[s];
        if c == b'-' || c == b'.' || c.is_ascii_digit() {
            return Err("bad name start");
        }
        Ok(unsafe { String::from_utf8_unchecked(self.b[s..self.i].to_vec()) })
    }
    fn reference(&mut self, out: &mut Vec<u8>) -> R<()> {
        // at '&'
        for (n, c) in [("&amp;", b'&'), ("&lt;", b'<'), ("&gt;", b'>'), ("&quot;", b'"'), ("&apos;", b'\'')] {
            if self.starts(n) {
                self.i += n.len();
                out.push(c);
                return Ok(());
            }
        }
        if self.starts("&#") {
            self.i += 2;
            let hex = self.peek()? == b'x';
            if hex {
                self.i += 1;
            }
            let mut v: u32 = 0;
            let mut n = 0;
            loop {
                let c = self.peek()?;
                self.i += 1;
                if c == b';' {
                    break;
                }
                let d = match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' if hex => c - b'a' + 10,
                    b'A'..=b'F' if hex => c - b'A' + 10,
                    _ => return Err("bad character reference"),
                };
                v = v.wrapping_mul(if hex { 16 } else { 10 }).wrapping_add(d as u32);
                n += 1;
            }
            if n == 0 || n > 7 {
                return Err("bad character reference");
            }
            let ch = char::from_u32(v).ok_or("bad character reference")?;
            if (v < 0x20 && v != 9 && v != 10 && v != 13) || v == 0 {
                return Err("illegal character reference");
            }
            let mut buf = [0; 4];
            out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
            return Ok(());
        }
        Err("stray ampersand")
    }
    fn legal(c: u8) -> bool {
        c >= 0x20 || c == 9 || c == 10 || c == 13
    }
    fn attr_value(&mut self) -> R<Vec<u8>> {
        let q = self.peek()?;
        if q != b'"' && q != b'\'' {
            return Err("unquoted attribute value");
        }
        self.i += 1;
        let mut v = vec![];
        loop {
            let c = self.peek()?;
            if c == q {
                self.i += 1;
                return Ok(v);
            }
            if c == b'<' {
                return Err("raw < in attribute value");
            }
            if c == b'&' {
                self.reference(&mut v)?;
                continue;
            }
            if !Self::legal(c) {
                return Err("illegal character");
            }
            v.push(c);
            self.i += 1;
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.skip_ws();
            if self.i < self.b.len() && self.starts("<!--") {
                self.comment()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        while !self.starts("-->") {
            if self.i >= self.b.len() {
                return Err("unterminated comment");
            }
            if self.starts("--") {
                return Err("-- in comment");
            }
            self.i += 1;
        }
        self.i += 3;
        Ok(())
    }
    fn element(&mut self, ns: &mut Vec<String>) -> R<El> {
        // at '<'
        self.i += 1;
        let name = self.name()?;
        let mut attrs: Vec<(String, Vec<u8>)> = vec![];
        let depth = ns.len();
        let open;
        loop {
            let had = self.skip_ws();
            let c = self.peek()?;
            if c == b'>' {
                self.i += 1;
                open = true;
                break;
            }
            if c == b'/' {
                self.i += 1;
                if self.peek()? != b'>' {
                    return Err("bad empty element tag");
                }
                self.i += 1;
                open = false;
                break;
            }
            if !had {
                return Err("white space expected between attributes");
            }
            let n = self.name()?;
            self.skip_ws();
            if self.peek()? != b'=' {
                return Err("= expected");
            }
            self.i += 1;
            self.skip_ws();
            let v = self.attr_value()?;
            if attrs.iter().any(|(m, _)| *m == n) {
                return Err("duplicate attribute");
            }
            if let Some(p) = n.strip_prefix("xmlns:") {
                ns.push(p.to_string());
            }
            attrs.push((n, v));
        }
        let bound = |n: &str, ns: &Vec<String>| match n.split_once(':') {
            None => true,
            Some((p, l)) => {
                !l.is_empty() && !l.contains(':') && (p == "xml" || p == "xmlns" || ns.iter().any(|x| x == p))
            }
        };
        if !bound(&name, ns) || attrs.iter().any(|(n, _)| !bound(n, ns)) {
            return Err("unbound namespace prefix");
        }
        let mut e = El { name, attrs, kids: vec![] };
        if !open {
            ns.truncate(depth);
            return Ok(e);
        }
        let mut text = vec![];
        loop {
            let c = self.peek()?;
            if c == b'<' {
                if !text.is_empty() {
                    e.kids.push(Node::T(std::mem::take(&mut text)));
                }
                if self.starts("</") {
                    self.i += 2;
                    let n = self.name()?;
                    if n != e.name {
                        return Err("mismatched end tag");
                    }
                    self.skip_ws();
                    if self.peek()? != b'>' {
                        return Err("bad end tag");
                    }
                    self.i += 1;
                    ns.truncate(depth);
                    return Ok(e);
                }
                if self.starts("<!--") {
                    self.comment()?;
                    continue;
                }
                if self.starts("<!") || self.starts("<?") {
                    return Err("unexpected markup");
                }
                e.kids.push(Node::E(self.element(ns)?));
            } else if c == b'&' {
                self.reference(&mut text)?;
            } else {
                if !Self::legal(c) {
                    return Err("illegal character");
                }
                if c == b'>' && text.len() >= 2 && &self.b[self.i - 2..self.i] == b"]]" {
                    return Err("]]> in character data");
                }
                text.push(c);
                self.i += 1;
            }
        }
    }
}

/// parse a complete XML part; Err when it is not (namespace-)well-formed
pub fn parse(b: &[u8]) -> R<El> {
    let mut p = P { b, i: 0 };
    if p.starts("<?xml") {
        p.i = 5;
        while !p.starts("?>") {
            if p.i >= b.len() {
                return Err("unterminated declaration");
            }
            p.i += 1;
        }
        p.i += 2;
    }
    p.misc()?;
    if p.peek()? != b'<' {
        return Err("root expected");
    }
    let e = p.element(&mut vec![])?;
    p.misc()?;
    if p.i != b.len() {
        return Err("content after root");
    }
    Ok(e)
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&[u8]> {
        self.attrs.iter().find(|(m, _)| m == n).map(|(_, v)| &v[..])
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::E(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&El> {
        self.els().find(|e| e.name == n)
    }
    /// descend along a /-separated path, taking the first match at each step
    pub fn at(&self, path: &str) -> Option<&El> {
        let mut e = self;
        for s in path.split('/') {
            e = e.child(s)?;
        }
        Some(e)
    }
    pub fn text(&self) -> Vec<u8> {
        let mut v = vec![];
        for k in &self.kids {
            if let Node::T(t) = k {
                v.extend_from_slice(t);
            }
        }
        v
    }
    pub fn count(&self, n: &str) -> usize {
        self.els().filter(|e| e.name == n).count()
    }
    /// all descendants (document order) with the name
    pub fn all<'a>(&'a self, n: &str, out: &mut Vec<&'a El>) {
        for e in self.els() {
            if e.name == n {
                out.push(e);
            }
            e.all(n, out);
        }
    }
    /// structure without attribute values and text
    pub fn shape(&self, out: &mut Vec<u8>) {
        out.push(b'(');
        out.extend_from_slice(self.name.as_bytes());
        for (n, _) in &self.attrs {
            out.push(b' ');
            out.extend_from_slice(n.as_bytes());
        }
        for k in &self.kids {
            match k {
                Node::E(e) => e.shape(out),
                Node::T(_) => out.push(b'T'),
            }
        }
        out.push(b')');
    }
}

// ---- expectations about a property container --------------------------------

pub enum Val {
    /// exact attribute value
    S(Vec<u8>),
    /// an on/off value that must mean "on" (absent also means on)
    On,
    /// an on/off value that must mean "off"
    Off,
    /// must be present, any value
    Any,
}

/// expected children of an element: name, complete attribute set, children.
/// Children of different names may come in any order, those of the same name
/// in the given one.
#[derive(Default)]
pub struct Exp {
    pub els: Vec<Want>,
}
pub struct Want {
    pub name: &'static str,
    pub attrs: Vec<(&'static str, Val)>,
    pub kids: Exp,
}

pub fn dec<T: ToString>(v: T) -> Val {
    Val::S(v.to_string().into_bytes())
}
pub fn st(v: &str) -> Val {
    Val::S(v.as_bytes().to_vec())
}

impl Exp {
    /// setting the same thing again replaces it
    pub fn el(&mut self, name: &'static str, attrs: Vec<(&'static str, Val)>) -> &mut Exp {
        self.drop(name);
        self.push(name, attrs)
    }
    pub fn val(&mut self, name: &'static str, v: Val) -> &mut Exp {
        self.el(name, vec![("w:val", v)])
    }
    pub fn push(&mut self, name: &'static str, attrs: Vec<(&'static str, Val)>) -> &mut Exp {
        self.els.push(Want { name, attrs, kids: Exp::default() });
        &mut self.els.last_mut().unwrap().kids
    }
    pub fn drop(&mut self, name: &'static str) {
        self.els.retain(|w| w.name != name);
    }
    pub fn get(&mut self, name: &'static str) -> Option<&mut Want> {
        self.els.iter_mut().find(|w| w.name == name)
    }
    /// `e` must hold exactly the expected children, each with exactly the
    /// expected attributes
    pub fn verify(&self, e: Option<&El>, id: &str) {
        let Some(e) = e else {
            if let Some(w) = self.els.first() {
                sx::check_eq(b"(nothing)", w.name.as_bytes(), id);
            }
            return;
        };
        for c in e.els() {
            if !self.els.iter().any(|w| *w.name == c.name) {
                sx::check_eq(c.name.as_bytes(), b"(nothing)", id);
            }
        }
        let mut done: Vec<&str> = vec![];
        for w in &self.els {
            if done.contains(&w.name) {
                continue;
            }
            done.push(w.name);
            let want: Vec<&Want> = self.els.iter().filter(|x| x.name == w.name).collect();
            let got: Vec<&El> = e.els().filter(|x| x.name == w.name).collect();
            if want.len() != got.len() {
                let m = format!("{} x {}", w.name, got.len());
                let k = format!("{} x {}", w.name, want.len());
                sx::check_eq(m.as_bytes(), k.as_bytes(), id);
                continue;
            }
            for (w, c) in want.iter().zip(got) {
                w.verify_one(c, id);
                w.kids.verify(Some(c), id);
            }
        }
    }
}

impl Want {
    fn verify_one(&self, c: &El, id: &str) {
        for (a, _) in &c.attrs {
            if !self.attrs.iter().any(|(m, _)| m == a) {
                sx::check_eq(a.as_bytes(), b"(no attribute)", id);
            }
        }
        for (a, v) in &self.attrs {
            match (c.attr(a), v) {
                (Some(x), Val::S(v)) => sx::check_eq(x, v, id),
                (None, Val::S(_)) => sx::check_eq(b"(no attribute)", a.as_bytes(), id),
                (x, Val::On) => sx::check(matches!(x, None | Some(b"true") | Some(b"1") | Some(b"on")), id),
                (x, Val::Off) => sx::check(matches!(x, Some(b"false") | Some(b"0") | Some(b"off")), id),
                (Some(_), Val::Any) => {}
                (None, Val::Any) => sx::check_eq(b"(no attribute)", a.as_bytes(), id),
            }
        }
    }
}

/// upper-case letters A-F (colour-like), all symbolic
pub fn hex(n: usize) -> String {
    sx::alpha(n, b'A', b'F')
}
/// lower-case identifier, all symbolic
pub fn ident(n: usize) -> String {
    sx::alpha(n, b'a', b'z')
}

/// parse the part with the oracle; a part that is not well-formed is reported
/// under `id`
pub fn part(b: &[u8], id: &str) -> Option<El> {
    match parse(b) {
        Ok(e) => Some(e),
        Err(m) => {
            sx::check_eq(m.as_bytes(), b"well-formed", id);
            None
        }
    }
}

/// read a package; a refusal is reported under `id`
pub fn read_ok(b: &[u8], id: &str) -> Option<Docx> {
    match read_docx(b) {
        Ok(d) => Some(d),
        Err(_) => {
            sx::check_eq(b"refused", b"read", id);
            None
        }
    }
}

/// symbolic choice between the values of a list
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[sx::choice(v.len())]
}

// Numbers: all values of up to seven digits symbolically, and windows around
// the ends of the 16/31/32-bit ranges.
pub fn u32w() -> u32 {
    match sx::choice(3) {
        0 => sx::u32v(0, 9_999_999),
        1 => sx::u32v(0x7fff_fff8, 0x8000_0007),
        _ => sx::u32v(0xffff_fff0, 0xffff_ffff),
    }
}
pub fn usizew() -> usize {
    u32w() as usize
}
pub fn i31w() -> i32 {
    match sx::choice(2) {
        0 => sx::u32v(0, 9_999_999) as i32,
        _ => sx::u32v(0x7fff_fff0, 0x7fff_ffff) as i32,
    }
}
pub fn i32w() -> i32 {
    match sx::choice(4) {
        0 => sx::u32v(0, 9_999_999) as i32,
        1 => sx::u32v(0x7fff_fff0, 0x7fff_ffff) as i32,
        2 => -(sx::u32v(1, 9_999_999) as i32),
        _ => i32::MIN.wrapping_add(sx::u32v(0, 1) as i32),
    }
}

// ---- comparing packages -------------------------------------------------------

/// identifiers the library generates: they must correspond one to one
#[derive(Default)]
pub struct Ids {
    map: Vec<(u8, Vec<u8>, Vec<u8>)>,
}
fn id_space(e: &str, a: &str) -> u8 {
    match (e, a) {
        (_, "w14:paraId") | (_, "w15:paraId") | (_, "w15:paraIdParent") => 1,
        ("w:ins", "w:id") | ("w:del", "w:id") | ("w:moveFrom", "w:id") | ("w:moveTo", "w:id") | ("w:pPrChange", "w:id") => 2,
        ("w:footnote", "w:id") | ("w:footnoteReference", "w:id") => 3,
        (_, "r:id") | (_, "r:embed") | ("Relationship", "Id") => 4,
        ("wp:docPr", "id") | ("pic:cNvPr", "id") => 5,
        _ => 0,
    }
}
impl Ids {
    fn same(&mut self, sp: u8, a: &[u8], b: &[u8], id: &str) {
        for (s, x, y) in &self.map {
            if *s == sp {
                if x == a || y == b {
                    sx::check_eq(x, a, id);
                    sx::check_eq(y, b, id);
                    return;
                }
            }
        }
        self.map.push((sp, a.to_vec(), b.to_vec()));
    }
}

fn subst(v: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        if !from.is_empty() && v.len() - i >= from.len() && &v[i..i + from.len()] == from {
            o.extend_from_slice(to);
            i += from.len();
        } else {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}

/// `b` is `a` with every occurrence of `from` in attribute values and text
/// replaced by `to`
pub fn same_tree(a: &El, b: &El, from: &[u8], to: &[u8], ids: &mut Ids, id: &str) {
    sx::check_eq(b.name.as_bytes(), a.name.as_bytes(), id);
    let (na, nb): (Vec<&str>, Vec<&str>) =
        (a.attrs.iter().map(|x| &x.0[..]).collect(), b.attrs.iter().map(|x| &x.0[..]).collect());
    if na != nb {
        sx::check_eq(nb.join(" ").as_bytes(), na.join(" ").as_bytes(), id);
        return;
    }
    for ((n, v), (_, w)) in a.attrs.iter().zip(&b.attrs) {
        match id_space(&a.name, n) {
            0 => sx::check_eq(w, &subst(v, from, to), id),
            sp => ids.same(sp, v, w, id),
        }
    }
    let ta = a.text();
    let tb = b.text();
    sx::check_eq(&tb, &subst(&ta, from, to), id);
    let (ka, kb): (Vec<&El>, Vec<&El>) = (a.els().collect(), b.els().collect());
    if ka.len() != kb.len() {
        let f = |v: &Vec<&El>| v.iter().map(|e| &e.name[..]).collect::<Vec<_>>().join(" ");
        sx::check_eq(f(&kb).as_bytes(), f(&ka).as_bytes(), id);
        return;
    }
    for (x, y) in ka.into_iter().zip(kb) {
        same_tree(x, y, from, to, ids, id);
    }
}

pub fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

/// all XML parts parsed by the oracle
pub fn trees(b: &[u8], id: &str) -> Option<Vec<(String, El)>> {
    let mut v = vec![];
    for (n, d) in unzip(b) {
        if is_xml(&n) {
            match parse(&d) {
                Ok(e) => v.push((n, e)),
                Err(m) => {
                    let m = format!("{}: {}", n, m);
                    sx::check_eq(m.as_bytes(), b"well-formed", id);
                    return None;
                }
            }
        }
    }
    Some(v)
}

/// packages correspond part by part
pub fn same_package(a: &[(String, El)], b: &[(String, El)], from: &[u8], to: &[u8], id: &str) {
    let f = |v: &[(String, El)]| v.iter().map(|e| e.0.clone()).collect::<Vec<_>>().join(" ");
    let (x, y) = (f(a), f(b));
    sx::check_eq(y.as_bytes(), x.as_bytes(), id);
    if x != y {
        return;
    }
    let mut ids = Ids::default();
    for ((_, p), (_, q)) in a.iter().zip(b) {
        same_tree(p, q, from, to, &mut ids, id);
    }
}
