#!/usr/bin/env python3
"""Creates and tries planted bugs (development aid; no check uses it).

  seed.py make SPEC.py          SPEC defines a list S of dicts id, property,
                                edits [(file, old, new)], needs, breaks, demo
  seed.py try ID [ID..]         demo on the clean tree, demo, tests and check with the patch
"""
import json, os, subprocess, sys, time

V = "/verif/seeded"
R = "/repo"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is as documented, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" || exit 2
cp "$here/demo.rs" "$w/src/main.rs" && cp /repo/Cargo.lock "$w/" || exit 2
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
docx-rs = { path = "/repo/docx-core" }
zip = { version = "8.6.0", default-features = false, features = ["deflate"] }
serde_json = "1.0"
[workspace]
X
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" timeout 280 cargo run --offline -q
"""
PRE = """use docx_rs::*;
use std::io::{Cursor, Read, Write};
#[allow(dead_code)]
fn pack(mut d: Docx) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    d.build().pack(&mut c).unwrap();
    c.into_inner()
}
#[allow(dead_code)]
fn part(b: &[u8], n: &str) -> String {
    let mut z = zip::ZipArchive::new(Cursor::new(b)).unwrap();
    let mut s = String::new();
    z.by_name(n).unwrap().read_to_string(&mut s).unwrap();
    s
}
#[allow(dead_code)]
fn zipped(parts: &[(&str, &str)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
    for (n, d) in parts {
        z.start_file(*n, zip::write::SimpleFileOptions::default()).unwrap();
        z.write_all(d.as_bytes()).unwrap();
    }
    z.finish().unwrap().into_inner()
}
#[allow(dead_code)]
fn package(body: &str) -> Vec<u8> {
    zipped(&[
        ("[Content_Types].xml", r#"<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/></Types>"#),
        ("_rels/.rels", r#"<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="word/document.xml"/></Relationships>"#),
        ("word/_rels/document.xml.rels", r#"<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"></Relationships>"#),
        ("word/document.xml", &format!(r#"<?xml version="1.0"?><w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:wp="http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><w:body>{body}</w:body></w:document>"#)),
    ])
}
"""


def sh(cmd, t=1200):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def clean():
    assert sh("git -C /repo status --porcelain")[1].strip() == "", "repo not clean"


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    clean()
    for s in g["S"]:
        d = os.path.join(V, s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open(p, "w").write(t.replace(a, b))
            diff = sh("git -C /repo diff")[1]
        finally:
            sh("git -C /repo checkout -- .")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(PRE + "\nfn main() {\n" + s["demo"].strip("\n") + "\n}\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])


def try_(i):
    d = os.path.join(V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    a, o1 = sh("cd /repo && bash %s/demo.sh" % d)
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    assert rc == 0, o
    try:
        b, o2 = sh("cd /repo && bash %s/demo.sh" % d)
        tests = ""
        if "--tests" in sys.argv:
            tests = sh("bash /tmp/rt.sh")[1].strip().splitlines()[:3]
        t = time.time()
        c, o3 = sh("python3 /verif/tools/check.py %s" % prop)
        t = time.time() - t
    finally:
        sh("git -C /repo checkout -- .")
    vio = [l for l in o3.splitlines() if l.startswith("VIOLATION")]
    good = a == 0 and b not in (0, 2, 124) and c == 1
    print("%s %s %s: demo clean=%d patched=%d check=%d (%.0fs) %s %s" % ("OK  " if good else "MISS", i, prop, a, b, c, t, vio[:1], tests))
    if a:
        print(o1[-1500:])
    if b in (0, 2, 124) or "error" in o2 and "panicked" not in o2:
        print(o2[-1500:])
    if c != 1:
        print(o3[-600:])
    else:
        print("     ", [l for l in o3.splitlines() if l.startswith("  ")][:1])
    sys.stdout.flush()


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    for i in sys.argv[2:]:
        if not i.startswith("--"):
            try_(i)
