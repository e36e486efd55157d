use std::io::Write;
fn main() {
    let dir = std::path::Path::new("../harness/src");
    println!("cargo:rerun-if-changed=../harness/src");
    let mut names = vec![];
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(&p, v);
            } else {
                v.push(p);
            }
        }
    }
    let mut files = vec![];
    walk(dir, &mut files);
    for f in files {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub extern \"C-unwind\" fn h_") {
                let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                names.push(format!("h_{n}"));
            }
        }
    }
    names.sort();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs");
    let mut f = std::fs::File::create(out).unwrap();
    writeln!(f, "extern \"C-unwind\" {{").unwrap();
    for n in &names {
        writeln!(f, "fn {n}();").unwrap();
    }
    writeln!(f, "}}\nfn lookup(n: &str) -> Option<fn()> {{ match n {{").unwrap();
    for n in &names {
        writeln!(f, "\"{n}\" => Some(|| unsafe {{ {n}() }}),").unwrap();
    }
    writeln!(f, "_ => None }} }}").unwrap();
}
