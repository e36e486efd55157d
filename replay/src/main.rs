#![allow(warnings)]
//! Native replay: runs harnesses against the real code on recorded inputs.
//! usage: replay FILE   -- one vector per line: "harness v0 v1 v2 ..."
//! prints one JSON line per vector.
#[path = "../../harness/src/harnesses/mod.rs"]
mod harnesses;
#[allow(dead_code)]
#[path = "../../harness/src/sx.rs"]
mod sx;
include!(concat!(env!("OUT_DIR"), "/table.rs"));

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let f = std::env::args().nth(1).expect("file");
    let text = std::fs::read_to_string(f).expect("read");
    std::panic::set_hook(Box::new(|_| {}));
    for line in text.lines() {
        let mut it = line.split_whitespace();
        let Some(h) = it.next() else { continue };
        let inputs: Vec<u64> = it.map(|v| v.parse().unwrap()).collect();
        let Some(fun) = lookup(h) else {
            println!("{{\"error\":\"no harness {}\"}}", h);
            continue;
        };
        // "run" line first, so that a hang or abort identifies its vector
        println!("{{\"run\":\"{}\"}}", h);
        let t = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                sx::CTX.with(|c| *c.borrow_mut() = sx::new(inputs));
                let r = std::panic::catch_unwind(|| fun());
                let msg = r.err().map(|e| {
                    e.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "panic".into())
                });
                sx::CTX.with(|c| {
                    let c = c.borrow();
                    let failed: Vec<String> = c
                        .failed
                        .iter()
                        .map(|(i, d)| format!("[\"{}\",\"{}\"]", esc(i), esc(d)))
                        .collect();
                    format!(
                        "{{\"failed\":[{}],\"panic\":{},\"allow\":{},\"assumed_away\":{},\"obs\":\"{:016x}\",\"nobs\":{},\"underrun\":{},\"site\":\"{}\"}}",
                        failed.join(","),
                        match &msg {
                            Some(m) => format!("\"{}\"", esc(m)),
                            None => "null".into(),
                        },
                        c.allow_panic,
                        c.assumed_away,
                        c.obs,
                        c.nobs,
                        c.underrun,
                        esc(&c.site)
                    )
                })
            })
            .unwrap();
        println!("{}", t.join().unwrap());
    }
}
