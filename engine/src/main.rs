mod exec;
mod expr;
mod selftest;
mod wasm;
mod z3;

use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicI64,
    stop: AtomicI64,
    paths: AtomicI64,
    procs: AtomicI64,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    if args[1] == "--selftest" {
        match selftest::run(num("--iters", 20000), num("--seed", 1)) {
            Ok(m) => println!("{m}"),
            Err(e) => {
                println!("SELFTEST FAILED: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let file = &args[1];
    let harness = args[2].clone();
    let out = get("--out").unwrap_or_else(|| "/dev/stdout".into());
    let jobs = num("--jobs", 1) as i64;
    let time = num("--time", 600);
    let bytes = std::fs::read(file).expect("module");
    let m: &'static wasm::Module = Box::leak(Box::new(wasm::decode(&bytes)));
    if harness == "--list" {
        let mut v: Vec<&String> = m.exports.keys().collect();
        v.sort();
        for e in v {
            println!("{e}");
        }
        return;
    }
    let cfg = Cfg {
        max_steps: num("--max-steps", 300_000_000),
        trace: args.iter().any(|a| a == "--trace"),
        verbose_conc: std::env::var("SX_VERBOSE").is_ok(),
        max_pages: num("--max-pages", 8192),
        deep: args.iter().any(|a| a == "--deep"),
    };
    let mut e = Engine::new(m, cfg, num("--rlimit", 60_000_000) as u32);
    e.sample_cap = num("--samples", 40);
    e.profile = args.iter().any(|a| a == "--profile");
    if let Some(d) = get("--dump") {
        e.z.dump = Some((d, num("--dump-every", 50)));
    }
    if !e.start(&harness) {
        eprintln!("no harness {harness}");
        std::process::exit(3);
    }
    let max_paths = num("--max-paths", u64::MAX >> 1) as i64;
    let t0 = Instant::now();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    sh.active.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    let mut root = true;
    let mut kids: Vec<i32> = vec![];
    let mut last = Instant::now();
    let mut timed_out = false;
    let mut reported = 0;
    while !e.work.is_empty() {
        if t0.elapsed().as_secs() > time {
            timed_out = true;
            break;
        }
        if sh.paths.load(SeqCst) >= max_paths {
            timed_out = true;
            break;
        }
        e.run_one();
        let p = e.st.paths as i64;
        sh.paths.fetch_add(p - reported, SeqCst);
        reported = p;
        while e.work.len() > 1 && jobs > 1 && last.elapsed().as_millis() >= 2 {
            let a = sh.active.load(SeqCst);
            if a >= jobs {
                break;
            }
            if sh
                .active
                .compare_exchange(a, a + 1, SeqCst, SeqCst)
                .is_err()
            {
                continue;
            }
            // hand half of the oldest states to a child
            let n = (e.work.len() / 2).max(1).min(64);
            let pid = unsafe { fork() };
            if pid < 0 {
                sh.active.fetch_sub(1, SeqCst);
                break;
            }
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                }
                root = false;
                kids.clear();
                e.work.truncate(n);
                e.out.clear();
                e.st = Stats::default();
                e.reach.clear();
                e.incon.clear();
                e.viol_keys.clear();
                e.fork_sites.clear();
                e.samples = 0;
                e.sample_cap = e.sample_cap.min(8);
                e.z.queries = 0;
                e.z.sat = 0;
                e.z.unsat = 0;
                e.z.unknown = 0;
                e.z.secs = 0.0;
                e.z.max_secs = 0.0;
                reported = 0;
                last = Instant::now();
                sh.procs.fetch_add(1, SeqCst);
            } else {
                e.work.drain(..n);
                kids.push(pid);
                last = Instant::now();
            }
            break;
        }
    }
    if timed_out {
        *e.incon
            .entry("time or path limit reached".into())
            .or_default() += e.work.len() as u64;
    }
    // children of this process
    sh.active.fetch_sub(1, SeqCst);
    let mut bad = 0;
    let mut buf = String::new();
    for k in kids {
        let mut st = 0i32;
        unsafe { waitpid(k, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    if bad > 0 {
        *e.incon.entry("worker process died".into()).or_default() += bad;
    }
    for l in &e.out {
        buf.push_str(l);
        buf.push('\n');
    }
    let s = &e.st;
    buf.push_str(&format!(
        "{{\"t\":\"stat\",\"harness\":\"{}\",\"paths\":{},\"assumed_away\":{},\"allowed_panics\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"dom\":{},\"cache\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"exprs\":{},\"max_steps\":{},\"max_inputs\":{},\"concretized\":{},\"closing\":{},\"confirmed\":{}}}\n",
        harness, s.paths, s.assumed_away, s.allowed_panics, s.steps, s.forks, s.asserts, s.asserts_folded, s.asserts_solver,
        s.dom_decisions, s.cache_hits, e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.secs, e.z.max_secs, e.ar.n.len(), s.max_path_steps, s.max_inputs, s.concretized, s.closing, s.confirmed
    ));
    for (k, v) in &e.reach {
        buf.push_str(&format!("{{\"t\":\"reach\",\"id\":\"{k}\",\"n\":{v}}}\n"));
    }
    for (k, v) in &e.incon {
        buf.push_str(&format!(
            "{{\"t\":\"incon\",\"why\":\"{k}\",\"n\":{v}}}\n"
        ));
    }
    let mut fns: Vec<String> = vec![];
    for (i, t) in e.touched.iter().enumerate() {
        if *t {
            if let Some(n) = m.names.get(&(i as u32)) {
                if n.contains("docx_rs") {
                    fns.push(format!("\"{n}\""));
                }
            }
        }
    }
    buf.push_str(&format!("{{\"t\":\"fns\",\"f\":[{}]}}\n", fns.join(",")));
    let mut f = std::fs::OpenOptions::new()
        .append(true)
        .create(true)
        .open(&out)
        .expect("out");
    f.write_all(buf.as_bytes()).unwrap();
    if e.profile {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((fun, pc), n) in v.iter().take(25) {
            eprintln!("fork {n:6} {}+{pc}", m.names.get(fun).cloned().unwrap_or_default());
        }
        let mut v: Vec<_> = e.fprof.iter().enumerate().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (fun, n) in v.iter().take(25) {
            eprintln!("steps {n:10} {}", m.names.get(&(*fun as u32)).cloned().unwrap_or_default());
        }
    }
    if root && args.iter().any(|a| a == "-v") {
        eprintln!(
            "{harness}: procs {} {:.1}s",
            sh.procs.load(SeqCst),
            t0.elapsed().as_secs_f64()
        );
    }
    unsafe { _exit(0) }
}
