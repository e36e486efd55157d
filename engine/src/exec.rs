//! Symbolic interpreter for one wasm64 module: forks at symbolic branches,
//! keeps a satisfying model per state, and asks Z3 for everything the exact
//! domain reasoning cannot settle.
use crate::expr::*;
use crate::wasm::{self, Ld, Module, Op as W};
use crate::z3::{Z3, R};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub b: u64,
    pub s: E,
}
fn cv(b: u64) -> V {
    V { b, s: 0 }
}

pub const PG: usize = 4096;
#[derive(Clone)]
pub struct Page {
    d: [u8; PG],
    s: Option<Box<[E; PG]>>,
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    pc: u32,
    base: u32,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub kind: u8, // 0 var, 1 choice
    pub e: E,
    pub val: u64, // for choices
}

#[derive(Clone)]
pub struct State {
    stack: Vec<V>,
    frames: Vec<Frame>,
    mem: Vec<Rc<Page>>,
    globals: Vec<V>,
    pc: Vec<E>,
    facts: FxMap<E, (u64, u64)>,
    dom: FxMap<E, Bits>,
    ent: HashSet<E>,
    model: Vec<u64>,
    inputs: Vec<Input>,
    steps: u64,
    forks: u32,
    obs: Vec<V>,
    /// operands of the assertions passed so far, for the closing query
    checks: Vec<(E, E)>,
    allow_panic: bool,
    site: Rc<str>,
    started: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub allowed_panics: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_folded: u64,
    pub asserts_solver: u64,
    pub dom_decisions: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub path_witness: u64,
    pub max_path_steps: u64,
    pub max_inputs: u64,
    pub concretized: u64,
    pub closing: u64,
    pub confirmed: u64,
}

pub enum Out {
    Done,
    Dead,
}

pub struct Cfg {
    pub max_steps: u64,
    pub trace: bool,
    pub verbose_conc: bool,
    pub max_pages: u64,
    pub deep: bool,
}

pub struct Engine {
    pub m: &'static Module,
    pub ar: Arena,
    pub z: Z3,
    pub st: Stats,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub out: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub incon: BTreeMap<String, u64>,
    pub touched: Vec<bool>,
    pub viol_keys: HashMap<String, u32>,
    pub samples: u64,
    pub sample_cap: u64,
    zero: Rc<Page>,
    init_mem: Vec<Rc<Page>>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    imports: Vec<Imp>,
    builtins: Vec<u8>, // per function index
    nimp: usize,
    harness: String,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub profile: bool,
    pub fprof: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Imp {
    Var,
    Choice,
    Assume,
    Assert,
    AssertEq,
    Reach,
    Obs,
    Panic,
    AllowPanic,
    Site,
    Deep,
    IsSym,
    Unknown,
}

const B_NONE: u8 = 0;
const B_MEMCPY: u8 = 1;
const B_MEMSET: u8 = 2;
const B_MEMCMP: u8 = 3;
const B_BCMP: u8 = 4;
const B_PANIC: u8 = 5;
const B_STRLEN: u8 = 6;

enum Step {
    Go,
    Redo,
    Fork,
    End(Out),
}

fn jesc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl Engine {
    pub fn new(m: &'static Module, cfg: Cfg, rlimit: u32) -> Engine {
        let zero = Rc::new(Page {
            d: [0; PG],
            s: None,
        });
        let npages = (m.mem_min * 65536) as usize / PG;
        let mut mem = vec![zero.clone(); npages];
        for (off, data) in &m.data {
            for (i, b) in data.iter().enumerate() {
                let a = *off as usize + i;
                Rc::make_mut(&mut mem[a / PG]).d[a % PG] = *b;
            }
        }
        let imports = m
            .imports
            .iter()
            .map(|(_, n, _)| match n.as_str() {
                "sx_var" => Imp::Var,
                "sx_choice" => Imp::Choice,
                "sx_assume" => Imp::Assume,
                "sx_assert" => Imp::Assert,
                "sx_assert_eq" => Imp::AssertEq,
                "sx_reach" => Imp::Reach,
                "sx_obs" => Imp::Obs,
                "sx_panic" => Imp::Panic,
                "sx_allow_panic" => Imp::AllowPanic,
                "sx_site" => Imp::Site,
                "sx_deep" => Imp::Deep,
                "sx_is_sym" => Imp::IsSym,
                _ => Imp::Unknown,
            })
            .collect();
        let nimp = m.imports.len();
        let mut builtins = vec![B_NONE; nimp + m.funcs.len()];
        for (i, n) in &m.names {
            builtins[*i as usize] = match n.as_str() {
                "memcpy" | "memmove" => B_MEMCPY,
                "memset" => B_MEMSET,
                "memcmp" => B_MEMCMP,
                "bcmp" => B_BCMP,
                "strlen" => B_STRLEN,
                _ if n.contains("core9panicking9panic_fmt") || n.contains("core9panicking18panic_nounwind_fmt") => B_PANIC,
                _ => B_NONE,
            };
        }
        Engine {
            m,
            ar: Arena::new(),
            z: Z3::new(rlimit),
            st: Stats::default(),
            cfg,
            work: vec![],
            out: vec![],
            reach: BTreeMap::new(),
            incon: BTreeMap::new(),
            touched: vec![false; nimp + m.funcs.len()],
            viol_keys: HashMap::new(),
            samples: 0,
            sample_cap: 64,
            zero,
            init_mem: mem,
            cache: HashMap::new(),
            imports,
            builtins,
            nimp,
            harness: String::new(),
            fork_sites: HashMap::new(),
            profile: false,
            fprof: vec![0; nimp + m.funcs.len()],
        }
    }

    pub fn start(&mut self, name: &str) -> bool {
        self.harness = name.to_string();
        let Some(&f) = self.m.exports.get(name) else {
            return false;
        };
        let globals = self
            .m
            .globals
            .iter()
            .map(|g| match g {
                wasm::Init::Const(c) => cv(*c),
                wasm::Init::Global(g) => match &self.m.globals[*g as usize] {
                    wasm::Init::Const(c) => cv(*c),
                    _ => panic!(),
                },
            })
            .collect();
        let mut s = State {
            stack: Vec::with_capacity(4096),
            frames: vec![],
            mem: self.init_mem.clone(),
            globals,
            pc: vec![],
            facts: Default::default(),
            dom: Default::default(),
            ent: Default::default(),
            model: vec![],
            inputs: vec![],
            steps: 0,
            forks: 0,
            obs: vec![],
            checks: vec![],
            allow_panic: false,
            site: "".into(),
            started: true,
        };
        self.enter(&mut s, f);
        self.work.push(s);
        true
    }

    fn enter(&mut self, s: &mut State, f: u32) {
        let fun = &self.m.funcs[f as usize - self.nimp];
        self.touched[f as usize] = true;
        let base = s.stack.len() as u32 - fun.nparams;
        for _ in fun.nparams..fun.nlocals {
            s.stack.push(cv(0));
        }
        s.frames.push(Frame {
            func: f,
            pc: 0,
            base,
        });
    }

    fn name(&self, f: u32) -> String {
        self.m
            .names
            .get(&f)
            .cloned()
            .unwrap_or_else(|| format!("f{f}"))
    }

    fn inconclusive(&mut self, why: &str) {
        *self.incon.entry(why.to_string()).or_default() += 1;
    }

    // ---- memory ----------------------------------------------------------
    fn ld(&mut self, s: &State, a: u64, n: usize) -> Option<V> {
        let pi = (a as usize) / PG;
        let po = (a as usize) % PG;
        if po + n <= PG {
            let p = s.mem.get(pi)?;
            let d = &p.d[po..po + n];
            let b = match n {
                1 => d[0] as u64,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                _ => u64::from_le_bytes(d.try_into().unwrap()),
            };
            match &p.s {
                None => return Some(cv(b)),
                Some(sy) => {
                    if sy[po..po + n].iter().all(|x| *x == 0) {
                        return Some(cv(b));
                    }
                }
            }
        }
        if a.checked_add(n as u64)? > (s.mem.len() * PG) as u64 {
            return None;
        }
        // byte-wise assembly
        let mut anysym = false;
        let mut bytes = [(0u8, 0 as E); 8];
        for (i, x) in bytes.iter_mut().enumerate().take(n) {
            let a = a as usize + i;
            let p = &s.mem[a / PG];
            let e = p.s.as_ref().map_or(0, |t| t[a % PG]);
            *x = (p.d[a % PG], e);
            anysym |= e != 0;
        }
        if !anysym {
            let mut r = 0u64;
            for i in 0..n {
                r |= (bytes[i].0 as u64) << (8 * i);
            }
            return Some(cv(r));
        }
        let mut e: Option<E> = None;
        for i in 0..n {
            let x = if bytes[i].1 != 0 {
                bytes[i].1
            } else {
                self.ar.con(8, bytes[i].0 as u64)
            };
            e = Some(match e {
                None => x,
                Some(l) => self.ar.concat(x, l),
            });
        }
        let e = e.unwrap();
        Some(self.val(e))
    }

    fn val(&self, e: E) -> V {
        match self.ar.as_const(e) {
            Some(k) => cv(k),
            None => V { b: 0, s: e },
        }
    }

    fn st(&mut self, s: &mut State, a: u64, n: usize, v: V) -> bool {
        let Some(end) = a.checked_add(n as u64) else {
            return false;
        };
        if end > (s.mem.len() * PG) as u64 {
            return false;
        }
        if v.s == 0 {
            let pi = a as usize / PG;
            let po = a as usize % PG;
            let by = v.b.to_le_bytes();
            if po + n <= PG {
                let p = Rc::make_mut(&mut s.mem[pi]);
                p.d[po..po + n].copy_from_slice(&by[..n]);
                if let Some(sy) = &mut p.s {
                    sy[po..po + n].iter_mut().for_each(|x| *x = 0);
                }
            } else {
                for i in 0..n {
                    self.st_byte(s, a + i as u64, by[i], 0);
                }
            }
            return true;
        }
        for i in 0..n {
            let e = self.ar.extract(v.s, 8 * i as u8, 8);
            let x = self.val(e);
            self.st_byte(s, a + i as u64, x.b as u8, x.s);
        }
        true
    }

    fn st_byte(&mut self, s: &mut State, a: u64, b: u8, e: E) {
        let p = Rc::make_mut(&mut s.mem[a as usize / PG]);
        let o = a as usize % PG;
        p.d[o] = b;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PG]))[o] = e;
        } else if let Some(sy) = &mut p.s {
            sy[o] = 0;
        }
    }

    fn ld_byte(&self, s: &State, a: u64) -> (u8, E) {
        let p = &s.mem[a as usize / PG];
        let o = a as usize % PG;
        (p.d[o], p.s.as_ref().map_or(0, |t| t[o]))
    }

    fn ok_range(&self, s: &State, a: u64, n: u64) -> bool {
        a.checked_add(n)
            .map_or(false, |e| e <= (s.mem.len() * PG) as u64)
    }

    fn memcpy(&mut self, s: &mut State, d: u64, sr: u64, n: u64) {
        if n == 0 || d == sr {
            return;
        }
        // chunk by pages when both are symbol-free, otherwise byte-wise
        let mut i = 0u64;
        let overlap = d > sr && d < sr + n;
        if !overlap {
            while i < n {
                let so = ((sr + i) as usize) % PG;
                let dof = ((d + i) as usize) % PG;
                let l = (PG - so).min(PG - dof).min((n - i) as usize);
                let sp = s.mem[((sr + i) as usize) / PG].clone();
                let dp = Rc::make_mut(&mut s.mem[((d + i) as usize) / PG]);
                // `sp` keeps the old page alive, so same-page copies stay correct
                dp.d[dof..dof + l].copy_from_slice(&sp.d[so..so + l]);
                match (&sp.s, &mut dp.s) {
                    (None, None) => {}
                    (None, Some(t)) => t[dof..dof + l].iter_mut().for_each(|x| *x = 0),
                    (Some(f), Some(t)) => t[dof..dof + l].copy_from_slice(&f[so..so + l]),
                    (Some(f), None) => {
                        if f[so..so + l].iter().any(|x| *x != 0) {
                            let mut t = Box::new([0; PG]);
                            t[dof..dof + l].copy_from_slice(&f[so..so + l]);
                            dp.s = Some(t);
                        }
                    }
                }
                i += l as u64;
            }
        } else {
            let tmp: Vec<(u8, E)> = (0..n).map(|i| self.ld_byte(s, sr + i)).collect();
            for (i, (b, e)) in tmp.into_iter().enumerate() {
                self.st_byte(s, d + i as u64, b, e);
            }
        }
    }

    fn rd_str(&self, s: &State, p: u64, n: u64) -> String {
        if !self.ok_range(s, p, n) || n > 4096 {
            return "?".into();
        }
        let v: Vec<u8> = (0..n)
            .map(|i| {
                let (b, e) = self.ld_byte(s, p + i);
                if e != 0 {
                    b'?'
                } else {
                    b
                }
            })
            .collect();
        String::from_utf8_lossy(&v).into_owned()
    }

    // ---- constraints -----------------------------------------------------
    fn activate(&mut self, s: &mut State) {
        std::mem::swap(&mut self.ar.facts, &mut s.facts);
        self.ar.facts_epoch += 1;
    }
    fn deactivate(&mut self, s: &mut State) {
        std::mem::swap(&mut self.ar.facts, &mut s.facts);
        self.ar.facts_epoch += 1;
    }

    /// record that `e` lies in [lo,hi] (facts of the active state)
    fn fact(&mut self, e: E, lo: u64, hi: u64) {
        let (l0, h0) = self.ar.range(e);
        let (l, h) = (lo.max(l0), hi.min(h0));
        if l > h || (l == l0 && h == h0) {
            return;
        }
        self.ar.facts.insert(e, (l, h));
        self.ar.facts_epoch += 1;
        let n = self.ar.get(e);
        let w = n.w;
        match n.op {
            Op::ZExt => self.fact(n.a, l, h),
            Op::Add => {
                if let Some(c) = self.ar.as_const(n.b) {
                    let (a, b) = (l.wrapping_sub(c) & mask(w), h.wrapping_sub(c) & mask(w));
                    if a <= b {
                        self.fact(n.a, a, b);
                    }
                }
            }
            Op::Sub => {
                if let Some(c) = self.ar.as_const(n.a) {
                    let (a, b) = (c.wrapping_sub(h) & mask(w), c.wrapping_sub(l) & mask(w));
                    if a <= b {
                        self.fact(n.b, a, b);
                    }
                }
            }
            Op::UDiv => {
                if let Some(c) = self.ar.as_const(n.b) {
                    if c > 0 {
                        let a = l.saturating_mul(c);
                        let b = h.saturating_mul(c).saturating_add(c - 1).min(mask(w));
                        self.fact(n.a, a, b);
                    }
                }
            }
            Op::Extract if n.k == 0 => {
                if self.ar.range(n.a).1 <= mask(w) {
                    self.fact(n.a, l, h);
                }
            }
            Op::Ite => {
                let (la, ha) = self.ar.range(n.b);
                let (lb, hb) = self.ar.range(n.c);
                if ha < l || la > h {
                    self.fact(n.a, 0, 0);
                    self.fact(n.c, l, h);
                } else if hb < l || lb > h {
                    self.fact(n.a, 1, 1);
                    self.fact(n.b, l, h);
                }
            }
            _ => {}
        }
    }

    fn add_fact(&mut self, c: E) {
        let n = self.ar.get(c);
        self.fact(c, 1, 1);
        match n.op {
            Op::Ult => {
                let (_, hb) = self.ar.range(n.b);
                let (la, _) = self.ar.range(n.a);
                if hb > 0 {
                    self.fact(n.a, 0, hb - 1);
                }
                let w = self.ar.w(n.b);
                if la < mask(w) {
                    self.fact(n.b, la + 1, mask(w));
                }
            }
            Op::Slt => {
                let w = self.ar.w(n.a);
                let half = 1u64 << (w - 1);
                if self.ar.as_const(n.b) == Some(0) {
                    self.fact(n.a, half, mask(w));
                }
            }
            Op::Eq => {
                let (la, ha) = self.ar.range(n.a);
                let (lb, hb) = self.ar.range(n.b);
                self.fact(n.a, lb, hb);
                self.fact(n.b, la, ha);
            }
            Op::Not => {
                let i = self.ar.get(n.a);
                self.fact(n.a, 0, 0);
                match i.op {
                    Op::Ult => {
                        // a >= b
                        let (lb, _) = self.ar.range(i.b);
                        let (_, ha) = self.ar.range(i.a);
                        let w = self.ar.w(i.a);
                        self.fact(i.a, lb, mask(w));
                        self.fact(i.b, 0, ha);
                    }
                    Op::Slt => {
                        let w = self.ar.w(i.a);
                        if self.ar.as_const(i.b) == Some(0) {
                            self.fact(i.a, 0, mask(w) >> 1);
                        }
                    }
                    Op::Eq => {
                        if let Some(k) = self.ar.as_const(i.b) {
                            let (l, h) = self.ar.range(i.a);
                            if l == k && l < h {
                                self.fact(i.a, l + 1, h);
                            } else if h == k && l < h {
                                self.fact(i.a, l, h - 1);
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }

    fn dom_of(&self, s: &State, v: E) -> Bits {
        if let Some(b) = s.dom.get(&v) {
            return *b;
        }
        let m = self.ar.m[v as usize];
        let mut b = [0u64; 4];
        for x in m.lo..=m.hi.min(255) {
            b[(x / 64) as usize] |= 1 << (x % 64);
        }
        b
    }

    /// add a constraint known to be consistent with the state; model must satisfy it
    fn constrain(&mut self, s: &mut State, c: E) {
        if self.ar.as_const(c).is_some() {
            return;
        }
        let n = self.ar.get(c);
        if n.op == Op::And && n.w == 1 {
            self.constrain(s, n.a);
            self.constrain(s, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = self.ar.get(n.a);
            if i.op == Op::Or && i.w == 1 {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.constrain(s, x);
                self.constrain(s, y);
                return;
            }
        }
        s.pc.push(c);
        if let Some((v, tt)) = self.ar.truth_table(c) {
            let mut d = self.dom_of(s, v);
            for i in 0..4 {
                d[i] &= tt[i];
            }
            s.dom.insert(v, d);
            let lo = (0..256).find(|i| d[i / 64] >> (i % 64) & 1 == 1);
            let hi = (0..256).rev().find(|i| d[i / 64] >> (i % 64) & 1 == 1);
            if let (Some(l), Some(h)) = (lo, hi) {
                self.fact(v, l as u64, h as u64);
            }
        } else {
            // entangle every variable mentioned
            let mut st = vec![c];
            let mut seen = HashSet::new();
            while let Some(x) = st.pop() {
                if self.ar.m[x as usize].supp == 0 || !seen.insert(x) {
                    continue;
                }
                let n = self.ar.get(x);
                match n.op {
                    Op::Const => {}
                    Op::Var => {
                        s.ent.insert(x);
                    }
                    Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Clz | Op::Ctz
                    | Op::Popcnt | Op::Lut | Op::F1 => st.push(n.a),
                    Op::Ite => {
                        st.push(n.a);
                        st.push(n.b);
                        st.push(n.c);
                    }
                    _ => {
                        st.push(n.a);
                        st.push(n.b);
                    }
                }
            }
        }
        self.add_fact(c);
    }

    fn slice(&self, s: &State, c: E) -> Vec<E> {
        let mut supp = self.ar.m[c as usize].supp;
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in s.pc.iter().enumerate() {
                if !used[i] {
                    let ps = self.ar.m[*p as usize].supp;
                    if ps & supp != 0 {
                        used[i] = true;
                        if ps & !supp != 0 {
                            supp |= ps;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<E> = s
            .pc
            .iter()
            .enumerate()
            .filter(|(i, _)| used[*i])
            .map(|(_, p)| *p)
            .collect();
        q.sort_unstable();
        q.dedup();
        q.push(c);
        q
    }

    /// is pc && c satisfiable?  Ok(Some(model)) / Ok(None) / Err(unknown)
    fn solve(&mut self, s: &State, c: E) -> Result<Option<Vec<u64>>, ()> {
        let q = self.slice(s, c);
        if let Some(r) = self.cache.get(&q) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|m| {
                let mut mm = s.model.clone();
                for (i, v) in m {
                    mm[*i as usize] = *v;
                }
                mm
            }));
        }
        match self.z.check(&self.ar, &q, true) {
            R::Unsat => {
                self.cache.insert(q, None);
                Ok(None)
            }
            R::Sat(m) => {
                let mut mm = s.model.clone();
                for (i, v) in &m {
                    mm[*i as usize] = *v;
                }
                self.cache.insert(q, Some(m));
                Ok(Some(mm))
            }
            R::Unknown => Err(()),
        }
    }

    /// asks the solver about every 64th branch decided without it
    fn confirm(&mut self, s: &State, c: E, v: bool) {
        if self.st.dom_decisions % 64 != 0 {
            return;
        }
        let o = if v { self.ar.not(c) } else { c };
        if self.ar.as_const(o).is_some() {
            return;
        }
        self.st.confirmed += 1;
        if let Ok(Some(_)) = self.solve(s, o) {
            self.inconclusive("solver contradicts a branch decided without it");
        }
    }

    /// the path condition and the failure of any assertion passed on the way
    /// must be contradictory
    fn close(&mut self, s: &State) {
        let mut d = s.checks.clone();
        d.sort_unstable();
        d.dedup();
        if d.is_empty() {
            // nothing to contradict: the path has to be a possible one
            if !s.pc.is_empty() {
                self.st.closing += 1;
                if let R::Unsat = self.z.check(&self.ar, &s.pc, false) {
                    self.inconclusive("solver contradicts a path taken without it");
                }
            }
            return;
        }
        self.st.closing += 1;
        match self.z.check_with(&self.ar, &s.pc, &d, false) {
            R::Unsat => {}
            R::Sat(_) => self.inconclusive("solver contradicts an assertion decided without it"),
            R::Unknown => self.inconclusive("solver unknown at the end of a path"),
        }
    }

    /// (model if c can be true, model if c can be false)
    fn decide(&mut self, s: &State, c: E) -> Result<(Option<Vec<u64>>, Option<Vec<u64>>), ()> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(if k == 1 {
                (Some(s.model.clone()), None)
            } else {
                (None, Some(s.model.clone()))
            });
        }
        let (l, h) = self.ar.range(c);
        if l == h {
            self.st.dom_decisions += 1;
            self.confirm(s, c, l == 1);
            return Ok(if l == 1 {
                (Some(s.model.clone()), None)
            } else {
                (None, Some(s.model.clone()))
            });
        }
        if let Some((v, tt)) = self.ar.truth_table(c) {
            let d = self.dom_of(s, v);
            let mut t = [0u64; 4];
            let mut f = [0u64; 4];
            for i in 0..4 {
                t[i] = d[i] & tt[i];
                f[i] = d[i] & !tt[i];
            }
            let te = t.iter().all(|x| *x == 0);
            let fe = f.iter().all(|x| *x == 0);
            if te || fe {
                self.st.dom_decisions += 1;
                self.confirm(s, c, fe);
                return Ok(if fe {
                    (Some(s.model.clone()), None)
                } else {
                    (None, Some(s.model.clone()))
                });
            }
            if !s.ent.contains(&v) {
                self.st.dom_decisions += 1;
                let idx = self.ar.get(v).a as usize;
                let cur = s.model[idx];
                let pick = |b: &Bits| -> Vec<u64> {
                    if b[(cur / 64) as usize] >> (cur % 64) & 1 == 1 {
                        return s.model.clone();
                    }
                    let x = (0..256u64)
                        .find(|i| b[(i / 64) as usize] >> (i % 64) & 1 == 1)
                        .unwrap();
                    let mut m = s.model.clone();
                    m[idx] = x;
                    m
                };
                return Ok((Some(pick(&t)), Some(pick(&f))));
            }
        }
        let cur = self.ar.eval(c, &s.model) & 1;
        self.st.model_hits += 1;
        let other = if cur == 1 { self.ar.not(c) } else { c };
        let om = self.solve(s, other)?;
        Ok(if cur == 1 {
            (Some(s.model.clone()), om)
        } else {
            (om, Some(s.model.clone()))
        })
    }

    fn push_other(&mut self, mut o: State, neg: E, m: Vec<u64>) {
        // facts of `o` are a copy of the active facts
        o.model = m;
        let saved = std::mem::take(&mut self.ar.facts);
        self.ar.facts = std::mem::take(&mut o.facts);
        self.ar.facts_epoch += 1;
        self.constrain(&mut o, neg);
        o.facts = std::mem::replace(&mut self.ar.facts, saved);
        self.ar.facts_epoch += 1;
        o.forks += 1;
        self.st.forks += 1;
        self.work.push(o);
    }

    fn clone_active(&self, s: &State) -> State {
        let mut o = s.clone();
        o.facts = self.ar.facts.clone();
        o
    }

    /// branch on boolean c: returns Some(taken) for this state, pushing the other side
    /// (the other side re-executes the current instruction)
    fn branch(&mut self, s: &mut State, c: E) -> Option<bool> {
        if self.cfg.trace {
            let fr = s.frames.last().unwrap();
            eprintln!("branch {}+{}: {}", self.name(fr.func), fr.pc, self.ar.show(c, 10));
        }
        match self.decide(s, c) {
            Err(()) => {
                let fr = s.frames.last().unwrap();
                let w = format!("solver unknown at branch in {}+{}", self.name(fr.func), fr.pc);
                if std::env::var("SX_VERBOSE").is_ok() {
                    eprintln!("{w}: {}", self.ar.show(c, 40));
                }
                self.inconclusive(&w);
                None
            }
            Ok((Some(t), Some(f))) => {
                let nc = self.ar.not(c);
                let other = self.clone_active(s);
                if self.profile {
                    let fr = s.frames.last().unwrap();
                    *self.fork_sites.entry((fr.func, fr.pc)).or_default() += 1;
                }
                self.push_other(other, nc, f);
                s.model = t;
                self.constrain(s, c);
                s.forks += 1;
                Some(true)
            }
            Ok((Some(t), None)) => {
                s.model = t;
                if self.ar.range(c) != (1, 1) {
                    self.add_fact(c);
                }
                Some(true)
            }
            Ok((None, Some(f))) => {
                s.model = f;
                if self.ar.range(c) != (0, 0) {
                    let nc = self.ar.not(c);
                    self.add_fact(nc);
                }
                Some(false)
            }
            Ok((None, None)) => {
                self.inconclusive("inconsistent state");
                None
            }
        }
    }

    /// force a symbolic value to a single concrete one on this path
    fn concretize(&mut self, s: &mut State, e: E) -> Option<u64> {
        let (l, h) = self.ar.range(e);
        if l == h {
            return Some(l);
        }
        let v = self.ar.eval(e, &s.model);
        let w = self.ar.w(e);
        let k = self.ar.con(w, v);
        let c = self.ar.eq(e, k);
        self.st.concretized += 1;
        if self.cfg.verbose_conc && self.st.concretized < 40 {
            let fr = s.frames.last().unwrap();
            eprintln!("concretize {}+{}: {}", self.name(fr.func), fr.pc, self.ar.show(e, 30));
        }
        let b = self.branch(s, c)?;
        if b {
            self.fact(e, v, v);
            Some(v)
        } else {
            self.inconclusive("concretize");
            None
        }
    }

    // ---- reporting -------------------------------------------------------
    fn inputs_json(&mut self, s: &State, model: &[u64]) -> String {
        let mut o = String::from("[");
        for (i, inp) in s.inputs.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let v = if inp.kind == 1 {
                inp.val
            } else {
                model.get(i).copied().unwrap_or(0)
            };
            o.push_str(&v.to_string());
        }
        o.push(']');
        o
    }

    fn backtrace(&self, s: &State) -> String {
        let mut v = vec![];
        for f in s.frames.iter().rev().take(14) {
            v.push(format!("\"{}\"", jesc(&self.name(f.func))));
        }
        format!("[{}]", v.join(","))
    }

    fn violation(&mut self, s: &State, model: &[u64], kind: &str, id: &str, detail: &str) {
        let key = format!("{kind}:{id}");
        let n = self.viol_keys.entry(key).or_default();
        *n += 1;
        if *n > 6 {
            return;
        }
        let inputs = self.inputs_json(s, model);
        let bt = self.backtrace(s);
        self.out.push(format!(
            "{{\"t\":\"viol\",\"harness\":\"{}\",\"kind\":\"{}\",\"id\":\"{}\",\"detail\":\"{}\",\"inputs\":{},\"bt\":{}}}",
            self.harness, kind, jesc(id), jesc(detail), inputs, bt
        ));
    }

    fn finish(&mut self, s: &State) {
        self.close(s);
        self.st.paths += 1;
        self.st.max_path_steps = self.st.max_path_steps.max(s.steps);
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len() as u64);
        // evaluate the observation digest under the path's model
        if self.samples < self.sample_cap || self.st.paths % 37 == 0 {
            self.samples += 1;
            let mut h: u64 = 0xcbf29ce484222325;
            let model = s.model.clone();
            let mut first = true;
            for v in &s.obs {
                let b = if v.s == 0 {
                    v.b as u8
                } else if first {
                    first = false;
                    self.ar.eval(v.s, &model) as u8
                } else {
                    self.ar.eval_more(v.s, &model) as u8
                };
                h = hash_bytes(h, b);
            }
            // the whole path condition must be satisfiable by that model (vacuity guard)
            let pc = s.pc.clone();
            let ok = pc.iter().all(|c| self.ar.eval(*c, &model) == 1);
            if !ok {
                self.inconclusive("model does not satisfy path condition");
            }
            self.st.path_witness += 1;
            let inputs = self.inputs_json(s, &model);
            self.out.push(format!(
                "{{\"t\":\"path\",\"harness\":\"{}\",\"inputs\":{},\"obs\":\"{:016x}\",\"nobs\":{},\"steps\":{}}}",
                self.harness, inputs, h, s.obs.len(), s.steps
            ));
        }
    }

    // ---- interpreter -----------------------------------------------------
    pub fn run_one(&mut self) {
        let Some(mut s) = self.work.pop() else { return };
        self.activate(&mut s);
        let r = self.run(&mut s);
        if let Out::Done = r {
            self.finish(&s);
        }
        self.deactivate(&mut s);
    }

    fn trap(&mut self, s: &State, why: &str) -> Out {
        if s.allow_panic {
            self.st.allowed_panics += 1;
            return Out::Dead;
        }
        let model = s.model.clone();
        let site = self.site(s);
        self.violation(s, &model, "panic", &site, why);
        Out::Dead
    }

    /// innermost frame that belongs to the crate under test
    fn site(&self, s: &State) -> String {
        if !s.site.is_empty() {
            return s.site.to_string();
        }
        for f in s.frames.iter().rev() {
            let n = self.name(f.func);
            if n.contains("docx_rs") {
                return n;
            }
        }
        s.frames.last().map_or("?".into(), |f| self.name(f.func))
    }

    fn run(&mut self, s: &mut State) -> Out {
        let m = self.m;
        loop {
            if s.steps > self.cfg.max_steps {
                let model = s.model.clone();
                let site = self.site(s);
                self.violation(s, &model, "hang", &site, "instruction budget exhausted");
                return Out::Dead;
            }
            let Some(fr) = s.frames.last() else {
                return Out::Done;
            };
            let func = fr.func;
            let base = fr.base as usize;
            let fun = &m.funcs[func as usize - self.nimp];
            let code = &fun.code[..];
            let mut pc = fr.pc as usize;
            let steps0 = s.steps;
            // run until the frame changes
            let r = 'frame: loop {
                s.steps += 1;
                if s.steps & 0xffff == 0 && s.steps > self.cfg.max_steps {
                    s.frames.last_mut().unwrap().pc = pc as u32;
                    break 'frame Step::Redo;
                }
                let op = &code[pc];
                pc += 1;
                macro_rules! pop {
                    () => {
                        unsafe { s.stack.pop().unwrap_unchecked() }
                    };
                }
                macro_rules! save {
                    () => {
                        s.frames.last_mut().unwrap().pc = pc as u32 - 1
                    };
                }
                macro_rules! jump {
                    ($to:expr, $h:expr, $k:expr) => {{
                        let keep = $k as usize;
                        let dst = base + $h as usize;
                        let n = s.stack.len();
                        if n - keep != dst {
                            for i in 0..keep {
                                s.stack[dst + i] = s.stack[n - keep + i];
                            }
                            s.stack.truncate(dst + keep);
                        }
                        pc = $to as usize;
                    }};
                }
                match *op {
                    W::LocalGet(i) => {
                        let v = s.stack[base + i as usize];
                        s.stack.push(v);
                    }
                    W::LocalSet(i) => {
                        let v = pop!();
                        s.stack[base + i as usize] = v;
                    }
                    W::LocalTee(i) => {
                        let v = *s.stack.last().unwrap();
                        s.stack[base + i as usize] = v;
                    }
                    W::Const(c) => s.stack.push(cv(c)),
                    W::Br { to, height, keep } => jump!(to, height, keep),
                    W::Jmp { to } => pc = to as usize,
                    W::BrIf { to, height, keep } => {
                        let v = *s.stack.last().unwrap();
                        let t = if v.s == 0 {
                            v.b != 0
                        } else {
                            save!();
                            let w = self.ar.w(v.s);
                            let z = self.ar.con(w, 0);
                            let c = self.ar.eq(v.s, z);
                            let c = self.ar.not(c);
                            match self.branch(s, c) {
                                Some(t) => t,
                                None => break 'frame Step::End(Out::Dead),
                            }
                        };
                        s.stack.pop();
                        if t {
                            jump!(to, height, keep);
                        }
                    }
                    W::BrZ { to } => {
                        let v = *s.stack.last().unwrap();
                        let t = if v.s == 0 {
                            v.b != 0
                        } else {
                            save!();
                            let w = self.ar.w(v.s);
                            let z = self.ar.con(w, 0);
                            let c = self.ar.eq(v.s, z);
                            let c = self.ar.not(c);
                            match self.branch(s, c) {
                                Some(t) => t,
                                None => break 'frame Step::End(Out::Dead),
                            }
                        };
                        s.stack.pop();
                        if !t {
                            pc = to as usize;
                        }
                    }
                    W::BrTable { first, n } => {
                        let mut v = *s.stack.last().unwrap();
                        let i = if v.s == 0 {
                            (v.b as u32).min(n) as u64
                        } else {
                            save!();
                            v.s = self.fitw(v.s, 32);
                            let cur = self.ar.eval(v.s, &s.model.clone()).min(n as u64);
                            let tgt = m.br_tables[first as usize + cur as usize];
                            let t: Vec<u64> = (0..n)
                                .map(|i| (m.br_tables[(first + i) as usize] == tgt) as u64)
                                .collect();
                            let d = (m.br_tables[(first + n) as usize] == tgt) as u64;
                            let nn = self.ar.con(32, n as u64);
                            let inr = self.ar.ult(v.s, nn);
                            let dd = self.ar.con(1, d);
                            let l = if n == 0 {
                                dd
                            } else {
                                // restrict to the feasible index interval
                                let mut t = t;
                                let (_, hi) = self.ar.range(v.s);
                                if hi + 1 < t.len() as u64 {
                                    t.truncate(hi as usize + 1);
                                }
                                self.ar.lut(v.s, t, 1)
                            };
                            let c = self.ar.ite(inr, l, dd);
                            match self.branch(s, c) {
                                Some(true) => cur,
                                _ => {
                                    self.inconclusive("br_table");
                                    break 'frame Step::End(Out::Dead);
                                }
                            }
                        };
                        s.stack.pop();
                        let (to, h, k) = m.br_tables[first as usize + i as usize];
                        jump!(to, h, k);
                    }
                    W::Return => {
                        let keep = fun.nresults as usize;
                        let n = s.stack.len();
                        for i in 0..keep {
                            s.stack[base + i] = s.stack[n - keep + i];
                        }
                        s.stack.truncate(base + keep);
                        s.frames.pop();
                        break 'frame Step::Go;
                    }
                    W::Call(f) => {
                        save!();
                        if (f as usize) < self.nimp || self.builtins[f as usize] != 0 {
                            match self.special(s, f) {
                                Step::Go => {}
                                x => break 'frame x,
                            }
                        } else {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            self.enter(s, f);
                            if s.frames.len() > 4000 {
                                break 'frame Step::End(self.trap(s, "stack overflow"));
                            }
                            break 'frame Step::Go;
                        }
                    }
                    W::CallIndirect { ty, .. } => {
                        save!();
                        let v = *s.stack.last().unwrap();
                        let i = if v.s == 0 {
                            v.b
                        } else {
                            match self.concretize(s, v.s) {
                                Some(x) => x,
                                None => break 'frame Step::End(Out::Dead),
                            }
                        };
                        s.stack.pop();
                        let f = m.table.get(i as usize).copied().unwrap_or(u32::MAX);
                        if f == u32::MAX {
                            break 'frame Step::End(self.trap(s, "bad indirect call"));
                        }
                        let fty = if (f as usize) < self.nimp {
                            m.imports[f as usize].2
                        } else {
                            m.funcs[f as usize - self.nimp].ty
                        };
                        if m.types[fty as usize] != m.types[ty as usize] {
                            break 'frame Step::End(self.trap(s, "indirect call type"));
                        }
                        if (f as usize) < self.nimp || self.builtins[f as usize] != 0 {
                            match self.special(s, f) {
                                Step::Go => {}
                                x => break 'frame x,
                            }
                        } else {
                            s.frames.last_mut().unwrap().pc = pc as u32;
                            self.enter(s, f);
                            break 'frame Step::Go;
                        }
                    }
                    W::Drop => {
                        s.stack.pop();
                    }
                    W::Select => {
                        let c = pop!();
                        let b = pop!();
                        let a = pop!();
                        if c.s == 0 {
                            s.stack.push(if c.b != 0 { a } else { b });
                        } else if a.s == b.s && a.b == b.b {
                            s.stack.push(a);
                        } else {
                            let w = self.ar.w(c.s);
                            let z = self.ar.con(w, 0);
                            let e = self.ar.eq(c.s, z);
                            let e = self.ar.not(e);
                            // operand width: take it from a symbolic side, else from the values
                            let w = if a.s != 0 {
                                self.ar.w(a.s)
                            } else if b.s != 0 {
                                self.ar.w(b.s)
                            } else {
                                // concrete operands of unknown type: 64-bit node, narrowed on use
                                64
                            };
                            let x = self.ex(a, w);
                            let y = self.ex(b, w);
                            let r = self.ar.ite(e, x, y);
                            let v = self.val(r);
                            s.stack.push(v);
                        }
                    }
                    W::GlobalGet(g) => {
                        let v = s.globals[g as usize];
                        s.stack.push(v);
                    }
                    W::GlobalSet(g) => {
                        let v = pop!();
                        s.globals[g as usize] = v;
                    }
                    W::Load { k, off } => {
                        let v = *s.stack.last().unwrap();
                        if v.s == 0 {
                            s.stack.pop();
                            let (n, _, _) = ldk(k);
                            let a = v.b.wrapping_add(off);
                            match self.ld(s, a, n) {
                                Some(r) => {
                                    let r = self.ext(r, k);
                                    s.stack.push(r);
                                }
                                None => {
                                    break 'frame Step::End(self.trap(s, "memory access out of range"))
                                }
                            }
                        } else {
                            save!();
                            match self.sym_load(s, v.s, k, off) {
                                Some(r) => {
                                    s.stack.pop();
                                    s.stack.push(r);
                                }
                                None => break 'frame Step::End(Out::Dead),
                            }
                        }
                    }
                    W::Store { n, off } => {
                        let len = s.stack.len();
                        let v = s.stack[len - 1];
                        let a = s.stack[len - 2];
                        let a = if a.s == 0 {
                            a.b
                        } else {
                            save!();
                            match self.concretize(s, a.s) {
                                Some(x) => x,
                                None => break 'frame Step::End(Out::Dead),
                            }
                        };
                        s.stack.truncate(len - 2);
                        let v = if v.s != 0 && (self.ar.w(v.s) as usize) < n as usize * 8 {
                            let e = self.ar.zext(v.s, n * 8);
                            V { b: 0, s: e }
                        } else {
                            v
                        };
                        if !self.st(s, a.wrapping_add(off), n as usize, v) {
                            break 'frame Step::End(self.trap(s, "memory access out of range"));
                        }
                    }
                    W::MemSize => s.stack.push(cv((s.mem.len() * PG / 65536) as u64)),
                    W::MemGrow => {
                        let n = pop!();
                        let old = (s.mem.len() * PG / 65536) as u64;
                        let d = if n.s == 0 { n.b } else { u64::MAX };
                        if d > self.cfg.max_pages || old + d > self.cfg.max_pages {
                            s.stack.push(cv(u64::MAX));
                        } else {
                            let z = self.zero.clone();
                            let nl = s.mem.len() + d as usize * (65536 / PG);
                            s.mem.resize(nl, z);
                            s.stack.push(cv(old));
                        }
                    }
                    W::Un(o) => {
                        let a = pop!();
                        if a.s == 0 {
                            match un_c(o, a.b) {
                                Some(r) => s.stack.push(cv(r)),
                                None => break 'frame Step::End(self.trap(s, "bad conversion")),
                            }
                        } else {
                            if (0xa8..=0xb1).contains(&o) && o != 0xac && o != 0xad {
                                self.inconclusive("trapping float conversion");
                                break 'frame Step::End(Out::Dead);
                            }
                            let r = self.un_s(o, a.s);
                            let v = self.val(r);
                            s.stack.push(v);
                        }
                    }
                    W::Trunc(o) => {
                        let a = pop!();
                        let w = if o < 4 { 32 } else { 64 };
                        if a.s == 0 {
                            s.stack.push(cv(feval1(0x100 + o as u64, a.b, 0) & mask(w)));
                        } else {
                            let single = matches!(o, 0 | 1 | 4 | 5);
                            let e = self.fitw(a.s, if single { 32 } else { 64 });
                            let r = self.ar.f1(0x100 + o as u64, e, w);
                            let v = self.val(r);
                            s.stack.push(v);
                        }
                    }
                    W::Bin(o) => {
                        let len = s.stack.len();
                        let b = s.stack[len - 1];
                        let a = s.stack[len - 2];
                        if a.s | b.s == 0 {
                            s.stack.truncate(len - 2);
                            match bin_c(o, a.b, b.b) {
                                Some(r) => s.stack.push(cv(r)),
                                None => break 'frame Step::End(self.trap(s, "division trap")),
                            }
                        } else {
                            // division: settle the trapping cases first
                            if matches!(o, 0x6d..=0x70 | 0x7f..=0x82) && b.s != 0 {
                                save!();
                                let w = if o < 0x7c { 32 } else { 64 };
                                let e = self.ex(b, w);
                                let z = self.ar.con(w, 0);
                                let c = self.ar.eq(e, z);
                                match self.branch(s, c) {
                                    Some(true) => {
                                        break 'frame Step::End(self.trap(s, "division by zero"))
                                    }
                                    Some(false) => {}
                                    None => break 'frame Step::End(Out::Dead),
                                }
                            }
                            s.stack.truncate(len - 2);
                            if matches!(o, 0x6d..=0x70 | 0x7f..=0x82) && b.s == 0 && b.b == 0 {
                                break 'frame Step::End(self.trap(s, "division by zero"));
                            }
                            let r = self.bin_s(o, a, b);
                            let v = self.val(r);
                            s.stack.push(v);
                        }
                    }
                    W::MemCopy | W::MemFill => {
                        save!();
                        let len = s.stack.len();
                        let mut x = [0u64; 3];
                        let fill = matches!(*op, W::MemFill);
                        let mut dead = false;
                        for i in 0..3 {
                            let v = s.stack[len - 3 + i];
                            if fill && i == 1 {
                                continue;
                            }
                            x[i] = if v.s == 0 {
                                v.b
                            } else {
                                match self.concretize(s, v.s) {
                                    Some(k) => k,
                                    None => {
                                        dead = true;
                                        break;
                                    }
                                }
                            };
                        }
                        if dead {
                            break 'frame Step::End(Out::Dead);
                        }
                        let fv = s.stack[len - 2];
                        s.stack.truncate(len - 3);
                        if !self.ok_range(s, x[0], x[2]) || (!fill && !self.ok_range(s, x[1], x[2])) {
                            break 'frame Step::End(self.trap(s, "memory access out of range"));
                        }
                        if fill {
                            self.memset(s, x[0], fv, x[2]);
                        } else {
                            self.memcpy(s, x[0], x[1], x[2]);
                        }
                        s.steps += x[2] / 16;
                    }
                    W::Unreachable => {
                        save!();
                        break 'frame Step::End(self.trap(s, "unreachable executed"));
                    }
                    W::Unsupported(k) => {
                        self.inconclusive(&format!("unsupported opcode {k:#x}"));
                        break 'frame Step::End(Out::Dead);
                    }
                }
            };
            self.st.steps += s.steps - steps0;
            if self.profile {
                self.fprof[func as usize] += s.steps - steps0;
            }
            match r {
                Step::Go | Step::Redo | Step::Fork => {}
                Step::End(o) => return o,
            }
        }
    }

    fn memset(&mut self, s: &mut State, d: u64, v: V, n: u64) {
        let e = if v.s == 0 {
            0
        } else {
            let e = self.ar.extract(v.s, 0, 8);
            if self.ar.as_const(e).is_some() {
                0
            } else {
                e
            }
        };
        for i in 0..n {
            self.st_byte(s, d + i, v.b as u8, e);
        }
    }

    /// expression of width w for a value
    fn ex(&mut self, v: V, w: u8) -> E {
        if v.s == 0 {
            self.ar.con(w, v.b)
        } else {
            self.fitw(v.s, w)
        }
    }
    fn fitw(&mut self, e: E, w: u8) -> E {
        let we = self.ar.w(e);
        if we == w {
            e
        } else if we > w {
            self.ar.extract(e, 0, w)
        } else {
            self.ar.zext(e, w)
        }
    }

    fn ext(&mut self, v: V, k: Ld) -> V {
        let (n, sg, w) = ldk(k);
        let nb = n as u8 * 8;
        if v.s == 0 {
            return if sg {
                cv(sx(v.b, nb) as u64 & mask(w))
            } else {
                v
            };
        }
        let e = if sg {
            self.ar.sext(v.s, w)
        } else {
            self.ar.zext(v.s, w)
        };
        self.val(e)
    }

    fn sym_load(&mut self, s: &mut State, a: E, k: Ld, off: u64) -> Option<V> {
        let (n, _, _) = ldk(k);
        let (l, h) = self.ar.range(a);
        if h - l <= 4200 && l != h {
            let base = l.wrapping_add(off);
            let span = (h - l) as usize + n;
            if self.ok_range(s, base, span as u64) {
                let bytes: Vec<(u8, E)> = (0..span as u64).map(|i| self.ld_byte(s, base + i)).collect();
                // only indices that can actually occur matter: use the single-variable
                // domain or stride to skip impossible ones
                if bytes.iter().all(|b| b.1 == 0) {
                    let t: Vec<u64> = (0..=(h - l) as usize)
                        .map(|i| {
                            let mut r = 0u64;
                            for j in 0..n {
                                r |= (bytes[i + j].0 as u64) << (8 * j);
                            }
                            r
                        })
                        .collect();
                    let lc = self.ar.con(64, l);
                    let a64 = self.fitw(a, 64);
                    let idx = self.ar.sub(a64, lc);
                    let e = self.ar.lut(idx, t, n as u8 * 8);
                    let v = self.val(e);
                    return Some(self.ext(v, k));
                }
            }
        }
        let x = self.concretize(s, a)?;
        match self.ld(s, x.wrapping_add(off), n) {
            Some(v) => Some(self.ext(v, k)),
            None => {
                self.trap(s, "memory access out of range");
                None
            }
        }
    }

    fn un_s(&mut self, o: u8, a: E) -> E {
        let ar = &mut self.ar;
        let fit = |ar: &mut Arena, e: E, w: u8| {
            let we = ar.w(e);
            if we == w {
                e
            } else if we > w {
                ar.extract(e, 0, w)
            } else {
                ar.zext(e, w)
            }
        };
        match o {
            0x45 | 0x50 => {
                let w = if o == 0x45 { 32 } else { 64 };
                let a = fit(ar, a, w);
                let z = ar.con(w, 0);
                let c = ar.eq(a, z);
                ar.zext(c, 32)
            }
            0x67 | 0x68 | 0x69 => {
                let a = fit(ar, a, 32);
                ar.un([Op::Clz, Op::Ctz, Op::Popcnt][o as usize - 0x67], a)
            }
            0x79 | 0x7a | 0x7b => {
                let a = fit(ar, a, 64);
                ar.un([Op::Clz, Op::Ctz, Op::Popcnt][o as usize - 0x79], a)
            }
            0xa7 => {
                let a = fit(ar, a, 64);
                ar.extract(a, 0, 32)
            }
            0xac => {
                let a = fit(ar, a, 32);
                ar.sext(a, 64)
            }
            0xad => {
                let a = fit(ar, a, 32);
                ar.zext(a, 64)
            }
            0xbc | 0xbe => fit(ar, a, 32),
            0xbd | 0xbf => fit(ar, a, 64),
            0xc0 | 0xc1 => {
                let w = if o == 0xc0 { 8 } else { 16 };
                let a = ar.extract(a, 0, w);
                ar.sext(a, 32)
            }
            0xc2 | 0xc3 | 0xc4 => {
                let a = fit(ar, a, 64);
                let w = 8 << (o - 0xc2);
                let a = ar.extract(a, 0, w);
                ar.sext(a, 64)
            }
            0x8b..=0x91 => {
                let a = fit(ar, a, 32);
                ar.f1(o as u64, a, 32)
            }
            0x99..=0x9f => {
                let a = fit(ar, a, 64);
                ar.f1(o as u64, a, 64)
            }
            0xb2 | 0xb3 => {
                let a = fit(ar, a, 32);
                ar.f1(o as u64, a, 32)
            }
            0xb4 | 0xb5 | 0xb6 => {
                let a = fit(ar, a, 64);
                ar.f1(o as u64, a, 32)
            }
            0xb7 | 0xb8 | 0xbb => {
                let a = fit(ar, a, 32);
                ar.f1(o as u64, a, 64)
            }
            0xb9 | 0xba => {
                let a = fit(ar, a, 64);
                ar.f1(o as u64, a, 64)
            }
            _ => panic!("un {o:#x}"),
        }
    }

    fn bin_s(&mut self, o: u8, a: V, b: V) -> E {
        // float ops
        if (0x5b..=0x66).contains(&o) {
            let w = if o <= 0x60 { 32 } else { 64 };
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            return self.ar.f2(o as u64, x, y, 32);
        }
        if (0x92..=0x98).contains(&o) || (0xa0..=0xa6).contains(&o) {
            let w = if o <= 0x98 { 32 } else { 64 };
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            return self.ar.f2(o as u64, x, y, w);
        }
        let (w, k, cmp) = match o {
            0x46..=0x4f => (32, o - 0x46, true),
            0x51..=0x5a => (64, o - 0x51, true),
            0x6a..=0x78 => (32, o - 0x6a, false),
            0x7c..=0x8a => (64, o - 0x7c, false),
            _ => panic!("bin {o:#x}"),
        };
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.ar;
        if cmp {
            let c = match k {
                0 => ar.eq(x, y),
                1 => {
                    let e = ar.eq(x, y);
                    ar.not(e)
                }
                2 => ar.slt(x, y),
                3 => ar.ult(x, y),
                4 => ar.slt(y, x),
                5 => ar.ult(y, x),
                6 => {
                    let e = ar.slt(y, x);
                    ar.not(e)
                }
                7 => {
                    let e = ar.ult(y, x);
                    ar.not(e)
                }
                8 => {
                    let e = ar.slt(x, y);
                    ar.not(e)
                }
                _ => {
                    let e = ar.ult(x, y);
                    ar.not(e)
                }
            };
            return ar.zext(c, 32);
        }
        let sh = |ar: &mut Arena, y: E| {
            let m = ar.con(w, w as u64 - 1);
            ar.and(y, m)
        };
        match k {
            0 | 1 => {
                let r = if k == 0 { ar.add(x, y) } else { ar.sub(x, y) };
                // sizes that were decided before on this path
                match ar.range(r) {
                    (l, h) if l == h => ar.con(w, l),
                    _ => r,
                }
            }
            2 => ar.mul(x, y),
            3 => ar.sdiv(x, y),
            4 => ar.udiv(x, y),
            5 => ar.srem(x, y),
            6 => ar.urem(x, y),
            7 => ar.and(x, y),
            8 => ar.or(x, y),
            9 => ar.xor(x, y),
            10 => {
                let y = sh(ar, y);
                ar.shl(x, y)
            }
            11 => {
                let y = sh(ar, y);
                ar.ashr(x, y)
            }
            12 => {
                let y = sh(ar, y);
                ar.lshr(x, y)
            }
            13 => ar.rot(x, y, true),
            _ => ar.rot(x, y, false),
        }
    }

    // ---- imports and builtins ---------------------------------------------
    fn special(&mut self, s: &mut State, f: u32) -> Step {
        self.touched[f as usize] = true;
        let fty = if (f as usize) < self.nimp {
            self.m.imports[f as usize].2
        } else {
            self.m.funcs[f as usize - self.nimp].ty
        };
        let np = self.m.types[fty as usize].params.len();
        let len = s.stack.len();
        if (f as usize) >= self.nimp {
            let b = self.builtins[f as usize];
            if b == B_PANIC {
                let args: Vec<V> = s.stack[len - np..].to_vec();
                let mut loc = String::from("?");
                if let Some(p) = args.last() {
                    if p.s == 0 && self.ok_range(s, p.b, 24) {
                        let fp = self.ld(s, p.b, 8).map_or(0, |v| v.b);
                        let fl = self.ld(s, p.b + 8, 8).map_or(0, |v| v.b);
                        let line = self.ld(s, p.b + 16, 4).map_or(0, |v| v.b);
                        if fl < 400 {
                            loc = format!("{}:{}", self.rd_str(s, fp, fl), line);
                        }
                    }
                }
                return Step::End(self.trap(s, &format!("panic at {loc}")));
            }
            let mut x = [0u64; 3];
            for i in 0..np.min(3) {
                let v = s.stack[len - np + i];
                if b == B_MEMSET && i == 1 {
                    continue;
                }
                x[i] = if v.s == 0 {
                    v.b
                } else {
                    match self.concretize(s, v.s) {
                        Some(k) => k,
                        None => return Step::End(Out::Dead),
                    }
                };
            }
            let fill = if np > 1 { s.stack[len - np + 1] } else { cv(0) };
            s.stack.truncate(len - np);
            match b {
                B_MEMCPY => {
                    if !self.ok_range(s, x[0], x[2]) || !self.ok_range(s, x[1], x[2]) {
                        return Step::End(self.trap(s, "memory access out of range"));
                    }
                    self.memcpy(s, x[0], x[1], x[2]);
                    s.stack.push(cv(x[0]));
                }
                B_MEMSET => {
                    if !self.ok_range(s, x[0], x[2]) {
                        return Step::End(self.trap(s, "memory access out of range"));
                    }
                    self.memset(s, x[0], fill, x[2]);
                    s.stack.push(cv(x[0]));
                }
                B_MEMCMP | B_BCMP => {
                    if !self.ok_range(s, x[0], x[2]) || !self.ok_range(s, x[1], x[2]) {
                        return Step::End(self.trap(s, "memory access out of range"));
                    }
                    let r = self.memcmp(s, x[0], x[1], x[2], b == B_BCMP);
                    s.stack.push(r);
                }
                _ => {
                    let mut n = 0;
                    while self.ok_range(s, x[0] + n, 1) && self.ld_byte(s, x[0] + n) != (0, 0) {
                        n += 1;
                    }
                    s.stack.push(cv(n));
                }
            }
            s.steps += x[2] / 16;
            return Step::Go;
        }
        let imp = self.imports[f as usize];
        macro_rules! arg {
            ($i:expr) => {
                s.stack[len - np + $i]
            };
        }
        match imp {
            Imp::Var => {
                let (w, lo, hi) = (arg!(0).b as u8, arg!(1).b, arg!(2).b);
                s.stack.truncate(len - np);
                let idx = s.inputs.len() as u32;
                let e = self.ar.var(idx, w, lo, hi);
                s.inputs.push(Input {
                    kind: 0,
                    e,
                    val: 0,
                });
                s.model.push(lo);
                if lo == hi {
                    s.stack.push(cv(lo));
                } else {
                    let z = self.ar.zext(e, 64);
                    s.stack.push(V { b: 0, s: z });
                }
            }
            Imp::Choice => {
                let n = arg!(0).b;
                s.stack.truncate(len - np);
                s.model.push(0);
                // advance past the call for all copies
                let fr = s.frames.last_mut().unwrap();
                fr.pc += 1;
                for i in (1..n).rev() {
                    let mut o = self.clone_active(s);
                    o.inputs.push(Input {
                        kind: 1,
                        e: 0,
                        val: i,
                    });
                    *o.model.last_mut().unwrap() = i;
                    o.stack.push(cv(i));
                    self.st.forks += 1;
                    self.work.push(o);
                }
                s.inputs.push(Input {
                    kind: 1,
                    e: 0,
                    val: 0,
                });
                s.stack.push(cv(0));
                return Step::Fork;
            }
            Imp::Assume => {
                let v = arg!(0);
                s.stack.truncate(len - np);
                if v.s == 0 {
                    if v.b == 0 {
                        self.st.assumed_away += 1;
                        return Step::End(Out::Dead);
                    }
                } else {
                    let w = self.ar.w(v.s);
                    let z = self.ar.con(w, 0);
                    let c = self.ar.eq(v.s, z);
                    let c = self.ar.not(c);
                    match self.decide(s, c) {
                        Ok((Some(m), _)) => {
                            s.model = m;
                            self.constrain(s, c);
                        }
                        Ok((None, _)) => {
                            self.st.assumed_away += 1;
                            return Step::End(Out::Dead);
                        }
                        Err(()) => {
                            self.inconclusive("solver unknown at assume");
                            return Step::End(Out::Dead);
                        }
                    }
                }
            }
            Imp::Assert => {
                let v = arg!(0);
                let id = self.rd_str(s, arg!(1).b, arg!(2).b);
                s.stack.truncate(len - np);
                let c = if v.s == 0 {
                    self.ar.con(1, (v.b != 0) as u64)
                } else {
                    let w = self.ar.w(v.s);
                    let z = self.ar.con(w, 0);
                    let c = self.ar.eq(v.s, z);
                    let c = self.ar.not(c);
                    s.checks.push((c, self.ar.t));
                    c
                };
                if let Some(o) = self.assert(s, c, &id, "") {
                    return Step::End(o);
                }
            }
            Imp::AssertEq => {
                for i in [1, 3] {
                    let v = arg!(i);
                    if v.s != 0 {
                        match self.concretize(s, v.s) {
                            Some(x) => s.stack[len - np + i] = cv(x),
                            None => return Step::End(Out::Dead),
                        }
                    }
                }
                let (p, n, q, k) = (arg!(0).b, arg!(1).b, arg!(2).b, arg!(3).b);
                let id = self.rd_str(s, arg!(4).b, arg!(5).b);
                let sym_len = false;
                s.stack.truncate(len - np);
                if sym_len {
                    self.inconclusive("symbolic length in sx_assert_eq");
                    return Step::End(Out::Dead);
                }
                let c = if n != k {
                    self.ar.f
                } else {
                    let mut c = self.ar.t;
                    for i in 0..n {
                        let (a, ae) = self.ld_byte(s, p + i);
                        let (b, be) = self.ld_byte(s, q + i);
                        let x = if ae != 0 { ae } else { self.ar.con(8, a as u64) };
                        let y = if be != 0 { be } else { self.ar.con(8, b as u64) };
                        let e = self.ar.eq(x, y);
                        if ae != 0 || be != 0 {
                            s.checks.push((x, y));
                        }
                        c = self.ar.and(c, e);
                        if c == self.ar.f {
                            break;
                        }
                    }
                    c
                };
                let d = if c != self.ar.t {
                    format!(
                        "{} <> {}",
                        self.rd_str(s, p, n.min(300)),
                        self.rd_str(s, q, k.min(300))
                    )
                } else {
                    String::new()
                };
                if let Some(o) = self.assert(s, c, &id, &d) {
                    return Step::End(o);
                }
            }
            Imp::Reach => {
                let id = self.rd_str(s, arg!(0).b, arg!(1).b);
                s.stack.truncate(len - np);
                *self.reach.entry(id).or_default() += 1;
            }
            Imp::Obs => {
                let (p, n) = (arg!(0).b, arg!(1).b);
                s.stack.truncate(len - np);
                for i in 0..n {
                    let (b, e) = self.ld_byte(s, p + i);
                    s.obs.push(V { b: b as u64, s: e });
                }
            }
            Imp::AllowPanic => {
                let v = arg!(0).b;
                s.stack.truncate(len - np);
                s.allow_panic = v != 0;
            }
            Imp::Site => {
                let id = self.rd_str(s, arg!(0).b, arg!(1).b);
                s.stack.truncate(len - np);
                s.site = id.into();
            }
            Imp::Deep => {
                s.stack.truncate(len - np);
                s.stack.push(cv(self.cfg.deep as u64));
            }
            Imp::IsSym => {
                let v = arg!(0);
                s.stack.truncate(len - np);
                s.stack.push(cv((v.s != 0) as u64));
            }
            Imp::Panic => {
                let msg = self.rd_str(s, arg!(0).b, arg!(1).b);
                return Step::End(self.trap(s, &msg));
            }
            Imp::Unknown => {
                let n = self.m.imports[f as usize].1.clone();
                self.inconclusive(&format!("unknown import {n}"));
                return Step::End(Out::Dead);
            }
        }
        Step::Go
    }

    fn assert(&mut self, s: &mut State, c: E, id: &str, detail: &str) -> Option<Out> {
        self.st.asserts += 1;
        if c == self.ar.t {
            self.st.asserts_folded += 1;
            return None;
        }
        let nc = self.ar.not(c);
        if self.cfg.trace {
            eprintln!("assert {id}: {}", self.ar.show(c, 14));
        }
        self.st.asserts_solver += 1;
        match self.solve(s, nc) {
            Err(()) => {
                self.inconclusive(&format!("solver unknown at assertion {id}"));
                Some(Out::Dead)
            }
            Ok(None) => {
                // holds on this path; keep it as a fact for later reasoning
                None
            }
            Ok(Some(m)) => {
                self.violation(s, &m, "assert", id, detail);
                match self.solve(s, c) {
                    Ok(Some(m)) => {
                        s.model = m;
                        self.constrain(s, c);
                        None
                    }
                    _ => Some(Out::Dead),
                }
            }
        }
    }

    fn memcmp(&mut self, s: &State, p: u64, q: u64, n: u64, eq_only: bool) -> V {
        let mut prefix_eq = 0;
        // fast concrete scan
        while prefix_eq < n {
            let (a, ae) = self.ld_byte(s, p + prefix_eq);
            let (b, be) = self.ld_byte(s, q + prefix_eq);
            if ae == 0 && be == 0 {
                if a != b {
                    return cv((if a < b { -1i32 } else { 1 }) as u32 as u64);
                }
            } else if ae == be {
                // identical symbolic byte
            } else {
                break;
            }
            prefix_eq += 1;
        }
        if prefix_eq == n {
            return cv(0);
        }
        if eq_only {
            let mut c = self.ar.t;
            for i in prefix_eq..n {
                let (a, ae) = self.ld_byte(s, p + i);
                let (b, be) = self.ld_byte(s, q + i);
                let x = if ae != 0 { ae } else { self.ar.con(8, a as u64) };
                let y = if be != 0 { be } else { self.ar.con(8, b as u64) };
                let e = self.ar.eq(x, y);
                c = self.ar.and(c, e);
            }
            let nc = self.ar.not(c);
            let e = self.ar.zext(nc, 32);
            return self.val(e);
        }
        let mut r = self.ar.con(32, 0);
        for i in (prefix_eq..n).rev() {
            let (a, ae) = self.ld_byte(s, p + i);
            let (b, be) = self.ld_byte(s, q + i);
            let x = if ae != 0 { ae } else { self.ar.con(8, a as u64) };
            let y = if be != 0 { be } else { self.ar.con(8, b as u64) };
            let e = self.ar.eq(x, y);
            let l = self.ar.ult(x, y);
            let one = self.ar.con(32, 1);
            let neg = self.ar.con(32, u32::MAX as u64);
            let d = self.ar.ite(l, neg, one);
            r = self.ar.ite(e, r, d);
        }
        self.val(r)
    }
}

fn ldk(k: Ld) -> (usize, bool, u8) {
    match k {
        Ld::I32 => (4, false, 32),
        Ld::I64 => (8, false, 64),
        Ld::I32U8 => (1, false, 32),
        Ld::I32S8 => (1, true, 32),
        Ld::I32U16 => (2, false, 32),
        Ld::I32S16 => (2, true, 32),
        Ld::I64U8 => (1, false, 64),
        Ld::I64S8 => (1, true, 64),
        Ld::I64U16 => (2, false, 64),
        Ld::I64S16 => (2, true, 64),
        Ld::I64U32 => (4, false, 64),
        Ld::I64S32 => (4, true, 64),
    }
}

#[inline(always)]
fn un_c(o: u8, a: u64) -> Option<u64> {
    let x = a as u32;
    Some(match o {
        0x45 => (x == 0) as u64,
        0x50 => (a == 0) as u64,
        0x67 => x.leading_zeros() as u64,
        0x68 => x.trailing_zeros() as u64,
        0x69 => x.count_ones() as u64,
        0x79 => a.leading_zeros() as u64,
        0x7a => a.trailing_zeros() as u64,
        0x7b => a.count_ones() as u64,
        0xa7 => x as u64,
        0xac => x as i32 as i64 as u64,
        0xad => x as u64,
        0xbc..=0xbf => a,
        0xc0 => x as i8 as i32 as u32 as u64,
        0xc1 => x as i16 as i32 as u32 as u64,
        0xc2 => a as i8 as i64 as u64,
        0xc3 => a as i16 as i64 as u64,
        0xc4 => a as i32 as i64 as u64,
        0xa8..=0xab | 0xae..=0xb1 => {
            let f = if matches!(o, 0xa8 | 0xa9 | 0xae | 0xaf) {
                f32::from_bits(x) as f64
            } else {
                f64::from_bits(a)
            };
            let t = f.trunc();
            let ok = match o {
                0xa8 | 0xaa => t >= -2147483648.0 && t <= 2147483647.0,
                0xa9 | 0xab => t >= 0.0 && t <= 4294967295.0,
                0xae | 0xb0 => t >= -9223372036854775808.0 && t < 9223372036854775808.0,
                _ => t >= 0.0 && t < 18446744073709551616.0,
            };
            if !ok {
                return None;
            }
            feval1(o as u64, a, 0)
        }
        _ => feval1(o as u64, a, 0),
    })
}

#[inline(always)]
fn bin_c(o: u8, a: u64, b: u64) -> Option<u64> {
    let (x, y) = (a as u32, b as u32);
    let (xi, yi) = (x as i32, y as i32);
    let (ai, bi) = (a as i64, b as i64);
    Some(match o {
        0x46 => (x == y) as u64,
        0x47 => (x != y) as u64,
        0x48 => (xi < yi) as u64,
        0x49 => (x < y) as u64,
        0x4a => (xi > yi) as u64,
        0x4b => (x > y) as u64,
        0x4c => (xi <= yi) as u64,
        0x4d => (x <= y) as u64,
        0x4e => (xi >= yi) as u64,
        0x4f => (x >= y) as u64,
        0x51 => (a == b) as u64,
        0x52 => (a != b) as u64,
        0x53 => (ai < bi) as u64,
        0x54 => (a < b) as u64,
        0x55 => (ai > bi) as u64,
        0x56 => (a > b) as u64,
        0x57 => (ai <= bi) as u64,
        0x58 => (a <= b) as u64,
        0x59 => (ai >= bi) as u64,
        0x5a => (a >= b) as u64,
        0x6a => x.wrapping_add(y) as u64,
        0x6b => x.wrapping_sub(y) as u64,
        0x6c => x.wrapping_mul(y) as u64,
        0x6d => {
            if y == 0 || (xi == i32::MIN && yi == -1) {
                return None;
            }
            (xi / yi) as u32 as u64
        }
        0x6e => x.checked_div(y)? as u64,
        0x6f => {
            if y == 0 {
                return None;
            }
            xi.wrapping_rem(yi) as u32 as u64
        }
        0x70 => x.checked_rem(y)? as u64,
        0x71 => (x & y) as u64,
        0x72 => (x | y) as u64,
        0x73 => (x ^ y) as u64,
        0x74 => x.wrapping_shl(y) as u64,
        0x75 => xi.wrapping_shr(y) as u32 as u64,
        0x76 => x.wrapping_shr(y) as u64,
        0x77 => x.rotate_left(y & 31) as u64,
        0x78 => x.rotate_right(y & 31) as u64,
        0x7c => a.wrapping_add(b),
        0x7d => a.wrapping_sub(b),
        0x7e => a.wrapping_mul(b),
        0x7f => {
            if b == 0 || (ai == i64::MIN && bi == -1) {
                return None;
            }
            (ai / bi) as u64
        }
        0x80 => a.checked_div(b)?,
        0x81 => {
            if b == 0 {
                return None;
            }
            ai.wrapping_rem(bi) as u64
        }
        0x82 => a.checked_rem(b)?,
        0x83 => a & b,
        0x84 => a | b,
        0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32),
        0x87 => ai.wrapping_shr(b as u32) as u64,
        0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left((b & 63) as u32),
        0x8a => a.rotate_right((b & 63) as u32),
        _ => feval2(o as u64, a, b),
    })
}
