//! Hash-consed bit-vector expressions with exact (equivalence preserving)
//! simplification, interval / known-bit analysis and concrete evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Not,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Clz,
    Ctz,
    Popcnt,
    Lut,
    /// float ops; `k` = wasm opcode (0x100|n for trunc_sat), operands are bit patterns
    F1,
    F2,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub lo: u64,
    pub hi: u64,
    /// bits known to be zero (within width)
    pub kz: u64,
    pub supp: u128,
    /// single variable index when the support is exactly one variable
    pub single: u32,
}
pub const NOSINGLE: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VarInfo {
    pub idx: u32,
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
}

pub type Bits = [u64; 4];

pub struct Arena {
    pub n: Vec<Node>,
    pub m: Vec<Meta>,
    map: FxMap<Node, E>,
    pub vars: Vec<(VarInfo, E)>,
    varmap: HashMap<VarInfo, E>,
    pub tables: Vec<Vec<u64>>,
    tabmap: HashMap<Vec<u64>, u32>,
    // path-sensitive facts of the state being executed: expr -> range
    pub facts: FxMap<E, (u64, u64)>,
    pub facts_epoch: u32,
    rmemo: Vec<(u32, u64, u64)>,
    ememo: Vec<(u32, u64)>,
    eepoch: u32,
    pub truth: FxMap<E, Bits>,
    pub t: E,
    pub f: E,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn bitlen_mask(hi: u64) -> u64 {
    if hi == 0 {
        0
    } else {
        u64::MAX >> hi.leading_zeros()
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: vec![],
            m: vec![],
            map: Default::default(),
            vars: vec![],
            varmap: HashMap::new(),
            tables: vec![],
            tabmap: HashMap::new(),
            facts: Default::default(),
            facts_epoch: 1,
            rmemo: vec![],
            ememo: vec![],
            eepoch: 0,
            truth: Default::default(),
            t: 0,
            f: 0,
        };
        // slot 0 is reserved ("concrete" marker)
        a.raw(Node {
            op: Op::Const,
            w: 64,
            a: 0,
            b: 0,
            c: 0,
            k: 0xdead,
        });
        a.f = a.con(1, 0);
        a.t = a.con(1, 1);
        a
    }

    fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.n.len() as E;
        let m = self.meta(&n);
        self.n.push(n);
        self.m.push(m);
        self.map.insert(n, e);
        e
    }

    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn as_const(&self, e: E) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn con(&mut self, w: u8, k: u64) -> E {
        self.raw(Node {
            op: Op::Const,
            w,
            a: 0,
            b: 0,
            c: 0,
            k: k & mask(w),
        })
    }
    pub fn var(&mut self, idx: u32, w: u8, lo: u64, hi: u64) -> E {
        let vi = VarInfo { idx, w, lo, hi };
        if let Some(e) = self.varmap.get(&vi) {
            return *e;
        }
        let id = self.vars.len() as u64;
        let e = self.n.len() as E;
        let n = Node {
            op: Op::Var,
            w,
            a: idx,
            b: 0,
            c: 0,
            k: id,
        };
        self.n.push(n);
        self.m.push(Meta {
            lo,
            hi,
            kz: !bitlen_mask(hi) & mask(w),
            supp: if idx < 127 { 1u128 << idx } else { !0 },
            single: e,
        });
        self.map.insert(n, e);
        self.vars.push((vi.clone(), e));
        self.varmap.insert(vi, e);
        e
    }
    pub fn table(&mut self, t: Vec<u64>) -> u32 {
        if let Some(i) = self.tabmap.get(&t) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.tabmap.insert(t, i);
        i
    }

    // ---- range analysis -------------------------------------------------
    fn meta(&self, n: &Node) -> Meta {
        let ms = |e: E| &self.m[e as usize];
        let mut supp = 0u128;
        let mut single = NOSINGLE;
        let mut first = true;
        let kids: &[E] = match n.op {
            Op::Const => &[],
            Op::Var => unreachable!(),
            Op::Not
            | Op::Extract
            | Op::ZExt
            | Op::SExt
            | Op::Clz
            | Op::Ctz
            | Op::Popcnt
            | Op::Lut
            | Op::F1 => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        for k in kids {
            let m = ms(*k);
            if m.supp == 0 {
                continue;
            }
            supp |= m.supp;
            if first {
                single = m.single;
                first = false;
            } else if single != m.single {
                single = NOSINGLE;
            }
        }
        let (lo, hi, kz) = self.transfer(n, &|e| {
            let m = &self.m[e as usize];
            (m.lo, m.hi)
        });
        Meta {
            lo,
            hi,
            kz,
            supp,
            single,
        }
    }

    /// interval + known-zero transfer function, using `r` for operand ranges
    fn transfer(&self, n: &Node, r: &dyn Fn(E) -> (u64, u64)) -> (u64, u64, u64) {
        let mk = mask(n.w);
        let kz = |e: E| {
            let (_, hi) = r(e);
            self.m[e as usize].kz | (!bitlen_mask(hi) & mask(self.w(e)))
        };
        let full = (0u64, mk);
        let mut kzr = 0u64;
        let (lo, hi) = match n.op {
            Op::Const => {
                kzr = !n.k & mk;
                (n.k, n.k)
            }
            Op::Var => {
                let m = &self.vars[n.k as usize].0;
                (m.lo, m.hi)
            }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= mk => (l, h),
                    (_, l) => {
                        // both overflow exactly once -> still contiguous
                        let l128 = a.0 as u128 + b.0 as u128;
                        let h128 = a.1 as u128 + b.1 as u128;
                        let _ = l;
                        let md = mk as u128 + 1;
                        if l128 >= md && h128 < 2 * md {
                            ((l128 - md) as u64, (h128 - md) as u64)
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else if a.1 < b.0 {
                    // always wraps
                    (
                        a.0.wrapping_sub(b.1) & mk,
                        a.1.wrapping_sub(b.0) & mk,
                    )
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mk => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, a.1.min(b.1 - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (r(n.a), r(n.b));
                kzr = kz(n.a) | kz(n.b);
                (0, a.1.min(b.1))
            }
            Op::Or | Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                kzr = kz(n.a) & kz(n.b);
                let h = bitlen_mask(a.1 | b.1);
                let disjoint = !(kz(n.a) | kz(n.b)) & mk == 0;
                if n.op == Op::Or || disjoint {
                    if disjoint {
                        (
                            a.0.saturating_add(b.0).min(h),
                            a.1.saturating_add(b.1).min(h),
                        )
                    } else {
                        (a.0.max(b.0), h)
                    }
                } else {
                    (0, h)
                }
            }
            Op::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    let a = r(n.a);
                    if s >= n.w as u64 {
                        (0, 0)
                    } else {
                        kzr = (kz(n.a) << s) | ((1u64 << s) - 1);
                        if s == 0 || a.1 <= (mk >> s) {
                            (a.0 << s, a.1 << s)
                        } else {
                            full
                        }
                    }
                } else {
                    full
                }
            }
            Op::LShr => {
                let a = r(n.a);
                if let Some(s) = self.as_const(n.b) {
                    if s >= n.w as u64 {
                        (0, 0)
                    } else {
                        kzr = (kz(n.a) >> s) | !(mk >> s);
                        (a.0 >> s, a.1 >> s)
                    }
                } else {
                    (0, a.1)
                }
            }
            Op::Ite => {
                let (c, a, b) = (r(n.a), r(n.b), r(n.c));
                if c.0 == 1 {
                    a
                } else if c.1 == 0 {
                    b
                } else {
                    kzr = kz(n.b) & kz(n.c);
                    (a.0.min(b.0), a.1.max(b.1))
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                let (a, b) = (r(n.a), r(n.b));
                kzr = (kz(n.a) << wb) | kz(n.b);
                ((a.0 << wb) | b.0, (a.1 << wb) | b.1)
            }
            Op::Extract => {
                let lo = n.k;
                let a = r(n.a);
                kzr = kz(n.a) >> lo;
                if (a.1 >> lo) <= mk {
                    (a.0 >> lo, a.1 >> lo)
                } else {
                    full
                }
            }
            Op::ZExt => {
                kzr = kz(n.a) | !mask(self.w(n.a));
                r(n.a)
            }
            Op::SExt => {
                let wa = self.w(n.a);
                let a = r(n.a);
                let half = 1u64 << (wa - 1);
                if a.1 < half {
                    a
                } else if a.0 >= half {
                    (sx(a.0, wa) as u64 & mk, sx(a.1, wa) as u64 & mk)
                } else {
                    full
                }
            }
            Op::Clz | Op::Ctz | Op::Popcnt => (0, n.w as u64),
            Op::Lut => {
                let t = &self.tables[n.k as usize];
                let (l, h) = r(n.a);
                let mut lo = u64::MAX;
                let mut hi = 0;
                let mut ones = 0;
                if l as usize >= t.len() {
                    (0, 0)
                } else {
                    for v in &t[l as usize..=(h as usize).min(t.len() - 1)] {
                        lo = lo.min(*v);
                        hi = hi.max(*v);
                        ones |= *v;
                    }
                    if h as usize >= t.len() {
                        lo = 0;
                    }
                    kzr = !ones;
                    (lo, hi)
                }
            }
            Op::Eq | Op::Ult | Op::Slt | Op::Not => (0, 1),
            _ => full,
        };
        let hi2 = hi.min(mk & !kzr);
        (lo.min(hi2), hi2.max(lo.min(hi2)), (kzr | !bitlen_mask(hi2)) & mk)
    }

    /// Range of `e` under the facts of the current state.
    pub fn range(&mut self, e: E) -> (u64, u64) {
        let m = self.m[e as usize];
        if self.facts.is_empty() || m.supp == 0 {
            return (m.lo, m.hi);
        }
        if self.rmemo.len() < self.n.len() {
            self.rmemo.resize(self.n.len() + 1024, (0, 0, 0));
        }
        let ep = self.facts_epoch;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.rmemo[x as usize].0 == ep || self.m[x as usize].supp == 0 {
                stack.pop();
                continue;
            }
            let n = self.n[x as usize];
            let kids: [E; 3] = match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                Op::Not
                | Op::Extract
                | Op::ZExt
                | Op::SExt
                | Op::Clz
                | Op::Ctz
                | Op::Popcnt
                | Op::Lut
                | Op::F1 => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && self.m[k as usize].supp != 0 && self.rmemo[k as usize].0 != ep {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let base = self.m[x as usize];
            let (mut lo, mut hi) = (base.lo, base.hi);
            if n.op != Op::Var {
                let (l, h, _) = self.transfer(&n, &|k| {
                    let r = &self.rmemo[k as usize];
                    if r.0 == ep {
                        (r.1, r.2)
                    } else {
                        let m = &self.m[k as usize];
                        (m.lo, m.hi)
                    }
                });
                if l.max(lo) <= h.min(hi) {
                    lo = l.max(lo);
                    hi = h.min(hi);
                }
            }
            if let Some(f) = self.facts.get(&x) {
                if f.0.max(lo) <= f.1.min(hi) {
                    lo = lo.max(f.0);
                    hi = hi.min(f.1);
                }
            }
            self.rmemo[x as usize] = (ep, lo, hi);
        }
        let r = self.rmemo[e as usize];
        (r.1, r.2)
    }

    // ---- constructors ---------------------------------------------------
    fn node(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        self.raw(Node { op, w, a, b, c, k })
    }

    pub fn get(&self, e: E) -> Node {
        self.n[e as usize]
    }

    /// multiply-by-constant view: e = m * u
    fn mulc(&self, e: E) -> (E, u64) {
        let n = self.get(e);
        if n.op == Op::Mul {
            if let Some(c) = self.as_const(n.b) {
                return (n.a, c);
            }
        }
        if n.op == Op::Shl {
            if let Some(c) = self.as_const(n.b) {
                if c < 63 {
                    return (n.a, 1u64 << c);
                }
            }
        }
        (e, 1)
    }

    /// digit view: e = (x mod n) div k, n = None means no mod
    fn digit(&self, e: E) -> Option<(E, Option<u64>, u64)> {
        let n = self.get(e);
        match n.op {
            Op::UDiv => {
                let k = self.as_const(n.b)?;
                let i = self.get(n.a);
                if i.op == Op::URem {
                    if let Some(m) = self.as_const(i.b) {
                        return Some((i.a, Some(m), k));
                    }
                }
                Some((n.a, None, k))
            }
            Op::URem => Some((n.a, Some(self.as_const(n.b)?), 1)),
            _ => None,
        }
    }

    /// a + b where a = M*(x div n), b = (x mod n) div k, M*k = n  ==> x div k
    fn try_horner(&mut self, a: E, b: E) -> Option<E> {
        let (mut u, mut mm) = self.mulc(a);
        let (q, m2) = self.mulc(b);
        if mm == 1 {
            return None;
        }
        if mm % m2 != 0 {
            return None;
        }
        // truncated digits: the identity holds on the wide values, and
        // truncation is a ring homomorphism
        let nw = self.w(a);
        let mut q = q;
        let (nq, nu) = (self.get(q), self.get(u));
        if nq.op == Op::Extract && nu.op == Op::Extract && nq.k == 0 && nu.k == 0 && self.w(nq.a) == self.w(nu.a) {
            q = nq.a;
            u = nu.a;
        }
        let (x, n, k) = self.digit(q)?;
        let n = n?;
        let w = self.w(q);
        // u must be the next group of digits of the same x: (x mod N) div n, n | N
        let (x2, nn, k2) = self.digit(u)?;
        if x2 != x || k2 != n || nn.map_or(false, |v| v % n != 0) {
            return None;
        }
        let r = mm / m2;
        if r.checked_mul(k) != Some(n) {
            return None;
        }
        // no overflow: the result is at most x
        let top = match nn {
            Some(v) => {
                let c = self.con(w, v);
                self.urem(x, c)
            }
            None => x,
        };
        let kc = self.con(w, k);
        u = self.udiv(top, kc);
        if w != nw {
            u = self.extract(u, 0, nw);
        }
        mm = m2;
        let mc = self.con(nw, mm);
        Some(self.mul(u, mc))
    }

    fn digit_or_self(&self, e: E) -> (E, Option<u64>, u64) {
        self.digit(e).unwrap_or((e, None, 1))
    }

    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(x) = self.as_const(a) {
            if let Some(y) = self.as_const(b) {
                return self.con(w, x.wrapping_add(y));
            }
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            let n = self.get(a);
            if n.op == Op::Add {
                if let Some(c2) = self.as_const(n.b) {
                    let k = self.con(w, c.wrapping_add(c2));
                    return self.add(n.a, k);
                }
            }
            if n.op == Op::Sub {
                if let Some(c2) = self.as_const(n.a) {
                    // (c2 - x) + c = (c2+c) - x
                    let k = self.con(w, c.wrapping_add(c2));
                    return self.sub(k, n.b);
                }
            }
            // ~x + 1 = 0 - x  (~x is x ^ -1)
            if n.op == Op::Xor && self.as_const(n.b) == Some(mask(w)) {
                let k = self.con(w, c.wrapping_sub(1));
                return self.sub(k, n.a);
            }
            if n.op == Op::Ite && self.leafy(a, 8) {
                let (x, y) = (self.add(n.b, b), self.add(n.c, b));
                return self.ite(n.a, x, y);
            }
            return self.node(Op::Add, w, a, b, 0, 0);
        }
        if let Some(r) = self.try_horner(a, b) {
            return r;
        }
        if let Some(r) = self.try_horner(b, a) {
            return r;
        }
        let (na, nb) = (self.get(a), self.get(b));
        // narrow sum of truncations that lose nothing: add in the wide domain
        if w > 8 && na.op == Op::Extract && nb.op == Op::Extract && na.k == 0 && nb.k == 0 {
            if self.w(na.a) == self.w(nb.a) {
                let wide = self.add(na.a, nb.a);
                if self.range(wide).1 <= mask(w) {
                    return self.extract(wide, 0, w);
                }
            }
        }
        // pull constants outward: (x + c) + y = (x + y) + c
        if na.op == Op::Add && self.as_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.as_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x + (0 - y) = x - y
        if nb.op == Op::Sub && self.as_const(nb.a) == Some(0) {
            return self.sub(a, nb.b);
        }
        if na.op == Op::Sub && self.as_const(na.a) == Some(0) {
            return self.sub(b, na.b);
        }
        // x + (-n)*(x div n) = x mod n
        for (x, y) in [(a, b), (b, a)] {
            let (u, m) = self.mulc(y);
            let un = self.get(u);
            if m != 1 && un.op == Op::UDiv {
                if let Some(n) = self.as_const(un.b) {
                    if un.a == x && m == n.wrapping_neg() & mask(w) {
                        return self.urem(x, un.b);
                    }
                    // (x mod N) + (-n)*((x mod N) div n) handled via canonical digit form
                    if m == n.wrapping_neg() & mask(w) {
                        let xx = self.digit(x);
                        let uu = self.digit(u);
                        if let (Some((x1, n1, k1)), Some((x2, n2, k2))) = (xx, uu) {
                            if x1 == x2 && n1 == n2 && k1.checked_mul(n) == Some(k2) {
                                return self.urem(x, un.b);
                            }
                        }
                    }
                }
            }
        }
        if a == b {
            let one = self.con(w, 1);
            return self.shl(a, one);
        }
        // no common bits: add == or is *not* canonicalised (add is cheaper for Horner)
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.node(Op::Add, w, a, b, 0, 0)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.con(w, 0);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.con(w, x.wrapping_sub(y)),
            (_, Some(y)) => {
                let k = self.con(w, 0u64.wrapping_sub(y));
                return self.add(a, k);
            }
            (Some(x), None) => {
                let n = self.get(b);
                // x - (y + c) = (x - c) - y
                if n.op == Op::Add {
                    if let Some(c) = self.as_const(n.b) {
                        let k = self.con(w, x.wrapping_sub(c));
                        return self.sub(k, n.a);
                    }
                }
                // x - (c - y) = (x - c) + y
                if n.op == Op::Sub {
                    if let Some(c) = self.as_const(n.a) {
                        let k = self.con(w, x.wrapping_sub(c));
                        return self.add(n.b, k);
                    }
                }
                if n.op == Op::Ite && self.leafy(b, 8) {
                    let (p, q) = (self.sub(a, n.b), self.sub(a, n.c));
                    return self.ite(n.a, p, q);
                }
                return self.node(Op::Sub, w, a, b, 0, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.get(a), self.get(b));
        // (0 - u)*... - d  ==> 0 - (u*... + d)
        if na.op == Op::Sub && self.as_const(na.a) == Some(0) {
            let s = self.add(na.b, b);
            let z = self.con(w, 0);
            return self.sub(z, s);
        }
        if nb.op == Op::Add {
            if self.as_const(nb.b).is_some() {
                // a - (y + c) = (a - y) - c
                let s = self.sub(a, nb.a);
                return self.sub(s, nb.b);
            }
            if nb.a == a || nb.b == a {
                let o = if nb.a == a { nb.b } else { nb.a };
                let z = self.con(w, 0);
                return self.sub(z, o);
            }
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.as_const(na.b).is_some() {
                let s = self.sub(na.a, b);
                return self.add(s, na.b);
            }
        }
        if nb.op == Op::Sub && self.as_const(nb.a) == Some(0) {
            return self.add(a, nb.b);
        }
        // x - n*(x div n) = x mod n
        let (u, m) = self.mulc(b);
        let un = self.get(u);
        if m != 1 && un.op == Op::UDiv && self.as_const(un.b) == Some(m) {
            let same = un.a == a || {
                match (self.digit(a), self.digit(u)) {
                    (Some((x1, n1, k1)), Some((x2, n2, k2))) => {
                        x1 == x2 && n1 == n2 && k1.checked_mul(m) == Some(k2)
                    }
                    _ => false,
                }
            };
            if same {
                return self.urem(a, un.b);
            }
        }
        // digit-form: a - m*u where u = digit(x, n, k*m), a = digit(x,n,k)
        if m != 1 {
            if let (Some((x1, n1, k1)), Some((x2, n2, k2))) = (self.digit(a), self.digit(u)) {
                if x1 == x2 && n1 == n2 && k1.checked_mul(m) == Some(k2) {
                    let mc = self.con(w, m);
                    return self.urem(a, mc);
                }
            }
            // a plain x, u = x div m
            if let Some((x2, None, k2)) = self.digit(u) {
                if x2 == a && k2 == m {
                    let mc = self.con(w, m);
                    return self.urem(a, mc);
                }
            }
        }
        self.node(Op::Sub, w, a, b, 0, 0)
    }

    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.con(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y == mask(w) {
                let z = self.con(w, 0);
                return self.sub(z, a);
            }
            let n = self.get(a);
            if n.op == Op::Mul {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, c.wrapping_mul(y));
                    return self.mul(n.a, k);
                }
            }
            if n.op == Op::Add {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, c.wrapping_mul(y));
                    let p = self.mul(n.a, b);
                    return self.add(p, k);
                }
            }
            if n.op == Op::Sub {
                if self.as_const(n.a) == Some(0) {
                    let p = self.mul(n.b, b);
                    let z = self.con(w, 0);
                    return self.sub(z, p);
                }
            }
            if n.op == Op::Ite && self.leafy(a, 8) {
                let (x, z) = (self.mul(n.b, b), self.mul(n.c, b));
                return self.ite(n.a, x, z);
            }
            return self.node(Op::Mul, w, a, b, 0, 0);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.node(Op::Mul, w, a, b, 0, 0)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.con(w, x / y);
                }
                let (lo, hi) = self.range(a);
                if lo / y == hi / y {
                    return self.con(w, lo / y);
                }
                let n = self.get(a);
                if n.op == Op::UDiv {
                    if let Some(c) = self.as_const(n.b) {
                        if let Some(k) = c.checked_mul(y) {
                            if k <= mask(w) {
                                let k = self.con(w, k);
                                return self.udiv(n.a, k);
                            }
                        }
                    }
                }
                // exact multiple: (u*c) div y, no overflow
                if n.op == Op::Mul {
                    if let Some(c) = self.as_const(n.b) {
                        if c % y == 0 {
                            let (_, uh) = self.range(n.a);
                            if uh.checked_mul(c).map_or(false, |v| v <= mask(w)) {
                                let k = self.con(w, c / y);
                                return self.mul(n.a, k);
                            }
                        }
                    }
                }
                if y.is_power_of_two() {
                    let s = self.con(w, y.trailing_zeros() as u64);
                    return self.lshr(a, s);
                }
                // push zero-extension out: (zext x) div y stays wide; x itself must be wide-canonical
            }
        }
        self.node(Op::UDiv, w, a, b, 0, 0)
    }

    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return self.con(w, 0);
            }
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.con(w, x % y);
                }
                let (_, hi) = self.range(a);
                if hi < y {
                    return a;
                }
                if y.is_power_of_two() {
                    let s = self.con(w, y - 1);
                    return self.and(a, s);
                }
                let n = self.get(a);
                if n.op == Op::URem {
                    if let Some(c) = self.as_const(n.b) {
                        if c % y == 0 {
                            return self.urem(n.a, b);
                        }
                    }
                }
                if n.op == Op::UDiv {
                    // ((x mod n) div k) mod y -> (x mod (k*y)) div k   when k*y | n
                    if let Some((x, nn, k)) = self.digit(a) {
                        if let Some(ky) = k.checked_mul(y) {
                            if ky <= mask(w) && nn.map_or(true, |nn| nn % ky == 0) {
                                let kyc = self.con(w, ky);
                                let kc = self.con(w, k);
                                let r = self.urem(x, kyc);
                                return self.udiv(r, kc);
                            }
                        }
                    }
                }
            }
        }
        self.node(Op::URem, w, a, b, 0, 0)
    }

    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.con(w, x.wrapping_div(y) as u64);
            }
        }
        let half = 1u64 << (w - 1);
        if self.range(a).1 < half && self.range(b).1 < half {
            return self.udiv(a, b);
        }
        self.node(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.con(w, x.wrapping_rem(y) as u64);
            }
        }
        let half = 1u64 << (w - 1);
        if self.range(a).1 < half && self.range(b).1 < half {
            return self.urem(a, b);
        }
        self.node(Op::SRem, w, a, b, 0, 0)
    }

    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            return a;
        }
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.con(w, x & y);
            }
            let kz = self.m[a as usize].kz;
            if y & !kz & mask(w) == 0 {
                return self.con(w, 0);
            }
            if y | kz | !mask(w) == u64::MAX {
                return a;
            }
            let (_, hi) = self.range(a);
            if y.wrapping_add(1).is_power_of_two() && hi <= y {
                return a;
            }
            let n = self.get(a);
            // (1 << x) & mask with x in a known interval of bit positions
            if n.op == Op::Shl && self.as_const(n.a) == Some(1) {
                let (l, h) = self.range(n.b);
                if h < w as u64 {
                    let span = (mask((h - l + 1) as u8)) << l;
                    if y & span == 0 {
                        return self.con(w, 0);
                    }
                    if y & span == span {
                        return a;
                    }
                }
            }
            if n.op == Op::And {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, c & y);
                    return self.and(n.a, k);
                }
            }
            // low mask -> zext(extract)
            if y.wrapping_add(1).is_power_of_two() {
                let bits = y.count_ones() as u8;
                if bits % 8 == 0 && bits < w {
                    let x = self.extract(a, 0, bits);
                    return self.zext(x, w);
                }
            }
            // distribute over concat / or so that word tests split into bytes
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let k = self.con(iw, y & mask(iw));
                let x = self.and(n.a, k);
                return self.zext(x, w);
            }
            if n.op == Op::Concat {
                let wb = self.w(n.b);
                let wa = self.w(n.a);
                let (ka, kb) = (self.con(wa, y >> wb), self.con(wb, y & mask(wb)));
                let (x, z) = (self.and(n.a, ka), self.and(n.b, kb));
                return self.concat(x, z);
            }
            if n.op == Op::Ite && self.leafy(a, 8) {
                let (x, z) = (self.and(n.b, b), self.and(n.c, b));
                return self.ite(n.a, x, z);
            }
            return self.node(Op::And, w, a, b, 0, 0);
        }
        if w == 1 {
            // contradiction
            let na = self.get(a);
            let nb = self.get(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.f;
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        // zext(x) & zext(y) with equal inner width
        let (na, nb) = (self.get(a), self.get(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.and(na.a, nb.a);
            return self.zext(x, w);
        }
        self.node(Op::And, w, a, b, 0, 0)
    }

    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            return a;
        }
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.con(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let n = self.get(a);
            if n.op == Op::Or {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, c | y);
                    return self.or(n.a, k);
                }
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                if y & !mask(iw) == 0 {
                    let k = self.con(iw, y);
                    let x = self.or(n.a, k);
                    return self.zext(x, w);
                }
            }
            if n.op == Op::Concat {
                let wb = self.w(n.b);
                let wa = self.w(n.a);
                let (ka, kb) = (self.con(wa, y >> wb), self.con(wb, y & mask(wb)));
                let (x, z) = (self.or(n.a, ka), self.or(n.b, kb));
                return self.concat(x, z);
            }
            return self.node(Op::Or, w, a, b, 0, 0);
        }
        if w == 1 {
            let na = self.get(a);
            let nb = self.get(b);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.t;
            }
        }
        let (na, nb) = (self.get(a), self.get(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.or(na.a, nb.a);
            return self.zext(x, w);
        }
        // byte-disjoint: (x << 8k) | zext(y)  ==> concat
        if w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let np = self.get(p);
                if np.op == Op::Shl {
                    if let Some(s) = self.as_const(np.b) {
                        if s % 8 == 0 && s > 0 && s < w as u64 {
                            let (_, qh) = self.range(q);
                            if qh <= mask(s as u8) {
                                let hi = self.extract(np.a, 0, w - s as u8);
                                let lo = self.extract(q, 0, s as u8);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                }
                if np.op == Op::Concat && self.as_const(np.b) == Some(0) {
                    let wl = self.w(np.b);
                    let (_, qh) = self.range(q);
                    if qh <= mask(wl) {
                        let lo = self.extract(q, 0, wl);
                        return self.concat(np.a, lo);
                    }
                }
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.node(Op::Or, w, a, b, 0, 0)
    }

    pub fn xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if a == b {
            return self.con(w, 0);
        }
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.con(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            let n = self.get(a);
            if n.op == Op::Xor {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, c ^ y);
                    return self.xor(n.a, k);
                }
            }
            // ~(c - x) = x - c - 1, ~(x + c) = (-c - 1) - x
            if y == mask(w) && n.op == Op::Sub {
                if let Some(c) = self.as_const(n.a) {
                    let k = self.con(w, (!c) & mask(w));
                    return self.add(n.b, k);
                }
            }
            if y == mask(w) && n.op == Op::Add {
                if let Some(c) = self.as_const(n.b) {
                    let k = self.con(w, (!c) & mask(w));
                    return self.sub(k, n.a);
                }
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                if y & !mask(iw) == 0 {
                    let k = self.con(iw, y);
                    let x = self.xor(n.a, k);
                    return self.zext(x, w);
                }
            }
            if n.op == Op::Concat {
                let wb = self.w(n.b);
                let wa = self.w(n.a);
                let (ka, kb) = (self.con(wa, y >> wb), self.con(wb, y & mask(wb)));
                let (x, z) = (self.xor(n.a, ka), self.xor(n.b, kb));
                return self.concat(x, z);
            }
            if n.op == Op::Ite && self.leafy(a, 8) {
                let (x, z) = (self.xor(n.b, b), self.xor(n.c, b));
                return self.ite(n.a, x, z);
            }
            return self.node(Op::Xor, w, a, b, 0, 0);
        }
        let (na, nb) = (self.get(a), self.get(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.xor(na.a, nb.a);
            return self.zext(x, w);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.node(Op::Xor, w, a, b, 0, 0)
    }

    /// wasm semantics: callers reduce the shift amount modulo the width
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u64 {
                return self.con(w, 0);
            }
            if let Some(x) = self.as_const(a) {
                return self.con(w, x << s);
            }
            let n = self.get(a);
            if s % 8 == 0 {
                let hi = self.extract(a, 0, w - s as u8);
                let z = self.con(s as u8, 0);
                return self.concat(hi, z);
            }
            if n.op == Op::Shl {
                if let Some(t) = self.as_const(n.b) {
                    let k = self.con(w, s + t);
                    return self.shl(n.a, k);
                }
            }
            if n.op == Op::LShr && self.as_const(n.b) == Some(s) {
                let k = self.con(w, mask(w) << s);
                return self.and(n.a, k);
            }
            // multiplication keeps the linear view used for digit reasoning
            let c = self.con(w, 1u64 << s);
            if !matches!(n.op, Op::And | Op::Or | Op::ZExt | Op::Extract | Op::Concat | Op::LShr) {
                return self.mul(a, c);
            }
        }
        self.node(Op::Shl, w, a, b, 0, 0)
    }

    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u64 {
                return self.con(w, 0);
            }
            if let Some(x) = self.as_const(a) {
                return self.con(w, x >> s);
            }
            let (_, hi) = self.range(a);
            if hi >> s == 0 {
                return self.con(w, 0);
            }
            let n = self.get(a);
            if s % 8 == 0 {
                let x = self.extract(a, s as u8, w - s as u8);
                return self.zext(x, w);
            }
            if n.op == Op::LShr {
                if let Some(t) = self.as_const(n.b) {
                    let k = self.con(w, s + t);
                    return self.lshr(n.a, k);
                }
            }
            if n.op == Op::Shl && self.as_const(n.b) == Some(s) {
                let k = self.con(w, mask(w) >> s);
                return self.and(n.a, k);
            }
            if n.op == Op::ZExt && s < self.w(n.a) as u64 {
                let iw = self.w(n.a);
                let k = self.con(iw, s);
                let x = self.lshr(n.a, k);
                return self.zext(x, w);
            }
            if s == w as u64 - 1 {
                // sign bit
                let z = self.con(w, 0);
                let c = self.slt(a, z);
                return self.zext(c, w);
            }
        }
        self.node(Op::LShr, w, a, b, 0, 0)
    }

    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if s == 0 {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                return self.con(w, (sx(x, w) >> s.min(63)) as u64);
            }
            if self.range(a).1 < 1u64 << (w - 1) {
                return self.lshr(a, b);
            }
            if s >= w as u64 - 1 && self.range(a).0 >= 1u64 << (w - 1) {
                return self.con(w, mask(w));
            }
            let n = self.get(a);
            // (x << s) >>s s  == sext of low bits
            if n.op == Op::Concat && s % 8 == 0 && self.as_const(n.b) == Some(0) {
                if self.w(n.b) as u64 == s {
                    return self.sext(n.a, w);
                }
            }
        }
        self.node(Op::AShr, w, a, b, 0, 0)
    }

    pub fn rot(&mut self, a: E, b: E, left: bool) -> E {
        let w = self.w(a);
        let wm = self.con(w, w as u64 - 1);
        let s = self.and(b, wm);
        let wc = self.con(w, w as u64);
        let t = self.sub(wc, s);
        let t = self.and(t, wm);
        let (x, y) = if left {
            (self.shl(a, s), self.lshr(a, t))
        } else {
            (self.lshr(a, s), self.shl(a, t))
        };
        if self.as_const(s) == Some(0) {
            return a;
        }
        self.or(x, y)
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.get(a);
        match n.op {
            Op::Const => self.con(1, n.k ^ 1),
            Op::Not => n.a,
            _ => self.node(Op::Not, 1, a, 0, 0, 0),
        }
    }

    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.t;
        }
        let w = self.w(a);
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.f;
        }
        if ra.0 == ra.1 && rb.0 == rb.1 && ra.0 == rb.0 {
            return self.t;
        }
        let n = self.get(a);
        if let Some(y) = self.as_const(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if y & self.m[a as usize].kz != 0 {
                return self.f;
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.f;
                    }
                    let k = self.con(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Extract if n.k == 0 && self.range(n.a).1 <= mask(w) => {
                    let ww = self.w(n.a);
                    let k = self.con(ww, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sx(y & mask(iw), iw) as u64 & mask(w) != y {
                        return self.f;
                    }
                    let k = self.con(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let wb = self.w(n.b);
                    let wa = self.w(n.a);
                    let (ka, kb) = (self.con(wa, y >> wb), self.con(wb, y));
                    let x = self.eq(n.a, ka);
                    if x == self.f {
                        return x;
                    }
                    let z = self.eq(n.b, kb);
                    return self.and(x, z);
                }
                Op::Add => {
                    if let Some(c) = self.as_const(n.b) {
                        let k = self.con(w, y.wrapping_sub(c));
                        return self.eq(n.a, k);
                    }
                }
                Op::Sub => {
                    if let Some(c) = self.as_const(n.a) {
                        let k = self.con(w, c.wrapping_sub(y));
                        return self.eq(n.b, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.as_const(n.b) {
                        let k = self.con(w, c ^ y);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = self.con(w, 0);
                        let p = self.eq(n.a, z);
                        let q = self.eq(n.b, z);
                        return self.and(p, q);
                    }
                }
                Op::Ite => {
                    if self.leafy(a, 16) {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                _ => {}
            }
            return self.node(Op::Eq, 1, a, b, 0, 0);
        }
        let nb = self.get(b);
        if n.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(n.a), self.w(nb.a));
            if wa == wb {
                return self.eq(n.a, nb.a);
            }
            if wa < wb {
                let x = self.zext(n.a, wb);
                return self.eq(x, nb.a);
            }
            let x = self.zext(nb.a, wa);
            return self.eq(n.a, x);
        }
        if n.op == Op::Concat && nb.op == Op::Concat && self.w(n.b) == self.w(nb.b) {
            let p = self.eq(n.a, nb.a);
            let q = self.eq(n.b, nb.b);
            return self.and(p, q);
        }
        // c - x == c' - y with equal constants
        if n.op == Op::Sub && nb.op == Op::Sub && n.a == nb.a {
            return self.eq(n.b, nb.b);
        }
        if n.op == Op::Add && nb.op == Op::Add && n.b == nb.b {
            return self.eq(n.a, nb.a);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.node(Op::Eq, 1, a, b, 0, 0)
    }

    /// Ite tree with constant leaves, at most `n` inner nodes
    fn leafy(&self, e: E, n: u32) -> bool {
        fn go(s: &Arena, e: E, n: &mut i32) -> bool {
            let x = s.get(e);
            match x.op {
                Op::Const => true,
                Op::Ite => {
                    *n -= 1;
                    *n >= 0 && go(s, x.b, n) && go(s, x.c, n)
                }
                _ => false,
            }
        }
        let mut n = n as i32;
        go(self, e, &mut n)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 {
            return self.t;
        }
        if ra.0 >= rb.1 {
            return self.f;
        }
        let w = self.w(a);
        let (na, nb) = (self.get(a), self.get(b));
        if let Some(y) = self.as_const(b) {
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.t;
                    }
                    let k = self.con(iw, y);
                    return self.ult(na.a, k);
                }
                Op::Extract if na.k == 0 && self.range(na.a).1 <= mask(w) => {
                    let ww = self.w(na.a);
                    let k = self.con(ww, y);
                    return self.ult(na.a, k);
                }
                Op::UDiv => {
                    if let Some(c) = self.as_const(na.b) {
                        if let Some(k) = c.checked_mul(y) {
                            if k <= mask(w) {
                                let k = self.con(w, k);
                                return self.ult(na.a, k);
                            }
                        }
                    }
                }
                Op::Add => {
                    // x + c < y with no wrap on x's range
                    if let Some(c) = self.as_const(na.b) {
                        let r = self.range(na.a);
                        let cc = c;
                        if r.1.checked_add(cc).map_or(false, |v| v <= mask(w)) {
                            if y <= cc {
                                return self.f;
                            }
                            let k = self.con(w, y - cc);
                            return self.ult(na.a, k);
                        }
                        // x - d  (c = -d) with x >= d
                        let d = 0u64.wrapping_sub(c) & mask(w);
                        if r.0 >= d {
                            if let Some(k) = y.checked_add(d) {
                                if k <= mask(w) {
                                    let k = self.con(w, k);
                                    return self.ult(na.a, k);
                                }
                            }
                        }
                    }
                }
                Op::Ite => {
                    if self.leafy(a, 16) {
                        let p = self.ult(na.b, b);
                        let q = self.ult(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
            if y == 1 {
                let z = self.con(w, 0);
                return self.eq(a, z);
            }
        }
        if let Some(x) = self.as_const(a) {
            // x < b  <=>  !(b < x+1)
            if x == mask(w) {
                return self.f;
            }
            let k = self.con(w, x + 1);
            let c = self.ult(b, k);
            return self.not(c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if na.op == Op::Extract
            && nb.op == Op::Extract
            && na.k == 0
            && nb.k == 0
            && self.w(na.a) == self.w(nb.a)
            && ra.1 == self.range(na.a).1
            && rb.1 == self.range(nb.a).1
            && self.range(na.a).1 <= mask(w)
            && self.range(nb.a).1 <= mask(w)
        {
            return self.ult(na.a, nb.a);
        }
        // (x mod N) div k < (x mod n) div k is false when n | N
        {
            let (x1, n1, k1) = self.digit_or_self(a);
            let (x2, n2, k2) = self.digit_or_self(b);
            if x1 == x2 && k1 == k2 {
                if let Some(n2) = n2 {
                    if n1.map_or(true, |v| v % n2 == 0) {
                        return self.f;
                    }
                }
            }
        }
        self.node(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }

    fn srange(&mut self, a: E) -> (i64, i64) {
        let w = self.w(a);
        let (l, h) = self.range(a);
        let half = 1u64 << (w - 1);
        if h < half {
            (l as i64, h as i64)
        } else if l >= half {
            (sx(l, w), sx(h, w))
        } else {
            let n = self.get(a);
            if n.op == Op::SExt {
                return self.srange(n.a);
            }
            if n.op == Op::Sub {
                // wrapped difference of small non-negative operands
                let (p, q) = (self.range(n.a), self.range(n.b));
                if p.1 < half && q.1 < half {
                    return (p.0 as i64 - q.1 as i64, p.1 as i64 - q.0 as i64);
                }
            }
            (sx(half, w), (half - 1) as i64)
        }
    }

    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        let (ra, rb) = (self.srange(a), self.srange(b));
        if ra.1 < rb.0 {
            return self.t;
        }
        if ra.0 >= rb.1 {
            return self.f;
        }
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.ult(a, b);
        }
        let (na, nb) = (self.get(a), self.get(b));
        if na.op == Op::SExt {
            let iw = self.w(na.a);
            if let Some(y) = self.as_const(b) {
                let ys = sx(y, w);
                let lim = 1i64 << (iw - 1);
                if ys >= lim {
                    return self.t;
                }
                if ys < -lim {
                    return self.f;
                }
                let k = self.con(iw, y);
                return self.slt(na.a, k);
            }
            if nb.op == Op::SExt && self.w(nb.a) == iw {
                return self.slt(na.a, nb.a);
            }
        }
        if nb.op == Op::SExt {
            let iw = self.w(nb.a);
            if let Some(x) = self.as_const(a) {
                let xs = sx(x, w);
                let lim = 1i64 << (iw - 1);
                if xs >= lim {
                    return self.f;
                }
                if xs < -lim {
                    return self.t;
                }
                let k = self.con(iw, x);
                return self.slt(k, nb.a);
            }
        }
        if na.op == Op::Ite && self.as_const(b).is_some() && self.leafy(a, 16) {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        if let Some(x) = self.as_const(a) {
            // x < b <=> !(b < x+1)
            if sx(x, w) == sx(mask(w) >> 1, w) {
                return self.f;
            }
            let k = self.con(w, x.wrapping_add(1));
            let c = self.slt(b, k);
            return self.not(c);
        }
        self.node(Op::Slt, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        let nc = self.get(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        } else if self.as_const(a) == Some(1) && self.as_const(b) == Some(0) {
            return self.zext(c, w);
        } else if self.as_const(a) == Some(0) && self.as_const(b) == Some(1) {
            let n = self.not(c);
            return self.zext(n, w);
        }
        // nested same condition
        let na = self.get(a);
        let mut a = a;
        let mut b = b;
        if na.op == Op::Ite && na.a == c {
            a = na.b;
        }
        let nb = self.get(b);
        if nb.op == Op::Ite && nb.a == c {
            b = nb.c;
        }
        if a == b {
            return a;
        }
        self.node(Op::Ite, w, c, a, b, 0)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        debug_assert!(w <= 64);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.con(w, (x << wb) | y);
        }
        let (na, nb) = (self.get(a), self.get(b));
        if self.as_const(a) == Some(0) {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u64
        {
            return self.extract(na.a, nb.k as u8, w);
        }
        // extract(x, k) ++ b where b is (a simplified form of) the bits of x just below k
        if na.op == Op::Extract && na.k >= wb as u64 {
            let lo = na.k as u8 - wb;
            if self.extract(na.a, lo, wb) == b {
                return self.extract(na.a, lo, w);
            }
        }
        // zext(x) ++ b  ==> zext(x ++ b)
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // b is the whole expr e (narrow), a is its sign/zero part: covered by zext above
        // right-assoc: (p ++ q) ++ b -> p ++ (q ++ b)
        if na.op == Op::Concat {
            let q = self.concat(na.b, b);
            return self.concat(na.a, q);
        }
        // a ++ (p ++ q): try to merge a with p
        if nb.op == Op::Concat {
            let np = self.get(nb.a);
            let wp = self.w(nb.a);
            if na.op == Op::Extract
                && np.op == Op::Extract
                && na.a == np.a
                && na.k == np.k + wp as u64
            {
                let m = self.extract(na.a, np.k as u8, wa + wp);
                return self.concat(m, nb.b);
            }
            if na.op == Op::Extract && na.k >= wp as u64 {
                let lo = na.k as u8 - wp;
                if self.extract(na.a, lo, wp) == nb.a {
                    let m = self.extract(na.a, lo, wa + wp);
                    return self.concat(m, nb.b);
                }
            }
            if self.as_const(a).is_some() && self.as_const(nb.a).is_some() {
                let m = self.concat(a, nb.a);
                return self.concat(m, nb.b);
            }
        }
        self.node(Op::Concat, w, a, b, 0, 0)
    }

    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        if let Some(x) = self.as_const(a) {
            return self.con(w, x >> lo);
        }
        let n = self.get(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.con(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let x = self.extract(n.a, 0, w - (wb - lo));
                let y = self.extract(n.b, lo, wb - lo);
                return self.concat(x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.as_const(n.b).is_some() || w % 8 == 0 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return match n.op {
                        Op::And => self.and(x, y),
                        Op::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            Op::Ite => {
                if self.leafy(a, 16) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncation distributes over ring operations
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                // keep wide form when it is provably the same value (digit reasoning)
                let (_, hi) = self.range(a);
                if hi > mask(w) || w <= 8 {
                    return match n.op {
                        Op::Add => self.add(x, y),
                        Op::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            Op::Lut if lo == 0 || w % 8 == 0 => {
                let t: Vec<u64> = self.tables[n.k as usize]
                    .iter()
                    .map(|v| (v >> lo) & mask(w))
                    .collect();
                return self.lut(n.a, t, w);
            }
            _ => {}
        }
        if lo > 0 {
            let (_, hi) = self.range(a);
            if hi >> lo == 0 {
                return self.con(w, 0);
            }
        }
        self.node(Op::Extract, w, a, 0, 0, lo as u64)
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.as_const(a) {
            return self.con(w, x);
        }
        let n = self.get(a);
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            // canonical wide arithmetic: needed for digit reasoning
            Op::UDiv | Op::URem if self.as_const(n.b).is_some() => {
                let x = self.zext(n.a, w);
                let y = self.zext(n.b, w);
                return if n.op == Op::UDiv {
                    self.udiv(x, y)
                } else {
                    self.urem(x, y)
                };
            }
            Op::Add | Op::Mul if wa > 1 => {
                let (x, y) = (self.range(n.a), self.range(n.b));
                let r = if n.op == Op::Add {
                    x.1.checked_add(y.1)
                } else {
                    x.1.checked_mul(y.1)
                };
                if r.map_or(false, |v| v <= mask(wa)) {
                    let x = self.zext(n.a, w);
                    let y = self.zext(n.b, w);
                    return if n.op == Op::Add {
                        self.add(x, y)
                    } else {
                        self.mul(x, y)
                    };
                }
            }
            Op::Extract if n.k == 0 => {
                // zext(trunc(x)) == x when x fits
                let (_, hi) = self.range(n.a);
                if hi <= mask(wa) {
                    let wx = self.w(n.a);
                    if wx == w {
                        return n.a;
                    }
                    if wx < w {
                        return self.zext(n.a, w);
                    }
                    return self.extract(n.a, 0, w);
                }
            }
            _ => {}
        }
        self.node(Op::ZExt, w, a, 0, 0, 0)
    }

    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.as_const(a) {
            return self.con(w, sx(x, wa) as u64);
        }
        if self.range(a).1 < 1u64 << (wa - 1) {
            return self.zext(a, w);
        }
        let n = self.get(a);
        match n.op {
            Op::SExt => return self.sext(n.a, w),
            Op::Sub => {
                // sext(p - q) with small operands = zext p - zext q
                let half = 1u64 << (wa - 1);
                let (p, q) = (self.range(n.a), self.range(n.b));
                if p.1 < half && q.1 < half {
                    let x = self.zext(n.a, w);
                    let y = self.zext(n.b, w);
                    return self.sub(x, y);
                }
            }
            Op::Extract if n.k == 0 && self.w(n.a) == w => {
                let i = self.get(n.a);
                if i.op == Op::Sub {
                    let half = 1u64 << (wa - 1);
                    let (p, q) = (self.range(i.a), self.range(i.b));
                    if p.1 < half && q.1 < half {
                        return n.a;
                    }
                }
            }
            _ => {}
        }
        self.node(Op::SExt, w, a, 0, 0, 0)
    }

    pub fn un(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.as_const(a) {
            let r = match op {
                Op::Clz => x.leading_zeros() as u64 - (64 - w as u64),
                Op::Ctz => (x.trailing_zeros() as u64).min(w as u64),
                _ => x.count_ones() as u64,
            };
            return self.con(w, r);
        }
        self.node(op, w, a, 0, 0, 0)
    }

    /// table lookup; index known to be in range
    pub fn lut(&mut self, idx: E, t: Vec<u64>, w: u8) -> E {
        if t.iter().all(|v| *v == t[0]) {
            return self.con(w, t[0]);
        }
        if let Some(i) = self.as_const(idx) {
            return self.con(w, t.get(i as usize).copied().unwrap_or(0));
        }
        let wi = self.w(idx);
        let (lo, hi) = self.range(idx);
        let n = (hi as usize + 1).min(t.len());
        let lo = (lo as usize).min(n - 1);
        if t[lo..n].iter().all(|v| *v == t[lo]) {
            return self.con(w, t[lo]);
        }
        // affine index: idx = s * j + c  (modulo the width)
        let ni = self.get(idx);
        let (lin, c) = match (ni.op, self.as_const(ni.b)) {
            (Op::Add, Some(c)) => (ni.a, c),
            _ => (idx, 0),
        };
        let (j, s) = self.mulc(lin);
        if s > 1 || c != 0 {
            let (jl, jh) = self.range(j);
            if jh <= 5000 {
                let t2: Vec<u64> = (0..=jh)
                    .map(|i| {
                        let i = i.max(jl);
                        let k = i.wrapping_mul(s).wrapping_add(c) & mask(wi);
                        t.get(k as usize).copied().unwrap_or(0)
                    })
                    .collect();
                return self.lut(j, t2, w);
            }
        }
        // multi-byte entries: split into bytes
        if w > 8 && w % 8 == 0 {
            let lo: Vec<u64> = t.iter().map(|v| v & 0xff).collect();
            let hi: Vec<u64> = t.iter().map(|v| v >> 8).collect();
            let h = self.lut(idx, hi, w - 8);
            let l = self.lut(idx, lo, 8);
            return self.concat(h, l);
        }
        // closed forms, verified entry by entry
        let aff = |f: &dyn Fn(u64) -> u64| (lo..n).all(|i| t[i] == (f(i as u64) & mask(w)));
        let base = t[lo].wrapping_sub(lo as u64);
        let base_d = t[lo].wrapping_sub(lo as u64 / 10);
        let base_m = t[lo].wrapping_sub(lo as u64 % 10);
        let wide = wi.max(w);
        let fit = |s: &mut Self, e: E| -> E {
            if s.w(e) > w {
                s.extract(e, 0, w)
            } else {
                e
            }
        };
        if n - lo >= 2 && aff(&|i| base.wrapping_add(i)) {
            let x = self.zext(idx, wide);
            let k = self.con(wide, base);
            let e = self.add(x, k);
            return fit(self, e);
        }
        if n - lo > 10 && aff(&|i| base_d.wrapping_add(i / 10)) {
            let x = self.zext(idx, wide);
            let ten = self.con(wide, 10);
            let d = self.udiv(x, ten);
            let k = self.con(wide, base_d);
            let e = self.add(d, k);
            return fit(self, e);
        }
        if n - lo > 10 && aff(&|i| base_m.wrapping_add(i % 10)) {
            let x = self.zext(idx, wide);
            let ten = self.con(wide, 10);
            let d = self.urem(x, ten);
            let k = self.con(wide, base_m);
            let e = self.add(d, k);
            return fit(self, e);
        }
        let t = t[..n].to_vec();
        let id = self.table(t);
        self.node(Op::Lut, w, idx, 0, 0, id as u64)
    }

    pub fn f1(&mut self, k: u64, a: E, w: u8) -> E {
        if let Some(x) = self.as_const(a) {
            return self.con(w, feval1(k, x, self.w(a)));
        }
        let n = self.get(a);
        let neg_inner = |s: &Self, e: E| -> Option<(E, bool)> {
            // returns (int expr, negated) when e = +-convert_u(int)
            let n = s.get(e);
            if n.op == Op::F1 && (n.k == 0xba || n.k == 0xb8) {
                return Some((n.a, false));
            }
            if n.op == Op::F1 && n.k == 0x9a {
                let m = s.get(n.a);
                if m.op == Op::F1 && (m.k == 0xba || m.k == 0xb8) {
                    return Some((m.a, true));
                }
            }
            None
        };
        match k {
            // f64.convert_i32_u / i64_u / signed with non-negative value: canonical convert_i64_u
            0xb7 | 0xb8 | 0xb9 => {
                let wa = self.w(a);
                let nonneg = k == 0xb8 || self.range(a).1 < 1u64 << (wa - 1);
                if nonneg {
                    let x = self.zext(a, 64);
                    return self.f1(0xba, x, 64);
                }
            }
            // f64.neg . neg
            0x9a if n.op == Op::F1 && n.k == 0x9a => return n.a,
            // trunc_sat f64 -> ints
            0x102 | 0x103 | 0x106 | 0x107 | 0xaa | 0xab | 0xb0 | 0xb1 => {
                if let Some((i, neg)) = neg_inner(self, a) {
                    let (_, hi) = self.range(i);
                    if hi < 1u64 << 53 {
                        let lim: u64 = match k {
                            0x102 | 0xaa => (1 << 31) - 1 + neg as u64,
                            0x103 | 0xab => {
                                if neg {
                                    0
                                } else {
                                    u32::MAX as u64
                                }
                            }
                            0x107 | 0xb1 => {
                                if neg {
                                    0
                                } else {
                                    1 << 53
                                }
                            }
                            _ => 1 << 53,
                        };
                        let sat: u64 = match (k, neg) {
                            (0x102, false) => i32::MAX as u32 as u64,
                            (0x102, true) => i32::MIN as u32 as u64,
                            (0x103, false) => u32::MAX as u64,
                            _ => 0,
                        };
                        let v = self.extract(i, 0, w);
                        let v = if neg {
                            let z = self.con(w, 0);
                            self.sub(z, v)
                        } else {
                            v
                        };
                        if hi <= lim {
                            return v;
                        }
                        if k >= 0x100 {
                            let l = self.con(64, lim);
                            let c = self.ult(l, i);
                            let s = self.con(w, sat);
                            return self.ite(c, s, v);
                        }
                    }
                }
            }
            _ => {}
        }
        self.node(Op::F1, w, a, 0, 0, k)
    }

    pub fn f2(&mut self, k: u64, a: E, b: E, w: u8) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.con(w, feval2(k, x, y));
        }
        let one = 1f64.to_bits();
        // f64.mul / div by 1.0 on (canonical, non-NaN) converted integers
        let is_conv = |s: &Self, e: E| {
            let n = s.get(e);
            n.op == Op::F1
                && (n.k == 0xba
                    || (n.k == 0x9a && {
                        let m = s.get(n.a);
                        m.op == Op::F1 && m.k == 0xba
                    }))
        };
        if k == 0xa2 || k == 0xa3 {
            if self.as_const(b) == Some(one) && is_conv(self, a) {
                return a;
            }
            if k == 0xa2 && self.as_const(a) == Some(one) && is_conv(self, b) {
                return b;
            }
        }
        // comparisons of converted non-negative integers with constants
        if (0x61..=0x66).contains(&k) {
            let n = self.get(a);
            if n.op == Op::F1 && n.k == 0xba && self.range(n.a).1 < 1 << 53 {
                if let Some(y) = self.as_const(b) {
                    let y = f64::from_bits(y);
                    if y.fract() == 0.0 && y >= 0.0 && y < 9.0e15 {
                        let c = self.con(64, y as u64);
                        let r = match k {
                            0x61 => self.eq(n.a, c),
                            0x62 => {
                                let e = self.eq(n.a, c);
                                self.not(e)
                            }
                            0x63 => self.ult(n.a, c),
                            0x64 => self.ult(c, n.a),
                            0x65 => self.ule(n.a, c),
                            _ => self.ule(c, n.a),
                        };
                        return self.zext(r, w);
                    }
                }
            }
        }
        self.node(Op::F2, w, a, b, 0, k)
    }

    // ---- evaluation -----------------------------------------------------
    /// evaluate under an assignment (indexed by variable idx)
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.eepoch = self.eepoch.wrapping_add(1);
        if self.eepoch == 0 {
            self.ememo.iter_mut().for_each(|x| x.0 = 0);
            self.eepoch = 1;
        }
        self.eval_in(e, model)
    }

    /// evaluate, sharing the memo of the previous `eval` call (same model)
    pub fn eval_more(&mut self, e: E, model: &[u64]) -> u64 {
        self.eval_in(e, model)
    }

    fn eval_in(&mut self, e: E, model: &[u64]) -> u64 {
        if self.ememo.len() < self.n.len() {
            self.ememo.resize(self.n.len() + 1024, (0, 0));
        }
        let ep = self.eepoch;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ememo[x as usize].0 == ep {
                stack.pop();
                continue;
            }
            let n = self.n[x as usize];
            if n.op == Op::Const {
                self.ememo[x as usize] = (ep, n.k);
                stack.pop();
                continue;
            }
            if n.op == Op::Var {
                let v = model.get(n.a as usize).copied().unwrap_or(self.m[x as usize].lo);
                self.ememo[x as usize] = (ep, v & mask(n.w));
                stack.pop();
                continue;
            }
            let kids: [E; 3] = match n.op {
                Op::Not
                | Op::Extract
                | Op::ZExt
                | Op::SExt
                | Op::Clz
                | Op::Ctz
                | Op::Popcnt
                | Op::Lut
                | Op::F1 => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && self.ememo[k as usize].0 != ep {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let v = |i: usize| self.ememo[kids[i] as usize].1;
            let wa = if n.a != 0 { self.w(n.a) } else { 0 };
            let r = match n.op {
                Op::Const | Op::Var => unreachable!(),
                Op::Add => v(0).wrapping_add(v(1)),
                Op::Sub => v(0).wrapping_sub(v(1)),
                Op::Mul => v(0).wrapping_mul(v(1)),
                Op::UDiv => {
                    if v(1) == 0 {
                        mask(n.w)
                    } else {
                        v(0) / v(1)
                    }
                }
                Op::URem => {
                    if v(1) == 0 {
                        v(0)
                    } else {
                        v(0) % v(1)
                    }
                }
                Op::SDiv => {
                    let (p, q) = (sx(v(0), wa), sx(v(1), wa));
                    if q == 0 {
                        0
                    } else {
                        p.wrapping_div(q) as u64
                    }
                }
                Op::SRem => {
                    let (p, q) = (sx(v(0), wa), sx(v(1), wa));
                    if q == 0 {
                        0
                    } else {
                        p.wrapping_rem(q) as u64
                    }
                }
                Op::And => v(0) & v(1),
                Op::Or => v(0) | v(1),
                Op::Xor => v(0) ^ v(1),
                Op::Shl => {
                    if v(1) >= n.w as u64 {
                        0
                    } else {
                        v(0) << v(1)
                    }
                }
                Op::LShr => {
                    if v(1) >= n.w as u64 {
                        0
                    } else {
                        v(0) >> v(1)
                    }
                }
                Op::AShr => (sx(v(0), wa) >> v(1).min(63)) as u64,
                Op::Eq => (v(0) == v(1)) as u64,
                Op::Ult => (v(0) < v(1)) as u64,
                Op::Slt => (sx(v(0), wa) < sx(v(1), wa)) as u64,
                Op::Not => v(0) ^ 1,
                Op::Ite => {
                    if v(0) == 1 {
                        v(1)
                    } else {
                        v(2)
                    }
                }
                Op::Concat => (v(0) << self.w(n.b)) | v(1),
                Op::Extract => v(0) >> n.k,
                Op::ZExt => v(0),
                Op::SExt => sx(v(0), wa) as u64,
                Op::Clz => v(0).leading_zeros() as u64 - (64 - n.w as u64),
                Op::Ctz => (v(0).trailing_zeros() as u64).min(n.w as u64),
                Op::Popcnt => v(0).count_ones() as u64,
                Op::Lut => self.tables[n.k as usize]
                    .get(v(0) as usize)
                    .copied()
                    .unwrap_or(0),
                Op::F1 => feval1(n.k, v(0), wa),
                Op::F2 => feval2(n.k, v(0), v(1)),
            };
            self.ememo[x as usize] = (ep, r & mask(n.w));
        }
        self.ememo[e as usize].1
    }

    /// truth table of a boolean expression over a single <=8-bit variable
    pub fn truth_table(&mut self, e: E) -> Option<(E, Bits)> {
        let v = self.m[e as usize].single;
        if v == NOSINGLE {
            return None;
        }
        let vm = self.m[v as usize];
        if vm.hi > 255 {
            return None;
        }
        if let Some(b) = self.truth.get(&e) {
            return Some((v, *b));
        }
        let idx = self.get(v).a as usize;
        let mut model = vec![0u64; idx + 1];
        let mut b: Bits = [0; 4];
        for x in vm.lo..=vm.hi {
            model[idx] = x;
            if self.eval(e, &model) & 1 == 1 {
                b[(x / 64) as usize] |= 1 << (x % 64);
            }
        }
        self.truth.insert(e, b);
        Some((v, b))
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.get(e);
        if n.op == Op::Const {
            return format!("{:#x}", n.k);
        }
        if n.op == Op::Var {
            return format!("v{}:{}", n.a, n.w);
        }
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        let kids: Vec<String> = match n.op {
            Op::Not | Op::ZExt | Op::SExt | Op::Clz | Op::Ctz | Op::Popcnt => {
                vec![self.show(n.a, d)]
            }
            Op::Extract | Op::Lut | Op::F1 => vec![self.show(n.a, d), format!("{:#x}", n.k)],
            Op::Ite => vec![self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)],
            _ => vec![self.show(n.a, d), self.show(n.b, d)],
        };
        format!("({:?}{} {})", n.op, n.w, kids.join(" "))
    }
}

/// float unary / conversion semantics on bit patterns (k = wasm opcode)
pub fn feval1(k: u64, x: u64, wa: u8) -> u64 {
    let d = f64::from_bits(x);
    let s = f32::from_bits(x as u32);
    match k {
        0x8b => s.abs().to_bits() as u64,
        0x8c => (x as u32 ^ 0x8000_0000) as u64,
        0x8d => s.ceil().to_bits() as u64,
        0x8e => s.floor().to_bits() as u64,
        0x8f => s.trunc().to_bits() as u64,
        0x90 => s.round_ties_even().to_bits() as u64,
        0x91 => s.sqrt().to_bits() as u64,
        0x99 => d.abs().to_bits(),
        0x9a => x ^ (1 << 63),
        0x9b => d.ceil().to_bits(),
        0x9c => d.floor().to_bits(),
        0x9d => d.trunc().to_bits(),
        0x9e => d.round_ties_even().to_bits(),
        0x9f => d.sqrt().to_bits(),
        0xa8 | 0x100 => s as i32 as u32 as u64,
        0xa9 | 0x101 => s as u32 as u64,
        0xaa | 0x102 => d as i32 as u32 as u64,
        0xab | 0x103 => d as u32 as u64,
        0xae | 0x104 => s as i64 as u64,
        0xaf | 0x105 => s as u64,
        0xb0 | 0x106 => d as i64 as u64,
        0xb1 | 0x107 => d as u64,
        0xb2 => (x as u32 as i32 as f32).to_bits() as u64,
        0xb3 => (x as u32 as f32).to_bits() as u64,
        0xb4 => (x as i64 as f32).to_bits() as u64,
        0xb5 => (x as f32).to_bits() as u64,
        0xb6 => (d as f32).to_bits() as u64,
        0xb7 => (x as u32 as i32 as f64).to_bits(),
        0xb8 => (x as u32 as f64).to_bits(),
        0xb9 => (x as i64 as f64).to_bits(),
        0xba => (x as f64).to_bits(),
        0xbb => (s as f64).to_bits(),
        _ => panic!("feval1 {k:#x} {wa}"),
    }
}

pub fn feval2(k: u64, x: u64, y: u64) -> u64 {
    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
    let (s, t) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
    let fmin = |a: f64, b: f64| {
        if a.is_nan() || b.is_nan() {
            f64::NAN
        } else if a == 0.0 && b == 0.0 {
            if a.is_sign_negative() {
                a
            } else {
                b
            }
        } else {
            a.min(b)
        }
    };
    let fmax = |a: f64, b: f64| {
        if a.is_nan() || b.is_nan() {
            f64::NAN
        } else if a == 0.0 && b == 0.0 {
            if a.is_sign_negative() {
                b
            } else {
                a
            }
        } else {
            a.max(b)
        }
    };
    match k {
        0x5b => (s == t) as u64,
        0x5c => (s != t) as u64,
        0x5d => (s < t) as u64,
        0x5e => (s > t) as u64,
        0x5f => (s <= t) as u64,
        0x60 => (s >= t) as u64,
        0x61 => (a == b) as u64,
        0x62 => (a != b) as u64,
        0x63 => (a < b) as u64,
        0x64 => (a > b) as u64,
        0x65 => (a <= b) as u64,
        0x66 => (a >= b) as u64,
        0x92 => (s + t).to_bits() as u64,
        0x93 => (s - t).to_bits() as u64,
        0x94 => (s * t).to_bits() as u64,
        0x95 => (s / t).to_bits() as u64,
        0x96 => (fmin(s as f64, t as f64) as f32).to_bits() as u64,
        0x97 => (fmax(s as f64, t as f64) as f32).to_bits() as u64,
        0x98 => s.copysign(t).to_bits() as u64,
        0xa0 => (a + b).to_bits(),
        0xa1 => (a - b).to_bits(),
        0xa2 => (a * b).to_bits(),
        0xa3 => (a / b).to_bits(),
        0xa4 => fmin(a, b).to_bits(),
        0xa5 => fmax(a, b).to_bits(),
        0xa6 => a.copysign(b).to_bits(),
        _ => panic!("feval2 {k:#x}"),
    }
}

pub fn hash_bytes(h: u64, b: u8) -> u64 {
    (h ^ b as u64).wrapping_mul(0x100000001b3)
}

#[allow(dead_code)]
fn _assert_hash<T: Hash>() {}
