//! Minimal hand-written binding to libz3 and the expression -> SMT encoding.
use crate::expr::*;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
}

static mut LAST_ERR: u32 = 0;
extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        LAST_ERR = e;
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {e}: {}", m.to_string_lossy());
    }
}

pub struct Z3 {
    c: P,
    memo: Vec<P>,
    params: P,
    sorts: [P; 65],
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub dump: Option<(String, u64)>,
    dumped: u64,
    has_fp: Vec<bool>,
}

pub enum R {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            Z3 {
                c,
                memo: vec![],
                params,
                sorts: [std::ptr::null_mut(); 65],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                secs: 0.0,
                max_secs: 0.0,
                dump: None,
                dumped: 0,
                has_fp: vec![],
            }
        }
    }

    fn sort(&mut self, w: u8) -> P {
        unsafe {
            if self.sorts[w as usize].is_null() {
                let s = Z3_mk_bv_sort(self.c, w as c_uint);

                self.sorts[w as usize] = s;
            }
            self.sorts[w as usize]
        }
    }

    fn num(&mut self, w: u8, v: u64) -> P {
        let s = self.sort(w);
        unsafe { Z3_mk_unsigned_int64(self.c, v & mask(w), s) }
    }

    /// bit-vector view of a node (bool nodes become 1-bit vectors)
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let p = self.memo[e as usize];
        if ar.w(e) == 1 {
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            unsafe { Z3_mk_ite(self.c, p, o, z) }
        } else {
            p
        }
    }

    fn to_bool(&mut self, p: P) -> P {
        let o = self.num(1, 1);
        unsafe { Z3_mk_eq(self.c, p, o) }
    }

    fn lut(&mut self, idx: P, wi: u8, t: &[u64], base: u64, w: u8) -> P {
        if t.iter().all(|x| *x == t[0]) {
            return if w == 1 {
                unsafe {
                    if t[0] & 1 == 1 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                }
            } else {
                self.num(w, t[0])
            };
        }
        let m = t.len() / 2;
        let l = self.lut(idx, wi, &t[..m], base, w);
        let r = self.lut(idx, wi, &t[m..], base + m as u64, w);
        let k = self.num(wi, base + m as u64);
        unsafe {
            let c = Z3_mk_bvult(self.c, idx, k);
            Z3_mk_ite(self.c, c, l, r)
        }
    }

    fn enc(&mut self, ar: &Arena, root: E) -> P {
        if self.memo.len() < ar.n.len() {
            self.memo.resize(ar.n.len(), std::ptr::null_mut());
            self.has_fp.resize(ar.n.len(), false);
        }
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if !self.memo[x as usize].is_null() {
                stack.pop();
                continue;
            }
            let n = ar.get(x);
            let kids: [E; 3] = match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                Op::Not
                | Op::Extract
                | Op::ZExt
                | Op::SExt
                | Op::Clz
                | Op::Ctz
                | Op::Popcnt
                | Op::Lut
                | Op::F1 => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && self.memo[k as usize].is_null() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let p = self.enc1(ar, x, &n);

            let fp = matches!(n.op, Op::F1 | Op::F2)
                || kids.iter().any(|k| *k != 0 && self.has_fp[*k as usize]);
            self.has_fp[x as usize] = fp;
            self.memo[x as usize] = p;
        }
        self.memo[root as usize]
    }

    fn enc1(&mut self, ar: &Arena, _x: E, n: &Node) -> P {
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.w, n.k)
                    }
                }
                Op::Var => {
                    let name = CString::new(format!("v{}_{}", n.a, n.k)).unwrap();
                    let sym = Z3_mk_string_symbol(c, name.as_ptr());
                    let s = self.sort(n.w);
                    let v = Z3_mk_const(c, sym, s);
                    if n.w == 1 {
                        self.to_bool(v)
                    } else {
                        v
                    }
                }
                Op::Not => Z3_mk_not(c, self.memo[n.a as usize]),
                Op::Ite => Z3_mk_ite(
                    c,
                    self.memo[n.a as usize],
                    self.memo[n.b as usize],
                    self.memo[n.c as usize],
                ),
                Op::Eq => Z3_mk_eq(c, self.memo[n.a as usize], self.memo[n.b as usize]),
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let a = [self.memo[n.a as usize], self.memo[n.b as usize]];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, a.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, a.as_ptr()),
                        _ => Z3_mk_xor(c, a[0], a[1]),
                    }
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let lo = n.k as c_uint;
                    let e = Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a);
                    if n.w == 1 {
                        self.to_bool(e)
                    } else {
                        e
                    }
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Lut => {
                    let a = self.bv(ar, n.a);
                    let t = ar.tables[n.k as usize].clone();
                    self.lut(a, ar.w(n.a), &t, 0, n.w)
                }
                Op::Clz | Op::Ctz | Op::Popcnt => {
                    let a = self.bv(ar, n.a);
                    let w = n.w;
                    let mut r = self.num(w, if n.op == Op::Popcnt { 0 } else { w as u64 });
                    for i in 0..w {
                        let bit = match n.op {
                            Op::Clz => i,
                            Op::Ctz => w - 1 - i,
                            _ => i,
                        };
                        let b = Z3_mk_extract(c, bit as c_uint, bit as c_uint, a);
                        if n.op == Op::Popcnt {
                            let z = Z3_mk_zero_ext(c, w as c_uint - 1, b);
                            r = Z3_mk_bvadd(c, r, z);
                        } else {
                            let t = self.to_bool(b);
                            let k = if n.op == Op::Clz {
                                w as u64 - 1 - bit as u64
                            } else {
                                bit as u64
                            };
                            let k = self.num(w, k);
                            r = Z3_mk_ite(c, t, k, r);
                        }
                    }
                    r
                }
                Op::F1 | Op::F2 => self.fp(ar, n),
                Op::Ult | Op::Slt => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    if n.op == Op::Ult {
                        Z3_mk_bvult(c, a, b)
                    } else {
                        Z3_mk_bvslt(c, a, b)
                    }
                }
                _ => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    };
                    if n.w == 1 {
                        self.to_bool(r)
                    } else {
                        r
                    }
                }
            }
        }
    }

    fn fp(&mut self, ar: &Arena, n: &Node) -> P {
        let c = self.c;
        unsafe {
            let d = Z3_mk_fpa_sort_double(c);
            let s = Z3_mk_fpa_sort_single(c);
            let rne = Z3_mk_fpa_rne(c);
            let rtz = Z3_mk_fpa_rtz(c);
            let a = self.bv(ar, n.a);
            let k = n.k;
            if n.op == Op::F1 {
                let fd = |p: P| Z3_mk_fpa_to_fp_bv(c, p, d);
                let fs = |p: P| Z3_mk_fpa_to_fp_bv(c, p, s);
                let out = |p: P| Z3_mk_fpa_to_ieee_bv(c, p);
                return match k {
                    0x8c => {
                        let m = self.num(32, 1 << 31);
                        Z3_mk_bvxor(c, a, m)
                    }
                    0x9a => {
                        let m = self.num(64, 1 << 63);
                        Z3_mk_bvxor(c, a, m)
                    }
                    0x8b => {
                        let m = self.num(32, (1 << 31) - 1);
                        Z3_mk_bvand(c, a, m)
                    }
                    0x99 => {
                        let m = self.num(64, (1 << 63) - 1);
                        Z3_mk_bvand(c, a, m)
                    }
                    0x8d => out(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fs(a))),
                    0x8e => out(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fs(a))),
                    0x8f => out(Z3_mk_fpa_round_to_integral(c, rtz, fs(a))),
                    0x90 => out(Z3_mk_fpa_round_to_integral(c, rne, fs(a))),
                    0x91 => out(Z3_mk_fpa_sqrt(c, rne, fs(a))),
                    0x9b => out(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fd(a))),
                    0x9c => out(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fd(a))),
                    0x9d => out(Z3_mk_fpa_round_to_integral(c, rtz, fd(a))),
                    0x9e => out(Z3_mk_fpa_round_to_integral(c, rne, fd(a))),
                    0x9f => out(Z3_mk_fpa_sqrt(c, rne, fd(a))),
                    0xb2 | 0xb4 => out(Z3_mk_fpa_to_fp_signed(c, rne, a, s)),
                    0xb3 | 0xb5 => out(Z3_mk_fpa_to_fp_unsigned(c, rne, a, s)),
                    0xb7 | 0xb9 => out(Z3_mk_fpa_to_fp_signed(c, rne, a, d)),
                    0xb8 | 0xba => out(Z3_mk_fpa_to_fp_unsigned(c, rne, a, d)),
                    0xb6 => out(Z3_mk_fpa_to_fp_float(c, rne, fd(a), s)),
                    0xbb => out(Z3_mk_fpa_to_fp_float(c, rne, fs(a), d)),
                    _ => {
                        // float -> int, saturating form (trapping forms only reach
                        // here after the range check has been put on the path)
                        let single = matches!(k, 0x100 | 0x101 | 0x104 | 0x105 | 0xa8 | 0xa9 | 0xae | 0xaf);
                        let signed = matches!(k, 0x100 | 0x102 | 0x104 | 0x106 | 0xa8 | 0xaa | 0xae | 0xb0);
                        let x = if single { fs(a) } else { fd(a) };
                        let so = if single { s } else { d };
                        let w = n.w;
                        let (lo, hi, lov, hiv) = if signed {
                            let h = 2f64.powi(w as i32 - 1);
                            (-h, h, 1u64 << (w - 1), mask(w) >> 1)
                        } else {
                            (0.0, 2f64.powi(w as i32), 0, mask(w))
                        };
                        let conv = if signed {
                            Z3_mk_fpa_to_sbv(c, rtz, x, w as c_uint)
                        } else {
                            Z3_mk_fpa_to_ubv(c, rtz, x, w as c_uint)
                        };
                        let lof = Z3_mk_fpa_numeral_double(c, lo, so);
                        let hif = Z3_mk_fpa_numeral_double(c, hi, so);
                        let zero = self.num(w, 0);
                        let lov = self.num(w, lov);
                        let hiv = self.num(w, hiv);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, x), hiv, conv);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, lof), lov, r);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), zero, r)
                    }
                };
            }
            let b = self.bv(ar, n.b);
            let single = matches!(k, 0x5b..=0x60 | 0x92..=0x98);
            let so = if single { s } else { d };
            let x = Z3_mk_fpa_to_fp_bv(c, a, so);
            let y = Z3_mk_fpa_to_fp_bv(c, b, so);
            let boolean = |p: P, me: &mut Self| {
                let (o, z) = (me.num(n.w, 1), me.num(n.w, 0));
                Z3_mk_ite(c, p, o, z)
            };
            match k {
                0x5b | 0x61 => boolean(Z3_mk_fpa_eq(c, x, y), self),
                0x5c | 0x62 => boolean(Z3_mk_not(c, Z3_mk_fpa_eq(c, x, y)), self),
                0x5d | 0x63 => boolean(Z3_mk_fpa_lt(c, x, y), self),
                0x5e | 0x64 => boolean(Z3_mk_fpa_lt(c, y, x), self),
                0x5f | 0x65 => boolean(Z3_mk_fpa_leq(c, x, y), self),
                0x60 | 0x66 => boolean(Z3_mk_fpa_leq(c, y, x), self),
                0x92 | 0xa0 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, x, y)),
                0x93 | 0xa1 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, x, y)),
                0x94 | 0xa2 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, x, y)),
                0x95 | 0xa3 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, x, y)),
                0x98 | 0xa6 => {
                    let w = n.w;
                    let m = self.num(w, mask(w) >> 1);
                    let h = self.num(w, 1u64 << (w - 1));
                    Z3_mk_bvor(c, Z3_mk_bvand(c, a, m), Z3_mk_bvand(c, b, h))
                }
                0x96 | 0x97 | 0xa4 | 0xa5 => {
                    // of two zeros the negative one is smaller
                    let least = matches!(k, 0x96 | 0xa4);
                    let zeros = if least { Z3_mk_bvor(c, a, b) } else { Z3_mk_bvand(c, a, b) };
                    let (p, q) = if least { (a, b) } else { (b, a) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, y, x), q, zeros);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, x, y), p, r);
                    let nan = if single { self.num(32, 0x7fc0_0000) } else { self.num(64, 0x7ff8 << 48) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, y), nan, r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), nan, r)
                }
                _ => panic!("unsupported float op {k:#x} on symbolic operands"),
            }
        }
    }

    /// Decide the conjunction of `cs` (plus the declared ranges of their variables).
    pub fn check(&mut self, ar: &Arena, cs: &[E], want_model: bool) -> R {
        self.check_with(ar, cs, &[], want_model)
    }

    /// all of `cs` and, if there are any, one of the pairs in `differ` unequal
    pub fn check_with(&mut self, ar: &Arena, cs: &[E], differ: &[(E, E)], want_model: bool) -> R {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let mut vars: Vec<E> = vec![];
        let mut seen = vec![];
        {
            let mut st: Vec<E> = cs.to_vec();
            st.extend(differ.iter().flat_map(|d| [d.0, d.1]));
            let mut vis: std::collections::HashSet<E> = Default::default();
            while let Some(x) = st.pop() {
                if !vis.insert(x) {
                    continue;
                }
                let n = ar.get(x);
                match n.op {
                    Op::Const => {}
                    Op::Var => vars.push(x),
                    Op::Not
                    | Op::Extract
                    | Op::ZExt
                    | Op::SExt
                    | Op::Clz
                    | Op::Ctz
                    | Op::Popcnt
                    | Op::Lut
                    | Op::F1 => st.push(n.a),
                    Op::Ite => {
                        st.push(n.a);
                        st.push(n.b);
                        st.push(n.c);
                    }
                    _ => {
                        st.push(n.a);
                        st.push(n.b);
                    }
                }
            }
        }
        let mut fp = false;
        for e in cs {
            let p = self.enc(ar, *e);
            fp |= self.has_fp[*e as usize];
            seen.push(p);
        }
        if !differ.is_empty() {
            let mut ds = vec![];
            for (a, b) in differ {
                let (x, y) = (self.enc(ar, *a), self.enc(ar, *b));
                fp |= self.has_fp[*a as usize] || self.has_fp[*b as usize];
                ds.push(unsafe { Z3_mk_not(c, Z3_mk_eq(c, x, y)) });
            }
            seen.push(unsafe { Z3_mk_or(c, ds.len() as c_uint, ds.as_ptr()) });
        }
        let vps: Vec<P> = vars.iter().map(|v| self.enc(ar, *v)).collect();
        unsafe {
            LAST_ERR = 0;
            let logic = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for (v, p) in vars.iter().zip(&vps) {
                let n = ar.get(*v);
                let m = ar.m[*v as usize];
                if n.w > 1 {
                    if m.lo > 0 {
                        let k = self.num(n.w, m.lo);
                        Z3_solver_assert(c, s, Z3_mk_bvule(c, k, *p));
                    }
                    if m.hi < mask(n.w) {
                        let k = self.num(n.w, m.hi);
                        Z3_solver_assert(c, s, Z3_mk_bvule(c, *p, k));
                    }
                }
            }
            for p in seen {
                Z3_solver_assert(c, s, p);
            }
            if let Some((dir, every)) = &self.dump {
                if self.queries % every == 0 {
                    let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy();
                    let f = format!("{dir}/q{}_{}.smt2", std::process::id(), self.dumped);
                    self.dumped += 1;
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n{t}\n(check-sat)\n"));
                }
            }
            let r = Z3_solver_check(c, s);
            let mut out = match r {
                -1 => {
                    self.unsat += 1;
                    R::Unsat
                }
                1 => {
                    self.sat += 1;
                    let mut mv = vec![];
                    if want_model {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        for (v, p) in vars.iter().zip(&vps) {
                            let n = ar.get(*v);
                            let q = if n.w == 1 {
                                let (o, z) = (self.num(1, 1), self.num(1, 0));
                                Z3_mk_ite(c, *p, o, z)
                            } else {
                                *p
                            };
                            let mut o: P = std::ptr::null_mut();
                            let mut val = 0u64;
                            if Z3_model_eval(c, m, q, true, &mut o) {
                                Z3_get_numeral_uint64(c, o, &mut val);
                            }
                            mv.push((n.a, val));
                        }
                        Z3_model_dec_ref(c, m);
                    }
                    R::Sat(mv)
                }
                _ => {
                    self.unknown += 1;
                    R::Unknown
                }
            };
            if LAST_ERR != 0 {
                out = R::Unknown;
            }
            Z3_solver_dec_ref(c, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.max_secs {
                self.max_secs = dt;
            }
            out
        }
    }
}
