//! Differential test of the rewriting layer: random expressions are built
//! through the simplifying constructors and compared, under random models
//! (and random true facts), with directly computed values; part of them is
//! additionally compared with what Z3 says about the encoding.
use crate::expr::*;
use crate::z3::{Z3, R};

pub fn run(iters: u64, seed: u64) -> Result<String, String> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut checked = 0u64;
    let mut z3q = 0u64;
    for it in 0..iters {
        let mut ar = Arena::new();
        let mut model = vec![];
        // pool of (expr, value)
        let mut pool: Vec<(E, u64)> = vec![];
        for i in 0..4u32 {
            let w = [8u8, 8, 32, 64][(rnd() % 4) as usize];
            let (mut lo, mut hi) = (rnd() & mask(w), rnd() & mask(w));
            if rnd() % 2 == 0 {
                lo = rnd() % 100;
                hi = lo + rnd() % 150;
            }
            if lo > hi {
                std::mem::swap(&mut lo, &mut hi);
            }
            let hi = hi.min(mask(w));
            let span = hi - lo;
            let v = if span == u64::MAX { rnd() } else { lo + rnd() % (span + 1) };
            let e = ar.var(i, w, lo, hi);
            model.push(v);
            pool.push((e, v));
        }
        for step in 0..40 {
            let pick = |r: u64, p: &Vec<(E, u64)>| p[(r % p.len() as u64) as usize];
            let w = [1u8, 8, 16, 32, 32, 64, 64][(rnd() % 7) as usize];
            let fit = |ar: &mut Arena, (e, v): (E, u64), w: u8, sg: bool| -> (E, u64) {
                let we = ar.w(e);
                if we == w {
                    (e, v)
                } else if we > w {
                    (ar.extract(e, 0, w), v & mask(w))
                } else if sg {
                    (ar.sext(e, w), sx(v, we) as u64 & mask(w))
                } else {
                    (ar.zext(e, w), v)
                }
            };
            let consts = [0u64, 1, 2, 3, 7, 8, 9, 10, 16, 31, 48, 58, 100, 255, 256, 1000, 10000, 0x80, 0x8000_0000, u64::MAX, u64::MAX - 1, 0xff00, 20];
            let a = fit(&mut ar, pick(rnd(), &pool), w, rnd() % 4 == 0);
            let b = if rnd() % 2 == 0 {
                let k = consts[(rnd() % consts.len() as u64) as usize] & mask(w);
                (ar.con(w, k), k)
            } else {
                fit(&mut ar, pick(rnd(), &pool), w, rnd() % 4 == 0)
            };
            let (a, b) = if rnd() % 4 == 0 { (b, a) } else { (a, b) };
            let m = mask(w);
            let r: (E, u64) = match rnd() % 26 {
                0 | 1 => (ar.add(a.0, b.0), a.1.wrapping_add(b.1) & m),
                2 => (ar.sub(a.0, b.0), a.1.wrapping_sub(b.1) & m),
                3 | 4 => (ar.mul(a.0, b.0), a.1.wrapping_mul(b.1) & m),
                5 | 6 if b.1 != 0 => (ar.udiv(a.0, b.0), a.1 / b.1),
                7 | 8 if b.1 != 0 => (ar.urem(a.0, b.0), a.1 % b.1),
                9 => (ar.and(a.0, b.0), a.1 & b.1),
                10 => (ar.or(a.0, b.0), a.1 | b.1),
                11 => (ar.xor(a.0, b.0), a.1 ^ b.1),
                12 if w > 1 => {
                    let k = b.1 % w as u64;
                    let kc = ar.con(w, k);
                    (ar.shl(a.0, kc), (a.1 << k) & m)
                }
                13 if w > 1 => {
                    let k = b.1 % w as u64;
                    let kc = ar.con(w, k);
                    (ar.lshr(a.0, kc), a.1 >> k)
                }
                14 if w > 1 => {
                    let k = b.1 % w as u64;
                    let kc = ar.con(w, k);
                    (ar.ashr(a.0, kc), (sx(a.1, w) >> k) as u64 & m)
                }
                15 => (ar.eq(a.0, b.0), (a.1 == b.1) as u64),
                16 | 17 => (ar.ult(a.0, b.0), (a.1 < b.1) as u64),
                18 if w > 1 => (ar.slt(a.0, b.0), (sx(a.1, w) < sx(b.1, w)) as u64),
                19 | 20 => {
                    let c = fit(&mut ar, pick(rnd(), &pool), 1, false);
                    (ar.ite(c.0, a.0, b.0), if c.1 == 1 { a.1 } else { b.1 })
                }
                21 if w <= 32 => (ar.concat(a.0, b.0), (a.1 << w) | b.1),
                22 if w > 8 => {
                    let nb = 8 * (1 + rnd() % 2) as u8;
                    let lo = (rnd() % (w - nb + 1) as u64) as u8;
                    (ar.extract(a.0, lo, nb), (a.1 >> lo) & mask(nb))
                }
                23 if w > 1 => {
                    let (l, h) = ar.range(a.0);
                    if h < 300 {
                        let _ = l;
                        let kind = rnd() % 4;
                        let t: Vec<u64> = (0..=h)
                            .map(|i| match kind {
                                0 => 48 + i / 10,
                                1 => 48 + i % 10,
                                2 => 5 + i,
                                _ => rnd() & 0xff,
                            } & 0xff)
                            .collect();
                        let v = t[a.1 as usize];
                        (ar.lut(a.0, t, 8), v)
                    } else {
                        continue;
                    }
                }
                24 if w == 1 => (ar.not(a.0), a.1 ^ 1),
                // decimal digit shapes
                25 if w >= 32 => {
                    let ten = ar.con(w, 10);
                    let hun = ar.con(w, 100);
                    let q = ar.udiv(a.0, hun);
                    let r0 = ar.urem(a.0, hun);
                    let d1 = ar.udiv(r0, ten);
                    let d0 = ar.urem(a.0, ten);
                    let x = ar.mul(q, ten);
                    let x = ar.add(x, d1);
                    let x = ar.mul(x, ten);
                    (ar.add(x, d0), a.1)
                }
                _ => continue,
            };
            let ev = ar.eval(r.0, &model);
            if ev != r.1 {
                return Err(format!(
                    "iteration {it} step {step}: {} evaluates to {ev:#x}, expected {:#x} under {model:x?}",
                    ar.show(r.0, 6),
                    r.1
                ));
            }
            let (l, h) = ar.range(r.0);
            if r.1 < l || r.1 > h || r.1 & ar.m[r.0 as usize].kz != 0 {
                return Err(format!(
                    "iteration {it}: range of {} is [{l:#x},{h:#x}] but value {:#x}",
                    ar.show(r.0, 6),
                    r.1
                ));
            }
            checked += 1;
            // occasionally record a true fact, as the executor does
            if rnd() % 8 == 0 && ar.as_const(r.0).is_none() {
                let wr = ar.w(r.0);
                let d = rnd() % 20;
                let lo = r.1.saturating_sub(d);
                let hi = r.1.saturating_add(rnd() % 20).min(mask(wr));
                ar.facts.insert(r.0, (lo, hi));
                ar.facts_epoch += 1;
            }
            pool.push(r);
        }
        if it % 50 == 0 {
            // the encoding must admit the model: var == value && root == value is SAT,
            // var == value && root != value is UNSAT
            let mut z = Z3::new(5_000_000);
            let mut cs = vec![];
            ar.facts.clear();
            ar.facts_epoch += 1;
            for i in 0..4 {
                let (e, v) = pool[i];
                let w = ar.w(e);
                let k = ar.con(w, v);
                cs.push(ar.eq(e, k));
            }
            let (e, v) = *pool.last().unwrap();
            let k = ar.con(ar.w(e), v);
            let q = ar.eq(e, k);
            let nq = ar.not(q);
            cs.push(nq);
            if matches!(z.check(&ar, &cs, false), R::Sat(_)) {
                return Err(format!("z3 disagrees on {}", ar.show(e, 6)));
            }
            *cs.last_mut().unwrap() = q;
            if matches!(z.check(&ar, &cs, false), R::Unsat) {
                return Err(format!("z3 disagrees on {}", ar.show(e, 6)));
            }
            z3q += 2;
        }
    }
    Ok(format!("{checked} expressions agree, {z3q} solver cross-checks"))
}
