//! Interface between harnesses and the executor.  In the symbolic (wasm64)
//! build these are imports answered by the engine; natively they read the
//! recorded input vector, so one harness source serves both.

#[cfg(target_arch = "wasm64")]
mod imp {
    #[link(wasm_import_module = "sx")]
    extern "C" {
        fn sx_var(w: u32, lo: u64, hi: u64) -> u64;
        fn sx_choice(n: u32) -> u32;
        fn sx_assume(c: u32);
        fn sx_assert(c: u32, id: *const u8, n: usize);
        fn sx_assert_eq(a: *const u8, an: usize, b: *const u8, bn: usize, id: *const u8, n: usize);
        fn sx_reach(id: *const u8, n: usize);
        fn sx_obs(p: *const u8, n: usize);
        fn sx_allow_panic(c: u32);
        fn sx_site(p: *const u8, n: usize);
        fn sx_deep() -> u32;
    }
    pub fn var(w: u32, lo: u64, hi: u64) -> u64 {
        unsafe { sx_var(w, lo, hi) }
    }
    pub fn choice(n: usize) -> usize {
        unsafe { sx_choice(n as u32) as usize }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c as u32) }
    }
    pub fn check(c: bool, id: &str) {
        unsafe { sx_assert(c as u32, id.as_ptr(), id.len()) }
    }
    pub fn check_eq(a: &[u8], b: &[u8], id: &str) {
        unsafe { sx_assert_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), id.as_ptr(), id.len()) }
    }
    pub fn reach(id: &str) {
        unsafe { sx_reach(id.as_ptr(), id.len()) }
    }
    pub fn obs(b: &[u8]) {
        unsafe { sx_obs(b.as_ptr(), b.len()) }
    }
    pub fn allow_panic(c: bool) {
        unsafe { sx_allow_panic(c as u32) }
    }
    /// labels what is being exercised; a panic or hang is reported under it
    pub fn site(s: &str) {
        unsafe { sx_site(s.as_ptr(), s.len()) }
    }
    /// true in the thorough tier
    pub fn deep() -> bool {
        unsafe { sx_deep() != 0 }
    }

    // Bump allocator: deterministic, never reuses memory except for the most
    // recent block (keeps vector growth cheap).
    struct Bump;
    static mut NEXT: usize = 0;
    static mut END: usize = 0;
    unsafe impl std::alloc::GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            let a = (NEXT + l.align() - 1) & !(l.align() - 1);
            let Some(e) = a.checked_add(l.size()) else {
                return std::ptr::null_mut();
            };
            if NEXT == 0 || e > END {
                let pages = l.size() / 65536 + 17;
                let p = core::arch::wasm64::memory_grow::<0>(pages);
                if p == usize::MAX {
                    return std::ptr::null_mut();
                }
                let s = p * 65536;
                if s != END {
                    NEXT = s;
                }
                END = s + pages * 65536;
                return self.alloc(l);
            }
            NEXT = e;
            a as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            if p as usize + l.size() == NEXT {
                NEXT = p as usize;
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            if p as usize + l.size() == NEXT && p as usize + n <= END {
                NEXT = p as usize + n;
                return p;
            }
            if n <= l.size() {
                return p;
            }
            let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size());
            }
            q
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
}

#[cfg(not(target_arch = "wasm64"))]
mod imp {
    use std::cell::RefCell;
    pub struct Ctx {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub failed: Vec<(String, String)>,
        pub reached: Vec<String>,
        pub obs: u64,
        pub nobs: usize,
        pub assumed_away: bool,
        pub allow_panic: bool,
        pub underrun: bool,
        pub site: String,
    }
    thread_local! {
        pub static CTX: RefCell<Ctx> = RefCell::new(new(vec![]));
    }
    pub fn new(inputs: Vec<u64>) -> Ctx {
        Ctx {
            inputs,
            pos: 0,
            failed: vec![],
            reached: vec![],
            obs: 0xcbf29ce484222325,
            nobs: 0,
            assumed_away: false,
            allow_panic: false,
            underrun: false,
            site: String::new(),
        }
    }
    fn next(lo: u64) -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let v = c.inputs.get(c.pos).copied();
            c.pos += 1;
            if v.is_none() {
                c.underrun = true;
            }
            v.unwrap_or(lo)
        })
    }
    pub struct Assumed;
    pub fn var(_w: u32, lo: u64, _hi: u64) -> u64 {
        next(lo)
    }
    pub fn choice(_n: usize) -> usize {
        next(0) as usize
    }
    pub fn assume(c: bool) {
        if !c {
            CTX.with(|x| x.borrow_mut().assumed_away = true);
            std::panic::panic_any("sx-assumption-not-met".to_string());
        }
    }
    pub fn check(c: bool, id: &str) {
        if !c {
            CTX.with(|x| x.borrow_mut().failed.push((id.to_string(), String::new())));
        }
    }
    pub fn check_eq(a: &[u8], b: &[u8], id: &str) {
        if a != b {
            let d = format!(
                "{:?} <> {:?}",
                String::from_utf8_lossy(&a[..a.len().min(2000)]),
                String::from_utf8_lossy(&b[..b.len().min(2000)])
            );
            CTX.with(|x| x.borrow_mut().failed.push((id.to_string(), d)));
        }
    }
    pub fn reach(id: &str) {
        CTX.with(|x| x.borrow_mut().reached.push(id.to_string()));
    }
    pub fn obs(b: &[u8]) {
        CTX.with(|x| {
            let mut x = x.borrow_mut();
            for v in b {
                x.obs = (x.obs ^ *v as u64).wrapping_mul(0x100000001b3);
            }
            x.nobs += b.len();
        });
    }
    pub fn allow_panic(c: bool) {
        CTX.with(|x| x.borrow_mut().allow_panic = c);
    }
    pub fn site(s: &str) {
        CTX.with(|x| x.borrow_mut().site = s.to_string());
    }
    pub fn deep() -> bool {
        std::env::var("SX_DEEP").is_ok_and(|v| v == "1")
    }
}

pub use imp::*;

static STILL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// While set, values are fixed ones, different from each other, instead of
/// symbolic. Choices stay symbolic.
pub fn still(on: bool) {
    STILL.store(on as u64, std::sync::atomic::Ordering::Relaxed);
}
pub fn var(w: u32, lo: u64, hi: u64) -> u64 {
    match STILL.load(std::sync::atomic::Ordering::Relaxed) {
        0 => imp::var(w, lo, hi),
        n => {
            STILL.store(n + 1, std::sync::atomic::Ordering::Relaxed);
            lo + n % (hi - lo + 1)
        }
    }
}

pub fn byte(lo: u8, hi: u8) -> u8 {
    var(8, lo as u64, hi as u64) as u8
}
pub fn u16v(lo: u16, hi: u16) -> u16 {
    var(16, lo as u64, hi as u64) as u16
}
pub fn u32v(lo: u32, hi: u32) -> u32 {
    var(32, lo as u64, hi as u64) as u32
}
pub fn u64v(lo: u64, hi: u64) -> u64 {
    var(64, lo, hi)
}
pub fn usizev(lo: usize, hi: usize) -> usize {
    var(64, lo as u64, hi as u64) as usize
}
/// symbolic boolean (no fork)
pub fn boolv() -> bool {
    byte(0, 1) == 1
}
/// signed value in lo..=hi with lo <= 0 <= hi: forks on the sign
pub fn i32v(lo: i32, hi: i32) -> i32 {
    if lo < 0 && choice(2) == 1 {
        -(u32v(1, lo.unsigned_abs().min(i32::MAX as u32)) as i32)
    } else {
        u32v(lo.max(0) as u32, hi as u32) as i32
    }
}

/// one UTF-8 encoded XML character of the given class
/// 0: printable ASCII, 1: two bytes, 2: three bytes, 3: four bytes
pub fn push_char(b: &mut Vec<u8>, class: usize) {
    match class {
        0 => b.push(byte(0x20, 0x7e)),
        1 => {
            b.push(byte(0xc2, 0xdf));
            b.push(byte(0x80, 0xbf));
        }
        2 => {
            b.push(byte(0xe1, 0xec));
            b.push(byte(0x80, 0xbf));
            b.push(byte(0x80, 0xbf));
        }
        _ => {
            b.push(byte(0xf1, 0xf3));
            b.push(byte(0x80, 0xbf));
            b.push(byte(0x80, 0xbf));
            b.push(byte(0x80, 0xbf));
        }
    }
}

/// string of exactly n printable ASCII characters
pub fn ascii(n: usize) -> String {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        push_char(&mut b, 0);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// string of n characters, each of any of the first `classes` encodings
pub fn text(n: usize, classes: usize) -> String {
    let mut b = Vec::with_capacity(4 * n);
    for _ in 0..n {
        let c = if classes > 1 { choice(classes) } else { 0 };
        push_char(&mut b, c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// string of n characters taken from a contiguous ASCII interval
pub fn alpha(n: usize, lo: u8, hi: u8) -> String {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(byte(lo, hi));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
