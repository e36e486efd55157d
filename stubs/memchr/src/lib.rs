//! Byte-loop model of the `memchr` crate used by the symbolic build.  Same
//! results as the original, without the word-at-a-time tricks that would make
//! every search depend on several bytes at once.
#![no_std]

#[inline(never)]
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[inline(never)]
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[inline(never)]
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[inline(never)]
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a {
            return Some(i);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Iter<'h, const N: usize> {
    n: [u8; N],
    h: &'h [u8],
    p: usize,
}
impl<'h, const N: usize> Iterator for Iter<'h, N> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.p < self.h.len() {
            let i = self.p;
            self.p += 1;
            let mut k = 0;
            while k < N {
                if self.h[i] == self.n[k] {
                    return Some(i);
                }
                k += 1;
            }
        }
        None
    }
}
pub type Memchr<'h> = Iter<'h, 1>;
pub type Memchr2<'h> = Iter<'h, 2>;
pub type Memchr3<'h> = Iter<'h, 3>;
pub fn memchr_iter(a: u8, h: &[u8]) -> Iter<'_, 1> {
    Iter { n: [a], h, p: 0 }
}
pub fn memchr2_iter(a: u8, b: u8, h: &[u8]) -> Iter<'_, 2> {
    Iter { n: [a, b], h, p: 0 }
}
pub fn memchr3_iter(a: u8, b: u8, c: u8, h: &[u8]) -> Iter<'_, 3> {
    Iter { n: [a, b, c], h, p: 0 }
}
