#![allow(warnings)]
#![cfg_attr(target_arch = "wasm64", feature(simd_wasm64))]
mod harnesses;
mod sx;
