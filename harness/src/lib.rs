//! Verification harnesses for parcom: Kani proofs, replayable natively.
#![allow(clippy::all)]
#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
pub mod nd;
pub mod exec;
pub mod tape;
pub mod comb;
pub mod iter;
pub mod sub;
pub mod bin_expr;
pub mod text;
pub mod prim;
pub mod mem;
pub mod loc;
pub mod stack;
pub mod load;
pub mod writer;
pub mod utf8;
pub mod live;
pub mod wake;

macro_rules! properties {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
properties!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24);
