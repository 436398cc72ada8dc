//! Nondeterminism.  Under Kani every call is a fresh symbolic value; natively the same calls pop
//! the values of a recorded solver model, so one harness serves for proof and for replay.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()); }
    pub fn load(v: Vec<Vec<u8>>) {
        VALS.with(|c| *c.borrow_mut() = v.into());
    }
    fn pop(n: usize) -> u64 {
        // Values the solver did not fix (its model ends earlier) are free: zero.
        let b = VALS.with(|c| c.borrow_mut().pop_front()).unwrap_or_else(|| vec![0; n]);
        if b.len() != n {
            println!("REPLAY-MISMATCH value width {} where {} was expected", b.len(), n);
            std::process::exit(3);
        }
        b.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64)
    }
    pub fn u8() -> u8 {
        pop(1) as u8
    }
    pub fn u16() -> u16 {
        pop(2) as u16
    }
    pub fn u32() -> u32 {
        pop(4) as u32
    }
    pub fn usize() -> usize {
        pop(8) as usize
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME an assumption does not hold for these values");
            std::process::exit(3);
        }
    }
}
pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}
/// A value in `0..n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
pub fn usize_below(n: usize) -> usize {
    let v = u8() as usize;
    assume(v < n);
    v
}
pub fn char() -> char {
    let v = u32();
    match char::from_u32(v) {
        Some(c) => c,
        None => {
            assume(false);
            unreachable!()
        }
    }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}

/// `for $i in 0..$n` (at most 8, 18), written out: a loop bound need not cover the harness's own loops.
#[macro_export]
macro_rules! times {
    (@ $i:ident $n:ident $b:block $($x:tt)*) => { $( let _ = $x; if $i < $n { $b } $i += 1; )* };
    ($i:ident < $n:expr, 8, $b:block) => {{
        let n = $n;
        let mut $i = 0usize;
        $crate::times!(@ $i n $b 0 1 2 3 4 5 6 7);
        assert!(n <= $i);
    }};
    ($i:ident < $n:expr, 4, $b:block) => {{
        let n = $n;
        let mut $i = 0usize;
        $crate::times!(@ $i n $b 0 1 2 3);
        assert!(n <= $i);
    }};
    ($i:ident < $n:expr, 12, $b:block) => {{
        let n = $n;
        let mut $i = 0usize;
        $crate::times!(@ $i n $b 0 1 2 3 4 5 6 7 8 9 10 11);
        assert!(n <= $i);
    }};
    ($i:ident < $n:expr, 18, $b:block) => {{
        let n = $n;
        let mut $i = 0usize;
        $crate::times!(@ $i n $b 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
        assert!(n <= $i);
    }};
}

/// Vacuity guard: the situation must be reachable (checked with `kani::cover`; the driver
/// refuses a harness with an unreachable one).
#[macro_export]
macro_rules! reach {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $l);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Declares harnesses: a Kani proof each, and an entry in the module's native replay table.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* [$u:literal] fn $n:ident() $b:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $n() $b
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((concat!(module_path!(), "::", stringify!($n)), $n as fn())),*];
    };
}
