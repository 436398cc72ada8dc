//! Histories over the inline-then-heap stack.
use crate::{nd, reach, times};
use parcom_internals::ShortVec;

static mut DROPS: [u8; 8] = [0; 8];

/// An element.
pub trait Elem: Sized {
    type Env;
    fn env() -> Self::Env;
    fn make(e: &Self::Env, id: usize, v: u8) -> Self;
    /// asserts that this is the element made with `id` and `v`
    fn is(&self, id: usize, v: u8);
    fn set(&mut self, v: u8);
    /// asserts that exactly the elements `0..made` without `live[..len]` were dropped, each once
    fn gone(e: &Self::Env, made: usize, live: &[usize; 8], len: usize);
}
impl Elem for u8 {
    type Env = ();
    fn env() {}
    fn make(_: &(), _: usize, v: u8) -> Self {
        v
    }
    fn is(&self, _: usize, v: u8) {
        assert!(*self == v, "an element changed");
    }
    fn set(&mut self, v: u8) {
        *self = v;
    }
    fn gone(_: &(), _: usize, _: &[usize; 8], _: usize) {}
}
/// One byte as well: which element it is, and a value of 5 bits.
pub struct D(u8);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { DROPS[(self.0 >> 5) as usize] += 1 };
    }
}
impl Elem for D {
    type Env = ();
    fn env() {
        unsafe { DROPS = [0; 8] };
    }
    fn make(_: &(), id: usize, v: u8) -> Self {
        D((id as u8) << 5 | v & 31)
    }
    fn is(&self, id: usize, v: u8) {
        assert!(self.0 == (id as u8) << 5 | v & 31, "an element changed");
    }
    fn set(&mut self, v: u8) {
        self.0 = self.0 & 0xE0 | v & 31;
    }
    fn gone(_: &(), made: usize, live: &[usize; 8], len: usize) {
        // any one of them
        let i = nd::usize_below(8);
        let mut here = false;
        times!(k < len, 8, { here = here || live[k] == i });
        assert!(unsafe { DROPS[i] } == if here || i >= made { 0 } else { 1 }, "an element was dropped too early, twice or never");
    }
}
/// A zero-sized element that counts its drops.
pub struct Z;
static mut ZN: u8 = 0;
fn zs(add: u8) -> u8 {
    unsafe {
        ZN += add;
        ZN
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        zs(1);
    }
}
impl Elem for Z {
    type Env = u8;
    fn env() -> u8 {
        zs(0)
    }
    fn make(_: &u8, _: usize, _: u8) -> Self {
        Z
    }
    fn is(&self, _: usize, _: u8) {}
    fn set(&mut self, _: u8) {}
    fn gone(e: &u8, made: usize, _: &[usize; 8], len: usize) {
        assert!((zs(0) - e) as usize == made - len, "an element was dropped too early, twice or never");
    }
}

/// One history; `caps`: the greatest capacity asked for.
pub fn history<T: Elem, const N: usize>(steps: usize, caps: usize) {
    let env = T::env();
    let c = nd::usize_below(caps + 2);
    let mut v = if c > caps { ShortVec::<T, N>::default() } else { ShortVec::<T, N>::with_capacity(c) };
    let mut live = [0usize; 8];
    let mut vals = [0u8; 8];
    let (mut len, mut made) = (0usize, 0usize);
    let (mut spilled, mut grown, mut popped) = (false, false, false);
    times!(s < steps, 8, {
        let _ = s;
        match nd::below(5) {
            0 => {
                let x = nd::u8();
                v.push(T::make(&env, made, x));
                live[len] = made;
                vals[len] = x;
                len += 1;
                made += 1;
                spilled = spilled || len > N && c <= N;
                grown = grown || c > N && len > c && c <= caps;
            }
            1 => match v.pop() {
                None => assert!(len == 0, "popping lost an element"),
                Some(x) => {
                    assert!(len > 0, "popped from an empty stack");
                    len -= 1;
                    x.is(live[len], vals[len]);
                    popped = true;
                }
            },
            2 => v.reserve(nd::usize_below(caps + 1)),
            3 => v.reserve_exact(nd::usize_below(caps + 1)),
            _ => {
                if len > 0 {
                    let i = nd::usize_below(8);
                    nd::assume(i < len);
                    let x = nd::u8();
                    v.as_slice_mut()[i].set(x);
                    vals[i] = x;
                }
            }
        }
        let sl = v.as_slice();
        assert!(sl.len() == len && v.is_empty() == (len == 0), "the length is wrong");
        if len > 0 {
            // any one of them
            let k = nd::usize_below(8);
            nd::assume(k < len);
            sl[k].is(live[k], vals[k]);
        }
        T::gone(&env, made, &live, len);
    });
    reach!(spilled, "pushed beyond the inline room");
    reach!(popped && len > 0, "popped some");
    let _ = grown;
    drop(v);
    T::gone(&env, made, &live, 0);
    #[cfg(kani)]
    assert!(arena::live() == 0, "memory was not given back");
}

/// Elements with a size and an alignment, through every growth, on the allocator itself.
pub fn wide<const N: usize>(cap: usize) {
    let mut v = ShortVec::<(u8, u32), N>::with_capacity(cap);
    let x: [u32; 6] = [nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32()];
    times!(i < 6, 8, {
        v.push((i as u8, x[i]));
        let s = v.as_slice();
        assert!(s.len() == i + 1 && s[i].0 == i as u8 && s[i].1 == x[i] && s[0].0 == 0 && s[0].1 == x[0], "an element changed");
    });
    v.as_slice_mut()[3].1 = x[0];
    times!(j < 4, 8, {
        let i = 5 - j;
        let want = if i == 3 { x[0] } else { x[i] };
        let got = v.pop().unwrap();
        assert!(got.0 == i as u8 && got.1 == want, "popped something else than the last element");
    });
    v.reserve(9);
    v.push((7, x[4]));
    let s = v.as_slice();
    assert!(s.len() == 3 && s[0].1 == x[0] && s[1].1 == x[1] && s[2].0 == 7 && s[2].1 == x[4], "an element changed");
}
pub fn boxes<const N: usize>() {
    let mut v = ShortVec::<Box<u8>, N>::new();
    let x = nd::bytes::<4>();
    times!(i < 4, 8, { v.push(Box::new(x[i])) });
    assert!(*v.pop().unwrap() == x[3], "popped something else than the last element");
    times!(i < 3, 8, { assert!(*v.as_slice()[i] == x[i], "an element changed") });
    assert!(*v.pop().unwrap() == x[2], "popped something else than the last element");
}
/// Constant-size stand-ins for the allocator (a symbolic size makes an object the solver cannot
/// take apart).  Every allocation is a block of a header (size) and 12 bytes of payload; the bytes
/// behind the allocated ones must stay as they were.
#[cfg(kani)]
pub mod arena {
    use std::alloc::Layout;
    pub const ROOM: usize = 12;
    struct Block {
        data: [u8; ROOM],
        size: u8,
    }
    const SEAL: u8 = 0xA5;
    static mut LIVE: usize = 0;
    extern "C" {
        fn malloc(n: usize) -> *mut u8;
        fn free(p: *mut u8);
    }
    pub fn live() -> usize {
        unsafe { LIVE }
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        assert!(l.size() > 0, "allocation of size zero");
        assert!(l.align() == 1, "the elements are bytes");
        assert!(l.size() <= ROOM, "the harness allows for less");
        let b = malloc(13) as *mut Block;
        b.write(Block { data: [SEAL; ROOM], size: l.size() as u8 });
        LIVE += 1;
        b as *mut u8
    }
    unsafe fn block(p: *mut u8, l: Layout) -> *mut Block {
        let b = p as *mut Block;
        assert!((*b).size as usize == l.size() && l.align() == 1, "deallocation with another layout");
        let d = &(*b).data;
        let mut whole = true;
        times!(i < ROOM, 18, { whole = whole && (i < l.size() || d[i] == SEAL) });
        assert!(whole, "wrote beyond an allocation");
        LIVE -= 1;
        b
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        free(block(p, l) as *mut u8);
    }
    pub unsafe fn realloc(p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let b = block(p, l);
        let n = alloc(Layout::from_size_align_unchecked(size, 1)) as *mut Block;
        times!(i < ROOM, 18, {
            if i < size && i < l.size() {
                (*n).data[i] = (*b).data[i];
            }
        });
        free(b as *mut u8);
        n as *mut u8
    }
}
/// Element by element instead of a copy of symbolic size.
pub unsafe fn copy<T>(src: *const T, dst: *mut T, n: usize) {
    times!(i < n, 8, { dst.add(i).write(src.add(i).read()) });
}
