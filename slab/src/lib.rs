//! Stand-in for the third-party slab: a fixed number of slots instead of a growing allocation.
#![allow(clippy::all)]
use std::mem::MaybeUninit;

/// The number of slots: 4, or what the build asks for.
const CAP: usize = match option_env!("VH_SLAB") {
    Some(s) => (s.as_bytes()[0] - b'0') as usize,
    None => 4,
};

macro_rules! each {
    ($i:ident, $b:block) => { each!(@ $i $b 0 1 2 3) };
    (@ $i:ident $b:block $($x:tt)*) => { $( if $x < CAP { let $i: usize = $x; $b } )* };
}

/// (What is dropped with it is leaked.)
pub struct Slab<T> {
    full: [bool; CAP],
    slots: [MaybeUninit<T>; CAP],
}
impl<T> std::fmt::Debug for Slab<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Slab")
    }
}
impl<T> Default for Slab<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Slab<T> {
    pub const fn new() -> Self {
        Slab { full: [false; CAP], slots: [const { MaybeUninit::uninit() }; CAP] }
    }
    fn take(&mut self, k: usize) -> Option<T> {
        if k < CAP && self.full[k] {
            self.full[k] = false;
            Some(unsafe { self.slots[k].assume_init_read() })
        } else {
            None
        }
    }
    fn put(&mut self, k: usize, v: T) {
        self.full[k] = true;
        self.slots[k].write(v);
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn capacity(&self) -> usize {
        CAP
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn reserve_exact(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn len(&self) -> usize {
        let mut n = 0;
        each!(i, { n += self.full[i] as usize });
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        self.full = [false; CAP];
    }
    pub fn vacant_key(&self) -> usize {
        let mut k = CAP;
        each!(i, {
            if k == CAP && !self.full[i] {
                k = i;
            }
        });
        assert!(k < CAP, "the slab's stand-in is full");
        k
    }
    pub fn insert(&mut self, v: T) -> usize {
        let k = self.vacant_key();
        self.put(k, v);
        k
    }
    pub fn vacant_entry(&mut self) -> VacantEntry<'_, T> {
        let key = self.vacant_key();
        VacantEntry { slab: self, key }
    }
    pub fn try_remove(&mut self, key: usize) -> Option<T> {
        self.take(key)
    }
    pub fn remove(&mut self, key: usize) -> T {
        self.try_remove(key).expect("invalid key")
    }
    pub fn contains(&self, key: usize) -> bool {
        key < CAP && self.full[key]
    }
    pub fn get(&self, key: usize) -> Option<&T> {
        if self.contains(key) {
            Some(unsafe { self.slots[key].assume_init_ref() })
        } else {
            None
        }
    }
    pub fn get_mut(&mut self, key: usize) -> Option<&mut T> {
        if self.contains(key) {
            Some(unsafe { self.slots[key].assume_init_mut() })
        } else {
            None
        }
    }
    pub fn retain<F: FnMut(usize, &mut T) -> bool>(&mut self, mut f: F) {
        each!(i, {
            if self.full[i] && !f(i, unsafe { self.slots[i].assume_init_mut() }) {
                self.full[i] = false;
            }
        });
    }
    pub fn drain(&mut self) -> Drain<'_, T> {
        Drain(self, 0, 0)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self, 0, 0)
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (usize, &mut T)> {
        let full = self.full;
        self.slots.iter_mut().enumerate().filter(move |(i, _)| full[*i]).map(|(i, v)| (i, unsafe { v.assume_init_mut() }))
    }
}
pub struct VacantEntry<'a, T> {
    slab: &'a mut Slab<T>,
    key: usize,
}
impl<'a, T> VacantEntry<'a, T> {
    pub fn key(&self) -> usize {
        self.key
    }
    pub fn insert(self, v: T) -> &'a mut T {
        self.slab.put(self.key, v);
        self.slab.get_mut(self.key).unwrap()
    }
}
fn first<T>(s: &Slab<T>, from: usize) -> usize {
    let mut k = CAP;
    each!(i, {
        if k == CAP && i >= from && s.full[i] {
            k = i;
        }
    });
    k
}
pub struct Drain<'a, T>(&'a mut Slab<T>, usize, usize);
impl<'a, T> Iterator for Drain<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        // (there are at most so many: an end that needs no look at them)
        self.2 += 1;
        if self.2 > CAP {
            return None;
        }
        let k = first(self.0, self.1);
        if k == CAP {
            return None;
        }
        self.1 = k + 1;
        self.0.take(k)
    }
}
impl<'a, T> Drop for Drain<'a, T> {
    fn drop(&mut self) {
        self.0.clear();
    }
}
pub struct Iter<'a, T>(&'a Slab<T>, usize, usize);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = (usize, &'a T);
    fn next(&mut self) -> Option<(usize, &'a T)> {
        // (there are at most so many: an end that needs no look at them)
        self.2 += 1;
        if self.2 > CAP {
            return None;
        }
        let k = first(self.0, self.1);
        if k == CAP {
            return None;
        }
        self.1 = k + 1;
        self.0.get(k).map(|v| (k, v))
    }
}
impl<'a, T> IntoIterator for &'a Slab<T> {
    type Item = (usize, &'a T);
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct IntoIter<T>(Slab<T>, usize, usize);
impl<T> Iterator for IntoIter<T> {
    type Item = (usize, T);
    fn next(&mut self) -> Option<(usize, T)> {
        self.2 += 1;
        if self.2 > CAP {
            return None;
        }
        let k = first(&self.0, self.1);
        if k == CAP {
            return None;
        }
        self.1 = k + 1;
        self.0.take(k).map(|v| (k, v))
    }
}
impl<T> IntoIterator for Slab<T> {
    type Item = (usize, T);
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self, 0, 0)
    }
}
impl<T> std::ops::Index<usize> for Slab<T> {
    type Output = T;
    fn index(&self, k: usize) -> &T {
        self.get(k).expect("invalid key")
    }
}
impl<T> std::ops::IndexMut<usize> for Slab<T> {
    fn index_mut(&mut self, k: usize) -> &mut T {
        self.get_mut(k).expect("invalid key")
    }
}
