//! Assumed contract of indexmap: an association list in insertion order with
//! the documented swap/shift removal.  Hashing is not modelled (`Eq` decides).
use std::borrow::Borrow;
use std::hash::Hash;
use std::ops::{Index, IndexMut};

pub trait Equivalent<K: ?Sized> {
    fn equivalent(&self, key: &K) -> bool;
}
impl<Q: ?Sized, K: ?Sized> Equivalent<K> for Q
where
    Q: Eq,
    K: Borrow<Q>,
{
    fn equivalent(&self, key: &K) -> bool {
        PartialEq::eq(self, key.borrow())
    }
}
/// Only a type parameter here.
#[derive(Clone, Debug, Default)]
pub struct NoHash;

/// Entries per map.
pub const CAP: usize = 4;
/// Room for a value.  (No union and no shared tag: those cost the verifier its constants.)
#[cfg(kani)]
struct Slot<T>(core::mem::ManuallyDrop<T>);
#[cfg(kani)]
impl<T> Slot<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
    fn put(&mut self, t: T) {
        self.0 = core::mem::ManuallyDrop::new(t);
    }
    fn take(&mut self) -> T {
        unsafe { core::mem::ManuallyDrop::take(&mut self.0) }
    }
}
#[cfg(kani)]
fn slots<T>() -> [Slot<T>; CAP] {
    unsafe { core::mem::MaybeUninit::uninit().assume_init() }
}
#[cfg(not(kani))]
struct Slot<T>(Option<T>);
#[cfg(not(kani))]
impl<T> Slot<T> {
    fn get(&self) -> &T {
        self.0.as_ref().unwrap()
    }
    fn get_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
    fn put(&mut self, t: T) {
        self.0 = Some(t);
    }
    fn take(&mut self) -> T {
        self.0.take().unwrap()
    }
}
#[cfg(not(kani))]
fn slots<T>() -> [Slot<T>; CAP] {
    [const { Slot(None) }; CAP]
}
/// The entries, kept inline so that the verifier tracks them field by field.
struct Entries<T> {
    a: [Slot<T>; CAP],
    n: usize,
}
impl<T> Entries<T> {
    fn new() -> Self {
        Entries { a: slots(), n: 0 }
    }
    fn len(&self) -> usize {
        self.n
    }
    fn at(&self, i: usize) -> &T {
        assert!(i < self.n, "index out of bounds");
        self.a[i].get()
    }
    fn at_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.n, "index out of bounds");
        self.a[i].get_mut()
    }
    fn push(&mut self, t: T) {
        assert!(self.n < CAP, "model capacity exceeded");
        self.a[self.n].put(t);
        self.n += 1;
    }
    fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        Some(self.a[self.n].take())
    }
    fn swap(&mut self, i: usize, j: usize) {
        assert!(i < self.n && j < self.n, "index out of bounds");
        if i != j {
            let x = self.a[i].take();
            let y = self.a[j].take();
            self.a[i].put(y);
            self.a[j].put(x);
        }
    }
    fn remove(&mut self, i: usize) -> T {
        assert!(i < self.n, "index out of bounds");
        let x = self.a[i].take();
        let mut k = i;
        while k + 1 < self.n {
            let y = self.a[k + 1].take();
            self.a[k].put(y);
            k += 1;
        }
        self.n -= 1;
        x
    }
    fn iter(&self) -> impl Iterator<Item = &T> {
        self.a[..self.n].iter().map(|x| x.get())
    }
    fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
        self.a[..self.n].iter_mut().map(|x| x.get_mut())
    }
}
impl<T> Drop for Entries<T> {
    fn drop(&mut self) {
        while let Some(x) = self.pop() {
            drop(x);
        }
    }
}
impl<T: Clone> Clone for Entries<T> {
    fn clone(&self) -> Self {
        let mut r = Entries::new();
        let mut i = 0;
        while i < self.n {
            r.push(self.at(i).clone());
            i += 1;
        }
        r
    }
}

#[derive(Clone)]
pub struct IndexMap<K, V, S = NoHash> {
    e: Entries<(K, V)>,
    _s: std::marker::PhantomData<S>,
}
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for IndexMap<K, V, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("IndexMap")
    }
}
impl<K, V, S> Default for IndexMap<K, V, S> {
    fn default() -> Self {
        IndexMap { e: Entries::new(), _s: std::marker::PhantomData }
    }
}
impl<K, V> IndexMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K, V, S> IndexMap<K, V, S> {
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.len() == 0
    }
    pub fn clear(&mut self) {
        self.e = Entries::new()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + '_ {
        self.e.iter().map(|(k, v)| (k, v))
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ {
        self.e.iter_mut().map(|(k, v)| (&*k, v))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.e.iter().map(|(k, _)| k)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.e.iter().map(|(_, v)| v)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.e.iter_mut().map(|(_, v)| v)
    }
    pub fn get_index(&self, i: usize) -> Option<(&K, &V)> {
        if i < self.e.len() {
            let (k, v) = self.e.at(i);
            Some((k, v))
        } else {
            None
        }
    }
    pub fn get_index_mut(&mut self, i: usize) -> Option<(&K, &mut V)> {
        if i < self.e.len() {
            let (k, v) = self.e.at_mut(i);
            Some((&*k, v))
        } else {
            None
        }
    }
    pub fn swap_remove_index(&mut self, i: usize) -> Option<(K, V)> {
        let n = self.e.len();
        if i >= n {
            return None;
        }
        self.e.swap(i, n - 1);
        self.e.pop()
    }
    pub fn shift_remove_index(&mut self, i: usize) -> Option<(K, V)> {
        if i < self.e.len() {
            Some(self.e.remove(i))
        } else {
            None
        }
    }
    pub fn pop(&mut self) -> Option<(K, V)> {
        self.e.pop()
    }
    pub fn first(&self) -> Option<(&K, &V)> {
        self.get_index(0)
    }
    pub fn last(&self) -> Option<(&K, &V)> {
        match self.e.len() {
            0 => None,
            n => self.get_index(n - 1),
        }
    }
    pub fn swap_indices(&mut self, a: usize, b: usize) {
        self.e.swap(a, b)
    }
    pub fn get_index_of<Q: ?Sized + Equivalent<K>>(&self, q: &Q) -> Option<usize> {
        let mut i = 0;
        while i < self.e.len() {
            if q.equivalent(&self.e.at(i).0) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn contains_key<Q: ?Sized + Equivalent<K>>(&self, q: &Q) -> bool {
        self.get_index_of(q).is_some()
    }
    pub fn get<Q: ?Sized + Equivalent<K>>(&self, q: &Q) -> Option<&V> {
        match self.get_index_of(q) {
            Some(i) => Some(&self.e.at(i).1),
            None => None,
        }
    }
    pub fn get_mut<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<&mut V> {
        match self.get_index_of(q) {
            Some(i) => Some(&mut self.e.at_mut(i).1),
            None => None,
        }
    }
    pub fn get_full<Q: ?Sized + Equivalent<K>>(&self, q: &Q) -> Option<(usize, &K, &V)> {
        match self.get_index_of(q) {
            Some(i) => Some((i, &self.e.at(i).0, &self.e.at(i).1)),
            None => None,
        }
    }
    pub fn get_full_mut<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<(usize, &K, &mut V)> {
        match self.get_index_of(q) {
            Some(i) => {
                let (k, v) = self.e.at_mut(i);
                Some((i, &*k, v))
            }
            None => None,
        }
    }
    pub fn swap_remove<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<V> {
        self.swap_remove_full(q).map(|(_, _, v)| v)
    }
    pub fn swap_remove_entry<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<(K, V)> {
        self.swap_remove_full(q).map(|(_, k, v)| (k, v))
    }
    pub fn swap_remove_full<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<(usize, K, V)> {
        let i = self.get_index_of(q)?;
        let (k, v) = self.swap_remove_index(i)?;
        Some((i, k, v))
    }
    pub fn shift_remove<Q: ?Sized + Equivalent<K>>(&mut self, q: &Q) -> Option<V> {
        let i = self.get_index_of(q)?;
        Some(self.e.remove(i).1)
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V>
    where
        K: Hash + Eq,
    {
        self.insert_full(k, v).1
    }
    pub fn insert_full(&mut self, k: K, v: V) -> (usize, Option<V>)
    where
        K: Hash + Eq,
    {
        match self.get_index_of(&k) {
            Some(i) => (i, Some(std::mem::replace(&mut self.e.at_mut(i).1, v))),
            None => {
                self.e.push((k, v));
                (self.e.len() - 1, None)
            }
        }
    }
}
impl<K, V, S> Index<usize> for IndexMap<K, V, S> {
    type Output = V;
    fn index(&self, i: usize) -> &V {
        &self.e.at(i).1
    }
}
impl<K, V, S> IndexMut<usize> for IndexMap<K, V, S> {
    fn index_mut(&mut self, i: usize) -> &mut V {
        &mut self.e.at_mut(i).1
    }
}
