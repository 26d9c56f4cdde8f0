//! Model of rustc-hash: the maps are standard maps with a deterministic hasher;
//! looking up a string key is handed to the symbolic executor (sx_lookup), which
//! compares with every key instead of following hash buckets.
use std::borrow::Borrow;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::ops::{Deref, DerefMut, Index};

#[derive(Default, Clone)]
pub struct FxHasher { hash: usize }
const SEED: usize = 0x517cc1b727220a95u64 as usize;
impl FxHasher { #[inline] fn add(&mut self, i: usize) { self.hash = (self.hash.rotate_left(5) ^ i).wrapping_mul(SEED) } }
impl Hasher for FxHasher {
    fn write(&mut self, mut b: &[u8]) {
        while b.len() >= 8 { self.add(u64::from_le_bytes(b[..8].try_into().unwrap()) as usize); b = &b[8..]; }
        for x in b { self.add(*x as usize) }
    }
    fn write_u8(&mut self, i: u8) { self.add(i as usize) }
    fn write_u16(&mut self, i: u16) { self.add(i as usize) }
    fn write_u32(&mut self, i: u32) { self.add(i as usize) }
    fn write_u64(&mut self, i: u64) { self.add(i as usize) }
    fn write_usize(&mut self, i: usize) { self.add(i) }
    fn finish(&self) -> u64 { self.hash as u64 }
}
pub type Inner<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxHashSet<V> = HashSet<V, BuildHasherDefault<FxHasher>>;

/// for every map: the string keys, in iteration order, and the values' addresses
pub struct FxHashMap<K, V> { inner: Inner<K, V>, keys: Idx<V> }
type Idx<V> = std::cell::OnceCell<std::rc::Rc<(Vec<(*const u8, usize)>, Vec<std::mem::ManuallyDrop<V>>)>>;
unsafe impl<K: Send, V: Send> Send for FxHashMap<K, V> {}
unsafe impl<K: Sync, V: Sync> Sync for FxHashMap<K, V> {}
impl<K, V> Default for FxHashMap<K, V> { fn default() -> Self { FxHashMap { inner: Inner::default(), keys: Default::default() } } }
impl<K: Eq + Hash, V> FromIterator<(K, V)> for FxHashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { FxHashMap { inner: i.into_iter().collect(), keys: Default::default() } } }
impl<K: Eq + Hash, V> Extend<(K, V)> for FxHashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.keys.take(); self.inner.extend(i) } }
impl<K, V> Deref for FxHashMap<K, V> { type Target = Inner<K, V>; fn deref(&self) -> &Inner<K, V> { &self.inner } }
impl<K, V> DerefMut for FxHashMap<K, V> { fn deref_mut(&mut self) -> &mut Inner<K, V> { self.keys.take(); &mut self.inner } }
impl<K, V> IntoIterator for FxHashMap<K, V> { type Item = (K, V); type IntoIter = std::collections::hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.inner.into_iter() } }
impl<'a, K, V> IntoIterator for &'a FxHashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = std::collections::hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.inner.iter() } }
impl<K: Eq + Hash, V: PartialEq> PartialEq for FxHashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.inner == o.inner } }
impl<K: Eq + Hash, V: Eq> Eq for FxHashMap<K, V> {}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for FxHashMap<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.inner.fmt(f) } }

fn str_key<Q: ?Sized>(q: &Q) -> Option<&[u8]> {
    let n = std::any::type_name::<Q>();
    if n == "str" {
        let p = q as *const Q as *const u8;
        return Some(unsafe { std::slice::from_raw_parts(p, std::mem::size_of_val(q)) });
    }
    if n == "&str" { let s: &&str = unsafe { &*(q as *const Q as *const &str) }; return Some(s.as_bytes()); }
    if n == "alloc::string::String" { let s: &String = unsafe { &*(q as *const Q as *const String) }; return Some(s.as_bytes()); }
    None
}
impl<K: Eq + Hash, V> FxHashMap<K, V> {
    pub fn with_capacity_and_hasher(n: usize, h: BuildHasherDefault<FxHasher>) -> Self { FxHashMap { inner: Inner::with_capacity_and_hasher(n, h), keys: Default::default() } }
    pub fn with_hasher(h: BuildHasherDefault<FxHasher>) -> Self { FxHashMap { inner: Inner::with_hasher(h), keys: Default::default() } }
    fn find<Q: ?Sized + Hash + Eq>(&self, b: &[u8]) -> Option<&V> where K: Borrow<Q> {
        // the entries, in iteration order, with bitwise copies of the values side by side
        let t = self.keys.get_or_init(|| {
            let mut v = Vec::with_capacity(self.inner.len());
            let mut x = Vec::with_capacity(self.inner.len());
            for (k, e) in self.inner.iter() {
                let b = str_key(k.borrow()).unwrap_or(&[]);
                v.push((b.as_ptr(), b.len()));
                x.push(std::mem::ManuallyDrop::new(unsafe { std::ptr::read(e) }));
            }
            std::rc::Rc::new((v, x))
        });
        let i = sx::lookup(&t.0, b);
        if i >= t.0.len() { return None; }
        Some(&t.1[i])
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { match str_key(q) { Some(b) => self.find::<Q>(b), None => self.inner.get(q) } }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where K: Borrow<Q> { self.get(q).is_some() }
}
impl<K: Clone, V: Clone> Clone for FxHashMap<K, V> { fn clone(&self) -> Self { FxHashMap { inner: self.inner.clone(), keys: Default::default() } } }
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> Index<&Q> for FxHashMap<K, V> { type Output = V; fn index(&self, q: &Q) -> &V { self.get(q).expect("no entry found for key") } }
