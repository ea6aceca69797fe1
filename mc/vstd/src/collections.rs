//! std's collections, with a deterministic hasher whose seed the harness chooses,
//! so that the iteration order of hash maps is an explored input.
pub use ::std::collections::*;
use crate::rt;
use ::std::borrow::Borrow;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut, Index};

#[derive(Clone, Copy, Debug)]
pub struct SeedState(u64);
impl Default for SeedState {
  fn default() -> SeedState {
    SeedState(rt::hash_seed())
  }
}
pub struct SeedHasher(u64);
impl BuildHasher for SeedState {
  type Hasher = SeedHasher;
  fn build_hasher(&self) -> SeedHasher {
    SeedHasher(rt::mix(self.0, 0x1234))
  }
}
impl Hasher for SeedHasher {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for c in b.chunks(8) {
      let mut x = [0u8; 8];
      x[..c.len()].copy_from_slice(c);
      self.0 = rt::mix(self.0, u64::from_le_bytes(x));
    }
  }
}

macro_rules! wrap {
  ($name:ident, $std:ident, <$($p:ident),*>) => {
    pub struct $name<$($p),*>(::std::collections::$std<$($p,)* SeedState>);
    impl<$($p),*> $name<$($p),*> {
      pub fn new() -> Self { $name(::std::collections::$std::with_hasher(SeedState::default())) }
      pub fn with_capacity(n: usize) -> Self { $name(::std::collections::$std::with_capacity_and_hasher(n, SeedState::default())) }
    }
    impl<$($p),*> Default for $name<$($p),*> { fn default() -> Self { Self::new() } }
    impl<$($p),*> Deref for $name<$($p),*> { type Target = ::std::collections::$std<$($p,)* SeedState>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<$($p),*> DerefMut for $name<$($p),*> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
  };
}
wrap!(HashMap, HashMap, <K, V>);
wrap!(HashSet, HashSet, <T>);

impl<K, V> HashMap<K, V> {
  pub fn into_keys(self) -> ::std::collections::hash_map::IntoKeys<K, V> { self.0.into_keys() }
  pub fn into_values(self) -> ::std::collections::hash_map::IntoValues<K, V> { self.0.into_values() }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
  fn clone(&self) -> Self { HashMap(self.0.clone()) }
}
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug> ::std::fmt::Debug for HashMap<K, V> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
  fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
  fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = HashMap::new(); m.0.extend(it); m }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
  fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
  fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { self.0.extend(it) }
}
impl<K, V> IntoIterator for HashMap<K, V> {
  type Item = (K, V);
  type IntoIter = ::std::collections::hash_map::IntoIter<K, V>;
  fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
  type Item = (&'a K, &'a V);
  type IntoIter = ::std::collections::hash_map::Iter<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter { self.0.iter() }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
  type Item = (&'a K, &'a mut V);
  type IntoIter = ::std::collections::hash_map::IterMut<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> Index<&Q> for HashMap<K, V> {
  type Output = V;
  fn index(&self, k: &Q) -> &V { &self.0[k] }
}

impl<T: Clone> Clone for HashSet<T> {
  fn clone(&self) -> Self { HashSet(self.0.clone()) }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for HashSet<T> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
}
impl<T: Eq + Hash> PartialEq for HashSet<T> {
  fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<T: Eq + Hash> Eq for HashSet<T> {}
impl<T: Eq + Hash> FromIterator<T> for HashSet<T> {
  fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = HashSet::new(); m.0.extend(it); m }
}
impl<T: Eq + Hash> Extend<T> for HashSet<T> {
  fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { self.0.extend(it) }
}
impl<T> IntoIterator for HashSet<T> {
  type Item = T;
  type IntoIter = ::std::collections::hash_set::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
  type Item = &'a T;
  type IntoIter = ::std::collections::hash_set::Iter<'a, T>;
  fn into_iter(self) -> Self::IntoIter { self.0.iter() }
}

impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
  fn from(x: [T; N]) -> Self { x.into_iter().collect() }
}
impl<'a, T: Eq + Hash + Copy + 'a> Extend<&'a T> for HashSet<T> {
  fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { self.0.extend(it) }
}
macro_rules! algebra {
  ($($tr:ident $f:ident),*) => {$(
    impl<T: Eq + Hash + Clone> ::std::ops::$tr<&HashSet<T>> for &HashSet<T> {
      type Output = HashSet<T>;
      fn $f(self, o: &HashSet<T>) -> HashSet<T> { HashSet(::std::ops::$tr::$f(&self.0, &o.0)) }
    }
  )*};
}
algebra!(BitOr bitor, BitAnd bitand, BitXor bitxor, Sub sub);
impl<'a, K: Eq + Hash + Copy + 'a, V: Copy + 'a> Extend<(&'a K, &'a V)> for HashMap<K, V> {
  fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { self.0.extend(it) }
}
