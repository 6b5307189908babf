//! Hash tables as contract models: exact map/set semantics, iteration order an explicit choice (`rt::order`).
pub use ::std::collections::*;
pub use hash_map::HashMap;
pub use hash_set::HashSet;

pub mod hash_map {
    pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
    use crate::rt::order;
    use ::std::borrow::Borrow;
    use ::std::fmt;
    use ::std::hash::{BuildHasher, Hash};
    use ::std::marker::PhantomData;
    use ::std::ops::Index;

    pub struct HashMap<K, V, S = RandomState> { pub(crate) e: Vec<(K, V)>, s: PhantomData<S> }
    fn permute<T>(v: Vec<T>) -> Vec<T> {
        let o = order(v.len());
        let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
        o.into_iter().map(|i| v[i].take().unwrap()).collect()
    }
    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self { HashMap { e: Vec::new(), s: PhantomData } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_: S) -> Self { HashMap { e: Vec::new(), s: PhantomData } }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { HashMap { e: Vec::new(), s: PhantomData } }
        pub fn capacity(&self) -> usize { self.e.capacity() }
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn clear(&mut self) { self.e.clear() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn iter(&self) -> Iter<'_, K, V> { let r: Vec<&(K, V)> = self.e.iter().collect(); Iter { i: permute(r).into_iter() } }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { let r: Vec<&mut (K, V)> = self.e.iter_mut().collect(); IterMut { i: permute(r).into_iter() } }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
        pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
        pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys { i: self.into_iter() } }
        pub fn into_values(self) -> IntoValues<K, V> { IntoValues { i: self.into_iter() } }
        pub fn drain(&mut self) -> IntoIter<K, V> { let e = ::std::mem::take(&mut self.e); IntoIter { i: permute(e).into_iter() } }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.e.retain_mut(|(k, v)| f(k, v)) }
        pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> IntoIter<K, V> {
            let mut out = Vec::new(); let mut keep = Vec::new();
            for (k, mut v) in ::std::mem::take(&mut self.e) { if f(&k, &mut v) { out.push((k, v)) } else { keep.push((k, v)) } }
            self.e = keep; IntoIter { i: permute(out).into_iter() }
        }
    }
    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        #[inline] fn at<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { let mut i = 0; let n = self.e.len(); while i < n { if self.e[i].0.borrow() == k { return Some(i); } i += 1; } None }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> { match self.at(&k) { Some(i) => Some(::std::mem::replace(&mut self.e[i].1, v)), None => { self.e.push((k, v)); None } } }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.at(k).map(|i| &self.e[i].1) }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.at(k) { Some(i) => Some(&mut self.e[i].1), None => None } }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.at(k).map(|i| { let e = &self.e[i]; (&e.0, &e.1) }) }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.at(k).is_some() }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.at(k).map(|i| self.e.remove(i).1) }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.at(k).map(|i| self.e.remove(i)) }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { match self.at(&k) { Some(i) => Entry::Occupied(OccupiedEntry { e: &mut self.e, i }), None => Entry::Vacant(VacantEntry { e: &mut self.e, k }) } }
    }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { e: self.e.clone(), s: PhantomData } } }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { e: Vec::new(), s: PhantomData } } }
    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.e.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w)) } }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) { for (k, v) in i { self.insert(*k, *v); } } }
    impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = HashMap { e: Vec::new(), s: PhantomData }; m.extend(i); m } }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { i: permute(self.e).into_iter() } } }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }

    macro_rules! it { ($n:ident, [$($g:tt)*], [$($a:tt)*], $inner:ty, $item:ty, $x:ident => $m:expr) => {
        pub struct $n<$($g)*> { pub(crate) i: $inner }
        impl<$($g)*> Iterator for $n<$($a)*> { type Item = $item; fn next(&mut self) -> Option<$item> { self.i.next().map(|$x| $m) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
        impl<$($g)*> ExactSizeIterator for $n<$($a)*> {}
        impl<$($g)*> ::std::iter::FusedIterator for $n<$($a)*> {}
    } }
    it!(Iter, ['a, K, V], ['a, K, V], ::std::vec::IntoIter<&'a (K, V)>, (&'a K, &'a V), x => (&x.0, &x.1));
    it!(IterMut, ['a, K, V], ['a, K, V], ::std::vec::IntoIter<&'a mut (K, V)>, (&'a K, &'a mut V), x => (&x.0, &mut x.1));
    it!(IntoIter, [K, V], [K, V], ::std::vec::IntoIter<(K, V)>, (K, V), x => x);
    it!(Keys, ['a, K, V], ['a, K, V], Iter<'a, K, V>, &'a K, x => x.0);
    it!(Values, ['a, K, V], ['a, K, V], Iter<'a, K, V>, &'a V, x => x.1);
    it!(ValuesMut, ['a, K, V], ['a, K, V], IterMut<'a, K, V>, &'a mut V, x => x.1);
    it!(IntoKeys, [K, V], [K, V], IntoIter<K, V>, K, x => x.0);
    it!(IntoValues, [K, V], [K, V], IntoIter<K, V>, V, x => x.1);
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
    impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys { i: self.i.clone() } } }
    impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values { i: self.i.clone() } } }
    pub type Drain<'a, K, V> = IntoIter<K, V>;

    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { e: &'a mut Vec<(K, V)>, i: usize }
    pub struct VacantEntry<'a, K, V> { e: &'a mut Vec<(K, V)>, k: K }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(f()) } }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => { let v = f(&x.k); x.insert(v) } } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(x) => &x.k } }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { match self { Entry::Occupied(mut o) => { o.insert(v); o } Entry::Vacant(x) => x.insert_entry(v) } }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.e[self.i].0 }
        pub fn get(&self) -> &V { &self.e[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.e[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.e[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(&mut self.e[self.i].1, v) }
        pub fn remove(self) -> V { self.e.remove(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.e.remove(self.i) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k }
        pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V { self.e.push((self.k, v)); &mut self.e.last_mut().unwrap().1 }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { self.e.push((self.k, v)); let i = self.e.len() - 1; OccupiedEntry { e: self.e, i } }
    }
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Entry<'_, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Entry") } }
    #[allow(unused)] fn _u<S: BuildHasher>() {}
}

pub mod hash_set {
    use super::hash_map::{self, HashMap, RandomState};
    use ::std::borrow::Borrow;
    use ::std::fmt;
    use ::std::hash::Hash;
    use ::std::ops::{BitAnd, BitOr, BitXor, Sub};

    pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self { HashSet { m: HashMap::new() } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    pub type Iter<'a, T> = hash_map::Keys<'a, T, ()>;
    pub type IntoIter<T> = hash_map::IntoKeys<T, ()>;
    pub type Drain<'a, T> = hash_map::IntoKeys<T, ()>;
    impl<T, S> HashSet<T, S> {
        pub fn with_hasher(s: S) -> Self { HashSet { m: HashMap::with_hasher(s) } }
        pub fn len(&self) -> usize { self.m.len() }
        pub fn capacity(&self) -> usize { self.m.capacity() }
        pub fn is_empty(&self) -> bool { self.m.is_empty() }
        pub fn clear(&mut self) { self.m.clear() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn iter(&self) -> Iter<'_, T> { self.m.keys() }
        pub fn drain(&mut self) -> Drain<'_, T> { ::std::mem::take(&mut self.m).into_keys() }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
    }
    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn insert(&mut self, t: T) -> bool { if self.m.contains_key(&t) { false } else { self.m.insert(t, ()); true } }
        pub fn replace(&mut self, t: T) -> Option<T> { let o = self.m.remove_entry(&t).map(|e| e.0); self.m.insert(t, ()); o }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(t) }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(t).map(|e| e.0) }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> bool where T: Borrow<Q> { self.m.remove(t).is_some() }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(t).map(|e| e.0) }
        pub fn is_subset(&self, o: &HashSet<T, S>) -> bool { self.m.e.iter().all(|e| o.contains(&e.0)) }
        pub fn is_superset(&self, o: &HashSet<T, S>) -> bool { o.is_subset(self) }
        pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool { !self.m.e.iter().any(|e| o.contains(&e.0)) }
        pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter() }
        pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().filter(|x| o.contains(*x)).collect::<Vec<_>>().into_iter() }
        pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().chain(o.iter().filter(|x| !self.contains(*x))).collect::<Vec<_>>().into_iter() }
        pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { self.iter().filter(|x| !o.contains(*x)).chain(o.iter().filter(|x| !self.contains(*x))).collect::<Vec<_>>().into_iter() }
    }
    impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { m: self.m.clone() } } }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet { m: HashMap::default() } } }
    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.insert(t); } } }
    impl<'a, T: Eq + Hash + Copy, S> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { for t in i { self.insert(*t); } } }
    impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut m = HashSet { m: HashMap::default() }; m.extend(i); m } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
    impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { self.m.into_keys() } }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
    macro_rules! op { ($t:ident, $f:ident, $m:ident) => { impl<T: Eq + Hash + Clone, S> $t<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.$m(o).cloned().collect() } } } }
    op!(BitAnd, bitand, intersection); op!(BitOr, bitor, union); op!(BitXor, bitxor, symmetric_difference); op!(Sub, sub, difference);
}
