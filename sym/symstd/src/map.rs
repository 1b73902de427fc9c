//! Association lists with the interface of the hashed containers.
use ::std::borrow::Borrow;
use ::std::cell::RefCell;
use ::std::fmt;
use ::std::hash::Hash;
use ::std::ops::Index;

/// Iteration order: asked once per state of the container, kept until a key comes or goes,
/// and inherited by clones, like the bucket order of the real containers.
#[derive(Clone, Default)]
struct Ord_(RefCell<Option<Vec<usize>>>);
impl Ord_ {
    fn get(&self, n: usize) -> Vec<usize> {
        let mut o = self.0.borrow_mut();
        match &*o {
            Some(v) if v.len() == n => v.clone(),
            _ => {
                let v = if symcore::engine::active() {
                    symcore::engine::with(|e| e.order(n))
                } else {
                    (0..n).collect()
                };
                *o = Some(v.clone());
                v
            }
        }
    }
    fn reset(&self) {
        *self.0.borrow_mut() = None;
    }
}

fn take_in_order<T>(v: Vec<T>, order: &[usize]) -> Vec<T> {
    let mut s: Vec<Option<T>> = v.into_iter().map(Some).collect();
    order.iter().map(|i| s[*i].take().unwrap()).collect()
}

pub mod hash_map {
    use super::*;

    pub struct HashMap<K, V, S = ::std::collections::hash_map::RandomState> {
        items: Vec<(K, V)>,
        ord: Ord_,
        _s: ::std::marker::PhantomData<S>,
    }

    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            HashMap { items: self.items.clone(), ord: self.ord.clone(), _s: ::std::marker::PhantomData }
        }
    }
    impl<K, V, S> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap { items: vec![], ord: Ord_::default(), _s: ::std::marker::PhantomData }
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            Default::default()
        }
        pub fn with_capacity(_: usize) -> Self {
            Default::default()
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_: S) -> Self {
            Default::default()
        }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
            Default::default()
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
        pub fn capacity(&self) -> usize {
            self.items.capacity()
        }
        pub fn clear(&mut self) {
            self.items.clear();
            self.ord.reset();
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            let o = self.ord.get(self.items.len());
            let v: Vec<(&K, &V)> = o.iter().map(|i| (&self.items[*i].0, &self.items[*i].1)).collect();
            Iter { it: v.into_iter() }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let o = self.ord.get(self.items.len());
            let v: Vec<(&K, &mut V)> = self.items.iter_mut().map(|(k, v)| (&*k, v)).collect();
            IterMut { it: take_in_order(v, &o).into_iter() }
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys { it: self.iter() }
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values { it: self.iter() }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut { it: self.iter_mut() }
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            IntoKeys { it: self.into_iter() }
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            IntoValues { it: self.into_iter() }
        }
        pub fn drain(&mut self) -> IntoIter<K, V> {
            let o = self.ord.get(self.items.len());
            self.ord.reset();
            IntoIter { it: take_in_order(::std::mem::take(&mut self.items), &o).into_iter() }
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let o = self.ord.get(self.items.len());
            let mut keep = vec![true; self.items.len()];
            for i in o.iter() {
                let (k, v) = &mut self.items[*i];
                keep[*i] = f(k, v);
            }
            let mut i = 0;
            let n = self.items.len();
            self.items.retain(|_| {
                i += 1;
                keep[i - 1]
            });
            if self.items.len() != n {
                self.ord.reset();
            }
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
    }
    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        fn find<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            self.items.iter().position(|x| x.0.borrow() == k)
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| &self.items[i].1)
        }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| (&self.items[i].0, &self.items[i].1))
        }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(&mut self.items[i].1),
                None => None,
            }
        }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).is_some()
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => Some(::std::mem::replace(&mut self.items[i].1, v)),
                None => {
                    self.items.push((k, v));
                    self.ord.reset();
                    None
                }
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.remove_entry(k).map(|x| x.1)
        }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => {
                    self.ord.reset();
                    Some(self.items.remove(i))
                }
                None => None,
            }
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(OccupiedEntry { items: &mut self.items, i, ord: &self.ord }),
                None => Entry::Vacant(VacantEntry { items: &mut self.items, key, ord: &self.ord }),
            }
        }
    }

    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        items: &'a mut Vec<(K, V)>,
        i: usize,
        ord: &'a Ord_,
    }
    pub struct VacantEntry<'a, K, V> {
        items: &'a mut Vec<(K, V)>,
        key: K,
        ord: &'a Ord_,
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            &self.items[self.i].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.items[self.i].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.items[self.i].1
        }
        pub fn key(&self) -> &K {
            &self.items[self.i].0
        }
        pub fn insert(&mut self, v: V) -> V {
            ::std::mem::replace(&mut self.items[self.i].1, v)
        }
        pub fn remove(self) -> V {
            self.ord.reset();
            self.items.remove(self.i).1
        }
        pub fn remove_entry(self) -> (K, V) {
            self.ord.reset();
            self.items.remove(self.i)
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            self.items.push((self.key, v));
            self.ord.reset();
            let i = self.items.len() - 1;
            OccupiedEntry { items: self.items, i, ord: self.ord }
        }
        pub fn insert(self, v: V) -> &'a mut V {
            self.items.push((self.key, v));
            self.ord.reset();
            &mut self.items.last_mut().unwrap().1
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(e.key());
                    e.insert(v)
                }
            }
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                e => e,
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(v);
                    e
                }
                Entry::Vacant(e) => e.insert_entry(v),
            }
        }
    }
    impl<'a, K, V: Default> Entry<'a, K, V> {
        pub fn or_default(self) -> &'a mut V {
            self.or_insert_with(Default::default)
        }
    }

    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len() && self.items.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
        }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
            let mut m = HashMap::default();
            for (k, v) in iter {
                m.insert(k, v);
            }
            m
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
            for (k, v) in iter {
                self.insert(k, v);
            }
        }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, iter: T) {
            for (k, v) in iter {
                self.insert(*k, *v);
            }
        }
    }

    macro_rules! fwd {
        ($name:ident<$($g:tt),*>, $item:ty, $inner:ty, $map:expr) => {
            pub struct $name<$($g),*> { pub(super) it: $inner }
            impl<$($g),*> Iterator for $name<$($g),*> {
                type Item = $item;
                fn next(&mut self) -> Option<$item> { self.it.next().map($map) }
                fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
            }
            impl<$($g),*> ExactSizeIterator for $name<$($g),*> {}
        };
    }
    fwd!(Iter<'a, K, V>, (&'a K, &'a V), ::std::vec::IntoIter<(&'a K, &'a V)>, |x| x);
    fwd!(IterMut<'a, K, V>, (&'a K, &'a mut V), ::std::vec::IntoIter<(&'a K, &'a mut V)>, |x| x);
    fwd!(IntoIter<K, V>, (K, V), ::std::vec::IntoIter<(K, V)>, |x| x);
    fwd!(Keys<'a, K, V>, &'a K, Iter<'a, K, V>, |x| x.0);
    fwd!(Values<'a, K, V>, &'a V, Iter<'a, K, V>, |x| x.1);
    fwd!(ValuesMut<'a, K, V>, &'a mut V, IterMut<'a, K, V>, |x| x.1);
    fwd!(IntoKeys<K, V>, K, IntoIter<K, V>, |x| x.0);
    fwd!(IntoValues<K, V>, V, IntoIter<K, V>, |x| x.1);
    pub type Drain<'a, K, V> = IntoIter<K, V>;
    impl<'a, K, V> Clone for Iter<'a, K, V> {
        fn clone(&self) -> Self {
            Iter { it: self.it.clone() }
        }
    }
    impl<'a, K, V> Clone for Keys<'a, K, V> {
        fn clone(&self) -> Self {
            Keys { it: self.it.clone() }
        }
    }
    impl<'a, K, V> Clone for Values<'a, K, V> {
        fn clone(&self) -> Self {
            Values { it: self.it.clone() }
        }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(mut self) -> IntoIter<K, V> {
            self.drain()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
}

pub mod hash_set {
    use super::hash_map::HashMap;
    use super::*;
    pub struct HashSet<T, S = ::std::collections::hash_map::RandomState> {
        m: HashMap<T, (), S>,
    }
    impl<T: Clone, S> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            HashSet { m: self.m.clone() }
        }
    }
    impl<T, S> Default for HashSet<T, S> {
        fn default() -> Self {
            HashSet { m: HashMap::default() }
        }
    }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T> HashSet<T> {
        pub fn new() -> Self {
            Default::default()
        }
        pub fn with_capacity(_: usize) -> Self {
            Default::default()
        }
    }
    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn clear(&mut self) {
            self.m.clear()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { it: self.m.keys() }
        }
        pub fn drain(&mut self) -> IntoIter<T> {
            IntoIter { it: self.m.drain() }
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.m.retain(|k, _| f(k))
        }
        pub fn reserve(&mut self, _: usize) {}
    }
    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn insert(&mut self, t: T) -> bool {
            // the real set keeps the old element
            if self.m.contains_key(&t) {
                false
            } else {
                self.m.insert(t, ());
                true
            }
        }
        pub fn replace(&mut self, t: T) -> Option<T> {
            let old = self.m.remove_entry(&t).map(|x| x.0);
            self.m.insert(t, ());
            old
        }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.contains_key(t)
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, t: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.m.get_key_value(t).map(|x| x.0)
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.remove(t).is_some()
        }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, t: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.m.remove_entry(t).map(|x| x.0)
        }
        pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> {
            self.iter().chain(o.iter().filter(|x| !self.contains(*x))).collect::<Vec<_>>().into_iter()
        }
        pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> {
            self.iter().filter(|x| o.contains(*x)).collect::<Vec<_>>().into_iter()
        }
        pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> {
            self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter()
        }
        pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> {
            self.difference(o).chain(o.difference(self)).collect::<Vec<_>>().into_iter()
        }
        pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
            self.iter().all(|x| o.contains(x))
        }
        pub fn is_superset(&self, o: &HashSet<T, S>) -> bool {
            o.is_subset(self)
        }
        pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool {
            self.iter().all(|x| !o.contains(x))
        }
    }
    macro_rules! setops {
        ($($Tr:ident $m:ident $f:ident),*) => { $(
            impl<'a, 'b, T: Eq + Hash + Clone, S> ::std::ops::$Tr<&'b HashSet<T, S>> for &'a HashSet<T, S> {
                type Output = HashSet<T, S>;
                fn $m(self, o: &'b HashSet<T, S>) -> HashSet<T, S> { self.$f(o).cloned().collect() }
            }
        )* };
    }
    setops!(BitOr bitor union, BitAnd bitand intersection, BitXor bitxor symmetric_difference, Sub sub difference);
    impl<T, S: Default> HashSet<T, S> {
        pub fn with_hasher(_: S) -> Self {
            Default::default()
        }
    }
    impl<T, S> HashSet<T, S> {
        pub fn capacity(&self) -> usize {
            self.len()
        }
        pub fn shrink_to_fit(&mut self) {}
    }
    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool {
            self.m == o.m
        }
    }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
            let mut s = HashSet::default();
            for x in iter {
                s.insert(x);
            }
            s
        }
    }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
            for x in iter {
                self.insert(x);
            }
        }
    }
    impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
            for x in iter {
                self.insert(*x);
            }
        }
    }
    pub struct Iter<'a, T> {
        it: super::hash_map::Keys<'a, T, ()>,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            self.it.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
    impl<'a, T> Clone for Iter<'a, T> {
        fn clone(&self) -> Self {
            Iter { it: self.it.clone() }
        }
    }
    pub struct IntoIter<T> {
        it: super::hash_map::IntoIter<T, ()>,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.it.next().map(|x| x.0)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<T> ExactSizeIterator for IntoIter<T> {}
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(mut self) -> IntoIter<T> {
            self.drain()
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
