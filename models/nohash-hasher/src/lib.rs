//! Verification stand-in for `nohash_hasher::IntMap`: a finite map with the `HashMap` API.
//!
//! The map holds at most three explicit entries plus `extra` further ones that are known only by
//! their number (used by the proof harnesses to let `len()` range over every value). Iteration
//! visits the explicit entries only.
pub trait IsEnabled {}

/// Three explicit entries; loop-free on purpose (the proofs then need no unwinding bound for it).
pub struct IntMap<K, V> {
    pub s0: Option<(K, V)>,
    pub s1: Option<(K, V)>,
    pub s2: Option<(K, V)>,
    pub extra: usize,
}

impl<K, V> Default for IntMap<K, V> {
    fn default() -> Self {
        IntMap { s0: None, s1: None, s2: None, extra: 0 }
    }
}
fn is<K: PartialEq, V>(e: &Option<(K, V)>, k: &K) -> bool {
    match e {
        Some((q, _)) => q == k,
        None => false,
    }
}

impl<K: PartialEq + Copy, V> IntMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    fn find_mut(&mut self, k: &K) -> Option<&mut Option<(K, V)>> {
        if is(&self.s0, k) {
            Some(&mut self.s0)
        } else if is(&self.s1, k) {
            Some(&mut self.s1)
        } else if is(&self.s2, k) {
            Some(&mut self.s2)
        } else {
            None
        }
    }
    pub fn len(&self) -> usize {
        self.extra + self.s0.is_some() as usize + self.s1.is_some() as usize + self.s2.is_some() as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn contains_key(&self, k: &K) -> bool {
        is(&self.s0, k) || is(&self.s1, k) || is(&self.s2, k)
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        let e = if is(&self.s0, k) {
            &self.s0
        } else if is(&self.s1, k) {
            &self.s1
        } else if is(&self.s2, k) {
            &self.s2
        } else {
            return None;
        };
        e.as_ref().map(|e| &e.1)
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        match self.find_mut(k) {
            Some(e) => e.as_mut().map(|e| &mut e.1),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        if let Some(e) = self.find_mut(&k) {
            return e.replace((k, v)).map(|e| e.1);
        }
        if self.s0.is_none() {
            self.s0 = Some((k, v));
        } else if self.s1.is_none() {
            self.s1 = Some((k, v));
        } else if self.s2.is_none() {
            self.s2 = Some((k, v));
        } else {
            panic!("verification model: IntMap capacity exceeded")
        }
        None
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        self.remove_entry(k).map(|e| e.1)
    }
    pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
        match self.find_mut(k) {
            Some(e) => e.take(),
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        if self.contains_key(&k) {
            hash_map::Entry::Occupied(hash_map::OccupiedEntry { map: self, key: k })
        } else {
            hash_map::Entry::Vacant(hash_map::VacantEntry { map: self, key: k })
        }
    }
    pub fn clear(&mut self) {
        self.extra = 0;
        self.s0 = None;
        self.s1 = None;
        self.s2 = None;
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        if let Some((k, v)) = &mut self.s0 {
            if !f(k, v) {
                self.s0 = None;
            }
        }
        if let Some((k, v)) = &mut self.s1 {
            if !f(k, v) {
                self.s1 = None;
            }
        }
        if let Some((k, v)) = &mut self.s2 {
            if !f(k, v) {
                self.s2 = None;
            }
        }
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { a: self.s0.as_ref(), b: self.s1.as_ref(), c: self.s2.as_ref() }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { a: self.s0.as_mut(), b: self.s1.as_mut(), c: self.s2.as_mut() }
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values(self.iter())
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut(self.iter_mut())
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys(self.iter())
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        self.extra = 0;
        Drain { map: self }
    }
}

pub struct Iter<'a, K, V> {
    a: Option<&'a (K, V)>,
    b: Option<&'a (K, V)>,
    c: Option<&'a (K, V)>,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        let e = if self.a.is_some() {
            self.a.take()
        } else if self.b.is_some() {
            self.b.take()
        } else {
            self.c.take()
        };
        e.map(|e| (&e.0, &e.1))
    }
}
pub struct IterMut<'a, K, V> {
    a: Option<&'a mut (K, V)>,
    b: Option<&'a mut (K, V)>,
    c: Option<&'a mut (K, V)>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        let e = if self.a.is_some() {
            self.a.take()
        } else if self.b.is_some() {
            self.b.take()
        } else {
            self.c.take()
        };
        e.map(|e| (&e.0, &mut e.1))
    }
}
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> {
        self.0.next().map(|e| e.1)
    }
}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> {
        self.0.next().map(|e| e.1)
    }
}
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        self.0.next().map(|e| e.0)
    }
}
pub struct Drain<'a, K, V> {
    map: &'a mut IntMap<K, V>,
}
impl<'a, K, V> Iterator for Drain<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        if self.map.s0.is_some() {
            self.map.s0.take()
        } else if self.map.s1.is_some() {
            self.map.s1.take()
        } else {
            self.map.s2.take()
        }
    }
}
impl<'a, K, V> Drop for Drain<'a, K, V> {
    fn drop(&mut self) {
        self.map.s0 = None;
        self.map.s1 = None;
        self.map.s2 = None;
    }
}
impl<'a, K: PartialEq + Copy, V> IntoIterator for &'a IntMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K: PartialEq + Copy, V> IntoIterator for &'a mut IntMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}

pub mod hash_map {
    use super::IntMap;
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(super) map: &'a mut IntMap<K, V>,
        pub(super) key: K,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(super) map: &'a mut IntMap<K, V>,
        pub(super) key: K,
    }
    impl<'a, K: PartialEq + Copy, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            self.map.get(&self.key).unwrap()
        }
        pub fn get_mut(&mut self) -> &mut V {
            self.map.get_mut(&self.key).unwrap()
        }
        pub fn into_mut(self) -> &'a mut V {
            self.map.get_mut(&self.key).unwrap()
        }
        pub fn remove(self) -> V {
            self.map.remove(&self.key).unwrap()
        }
        pub fn insert(&mut self, v: V) -> V {
            self.map.insert(self.key, v).unwrap()
        }
        pub fn key(&self) -> &K {
            &self.key
        }
    }
    impl<'a, K: PartialEq + Copy, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.map.insert(self.key, v);
            self.map.get_mut(&self.key).unwrap()
        }
        pub fn key(&self) -> &K {
            &self.key
        }
    }
    impl<'a, K: PartialEq + Copy, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
    }
}

pub type BuildNoHashHasher<T> = std::marker::PhantomData<T>;
