//! Stand-in for `std::collections::VecDeque`: the same sequence, at most four elements, loop-free.
use std::fmt;
use std::ops::{Index, IndexMut};

#[derive(Clone)]
pub struct VecDeque<T> {
    a: Option<T>,
    b: Option<T>,
    c: Option<T>,
    d: Option<T>,
}
fn full() -> ! {
    panic!("verification model: VecDeque capacity exceeded")
}
impl<T> VecDeque<T> {
    pub const fn new() -> Self {
        VecDeque { a: None, b: None, c: None, d: None }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn len(&self) -> usize {
        self.a.is_some() as usize + self.b.is_some() as usize + self.c.is_some() as usize + self.d.is_some() as usize
    }
    pub fn is_empty(&self) -> bool {
        self.a.is_none()
    }
    pub fn push_back(&mut self, t: T) {
        if self.a.is_none() {
            self.a = Some(t)
        } else if self.b.is_none() {
            self.b = Some(t)
        } else if self.c.is_none() {
            self.c = Some(t)
        } else if self.d.is_none() {
            self.d = Some(t)
        } else {
            full()
        }
    }
    pub fn push_front(&mut self, t: T) {
        if self.d.is_some() {
            full()
        }
        self.d = self.c.take();
        self.c = self.b.take();
        self.b = self.a.take();
        self.a = Some(t);
    }
    pub fn pop_front(&mut self) -> Option<T> {
        let r = self.a.take();
        self.a = self.b.take();
        self.b = self.c.take();
        self.c = self.d.take();
        r
    }
    pub fn pop_back(&mut self) -> Option<T> {
        if self.d.is_some() {
            self.d.take()
        } else if self.c.is_some() {
            self.c.take()
        } else if self.b.is_some() {
            self.b.take()
        } else {
            self.a.take()
        }
    }
    pub fn front(&self) -> Option<&T> {
        self.a.as_ref()
    }
    pub fn front_mut(&mut self) -> Option<&mut T> {
        self.a.as_mut()
    }
    pub fn back(&self) -> Option<&T> {
        if self.d.is_some() {
            self.d.as_ref()
        } else if self.c.is_some() {
            self.c.as_ref()
        } else if self.b.is_some() {
            self.b.as_ref()
        } else {
            self.a.as_ref()
        }
    }
    pub fn back_mut(&mut self) -> Option<&mut T> {
        if self.d.is_some() {
            self.d.as_mut()
        } else if self.c.is_some() {
            self.c.as_mut()
        } else if self.b.is_some() {
            self.b.as_mut()
        } else {
            self.a.as_mut()
        }
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        match i {
            0 => self.a.as_ref(),
            1 => self.b.as_ref(),
            2 => self.c.as_ref(),
            3 => self.d.as_ref(),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        match i {
            0 => self.a.as_mut(),
            1 => self.b.as_mut(),
            2 => self.c.as_mut(),
            3 => self.d.as_mut(),
            _ => None,
        }
    }
    pub fn clear(&mut self) {
        self.a = None;
        self.b = None;
        self.c = None;
        self.d = None;
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { q: self, i: 0 }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
        IterMut { a: self.a.as_mut(), b: self.b.as_mut(), c: self.c.as_mut(), d: self.d.as_mut() }
    }
    pub fn drain(&mut self, _: std::ops::RangeFull) -> IntoIter<T> {
        IntoIter(std::mem::take(self))
    }
    pub fn append(&mut self, o: &mut VecDeque<T>) {
        while let Some(t) = o.pop_front() {
            self.push_back(t)
        }
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
}
impl<T> Default for VecDeque<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for VecDeque<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("VecDeque")
    }
}
impl<T> Index<usize> for VecDeque<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.get(i).expect("Out of bounds access")
    }
}
impl<T> IndexMut<usize> for VecDeque<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        self.get_mut(i).expect("Out of bounds access")
    }
}
pub struct Iter<'a, T> {
    q: &'a VecDeque<T>,
    i: usize,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let r = self.q.get(self.i);
        self.i += 1;
        r
    }
}
pub struct IterMut<'a, T> {
    a: Option<&'a mut T>,
    b: Option<&'a mut T>,
    c: Option<&'a mut T>,
    d: Option<&'a mut T>,
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        let r = self.a.take();
        self.a = self.b.take();
        self.b = self.c.take();
        self.c = self.d.take();
        r
    }
}
pub struct IntoIter<T>(VecDeque<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop_front()
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        self.0.pop_back()
    }
}
impl<T> IntoIterator for VecDeque<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a VecDeque<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut VecDeque<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> IterMut<'a, T> {
        self.iter_mut()
    }
}
impl<T> Extend<T> for VecDeque<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.push_back(t)
        }
    }
}
impl<T> FromIterator<T> for VecDeque<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut q = Self::new();
        q.extend(it);
        q
    }
}
impl<T> From<Vec<T>> for VecDeque<T> {
    fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}
