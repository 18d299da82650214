//! Verification stand-in for `parking_lot::Mutex`: a sequential lock. Locking it while it is already
//! held (a self-deadlock with the real, non re-entrant lock) is an assertion failure.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct Mutex<T> {
    locked: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: Send> Send for Mutex<T> {}
unsafe impl<T: Send> Sync for Mutex<T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        assert!(!self.locked.get(), "self-deadlock: mutex locked while already held");
        self.locked.set(true);
        MutexGuard { m: self }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if self.locked.get() {
            None
        } else {
            Some(self.lock())
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        unsafe { &mut *self.data.get() }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
pub struct MutexGuard<'a, T> {
    m: &'a Mutex<T>,
}
impl<'a, T> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<'a, T> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<'a, T> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        self.m.locked.set(false);
    }
}
impl<'a, T: std::fmt::Display> std::fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: std::fmt::Debug> std::fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
