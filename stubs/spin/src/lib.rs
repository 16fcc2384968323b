//! Stands in for the spin crate where schedules are explored: the same locks,
//! announced to the scheduler.
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{self, TryLockError};
use xh_sched::{point, Kind};

pub mod mutex {
    pub use super::{Mutex, MutexGuard};
    pub mod spin {
        pub use super::super::{Mutex as SpinMutex, MutexGuard as SpinMutexGuard};
    }
    pub use self::spin::{SpinMutex, SpinMutexGuard};
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(Option<sync::MutexGuard<'a, T>>, usize);

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex(sync::Mutex::new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.0 as *const _ as *const () as usize
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        let a = self.addr();
        point(Kind::Lock, a);
        loop {
            match self.0.try_lock() {
                Ok(g) => return MutexGuard(Some(g), a),
                // a spin lock does not know about poisoning
                Err(TryLockError::Poisoned(e)) => return MutexGuard(Some(e.into_inner()), a),
                Err(TryLockError::WouldBlock) if point(Kind::Blocked, a) => {}
                Err(TryLockError::WouldBlock) => {
                    let g = self.0.lock().unwrap_or_else(|e| e.into_inner());
                    return MutexGuard(Some(g), a);
                }
            }
        }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        let a = self.addr();
        point(Kind::Atomic, a);
        match self.0.try_lock() {
            Ok(g) => Some(MutexGuard(Some(g), a)),
            Err(TryLockError::Poisoned(e)) => Some(MutexGuard(Some(e.into_inner()), a)),
            Err(TryLockError::WouldBlock) => None,
        }
    }
    pub fn is_locked(&self) -> bool {
        matches!(self.0.try_lock(), Err(TryLockError::WouldBlock))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0 = None;
        point(Kind::Unlocked, self.1);
    }
}
