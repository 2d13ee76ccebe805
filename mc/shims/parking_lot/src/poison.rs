//! The interface of std's locks on the model checker's (a real one would block the checker's own thread).
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, Ordering};
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

macro_rules! guard {
    ($name:ident, $inner:ident) => {
        #[allow(dead_code)]
        pub struct $name<'a, T: ?Sized>(super::$inner<'a, T>, &'a AtomicBool, bool);
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
macro_rules! exclusive {
    ($name:ident) => {
        impl<T: ?Sized> DerefMut for $name<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.0
            }
        }
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                if !self.2 && std::thread::panicking() {
                    self.1.store(true, Ordering::SeqCst);
                }
            }
        }
    };
}
guard!(MutexGuard, MutexGuard);
guard!(RwLockReadGuard, RwLockReadGuard);
guard!(RwLockWriteGuard, RwLockWriteGuard);
exclusive!(MutexGuard);
exclusive!(RwLockWriteGuard);

fn result<G>(g: G, p: &AtomicBool) -> LockResult<G> {
    if p.load(Ordering::SeqCst) {
        Err(PoisonError::new(g))
    } else {
        Ok(g)
    }
}
fn try_result<G>(g: Option<G>, p: &AtomicBool) -> TryLockResult<G> {
    match g {
        None => Err(TryLockError::WouldBlock),
        Some(g) if p.load(Ordering::SeqCst) => Err(TryLockError::Poisoned(PoisonError::new(g))),
        Some(g) => Ok(g),
    }
}

macro_rules! lock {
    ($name:ident) => {
        #[derive(Default)]
        pub struct $name<T: ?Sized> {
            poisoned: AtomicBool,
            l: super::$name<T>,
        }
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T> $name<T> {
            pub const fn new(t: T) -> Self {
                Self { poisoned: AtomicBool::new(false), l: super::$name::new(t) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                result(self.l.into_inner(), &self.poisoned)
            }
        }
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool {
                self.poisoned.load(Ordering::SeqCst)
            }
            pub fn clear_poison(&self) {
                self.poisoned.store(false, Ordering::SeqCst);
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                result(self.l.get_mut(), &self.poisoned)
            }
        }
        impl<T: ?Sized> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, stringify!($name))
            }
        }
    };
}
lock!(Mutex);
lock!(RwLock);
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        result(MutexGuard(self.l.lock(), &self.poisoned, std::thread::panicking()), &self.poisoned)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        try_result(self.l.try_lock().map(|g| MutexGuard(g, &self.poisoned, std::thread::panicking())), &self.poisoned)
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        result(RwLockReadGuard(self.l.read(), &self.poisoned, true), &self.poisoned)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        result(RwLockWriteGuard(self.l.write(), &self.poisoned, std::thread::panicking()), &self.poisoned)
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        try_result(self.l.try_read().map(|g| RwLockReadGuard(g, &self.poisoned, true)), &self.poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        try_result(self.l.try_write().map(|g| RwLockWriteGuard(g, &self.poisoned, std::thread::panicking())), &self.poisoned)
    }
}
