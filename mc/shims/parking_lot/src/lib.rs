//! parking_lot's locks on the model checker: every acquisition is a scheduling point; writers are preferred.
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::Mutex as StdMutex;

#[derive(Default)]
struct Raw {
    st: StdMutex<RawState>,
}
#[derive(Default)]
struct RawState {
    readers: usize,
    writer: bool,
    waiting_writers: usize,
    waiters: Vec<vmc::Tid>,
}
impl Raw {
    const fn new() -> Self {
        Self { st: StdMutex::new(RawState { readers: 0, writer: false, waiting_writers: 0, waiters: Vec::new() }) }
    }
    fn park(&self) {
        match vmc::current() {
            Some(t) => {
                self.st.lock().unwrap().waiters.push(t);
                vmc::park_sync();
            }
            None => std::thread::yield_now(),
        }
    }
    fn wake(&self) {
        let w = std::mem::take(&mut self.st.lock().unwrap().waiters);
        for t in w {
            vmc::unpark_sync(t);
        }
    }
    fn try_shared(&self, recursive: bool) -> bool {
        let mut s = self.st.lock().unwrap();
        if s.writer || (s.waiting_writers > 0 && !recursive) {
            return false;
        }
        s.readers += 1;
        true
    }
    fn shared(&self) {
        vmc::preempt("lock read");
        while !self.try_shared(false) {
            self.park();
        }
    }
    fn try_exclusive(&self) -> bool {
        let mut s = self.st.lock().unwrap();
        if s.writer || s.readers > 0 {
            return false;
        }
        s.writer = true;
        true
    }
    fn exclusive(&self) {
        vmc::preempt("lock write");
        if self.try_exclusive() {
            return;
        }
        self.st.lock().unwrap().waiting_writers += 1;
        loop {
            self.park();
            if self.try_exclusive() {
                break;
            }
        }
        self.st.lock().unwrap().waiting_writers -= 1;
    }
    fn unshared(&self) {
        let z = {
            let mut s = self.st.lock().unwrap();
            s.readers -= 1;
            s.readers == 0
        };
        if z {
            self.wake();
        }
    }
    fn unexclusive(&self) {
        self.st.lock().unwrap().writer = false;
        self.wake();
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
pub struct MappedMutexGuard<'a, T: ?Sized>(&'a Raw, *mut T);
pub struct MappedRwLockWriteGuard<'a, T: ?Sized>(&'a Raw, *mut T);
pub struct MappedRwLockReadGuard<'a, T: ?Sized>(&'a Raw, *const T);
macro_rules! mapped {
    ($name:ident, $un:ident) => {
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.1 }
            }
        }
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                self.0.$un();
            }
        }
        unsafe impl<T: ?Sized + Sync> Sync for $name<'_, T> {}
    };
}
mapped!(MappedMutexGuard, unexclusive);
mapped!(MappedRwLockWriteGuard, unexclusive);
mapped!(MappedRwLockReadGuard, unshared);
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.1 }
    }
}
impl<T: ?Sized> DerefMut for MappedRwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.1 }
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMutexGuard<'a, U> {
        let l = s.0;
        std::mem::forget(s);
        MappedMutexGuard(&l.raw, f(unsafe { &mut *l.v.get() }))
    }
}
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&T) -> &U) -> MappedRwLockReadGuard<'a, U> {
        let l = s.0;
        std::mem::forget(s);
        MappedRwLockReadGuard(&l.raw, f(unsafe { &*l.v.get() }))
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedRwLockWriteGuard<'a, U> {
        let l = s.0;
        std::mem::forget(s);
        MappedRwLockWriteGuard(&l.raw, f(unsafe { &mut *l.v.get() }))
    }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}
pub mod poison;
pub type RwLockUpgradableReadGuard<'a, T> = RwLockWriteGuard<'a, T>;

impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { raw: Raw::new(), v: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.shared();
        RwLockReadGuard(self, std::marker::PhantomData)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        vmc::preempt("lock read");
        while !self.raw.try_shared(true) {
            self.raw.park();
        }
        RwLockReadGuard(self, std::marker::PhantomData)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.exclusive();
        RwLockWriteGuard(self, std::marker::PhantomData)
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        self.write()
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        self.try_write()
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        vmc::preempt("lock try_read");
        self.raw.try_shared(false).then(|| RwLockReadGuard(self, std::marker::PhantomData))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        vmc::preempt("lock try_write");
        self.raw.try_exclusive().then(|| RwLockWriteGuard(self, std::marker::PhantomData))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        let s = self.raw.st.lock().unwrap();
        s.writer || s.readers > 0
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        {
            let mut st = l.raw.st.lock().unwrap();
            st.writer = false;
            st.readers += 1;
        }
        l.raw.wake();
        RwLockReadGuard(l, std::marker::PhantomData)
    }
    pub fn upgrade(s: Self) -> Self {
        s
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unshared();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unexclusive();
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RwLock")
    }
}

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>, std::marker::PhantomData<*const ()>);
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { raw: Raw::new(), v: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.exclusive();
        MutexGuard(self, std::marker::PhantomData)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        vmc::preempt("lock try_lock");
        self.raw.try_exclusive().then(|| MutexGuard(self, std::marker::PhantomData))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.st.lock().unwrap().writer
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unexclusive();
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Mutex")
    }
}
macro_rules! guard_fmt {
    ($($name:ident),*) => {
        $(impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        })*
    };
}
guard_fmt!(MutexGuard, RwLockReadGuard, RwLockWriteGuard, MappedMutexGuard, MappedRwLockReadGuard, MappedRwLockWriteGuard);
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
