pub use tokio_real::sync::*;

use std::ops::{Deref, DerefMut};
use std::sync::Arc;

use tokio_real::sync as real;

/// Wraps a guard so that its release is a scheduling point.
macro_rules! guard {
    ($name:ident, <$lt:lifetime, $t:ident>, $inner:ty) => {
        #[derive(Debug)]
        pub struct $name<$lt, $t: ?Sized>(Option<$inner>);
        impl<$lt, $t: ?Sized> Deref for $name<$lt, $t> {
            type Target = $t;
            fn deref(&self) -> &$t {
                self.0.as_ref().unwrap()
            }
        }
        impl<$lt, $t: ?Sized> Drop for $name<$lt, $t> {
            fn drop(&mut self) {
                vmc::preempt("guard release");
            }
        }
    };
}
guard!(RwLockReadGuard, <'a, T>, real::RwLockReadGuard<'a, T>);
guard!(RwLockWriteGuard, <'a, T>, real::RwLockWriteGuard<'a, T>);
guard!(MutexGuard, <'a, T>, real::MutexGuard<'a, T>);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(mut self) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard(self.0.take().map(real::RwLockWriteGuard::downgrade))
    }
}

/// A guard that keeps its lock alive (the guard is dropped first)
macro_rules! owned_guard {
    ($name:ident, $lock:ident, $guard:ident) => {
        #[derive(Debug)]
        pub struct $name<T: ?Sized + 'static>($guard<'static, T>, Arc<$lock<T>>);
        impl<T: ?Sized> Deref for $name<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
    };
}
owned_guard!(OwnedRwLockReadGuard, RwLock, RwLockReadGuard);
owned_guard!(OwnedRwLockWriteGuard, RwLock, RwLockWriteGuard);
owned_guard!(OwnedMutexGuard, Mutex, MutexGuard);
unsafe fn forever<T: ?Sized>(t: &T) -> &'static T {
    &*(t as *const T)
}
impl<T: ?Sized> DerefMut for OwnedRwLockWriteGuard<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T: ?Sized> OwnedRwLockWriteGuard<T> {
    pub fn downgrade(self) -> OwnedRwLockReadGuard<T> {
        OwnedRwLockReadGuard(self.0.downgrade(), self.1)
    }
}
#[derive(Debug, Default)]
pub struct RwLock<T: ?Sized>(real::RwLock<T>);
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        Self(real::RwLock::new(t))
    }
    pub const fn const_new(t: T) -> Self {
        Self(real::RwLock::const_new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized + 'static> RwLock<T> {
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        vmc::preempt("rwlock read");
        let g = unsafe { forever(&*self) }.0.read().await;
        OwnedRwLockReadGuard(RwLockReadGuard(Some(g)), self)
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        vmc::preempt("rwlock write");
        let g = unsafe { forever(&*self) }.0.write().await;
        OwnedRwLockWriteGuard(RwLockWriteGuard(Some(g)), self)
    }
    pub fn try_read_owned(self: Arc<Self>) -> Result<OwnedRwLockReadGuard<T>, real::TryLockError> {
        vmc::preempt("rwlock try_read");
        let g = unsafe { forever(&*self) }.0.try_read()?;
        Ok(OwnedRwLockReadGuard(RwLockReadGuard(Some(g)), self))
    }
    pub fn try_write_owned(self: Arc<Self>) -> Result<OwnedRwLockWriteGuard<T>, real::TryLockError> {
        vmc::preempt("rwlock try_write");
        let g = unsafe { forever(&*self) }.0.try_write()?;
        Ok(OwnedRwLockWriteGuard(RwLockWriteGuard(Some(g)), self))
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        vmc::preempt("rwlock read");
        RwLockReadGuard(Some(self.0.read().await))
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        vmc::preempt("rwlock write");
        RwLockWriteGuard(Some(self.0.write().await))
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, real::TryLockError> {
        vmc::preempt("rwlock try_read");
        self.0.try_read().map(|g| RwLockReadGuard(Some(g)))
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, real::TryLockError> {
        vmc::preempt("rwlock try_write");
        self.0.try_write().map(|g| RwLockWriteGuard(Some(g)))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}

#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized>(real::Mutex<T>);
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Self(real::Mutex::new(t))
    }
    pub const fn const_new(t: T) -> Self {
        Self(real::Mutex::const_new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized + 'static> Mutex<T> {
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        vmc::preempt("mutex lock");
        let g = unsafe { forever(&*self) }.0.lock().await;
        OwnedMutexGuard(MutexGuard(Some(g)), self)
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, real::TryLockError> {
        vmc::preempt("mutex try_lock");
        let g = unsafe { forever(&*self) }.0.try_lock()?;
        Ok(OwnedMutexGuard(MutexGuard(Some(g)), self))
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        vmc::preempt("mutex lock");
        MutexGuard(Some(self.0.lock().await))
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, real::TryLockError> {
        vmc::preempt("mutex try_lock");
        self.0.try_lock().map(|g| MutexGuard(Some(g)))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}

#[derive(Debug)]
pub struct Semaphore(real::Semaphore);

#[derive(Debug)]
pub struct SemaphorePermit<'a>(Option<real::SemaphorePermit<'a>>);
#[derive(Debug)]
pub struct OwnedSemaphorePermit(Option<real::SemaphorePermit<'static>>, Arc<Semaphore>);

impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        if self.0.is_some() {
            vmc::preempt("permit release");
        }
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        if self.0.is_some() {
            vmc::preempt("permit release");
        }
    }
}
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.0.take().unwrap().forget();
    }
    pub fn num_permits(&self) -> usize {
        self.0.as_ref().unwrap().num_permits()
    }
    pub fn split(&mut self, n: usize) -> Option<Self> {
        self.0.as_mut().unwrap().split(n).map(|p| Self(Some(p)))
    }
    pub fn merge(&mut self, mut other: Self) {
        self.0.as_mut().unwrap().merge(other.0.take().unwrap());
    }
}
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.0.take().unwrap().forget();
    }
    pub fn num_permits(&self) -> usize {
        self.0.as_ref().unwrap().num_permits()
    }
    pub fn split(&mut self, n: usize) -> Option<Self> {
        let s = self.1.clone();
        self.0.as_mut().unwrap().split(n).map(|p| Self(Some(p), s))
    }
    pub fn semaphore(&self) -> &Arc<Semaphore> {
        &self.1
    }
    pub fn merge(&mut self, mut other: Self) {
        self.0.as_mut().unwrap().merge(other.0.take().unwrap());
    }
}

impl Semaphore {
    pub const MAX_PERMITS: usize = real::Semaphore::MAX_PERMITS;
    pub fn new(n: usize) -> Self {
        Self(real::Semaphore::new(n))
    }
    pub const fn const_new(n: usize) -> Self {
        Self(real::Semaphore::const_new(n))
    }
    pub fn available_permits(&self) -> usize {
        vmc::preempt("semaphore available");
        self.0.available_permits()
    }
    pub fn add_permits(&self, n: usize) {
        vmc::preempt("semaphore add");
        self.0.add_permits(n)
    }
    pub fn forget_permits(&self, n: usize) -> usize {
        self.0.forget_permits(n)
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, real::AcquireError> {
        vmc::preempt("semaphore acquire");
        self.0.acquire().await.map(|p| SemaphorePermit(Some(p)))
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, real::AcquireError> {
        vmc::preempt("semaphore acquire");
        self.0.acquire_many(n).await.map(|p| SemaphorePermit(Some(p)))
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, real::TryAcquireError> {
        vmc::preempt("semaphore try_acquire");
        self.0.try_acquire().map(|p| SemaphorePermit(Some(p)))
    }
    pub fn try_acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, real::TryAcquireError> {
        vmc::preempt("semaphore try_acquire");
        self.0.try_acquire_many(n).map(|p| SemaphorePermit(Some(p)))
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, real::AcquireError> {
        vmc::preempt("semaphore acquire");
        unsafe { forever(&self.0) }.acquire().await.map(|p| OwnedSemaphorePermit(Some(p), self.clone()))
    }
    pub async fn acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, real::AcquireError> {
        vmc::preempt("semaphore acquire");
        unsafe { forever(&self.0) }.acquire_many(n).await.map(|p| OwnedSemaphorePermit(Some(p), self.clone()))
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, real::TryAcquireError> {
        vmc::preempt("semaphore try_acquire");
        unsafe { forever(&self.0) }.try_acquire().map(|p| OwnedSemaphorePermit(Some(p), self.clone()))
    }
    pub fn try_acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, real::TryAcquireError> {
        vmc::preempt("semaphore try_acquire");
        unsafe { forever(&self.0) }.try_acquire_many(n).map(|p| OwnedSemaphorePermit(Some(p), self.clone()))
    }
    pub fn close(&self) {
        vmc::preempt("semaphore close");
        self.0.close()
    }
    pub fn is_closed(&self) -> bool {
        vmc::preempt("semaphore is_closed");
        self.0.is_closed()
    }
}
