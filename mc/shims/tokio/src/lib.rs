//! tokio's interface on top of the model checker: tasks, time, locks and the network are replaced; the rest is tokio's.
pub use tokio_real::*;

pub mod io;
pub mod net;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

/// What `std::sync` is for the code under test (see gen.py)
pub mod vmc_sync {
    pub use parking_lot::poison::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;

    /// Atomics with a scheduling point before every access
    pub mod atomic {
        pub use std::sync::atomic::{compiler_fence, fence, AtomicPtr, Ordering};

        macro_rules! atomic {
            ($name:ident, $t:ty, [$($op:ident),*]) => {
                #[derive(Default, Debug)]
                pub struct $name(std::sync::atomic::$name);
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                #[allow(deprecated)]
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$name::new(v))
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        vmc::preempt("atomic load");
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        vmc::preempt("atomic store");
                        self.0.store(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        vmc::preempt("atomic compare_exchange");
                        self.0.compare_exchange(a, b, x, y)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, x, y)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, x: Ordering, y: Ordering, f: F) -> Result<$t, $t> {
                        vmc::preempt("atomic fetch_update");
                        self.0.fetch_update(x, y, f)
                    }
                    $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                        vmc::preempt("atomic update");
                        self.0.$op(v, o)
                    })*
                }
            };
        }
        atomic!(AtomicBool, bool, [swap, fetch_and, fetch_or, fetch_xor, fetch_nand]);
        macro_rules! ints {
            ($($name:ident $t:ty),*) => {
                $(atomic!($name, $t, [swap, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min]);)*
            };
        }
        ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    }
}
