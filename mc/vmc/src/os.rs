//! Interposed sources of nondeterminism: the wall clock and the operating system's randomness.

use std::cell::Cell;

/// The wall clock at the start of every execution (seconds since the epoch)
pub const EPOCH: u64 = 1_750_000_000;

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static SKEW: Cell<i64> = const { Cell::new(0) };
    static FIXED: Cell<bool> = const { Cell::new(false) };
}

/// Fixes what a thread outside of an execution draws
pub fn fix_rng(seed: Option<u64>) {
    FIXED.with(|f| f.set(seed.is_some()));
    RNG.with(|r| r.set(seed.unwrap_or(0)));
}

pub fn begin(seed: u64) {
    SIM.with(|s| s.set(true));
    SKEW.with(|s| s.set(0));
    RNG.with(|r| r.set(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1));
}
pub fn end() {
    SIM.with(|s| s.set(false));
}

/// Offsets the wall clock (not the timers) of the execution
pub fn set_skew(ns: i64) {
    SKEW.with(|s| s.set(ns));
}

thread_local! {
    static PRIMED: Cell<Option<[u8; 32]>> = const { Cell::new(None) };
}
/// What the next 32 bytes that this thread draws at once will be
pub fn prime(v: [u8; 32]) {
    PRIMED.with(|p| p.set(Some(v)));
}

/// Runs a function with its own, fixed source of randomness
pub fn with_rng<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let old = (RNG.with(Cell::get), SIM.with(Cell::get));
    RNG.with(|c| c.set(seed));
    SIM.with(|c| c.set(true));
    let r = f();
    RNG.with(|c| c.set(old.0));
    SIM.with(|c| c.set(old.1));
    r
}

fn next() -> u64 {
    RNG.with(|r| {
        let mut z = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn raw(num: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// What some libraries ask for randomness through
///
/// # Safety
/// As the system call
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == 318 {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    raw(num, [a, b, c, d, e, f])
}

/// A virtual clock for gate checks that run outside of an execution (process wide): nanoseconds since the epoch, 0 = off
pub static GLOBAL_REALTIME: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

/// # Safety
/// `ts` points to a timespec
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if clock == 0 || clock == 5 {
        let g = GLOBAL_REALTIME.load(std::sync::atomic::Ordering::Relaxed);
        if g != 0 {
            (*ts).sec = g / 1_000_000_000;
            (*ts).nsec = g % 1_000_000_000;
            return 0;
        }
    }
    let sim = SIM.try_with(Cell::get).unwrap_or(false);
    if sim {
        let now = crate::now();
        if clock == 0 || clock == 5 {
            let skew = SKEW.with(Cell::get);
            let total = (EPOCH as i64) * 1_000_000_000 + now.as_nanos() as i64 + skew;
            (*ts).sec = total.div_euclid(1_000_000_000);
            (*ts).nsec = total.rem_euclid(1_000_000_000);
        } else {
            (*ts).sec = 1000 + now.as_secs() as i64;
            (*ts).nsec = now.subsec_nanos() as i64;
        }
        return 0;
    }
    raw(228, [clock as i64, ts as i64, 0, 0, 0, 0]) as i32
}

/// # Safety
/// `buf` points to `len` writable bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let sim = SIM.try_with(Cell::get).unwrap_or(false) || FIXED.try_with(Cell::get).unwrap_or(false);
    if sim && len == 32 {
        if let Some(v) = PRIMED.try_with(Cell::take).ok().flatten() {
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, 32);
            return 32;
        }
    }
    if sim {
        let mut i = 0;
        while i < len {
            let v = next().to_le_bytes();
            for b in v {
                if i < len {
                    *buf.add(i) = b;
                    i += 1;
                }
            }
        }
        return len as isize;
    }
    raw(318, [buf as i64, len as i64, flags as i64, 0, 0, 0]) as isize
}
