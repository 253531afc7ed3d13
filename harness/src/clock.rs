//! Virtual time.  One world runs at a time per process, so the clock is global.
//! Without std the library takes a `fn() -> u64`; with std it uses `std::time::Instant`, which ends
//! in `clock_gettime`: this program defines that symbol itself and answers from the virtual clock.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub static NOW_US: AtomicU64 = AtomicU64::new(START);
pub static VIRTUAL: AtomicBool = AtomicBool::new(false);
pub const START: u64 = 1_000_000_000;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

fn real(id: i32, tp: *mut Timespec) -> i32 {
    unsafe { syscall(228, id as i64, tp) as i32 }
}

/// # Safety
/// same contract as the C function
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, tp: *mut Timespec) -> i32 {
    if VIRTUAL.load(Ordering::SeqCst) && !tp.is_null() {
        let us = NOW_US.load(Ordering::SeqCst);
        (*tp).sec = (us / 1_000_000) as i64;
        (*tp).nsec = ((us % 1_000_000) * 1000) as i64;
        return 0;
    }
    real(id, tp)
}

pub fn now() -> u64 {
    NOW_US.load(Ordering::SeqCst)
}

#[cfg(not(miri))]
pub fn real_ms() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    real(1, &mut t);
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}
#[cfg(miri)]
pub fn real_ms() -> u64 {
    0
}

pub fn instant() -> tftp_dus::std_compat::time::Instant {
    #[cfg(feature = "mt")]
    return std::time::Instant::now();
    #[cfg(not(feature = "mt"))]
    tftp_dus::std_compat::time::Instant::from_time(now)
}
