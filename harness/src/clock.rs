//! The wall clock as this thread sees it.
//!
//! What the library calls the current year depends on the clock, which a check must not set. The
//! function of the C library through which every clock is read is therefore defined here, in the
//! executable, where it takes precedence.

use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<i64>> = const { Cell::new(None) };
}

/// Lets the wall clock stand at this second, for this thread, while `f` runs.
pub fn at<R>(now: Option<i64>, f: impl FnOnce() -> R) -> R {
    struct Reset(Option<i64>);
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|n| n.set(self.0));
        }
    }
    let _reset = Reset(NOW.with(|n| n.replace(now)));
    f()
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, out: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        if let Ok(Some(now)) = NOW.try_with(|n| n.get()) {
            (*out).tv_sec = now;
            (*out).tv_nsec = 0;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, out) as libc::c_int
}
