//! Lets reading a directory fail, which cannot be provoked from outside without privileges.
//!
//! As with the clock, the function of the C library is defined here and hands on to the real one.

use std::cell::Cell;

thread_local! {
    /// how many more entries are delivered, and the error that comes then
    static FAIL: Cell<Option<(usize, i32)>> = const { Cell::new(None) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` while listing any directory fails after so many entries (`.` and `..` among them).
/// The second result says whether that has happened.
pub fn after<R>(entries: usize, errno: i32, f: impl FnOnce() -> R) -> (R, bool) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FAIL.with(|n| n.set(None));
        }
    }
    FAILED.with(|f| f.set(false));
    FAIL.with(|n| n.set(Some((entries, errno))));
    let _reset = Reset;
    let r = f();
    (r, FAILED.with(|f| f.get()))
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Ok(Some((left, errno))) = FAIL.try_with(|n| n.get()) {
        if left == 0 {
            FAILED.with(|f| f.set(true));
            *libc::__errno_location() = errno;
            return std::ptr::null_mut();
        }
        FAIL.with(|n| n.set(Some((left - 1, errno))));
    }
    type Real = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    static REAL: std::sync::OnceLock<Real> = std::sync::OnceLock::new();
    let real = REAL.get_or_init(|| {
        let p = libc::dlsym(libc::RTLD_NEXT, c"readdir64".as_ptr());
        assert!(!p.is_null(), "readdir64 is not in the C library");
        std::mem::transmute::<*mut libc::c_void, Real>(p)
    });
    real(dir)
}
