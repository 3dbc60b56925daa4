//! libFuzzer as the source of the random numbers of a property's generator.
//! `RUP_FUZZ_ID` names the property, `RUP_FUZZ_DIR` takes the results, `RUP_FUZZ_N` numbers the process.
#![no_main]

use libfuzzer_sys::fuzz_target;
use rup_check::guided::{Guided, Input};
use rup_check::with_prop;
use std::path::Path;
use std::sync::Mutex;

struct Only(Option<Box<dyn Input>>);
// SAFETY: libFuzzer calls the target and the exit handler from one thread
unsafe impl Send for Only {}

static INPUT: Mutex<Only> = Mutex::new(Only(None));

extern "C" fn at_exit() {
    if let Ok(mut i) = INPUT.try_lock() {
        if let Some(i) = i.0.as_mut() {
            i.save();
        }
    }
}

fn var(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| {
        eprintln!("{} is not set", k);
        std::process::exit(2)
    })
}

fn start() -> Box<dyn Input> {
    // SAFETY: registers a plain function
    unsafe { libc_atexit(at_exit) };
    let (id, dir, n) = (var("RUP_FUZZ_ID"), var("RUP_FUZZ_DIR"), var("RUP_FUZZ_N").parse().unwrap_or(0));
    with_prop!(id.as_str(), p, Box::new(Guided::new(p, Path::new(&dir), n)), std::process::exit(2))
}

extern "C" {
    #[link_name = "atexit"]
    fn libc_atexit(f: extern "C" fn()) -> i32;
    fn _exit(code: i32) -> !;
}

fuzz_target!(|data: &[u8]| {
    let good = INPUT.lock().unwrap().0.get_or_insert_with(start).one(data);
    if !good {
        // SAFETY: leaves at once; the failing case is saved
        unsafe { _exit(76) };
    }
});
