//! The count of the current thread, and the point at which it has had enough.
use core::cell::Cell;

std::thread_local! {
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static STOP: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const ENOUGH: &str = "far more work than documented";

/// Starts a count; the thread panics when it passes `stop`.
pub fn start(stop: u64) {
    SEEN.with(|c| c.set(0));
    STOP.with(|c| c.set(stop));
}
/// The count so far, and no stop any more.
pub fn seen() -> u64 {
    let _ = STOP.try_with(|c| c.set(u64::MAX));
    SEEN.with(|c| c.get())
}
#[inline(always)]
pub(crate) fn one() {
    let _ = SEEN.try_with(|c| {
        let n = c.get() + 1;
        c.set(n);
        let stop = STOP.with(|s| s.get());
        if n > stop {
            STOP.with(|s| s.set(u64::MAX));
            panic!("{}", ENOUGH);
        }
    });
}
