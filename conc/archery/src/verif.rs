//! What the explorer sees of the pointers: every access to a node, to a pointer to a node, and (for the kind that is
//! not meant for threads) to a reference count is a marked access whose happens-before order loom knows.  A race is
//! remembered, not raised, so that the execution finishes and the explorer can report it.
use loom::cell::UnsafeCell;
use loom::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::rc::Rc;
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};

std::thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static RACE: RefCell<Option<String>> = const { RefCell::new(None) };
    static COUNT_RACE: RefCell<Option<String>> = const { RefCell::new(None) };
}

std::thread_local! {
    static EXECUTION: Cell<u64> = const { Cell::new(0) };
    static STEP: RefCell<Option<Rc<AtomicUsize>>> = const { RefCell::new(None) };
    static POOL: RefCell<(usize, Vec<Rc<AtomicU64>>)> = const { RefCell::new((0, vec![])) };
    static MARKS: RefCell<(usize, Vec<Rc<Mark>>)> = const { RefCell::new((0, vec![])) };
}
/// Which execution this is.
pub fn execution() -> u64 {
    EXECUTION.with(|e| e.get())
}
/// A point at which the explorer may switch to another thread, and which orders nothing.
pub fn step() {
    let s = STEP.with(|s| s.borrow().clone());
    if let Some(s) = s {
        s.fetch_add(1, Relaxed);
    }
}
/// One of the objects made before the threads of this execution, holding 0.
pub(crate) fn pooled() -> Option<Rc<AtomicU64>> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.0 += 1;
        p.1.get(p.0 - 1).cloned()
    })
}
pub(crate) fn pooled_mark() -> Option<Rc<Mark>> {
    MARKS.with(|p| {
        let mut p = p.borrow_mut();
        p.0 += 1;
        p.1.get(p.0 - 1).cloned()
    })
}
/// Called at the start of an execution, before there are threads.
pub fn reset() {
    EXECUTION.with(|e| e.set(e.get() + 1));
    STEP.with(|s| s.borrow_mut().replace(Rc::new(AtomicUsize::new(0))));
    if cfg!(librrb_verif_std) {
        POOL.with(|p| p.replace((0, (0..48).map(|_| Rc::new(AtomicU64::new(0))).collect())));
        MARKS.with(|p| p.replace((0, (0..48).map(|_| Rc::new(Mark::new())).collect())));
    }
    LIVE.with(|l| l.set(0));
    RACE.with(|r| *r.borrow_mut() = None);
    COUNT_RACE.with(|r| *r.borrow_mut() = None);
}
/// Nodes that have not been released.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// The first unordered conflicting access to a node or a pointer.
pub fn race() -> Option<String> {
    RACE.with(|r| r.borrow().clone())
}
/// The first unordered conflicting access to a reference count that is not atomic.
pub fn count_race() -> Option<String> {
    COUNT_RACE.with(|r| r.borrow().clone())
}
pub(crate) fn born() {
    LIVE.with(|l| l.set(l.get() + 1));
}
pub(crate) fn gone() {
    LIVE.with(|l| l.set(l.get() - 1));
}

/// A place whose reads and writes must be ordered.
pub struct Mark(UnsafeCell<()>, bool);

impl Mark {
    pub fn new() -> Mark {
        Mark(UnsafeCell::new(()), false)
    }
    pub(crate) fn of_count() -> Mark {
        Mark(UnsafeCell::new(()), true)
    }
    fn note(&self, what: &str, f: impl FnOnce()) {
        let slot = if self.1 { &COUNT_RACE } else { &RACE };
        if slot.with(|r| r.borrow().is_some()) {
            return;
        }
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            slot.with(|r| *r.borrow_mut() = Some(what.to_string()));
        }
    }
    pub fn read(&self, what: &str) {
        self.note(what, || self.0.with(|_| ()))
    }
    pub fn write(&self, what: &str) {
        self.note(what, || self.0.with_mut(|_| ()))
    }
}
impl Default for Mark {
    fn default() -> Self {
        Mark::new()
    }
}
