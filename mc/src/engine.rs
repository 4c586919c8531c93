//! Exhaustive explorers: breadth-first search over operation histories, and flat enumeration of case lists.  Both run
//! on worker threads with a deterministic merge; each worker leaves the case it is working on in a slot file, so that
//! the supervising script can replay it when the process dies or hangs.
use crate::ops::{hist_text, Op};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub evals: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub bounds: Vec<String>,
    /// (case, what fails): breaches that are compared with the list of known findings instead of ending the run
    pub findings: Vec<(String, String)>,
    pub capped: bool,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n
        } else {
            self.counters.insert(k.into(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s())
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.evals += o.evals;
        self.traces += o.traces;
        for (k, v) in o.counters {
            self.count(&k, v)
        }
        for (k, v) in o.maxes {
            self.max(&k, v)
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
        self.bounds.extend(o.bounds);
        self.findings.extend(o.findings);
        self.capped |= o.capped;
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub part: String,
    pub case: String,
    pub msg: String,
}

pub type Res = Result<(), String>;

// ---------------------------------------------------------------- global run context

pub struct Run {
    pub threads: usize,
    pub beats: Vec<AtomicU64>,
    pub slots: Option<std::fs::File>,
    pub start: Instant,
    pub part: Mutex<String>,
    pub thorough: bool,
    pub deadline: AtomicU64, // ms since start after which explorations stop enlarging (reported as a cap)
}

pub static RUN: OnceLock<Run> = OnceLock::new();
pub fn run() -> &'static Run {
    RUN.get().unwrap()
}
pub fn thorough() -> bool {
    run().thorough
}

thread_local! { static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

pub const SLOT: usize = 1 << 16;

pub fn beat() {
    let r = run();
    r.beats[WORKER.with(|w| w.get())].store(r.start.elapsed().as_millis() as u64 + 1, Relaxed);
}

fn slot_write(text: &str) {
    let r = run();
    if let Some(f) = &r.slots {
        let part = r.part.lock().unwrap().clone();
        let mut b = format!("{}\t{}", part, text).into_bytes();
        b.truncate(SLOT - 1);
        b.push(0);
        let _ = f.write_all_at(&b, (WORKER.with(|w| w.get()) * SLOT) as u64);
    }
    beat();
}

fn slot_clear() {
    let r = run();
    if let Some(f) = &r.slots {
        let _ = f.write_all_at(&[0], (WORKER.with(|w| w.get()) * SLOT) as u64);
    }
    r.beats[WORKER.with(|w| w.get())].store(0, Relaxed);
}

pub fn past_deadline() -> bool {
    let r = run();
    r.start.elapsed().as_millis() as u64 > r.deadline.load(Relaxed)
}

// ---------------------------------------------------------------- panics as values

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{}{}", m, loc));
    }));
}

/// Runs `f`; a panic becomes an Err with its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    guard(f).is_err()
}

// ---------------------------------------------------------------- hashing of shapes

/// 128-bit hash of whatever is formatted into it.
pub struct Key(u64, u64);
impl Key {
    pub fn new() -> Key {
        Key(0xcbf2_9ce4_8422_2325, 0x9e37_79b9_7f4a_7c15)
    }
    pub fn add(&mut self, b: u64) {
        self.0 = (self.0 ^ b).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23) ^ self.1;
        self.1 = (self.1 ^ b.wrapping_mul(0xff51_afd7_ed55_8ccd)).wrapping_mul(0xc4ce_b9fe_1a85_ec53).rotate_left(31);
    }
    pub fn done(&self) -> u128 {
        let mut k = Key(self.0, self.1);
        for i in 0..4 {
            k.add(i)
        }
        (k.0 as u128) << 64 | k.1 as u128
    }
}
impl fmt::Write for Key {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(b));
        }
        self.add(s.len() as u64);
        Ok(())
    }
}

// ---------------------------------------------------------------- parallel enumeration

/// Runs `f(i)` for every i in 0..n on all workers; the violation with the least index wins.
pub fn par<T: Send>(n: usize, f: &(dyn Fn(usize, &mut Stats) -> Result<T, (String, String)> + Sync)) -> (Vec<Option<T>>, Stats, Option<Violation>) {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
    let total: Mutex<(Vec<(usize, T)>, Vec<(usize, Stats)>)> = Mutex::new((Vec::new(), Vec::new()));
    let threads = run().threads;
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, bad, total) = (&next, &stop, &bad, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    WORKER.with(|c| c.set(w));
                    let mut st = Stats::default();
                    let mut out = Vec::new();
                    while !stop.load(Relaxed) {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n {
                            break;
                        }
                        match f(i, &mut st) {
                            Ok(t) => out.push((i, t)),
                            Err((case, msg)) => {
                                let mut b = bad.lock().unwrap();
                                if b.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                    *b = Some((i, Violation { part: run().part.lock().unwrap().clone(), case, msg }));
                                }
                                stop.store(true, Relaxed);
                            }
                        }
                    }
                    slot_clear();
                    let mut t = total.lock().unwrap();
                    t.0.extend(out);
                    t.1.push((w, st));
                })
                .unwrap();
        }
    });
    let (outs, mut sts) = total.into_inner().unwrap();
    sts.sort_by_key(|x| x.0);
    let mut stats = Stats::default();
    for (_, s) in sts {
        stats.merge(s)
    }
    let mut v: Vec<Option<T>> = (0..n).map(|_| None).collect();
    for (i, t) in outs {
        v[i] = Some(t)
    }
    (v, stats, bad.into_inner().unwrap().map(|x| x.1))
}

/// Enumerates a list of histories, running `visit` on each.
pub fn each(cases: &[Vec<Op>], visit: &(dyn Fn(&[Op], &mut Stats) -> Res + Sync)) -> (Stats, Option<Violation>) {
    let (_, mut st, v) = par(cases.len(), &|i, st| {
        let text = hist_text(&cases[i]);
        slot_write(&text);
        crate::tok::reset();
        guard(|| visit(&cases[i], st)).and_then(|r| r).map_err(|m| (text, m))
    });
    st.states += cases.len() as u64;
    (st, v)
}

/// Enumerates numbered cases with a printable name.
pub fn each_n(n: usize, name: &(dyn Fn(usize) -> String + Sync), visit: &(dyn Fn(usize, &mut Stats) -> Res + Sync)) -> (Stats, Option<Violation>) {
    let (_, st, v) = par(n, &|i, st| {
        let text = name(i);
        slot_write(&text);
        crate::tok::reset();
        guard(|| visit(i, st)).and_then(|r| r).map_err(|m| (text, m))
    });
    (st, v)
}

// ---------------------------------------------------------------- breadth-first search over histories

/// Key of a state, its length and its height.
pub type Succ = (u128, usize, usize);

pub struct Space {
    /// histories from which the search starts
    pub seeds: Vec<Vec<Op>>,
    /// transition alphabet for a state of the given length
    pub alpha: fn(usize) -> Vec<Op>,
    /// successors longer than this are checked but not expanded
    pub max_len: usize,
    /// ... and neither are taller ones (concatenation can make trees of a few elements arbitrarily tall)
    pub max_height: usize,
    pub max_depth: usize,
    pub max_states: usize,
    /// how many different histories leading to the same shape are all kept and expanded
    pub multi: u8,
}

pub struct Found {
    nodes: Vec<(u32, Op, u32)>, // parent (u32::MAX for seeds, then `seed` index in op-less node), op, len
    seeds: Vec<Vec<Op>>,
    pub shapes: usize,
}

impl Found {
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn vlen(&self, i: usize) -> usize {
        self.nodes[i].2 as usize
    }
    pub fn hist(&self, mut i: usize) -> Vec<Op> {
        let mut tail = Vec::new();
        loop {
            let (p, op, _) = self.nodes[i];
            if p == u32::MAX {
                if let Op::SL(s) = op {
                    let mut h = self.seeds[s as usize].clone();
                    tail.reverse();
                    h.extend(tail);
                    return h;
                }
                unreachable!()
            }
            tail.push(op);
            i = p as usize;
        }
    }
    pub fn hists(&self) -> Vec<Vec<Op>> {
        (0..self.len()).map(|i| self.hist(i)).collect()
    }
}

pub type Trans<'a> = &'a (dyn Fn(&[Op], Op, &mut Stats) -> Result<Succ, String> + Sync);

/// Breadth-first search. `root` gives the key of a seed history, `trans` performs and checks one transition and
/// returns the successor's key and length, `visit` runs once per stored state.
pub fn bfs(space: &Space, root: &(dyn Fn(&[Op], &mut Stats) -> Result<Succ, String> + Sync), trans: Trans, visit: &(dyn Fn(&[Op], &mut Stats) -> Res + Sync)) -> (Found, Stats, Option<Violation>) {
    let mut found = Found { nodes: Vec::new(), seeds: space.seeds.clone(), shapes: 0 };
    let mut seen: HashMap<u128, u8> = HashMap::new();
    let mut stats = Stats::default();
    let (roots, st, v) = par(space.seeds.len(), &|i, st| {
        let text = hist_text(&space.seeds[i]);
        slot_write(&text);
        crate::tok::reset();
        guard(|| root(&space.seeds[i], st)).and_then(|r| r).map_err(|m| (text, m))
    });
    stats.merge(st);
    if v.is_some() {
        return (found, stats, v);
    }
    for (i, r) in roots.into_iter().enumerate() {
        if let Some((k, n, _)) = r {
            let c = seen.entry(k).or_insert(0);
            if *c < space.multi {
                *c += 1;
                found.nodes.push((u32::MAX, Op::SL(i as u32), n as u32));
            }
        }
    }
    let mut lo = 0;
    let mut depth = 0;
    loop {
        let hi = found.nodes.len();
        if lo == hi {
            break;
        }
        let expand = depth < space.max_depth && found.nodes.len() < space.max_states && !past_deadline();
        if !expand {
            // the frontier is visited, not expanded
            let fr: &Found = &found;
            let (_, st, v) = par(hi - lo, &|i, st| {
                let h = fr.hist(lo + i);
                let text = hist_text(&h);
                slot_write(&text);
                crate::tok::reset();
                guard(|| visit(&h, st)).and_then(|r| r).map_err(|m| (text, m))
            });
            stats.merge(st);
            if v.is_some() {
                return (found, stats, v);
            }
            if depth < space.max_depth {
                stats.capped = true
            }
            break;
        }
        let fr: &Found = &found;
        let (outs, st, v) = par(hi - lo, &|i, st| {
            let h = fr.hist(lo + i);
            let text = hist_text(&h);
            slot_write(&text);
            crate::tok::reset();
            guard(|| visit(&h, st)).and_then(|r| r).map_err(|m| (text.clone(), m))?;
            let mut succ = Vec::new();
            if fr.vlen(lo + i) <= space.max_len {
                for op in (space.alpha)(fr.vlen(lo + i)) {
                    beat();
                    crate::tok::reset();
                    let (k, n, tall) = guard(|| trans(&h, op, st)).and_then(|r| r).map_err(|m| (format!("{} {}", text, op.text()).trim().to_string(), m))?;
                    st.transitions += 1;
                    if n <= space.max_len && tall <= space.max_height {
                        succ.push((k, op, n as u32));
                    }
                }
            }
            Ok(succ)
        });
        stats.merge(st);
        if v.is_some() {
            return (found, stats, v);
        }
        for (i, o) in outs.into_iter().enumerate() {
            for (k, op, n) in o.unwrap_or_default() {
                let c = seen.entry(k).or_insert(0);
                if *c < space.multi {
                    *c += 1;
                    found.nodes.push(((lo + i) as u32, op, n));
                }
            }
        }
        lo = hi;
        depth += 1;
    }
    found.shapes = seen.len();
    stats.states += found.nodes.len() as u64;
    stats.count("distinct shapes", found.shapes as u64);
    stats.max("search depth", depth as u64);
    if !stats.capped && lo == found.nodes.len() {
        stats.count("searches closed (no unexplored successor within the length and height bounds)", 1);
    }
    (found, stats, None)
}
