//! C17 and C18: loom explores all interleavings (up to a bound on preemptions) of threads that use vectors sharing
//! structure, or the parts of one mutable focus, with the pointers of /verif/conc/archery and marked elements.
mod c17;
mod c18;
mod elem;
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub type Res = Result<(), String>;
pub type Body = Arc<dyn Fn() + Send + Sync>;
/// One concurrent program: its name and what runs inside the model.
pub struct Scenario {
    pub name: String,
    pub body: Body,
    pub preemptions: usize,
    /// races on reference counts that are not atomic are findings (compared with the list) instead of violations
    pub finding: Option<String>,
}
pub struct Part {
    pub name: String,
    pub bound: String,
    pub cases: Vec<Scenario>,
}

const SLOT: usize = 1 << 16;
struct Run {
    beats: Vec<AtomicU64>,
    slots: Option<std::fs::File>,
    start: Instant,
    thorough: bool,
}
static RUN: OnceLock<Run> = OnceLock::new();
pub fn thorough() -> bool {
    RUN.get().unwrap().thorough
}
std::thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn now() -> u64 {
    RUN.get().unwrap().start.elapsed().as_millis() as u64
}
const ENOUGH: &str = "not all schedules were explored in the time given";
/// Explores every schedule of one scenario, as far as the time reaches; returns their number and what failed.
fn explore(s: &Scenario, beat: &AtomicU64, until: u64) -> (u64, Res, Option<String>, bool) {
    let n = Arc::new(AtomicU64::new(0));
    let count_race: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let mut b = loom::model::Builder::new();
    b.max_threads = 4;
    b.max_branches = 1_000_000;
    b.preemption_bound = Some(s.preemptions);
    let (body, m, cr) = (s.body.clone(), n.clone(), count_race.clone());
    let tolerate = s.finding.is_some();
    let beat: &'static AtomicU64 = unsafe { std::mem::transmute(beat) };
    let capped = Arc::new(AtomicBool::new(false));
    let cap = capped.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        b.check(move || {
            beat.store(now() + 1, Relaxed);
            if now() > until {
                cap.store(true, Relaxed);
                panic!("{ENOUGH}");
            }
            let k = m.fetch_add(1, Relaxed);
            elem::reset();
            archery::verif::reset();
            if let Err(_) = catch_unwind(AssertUnwindSafe(|| (body)())) {
                elem::fail(format!("panic: {}", last_panic()));
            }
            let mut bad = elem::error();
            match archery::verif::count_race() {
                // accesses that only the count orders are then not ordered either; the results must still be right
                Some(c) if tolerate => *cr.lock().unwrap() = Some(c),
                c => bad = bad.or(archery::verif::race()).or(c),
            }
            if bad.is_none() && elem::live() != 0 {
                bad = Some(format!("{} elements were not released", elem::live()));
            }
            if bad.is_none() && archery::verif::live() != 0 {
                bad = Some(format!("{} nodes were not released", archery::verif::live()));
            }
            if let Some(e) = bad {
                panic!("schedule {k}: {e}");
            }
        })
    }));
    let f = count_race.lock().unwrap().clone();
    let capped = capped.load(Relaxed);
    (n.load(Relaxed), if capped { Ok(()) } else { r.map_err(|_| last_panic()) }, f, capped)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let slots = opt("--slots").map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    if let Some(f) = &slots {
        f.set_len((SLOT * threads) as u64).unwrap();
    }
    let hang_ms: u64 = opt("--hang").and_then(|s| s.parse::<u64>().ok()).unwrap_or(30) * 1000;
    let budget: u64 = opt("--budget").and_then(|s| s.parse::<u64>().ok()).unwrap_or(600) * 1000;
    RUN.set(Run { beats: (0..threads).map(|_| AtomicU64::new(0)).collect(), slots, start: Instant::now(), thorough: opt("--tier").as_deref() == Some("thorough") }).ok();
    let run = RUN.get().unwrap();
    let noisy = std::env::var("CONC_NOISY").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or("panic".into());
        if noisy {
            eprintln!("{} {:?}", m, i.location());
        }
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let mut parts = c17::parts(&id);
    parts.extend(c18::parts(&id));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now();
        for (i, b) in run.beats.iter().enumerate() {
            let t = b.load(Relaxed);
            if t != 0 && now > t + hang_ms {
                println!("HANG {}", i);
                std::process::exit(97);
            }
        }
    });
    if let Some(r) = opt("--replay") {
        let (part, case) = r.split_once('\t').unwrap_or(("", &r));
        for p in &parts {
            for s in &p.cases {
                if p.name == part && s.name == case {
                    let (n, r, f, _) = explore(s, &run.beats[0], 45_000);
                    match r {
                        Ok(()) => {
                            println!("OK {n} schedules {:?}", f);
                            std::process::exit(0)
                        }
                        Err(m) => {
                            println!("FAIL {}", m.replace('\n', " "));
                            std::process::exit(1)
                        }
                    }
                }
            }
        }
        println!("no such case");
        std::process::exit(2);
    }
    let only = opt("--part");
    let mut out = vec![];
    let mut bad: Option<(String, String, String)> = None;
    let chosen = |p: &Part| only.as_ref().map(|o| *o == p.name).unwrap_or(true);
    let left = AtomicUsize::new(parts.iter().filter(|p| chosen(p)).map(|p| p.cases.len()).sum());
    let left = &left;
    for p in &parts {
        if !chosen(p) {
            continue;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let schedules = AtomicU64::new(0);
        let most = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let finds: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let worst: Mutex<Option<(usize, String)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for w in 0..threads {
                let (next, stop, schedules, most, capped, finds, worst, done) = (&next, &stop, &schedules, &most, &capped, &finds, &worst, &done);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    while !stop.load(Relaxed) {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= p.cases.len() {
                            break;
                        }
                        if run.start.elapsed().as_millis() as u64 > budget {
                            capped.store(true, Relaxed);
                            break;
                        }
                        let s = &p.cases[i];
                        if let Some(f) = &run.slots {
                            let mut b = format!("{}\t{}", p.name, s.name).into_bytes();
                            b.truncate(SLOT - 1);
                            b.push(0);
                            let _ = f.write_all_at(&b, (w * SLOT) as u64);
                        }
                        let t = Instant::now();
                        // no case may use up the time of all others
                        let rest = left.fetch_sub(1, Relaxed).max(1) as u64;
                        let share = 60_000 + 32 * threads as u64 * budget.saturating_sub(now()) / rest;
                        let (n, r, f, cap) = explore(s, &run.beats[w], (now() + share).min(budget + 2000));
                        if cap {
                            capped.store(true, Relaxed);
                        }
                        if std::env::var("CONC_SLOW").is_ok() && t.elapsed().as_millis() > 500 {
                            eprintln!("{} {}: {} schedules {:.1} s", p.name, s.name, n, t.elapsed().as_secs_f64());
                        }
                        schedules.fetch_add(n, Relaxed);
                        done.fetch_add(1, Relaxed);
                        most.fetch_max(n, Relaxed);
                        if let (Some(what), Some(k)) = (f, &s.finding) {
                            finds.lock().unwrap().entry(k.clone()).or_insert(what);
                        }
                        if let Err(m) = r {
                            let mut b = worst.lock().unwrap();
                            if b.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                *b = Some((i, m));
                            }
                            stop.store(true, Relaxed);
                        }
                    }
                    if let Some(f) = &run.slots {
                        let _ = f.write_all_at(&[0], (w * SLOT) as u64);
                    }
                    run.beats[w].store(0, Relaxed);
                }).unwrap();
            }
        });
        let (n, dt) = (schedules.load(Relaxed), t0.elapsed().as_secs_f64());
        eprintln!("{} {}: {} programs {} schedules, most in one {} {:.1}s{}", id, p.name, p.cases.len(), n, most.load(Relaxed), dt, if capped.load(Relaxed) { " CAPPED" } else { "" });
        let finds: Vec<String> = finds.into_inner().unwrap().iter().map(|(k, m)| format!("[{},{}]", js(k), js(m))).collect();
        let samples: Vec<String> = [0, p.cases.len() / 3, p.cases.len() / 2, p.cases.len().saturating_sub(1)].iter().filter_map(|i| p.cases.get(*i)).map(|s| js(&s.name)).collect();
        out.push(format!(
            "{{\"part\":{},\"width\":{},\"states\":{},\"transitions\":{},\"evaluations\":{},\"traces\":{},\"counters\":{{\"programs\":{},\"schedules\":{}}},\"max\":{{\"schedules of one program\":{}}},\"samples\":[{}],\"bounds\":[{}],\"findings\":[{}],\"capped\":{},\"wall_s\":{:.2}}}",
            js(&p.name), librrb::RRB_WIDTH, done.load(Relaxed), n, n, n, done.load(Relaxed), n, most.load(Relaxed), samples.join(","), js(&format!("{}: {}; {} programs", p.name, p.bound, p.cases.len())), finds.join(","), capped.load(Relaxed), dt
        ));
        if let Some((i, m)) = worst.into_inner().unwrap() {
            bad = Some((p.name.clone(), p.cases[i].name.clone(), m));
            break;
        }
    }
    let v = match &bad {
        Some((p, c, m)) => format!("{{\"part\":{},\"case\":{},\"msg\":{}}}", js(p), js(c), js(m)),
        None => "null".into(),
    };
    let text = format!("{{\"id\":{},\"width\":{},\"parts\":[{}],\"violation\":{}}}\n", js(&id), librrb::RRB_WIDTH, out.join(","), v);
    match opt("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => print!("{}", text),
    }
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
