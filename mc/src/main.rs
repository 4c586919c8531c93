mod engine;
mod flat;
#[cfg(feature = "ring")]
mod ring;
#[cfg(feature = "sizes")]
mod sizes;
mod mem;
mod ops;
mod tok;
mod rc {
    use librrb::Vector as VecT;
    pub const KIND: &str = "Rc";
    pub type Foc<'a> = librrb::RegularFocus<'a, crate::tok::Tok>;
    pub type FocMut<'a> = librrb::RegularFocusMut<'a, crate::tok::Tok>;
    pub type ItOf<'a> = librrb::RegularIter<'a, crate::tok::Tok>;
    macro_rules! mac { ($($t:tt)*) => { librrb::vector![$($t)*] }; }
    include!("kind.rs");
}
mod arc {
    use librrb::ThreadSafeVector as VecT;
    pub const KIND: &str = "Arc";
    pub type Foc<'a> = librrb::ThreadSafeFocus<'a, crate::tok::Tok>;
    pub type FocMut<'a> = librrb::ThreadSafeFocusMut<'a, crate::tok::Tok>;
    pub type ItOf<'a> = librrb::ThreadSafeIter<'a, crate::tok::Tok>;
    macro_rules! mac { ($($t:tt)*) => { librrb::vector_ts![$($t)*] }; }
    include!("kind.rs");
}
use engine::*;

#[global_allocator]
static GLOBAL: mem::Counting = mem::Counting;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

pub type RunF = Box<dyn Fn(&mut Stats) -> Option<Violation>>;
pub type ReplayF = Box<dyn Fn(&str) -> Res>;
/// A named exploration belonging to a property.
pub struct Part {
    pub name: String,
    pub run: RunF,
    pub replay: ReplayF,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parts(id: &str) -> Vec<Part> {
    if cfg!(not(debug_assertions)) && librrb::RRB_WIDTH < 64 && !cfg!(feature = "ring") && !cfg!(feature = "sizes") && !cfg!(feature = "work") {
        let mut p = rc::parts_second(id);
        p.extend(rc::parts_plain(id));
        p.extend(arc::parts_second(id));
        return p;
    }
    let mut p = rc::parts(id);
    p.extend(arc::parts_second(id));
    // without the guarded wrappers (they did not compile against this tree) the same structures are judged from outside
    #[cfg(not(feature = "ring"))]
    if id == "C19" {
        p.extend(rc::parts("C01"));
        p.extend(rc::parts("C12"));
    }
    #[cfg(not(feature = "sizes"))]
    if id == "C20" {
        p.extend(rc::parts("C03"));
        p.extend(rc::parts("C02"));
    }
    #[cfg(feature = "ring")]
    p.extend(ring::parts(id));
    #[cfg(feature = "sizes")]
    p.extend(sizes::parts(id));
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let slots = opt("--slots").map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    if let Some(f) = &slots {
        f.set_len((SLOT * threads) as u64).unwrap();
    }
    let hang_ms: u64 = opt("--hang").and_then(|s| s.parse::<u64>().ok()).unwrap_or(30) * 1000;
    let budget: u64 = opt("--budget").and_then(|s| s.parse::<u64>().ok()).unwrap_or(600) * 1000;
    RUN.set(Run {
        threads,
        beats: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        slots,
        start: std::time::Instant::now(),
        part: Mutex::new(String::new()),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        deadline: AtomicU64::new(budget),
    })
    .ok();
    install_hook();
    let only = opt("--part");
    let ps = parts(&id);
    if let Some(r) = opt("--replay") {
        let (part, case) = r.split_once('\t').unwrap_or(("", &r));
        for p in &ps {
            if p.name == part {
                match (p.replay)(case) {
                    Ok(()) => {
                        println!("OK");
                        std::process::exit(0)
                    }
                    Err(m) => {
                        println!("FAIL {}", m);
                        std::process::exit(1)
                    }
                }
            }
        }
        println!("no part {part}");
        std::process::exit(2);
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = run().start.elapsed().as_millis() as u64;
        for (i, b) in run().beats.iter().enumerate() {
            let t = b.load(Relaxed);
            if t != 0 && now > t + hang_ms {
                println!("HANG {}", i);
                std::process::exit(97);
            }
        }
    });
    let mut out = Vec::new();
    let mut bad = None;
    for p in &ps {
        if only.as_ref().map(|o| *o != p.name).unwrap_or(false) {
            continue;
        }
        *run().part.lock().unwrap() = p.name.clone();
        let t = std::time::Instant::now();
        let mut st = Stats::default();
        bad = (p.run)(&mut st);
        let dt = t.elapsed().as_secs_f64();
        eprintln!("{} {} {}: states {} transitions {} evaluations {} traces {} {:?} {:?} {:.1}s{}", id, librrb::RRB_WIDTH, p.name, st.states, st.transitions, st.evals, st.traces, st.counters, st.maxes, dt, if st.capped { " CAPPED" } else { "" });
        out.push((p.name.clone(), st, dt));
        if bad.is_some() {
            break;
        }
    }
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let body: Vec<String> = out
        .iter()
        .map(|(n, s, dt)| {
            format!(
                "{{\"part\":{},\"width\":{},\"states\":{},\"transitions\":{},\"evaluations\":{},\"traces\":{},\"counters\":{{{}}},\"max\":{{{}}},\"samples\":[{}],\"bounds\":[{}],\"findings\":[{}],\"capped\":{},\"wall_s\":{:.2}}}",
                js(n), librrb::RRB_WIDTH, s.states, s.transitions, s.evals, s.traces, map(&s.counters), map(&s.maxes), list(&s.samples), list(&s.bounds), s.findings.iter().map(|(c, m)| format!("[{},{}]", js(c), js(m))).collect::<Vec<_>>().join(","), s.capped, dt
            )
        })
        .collect();
    let v = match &bad {
        Some(v) => format!("{{\"part\":{},\"case\":{},\"msg\":{}}}", js(&v.part), js(&v.case), js(&v.msg)),
        None => "null".into(),
    };
    let text = format!("{{\"id\":{},\"width\":{},\"parts\":[{}],\"violation\":{}}}\n", js(&id), librrb::RRB_WIDTH, body.join(","), v);
    match opt("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => print!("{}", text),
    }
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
