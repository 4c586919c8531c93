//! Copies of a thread-safe vector in several threads.
use crate::elem::{fail, E};
use crate::{last_panic, thorough, Part, Res, Scenario};
use librrb::ThreadSafeVector as V;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type M = Vec<u32>;

/// (name, how it is built); every element of it has a distinct value
pub const SHAPES: &[(&str, fn() -> (V<E>, M))] = &[
    ("one element", || pushed(1)),
    ("three pushed", || pushed(3)),
    ("six pushed", || pushed(6)),
    ("front and back", || {
        let mut v = V::new();
        let mut m = vec![];
        for i in 0..7 {
            if i % 2 == 0 {
                v.push_back(E::new(i));
                m.push(i)
            } else {
                v.push_front(E::new(i));
                m.insert(0, i)
            }
        }
        (v, m)
    }),
    ("thirteen pushed", || pushed(13)),
    ("joined", || {
        let (mut v, mut m) = pushed(5);
        let (w, n) = pushed_from(100, 6);
        v.append(w);
        m.extend(n);
        (v, m)
    }),
    ("split off", || {
        let (mut v, m) = pushed(15);
        let w = v.split_off(6);
        drop(v);
        (w, m[6..].to_vec())
    }),
    ("itself appended to itself", || {
        let (mut v, mut m) = pushed(5);
        let w = v.clone();
        v.append(w);
        m.extend(m.clone());
        (v, m)
    }),
    ("a block repeated", || (V::constant_vec_of_length(E::new(7), 9), vec![7; 9])),
    ("twenty-two pushed", || pushed(22)),
];

fn pushed_from(at: u32, n: u32) -> (V<E>, M) {
    let mut v = V::new();
    for i in 0..n {
        v.push_back(E::new(at + i));
    }
    (v, (at..at + n).collect())
}
fn pushed(n: u32) -> (V<E>, M) {
    pushed_from(0, n)
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Res {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: got {:?} want {:?}", a, b))
    }
}
pub fn same(what: &str, v: &V<E>, m: &[u32]) -> Res {
    eq(&format!("{what}: length"), v.len(), m.len())?;
    for i in 0..m.len() {
        eq(&format!("{what}: position {i}"), v.get(i).map(|e| e.get()), Some(m[i]))?;
    }
    Ok(())
}

/// What one thread does with its copy.
pub type Prog = (&'static str, fn(V<E>, M) -> Res);
pub const PROGS: &[Prog] = &[
    ("read", |v, m| same("read", &v, &m)),
    ("drop", |v, _| {
        drop(v);
        Ok(())
    }),
    ("write first", |v, m| write(v, m, 0)),
    ("write middle", |v, m| {
        let i = m.len() / 2;
        write(v, m, i)
    }),
    ("write last", |v, m| {
        let i = m.len() - 1;
        write(v, m, i)
    }),
    ("push back", |mut v, mut m| {
        v.push_back(E::new(90));
        m.push(90);
        same("pushed", &v, &m)
    }),
    ("push front", |mut v, mut m| {
        v.push_front(E::new(91));
        m.insert(0, 91);
        same("pushed", &v, &m)
    }),
    ("pop back", |mut v, mut m| {
        eq("popped", v.pop_back().map(|e| e.get()), m.pop())?;
        same("popped", &v, &m)
    }),
    ("pop front", |mut v, mut m| {
        eq("popped", v.pop_front().map(|e| e.get()), Some(m.remove(0)))?;
        same("popped", &v, &m)
    }),
    ("copy and write", |v, m| {
        let w = v.clone();
        write(v, m.clone(), 0)?;
        same("copy", &w, &m)
    }),
    ("copy and drop the original", |v, m| {
        let w = v.clone();
        drop(v);
        let i = m.len() - 1;
        write(w, m, i)
    }),
    ("append to itself", |mut v, mut m| {
        let w = v.clone();
        v.append(w);
        m.extend(m.clone());
        same("appended", &v, &m)
    }),
    ("prepend a new one", |mut v, mut m| {
        let (w, n) = pushed_from(200, 3);
        v.prepend(w);
        m.splice(0..0, n);
        same("prepended", &v, &m)
    }),
    ("split", |mut v, mut m| {
        let i = m.len() / 2;
        let w = v.split_off(i);
        let n = m.split_off(i);
        same("left part", &v, &m)?;
        same("right part", &w, &n)
    }),
    ("slice", |mut v, mut m| {
        let (i, j) = (m.len() / 3, m.len() * 2 / 3);
        v.slice_from_start(j);
        v.slice_to_end(i);
        m.truncate(j);
        m.drain(..i);
        same("slice", &v, &m)
    }),
    ("insert", |mut v, mut m| {
        let i = m.len() / 2;
        v.insert(i, E::new(92));
        m.insert(i, 92);
        same("inserted", &v, &m)
    }),
    ("remove", |mut v, mut m| {
        let i = m.len() / 2;
        eq("removed", v.remove(i).map(|e| e.get()), Some(m.remove(i)))?;
        same("removed", &v, &m)
    }),
    ("iterate", |v, m| {
        let mut it = v.iter();
        let mut d: std::collections::VecDeque<u32> = m.into();
        for k in 0.. {
            let (g, w) = if k % 3 == 2 { (it.next_back(), d.pop_back()) } else { (it.next(), d.pop_front()) };
            eq("iterated", g.map(|e| e.get()), w)?;
            if w.is_none() {
                break;
            }
        }
        Ok(())
    }),
    ("write through an iterator", |mut v, mut m| {
        for (i, e) in v.iter_mut().enumerate() {
            eq("iterated", e.get(), m[i])?;
            e.set(300 + i as u32);
            m[i] = 300 + i as u32;
        }
        same("written", &v, &m)
    }),
    ("consume half", |v, m| {
        let mut it = v.into_iter();
        for x in m.iter().take(m.len() / 2) {
            eq("consumed", it.next().map(|e| e.get()), Some(*x))?;
        }
        Ok(())
    }),
    ("focus", |v, m| {
        let mut f = v.focus();
        for i in (0..m.len()).rev() {
            eq("focus", f.get(i).map(|e| e.get()), Some(m[i]))?;
        }
        f.narrow(1.min(m.len())..m.len());
        for i in 1..m.len() {
            eq("narrowed focus", f.get(i - 1).map(|e| e.get()), Some(m[i]))?;
        }
        Ok(())
    }),
    ("write through a focus", |mut v, mut m| {
        let n = m.len();
        {
            let mut f = v.focus_mut();
            let (mut a, mut b) = f.split_at(n / 2);
            for i in 0..n {
                let e = if i < n / 2 { a.get(i) } else { b.get(i - n / 2) };
                let e = e.ok_or("focus: absent")?;
                eq("focus", e.get(), m[i])?;
                if i % 2 == 0 {
                    e.set(400 + i as u32);
                    m[i] = 400 + i as u32;
                }
            }
        }
        same("written", &v, &m)
    }),
    ("reverse", |mut v, mut m| {
        v.reverse();
        m.reverse();
        same("reversed", &v, &m)
    }),
    ("sort", |mut v, mut m| {
        v.sort_by(&|a: &E, b: &E| b.cmp(a));
        m.sort_by(|a, b| b.cmp(a));
        same("sorted", &v, &m)
    }),
    ("compare with a copy", |v, m| {
        let w = v.clone();
        let mut x = v.clone();
        write_in(&mut x, 0, 999)?;
        eq("equal to a copy", v == w, true)?;
        eq("equal to a changed copy", v == x, false)?;
        same("compared", &v, &m)
    }),
];

fn write_in(v: &mut V<E>, i: usize, x: u32) -> Res {
    match v.get_mut(i) {
        Some(e) => e.set(x),
        None => return Err(format!("position {i} is absent")),
    }
    Ok(())
}
fn write(mut v: V<E>, mut m: M, i: usize) -> Res {
    write_in(&mut v, i, 1000 + i as u32)?;
    m[i] = 1000 + i as u32;
    same("written", &v, &m)
}

/// Runs one thread's program; whatever goes wrong is remembered.
pub fn contained(who: &str, f: impl FnOnce() -> Res) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail(format!("{who}: {e}")),
        Err(_) => fail(format!("{who}: panic: {}", last_panic())),
    }
}

fn scenario(shape: usize, progs: Vec<usize>, keep: bool, preemptions: usize) -> Scenario {
    let names: Vec<&str> = progs.iter().map(|p| PROGS[*p].0).collect();
    let name = format!("{}: {}{}", SHAPES[shape].0, names.join(" | "), if keep { " | the original stays" } else { "" });
    let body = move || {
        let (v, m) = SHAPES[shape].1();
        let mut own = Some(v);
        let mut hs = vec![];
        for (k, p) in progs.iter().enumerate() {
            let last = k + 1 == progs.len();
            let w = if last && !keep { own.take().unwrap() } else { own.as_ref().unwrap().clone() };
            let (n, p) = (m.clone(), *p);
            // without a copy that stays, the main thread is the last user itself
            if last && !keep {
                contained(PROGS[p].0, || PROGS[p].1(w, n));
            } else {
                hs.push(loom::thread::spawn(move || contained(PROGS[p].0, || PROGS[p].1(w, n))));
            }
        }
        if let Some(v) = &own {
            contained("the original during the threads", || same("the original", v, &m));
        }
        for h in hs {
            let _ = h.join();
        }
        if let Some(mut v) = own {
            contained("the original", || {
                same("the original", &v, &m)?;
                write_in(&mut v, m.len() / 2, 5)?;
                same("the written original", &v, &[&m[..m.len() / 2], &[5], &m[m.len() / 2 + 1..]].concat())
            });
        }
    };
    Scenario { name, body: Arc::new(body), preemptions, finding: None }
}

struct Ptr(*const V<E>);
unsafe impl Send for Ptr {}

/// one vector, read by several threads through a shared borrow
fn shared(shape: usize, preemptions: usize, p: usize, q: usize) -> Scenario {
    let name = format!("{}: borrowed by two threads: {} | {}", SHAPES[shape].0, PROGS[p].0, PROGS[q].0);
    let body = move || {
        let (v, m) = SHAPES[shape].1();
        let v = Box::new(v);
        let mut hs = vec![];
        for p in [p, q] {
            // the owner outlives the borrow: it waits for the threads
            let (r, m) = (Ptr(&*v), m.clone());
            hs.push(loom::thread::spawn(move || {
                let r = r;
                let v = unsafe { &*r.0 };
                contained("borrower", || {
                    same("borrowed", v, &m)?;
                    let mut f = v.focus();
                    for i in 0..m.len() {
                        eq("focus on the borrowed", f.get(i).map(|e| e.get()), Some(m[i]))?;
                    }
                    drop(f);
                    let w: V<E> = v.clone();
                    PROGS[p].1(w, m.clone())?;
                    same("borrowed", v, &m)
                });
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        contained("owner", || same("the vector", &v, &m));
    };
    Scenario { name, body: Arc::new(body), preemptions, finding: None }
}

pub fn parts(id: &str) -> Vec<Part> {
    if id != "C17" {
        return vec![];
    }
    let t = thorough();
    let pre = if t { 3 } else { 2 };
    let np = PROGS.len();
    let shapes: Vec<usize> = (0..SHAPES.len()).collect();
    let mut two = vec![];
    let mut kept = vec![];
    let mut bor = vec![];
    for &s in &shapes {
        for p in 0..np {
            for q in 0..np {
                two.push(scenario(s, vec![p, q], false, pre));
                if q >= p {
                    kept.push(scenario(s, vec![p, q], true, pre - 1));
                }
                if q >= p && (s == 2 || s == 5) {
                    bor.push(shared(s, pre - 1, p, q));
                }
            }
        }
    }
    let mut three = vec![];
    let few: Vec<usize> = (0..np).filter(|p| t || ["read", "drop", "write middle", "push back", "pop front", "copy and drop the original", "split", "write through a focus"].contains(&PROGS[*p].0)).collect();
    for &s in if t { &[1, 2, 5, 8][..] } else { &[2, 5][..] } {
        for &p in &few {
            for &q in &few {
                for &r in &few {
                    if q >= p {
                        three.push(scenario(s, vec![p, q, r], false, 1));
                    }
                }
            }
        }
    }
    vec![
        Part { name: "three copies".into(), bound: "every triple of programs (quick: of eight programs) on three copies of the shapes, at most 1 preemption".into(), cases: three },
        Part { name: "two copies".into(), bound: format!("every pair of programs on two copies of every shape, all schedules with at most {pre} preemptions"), cases: two },
        Part { name: "two copies and the original".into(), bound: format!("every pair of programs on two copies while the original is read, at most {} preemptions", pre - 1), cases: kept },
        Part { name: "shared borrow".into(), bound: format!("every pair of programs on copies taken from one borrowed vector by its readers, at most {} preemptions", pre - 1), cases: bor },
    ]
}
