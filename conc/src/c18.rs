//! The parts of a split mutable focus in several threads.
use crate::c17::contained;
use crate::elem::E;
use crate::{thorough, Part, Res, Scenario};
use std::sync::Arc;

type M = Vec<u32>;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Res {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: got {:?} want {:?}", a, b))
    }
}

/// who else holds the structure
#[derive(Clone, Copy, PartialEq, Debug)]
enum Copy {
    None,
    Alive,
    Read,
    Dropped,
    Written,
}

macro_rules! kind {
    ($m:ident, $v:ident, $f:ident, $name:expr) => {
        mod $m {
            use super::*;
            use librrb::{$f as F, $v as V};

            fn pushed_from(at: u32, n: u32) -> (V<E>, M) {
                let mut v = V::new();
                for i in 0..n {
                    v.push_back(E::new(at + i));
                }
                (v, (at..at + n).collect())
            }
            /// name, whether blocks occur more than once inside the vector, construction
            pub const SHAPES: &[(&str, bool, fn() -> (V<E>, M))] = &[
                ("three pushed", false, || pushed_from(0, 3)),
                ("seven pushed", false, || pushed_from(0, 7)),
                ("front and back", false, || {
                    let mut v = V::new();
                    let mut m = vec![];
                    for i in 0..11 {
                        if i % 2 == 0 {
                            v.push_back(E::new(i));
                            m.push(i)
                        } else {
                            v.push_front(E::new(i));
                            m.insert(0, i)
                        }
                    }
                    (v, m)
                }),
                ("joined", false, || {
                    let (mut v, mut m) = pushed_from(0, 5);
                    let (w, n) = pushed_from(100, 6);
                    v.append(w);
                    m.extend(n);
                    (v, m)
                }),
                ("split off", false, || {
                    let (mut v, m) = pushed_from(0, 17);
                    let w = v.split_off(6);
                    drop(v);
                    (w, m[6..].to_vec())
                }),
                ("nineteen pushed", false, || pushed_from(0, 19)),
                ("forty-two pushed", false, || pushed_from(0, 42)),
                ("thirty-five pushed in front", false, || {
                    let mut v = V::new();
                    for i in 0..35 {
                        v.push_front(E::new(i));
                    }
                    (v, (0..35).rev().collect())
                }),
                ("large and joined", false, || {
                    let (mut v, mut m) = pushed_from(0, 21);
                    let (w, n) = pushed_from(100, 19);
                    v.append(w);
                    m.extend(n);
                    (v, m)
                }),
                ("a block repeated", true, || (V::constant_vec_of_length(E::new(7), 13), vec![7; 13])),
                ("itself appended to itself", true, || {
                    let (mut v, mut m) = pushed_from(0, 6);
                    let w = v.clone();
                    v.append(w);
                    m.extend(m.clone());
                    (v, m)
                }),
            ];

            fn same(what: &str, v: &V<E>, m: &[u32]) -> Res {
                eq(&format!("{what}: length"), v.len(), m.len())?;
                for i in 0..m.len() {
                    eq(&format!("{what}: position {i}"), v.get(i).map(|e| e.get()), Some(m[i]))?;
                }
                Ok(())
            }

            fn touch(f: &mut F<E>, m: &mut [u32], i: usize, x: u32) -> Res {
                let e = f.get(i).ok_or(format!("position {i} is absent"))?;
                eq(&format!("position {i}"), e.get(), m[i])?;
                e.set(x);
                m[i] = x;
                Ok(())
            }

            /// What a thread does with its part; the writes are also done to `m`.
            pub const PROGS: &[(&str, fn(F<E>, &mut [u32], u32) -> Res)] = &[
                ("write forwards", |mut f, m, x| {
                    for i in 0..m.len() {
                        touch(&mut f, m, i, x + i as u32)?;
                    }
                    eq("past the end", f.get(m.len()).is_none(), true)
                }),
                ("write backwards", |mut f, m, x| {
                    eq("past the end", f.get(m.len() + 1).is_none(), true)?;
                    for i in (0..m.len()).rev() {
                        touch(&mut f, m, i, x + i as u32)?;
                    }
                    Ok(())
                }),
                ("write the ends", |mut f, m, x| {
                    let n = m.len();
                    if n > 0 {
                        touch(&mut f, m, n - 1, x)?;
                        touch(&mut f, m, 0, x + 1)?;
                        touch(&mut f, m, n / 2, x + 2)?;
                    }
                    Ok(())
                }),
                ("split again and write both", |mut f, m, x| {
                    let n = m.len();
                    {
                        let (mut a, mut b) = f.split_at(n / 2);
                        let (ma, mb) = m.split_at_mut(n / 2);
                        for i in 0..n {
                            if i / 2 < ma.len() && i % 2 == 0 {
                                touch(&mut a, ma, i / 2, x + i as u32)?;
                            } else if i / 2 < mb.len() {
                                touch(&mut b, mb, i / 2, x + i as u32)?;
                            }
                        }
                    }
                    for i in (0..n).rev() {
                        touch(&mut f, m, i, x + 50 + i as u32)?;
                    }
                    Ok(())
                }),
                ("read", |mut f, m, _| {
                    for i in 0..m.len() {
                        let e = f.get(i).ok_or(format!("position {i} is absent"))?;
                        eq(&format!("position {i}"), e.get(), m[i])?;
                    }
                    Ok(())
                }),
            ];

            struct Part3 {
                f: F<'static, E>,
                m: &'static mut [u32],
            }
            fn part(f: F<E>, m: &mut [u32]) -> Part3 {
                // the parts end before the vector and the model do: the main thread waits for the threads
                unsafe { Part3 { f: std::mem::transmute(f), m: std::mem::transmute(m) } }
            }

            /// `cuts`: one split, or two (the second one inside the right part)
            pub fn scenario(shape: usize, cuts: Vec<usize>, progs: Vec<usize>, copy: Copy, preemptions: usize, finding: Option<String>) -> Scenario {
                let names: Vec<&str> = progs.iter().map(|p| PROGS[*p].0).collect();
                let name = format!("{} {}: split at {:?}: {}, copy {:?}", $name, SHAPES[shape].0, cuts, names.join(" | "), copy);
                let body = move || {
                    let (mut v, mut m) = SHAPES[shape].2();
                    let old = m.clone();
                    let mut other = if copy == Copy::None { None } else { Some(v.clone()) };
                    {
                        let mut f = v.focus_mut();
                        {
                            let (a, mut b) = f.split_at(cuts[0]);
                            let (ma, mb) = m.split_at_mut(cuts[0]);
                            let mut ps = vec![part(a, ma)];
                            let inner;
                            if cuts.len() > 1 {
                                inner = b.split_at(cuts[1] - cuts[0]);
                                let (mb, mc) = mb.split_at_mut(cuts[1] - cuts[0]);
                                let (b, c) = inner;
                                ps.push(part(b, mb));
                                ps.push(part(c, mc));
                            } else {
                                ps.push(part(b, mb));
                            }
                            let mut hs = vec![];
                            for (k, p) in ps.into_iter().enumerate() {
                                let q = progs[k];
                                hs.push(loom::thread::spawn(move || contained(PROGS[q].0, || PROGS[q].1(p.f, p.m, 500 + 100 * k as u32))));
                            }
                            match copy {
                                Copy::Read => contained("the copy during the threads", || same("the copy", other.as_ref().unwrap(), &old)),
                                Copy::Dropped => other = None,
                                Copy::Written => contained("the copy during the threads", || {
                                    let mut w = other.take().unwrap();
                                    let i = cuts[0].min(old.len() - 1);
                                    w.get_mut(i).ok_or("absent")?.set(77);
                                    let mut want = old.clone();
                                    want[i] = 77;
                                    same("the written copy", &w, &want)
                                }),
                                _ => {}
                            }
                            for h in hs {
                                let _ = h.join();
                            }
                        }
                        contained("the focus after its parts", || {
                            for i in 0..m.len() {
                                eq(&format!("position {i}"), f.get(i).map(|e| e.get()), Some(m[i]))?;
                            }
                            touch(&mut f, &mut m, cuts[0].min(old.len() - 1), 42)
                        });
                    }
                    contained("the vector afterwards", || {
                        same("the vector", &v, &m)?;
                        if let Some(w) = &other {
                            same("the copy", w, &old)?;
                        }
                        v.push_back(E::new(3));
                        m.push(3);
                        same("the vector after a push", &v, &m)
                    });
                };
                Scenario { name, body: Arc::new(body), preemptions, finding }
            }
        }
    };
}
kind!(rc, RegularVector, RegularFocusMut, "regular");
kind!(arc, ThreadSafeVector, ThreadSafeFocusMut, "thread-safe");

fn len_of(shape: usize) -> usize {
    [3, 7, 11, 11, 11, 19, 42, 35, 40, 13, 12][shape]
}

pub fn parts(id: &str) -> Vec<Part> {
    if id != "C18" {
        return vec![];
    }
    let t = thorough();
    let pre = if t { 3 } else { 2 };
    let np = rc::PROGS.len();
    let mut parts = vec![];
    let (mut regular, mut sharing, mut safe, mut busy, mut three) = (vec![], vec![], vec![], vec![], vec![]);
    for s in 0..rc::SHAPES.len() {
        let n = len_of(s);
        for cut in 0..=n {
            for p in 0..np {
                for q in 0..np {
                    // for the large ones every pair that touches something in both parts, and the main combinations otherwise
                    if n > 20 && !t && !(p == q || (p + q == 1)) {
                        continue;
                    }
                    let inside = rc::SHAPES[s].1;
                    if !inside {
                        regular.push(rc::scenario(s, vec![cut], vec![p, q], Copy::None, pre, None));
                    } else {
                        sharing.push(rc::scenario(s, vec![cut], vec![p, q], Copy::None, pre, Some(format!("{}: blocks shared inside the vector", rc::SHAPES[s].0))));
                    }
                    {
                        sharing.push(rc::scenario(s, vec![cut], vec![p, q], Copy::Alive, pre, Some(format!("{}: a copy is alive", rc::SHAPES[s].0))));
                    }
                    safe.push(arc::scenario(s, vec![cut], vec![p, q], Copy::None, pre, None));
                    safe.push(arc::scenario(s, vec![cut], vec![p, q], Copy::Alive, pre, None));
                }
            }
            for (p, q) in [(0, 0), (1, 0), (2, 3), (4, 1)] {
                for c in [Copy::Read, Copy::Dropped, Copy::Written] {
                    // dropping or writing a copy changes counts whatever the shape is
                    let k = match c {
                        Copy::Read => format!("{}: a copy is read at the same time", rc::SHAPES[s].0),
                        Copy::Dropped => "a copy is dropped while threads use the parts".into(),
                        _ => "a copy is written while threads use the parts".into(),
                    };
                    sharing.push(rc::scenario(s, vec![cut], vec![p, q], c, pre, Some(k)));
                    busy.push(arc::scenario(s, vec![cut], vec![p, q], c, pre, None));
                }
            }
            for cut2 in cut..=n {
                if n > 20 && !(t && (cut + cut2) % 2 == 0) && (cut + 2 * cut2) % 7 != 0 {
                    continue;
                }
                for (p, q, r) in [(0, 0, 0), (2, 1, 0), (1, 2, 3)] {
                    if !rc::SHAPES[s].1 {
                        three.push(rc::scenario(s, vec![cut, cut2], vec![p, q, r], Copy::None, pre, None));
                    }
                    three.push(arc::scenario(s, vec![cut, cut2], vec![p, q, r], Copy::None, pre - 1, None));
                    if t || (cut + cut2) % 3 == 0 {
                        three.push(arc::scenario(s, vec![cut, cut2], vec![p, q, r], Copy::Alive, 1, None));
                    }
                }
            }
        }
    }
    let all = |x: &str, k: usize| format!("{x}; every split position of every shape, every pair of programs (shapes of more than twenty: seven pairs in the quick tier), all schedules with at most {k} preemptions");
    parts.push(Part { name: "regular vector of its own".into(), bound: all("nothing shared", pre), cases: regular });
    parts.push(Part { name: "regular vector that shares".into(), bound: all("blocks shared with a copy or inside the vector; races on the reference counts are findings, everything else must hold", pre), cases: sharing });
    parts.push(Part { name: "thread-safe vector".into(), bound: all("with and without a copy", pre), cases: safe });
    parts.push(Part { name: "busy copy".into(), bound: all("the copy is read, dropped or written at the same time (four pairs of programs)", pre), cases: busy });
    parts.push(Part { name: "three parts".into(), bound: "two nested splits at every pair of positions, three threads, three groups of programs".into(), cases: three });
    parts
}
