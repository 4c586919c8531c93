//! C20: the size table against a plain list of child sizes.
use crate::engine::*;
use crate::flat::*;
use crate::Part;
use librrb::verif_sizes::Sizes;
use librrb::{Side, RRB_WIDTH as M};
use std::collections::VecDeque;

fn same(what: &str, s: &Sizes, d: &VecDeque<usize>, level: usize, st: &mut Stats) -> Res {
    let total: usize = d.iter().sum();
    let fail = |k: String| Err(format!("{what}: {k} (child sizes {:?})", d));
    if s.len() != d.len() || s.total() != total || s.level() != level {
        return fail(format!("len {} total {} level {}", s.len(), s.total(), s.level()));
    }
    let mut at = 0;
    for (i, x) in d.iter().enumerate() {
        if s.size(i) != Some(*x) || s.range(i) != Some(at..at + x) || s.up_to(i) != Some(at + x) {
            return fail(format!("child {i}: size {:?} range {:?} up to {:?}", s.size(i), s.range(i), s.up_to(i)));
        }
        let probe = |p: usize| if *x > 0 && s.find(at + p) != Some((i, p)) { fail(format!("position {} is found in {:?}", at + p, s.find(at + p))) } else { Ok(()) };
        if *x <= 70 {
            for p in 0..*x {
                probe(p)?;
            }
            st.evals += *x as u64;
        } else {
            for p in [0, 1, x / 2, x - 2, x - 1] {
                probe(p)?;
            }
            st.evals += 5;
        }
        at += x;
    }
    for i in [d.len(), d.len() + 1, M, M + 1, 10 * M] {
        if i >= d.len() && (s.size(i).is_some() || s.range(i).is_some() || s.up_to(i).is_some()) {
            return fail(format!("child {i} exists: {:?} {:?} {:?}", s.size(i), s.range(i), s.up_to(i)));
        }
    }
    for p in [total, total + 1, total + M, total + (1 << 16), total + (1 << 32), 1 << 63, (1 << 63) + total / 2, usize::MAX / 2, usize::MAX] {
        if s.find(p).is_some() {
            return fail(format!("position {p} is found in {:?}", s.find(p)));
        }
    }
    st.evals += 8;
    Ok(())
}

fn step(s: &mut Sizes, d: &mut VecDeque<usize>, op: u32, size: usize) -> Res {
    match op {
        0 | 1 => {
            let side = if op == 0 { Side::Back } else { Side::Front };
            let full = d.len() == M;
            if full {
                if !panics(|| s.clone().push(side, size)) {
                    return Err("a full table takes another child".into());
                }
            } else {
                s.push(side, size);
                if op == 0 {
                    d.push_back(size)
                } else {
                    d.push_front(size)
                }
            }
        }
        _ => {
            let side = if op == 2 { Side::Back } else { Side::Front };
            if d.is_empty() {
                if !panics(|| s.clone().pop(side)) {
                    return Err("an empty table gives up a child".into());
                }
            } else {
                let want = if op == 2 { d.pop_back() } else { d.pop_front() }.unwrap();
                let got = s.pop(side);
                if got != want {
                    return Err(format!("the child removed from the {:?} has size {want}, reported {got}", side));
                }
            }
        }
    }
    Ok(())
}

/// all sequences of `depth` operations beginning with the given ones
#[derive(Clone)]
struct Seq(u32, usize);
fn seq(c: &Seq, st: &mut Stats) -> Res {
    let depth = if M == 4 { q(7, 9) } else { q(6, 7) };
    let sizes = [1usize, 2, M, 0];
    // operation: push either side with one of the sizes, or pop either side
    let kinds = 2 * sizes.len() as u32 + 2;
    let mut stack: Vec<(Sizes, VecDeque<usize>, u32)> = vec![];
    let mut s = Sizes::new(c.1);
    let mut d = VecDeque::new();
    let one = |s: &mut Sizes, d: &mut VecDeque<usize>, k: u32| if k < 8 { step(s, d, k % 2, sizes[k as usize / 2]) } else { step(s, d, k - 8 + 2, 0) };
    one(&mut s, &mut d, c.0 / kinds)?;
    one(&mut s, &mut d, c.0 % kinds)?;
    stack.push((s, d, 2));
    while let Some((s, d, n)) = stack.pop() {
        same("after the operations", &s, &d, c.1, st)?;
        st.traces += 1;
        if n == depth {
            continue;
        }
        for k in 0..kinds {
            let (mut a, mut b) = (s.clone(), d.clone());
            one(&mut a, &mut b, k)?;
            st.transitions += 1;
            stack.push((a, b, n + 1));
        }
        same("original of a changed copy", &s, &d, c.1, st)?;
    }
    beat();
    Ok(())
}

/// every internal position of the underlying buffer, with structured sizes
#[derive(Clone)]
struct Pos(usize, usize, usize);
fn pos(c: &Pos, st: &mut Stats) -> Res {
    let Pos(f, l, pat) = *c;
    let size = |i: usize| match pat {
        0 => 1,
        1 => i + 1,
        2 => M - i % M,
        3 => M * M,
        4 => (i % 3) * M + 1,
        _ => (i * 7919 + 13) % (M * M * M) + 1,
    };
    let mut s = Sizes::new(2);
    let mut d = VecDeque::new();
    for i in 0..f {
        s.push(Side::Back, size(i));
        s.pop(Side::Front);
    }
    for i in 0..l {
        step(&mut s, &mut d, 0, size(i))?;
    }
    same("as built", &s, &d, 2, st)?;
    for op in 0..4 {
        let (mut a, mut b) = (s.clone(), d.clone());
        let mut n = 0;
        // to the limit and past it
        loop {
            let before = b.len();
            step(&mut a, &mut b, op, size(n + 5))?;
            same("after an operation", &a, &b, 2, st)?;
            st.transitions += 1;
            n += 1;
            if b.len() == before {
                break;
            }
        }
        for o in 0..4 {
            let (mut a, mut b) = (a.clone(), b.clone());
            for k in 0..3 {
                step(&mut a, &mut b, o, size(k + 9))?;
                same("after more operations", &a, &b, 2, st)?;
            }
        }
    }
    same("original of changed copies", &s, &d, 2, st)?;
    st.traces += 1;
    Ok(())
}

pub fn parts(id: &str) -> Vec<Part> {
    if id != "C20" {
        return vec![];
    }
    vec![
        flat(
            "positions",
            "every position of the table's buffer, six patterns of child sizes, filled and emptied from either side; every child and position asked for",
            || {
                let mut c = vec![];
                for f in 0..M {
                    for l in 0..=M {
                        for p in 0..6 {
                            c.push(Pos(f, l, p))
                        }
                    }
                }
                if M > 8 {
                    let fs = [0, 1, M / 2, M - 2, M - 1];
                    c.retain(|x| fs.contains(&x.0) || thorough());
                }
                c
            },
            |c| format!("first slot {} length {} pattern {}", c.0, c.1, c.2),
            pos,
        ),
        flat("sequences", "all sequences of additions (four sizes, either side) and removals", || (0..100).flat_map(|k| [1usize, 3].into_iter().map(move |l| Seq(k, l))).collect(), |c| format!("beginning {} level {}", c.0, c.1), seq),
    ]
}
