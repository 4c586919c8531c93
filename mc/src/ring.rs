//! C19: every internal position (first slot, length) of the ring buffer, every operation on it, against a VecDeque.
use crate::engine::*;
use crate::flat::*;
use crate::tok::{self, reg, Tok};
use crate::Part;
use librrb::verif_ring::{Ring, View};
use librrb::{Side, RRB_WIDTH as M};
use std::collections::VecDeque;

type R = Ring<Tok>;
type D = VecDeque<u32>;

/// first slot, length, how it was filled: 0 from the back, 1 from the front, 2 alternating
#[derive(Clone, Copy, Debug)]
struct Pos(usize, usize, usize);

fn tokn(i: u32) -> Tok {
    Tok::new(i, i)
}
fn text(p: &Pos) -> String {
    format!("first slot {} length {} way {}", p.0, p.1, p.2)
}
fn all() -> Vec<Pos> {
    let mut c = vec![];
    for f in 0..M {
        for l in 0..=M {
            for w in 0..3 {
                if w == 0 || l > 0 {
                    c.push(Pos(f, l, w))
                }
            }
        }
    }
    c
}
/// all positions, or for the wide buffer those near its ends and its middle
fn some() -> Vec<Pos> {
    all().into_iter().filter(|p| p.2 == 0 && (M <= 8 || ([0, 1, M / 2, M - 1].contains(&p.0) && [0, 1, 2, M / 2, M - 1, M].contains(&p.1)))).collect()
}

fn make(p: &Pos, base: u32) -> (R, D) {
    let Pos(f, l, w) = *p;
    let mut r = R::new();
    // move the first slot; the library's own pushes and pops do it
    let fronts = match w {
        0 => 0,
        1 => l,
        _ => l / 2,
    };
    for i in 0..(f + fronts) % M {
        r.try_push_back(tokn(base + 9000 + i as u32));
        r.try_pop_front();
    }
    let mut d = D::new();
    let (mut b, mut e) = (0, 0);
    for i in 0..l {
        let id = base + i as u32;
        let front = match w {
            0 => false,
            1 => true,
            _ => i % 2 == 1,
        };
        if front {
            r.push_front(tokn(id));
            d.push_front(id);
            b += 1
        } else {
            r.push_back(tokn(id));
            d.push_back(id);
            e += 1
        }
    }
    let _ = (b, e);
    (r, d)
}

fn errs() -> Res {
    match tok::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn gone() -> Res {
    errs()?;
    let live = reg(|r| r.live);
    if live != 0 {
        return Err(format!("{live} elements were not released"));
    }
    Ok(())
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Res {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: got {:?} want {:?}", a, b))
    }
}
fn id(t: &Tok) -> u32 {
    t.id()
}

/// does the buffer hold exactly `d`?
fn same(what: &str, r: &R, d: &D) -> Res {
    eq(&format!("{what}: len"), r.len(), d.len())?;
    eq(&format!("{what}: is_empty"), r.is_empty(), d.is_empty())?;
    eq(&format!("{what}: is_full"), r.is_full(), d.len() == M)?;
    eq(&format!("{what}: free_space"), r.free_space(), M - d.len())?;
    for i in 0..=2 * M + 1 {
        if r.get(i).map(id) != d.get(i).copied() {
            return Err(format!("{what}: get({i}) is {:?} want {:?}", r.get(i).map(id), d.get(i)));
        }
    }
    eq(&format!("{what}: back"), r.back().map(id), d.back().copied())?;
    eq(&format!("{what}: iter"), r.iter().map(id).collect::<Vec<_>>(), d.iter().copied().collect::<Vec<_>>())?;
    eq(&format!("{what}: iter backwards"), r.iter().rev().map(id).collect::<Vec<_>>(), d.iter().rev().copied().collect::<Vec<_>>())?;
    Ok(())
}

/// the interleavings of taking from either end that are tried on a buffer of this length
fn orders(l: usize) -> Vec<Vec<bool>> {
    if l <= 8 {
        let n = l + 2;
        (0..1u32 << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        let n = l + 2;
        let mut c: Vec<Vec<bool>> = vec![];
        for k in [1, 2, 3, 5, 7, 64, 1000] {
            c.push((0..n).map(|i| (i / k) % 2 == 1).collect());
            c.push((0..n).map(|i| (i / k) % 2 == 0).collect());
        }
        for k in 0..=n {
            c.push((0..n).map(|i| i >= k).collect());
            c.push((0..n).map(|i| i < k).collect());
        }
        c
    }
}

fn walk<T>(what: &str, d: &D, o: &[bool], mut next: impl FnMut(bool) -> Option<T>, mut left: impl FnMut() -> Option<usize>, got: impl Fn(&T) -> u32) -> Res {
    let mut m = d.clone();
    let _ = &mut left;
    for (k, back) in o.iter().enumerate() {
        let want = if *back { m.pop_back() } else { m.pop_front() };
        let g = next(*back).map(|t| got(&t));
        if g != want {
            return Err(format!("{what}: step {k} ({}) yields {:?} want {:?}", if *back { "back" } else { "front" }, g, want));
        }
    }
    Ok(())
}

fn iterators(p: &Pos, st: &mut Stats) -> Res {
    for o in orders(p.1) {
        st.evals += 3;
        {
            let (r, d) = make(p, 0);
            let mut it = r.iter();
            let mut m = d.clone();
            for (k, back) in o.iter().enumerate() {
                eq("iter: remaining", (it.len(), it.size_hint()), (m.len(), (m.len(), Some(m.len()))))?;
                let (g, w) = if *back { (it.next_back(), m.pop_back()) } else { (it.next(), m.pop_front()) };
                eq(&format!("iter: step {k} of {:?}", o), g.map(id), w)?;
            }
        }
        {
            let (mut r, mut d) = make(p, 0);
            {
                let mut it = r.iter_mut();
                let mut m = d.clone();
                let mut lo = 0;
                for (k, back) in o.iter().enumerate() {
                    eq("iter_mut: remaining", it.len(), m.len())?;
                    let at = if *back { m.len().wrapping_sub(1).wrapping_add(lo) } else { lo };
                    let (g, w) = if *back { (it.next_back(), m.pop_back()) } else { (it.next(), m.pop_front()) };
                    eq(&format!("iter_mut: step {k} of {:?}", o), g.as_ref().map(|t| t.id()), w)?;
                    if let Some(t) = g {
                        *t = tokn(500 + k as u32);
                        d[at] = 500 + k as u32;
                        if !*back {
                            lo += 1
                        }
                    }
                }
            }
            same("after writes through iter_mut", &r, &d)?;
        }
        {
            let (r, d) = make(p, 0);
            let mut it = r.into_iter();
            walk("into_iter", &d, &o, |b| if b { it.next_back() } else { it.next() }, || None, |t| t.id())?;
        }
        gone()?;
    }
    // partly consumed
    for a in 0..=p.1 {
        for b in 0..=(p.1 - a).min(3) {
            let (r, d) = make(p, 0);
            let mut it = r.into_iter();
            let mut got = vec![];
            for i in 0..a {
                got.push(it.next());
                eq("into_iter: remaining", it.len(), d.len() - i - 1)?;
            }
            for _ in 0..b {
                got.push(it.next_back());
            }
            drop(it);
            for (i, g) in got.iter().enumerate() {
                let want = if i < a { d[i] } else { d[d.len() - 1 - (i - a)] };
                eq("into_iter: element kept past the iterator", g.as_ref().map(id), Some(want))?;
            }
            drop(got);
            gone()?;
            st.evals += 1;
        }
    }
    Ok(())
}

fn ends(p: &Pos, st: &mut Stats) -> Res {
    // every single operation, then everything is looked at
    for op in 0..10 {
        tok::reset();
        st.evals += 1;
        {
            let (mut r, mut d) = make(p, 0);
            let full = d.len() == M;
            let empty = d.is_empty();
            let what = format!("operation {op}");
            match op {
                0 => {
                    eq("try_push_back", r.try_push_back(tokn(700)), !full)?;
                    if !full {
                        d.push_back(700)
                    }
                }
                1 => {
                    eq("try_push_front", r.try_push_front(tokn(700)), !full)?;
                    if !full {
                        d.push_front(700)
                    }
                }
                2 => eq("try_pop_back", r.try_pop_back().as_ref().map(id), d.pop_back())?,
                3 => eq("try_pop_front", r.try_pop_front().as_ref().map(id), d.pop_front())?,
                4 | 5 => {
                    let s = if op == 4 { Side::Front } else { Side::Back };
                    eq("push panics", panics(|| r.push(s, tokn(700))), full)?;
                    if !full {
                        if op == 4 {
                            d.push_front(700)
                        } else {
                            d.push_back(700)
                        }
                    }
                }
                6 | 7 => {
                    let s = if op == 6 { Side::Front } else { Side::Back };
                    let g = guard(|| r.pop(s).id()).ok();
                    eq("pop", g, if op == 6 { d.pop_front() } else { d.pop_back() })?;
                }
                _ => {
                    let s = if op == 8 { Side::Front } else { Side::Back };
                    eq("try_pop", r.try_pop(s).as_ref().map(id), if op == 8 { d.pop_front() } else { d.pop_back() })?;
                }
            }
            let _ = empty;
            same(&what, &r, &d)?;
        }
        gone().map_err(|e| format!("operation {op}: {e}"))?;
    }
    Ok(())
}

fn access(p: &Pos, st: &mut Stats) -> Res {
    let (mut r, mut d) = make(p, 0);
    same("as built", &r, &d)?;
    for i in 0..M + 2 {
        st.evals += 3;
        eq("index panics", panics(|| r.at(i).id()), i >= d.len())?;
        eq("index_mut panics", panics(|| r.at_mut(i).id()), i >= d.len())?;
        match r.get_mut(i) {
            Some(t) => {
                eq("get_mut", t.id(), d[i])?;
                *t = tokn(600 + i as u32);
                d[i] = 600 + i as u32;
            }
            None => eq("get_mut is absent at or past the length", i >= d.len(), true)?,
        }
        same("after a write", &r, &d)?;
    }
    for i in 0..M + 1 {
        for j in 0..M + 1 {
            st.evals += 1;
            let g = guard(|| {
                let (a, b) = r.pair_mut(i, j);
                let o = (a.id(), b.id());
                std::mem::swap(a, b);
                o
            })
            .ok();
            let want = if i != j && i < d.len() && j < d.len() { Some((d[i], d[j])) } else { None };
            eq(&format!("pair_mut({i}, {j})"), g, want)?;
            if want.is_some() {
                d.swap(i, j);
                if M <= 8 {
                    same("after pair_mut", &r, &d)?;
                }
            }
        }
    }
    same("after pair_mut", &r, &d)?;
    // copies
    let mut c = r.clone();
    same("copy", &c, &d)?;
    let mut cd = d.clone();
    for i in 0..d.len() {
        *c.get_mut(i).ok_or("copy: get_mut")? = tokn(800 + i as u32);
        cd[i] = 800 + i as u32;
    }
    same("written copy", &c, &cd)?;
    same("original of a written copy", &r, &d)?;
    while let Some(t) = c.try_pop_front() {
        eq("copy: pop", Some(t.id()), cd.pop_front())?;
    }
    same("original of an emptied copy", &r, &d)?;
    drop(c);
    let c = r.clone();
    drop(r);
    same("copy that outlives the original", &c, &d)?;
    drop(c);
    gone()?;
    // a clone that panics
    for k in 1..=p.1 as u64 {
        {
            let (r, d) = make(p, 0);
            tok::set_fuse(k);
            eq("clone with a panicking element", panics(|| r.clone()), true)?;
            tok::set_fuse(0);
            same("after a panicking clone", &r, &d)?;
        }
        errs()?;
        tok::reset();
    }
    {
        let r = R::with_item(tokn(1));
        same("with_item", &r, &D::from(vec![1]))?;
    }
    gone()
}

fn view_is(what: &str, v: &mut View<Tok>, d: &mut [u32], mark: &mut u32) -> Res {
    eq(&format!("{what}: len"), (v.len(), v.is_empty()), (d.len(), d.is_empty()))?;
    for i in 0..d.len() + 3 {
        eq(&format!("{what}: get({i})"), v.get(i).map(id), d.get(i).copied())?;
    }
    eq(&format!("{what}: iter"), v.iter().map(id).collect::<Vec<_>>(), d.to_vec())?;
    eq(&format!("{what}: index past the end panics"), panics(|| v.at(d.len()).id()), true)?;
    eq(&format!("{what}: index_mut past the end panics"), panics(|| v.at_mut(d.len()).id()), true)?;
    for i in 0..d.len() {
        *mark += 1;
        if i % 2 == 0 {
            *v.at_mut(i) = tokn(*mark);
        } else {
            *v.get_mut(i).ok_or("view: get_mut")? = tokn(*mark);
        }
        d[i] = *mark;
        eq(&format!("{what}: written element"), v.at(i).id(), *mark)?;
    }
    eq(&format!("{what}: get_mut past the end"), v.get_mut(d.len()).is_none(), true)
}

fn views(p: &Pos, st: &mut Stats) -> Res {
    if p.1 == 0 {
        return Ok(());
    }
    let cuts: Vec<usize> = if M <= 8 { (0..=p.1).collect() } else { [0, 1, p.1 / 3, p.1 / 2, p.1 - 1, p.1].into_iter().filter(|x| *x <= p.1).collect() };
    for &a in &cuts {
        for &b in &cuts {
            for left in [true, false] {
                st.evals += 1;
                let (mut r, d) = make(p, 0);
                let mut m: Vec<u32> = d.iter().copied().collect();
                let mut mark = 1000;
                {
                    let mut v = unsafe { r.view() };
                    view_is("view", &mut v, &mut m, &mut mark)?;
                    eq("split past the end panics", panics(|| v.split_at(p.1 + 1).0.len()), true)?;
                    let (mut x, mut y) = v.split_at(a);
                    let (mx, my) = m.split_at_mut(a);
                    view_is("left part", &mut x, mx, &mut mark)?;
                    view_is("right part", &mut y, my, &mut mark)?;
                    let (part, pm) = if left { (&mut x, mx) } else { (&mut y, my) };
                    if b > pm.len() {
                        eq("split past the end of a part panics", panics(|| part.split_at(b).0.len()), true)?;
                    } else {
                        let (mut s, mut t) = part.split_at(b);
                        let (ms, mt) = pm.split_at_mut(b);
                        view_is("left part of a part", &mut s, ms, &mut mark)?;
                        view_is("right part of a part", &mut t, mt, &mut mark)?;
                    }
                    view_is("view after its parts", &mut v, &mut m, &mut mark)?;
                }
                same("after writes through views", &r, &m.into_iter().collect())?;
                drop(r);
                gone()?;
            }
        }
    }
    Ok(())
}

fn transfers(p: &Pos, st: &mut Stats) -> Res {
    for q in some() {
        for side in [Side::Front, Side::Back] {
            let lens: Vec<usize> = if M <= 8 { (0..=M + 1).collect() } else { vec![0, 1, 2, M / 2 - 1, M / 2, M - 1, M, M + 1, 1000] };
            for n in lens {
                st.evals += 1;
                {
                    let (mut a, mut da) = make(p, 0);
                    let (mut b, mut db) = make(&q, 300);
                    let got = a.decant_into(&mut b, side, n);
                    let want = n.min(da.len()).min(M - db.len());
                    for _ in 0..want {
                        match side {
                            Side::Front => db.push_back(da.pop_front().unwrap()),
                            Side::Back => db.push_front(da.pop_back().unwrap()),
                        }
                    }
                    let what = format!("moving {n} from {:?} into {}", side, text(&q));
                    eq(&format!("{what}: moved"), got, want)?;
                    same(&format!("{what}: source"), &a, &da)?;
                    same(&format!("{what}: destination"), &b, &db)?;
                    // and both still work
                    if b.try_push_back(tokn(900)) {
                        db.push_back(900)
                    }
                    a.try_pop_front();
                    da.pop_front();
                    same(&format!("{what}: source later"), &a, &da)?;
                    same(&format!("{what}: destination later"), &b, &db)?;
                }
                gone()?;
            }
        }
    }
    Ok(())
}

/// all sequences of end operations from every position
fn sequences(p: &Pos, st: &mut Stats) -> Res {
    let depth = if M == 4 { q(7, 9) } else { q(5, 7) };
    for s in 0..4u32.pow(depth) {
        {
            let (mut r, mut d) = make(p, 0);
            let mut x = s;
            for k in 0..depth {
                let e = 100 + k;
                match x % 4 {
                    0 => {
                        if r.try_push_back(tokn(e)) {
                            d.push_back(e)
                        }
                    }
                    1 => {
                        if r.try_push_front(tokn(e)) {
                            d.push_front(e)
                        }
                    }
                    2 => eq("pop_back", r.try_pop_back().map(|t| t.id()), d.pop_back())?,
                    _ => eq("pop_front", r.try_pop_front().map(|t| t.id()), d.pop_front())?,
                }
                x /= 4;
                if r.len() != d.len() || r.back().map(id) != d.back().copied() || r.get(0).map(id) != d.front().copied() {
                    return Err(format!("sequence {s}: step {k}: ends differ"));
                }
            }
            if r.iter().map(id).ne(d.iter().copied()) {
                return Err(format!("sequence {s}: contents differ"));
            }
        }
        gone().map_err(|e| format!("sequence {s}: {e}"))?;
        st.transitions += depth as u64;
        st.traces += 1;
    }
    Ok(())
}

fn visit(p: &Pos, st: &mut Stats) -> Res {
    ends(p, st)?;
    access(p, st)?;
    iterators(p, st)?;
    views(p, st)?;
    st.transitions += 10;
    st.traces += 1;
    gone()
}

/// elements of other sizes: one byte, none, and a boxed one
fn plain(p: &Pos, st: &mut Stats) -> Res {
    fn go<A: Clone + PartialEq + std::fmt::Debug>(p: &Pos, mk: impl Fn(usize) -> A, st: &mut Stats) -> Res {
        let mut r = Ring::<A>::new();
        let mut d = VecDeque::new();
        for _ in 0..p.0 {
            r.try_push_back(mk(0));
            r.try_pop_front();
        }
        for i in 0..p.1 {
            if (i + p.2) % 2 == 0 {
                r.push_back(mk(i));
                d.push_back(mk(i))
            } else {
                r.push_front(mk(i));
                d.push_front(mk(i))
            }
        }
        let c = r.clone();
        eq("contents", r.iter().cloned().collect::<Vec<_>>(), d.iter().cloned().collect::<Vec<_>>())?;
        eq("contents backwards", r.iter().rev().cloned().collect::<Vec<_>>(), d.iter().rev().cloned().collect::<Vec<_>>())?;
        eq("copy", c.into_iter().collect::<Vec<_>>(), d.iter().cloned().collect::<Vec<_>>())?;
        if p.1 > 0 {
            let mut v = unsafe { r.view() };
            let (a, b) = v.split_at(p.1 / 2);
            eq("view", a.iter().chain(b.iter()).cloned().collect::<Vec<_>>(), d.iter().cloned().collect::<Vec<_>>())?;
        }
        let mut e = Ring::<A>::new();
        r.decant_into(&mut e, Side::Back, M / 2);
        eq("after a transfer", r.into_iter().chain(e.into_iter()).collect::<Vec<_>>(), d.into_iter().collect::<Vec<_>>())?;
        st.evals += 1;
        Ok(())
    }
    go(p, |i| i as u8, st)?;
    go(p, |_| (), st)?;
    go(p, |i| vec![i; i % 5], st)?;
    go(p, |i| (i as u128, [i; 7]), st)?;
    st.traces += 1;
    Ok(())
}

pub fn parts(id: &str) -> Vec<Part> {
    if id != "C19" {
        return vec![];
    }
    let mut p = vec![
        flat("positions", "every first slot and length, built three ways; every operation, every index, pairs of indices, all iteration orders (structured ones above 8), copies, views and their splits", all, text, visit),
        flat("transfers", "every position of the source against the positions of the destination, both sides, every amount", || if M <= 8 { all() } else { some() }, text, transfers),
        flat("other element types", "elements of one byte, of no size, owning memory, and large", all, text, plain),
    ];
    if M <= 8 {
        p.push(flat("sequences", "all sequences of pushes and pops from every position", || all().into_iter().filter(|p| p.2 == 0).collect(), text, sequences));
    }
    p
}
