// ---------------------------------------------------------------- mutators (C04, C12, C13, C16, C21)

/// Something that changes a vector in place.
#[derive(Clone, Copy, Debug)]
pub enum Wr {
    Do(Op),
    Put(usize, usize),
    Ends,
    IterMut,
    IterMutSome(usize, usize),
    FocusAll,
    FocusPut(usize),
    FocusSplit(usize),
    Sort,
    SortRange(usize, usize),
    Reverse,
    ReverseRange(usize, usize),
    Dual,
    DualAsSecond,
}

fn writers(n: usize, dense: bool) -> Vec<Wr> {
    let mut a: Vec<Wr> = (if dense { alpha_full(n) } else { alpha_macro(n) }).into_iter().map(Wr::Do).collect();
    let sp = spots(n);
    let step = if dense { 1 } else { (sp.len() / 10).max(1) };
    for &i in sp.iter().step_by(step) {
        a.push(Wr::Put(0, i));
        if dense {
            a.push(Wr::Put(1, i));
            a.push(Wr::Put(2, i));
            a.push(Wr::Do(LS(i as u32)));
            a.push(Wr::Do(LE(i as u32)));
        }
        a.push(Wr::FocusPut(i));
        a.push(Wr::FocusSplit(i));
        a.push(Wr::IterMutSome(i, (n - i) / 2));
        if i + 2 <= n {
            a.push(Wr::ReverseRange(i, n));
            a.push(Wr::SortRange(i, n));
            a.push(Wr::Do(XM(i as u32, i as u32 + 2)));
            a.push(Wr::Do(XR(i as u32, n as u32 - 1)));
        }
    }
    a.extend([Wr::Ends, Wr::IterMut, Wr::FocusAll, Wr::Sort, Wr::Reverse, Wr::Dual, Wr::DualAsSecond]);
    a
}

/// descending comparator, so that sorting an ascending vector moves everything
fn desc(a: &Tok, b: &Tok) -> std::cmp::Ordering {
    b.cmp(a)
}

fn sort_model(m: &mut [u32]) {
    m.sort_by(|a, b| b.cmp(a));
}

fn apply(w: &mut World, x: Wr) -> Res {
    let n = w.m.len();
    match x {
        Wr::Do(op) => w.step(op)?,
        Wr::Put(how, i) => put(w, how, i)?,
        Wr::Ends => {
            if n > 0 {
                let t = fresh_at(w, 0);
                *w.v.front_mut().ok_or("front_mut: None")? = t;
                let t = fresh_at(w, n - 1);
                *w.v.back_mut().ok_or("back_mut: None")? = t;
            }
        }
        Wr::IterMut => {
            let ts: Vec<Tok> = (0..n).map(|i| fresh_at(w, i)).collect();
            let mut k = 0;
            for (slot, t) in w.v.iter_mut().zip(ts) {
                *slot = t;
                k += 1;
            }
            eq("elements mutably iterated", k, n)?;
        }
        Wr::IterMutSome(f, b) => {
            let (f, b) = (f.min(n), b.min(n - f.min(n)));
            let mut ts: Vec<(usize, Tok)> = vec![];
            for i in 0..f {
                ts.push((i, fresh_at(w, i)));
            }
            for i in 0..b {
                ts.push((n - 1 - i, fresh_at(w, n - 1 - i)));
            }
            let mut it = w.v.iter_mut();
            for (i, t) in ts {
                let slot = if i < f { it.next() } else { it.next_back() };
                *slot.ok_or("iter_mut ended early")? = t;
            }
        }
        Wr::FocusAll => {
            let ts: Vec<Tok> = (0..n).map(|i| fresh_at(w, i)).collect();
            let mut f = w.v.focus_mut();
            for (i, t) in ts.into_iter().enumerate() {
                *f.get(i).ok_or("focus_mut: None inside the vector")? = t;
            }
        }
        Wr::FocusPut(i) => {
            let t = fresh_at(w, i);
            let mut f = w.v.focus_mut();
            *f.index(i) = t;
        }
        Wr::FocusSplit(i) => {
            let t = fresh_at(w, i);
            let j = n - 1 - i;
            let t2 = if j != i { Some(fresh_at(w, j)) } else { None };
            let mut f = w.v.focus_mut();
            let (mut a, mut b) = f.split_at(i);
            *b.index(0) = t;
            if let Some(t) = t2 {
                if j < i {
                    *a.index(j) = t
                } else {
                    *b.index(j - i) = t
                }
            }
        }
        Wr::Sort => {
            w.v.sort_by(&desc);
            sort_model(&mut w.m);
        }
        Wr::SortRange(a, b) => {
            w.v.sort_range_by(&desc, a..b);
            sort_model(&mut w.m[a..b]);
        }
        Wr::Reverse => {
            w.v.reverse();
            w.m.reverse();
        }
        Wr::ReverseRange(a, b) => {
            w.v.reverse_range(a..b);
            w.m[a..b].reverse();
        }
        Wr::Dual | Wr::DualAsSecond => {
            // the other vector has values that reverse the order
            let mut o: V = (0..n).map(|i| tokn(i as u32)).collect();
            if let Wr::Dual = x {
                let mut pos: Vec<usize> = (0..n).collect();
                w.v.dual_sort_by(&desc, &mut o);
                pos.sort_by(|a, b| w.m[*b].cmp(&w.m[*a]));
                let om: Vec<u32> = ids(&o);
                let got: Vec<u32> = om.iter().map(|i| w.m.get(*i as usize).copied().unwrap_or(u32::MAX)).collect();
                sort_model(&mut w.m);
                eq("companions of a dual sort", got, w.m.clone())?;
            } else {
                o.dual_sort_by(&desc, &mut w.v);
                w.m.reverse();
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// A group of handles made from the state, each with its own model.
fn group(h: &[Op], g: usize) -> Result<Vec<World>, String> {
    let w = build(h)?;
    let n = w.m.len();
    let next = w.next;
    let mk = |v: V, m: Vec<u32>| World { v, m, next, kept: vec![], verify: false, inv: false };
    let (v, m) = (w.v, w.m);
    let mut ws = match g {
        0 => vec![mk(v.clone(), m.clone()), mk(v, m)],
        1 => {
            let b = v.clone();
            let c = b.clone();
            vec![mk(b, m.clone()), mk(v, m.clone()), mk(c, m)]
        }
        2 => {
            let mut l = v.clone();
            let r = l.split_off(n / 2);
            vec![mk(l, m[..n / 2].to_vec()), mk(r, m[n / 2..].to_vec()), mk(v, m)]
        }
        3 => {
            let mut l = v.clone();
            l.append(v.clone());
            let mm: Vec<u32> = m.iter().chain(m.iter()).copied().collect();
            vec![mk(l, mm), mk(v, m)]
        }
        _ => {
            // a doubled vector cut so that each half holds the same blocks
            let mut l = v.clone();
            l.append(v.clone());
            l.append(v.clone());
            let r = l.split_off(n + n / 2);
            let mm: Vec<u32> = m.iter().cycle().take(3 * n).copied().collect();
            vec![mk(l, mm[..n + n / 2].to_vec()), mk(r, mm[n + n / 2..].to_vec())]
        }
    };
    for w in ws.iter_mut() {
        w.next += 1000;
    }
    Ok(ws)
}

fn c04_all(ws: &[World], what: &str) -> Res {
    for (k, w) in ws.iter().enumerate() {
        w.verify_all(what).map_err(|e| format!("handle {k}: {e}"))?;
    }
    Ok(())
}

fn c04_visit_on(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    for g in 0..5 {
        let sizes: Vec<usize> = group(h, g)?.iter().map(|w| w.m.len()).collect();
        for a in 0..sizes.len() {
            for x in writers(sizes[a], dense) {
                beat();
                tok::reset();
                let go = || -> Res {
                    let mut ws = group(h, g)?;
                    apply(&mut ws[a], x)?;
                    c04_all(&ws, "after a change to one handle")?;
                    // and a change to the next one
                    let b = (a + 1) % ws.len();
                    let nb = ws[b].m.len();
                    if nb > 0 {
                        put(&mut ws[b], 0, nb / 2)?;
                        ws[b].step(OB)?;
                    }
                    ws[b].step(PF)?;
                    c04_all(&ws, "after a change to two handles")
                };
                go().map_err(|e| format!("group {g} handle {a} {:?}: {e}", x))?;
                st.evals += 1;
                st.traces += 1;
                errs()?;
            }
        }
    }
    Ok(())
}
fn c04_visit(h: &[Op], st: &mut Stats) -> Res {
    c04_visit_on(h, st, true)
}
fn c04_visit_towers(h: &[Op], st: &mut Stats) -> Res {
    c04_visit_on(h, st, false)
}

/// all pairs of writers: one on each of two handles, or both on one
fn c04_two(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    for x in writers(n, true) {
        beat();
        for y in writers(n, true) {
            tok::reset();
            let go = || -> Res {
                let mut ws = group(h, 1)?;
                apply(&mut ws[0], x)?;
                apply(&mut ws[2], y)?;
                c04_all(&ws, "after a change to each of two handles")
            };
            go().map_err(|e| format!("{:?} and {:?}: {e}", x, y))?;
            st.evals += 1;
        }
    }
    errs()
}

fn c04_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("groups", "five kinds of groups of handles over every reachable shape, every change to each handle", small(q(8, 10), q(3, 3), 1), trans_std, c04_visit),
            ex("two changes", "every pair of changes to two copies", small(q(5, 6), 3, 1), trans_move, c04_two),
            ex("sharing inside one vector", "every operation on vectors that repeat their own blocks", Space { seeds: vec![vec![CV(5)], vec![CV(9)], vec![CV(14)], vec![NB(3), AS], vec![NB(6), AS], vec![NB(5), AS, AS], vec![NB(9), AS], vec![NB(2), AS, AS, AS], vec![NF(7), QS, SR(3), AS]], max_depth: q(2, 3), ..full(24, 5, 1) }, trans_std, c03_visit),
            ex("tower groups", "larger vectors", towers(0), trans_std, c04_visit_towers),
        ]
    } else {
        vec![ex("tower groups", "shipped width", towers(0), trans_std, c04_visit_towers)]
    }
}

// ---------------------------------------------------------------- C05

fn trans_inv(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let mut key = None;
    for shared in [false, true] {
        let mut w = build(h)?;
        let c = if shared { Some(w.v.clone()) } else { None };
        w.inv = true;
        let before = height_of(&w.v);
        let n0 = w.m.len();
        w.step(op)?;
        eq("len", w.v.len(), w.m.len())?;
        let t = shape_ok("after the operation", &w.v, h)?;
        if let Some(c) = c {
            shape_ok("the copy", &c, h)?;
        }
        if let (Some(a), Some(b)) = (before, t) {
            height_step(op, a, b, n0, w.m.len())?;
            let (n, c) = effort(h, Some(op));
            let lim = height_limit(n, c);
            if b > lim {
                return Err(format!("height {b} after {n} elements and {c} concatenations (limit {lim})"));
            }
            st.max("tallest tree", b as u64);
        } else {
            st.count("printed trees not understood (only the crate's own assertion applies)", 1);
        }
        st.evals += 1;
        st.traces += 1;
        key.get_or_insert(vkey(h, &w.v));
    }
    Ok(key.unwrap())
}
fn height_of(v: &V) -> Option<usize> {
    shape_ok("", v, &[]).ok().flatten()
}
/// elements and concatenations used to build up the tree
fn effort(h: &[Op], op: Option<Op>) -> (usize, usize) {
    let (mut n, mut len, mut c) = (1usize, 0usize, 0usize);
    for o in h.iter().copied().chain(op) {
        match o {
            PB | PF => {
                n += 1;
                len += 1
            }
            OB | OF => len = len.saturating_sub(1),
            NB(k) | NF(k) | CV(k) | FI(k) => {
                n += k as usize;
                len += k as usize;
                if let CV(_) = o {
                    c += 64
                }
            }
            AF(k) | QF(k) => {
                n += k as usize;
                len += k as usize;
                c += 1
            }
            AS | QS => {
                n += len;
                len *= 2;
                c += 1
            }
            IN(_) => {
                n += 1;
                len += 1;
                c += 2
            }
            RM(_) | RO(_) | XR(_, _) => c += 1,
            AP(i) | QP(i) => {
                let (a, b) = effort(&lib_get(i), None);
                n += a;
                len += a;
                c += b + 1
            }
            _ => {}
        }
    }
    (n, c)
}
fn lg(x: usize) -> usize {
    (usize::BITS - x.leading_zeros()) as usize
}
/// The documented O(log N + log C), with constants generous enough for the width
pub fn height_limit(n: usize, c: usize) -> usize {
    let base = if M <= 4 { 1 } else { M.trailing_zeros() as usize - 1 };
    lg(n) / base + 2 + 2 * lg(c)
}
/// the height if it can be seen, otherwise the tallest the history allows
fn tall_at_most(h: &[Op], v: &V) -> usize {
    height_of(v).or_else(|| height_seen(&format!("{:?}", v))).unwrap_or_else(|| {
        let (n, c) = effort(h, None);
        height_limit(n, c) + c / (M / 2).max(2)
    })
}
/// how one operation may change the height
fn height_step(op: Op, a: usize, b: usize, n0: usize, n1: usize) -> Res {
    let dense = |n: usize| {
        let (mut t, mut cap) = (0, M);
        while cap < n {
            cap = cap.saturating_mul((M / 2).max(2));
            t += 1
        }
        t
    };
    let limit = match op {
        OB | OF | SL(_) | SR(_) | LS(_) | LE(_) | DB(_) | DF(_) | MU(_) | FT | KC | RV => a,
        PB | PF => a + 1,
        AS | QS | RM(_) => a + 1,
        RO(_) => a + 1,
        XM(_, _) => a,
        XR(_, _) => a + 1,
        IN(_) => a + 2,
        AF(k) | QF(k) => a.max(dense(k as usize)) + 1,
        NB(_) | NF(_) => a.max(dense(n1)) + 1,
        CV(_) | FI(_) => dense(n1) + 2,
        AP(_) | QP(_) => usize::MAX,
    };
    if b > limit {
        return Err(format!("{} takes a tree of {n0} elements and height {a} to {n1} elements and height {b}", op.text()));
    }
    Ok(())
}

fn c05_visit(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp = spots(n);
    let step = if n <= 80 { 1 } else { (sp.len() / 8).max(1) };
    for shared in [false, true] {
        let mut run = |what: &str, f: &mut dyn FnMut(&mut World) -> Res| -> Res {
            let mut w = build(h)?;
            let c = if shared { Some(w.v.clone()) } else { None };
            let mut go = |w: &mut World| -> Res {
                f(w)?;
                shape_ok("after it", &w.v, h)?;
                if let Some(c) = &c {
                    shape_ok("the copy after it", c, h)?;
                }
                w.step(PF)?;
                w.step(PB)?;
                shape_ok("pushes after it", &w.v, h)?;
                w.step(SL(n as u32 / 2))?;
                shape_ok("a split after it", &w.v, h)?;
                Ok(())
            };
            st.evals += 3;
            go(&mut w).map_err(|e| format!("{what} shared {shared}: {e}"))
        };
        for x in [Wr::Ends, Wr::IterMut, Wr::IterMutSome(n / 3, n / 4), Wr::FocusAll, Wr::Sort, Wr::Reverse, Wr::Dual, Wr::DualAsSecond] {
            run(&format!("{:?}", x), &mut |w| apply(w, x))?;
        }
        for &i in sp.iter().step_by(step) {
            for x in [Wr::Put(0, i), Wr::Put(2, i), Wr::FocusPut(i), Wr::FocusSplit(i), Wr::ReverseRange(i, n), Wr::SortRange(0, i)] {
                run(&format!("{:?}", x), &mut |w| apply(w, x))?;
            }
            run(&format!("slice_from_start({i})"), &mut |w| w.step(LS(i as u32)))?;
            run(&format!("slice_to_end({i})"), &mut |w| w.step(LE(i as u32)))?;
            run(&format!("extract from {i}"), &mut |w| {
                w.inv = true;
                w.step(XM(i as u32, (i + (n - i) / 2) as u32))
            })?;
            run(&format!("consume {i} by iteration"), &mut |w| {
                let v = std::mem::replace(&mut w.v, V::new());
                let rest: V = v.into_iter().skip(i).collect();
                w.v = rest;
                w.m.drain(..i);
                Ok(())
            })?;
        }
    }
    Ok(())
}

/// What the documentation promises about height, over histories far longer than the searches go.
#[derive(Clone)]
pub struct Long(pub &'static str, pub Vec<Op>, pub Vec<Op>, pub usize);
pub fn c05_long(c: &Long, st: &mut Stats) -> Res {
    let Long(name, pre, cycle, rounds) = c;
    let mut w = build(pre)?;
    w.verify = false;
    // elements and concatenations so far
    let (mut n, mut c) = effort(pre, None);
    let mut told = false;
    for r in 0..*rounds {
        for o in cycle {
            let len = w.m.len();
            // positions in a cycle are given in percent of the length
            let at = |p: u32| (p as u64 * len as u64 / 100) as u32;
            let o = match *o {
                IN(p) => IN(at(p)),
                RM(p) => RM(at(p)),
                SL(p) => SL(at(p)),
                SR(p) => SR(at(p)),
                RO(p) => RO(at(p)),
                o => o,
            };
            w.step(o)?;
            match o {
                AS | QS => {
                    n += len;
                    c += 1
                }
                o => {
                    let (a, b) = effort(&[o], None);
                    n += a - 1;
                    c += b
                }
            }
        }
        if r % 16 == 0 || r + 1 == *rounds {
            let b = height_in(&format!("{:?}", w.v)); // 0 if it cannot be seen
            let lim = height_limit(n, c);
            st.max(&format!("height after long runs of {name}"), b as u64);
            if b > lim && !told {
                told = true;
                st.findings.push((name.to_string(), format!("height {b} after {} rounds: {n} elements and {c} concatenations (the documented growth allows {lim})", r + 1)));
            }
            // where the documented growth is not met (see KNOWN_FINDINGS), it is at least not worse than this
            let steep = lim + c / (M / 2).max(2);
            if b > steep {
                return Err(format!("height {b} after {} rounds: {n} elements and {c} concatenations (limit {steep})", r + 1));
            }
            shape_ok("long run", &w.v, &[])?;
        }
    }
    w.verify_all("after a long run")?;
    st.evals += 1;
    errs()
}

fn c05_parts() -> Vec<Part> {
    let long = || {
        let m = M as u32;
        let k = q(300, 1500);
        vec![
            Long("append and drop half", vec![NB(2 * m)], vec![AF(m), SR(50)], k),
            Long("rotate", vec![NB(m * m + m)], vec![RO(40)], k),
            Long("queue of blocks", vec![NB(3 * m)], vec![AF(m - 1), DF(m - 1)], k),
            Long("insert in the middle", vec![NB(2 * m)], vec![IN(50)], if M < 64 { 1200 } else { q(2000, 20_000) }),
            Long("remove in the middle", vec![NB(m * m)], vec![RM(50)], k.min(M * M - 5)),
            Long("doubling and halving", vec![NB(m + 1)], vec![AS, SL(50)], k),
            Long("prepend", vec![NB(2)], vec![QF(m / 2 + 1)], if M < 64 { 200 } else { 900 }),
            Long("append", vec![NB(2)], vec![AF(m / 2 + 1)], if M < 64 { 200 } else { 900 }),
            Long("insert and remove", vec![NB(m * 3)], vec![IN(30), RM(70)], k),
        ]
    };
    let mut p = if M < 64 {
        vec![
            ex("shapes", "every operation at every position of every reachable shape, unshared and with a copy alive; on each shape every other kind of change", full(q(12, 13), q(2, 3), 1), trans_inv, c05_visit),
            ex("taller shapes", "the same", full(q(10, 11), q(4, 7), 1), trans_inv, c05_visit),
            ex("several histories per shape", "the same", full(q(8, 10), 3, 3), trans_inv, visit_none),
            ex("end-operation shapes", "all sequences of pushes and pops", Space { alpha: alpha_end, ..small(q(150, 400), 9, 1) }, trans_inv, visit_none),
            ex("towers", "larger vectors, macro operations", towers(q(1, 2)), trans_inv, c05_visit),
        ]
    } else {
        vec![ex("towers", "shipped width, macro operations", towers(q(1, 2)), trans_inv, c05_visit_ship)]
    };
    p.push(list("long histories", "height after long repetitive histories", long, |c| c.0.to_string(), c05_long));
    p
}
fn c05_visit_ship(h: &[Op], st: &mut Stats) -> Res {
    if h.len() <= 1 {
        c05_visit(h, st)
    } else {
        Ok(())
    }
}
include!("props3.rs");
