// Included at the end of kind.rs: what is explored for each property.
use crate::engine::Space;
use crate::{Part, ReplayF, RunF};
use std::ops::Bound;
use std::sync::Arc as Shr;

type TransF = fn(&[Op], Op, &mut Stats) -> Result<Succ, String>;
type VisitF = fn(&[Op], &mut Stats) -> Res;

/// quick or thorough bound
fn q(a: usize, b: usize) -> usize {
    if thorough() {
        b
    } else {
        a
    }
}

/// A breadth-first exploration.
fn ex(name: &str, bound: &str, space: Space, trans: TransF, visit: VisitF) -> Part {
    let name = format!("{} {} w{}", name, KIND, M);
    let bound = format!("{name}: {bound}; seeds {}, lengths <= {}, heights <= {}, depth <= {}, {} histories per shape", space.seeds.len(), space.max_len, space.max_height, space.max_depth, space.multi);
    let alpha = space.alpha;
    let max_len = space.max_len;
    let run: RunF = Box::new(move |st| {
        let (f, s, v) = bfs(&space, &root_std, &trans, &visit);
        st.merge(s);
        st.bounds.push(bound.clone());
        for i in [0, f.len() / 3, f.len() / 2, f.len().saturating_sub(1)] {
            if i < f.len() {
                st.sample(|| hist_text(&f.hist(i)));
            }
        }
        v
    });
    let replay: ReplayF = Box::new(move |case| {
        let h = parse(case)?;
        let mut st = Stats::default();
        let mut go = |f: &mut dyn FnMut(&mut Stats) -> Res| -> Res {
            tok::reset();
            guard(|| f(&mut st)).and_then(|r| r)
        };
        go(&mut |st| root_std(&h, st).map(|_| ()))?;
        if let Some((last, pre)) = h.split_last() {
            go(&mut |st| trans(pre, *last, st).map(|_| ()))?;
        }
        go(&mut |st| visit(&h, st))?;
        let n = build(&h)?.m.len();
        if n <= max_len {
            for op in alpha(n) {
                go(&mut |st| trans(&h, op, st).map(|_| ())).map_err(|e| format!("then {}: {e}", op.text()))?;
            }
        }
        Ok(())
    });
    Part { name, run, replay }
}

/// A list of printable cases.
fn list<C: Sync + Send + 'static>(name: &str, bound: &str, cases: impl Fn() -> Vec<C> + 'static, text: fn(&C) -> String, visit: fn(&C, &mut Stats) -> Res) -> Part {
    let name = format!("{} {} w{}", name, KIND, M);
    let bound = format!("{name}: {bound}");
    let cases = std::rc::Rc::new(cases);
    let cases2 = cases.clone();
    let run: RunF = Box::new(move |st| {
        let cs = cases();
        let (mut s, v) = each_n(cs.len(), &|i| text(&cs[i]), &|i, st| visit(&cs[i], st));
        s.states += cs.len() as u64;
        s.traces += cs.len() as u64;
        st.merge(s);
        st.bounds.push(format!("{bound}; {} cases", cs.len()));
        for i in [0, cs.len() / 2, cs.len().saturating_sub(1)] {
            if i < cs.len() {
                st.sample(|| text(&cs[i]));
            }
        }
        v
    });
    let replay: ReplayF = Box::new(move |case| {
        let mut st = Stats::default();
        for c in cases2() {
            if text(&c) == case {
                tok::reset();
                return guard(|| visit(&c, &mut st)).and_then(|r| r);
            }
        }
        Err(format!("no such case {case}"))
    });
    Part { name, run, replay }
}

fn hists(name: &str, bound: &str, cases: impl Fn() -> Vec<Vec<Op>> + 'static, visit: fn(&Vec<Op>, &mut Stats) -> Res) -> Part {
    list(name, bound, cases, |h| hist_text(h), visit)
}

// ---------------------------------------------------------------- the spaces

/// every shape reachable with `alpha_shape` within the length and height
fn small(max_len: usize, max_height: usize, multi: u8) -> Space {
    Space { seeds: vec![vec![]], alpha: alpha_shape, max_len, max_height, max_depth: 200, max_states: 400_000, multi }
}
fn full(max_len: usize, max_height: usize, multi: u8) -> Space {
    Space { alpha: alpha_full, ..small(max_len, max_height, multi) }
}

/// histories of all states of a space
fn states_of(space: &Space) -> Vec<Vec<Op>> {
    let (f, _, _) = bfs(space, &root_quiet, &trans_quiet, &visit_none);
    f.hists()
}
fn root_quiet(h: &[Op], _st: &mut Stats) -> Result<Succ, String> {
    Ok(vkey(h, &build(h)?.v))
}
fn trans_quiet(h: &[Op], op: Op, _st: &mut Stats) -> Result<Succ, String> {
    let mut w = build(h)?;
    w.verify = false;
    w.step(op)?;
    Ok(vkey(h, &w.v))
}

/// larger vectors of many kinds
fn tower_seeds() -> Vec<Vec<Op>> {
    let m = M as u32;
    let mid = |n: u32, k: u32| {
        let mut h = vec![NB(n)];
        for i in 0..k {
            h.push(IN(n / 2 + (i * 7) % (n / 2)));
            h.push(RM((i * 11) % n));
        }
        h
    };
    let mut s = vec![
        vec![],
        vec![NB(m)],
        vec![NB(m + 1)],
        vec![NB(2 * m)],
        vec![NB(2 * m + 1)],
        vec![NB(m * m)],
        vec![NB(m * (m - 2) + 2 * m)],
        vec![NB(m * (m - 2) + 2 * m + 1)],
        vec![NF(m * m + m)],
        vec![NF(m + 1), NB(m * m + 3)],
        vec![NB(m * m), DF(m + 2)],
        vec![FI(m * m + 2 * m + 3)],
        vec![CV(m * m + 1)],
        vec![NB(m * 3 + 2), AS, AS],
        vec![NB(m + 3), AS, SR(m / 2), AS, SL(2 * m)],
        vec![NB(m * m), SR(m + 1), AF(m * m - 5)],
        vec![NB(m * m + 5), RO(m * 3)],
        vec![NF(m * 5 + 1), NB(m * 5 + 1), XR(m, 3 * m + 1)],
        mid(3 * m + 2, 12),
        mid(m * m, 6),
        vec![NB(m * m + m), FT],
        vec![NB(m * m + m), KC, RM(m * 3)],
    ];
    if M <= 8 {
        let b = m * m * m;
        s.extend(vec![
            vec![NB(b + 7)],
            vec![NF(b + 7)],
            vec![NB(b), NF(b)],
            vec![NB(b * m + 9)],
            vec![NB(b), DF(m * m + 1)],
            vec![NF(b), DB(m * m * 3 + 1)],
            vec![NB(7), AS, AS, AS, AS],
            vec![NB(b), AS, SL(b + m), SR(m * m + 1)],
            vec![NB(b * 2), XR(b / 2, b + b / 2)],
            mid(b, 20),
            mid(b, 60),
            vec![NB(b), KC, IN(m * m)],
        ]);
    }
    s
}
fn towers(depth: usize) -> Space {
    Space { seeds: tower_seeds(), alpha: alpha_macro, max_len: if M <= 8 { 1500 } else { 20_000 }, max_height: 30, max_depth: depth, max_states: 400_000, multi: 1 }
}

/// an element order to visit positions of a long vector by: everything if short, marks if long
fn spots(n: usize) -> Vec<usize> {
    if n <= 80 {
        (0..n).collect()
    } else {
        let mut p = marks(n);
        p.retain(|x| *x < n);
        p
    }
}

fn errs() -> Res {
    match tok::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Replaces the element at `i` in the model and gives the new token.
fn fresh_at(w: &mut World, i: usize) -> Tok {
    let id = w.fresh();
    w.m[i] = id;
    tokn(id)
}

/// The state with every position holding its own element, numbered by position.
fn renumber(w: &mut World) {
    for i in 0..w.m.len() {
        if let Some(t) = w.v.get_mut(i) {
            *t = tokn(i as u32)
        }
        w.m[i] = i as u32;
    }
    w.next = w.m.len() as u32;
}

fn sr(i: Bound<usize>, j: Bound<usize>) -> (Bound<usize>, Bound<usize>) {
    (i, j)
}
/// every way to write the range i..j of a vector of n elements
fn ranges(i: usize, j: usize, n: usize) -> Vec<(Bound<usize>, Bound<usize>)> {
    use Bound::*;
    let mut s = vec![Included(i)];
    if i == 0 {
        s.push(Unbounded)
    } else {
        s.push(Excluded(i - 1))
    }
    let mut e = vec![Excluded(j)];
    if j == n {
        e.push(Unbounded)
    }
    if j > 0 {
        e.push(Included(j - 1))
    }
    let mut r = vec![];
    for a in &s {
        for b in &e {
            r.push(sr(*a, *b))
        }
    }
    r
}

// ---------------------------------------------------------------- C01

fn c01_run(h: &[Op], shared: bool, seq: u32, depth: u32, st: &mut Stats) -> Res {
    let mut w = build(h)?;
    let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
    let mut s = seq;
    let mut text = String::new();
    for _ in 0..depth {
        let op = [PB, PF, OB, OF][(s % 4) as usize];
        s /= 4;
        text.push(' ');
        text.push_str(&op.text());
        w.step(op).map_err(|e| format!("then{text}: {e}"))?;
        ends("after an end operation", &w.v, &w.m).map_err(|e| format!("then{text}: {e}"))?;
        st.evals += 1;
    }
    w.verify_all("after end operations").map_err(|e| format!("then{text}: {e}"))?;
    if let Some((c, m)) = copy {
        chk("the copy", &c, &m).map_err(|e| format!("then{text}: {e}"))?;
    }
    errs()
}

fn c01_drains(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len() as u32;
    for shared in [false, true] {
        for how in 0..4 {
            let mut w = build(h)?;
            let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
            let go = |w: &mut World| -> Res {
                match how {
                    0 => w.step(DB(n + 2))?,
                    1 => w.step(DF(n + 2))?,
                    _ => {
                        for i in 0..n + 2 {
                            w.step(if (i + how) % 2 == 0 { OB } else { OF })?;
                            ends("alternating pops", &w.v, &w.m)?;
                        }
                    }
                }
                w.step(OB)?;
                w.step(OF)?;
                w.verify_all("drained")?;
                let k = 2 * M as u32 + 1;
                w.step(if how % 2 == 0 { NB(k) } else { NF(k) })?;
                w.step(if how % 2 == 0 { NF(k) } else { NB(k) })?;
                w.verify_all("refilled")
            };
            go(&mut w).map_err(|e| format!("drain pattern {how} shared {shared}: {e}"))?;
            if let Some((c, m)) = copy {
                chk("the copy", &c, &m)?;
            }
            st.evals += 1;
        }
        // writing the ends
        let mut w = build(h)?;
        let c = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
        for side in 0..2 {
            let id = w.fresh();
            let n = w.m.len();
            let slot = if side == 0 { w.v.front_mut() } else { w.v.back_mut() };
            match slot {
                Some(t) => {
                    let at = if side == 0 { 0 } else { n - 1 };
                    if n == 0 {
                        return Err("an end of an empty vector".into());
                    }
                    eq("front_mut/back_mut", t.id(), w.m[at])?;
                    *t = tokn(id);
                    w.m[at] = id;
                }
                None if n > 0 => return Err("front_mut/back_mut: None on a non-empty vector".into()),
                None => {}
            }
        }
        w.verify_all("after writing both ends")?;
        if let Some((c, m)) = c {
            chk("the copy", &c, &m)?;
        }
    }
    errs()
}

fn c01_visit(h: &[Op], st: &mut Stats) -> Res {
    let d = q(3, 4) as u32;
    for shared in [false, true] {
        for seq in 0..4u32.pow(d) {
            c01_run(h, shared, seq, d, st)?;
        }
    }
    c01_drains(h, st)
}

fn c01_ship_visit(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    for shared in [false, true] {
        for seq in 0..16 {
            c01_run(h, shared, seq, 2, st)?;
        }
    }
    if n <= 6000 {
        c01_drains(h, st)?;
    }
    Ok(())
}

fn trans_fine(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let (_, n, t) = trans_std(h, op, st)?;
    let w = {
        let mut w = build(h)?;
        w.step(op)?;
        w
    };
    Ok((fine_key(&w.v), n, t))
}

#[derive(Clone)]
struct Fill(u32, u32, u32);
fn c01_fill(c: &Fill, st: &mut Stats) -> Res {
    let Fill(k, fill, drain) = *c;
    let mut w = World::new();
    match fill {
        0 => w.step(NB(k))?,
        1 => w.step(NF(k))?,
        2 => {
            for i in 0..k {
                w.step(if i % 2 == 0 { PB } else { PF })?;
            }
        }
        _ => {
            // grow by two, shrink by one
            for i in 0..k {
                w.step([PB, PB, OF, PF, PF, OB][(i % 6) as usize])?;
            }
        }
    }
    ends("filled", &w.v, &w.m)?;
    w.verify_all("filled")?;
    shape_ok("filled", &w.v, &[])?;
    let n = w.m.len() as u32;
    match drain {
        0 => w.step(DB(n + 1))?,
        1 => w.step(DF(n + 1))?,
        2 => {
            w.step(DB(n / 2))?;
            w.verify_all("half drained")?;
            w.step(DF(n))?
        }
        _ => {
            w.step(DF(n - n / 4))?;
            w.verify_all("mostly drained")?;
            w.step(NF(n / 2))?;
            w.step(DB(n))?
        }
    }
    w.verify_all("drained")?;
    st.evals += 1;
    errs()
}

fn c01_dfs(c: &(Vec<Op>, u32, u32), st: &mut Stats) -> Res {
    // all sequences extending one four-step prefix, by replay
    let (seed, prefix, depth) = c;
    for rest in 0..4u32.pow(depth - 4) {
        c01_run(seed, false, prefix + 256 * rest, *depth, st)?;
    }
    st.traces += 4u64.pow(depth - 4);
    Ok(())
}

fn c01_parts() -> Vec<Part> {
    let m = M as u32;
    if M < 64 {
        vec![
            ex("end-operation shapes", "all sequences of pushes and pops, every reachable shape", Space { alpha: alpha_end, ..small(q(110, 330), 9, 1) }, trans_std, |h, st| if h.len() % 5 == 0 { c01_drains(h, st) } else { Ok(()) }),
            ex("end-operation states", "all sequences of pushes and pops, states told apart by shape and by where each block wraps around", Space { alpha: alpha_end, ..small(q(26, 40), 9, 1) }, trans_fine, visit_none),
            ex("mixed shapes", "every reachable shape; on each every end-operation sequence, drains and refills, with and without a copy", full(q(11, 12), q(2, 3), 1), trans_std, c01_visit),
            ex("several histories per shape", "as above", small(9, 3, 3), trans_std, c01_visit),
            ex("towers", "larger vectors, macro operations", towers(q(1, 2)), trans_std, c01_ship_visit),
            list(
                "sequences",
                "every sequence of end operations",
                || {
                    let mut c = vec![];
                    for seed in [vec![], vec![NB(3)], vec![NB(M as u32)], vec![NF(5)], vec![NB(9)], vec![NB(4), OF, PB], vec![NF(M as u32 * 3), NB(2)]] {
                        for p in 0..256 {
                            c.push((seed.clone(), p, q(8, 10) as u32));
                        }
                    }
                    c
                },
                |c| format!("{} then {} of {}", hist_text(&c.0), c.1, c.2),
                c01_dfs,
            ),
            list("fills", "filling and draining in every pattern", move || (1..q(400, 1500) as u32).flat_map(|k| (0..16).map(move |p| Fill(k, p / 4, p % 4))).filter(|f| f.0 <= 260 || f.0 % 7 == 0).collect(), |f| format!("fill {} pattern {} drain {}", f.0, f.1, f.2), c01_fill),
        ]
    } else {
        vec![
            ex("towers", "shipped width, macro operations", towers(q(1, 2)), trans_std, c01_ship_visit),
            list(
                "fills",
                "filling and draining in every pattern",
                move || {
                    let mut ks: Vec<u32> = vec![1, 2, m - 1, m, m + 1, 2 * m, 2 * m + 1, 3 * m, m * m - 1, m * m, m * m + 1, m * (m - 2), m * (m - 2) + 2 * m, m * (m - 2) + 2 * m + 1, 2 * m * m + 3, m * m * 6];
                    if thorough() {
                        ks.extend([m * m * 30, m * m * m + 17, m * m * m * 2]);
                    }
                    let mut c: Vec<Fill> = ks.iter().flat_map(|k| (0..16).map(move |p| Fill(*k, p / 4, p % 4))).collect();
                    c.push(Fill(m * m * m - m * m, 0, 1));
                    c.push(Fill(m * m * m + m * m * 2 + 5, 0, 3));
                    c.retain(|f| f.0 < m * m * 6 || f.1 < 2 || thorough());
                    // prefixes of an alternating fill are quadratic in the model
                    c.retain(|f| f.1 < 2 || f.0 <= m * m * 6);
                    c.reverse();
                    c
                },
                |f| format!("fill {} pattern {} drain {}", f.0, f.1, f.2),
                c01_fill,
            ),
        ]
    }
}

// ---------------------------------------------------------------- C02

fn c02_slices(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = {
        let mut s = spots(n);
        s.push(n);
        if n > 80 {
            let step = (s.len() / 10).max(1);
            s = s.into_iter().step_by(step).collect();
        }
        s
    };
    for shared in [false, true] {
        let mut run = |what: String, f: &mut dyn FnMut(&mut World) -> Res| -> Res {
            let mut w = build(h)?;
            let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
            f(&mut w).map_err(|e| format!("{what} shared {shared}: {e}"))?;
            w.verify_all(&what)?;
            if let Some((c, m)) = copy {
                chk("the copy", &c, &m).map_err(|e| format!("{what}: {e}"))?;
            }
            st.evals += 1;
            errs()
        };
        for &i in &sp {
            run(format!("slice_from_start({i})"), &mut |w| w.step(LS(i as u32)))?;
            run(format!("slice_to_end({i})"), &mut |w| w.step(LE(i as u32)))?;
            for &j in &sp {
                if j < i {
                    continue;
                }
                for (t, r) in ranges(i, j, n).into_iter().enumerate() {
                    if t > 0 && (i + j + t) % 3 != 0 && n > 6 {
                        continue;
                    }
                    run(format!("extract_slice({:?})", r), &mut |w| {
                        let x = w.v.extract_slice(r);
                        let xm: Vec<u32> = w.m.drain(i..j).collect();
                        chk("extract_slice result", &x, &xm)?;
                        // and put back the other way round
                        w.v.prepend(x);
                        w.m.splice(0..0, xm);
                        Ok(())
                    })?;
                }
            }
        }
        for past in [n + 1, n + M, 3 * n + 7] {
            run(format!("past the end {past}"), &mut |w| {
                let r = w.v.split_off(past);
                chk("split_off past the end", &r, &[])?;
                eq("remove past the end", w.v.remove(past).map(|t| t.id()), None)?;
                if past > n {
                    eq("remove past the end", w.v.remove(n).map(|t| t.id()), None)?;
                }
                w.step(LS(past as u32))?;
                w.step(IN(past as u32))
            })?;
        }
        run("slice_to_end(len + 1)".into(), &mut |w| w.step(LE(n as u32 + 1)))?;
    }
    Ok(())
}

type Pool = Shr<Vec<Vec<Op>>>;
fn pool(space: Space) -> Vec<(Pool, usize)> {
    let p: Pool = Shr::new(states_of(&space));
    (0..p.len()).map(|i| (p.clone(), i)).collect()
}
fn pool_text(c: &(Pool, usize)) -> String {
    hist_text(&c.0[c.1])
}

/// everything appended and prepended to this state
fn c02_pairs(c: &(Pool, usize), st: &mut Stats) -> Res {
    let h = &c.0[c.1];
    for g in c.0.iter() {
        beat();
        tok::reset();
        for pre in [false, true] {
            let mut w = build(h)?;
            let (o, om) = w.other(g)?;
            if pre {
                w.v.prepend(o);
                w.m.splice(0..0, om);
            } else {
                w.v.append(o);
                w.m.extend(om);
            }
            st.evals += 1;
            chk(if pre { "prepend" } else { "append" }, &w.v, &w.m).map_err(|e| format!("with the vector of ({}): {e}", hist_text(g)))?;
        }
        errs()?;
    }
    Ok(())
}
/// the same with both operands shared
fn c02_pairs_shared(c: &(Pool, usize), st: &mut Stats) -> Res {
    let h = &c.0[c.1];
    for g in c.0.iter() {
        beat();
        tok::reset();
        let mut w = build(h)?;
        let (o, om) = w.other(g)?;
        let (hc, hm) = (w.v.clone(), w.m.clone());
        let mut p = o.clone();
        let mut r = w.v.clone();
        let fail = |e: String| format!("with the shared vector of ({}): {e}", hist_text(g));
        w.v.append(o.clone());
        w.m.extend(om.clone());
        chk("append", &w.v, &w.m).map_err(fail)?;
        p.prepend(hc.clone());
        chk("prepend", &p, &w.m).map_err(fail)?;
        r.prepend(o.clone());
        let rm: Vec<u32> = om.iter().chain(hm.iter()).copied().collect();
        chk("prepend", &r, &rm).map_err(fail)?;
        chk("the receiver's copy", &hc, &hm).map_err(fail)?;
        chk("the argument's copy", &o, &om).map_err(fail)?;
        st.evals += 3;
        errs()?;
    }
    Ok(())
}

fn c02_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every operation at every position of every reachable shape, unshared and with a copy alive; on each shape every slice and extraction", full(q(11, 12), q(2, 3), 1), trans_std, c02_slices),
            ex("taller shapes", "every operation at every position", full(q(9, 10), q(5, 7), 1), trans_std, c02_slices),
            ex("several histories per shape", "every operation at every position", full(q(8, 10), 3, 3), trans_std, visit_none),
            list("pairs", "every reachable shape appended and prepended to every other", || pool(small(q(9, 10), q(2, 3), 1)), pool_text, c02_pairs),
            list("shared pairs", "the same with copies of both alive", || pool(small(q(8, 9), 3, 1)), pool_text, c02_pairs_shared),
            ex("towers", "larger vectors, macro operations", towers(q(1, 2)), trans_std, c02_slices),
            list("tower pairs", "larger vectors appended and prepended to each other", || pool(towers(0)), pool_text, c02_pairs),
            list("tower pairs, shared", "the same with copies of both alive", || pool(towers(0)), pool_text, c02_pairs_shared),
            elem_part(q(3, 4) as u32),
        ]
    } else {
        vec![
            elem_part(q(2, 3) as u32),
            ex("towers", "shipped width, macro operations", towers(q(1, 2)), trans_std, if thorough() { visit_none } else { c02_slices_small }),
            list("tower pairs", "larger vectors appended and prepended to each other", || pool(towers(0)), pool_text, c02_pairs),
            list("tower pairs, shared", "the same with copies of both alive", || pool(towers(0)), pool_text, c02_pairs_shared),
        ]
    }
}
fn c02_slices_small(h: &[Op], st: &mut Stats) -> Res {
    if h.len() <= 1 || h.len() % 3 == 0 {
        c02_slices(h, st)
    } else {
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

/// positions behind the end, among them those that become valid ones when cut to fewer bits
fn far(n: usize) -> Vec<usize> {
    let mut f = vec![n, n + 1, n + M, 2 * n + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    for b in [8, 16, 32, 48, 63] {
        for d in [0, 1, n / 2, n] {
            f.push((1usize << b) + d);
        }
    }
    f.push(0usize.wrapping_sub(n));
    f.push(0usize.wrapping_sub(n / 2 + 1));
    f.retain(|x| *x >= n);
    f
}
fn c03_reads(w: &mut World, st: &mut Stats) -> Res {
    let n = w.m.len();
    let far = far(n);
    for i in 0..n {
        eq("get", w.v.get(i).map(|t| t.id()), Some(w.m[i])).map_err(|e| format!("position {i}: {e}"))?;
        eq("index", w.v[i].id(), w.m[i]).map_err(|e| format!("position {i}: {e}"))?;
    }
    for i in far {
        if w.v.get(i).is_some() {
            return Err(format!("get({i}) yields an element of a vector of {n}"));
        }
        if !panics(|| w.v[i].id()) {
            return Err(format!("index {i} does not panic on a vector of {n}"));
        }
    }
    st.evals += 2 * n as u64 + 14;
    Ok(())
}
fn c03_muts(w: &mut World, st: &mut Stats) -> Res {
    let n = w.m.len();
    let far = far(n);
    for i in far {
        if w.v.get_mut(i).is_some() {
            return Err(format!("get_mut({i}) yields an element of a vector of {n}"));
        }
        if w.v.get_mut_guarded(i).is_some() {
            return Err(format!("get_mut_guarded({i}) yields an element of a vector of {n}"));
        }
        if !panics(|| w.v.index_mut_id(i)) {
            return Err(format!("mutable index {i} does not panic on a vector of {n}"));
        }
    }
    for i in 0..n {
        eq("get_mut", w.v.get_mut(i).map(|t| t.id()), Some(w.m[i])).map_err(|e| format!("position {i}: {e}"))?;
        eq("get_mut_guarded", w.v.get_mut_guarded(i).map(|t| t.id()), Some(w.m[i])).map_err(|e| format!("position {i}: {e}"))?;
        eq("mutable index", w.v.index_mut_id(i), w.m[i]).map_err(|e| format!("position {i}: {e}"))?;
    }
    st.evals += 3 * n as u64 + 21;
    w.verify_all("after mutable borrows")
}
trait IdxMut {
    fn index_mut_id(&mut self, i: usize) -> u32;
}
impl IdxMut for V {
    fn index_mut_id(&mut self, i: usize) -> u32 {
        (&mut self[i]).id()
    }
}
fn put(w: &mut World, how: usize, i: usize) -> Res {
    let t = fresh_at(w, i);
    match how {
        0 => *w.v.get_mut(i).ok_or("get_mut: None inside the vector")? = t,
        1 => w.v[i] = t,
        _ => {
            let mut g = w.v.get_mut_guarded(i).ok_or("get_mut_guarded: None inside the vector")?;
            *g = t;
        }
    }
    Ok(())
}
fn c03_visit(h: &[Op], st: &mut Stats) -> Res {
    let mut w = build(h)?;
    c03_reads(&mut w, st)?;
    let c = w.v.clone();
    let cm = w.m.clone();
    c03_reads(&mut w, st)?;
    c03_muts(&mut w, st)?;
    chk("the copy", &c, &cm)?;
    drop(c);
    c03_muts(&mut w, st)?;
    let n = w.m.len();
    let sp = spots(n);
    for shared in [false, true] {
        for &i in &sp {
            for how in 0..3 {
                let mut w = build(h)?;
                let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
                put(&mut w, how, i)?;
                w.verify_all(&format!("after writing position {i} ({how})"))?;
                let j = (i * 5 + 3) % n;
                put(&mut w, (how + 1) % 3, j)?;
                w.verify_all(&format!("after writing positions {i} and {j} ({how})"))?;
                if let Some((c, m)) = copy {
                    chk("the copy", &c, &m).map_err(|e| format!("after writing {i}: {e}"))?;
                }
                st.evals += 2;
            }
        }
    }
    // writes everywhere, in both directions, then pushes (size tables must have been kept)
    for rev in [false, true] {
        let mut w = build(h)?;
        for &i in &sp {
            put(&mut w, i % 3, if rev { n - 1 - i } else { i })?;
        }
        w.verify_all("after writing everywhere")?;
        w.step(PB)?;
        w.step(PF)?;
        if n > 1 {
            w.step(SL(n as u32 / 2))?;
        }
        w.verify_all("operations after writing everywhere")?;
    }
    errs()
}
fn c03_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every position of every reachable shape read and written", full(q(12, 13), 2, 1), trans_move, c03_visit),
            ex("taller shapes", "the same", full(q(10, 11), q(4, 6), 1), trans_move, c03_visit),
            ex("several histories per shape", "the same", small(9, 3, 3), trans_move, c03_visit),
            ex("towers", "larger vectors", towers(q(1, 1)), trans_move, c03_visit),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(q(0, 1)), trans_move, c03_visit), ex("after one macro", "shipped width, every position read after each macro operation", towers(1), trans_move, c03_read_visit)]
    }
}
fn c03_read_visit(h: &[Op], st: &mut Stats) -> Res {
    let mut w = build(h)?;
    c03_reads(&mut w, st)?;
    let c = w.v.clone();
    let cm = w.m.clone();
    let n = w.m.len();
    for k in 0..8 {
        if n > 0 {
            put(&mut w, k % 3, (k * n / 8 + k) % n)?;
        }
    }
    w.verify_all("after writing eight positions")?;
    chk("the copy", &c, &cm)
}
include!("props2.rs");
