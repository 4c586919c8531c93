// ---------------------------------------------------------------- C12

/// a vector that shares nothing holds exactly the elements that are alive
fn trans_live(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let mut w = build(h)?;
    w.step(op)?;
    let live = reg(|r| r.live);
    let k = vkey(h, &w.v);
    let all: Vec<Op> = h.iter().copied().chain([op]).collect();
    let want = w.m.len() as i64 + w.kept.iter().map(|k| k.1.len() as i64).sum::<i64>();
    if !has_sharing(&all) {
        eq("elements alive", live, want)?;
    } else if live > want {
        return Err(format!("{live} elements alive, the vectors hold {want}"));
    }
    errs()?;
    drop(w);
    errs()?;
    eq("elements alive after the last handle is gone", reg(|r| r.live), 0)?;
    // the same with a copy alive, dropped before and after
    for first in [false, true] {
        tok::reset();
        let mut w = build(h)?;
        let c = w.v.clone();
        let cm = w.m.clone();
        w.step(op)?;
        if first {
            drop(c);
            w.verify_all("after the copy is gone")?;
            drop(w);
        } else {
            drop(w);
            chk("the copy", &c, &cm)?;
            drop(c);
        }
        errs()?;
        eq("elements alive after the last handle is gone", reg(|r| r.live), 0)?;
    }
    st.evals += 3;
    st.traces += 3;
    Ok(k)
}

const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

fn c12_groups(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    for g in 0..5 {
        let sizes: Vec<usize> = {
            tok::reset();
            let g = group(h, g)?;
            g.iter().map(|w| w.m.len()).collect()
        };
        for a in 0..sizes.len() {
            for (x, wr) in writers(sizes[a], dense).into_iter().enumerate() {
                beat();
                tok::reset();
                let go = || -> Res {
                    let mut ws: Vec<Option<World>> = group(h, g)?.into_iter().map(Some).collect();
                    apply(ws[a].as_mut().unwrap(), wr)?;
                    errs()?;
                    let order = ORDERS[(x + a) % 6];
                    for o in order {
                        if o < ws.len() {
                            let gone = ws[o].take();
                            if x % 3 == 0 {
                                // consume it instead of dropping it
                                if let Some(w) = gone {
                                    let want = w.m.clone();
                                    let got: Vec<u32> = w.v.into_iter().map(|t| t.id()).collect();
                                    eq("consumed", got, want)?;
                                }
                            } else {
                                drop(gone);
                            }
                            errs()?;
                            for w in ws.iter().flatten() {
                                w.verify_all("a remaining handle")?;
                            }
                        }
                    }
                    errs()?;
                    eq("elements alive after the last handle is gone", reg(|r| r.live), 0)
                };
                go().map_err(|e| format!("group {g} handle {a} {:?}: {e}", wr))?;
                st.evals += 1;
                st.traces += 1;
            }
        }
    }
    tok::reset();
    // replacing, moving out, partial consumption
    let n = build(h)?.m.len();
    let sp: Vec<usize> = if n <= 40 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    for &f in &sp {
        for &b in sp.iter().filter(|b| f + **b <= n) {
            tok::reset();
            let w = build(h)?;
            let sole = !has_sharing(h);
            let mut it = w.v.into_iter();
            let mut got = vec![];
            for _ in 0..f {
                got.push(it.next().ok_or("into_iter ended early")?)
            }
            for _ in 0..b {
                got.push(it.next_back().ok_or("into_iter ended early")?)
            }
            if sole {
                eq("elements alive while partly consumed", reg(|r| r.live), n as i64)?;
            }
            drop(it);
            if sole {
                eq("elements alive once the iterator is gone", reg(|r| r.live), (f + b) as i64 + w.kept.iter().map(|k| k.1.len() as i64).sum::<i64>())?;
            }
            for t in &got {
                t.id();
            }
            drop(got);
            drop(w.kept);
            errs()?;
            eq("elements alive at the end", reg(|r| r.live), 0)?;
            st.evals += 1;
        }
    }
    Ok(())
}

// elements without size, counted by their drops
pub struct Zst;
thread_local! { static ZLIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
impl Zst {
    fn new() -> Zst {
        ZLIVE.with(|z| z.set(z.get() + 1));
        Zst
    }
}
impl Clone for Zst {
    fn clone(&self) -> Zst {
        Zst::new()
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1));
    }
}
impl std::fmt::Debug for Zst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("z")
    }
}
fn c12_zst(c: &(u32, u32), st: &mut Stats) -> Res {
    // all sequences of six operations on elements without size
    ZLIVE.with(|z| z.set(0));
    let live = || ZLIVE.with(|z| z.get());
    {
        let mut v: VecT<Zst> = VecT::new();
        let mut n = 0usize;
        for _ in 0..c.0 {
            v.push_back(Zst::new());
            n += 1;
        }
        let mut s = c.1;
        for _ in 0..6 {
            match s % 7 {
                0 => {
                    v.push_back(Zst::new());
                    n += 1
                }
                1 => {
                    v.push_front(Zst::new());
                    n += 1
                }
                2 => {
                    eq("pop_back", v.pop_back().is_some(), n > 0)?;
                    n = n.saturating_sub(1)
                }
                3 => {
                    eq("pop_front", v.pop_front().is_some(), n > 0)?;
                    n = n.saturating_sub(1)
                }
                4 => {
                    let r = v.split_off(n / 2);
                    eq("split", r.len(), n - n / 2)?;
                    let l = std::mem::replace(&mut v, r);
                    v.append(l);
                }
                5 => {
                    v.insert(n / 3, Zst::new());
                    n += 1
                }
                _ => {
                    eq("remove", v.remove(n / 2).is_some(), n > 0)?;
                    n = n.saturating_sub(1)
                }
            }
            s /= 7;
            eq("len", v.len(), n)?;
            eq("iterated", v.iter().count(), n)?;
            eq("alive", live(), n as i64)?;
            st.evals += 1;
        }
        let mut d = v.clone();
        eq("mutably iterated", d.iter_mut().count(), n)?;
        let mut it = v.into_iter();
        eq("into_iter", it.next().is_some(), n > 0)?;
        eq("into_iter", it.next_back().is_some(), n > 1)?;
        drop(it);
        eq("copy", d.iter().count(), n)?;
    }
    eq("alive at the end", live(), 0)
}

fn c12_parts() -> Vec<Part> {
    let mut p = if M < 64 {
        vec![
            ex("shapes", "every operation at every position of every reachable shape, with live elements counted, alone and with a copy, both drop orders", full(q(10, 12), q(3, 3), 1), trans_live, visit_none),
            ex("groups", "five kinds of groups of handles, every change to each, every order of dropping or consuming them; partial consumption", small(q(8, 9), 3, 1), trans_live, |h, st| c12_groups(h, st, true)),
            ex("towers", "larger vectors", towers(q(1, 1)), trans_live, visit_none),
            ex("tower groups", "larger vectors", towers(0), trans_live, |h, st| c12_groups(h, st, false)),
        ]
    } else {
        vec![ex("tower groups", "shipped width", towers(0), trans_live, |h, st| c12_groups(h, st, false)), ex("towers", "shipped width", towers(1), trans_live, visit_none)]
    };
    if M < 64 || thorough() {
        p.push(list("elements without size", "every sequence of six operations", || [0u32, 3, M as u32, 2 * M as u32 + 1, 5 * M as u32].into_iter().flat_map(|k| (0..7u32.pow(6)).step_by(if thorough() || k < 10 { 1 } else { 7 }).map(move |s| (k, s))).collect(), |c| format!("{} then {}", c.0, c.1), c12_zst));
    }
    p
}

// ---------------------------------------------------------------- C13

/// things during which user code runs
#[derive(Clone, Copy, Debug)]
enum Call {
    W(Wr),
    Eq,
    Cmp,
    Hash,
    Search(usize),
    Collect(usize),
    Iter,
    SortKey,
    Many(usize),
}

struct Ticking(u32, u32);
impl Iterator for Ticking {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        tok::tick();
        if self.0 == self.1 {
            return None;
        }
        self.0 += 1;
        Some(tokn(5000 + self.0))
    }
}

/// Performs the call on `w.v`; `extra` receives handles that are also to be dropped later.
fn call(w: &mut World, c: Call, extra: &mut Vec<V>) -> Res {
    let n = w.m.len();
    match c {
        Call::W(x) => return apply(w, x),
        Call::Eq => {
            let o = w.v.clone();
            let _ = o == w.v;
        }
        Call::Cmp => {
            let o = w.v.clone();
            let _ = o.cmp(&w.v);
            let _ = o.partial_cmp(&w.v);
        }
        Call::Hash => {
            use std::hash::Hash;
            let mut s = std::collections::hash_map::DefaultHasher::new();
            w.v.hash(&mut s);
        }
        Call::Search(c) => {
            let f = |t: &Tok| {
                tok::tick();
                (t.id() as usize).cmp(&c)
            };
            let _ = w.v.equal_range_by(&f);
            let _ = w.v.equal_range_for_index_by(n / 2, &f);
        }
        Call::Collect(k) => {
            extra.push(Ticking(0, k as u32).collect());
        }
        Call::Iter => {
            for t in w.v.iter() {
                tok::tick();
                t.id();
            }
            for t in w.v.iter_mut() {
                tok::tick();
                t.id();
            }
        }
        Call::SortKey => w.v.sort_range_by_key(
            &|t: &Tok| {
                tok::tick();
                u32::MAX - t.val
            },
            ..,
        ),
        Call::Many(k) => {
            let o = V::constant_vec_of_length(tokn(7777), k);
            w.v.append(o);
            for t in w.v.iter_mut() {
                t.id();
            }
        }
    }
    Ok(())
}

fn is_sort(c: Call) -> bool {
    matches!(c, Call::SortKey | Call::W(Wr::Sort) | Call::W(Wr::SortRange(_, _)) | Call::W(Wr::Dual))
}

fn c13_on(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    let n = build(h)?.m.len();
    let mut calls: Vec<Call> = writers(n, dense).into_iter().map(Call::W).collect();
    calls.extend([Call::Eq, Call::Cmp, Call::Hash, Call::Search(n / 2), Call::Search(0), Call::Collect(3 * M + 1), Call::Collect(n), Call::Iter, Call::SortKey, Call::Many(2 * M + 1)]);
    for c in calls {
        for shared in [false, true] {
            // how often is user code called?
            tok::reset();
            let total = {
                let mut w = build(h)?;
                let keep = if shared { Some(w.v.clone()) } else { None };
                let mut extra = vec![];
                let k0 = reg(|r| r.callbacks);
                call(&mut w, c, &mut extra).map_err(|e| format!("{:?}: {e}", c))?;
                drop(keep);
                reg(|r| r.callbacks) - k0
            };
            let steps: Vec<u64> = if total <= q(200, 2000) as u64 { (1..=total).collect() } else { (1..=40).chain((41..total).step_by((total / 60) as usize)).chain(total - 3..=total).collect() };
            for k in steps {
                beat();
                tok::reset();
                let go = || -> Res {
                    let mut w = build(h)?;
                    let keep = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
                    let mut before: Vec<u32> = w.m.clone();
                    let mut extra = vec![];
                    tok::set_fuse(k);
                    let r = guard(|| call(&mut w, c, &mut extra));
                    let blew = reg(|r| {
                        r.fuse = 0;
                        r.blew
                    });
                    st_count(st, blew);
                    if !blew {
                        r.and_then(|r| r)?;
                        return Ok(());
                    }
                    if r.is_ok() {
                        return Err("the panic was swallowed".into());
                    }
                    errs()?;
                    if let Some((c, m)) = &keep {
                        chk("the other handle", c, m)?;
                    }
                    if is_sort(c) {
                        let mut got = ids(&w.v);
                        got.sort();
                        before.sort();
                        if got != before || w.v.len() != before.len() {
                            return Err(format!("after a panicking comparison the vector holds {} want a permutation of {}", short(&got), short(&before)));
                        }
                    }
                    // whatever is left can be looked at without touching released elements
                    let look = guard(|| {
                        for i in 0..w.v.len().min(4 * (n + 3 * M)) {
                            if let Some(t) = w.v.get(i) {
                                t.id();
                            }
                        }
                    });
                    if look.is_err() {
                        st_bad(st);
                    }
                    errs()?;
                    let _ = guard(|| w.v.pop_back());
                    errs()?;
                    drop(extra);
                    guard(|| drop(std::mem::replace(&mut w.v, V::new()))).map_err(|e| format!("dropping the vector afterwards: {e}"))?;
                    errs()?;
                    if let Some((c, m)) = keep {
                        chk("the other handle afterwards", &c, &m)?;
                        let mut c = c;
                        c.push_back(tokn(9999));
                        if let Some(t) = c.get_mut(0) {
                            t.id();
                        }
                        drop(c);
                    }
                    errs()
                };
                let go = std::cell::RefCell::new(go);
                let r = (go.borrow_mut())();
                r.map_err(|e| format!("{:?} with a panic at callback {k} of {total}, shared {shared}: {e}", c))?;
            }
        }
    }
    st.traces += 1;
    Ok(())
}
/// What releases elements besides the changes: dropping and consuming.
#[derive(Clone, Copy, Debug)]
enum Gone {
    By(Wr),
    Drop,
    Into(usize, usize),
    IntoAll,
    IterWrite,
    FocusWrite(usize),
    Reassign,
}
fn release(w: &mut World, g: Gone) -> Res {
    match g {
        Gone::By(x) => return apply(w, x),
        Gone::Drop => w.v = V::new(),
        Gone::Into(a, b) => {
            let mut it = std::mem::replace(&mut w.v, V::new()).into_iter();
            for _ in 0..a {
                it.next();
            }
            for _ in 0..b {
                it.next_back();
            }
        }
        Gone::IntoAll => std::mem::replace(&mut w.v, V::new()).into_iter().for_each(drop),
        Gone::IterWrite => {
            for t in w.v.iter_mut() {
                *t = tokn(7001);
            }
        }
        Gone::FocusWrite(i) => {
            let mut f = w.v.focus_mut();
            let (mut l, mut r) = f.split_at(i);
            for k in 0..r.len() {
                *r.index(k) = tokn(7002);
                if k < l.len() {
                    *l.index(k) = tokn(7003);
                }
            }
        }
        Gone::Reassign => w.v = (0..5).map(tokn).collect(),
    }
    Ok(())
}
/// A destructor that panics, at every element an operation releases.
fn c13_drops(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    let n = build(h)?.m.len();
    let mut calls: Vec<Gone> = writers(n, dense).into_iter().map(Gone::By).collect();
    calls.extend([Gone::Drop, Gone::IntoAll, Gone::Into(n / 2, 0), Gone::Into(0, n / 2), Gone::Into(1, 1), Gone::IterWrite, Gone::Reassign]);
    calls.extend((0..=n).step_by(if dense { 1 } else { (n / 4).max(1) }).map(Gone::FocusWrite));
    for c in calls {
        for shared in [false, true] {
            tok::reset();
            let total = {
                let mut w = build(h)?;
                let keep = if shared { Some(w.v.clone()) } else { None };
                let k0 = reg(|r| r.drops);
                release(&mut w, c).map_err(|e| format!("{:?}: {e}", c))?;
                let k = reg(|r| r.drops) - k0;
                drop(keep);
                k
            };
            let steps: Vec<u64> = if total <= q(200, 2000) as u64 { (1..=total).collect() } else { (1..=40).chain((41..total).step_by((total / 60) as usize)).chain(total - 3..=total).collect() };
            for k in steps {
                beat();
                tok::reset();
                let go = || -> Res {
                    let mut w = build(h)?;
                    let keep = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
                    reg(|r| {
                        r.drop_fuse = k;
                        r.blew = false
                    });
                    let r = guard(|| release(&mut w, c));
                    let blew = reg(|r| {
                        r.drop_fuse = 0;
                        r.blew
                    });
                    st.evals += 1;
                    if !blew {
                        // the destructor to fail was reached while nothing may panic
                        r.and_then(|r| r)?;
                        return Ok(());
                    }
                    st.count("panicking destructors", 1);
                    errs()?;
                    if let Some((c, m)) = &keep {
                        chk("the other handle", c, m)?;
                    }
                    let _ = guard(|| {
                        for i in 0..w.v.len().min(4 * (n + 3 * M)) {
                            if let Some(t) = w.v.get(i) {
                                t.id();
                            }
                        }
                    });
                    errs()?;
                    let _ = guard(|| w.v.pop_back());
                    let _ = guard(|| w.v.pop_front());
                    errs()?;
                    guard(|| drop(std::mem::replace(&mut w.v, V::new()))).map_err(|e| format!("dropping the vector afterwards: {e}"))?;
                    errs()?;
                    if let Some((mut c, m)) = keep {
                        chk("the other handle afterwards", &c, &m)?;
                        c.push_back(tokn(9999));
                        if let Some(t) = c.get_mut(0) {
                            t.id();
                        }
                        drop(c);
                    }
                    errs()
                };
                let go = std::cell::RefCell::new(go);
                let r = (go.borrow_mut())();
                r.map_err(|e| format!("{:?} with a panic in destructor {k} of {total}, shared {shared}: {e}", c))?;
            }
        }
    }
    st.traces += 1;
    Ok(())
}
fn st_count(st: &mut Stats, blew: bool) {
    st.evals += 1;
    if blew {
        st.count("injected panics", 1)
    }
}
fn st_bad(st: &mut Stats) {
    st.count("vectors left unreadable by a panic in clone (memory safe)", 1)
}

fn c13_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every change, comparison, search, collection on every reachable shape, a panic at every callback, alone and with a copy", small(q(8, 9), 3, 1), trans_move, |h, st| c13_on(h, st, true)),
            ex("towers", "larger vectors", Space { seeds: tower_seeds().into_iter().filter(|h| build(h).map(|w| w.m.len() < 120).unwrap_or(false)).collect(), ..towers(0) }, trans_move, |h, st| c13_on(h, st, false)),
            ex("destructors", "every change, consuming, dropping, overwriting on every reachable shape, a panic in every destructor that runs, alone and with a copy", small(q(8, 9), 3, 1), trans_move, |h, st| c13_drops(h, st, true)),
        ]
    } else {
        let few = || Space { seeds: vec![vec![NB(63)], vec![NB(64)], vec![NB(130)], vec![NF(70), NB(70)], vec![NB(200), SR(30)], vec![NB(40), AS, AS]], ..towers(0) };
        vec![ex("shapes", "shipped width", few(), trans_move, |h, st| c13_on(h, st, false)), ex("destructors", "shipped width", few(), trans_move, |h, st| c13_drops(h, st, false))]
    }
}

// ---------------------------------------------------------------- C14

fn fnv(v: &V) -> (u64, Vec<u8>) {
    use std::hash::{Hash, Hasher};
    struct Rec(Vec<u8>);
    impl Hasher for Rec {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b)
        }
    }
    let mut r = Rec(vec![]);
    v.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    (d.finish(), r.0)
}

fn rel(a: &World, b: &World, st: &mut Stats) -> Res {
    let (x, y): (Vec<u32>, Vec<u32>) = (a.v.iter().map(|t| t.val).collect(), b.v.iter().map(|t| t.val).collect());
    for (p, q, s, t) in [(&a.v, &b.v, &x, &y), (&b.v, &a.v, &y, &x)] {
        eq("==", p == q, s == t)?;
        eq("!=", p != q, s != t)?;
        eq("cmp", p.cmp(q), s.cmp(t))?;
        eq("partial_cmp", p.partial_cmp(q), s.partial_cmp(t))?;
        eq("<", p < q, s < t)?;
        eq(">=", p >= q, s >= t)?;
    }
    if x == y && fnv(&a.v) != fnv(&b.v) {
        return Err("equal vectors hash differently".into());
    }
    st.evals += 1;
    Ok(())
}

fn c14_same(c: &(Pool, usize), st: &mut Stats) -> Res {
    let h = &c.0[c.1];
    let mut a = build(h)?;
    renumber(&mut a);
    let n = a.m.len();
    for g in c.0.iter() {
        let mut b = build(g)?;
        if b.m.len() > n + 1 || b.m.len() + 1 < n {
            continue;
        }
        beat();
        renumber(&mut b);
        rel(&a, &b, st).map_err(|e| format!("against the vector of ({}): {e}", hist_text(g)))?;
    }
    errs()
}

fn c14_diff(h: &[Op], st: &mut Stats) -> Res {
    let mut a = build(h)?;
    renumber(&mut a);
    let n = a.m.len();
    let copy = World { v: a.v.clone(), m: a.m.clone(), next: 0, kept: vec![], verify: false, inv: false };
    rel(&a, &copy, st)?;
    rel(&a, &a, st)?;
    for i in spots(n) {
        for delta in [0u32, 1000, 1] {
            // a copy differing in one place, sharing everything else
            let mut b = World { v: a.v.clone(), m: a.m.clone(), next: 0, kept: vec![], verify: false, inv: false };
            if let Some(t) = b.v.get_mut(i) {
                t.val = if delta == 0 { 0 } else { i as u32 + delta };
            }
            rel(&a, &b, st).map_err(|e| format!("differing at {i}: {e}"))?;
            // and one built apart
            let mut d = build(h)?;
            renumber(&mut d);
            if let Some(t) = d.v.get_mut(i) {
                t.val = if delta == 0 { 0 } else { i as u32 + delta };
            }
            rel(&a, &d, st).map_err(|e| format!("built apart, differing at {i}: {e}"))?;
            rel(&b, &d, st).map_err(|e| format!("built apart, same difference at {i}: {e}"))?;
        }
        // a prefix
        let mut b = World { v: a.v.clone(), m: a.m.clone(), next: 0, kept: vec![], verify: false, inv: false };
        b.v.slice_from_start(i);
        rel(&a, &b, st).map_err(|e| format!("prefix of {i}: {e}"))?;
        b.v.push_back(Tok::new(1, 0));
        rel(&a, &b, st).map_err(|e| format!("prefix of {i} and a small element: {e}"))?;
        b.v.push_back(Tok::new(1, 99999));
        rel(&a, &b, st).map_err(|e| format!("prefix of {i} and two elements: {e}"))?;
        beat();
    }
    // partially ordered elements: a sequence containing NaN equals nothing, not even itself
    let f: VecT<f64> = (0..n).map(|i| if i == n / 2 { f64::NAN } else { i as f64 }).collect();
    let g = f.clone();
    let want: Vec<f64> = f.iter().copied().collect();
    eq("NaN ==", f == g, want == want.clone())?;
    eq("NaN partial_cmp", f.partial_cmp(&g), want.partial_cmp(&want.clone()))?;
    eq("NaN == itself", same(&f, &f), same(&want, &want))?;
    eq("NaN partial_cmp itself", f.partial_cmp(&f), want.partial_cmp(&want))?;
    st.evals += 1;
    errs()
}
/// not the same variable twice, so that nothing is folded away
fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

/// every two words over elements that are equal although different, or unequal to themselves
fn c14_words(c: &(usize, usize), st: &mut Stats) -> Res {
    const A: [f64; 4] = [0.0, -0.0, 1.0, f64::NAN];
    let (kind, k) = *c;
    // where the word stands: alone, behind a shared block, before one, or in the middle of a tree
    let (pre, post) = [(0, 0), (M + 1, 0), (0, M + 1), (M * M, M * 2 + 3)][kind];
    let base: VecT<f64> = (0..pre + k + post).map(|i| i as f64).collect();
    let words = 4usize.pow(k as u32);
    let make = |w: usize| {
        let mut v = base.clone();
        let mut m: Vec<f64> = (0..pre + k + post).map(|i| i as f64).collect();
        for i in 0..k {
            let x = A[w >> (2 * i) & 3];
            *v.get_mut(pre + i).unwrap() = x;
            m[pre + i] = x;
        }
        (v, m)
    };
    let all: Vec<_> = (0..words).map(make).collect();
    for (v, m) in &all {
        beat();
        for (x, y) in &all {
            eq("==", same(v, x), m == y)?;
            eq("partial_cmp", v.partial_cmp(x), m.partial_cmp(y))?;
            eq("<", v < x, m < y)?;
            eq("<=", v <= x, m <= y)?;
            eq("!=", v != x, m != y)?;
            st.evals += 1;
        }
        let mut longer = v.clone();
        longer.push_back(0.0);
        let mut m2 = m.clone();
        m2.push(0.0);
        eq("partial_cmp with an extension", v.partial_cmp(&longer), m.partial_cmp(&m2))?;
        eq("partial_cmp of an extension", longer.partial_cmp(v), m2.partial_cmp(m))?;
        eq("== with an extension", same(v, &longer), false)?;
    }
    Ok(())
}
fn c14_word_part() -> Part {
    list("words", "every two words over {0, -0, 1, NaN} up to a length, alone, before, behind and inside other elements: against the order of lists", || (0..4).flat_map(|i| (0..=q(3, 4)).map(move |k| (i, k))).collect(), |c| format!("{} {}", c.0, c.1), c14_words)
}
fn c14_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            list("pairs", "every two reachable shapes of equal or neighbouring length with the same numbering", || pool(small(q(9, 10), q(2, 3), 1)), pool_text, c14_same),
            ex("differences", "on every reachable shape: a copy, one built apart, each single difference, each prefix and extension", small(q(11, 12), q(2, 3), 1), trans_move, c14_diff),
            list("tower pairs", "larger vectors", || pool(towers(0)), pool_text, c14_same),
            ex("tower differences", "larger vectors", towers(0), trans_move, c14_diff),
            c14_word_part(),
        ]
    } else {
        vec![c14_word_part(), ex("tower differences", "shipped width", towers(q(0, 0)), trans_move, c14_diff), list("same contents", "shipped width, the same sequence built by different histories", || (0..9).map(|i| (i, 0)).chain((0..9).map(|i| (i, 1))).collect(), |c| format!("{} {}", c.0, c.1), c14_ways)]
    }
}
/// one sequence built in nine ways
fn c14_ways(c: &(usize, usize), st: &mut Stats) -> Res {
    let n = [200u32, 64 * 64 + 200][c.1];
    let ways = |k: usize| -> Vec<Op> {
        match k {
            0 => vec![NB(n)],
            1 => vec![NF(n)],
            2 => vec![FI(n)],
            3 => vec![NB(n / 2), AF(n - n / 2)],
            4 => vec![NB(n), RO(n / 3)],
            5 => vec![NB(n / 3), QF(n - n / 3)],
            6 => vec![NB(n + 70), SR(70)],
            7 => vec![NB(n + 99), SL(n)],
            _ => vec![CV(n)],
        }
    };
    let mut a = build(&ways(c.0))?;
    renumber(&mut a);
    for k in 0..9 {
        let mut b = build(&ways(k))?;
        renumber(&mut b);
        beat();
        rel(&a, &b, st).map_err(|e| format!("against way {k}: {e}"))?;
        b.v.get_mut(n as usize / 2).map(|t| t.val += 1);
        rel(&a, &b, st).map_err(|e| format!("against way {k} with one difference: {e}"))?;
    }
    errs()
}

// ---------------------------------------------------------------- C16

fn clones<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let a = reg(|r| r.clones);
    let r = f();
    (reg(|r| r.clones) - a, r)
}

/// the most elements one operation may clone on a vector of this height
fn copy_limit(op: &Wr, height: usize) -> u64 {
    let m = M as u64;
    match op {
        // one end or one block
        Wr::Put(..) | Wr::Do(PB | PF | OB | OF) => 2 * m,
        Wr::Ends | Wr::FocusPut(_) => 4 * m,
        // the blocks along one path
        Wr::Do(SL(_) | SR(_) | LS(_) | LE(_)) => 4 * m,
        _ => (height as u64 + 2) * 4 * m * m,
    }
}

fn c16_on(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    let w = build(h)?;
    let n = w.m.len();
    let (k, _) = clones(|| {
        let c = w.v.clone();
        let d = c.clone();
        let f = d.focus();
        let _ = f.len();
        let _ = w.v.iter().map(|t| t.id()).fold(0, |a, b| a ^ b);
        let _ = w.v.front().map(|t| t.id());
        let _ = w.v.get(n / 2).map(|t| t.id());
        let _ = c.len();
        let _ = (c == d, c.cmp(&d));
    });
    eq("elements cloned by copying and reading", k, 0)?;
    drop(w);
    // nothing shared: nothing cloned
    if !has_sharing(h) {
        for x in writers(n, dense) {
            if matches!(x, Wr::Do(AS | QS | CV(_) | KC)) {
                continue;
            }
            beat();
            tok::reset();
            let mut w = build(h)?;
            let (k, r) = clones(|| apply(&mut w, x));
            r?;
            eq("elements cloned by an operation on a vector that shares nothing", k, 0).map_err(|e| format!("{:?}: {e}", x))?;
            st.evals += 1;
        }
        let (k, r) = clones(|| -> Res {
            let w2 = build(h)?;
            for t in w2.v.into_iter() {
                t.id();
            }
            Ok(())
        });
        r?;
        eq("elements cloned by consuming a vector that shares nothing", k, 0)?;
    }
    // everything shared
    let mut one: Vec<Wr> = vec![Wr::Do(PB), Wr::Do(PF), Wr::Do(OB), Wr::Do(OF), Wr::Ends, Wr::Do(AS), Wr::Do(QS)];
    let sp = spots(n);
    let step = if dense { 1 } else { (sp.len() / 16).max(1) };
    for &i in sp.iter().step_by(step) {
        let i32 = i as u32;
        one.extend([Wr::Put(0, i), Wr::Put(2, i), Wr::FocusPut(i), Wr::Do(SL(i32)), Wr::Do(SR(i32)), Wr::Do(LS(i32)), Wr::Do(LE(i32)), Wr::Do(IN(i32)), Wr::Do(RM(i32)), Wr::Do(RO(i32))]);
        if i + 2 < n {
            one.push(Wr::Do(XM(i32, i32 + 2)));
            one.push(Wr::Do(XR(i32, n as u32 - 1)));
        }
    }
    for k in [1, M, M * M + 1] {
        one.push(Wr::Do(AF(k as u32)));
        one.push(Wr::Do(QF(k as u32)));
    }
    for x in one {
        beat();
        tok::reset();
        let mut w = build(h)?;
        w.verify = false;
        let keep = w.v.clone();
        let tall = tall_at_most(h, &w.v);
        let (k, r) = clones(|| apply(&mut w, x));
        r?;
        let tall = tall.max(height_seen(&format!("{:?}", w.v)).unwrap_or(tall + 2));
        let lim = copy_limit(&x, tall);
        if k > lim {
            return Err(format!("{:?} on a shared vector of {n} elements (height {tall}) clones {k} elements (limit {lim})", x));
        }
        let name = match x {
            Wr::Put(..) | Wr::FocusPut(_) | Wr::Ends => "writes",
            Wr::Do(PB | PF | OB | OF) => "end operations",
            Wr::Do(SL(_) | SR(_) | LS(_) | LE(_)) => "splits",
            _ => "concatenations and rebuilds",
        };
        st.max(&format!("elements cloned by {name} on shared vectors"), k);
        st.evals += 1;
        drop(keep);
    }
    st.traces += 1;
    errs()
}
fn c16_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every operation at every position of every reachable shape, alone and with everything shared", small(q(9, 11), 3, 1), trans_move, |h, st| c16_on(h, st, true)),
            ex("towers", "larger vectors, many times the largest number of elements a single operation may clone", Space { seeds: { let mut s = tower_seeds(); s.extend([vec![NB(1400)], vec![NF(1400)], vec![NB(700), AF(700)], vec![NB(350), AS, AS], vec![NB(1000), RM(500), IN(300), RM(100), RO(400)]]); s }, ..towers(q(0, 1)) }, trans_move, |h, st| c16_on(h, st, false)),
        ]
    } else {
        vec![ex("towers", "shipped width", Space { seeds: { let mut s = tower_seeds(); s.extend([vec![NB(60_000)], vec![NF(60_000), RO(20_000)]]); s }, max_len: 200_000, ..towers(0) }, trans_move, |h, st| c16_on(h, st, false))]
    }
}

// ---------------------------------------------------------------- C21

fn mem_case<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    reg(|r| r.reserve());
    let a = crate::mem::net();
    let r = f()?;
    errs()?;
    let b = crate::mem::net();
    if a != b {
        return Err(format!("{} bytes in {} blocks are still allocated after everything was dropped", b.0 - a.0, b.1 - a.1));
    }
    Ok(r)
}

fn trans_mem(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let k = mem_case(|| {
        let mut w = build(h)?;
        w.step(op)?;
        Ok(vkey(h, &w.v))
    })?;
    mem_case(|| {
        let mut w = build(h)?;
        let c = w.v.clone();
        w.step(op)?;
        drop(w);
        chk("the copy", &c, &ids(&c))
    })
    .map_err(|e| format!("with a copy alive: {e}"))?;
    st.evals += 2;
    st.traces += 2;
    Ok(k)
}
fn c21_on(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    for g in [0, 2, 3] {
        let sizes: Vec<usize> = group(h, g)?.iter().map(|w| w.m.len()).collect();
        for a in 0..sizes.len() {
            for (x, wr) in writers(sizes[a], dense).into_iter().enumerate() {
                beat();
                tok::reset();
                mem_case(|| {
                    let mut ws: Vec<Option<World>> = group(h, g)?.into_iter().map(Some).collect();
                    apply(ws[a].as_mut().unwrap(), wr)?;
                    for o in ORDERS[(x + a) % 6] {
                        if o < ws.len() {
                            drop(ws[o].take());
                        }
                    }
                    Ok(())
                })
                .map_err(|e| format!("group {g} handle {a} {:?}: {e}", wr))?;
                st.evals += 1;
            }
        }
    }
    let n = build(h)?.m.len();
    for x in writers(n, dense) {
        tok::reset();
        beat();
        mem_case(|| {
            let mut w = build(h)?;
            apply(&mut w, x)
        })
        .map_err(|e| format!("{:?}: {e}", x))?;
    }
    // foci, iterators and their parts, dropped while partly used and in any order
    let sp: Vec<usize> = if n <= 40 { (0..=n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1, n] };
    for shared in [false, true] {
        for &s in &sp {
            for how in 0..6 {
                beat();
                tok::reset();
                mem_case(|| {
                    let mut w = build(h)?;
                    let keep = if shared { Some(w.v.clone()) } else { None };
                    match how {
                        0 => {
                            let mut f = w.v.focus_mut();
                            let (mut l, mut r) = f.split_at(s);
                            for i in 0..n {
                                if i % 2 == 0 {
                                    l.get(i / 2);
                                } else {
                                    r.get(i / 2);
                                }
                            }
                            let k = l.len() / 2;
                            let (mut a, b) = l.split_at(k);
                            a.get(0);
                            drop(b);
                            drop(r);
                        }
                        1 => {
                            let mut f = w.v.focus_mut();
                            f.get(s);
                            {
                                let (_l, mut r) = f.split_at(s);
                                r.get(0);
                            }
                            let (mut l, r) = f.split_at(n - s);
                            drop(r);
                            l.get(0);
                        }
                        2 => {
                            let mut it = w.v.iter_mut();
                            for _ in 0..s {
                                it.next();
                            }
                        }
                        3 => {
                            let mut it = std::mem::replace(&mut w.v, V::new()).into_iter();
                            for _ in 0..s {
                                it.next_back();
                            }
                        }
                        4 => {
                            let mut f = w.v.focus();
                            let mut g = f.clone();
                            f.get(s);
                            g.narrow(s..);
                            g.get(0);
                            if s < n {
                                let (mut x, mut y) = f.split_at(s);
                                x.get(0);
                                y.get(0);
                            }
                        }
                        _ => {
                            w.v.iter_mut().for_each(drop);
                            if s < n {
                                w.v.get_mut_guarded(s).map(|g| g.id());
                            }
                            w.v.sort();
                            w.v.reverse_range(s..);
                            let x = w.v.split_off(s);
                            w.v.prepend(x);
                        }
                    }
                    drop(w);
                    drop(keep);
                    Ok(())
                })
                .map_err(|e| format!("views {how} at {s} shared {shared}: {e}"))?;
                st.evals += 1;
            }
        }
    }
    st.traces += 1;
    Ok(())
}
fn c21_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every operation at every position of every reachable shape, alone and with a copy alive", full(q(10, 12), q(3, 3), 1), trans_mem, visit_none),
            ex("groups", "groups of handles, every change, every order of dropping; foci and iterators partly used", small(q(8, 9), 3, 1), trans_mem, |h, st| c21_on(h, st, true)),
            ex("towers", "larger vectors", towers(q(0, 1)), trans_mem, |h, st| c21_on(h, st, false)),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(q(0, 0)), trans_mem, |h, st| c21_on(h, st, false)), ex("macros", "shipped width", towers(1), trans_mem, visit_none)]
    }
}

// ---------------------------------------------------------------- C22

/// an iterator whose size hint says little or nothing
struct Hint<I>(I, u8);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => (0, None),
            1 => (0, Some(1_000_000)),
            // wrong, which an iterator must not be, but which must not matter either
            3 => (self.0.size_hint().0 / 2, Some(self.0.size_hint().0 / 2)),
            4 => (self.0.size_hint().0 + 3, None),
            _ => self.0.size_hint(),
        }
    }
}

/// an iterator that goes on after it has ended
struct Again {
    k: u32,
    at: u32,
    ended: bool,
    calls_after: u32,
}
impl Iterator for Again {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.at < self.k || self.ended {
            self.calls_after += self.ended as u32;
            self.at += 1;
            Some(tokn(self.at - 1))
        } else {
            self.ended = true;
            None
        }
    }
}

fn c22_build(kind: usize, k: u32) -> Result<World, String> {
    let mut w = World::new();
    match kind {
        0 | 1 | 2 => {
            w.v = Hint((0..k).map(tokn), kind as u8).collect();
            w.m = (0..k).collect();
        }
        3 => {
            w.v = V::constant_vec_of_length(tokn(3), k as usize);
            w.m = vec![3; k as usize];
        }
        4 => {
            let o: V = (0..k).map(tokn).collect();
            w.v = o.into_iter().collect();
            w.m = (0..k).collect();
        }
        5 => {
            w.v = Again { k, at: 0, ended: false, calls_after: 0 }.collect();
            w.m = (0..k).collect();
        }
        6 | 7 => {
            w.v = Hint((0..k).map(tokn).collect::<Vec<_>>().into_iter(), kind as u8 - 3).collect();
            w.m = (0..k).collect();
        }
        8 => {
            // the source is itself a vector of this library, consumed from both ends
            let o: V = (0..k).map(tokn).collect();
            w.v = o.into_iter().rev().collect();
            w.m = (0..k).rev().collect();
        }
        _ => {
            // filtered, from a linked list, reversed
            let l: std::collections::LinkedList<u32> = (0..2 * k).collect();
            w.v = l.into_iter().filter(|x| x % 2 == 0).map(|x| tokn(x / 2)).rev().collect();
            w.m = (0..k).rev().collect();
        }
    }
    w.next = k + 10;
    Ok(w)
}
fn c22_case(c: &(usize, u32), st: &mut Stats) -> Res {
    let (kind, k) = *c;
    let w = c22_build(kind, k)?;
    w.verify_all("constructed")?;
    shape_ok("constructed", &w.v, &[])?;
    // equal to the vector built by pushes
    let mut p = V::new();
    for id in &w.m {
        p.push_back(tokn(*id));
    }
    eq("equal to one built by pushes", w.v == p, true)?;
    // one element cloned per position at most
    drop(w);
    tok::reset();
    let w = c22_build(kind, k)?;
    let live = reg(|r| r.live);
    if kind != 3 {
        eq("elements alive", live, k as i64)?;
    } else if live > k.max(1) as i64 {
        return Err(format!("{live} elements alive in a repetition of {k}"));
    }
    drop(w);
    eq("elements alive afterwards", reg(|r| r.live), 0)?;
    // every later operation
    let n = k as usize;
    for x in writers(n, n <= q(18, 40)) {
        beat();
        tok::reset();
        for shared in [false, true] {
            let mut w = c22_build(kind, k)?;
            let c = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
            let go = |w: &mut World| -> Res {
                apply(w, x)?;
                w.verify_all("after an operation")?;
                w.step(PB)?;
                w.step(PF)?;
                w.step(SR((w.m.len() / 3) as u32))?;
                w.verify_all("after further operations")?;
                if let Some((c, m)) = &c {
                    chk("the copy", c, m)?;
                }
                Ok(())
            };
            go(&mut w).map_err(|e| format!("{:?} shared {shared}: {e}", x))?;
            st.evals += 1;
        }
    }
    // drained from either end
    for how in 0..2 {
        tok::reset();
        let mut w = c22_build(kind, k)?;
        w.step(if how == 0 { DB(k + 1) } else { DF(k + 1) })?;
        w.step(PF)?;
        w.verify_all("drained")?;
    }
    errs()
}

macro_rules! mac_case {
    ($($x:expr),*) => {{
        let want: Vec<u32> = vec![$($x),*];
        tok::reset();
        chk("macro", &mac![$(tokn($x)),*], &want)?;
        chk("macro with a trailing comma", &mac_trailing!($(tokn($x)),*), &want)?;
    }};
}
macro_rules! mac_trailing {
    () => { mac![] };
    ($($x:expr),*) => { mac![$($x,)*] };
}
fn c22_macros(_c: &u32, st: &mut Stats) -> Res {
    let e: V = mac![];
    chk("empty macro", &e, &[])?;
    mac_case!(0);
    mac_case!(0, 1);
    mac_case!(5, 3, 1);
    mac_case!(5, 3, 1, 9);
    mac_case!(5, 3, 1, 9, 2);
    mac_case!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22);
    mac_case!(
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62,
        63, 64, 65, 66, 67, 68, 69, 70
    );
    chk("singleton", &V::singleton(tokn(4)), &[4])?;
    chk("new", &V::new(), &[])?;
    chk("default", &V::default(), &[])?;
    let mut s = World { v: V::singleton(tokn(0)), m: vec![0], next: 5, ..World::new() };
    let mut d = World { v: V::default(), ..World::new() };
    for seq in 0..4u32.pow(5) {
        let mut x = seq;
        for _ in 0..5 {
            let op = [PB, PF, OB, OF][(x % 4) as usize];
            x /= 4;
            s.step(op)?;
            d.step(op)?;
        }
        s.verify_all("singleton then end operations")?;
        d.verify_all("default then end operations")?;
        st.evals += 2;
    }
    drop((s, d));
    errs()
}
fn c22_parts() -> Vec<Part> {
    let ks = || -> Vec<(usize, u32)> {
        let m = M as u32;
        let mut k: Vec<u32> = if M < 64 { (0..=q(90, 300) as u32).collect() } else { vec![0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 200] };
        if M >= 64 {
            k.extend([m * (m - 2), m * (m - 2) + 2 * m, m * (m - 2) + 2 * m + 1, m * m - 1, m * m, m * m + 1]);
            if thorough() {
                k.extend(2..150);
                k.extend([2 * m * m, 3 * m * m + 7, m * m * m + 3]);
                k.sort();
                k.dedup();
            }
        } else {
            k.extend([255, 256, 257, 400, 512, 600, 1023, 1030]);
            k.sort();
            k.dedup();
        }
        k.reverse();
        let mut c: Vec<(usize, u32)> = k.iter().flat_map(|k| (0..10).map(move |i| (i, *k))).collect();
        c.retain(|c| M < 64 || c.1 < 3000 || c.0 == 0 || c.0 == 3 || thorough());
        c
    };
    vec![
        list("constructors", "every length with every way of construction, then every operation", ks, |c| format!("{} of {}", ["no hint", "loose hint", "exact hint", "repetition", "from a vector", "not fused", "hint too low", "hint too high", "from a vector, backwards", "from a list"][c.0], c.1), c22_case),
        list("macros", "macros, single element, default", || vec![0u32], |_| "macros".to_string(), c22_macros),
    ]
}

pub fn parts(id: &str) -> Vec<Part> {
    let mut p = parts_main(id);
    p.extend(giant_parts(id));
    p.extend(huge_parts(id));
    p
}
fn parts_main(id: &str) -> Vec<Part> {
    match id {
        "C01" => c01_parts(),
        "C02" => c02_parts(),
        "C03" => c03_parts(),
        "C04" => c04_parts(),
        "C05" => c05_parts(),
        "C06" => c06_parts(),
        "C07" => c07_parts(),
        "C08" => c08_parts(),
        "C09" => sort_parts(false),
        "C10" => sort_parts(true),
        "C11" => c11_parts(),
        "C12" => c12_parts(),
        "C13" => c13_parts(),
        "C14" => c14_parts(),
        "C15" => c15_parts(),
        "C16" => c16_parts(),
        "C21" => c21_parts(),
        "C22" => c22_parts(),
        #[cfg(feature = "work")]
        "C24" => c24_parts(),
        _ => vec![],
    }
}

/// Larger vectors for the build without debug assertions.
pub fn parts_plain(id: &str) -> Vec<Part> {
    let b = "larger vectors";
    match id {
        "C01" => vec![ex("end-operation shapes", "all sequences of pushes and pops, every reachable shape", Space { alpha: alpha_end, ..small(q(110, 330), 9, 1) }, trans_std, visit_none), ex("towers", b, towers(q(0, 1)), trans_std, c01_ship_visit)],
        "C02" => vec![ex("towers", b, towers(q(0, 1)), trans_std, c02_slices)],
        "C03" => vec![ex("towers", b, towers(0), trans_move, c03_visit)],
        "C05" => vec![ex("towers", b, towers(q(0, 1)), trans_inv, c05_visit)],
        "C06" => vec![ex("towers", b, towers(0), trans_move, c06_visit)],
        "C07" => vec![ex("towers", b, towers(0), trans_move, c07_visit)],
        "C08" => vec![ex("towers", b, towers(0), trans_move, c08_visit)],
        "C12" => vec![ex("towers", b, towers(0), trans_live, |h, st| c12_groups(h, st, false))],
        "C21" => vec![ex("towers", b, towers(0), trans_mem, |h, st| c21_on(h, st, false))],
        _ => vec![],
    }
}

/// The reduced exploration for the second pointer kind: the code is generic over it.
pub fn parts_second(id: &str) -> Vec<Part> {
    #[cfg(feature = "work")]
    if id == "C24" {
        return c24_parts();
    }
    if M >= 64 {
        return vec![];
    }
    let (l, t) = (q(8, 9), 3);
    match id {
        "C01" => vec![ex("mixed shapes", "as for the other kind, reduced", small(l, t, 1), trans_std, c01_visit)],
        "C02" => vec![ex("shapes", "as for the other kind, reduced", full(l, t, 1), trans_std, c02_slices)],
        "C03" => vec![ex("shapes", "as for the other kind, reduced", small(l, t, 1), trans_move, c03_visit)],
        "C04" => vec![ex("groups", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_std, c04_visit)],
        "C05" => vec![ex("shapes", "as for the other kind, reduced", small(l, t, 1), trans_inv, c05_visit)],
        "C06" => vec![ex("shapes", "as for the other kind, reduced", small(q(7, 8), t, 1), trans_move, c06_visit)],
        "C07" => vec![ex("shapes", "as for the other kind, reduced", small(q(7, 8), t, 1), trans_move, c07_visit)],
        "C08" => vec![ex("shapes", "as for the other kind, reduced", small(q(7, 8), t, 1), trans_move, c08_visit)],
        "C09" => vec![ex("shapes", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_move, c09_visit)],
        "C10" => vec![ex("shapes", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_move, c10_visit)],
        "C11" => vec![ex("shapes", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_move, |h, st| c11_on(h, st, true))],
        "C12" => vec![ex("groups", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_live, |h, st| c12_groups(h, st, true))],
        "C13" => vec![ex("shapes", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_move, |h, st| c13_on(h, st, true))],
        "C14" => vec![ex("differences", "as for the other kind, reduced", small(l, t, 1), trans_move, c14_diff), c14_word_part()],
        "C15" => vec![ex("shapes", "as for the other kind, reduced", small(l, t, 1), trans_move, c15_on)],
        "C16" => vec![ex("shapes", "as for the other kind, reduced", small(q(7, 8), t, 1), trans_move, |h, st| c16_on(h, st, true))],
        "C21" => vec![ex("groups", "as for the other kind, reduced", small(q(6, 7), t, 1), trans_mem, |h, st| c21_on(h, st, true))],
        "C22" => vec![list("constructors", "as for the other kind, reduced", || (0..40u32).flat_map(|k| (0..10).map(move |i| (i, k))).collect(), |c| format!("{} of {}", c.0, c.1), c22_case), list("macros", "macros, single element, default", || vec![0u32], |_| "macros".to_string(), c22_macros)],
        _ => vec![],
    }
}
include!("giants.rs");
include!("huge.rs");
#[cfg(feature = "work")]
include!("work.rs");
