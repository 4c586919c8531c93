// ---------------------------------------------------------------- C09, C10

/// The state with values `vals` at its positions, every position its own element (id = position).
fn valued(h: &[Op], vals: &[u32]) -> Result<World, String> {
    let mut w = build(h)?;
    if w.m.len() != vals.len() {
        return Err("case of the wrong length".into());
    }
    let fresh: Vec<Tok> = vals.iter().enumerate().map(|(i, v)| Tok::new(i as u32, *v)).collect();
    for (slot, t) in w.v.iter_mut().zip(fresh) {
        *slot = t;
    }
    w.m = (0..vals.len() as u32).collect();
    Ok(w)
}

fn sorted_check(what: &str, v: &V, vals: &[u32], a: usize, b: usize, down: bool) -> Result<Vec<u32>, String> {
    let n = vals.len();
    if v.len() != n {
        return Err(format!("{what}: length {} want {n}", v.len()));
    }
    let got: Vec<(u32, u32)> = v.iter().map(|t| (t.id(), t.val)).collect();
    for i in (0..a).chain(b..n) {
        if got[i].0 != i as u32 {
            return Err(format!("{what}: position {i} outside {a}..{b} changed"));
        }
    }
    let mut seen = vec![false; n];
    for (id, val) in &got {
        let i = *id as usize;
        if i >= n || seen[i] || vals[i] != *val {
            return Err(format!("{what}: not a permutation"));
        }
        seen[i] = true;
    }
    for i in a + 1..b.max(a + 1) {
        let (x, y) = (got[i - 1].1, got[i].1);
        if if down { x < y } else { x > y } {
            return Err(format!("{what}: positions {} and {i} out of order ({x}, {y})", i - 1));
        }
    }
    Ok(got.into_iter().map(|x| x.0).collect())
}

/// One sort through one of the entry points (not all of them take a range).
fn sort_one(h: &[Op], vals: &[u32], r: (Bound<usize>, Bound<usize>), a: usize, b: usize, api: usize, shared: bool, st: &mut Stats) -> Res {
    let mut w = valued(h, vals)?;
    let n = vals.len();
    let c = if shared { Some(w.v.clone()) } else { None };
    let whole = a == 0 && b == n;
    let mut down = false;
    match api {
        0 if whole => w.v.sort(),
        1 if whole => w.v.sort_by(&Ord::cmp),
        2 => w.v.sort_range(r),
        3 => {
            down = true;
            w.v.sort_range_by(&desc, r)
        }
        4 => {
            down = true;
            w.v.sort_range_by_key(&|t: &Tok| std::cmp::Reverse(t.val), r)
        }
        _ => w.v.sort_range_by(&|x: &Tok, y: &Tok| x.val.cmp(&y.val), r),
    }
    st.evals += 1;
    let what = format!("values {} range {:?} entry {api} shared {shared}", short(vals), r);
    w.m = sorted_check(&what, &w.v, vals, a, b, down)?;
    w.verify_all(&what)?;
    if let Some(c) = c {
        chk("the copy", &c, &(0..n as u32).collect::<Vec<_>>()).map_err(|e| format!("{what}: {e}"))?;
    }
    errs()
}

/// One dual sort.
fn dual_one(h: &[Op], g: &[Op], vals: &[u32], r: (Bound<usize>, Bound<usize>), a: usize, b: usize, api: usize, shared: u32, st: &mut Stats) -> Res {
    let mut w = valued(h, vals)?;
    let n = vals.len();
    let seconds: Vec<u32> = (0..n as u32).map(|i| 100_000 + i).collect();
    let mut o = valued(g, &seconds)?;
    let c = if shared & 1 != 0 { Some(w.v.clone()) } else { None };
    let d = if shared & 2 != 0 { Some(o.v.clone()) } else { None };
    let whole = a == 0 && b == n;
    let mut down = false;
    match api {
        0 if whole => w.v.dual_sort(&mut o.v),
        1 if whole => w.v.dual_sort_by(&Ord::cmp, &mut o.v),
        2 => w.v.dual_sort_range(r, &mut o.v),
        3 => {
            down = true;
            w.v.dual_sort_range_by(&desc, r, &mut o.v)
        }
        4 => {
            down = true;
            w.v.dual_sort_range_by_key(&|t: &Tok| std::cmp::Reverse(t.val), r, &mut o.v)
        }
        _ => w.v.dual_sort_range_by(&|x: &Tok, y: &Tok| x.val.cmp(&y.val), r, &mut o.v),
    }
    st.evals += 1;
    let what = format!("values {} range {:?} entry {api} shared {shared} companion ({})", short(vals), r, hist_text(g));
    let order = sorted_check(&what, &w.v, vals, a, b, down)?;
    chk("companions", &o.v, &order).map_err(|e| format!("{what}: {e}"))?;
    let idm: Vec<u32> = (0..n as u32).collect();
    if let Some(c) = c {
        chk("the copy", &c, &idm).map_err(|e| format!("{what}: {e}"))?;
    }
    if let Some(d) = d {
        chk("the copy of the companion", &d, &idm).map_err(|e| format!("{what}: {e}"))?;
    }
    errs()
}

fn words(n: usize, k: u32) -> impl Iterator<Item = Vec<u32>> {
    (0..k.pow(n as u32)).map(move |mut x| {
        (0..n)
            .map(|_| {
                let d = x % k;
                x /= k;
                d
            })
            .collect()
    })
}

fn c09_visit(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let k = if n <= q(5, 6) {
        3
    } else if n <= q(8, 10) {
        2
    } else {
        1
    };
    for (x, vals) in words(n, k).enumerate() {
        beat();
        tok::reset();
        sort_one(h, &vals, (Bound::Unbounded, Bound::Unbounded), 0, n, x % 2, x % 5 == 0, st)?;
    }
    // every range, several value patterns
    for a in 0..=n {
        for b in a..=n {
            for (t, r) in ranges(a, b, n).into_iter().enumerate() {
                beat();
                tok::reset();
                let vals: Vec<u32> = match (a + b + t) % 4 {
                    0 => (0..n as u32).rev().collect(),
                    1 => (0..n as u32).map(|i| i * 5 % 7).collect(),
                    2 => (0..n as u32).map(|i| i % 2).collect(),
                    _ => (0..n as u32).map(|i| (i + 3) % (n as u32 + 1)).collect(),
                };
                sort_one(h, &vals, r, a, b, 2 + (a + t) % 4, t == 1, st)?;
            }
        }
    }
    st.traces += 1;
    Ok(())
}
fn c10_visit(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let nn = n as u32;
    let gs: Vec<Vec<Op>> = vec![h.to_vec(), vec![NF(nn)], vec![NB(nn / 2), QF(nn - nn / 2)], vec![CV(nn)]];
    let k = if n <= q(4, 5) {
        3
    } else if n <= q(7, 8) {
        2
    } else {
        1
    };
    for (y, g) in gs.iter().enumerate() {
        for (x, vals) in words(n, k).enumerate() {
            beat();
            tok::reset();
            dual_one(h, g, &vals, (Bound::Unbounded, Bound::Unbounded), 0, n, x % 2, (x + y) as u32 % 4, st)?;
        }
        for a in 0..=n {
            for b in a..=n {
                for (t, r) in ranges(a, b, n).into_iter().enumerate() {
                    beat();
                    tok::reset();
                    let vals: Vec<u32> = match (a + b + t + y) % 4 {
                        0 => (0..nn).rev().collect(),
                        1 => (0..nn).map(|i| i * 5 % 7).collect(),
                        2 => (0..nn).map(|i| i % 2).collect(),
                        _ => (0..nn).map(|i| (i + 3) % (nn + 1)).collect(),
                    };
                    dual_one(h, g, &vals, r, a, b, 2 + (a + t) % 4, (t + y) as u32 % 4, st)?;
                }
            }
        }
    }
    st.traces += 1;
    Ok(())
}

#[derive(Clone)]
struct Word(Vec<Op>, usize, u32, bool);
/// all words of a length over k letters whose first letters are fixed
fn word_case(c: &Word, st: &mut Stats) -> Res {
    let Word(h, n, k, dual) = c;
    let n = *n;
    for (x, vals) in words(n, *k).enumerate() {
        beat();
        tok::reset();
        one_sort(h, &vals, *dual, x, st)?;
    }
    st.traces += (*k as u64).pow(n as u32);
    Ok(())
}
fn one_sort(h: &[Op], vals: &[u32], dual: bool, x: usize, st: &mut Stats) -> Res {
    let n = vals.len();
    let r = (Bound::Unbounded, Bound::Unbounded);
    if dual {
        dual_one(h, &[NF(n as u32)], vals, r, 0, n, [0, 3, 4, 5][x % 4], x as u32 % 4, st)
    } else {
        sort_one(h, vals, r, 0, n, [0, 3, 4, 5][x % 4], x % 7 == 0, st)
    }
}
/// all permutations with the given first element
fn perm_case(c: &(Vec<Op>, usize, u32, bool), st: &mut Stats) -> Res {
    let (h, n, first, dual) = c;
    let mut rest: Vec<u32> = (0..*n as u32).filter(|x| x != first).collect();
    // Heap's algorithm
    let k = rest.len();
    let mut ctl = vec![0; k];
    let mut x = 0;
    let mut run = |rest: &[u32], st: &mut Stats| -> Res {
        beat();
        tok::reset();
        let mut vals = vec![*first];
        vals.extend(rest);
        x += 1;
        st.traces += 1;
        one_sort(h, &vals, *dual, x, st)
    };
    run(&rest, st)?;
    let mut i = 0;
    while i < k {
        if ctl[i] < i {
            rest.swap(if i % 2 == 0 { 0 } else { ctl[i] }, i);
            run(&rest, st)?;
            ctl[i] += 1;
            i = 0;
        } else {
            ctl[i] = 0;
            i += 1;
        }
    }
    Ok(())
}

#[derive(Clone)]
struct Pat(usize, usize, bool);
const PATS: [&str; 14] = ["constant", "ascending", "descending", "organ pipe", "two values alternating", "two runs", "three values cycling", "saw of 7", "ascending with a small tail", "descending with a large head", "shuffled by multiplication", "all equal but the first", "all equal but the last", "many equal minima"];
fn pat_vals(p: usize, n: usize) -> Vec<u32> {
    let u = n as u32;
    (0..u)
        .map(|i| match p {
            0 => 7,
            1 => i,
            2 => u - i,
            3 => i.min(u - i),
            4 => i % 2,
            5 => (i >= u / 2) as u32,
            6 => (i * 2) % 3,
            7 => i % 7,
            8 => {
                if i + 5 < u {
                    i + 10
                } else {
                    u - i
                }
            }
            9 => {
                if i < 5 {
                    i
                } else {
                    2 * u - i
                }
            }
            10 => (i as u64 * 7919 % (u as u64 + 1)) as u32,
            11 => (i == 0) as u32,
            12 => 1 - (i + 1 == u) as u32,
            _ => {
                if i % 16 == 3 {
                    i
                } else {
                    0
                }
            }
        })
        .collect()
}
fn pat_case(c: &Pat, st: &mut Stats) -> Res {
    let Pat(p, n, dual) = *c;
    let vals = pat_vals(p, n);
    let u = n as u32;
    one_sort(&[NB(u)], &vals, dual, 0, st)?;
    if n <= 3000 {
        beat();
        tok::reset();
        one_sort(&[NF(u / 2), NB(u - u / 2)], &vals, dual, 7, st)?;
        tok::reset();
        let (a, b) = (n / 3, n - n / 4);
        if dual {
            dual_one(&[NB(u)], &[NF(u)], &vals, (Bound::Included(a), Bound::Excluded(b)), a, b, 2, 3, st)?;
        } else {
            sort_one(&[NB(u)], &vals, (Bound::Included(a), Bound::Excluded(b)), a, b, 2, true, st)?;
        }
    }
    Ok(())
}

/// A comparator that decides the order of the elements as it is asked, always to the disadvantage of a quicksort
/// (M. D. McIlroy, "A killer adversary for quicksort"); the answers are those of one total order.
struct Adversary {
    val: std::cell::RefCell<Vec<u32>>,
    solid: std::cell::Cell<u32>,
    cand: std::cell::Cell<usize>,
}
impl Adversary {
    fn new(n: usize) -> Adversary {
        Adversary { val: std::cell::RefCell::new(vec![u32::MAX; n]), solid: 0.into(), cand: 0.into() }
    }
    fn cmp(&self, x: usize, y: usize) -> std::cmp::Ordering {
        let mut v = self.val.borrow_mut();
        const GAS: u32 = u32::MAX;
        if v[x] == GAS && v[y] == GAS && x != y {
            let s = self.solid.get();
            self.solid.set(s + 1);
            if x == self.cand.get() {
                v[x] = s
            } else {
                v[y] = s
            }
        }
        if v[x] == GAS {
            self.cand.set(x)
        } else if v[y] == GAS {
            self.cand.set(y)
        }
        if x == y {
            return std::cmp::Ordering::Equal;
        }
        v[x].cmp(&v[y])
    }
}
fn adversary_case(c: &(usize, bool), st: &mut Stats) -> Res {
    let (n, dual) = *c;
    st.evals += 1;
    // a stack of the size a spawned thread gets by default
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || -> Res {
            crate::tok::reset();
            let mut v: VecT<u32> = (0..n as u32).collect();
            let mut o: VecT<u32> = (0..n as u32).map(|x| x + 7).collect();
            let adv = Adversary::new(n);
            let f = |x: &u32, y: &u32| {
                adv.cmp(*x as usize, *y as usize)
            };
            if dual {
                v.dual_sort_by(&f, &mut o)
            } else {
                v.sort_by(&f)
            }
            let val = adv.val.borrow();
            let got: Vec<u32> = v.iter().copied().collect();
            let mut s = got.clone();
            s.sort();
            if s != (0..n as u32).collect::<Vec<_>>() {
                return Err("not a permutation".into());
            }
            if dual && o.iter().zip(&got).any(|(a, b)| *a != *b + 7) {
                return Err("a companion was left behind".into());
            }
            match got.windows(2).position(|p| val[p[0] as usize] > val[p[1] as usize]) {
                Some(i) => Err(format!("positions {i} and {} out of order", i + 1)),
                None => Ok(()),
            }
        })
        .map_err(|e| e.to_string())?;
    while !r.is_finished() {
        beat();
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    r.join().map_err(|_| "the sort panicked".to_string())?
}

fn sort_parts(dual: bool) -> Vec<Part> {
    let visit: VisitF = if dual { c10_visit } else { c09_visit };
    let pats = move || -> Vec<Pat> {
        let m = M;
        let mut ns = vec![0, 1, 2, 3, m - 1, m, m + 1, 3 * m, m * m + 1, 10 * m + 3, m * m * 2 + m + 5];
        if M >= 64 {
            ns.push(q(30_000, 200_000));
        } else {
            ns.extend([200, 700, 1500, q(3_000, 20_000)]);
        }
        let mut c: Vec<Pat> = ns.iter().flat_map(|n| (0..PATS.len()).map(move |p| Pat(p, *n, dual))).collect();
        if M >= 64 {
            c.push(Pat(0, 100_000, dual));
            c.push(Pat(13, 100_000, dual));
        }
        c.reverse();
        c
    };
    let mut p = vec![];
    if M < 64 {
        p.push(ex("shapes", "all value patterns over three, then two values, on every reachable shape; every range with every kind of bounds, every entry point", small(q(if dual { 8 } else { 9 }, 10), 3, 1), trans_move, visit));
        p.push(list(
            "words",
            "all value patterns over k values",
            move || {
                let mut c = vec![];
                for n in 0..=q(11, 13) {
                    c.push(Word(vec![NB(n as u32)], n, 2, dual));
                }
                for n in 0..=q(8, 9) {
                    c.push(Word(vec![NF(n as u32)], n, 3, dual));
                    c.push(Word(vec![FI(n as u32 / 2), AF(n as u32 - n as u32 / 2)], n, 3, dual));
                }
                for n in 0..=q(6, 7) {
                    c.push(Word(vec![NB(n as u32)], n, 4, dual));
                }
                c.reverse();
                c
            },
            |c| format!("{} words of {} over {}", hist_text(&c.0), c.1, c.2),
            word_case,
        ));
        p.push(list(
            "permutations",
            "all permutations",
            move || {
                let mut c = vec![];
                for n in 1..=q(7, 9) {
                    for f in 0..n as u32 {
                        c.push((vec![NB(n as u32)], n, f, dual));
                        if n <= 7 {
                            c.push((vec![NF(n as u32 - 1), PB], n, f, dual));
                        }
                    }
                }
                c.reverse();
                c
            },
            |c| format!("{} permutations of {} from {}", hist_text(&c.0), c.1, c.2),
            perm_case,
        ));
    }
    p.push(list("patterns", "constant, ordered and structured inputs of many lengths", pats, |c| format!("{} of {}", PATS[c.0], c.1), pat_case));
    p.push(list("adversary", "a comparator that always answers to the disadvantage of a quicksort, on a thread with the default stack", move || vec![(q(6000, 9000), dual), (1000, dual), (100, dual)], |c| format!("adversary on {}", c.0), adversary_case));
    p
}

// ---------------------------------------------------------------- C11

type Ans = Result<std::ops::Range<usize>, usize>;

fn c11_queries(w: &World, c1: usize, c2: usize, sp: &[usize], kinds: bool, st: &mut Stats) -> Res {
    // position i holds the element with val = i
    let n = w.m.len();
    let f = |x: &u32| {
        let i = *x as usize;
        if i < c1 {
            std::cmp::Ordering::Less
        } else if i < c2 {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Greater
        }
    };
    let want = |a: usize, b: usize| -> Ans {
        let (x, y) = (c1.clamp(a, b), c2.clamp(a, b));
        if x < y {
            Ok(x..y)
        } else {
            Err(x)
        }
    };
    let fail = |e: String| format!("less below {c1}, equal below {c2}: {e}");
    eq("equal_range_by", w.v.equal_range_by::<u32, _>(&f), want(0, n)).map_err(fail)?;
    for &a in sp {
        for &b in sp.iter().filter(|b| **b >= a) {
            let rs = ranges(a, b, n);
            let rs = if kinds { &rs[..] } else { &rs[(a + b + c1) % rs.len()..][..1] };
            for r in rs {
                eq("equal_range_in_range_by", w.v.equal_range_in_range_by::<u32, _, _>(&f, *r), want(a, b)).map_err(|e| fail(format!("{:?}: {e}", r)))?;
                st.evals += 1;
                if kinds || (a + b) % 2 == 0 {
                    for &i in sp.iter().filter(|i| **i <= n) {
                        let got = w.v.equal_range_for_index_in_range_by::<u32, _, _>(i, &f, *r);
                        let inside = i >= a && i < b && i >= c1 && i < c2;
                        let ok = if inside { got == (c1.max(a)..c2.min(b)) } else { got.is_empty() };
                        if !ok {
                            return Err(fail(format!("equal_range_for_index_in_range_by({i}, {:?}) is {:?}", r, got)));
                        }
                        st.evals += 1;
                    }
                }
            }
        }
    }
    for &i in sp.iter().chain(&far(n + 1)) {
        let got = w.v.equal_range_for_index_by::<u32, _>(i, &f);
        let ok = if i >= c1 && i < c2 && i < n { got == (c1..c2) } else { got.is_empty() };
        if !ok {
            return Err(fail(format!("equal_range_for_index_by({i}) is {:?}", got)));
        }
    }
    Ok(())
}

/// queries by value: `vals` ascending, possibly repeating
fn c11_values(w: &World, vals: &[u32], sp: &[usize], st: &mut Stats) -> Res {
    use Bound::*;
    let n = vals.len();
    let max = vals.last().copied().unwrap_or(0) + 2;
    let below = |x: u32| vals.iter().filter(|v| **v < x).count();
    let upto = |x: u32| vals.iter().filter(|v| **v <= x).count();
    let want = |lo: usize, hi: usize, a: usize, b: usize| -> Ans {
        let (x, y) = (lo.clamp(a, b), hi.clamp(a, b));
        if x < y {
            Ok(x..y)
        } else {
            Err(x)
        }
    };
    let qs: Vec<u32> = if max < 30 { (0..=max).collect() } else { vec![0, 1, max / 3, max / 2, max - 1, max] };
    for &x in &qs {
        eq("equal_range", w.v.equal_range(&x), want(below(x), upto(x), 0, n)).map_err(|e| format!("value {x}: {e}"))?;
        for &a in sp {
            for &b in sp.iter().filter(|b| **b >= a) {
                let rs = ranges(a, b, n);
                let r = rs[(a + b + x as usize) % rs.len()];
                eq("equal_range_in_range", w.v.equal_range_in_range(&x, r), want(below(x), upto(x), a, b)).map_err(|e| format!("value {x} in {:?}: {e}", r))?;
                st.evals += 1;
            }
        }
        for &y in qs.iter().filter(|y| **y >= x) {
            for (lo, s) in [(below(x), Included(&x)), (upto(x), Excluded(&x)), (0, Unbounded)] {
                for (hi, e) in [(upto(y), Included(&y)), (below(y), Excluded(&y)), (n, Unbounded)] {
                    if lo > hi || (x == y && matches!((&s, &e), (Excluded(_), Excluded(_)))) {
                        // contradictory bounds: nothing to promise but termination
                        let _ = guard(|| w.v.between_range(s, e));
                        continue;
                    }
                    eq("between_range", w.v.between_range(s, e), want(lo, hi, 0, n)).map_err(|er| format!("between {:?} and {:?}: {er}", s, e))?;
                    st.evals += 1;
                    for &a in sp.iter().step_by(2) {
                        let b = n - (n - a) / 3;
                        let rs = ranges(a, b, n);
                        let r = rs[(a + x as usize + y as usize) % rs.len()];
                        eq("between_range_in_range", w.v.between_range_in_range(s, e, r), want(lo, hi, a, b)).map_err(|er| format!("between {:?} and {:?} in {:?}: {er}", s, e, r))?;
                        st.evals += 1;
                    }
                }
            }
        }
    }
    Ok(())
}

fn c11_on(h: &[Op], st: &mut Stats, dense: bool) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = if dense {
        (0..=n).collect()
    } else {
        let s = spots(n);
        let step = (s.len() / 9).max(1);
        s.into_iter().step_by(step).chain([n.saturating_sub(1), n]).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
    };
    let mut w = build(h)?;
    renumber(&mut w);
    for &c1 in &sp {
        for &c2 in sp.iter().filter(|c| **c >= c1) {
            beat();
            c11_queries(&w, c1, c2, &sp, dense && n <= 6, st)?;
        }
    }
    drop(w);
    for pat in 0..4u32 {
        tok::reset();
        let vals: Vec<u32> = (0..n as u32)
            .map(|i| match pat {
                0 => i,
                1 => i / 2 + 1,
                2 => i / 3 * 2,
                _ => 4,
            })
            .collect();
        let w = valued(h, &vals)?;
        beat();
        c11_values(&w, &vals, &sp, st)?;
    }
    st.traces += 1;
    errs()
}
fn c11_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every monotone classification, every query range and kind of bounds, on every reachable shape", small(q(9, 11), q(3, 3), 1), trans_move, |h, st| c11_on(h, st, true)),
            hists("long", "every monotone classification and query range on vectors built by pushes", || (11..q(22, 34) as u32).map(|n| vec![NB(n)]).collect(), |h, st| c11_on(h, st, true)),
            ex("towers", "larger vectors", towers(0), trans_move, |h, st| c11_on(h, st, false)),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(0), trans_move, |h, st| c11_on(h, st, false))]
    }
}

// ---------------------------------------------------------------- C15

fn c15_on(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = if n <= 80 {
        (0..=n).collect()
    } else {
        let s = spots(n);
        let step = (s.len() / 12).max(1);
        s.into_iter().step_by(step).chain([n - 1, n]).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
    };
    for shared in [false, true] {
        for &a in &sp {
            for &b in sp.iter().filter(|b| **b >= a) {
                for (t, r) in ranges(a, b, n).into_iter().enumerate() {
                    if t > 1 && n > 8 && (a + b + t) % 3 != 0 {
                        continue;
                    }
                    beat();
                    let mut w = build(h)?;
                    let c = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
                    let before = w.m.clone();
                    let go = |w: &mut World| -> Res {
                        w.v.reverse_range(r);
                        w.m[a..b].reverse();
                        w.verify_all("reversed once")?;
                        w.v.reverse_range(r);
                        w.m = before.clone();
                        w.verify_all("reversed twice")?;
                        if a == 0 && b == n {
                            w.v.reverse();
                            w.m.reverse();
                            w.verify_all("reverse")?;
                            w.step(PB)?;
                            w.step(OF)?;
                            w.verify_all("operations after reverse")?;
                        }
                        if let Some((c, m)) = &c {
                            chk("the copy", c, m)?;
                        }
                        Ok(())
                    };
                    go(&mut w).map_err(|e| format!("range {:?} shared {shared}: {e}", r))?;
                    st.evals += 2;
                }
            }
        }
    }
    st.traces += 1;
    errs()
}
fn c15_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every range with every kind of bounds on every reachable shape, twice, unshared and shared", small(q(11, 12), q(2, 3), 1), trans_move, c15_on),
            ex("taller shapes", "the same", small(q(9, 10), q(5, 7), 1), trans_move, c15_on),
            ex("several histories per shape", "the same", small(q(8, 9), 3, 3), trans_move, c15_on),
            ex("towers", "larger vectors", towers(0), trans_move, c15_on),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(0), trans_move, c15_on)]
    }
}
include!("props5.rs");
