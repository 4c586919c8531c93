// Included at the end of the property files when the pointers count (crate `work`): how much an operation does.
// One look through a shared pointer, one pointer made, copied or made unique, and one element copied count one.
use archery::work as gauge;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    New,
    Len,
    Get(usize),
    Index(usize),
    Front,
    Back,
    Clone,
    Eq,
    Push(bool),
    Pop(bool),
    Put(usize),
    PutGuarded(usize),
    FrontMut,
    BackMut,
    SplitOff(usize),
    FromStart(usize),
    ToEnd(usize),
    Slice(usize, usize),
    AppendSelf,
    AppendSmall(usize),
    PrependSmall(usize),
    PrependSelf,
    Insert(usize),
    Remove(usize),
    Focus(usize),
    FocusNarrow(usize),
    FocusSplit(usize),
    FocusMut(usize),
    FocusMutSplit(usize),
    Iter,
    IterMut,
    Range(usize),
    Search(u32),
    // whole runs
    Runs(bool, usize),
    Drain(bool),
    IterAll,
    IterBack,
    IterMutAll,
    FocusAll,
    FocusBack,
    FocusMutAll,
    GetAll,
}
/// What was counted, and the name it is reported under.
fn cost(k: K, v: &mut V) -> Result<u64, String> {
    let n = v.len();
    let mut hold: Vec<V> = vec![];
    let small = |c: usize| {
        let mut s = V::new();
        for i in 0..c {
            s.push_back(tokn(900 + i as u32));
        }
        s
    };
    let t = tokn(800);
    let other = match k {
        K::AppendSmall(c) | K::PrependSmall(c) => small(c),
        K::AppendSelf | K::PrependSelf | K::Eq => v.clone(),
        _ => V::new(),
    };
    let before = reg(|r| r.clones);
    gauge::start(20_000_000);
    match k {
        K::New => hold.push(V::new()),
        K::Len => {
            let _ = (v.len(), v.is_empty());
        }
        K::Get(i) => {
            let _ = v.get(i).map(|t| t.id());
        }
        K::Index(i) => {
            let _ = v[i].id();
        }
        K::Front => {
            let _ = v.front().map(|t| t.id());
        }
        K::Back => {
            let _ = v.back().map(|t| t.id());
        }
        K::Clone => hold.push(v.clone()),
        K::Eq => {
            let _ = *v == other;
        }
        K::Push(front) => {
            if front {
                v.push_front(t)
            } else {
                v.push_back(t)
            }
        }
        K::Pop(front) => {
            let _ = if front { v.pop_front() } else { v.pop_back() };
        }
        K::Put(i) => {
            if let Some(x) = v.get_mut(i) {
                *x = t
            }
        }
        K::PutGuarded(i) => {
            if let Some(mut x) = v.get_mut_guarded(i) {
                *x = t
            };
        }
        K::FrontMut => {
            if let Some(x) = v.front_mut() {
                *x = t
            }
        }
        K::BackMut => {
            if let Some(x) = v.back_mut() {
                *x = t
            }
        }
        K::SplitOff(i) => hold.push(v.split_off(i)),
        K::FromStart(i) => v.slice_from_start(i),
        K::ToEnd(i) => v.slice_to_end(i),
        K::Slice(i, j) => hold.push(v.extract_slice(i..j)),
        K::AppendSelf | K::AppendSmall(_) => v.append(other),
        K::PrependSelf | K::PrependSmall(_) => v.prepend(other),
        K::Insert(i) => v.insert(i, t),
        K::Remove(i) => {
            let _ = v.remove(i);
        }
        K::Focus(i) => {
            let mut f = v.focus();
            let _ = f.get(i).map(|t| t.id());
        }
        K::FocusNarrow(i) => {
            let mut f = v.focus();
            f.narrow(i..n);
            let _ = f.get(0).map(|t| t.id());
        }
        K::FocusSplit(i) => {
            let f = v.focus();
            let (mut l, mut r) = f.split_at(i);
            let _ = (l.get(0).map(|t| t.id()), r.get(0).map(|t| t.id()));
        }
        K::FocusMut(i) => {
            let mut f = v.focus_mut();
            if let Some(x) = f.get(i) {
                *x = t
            }
        }
        K::FocusMutSplit(i) => {
            let mut f = v.focus_mut();
            let (mut l, mut r) = f.split_at(i);
            if let Some(x) = l.get(i.wrapping_sub(1)) {
                *x = t
            }
            let _ = r.get(0).map(|t| t.id());
        }
        K::Iter => {
            let mut i = v.iter();
            let _ = (i.next().map(|t| t.id()), i.next_back().map(|t| t.id()), i.next().map(|t| t.id()), i.size_hint());
        }
        K::IterMut => {
            let mut i = v.iter_mut();
            let _ = (i.next().map(|t| t.id()), i.next_back().map(|t| t.id()), i.size_hint());
        }
        K::Range(i) => {
            v.reverse_range(i..(i + 3).min(n));
        }
        K::Search(x) => {
            let _ = v.equal_range_by::<u32, _>(&|t: &u32| t.cmp(&x));
        }
        K::Runs(front, c) => {
            for _ in 0..c {
                if front {
                    v.push_front(t.clone())
                } else {
                    v.push_back(t.clone())
                }
            }
        }
        K::Drain(front) => {
            for _ in 0..n {
                let _ = if front { v.pop_front() } else { v.pop_back() };
            }
        }
        K::IterAll => {
            let _ = v.iter().map(|t| t.id() as u64).sum::<u64>();
        }
        K::IterBack => {
            let _ = v.iter().rev().map(|t| t.id() as u64).sum::<u64>();
        }
        K::IterMutAll => {
            let _ = v.iter_mut().map(|t| t.id() as u64).sum::<u64>();
        }
        K::FocusAll | K::FocusBack => {
            let mut f = v.focus();
            for i in 0..n {
                let i = if k == K::FocusAll { i } else { n - 1 - i };
                let _ = f.get(i).map(|t| t.id());
            }
        }
        K::FocusMutAll => {
            let mut f = v.focus_mut();
            for i in 0..n {
                let _ = f.get(i).map(|t| t.id());
            }
        }
        K::GetAll => {
            for i in 0..n {
                let _ = v.get(i).map(|t| t.id());
            }
        }
    }
    let c = gauge::seen();
    let copies = reg(|r| r.clones) - before;
    drop(hold);
    Ok(c + copies)
}
/// near the ends, at borders, and at fractions from the middle to all but nothing away from either end
fn huge_places(n: usize) -> Vec<usize> {
    let mut s = vec![0, 1, M, M * M + 5, (1 << 32) - 1, 1 << 32, n / 3, n / 2];
    for k in 1..12 {
        let d = n / (3 << k);
        s.extend([d, n - d]);
    }
    s.extend([n - M * M, n - 2, n - 1, n]);
    s.sort();
    s
}
fn ops_work(n: usize, dense: bool) -> Vec<K> {
    let mut ps: Vec<usize> = if dense && n <= 40 { (0..=n).collect() } else if n < 1 << 24 { giant_spots(n).into_iter().chain([n]).collect() } else { huge_places(n) };
    ps.retain(|p| *p <= n);
    ps.dedup();
    let mut o = vec![K::New, K::Len, K::Front, K::Back, K::Clone, K::Push(true), K::Push(false), K::Pop(true), K::Pop(false), K::FrontMut, K::BackMut, K::AppendSelf, K::PrependSelf, K::Iter, K::IterMut, K::Search(0), K::Search(7), K::Search(1 << 30)];
    for c in [1, M - 1, M + 1, M * M + 3] {
        o.extend([K::AppendSmall(c), K::PrependSmall(c)]);
    }
    for &p in &ps {
        o.extend([K::Get(p), K::Put(p), K::PutGuarded(p), K::SplitOff(p), K::FromStart(p), K::ToEnd(p), K::Insert(p), K::Remove(p), K::Focus(p), K::FocusMut(p), K::FocusSplit(p), K::FocusMutSplit(p), K::FocusNarrow(p), K::Range(p)]);
        o.extend([K::Slice(p / 2, p), K::Slice(p, p + (n - p) / 2)]);
        if p == 0 || p >= n {
            o.retain(|k| !matches!(k, K::FocusSplit(x) | K::FocusMutSplit(x) if *x == p));
        }
        if p < n {
            o.push(K::Index(p));
        }
    }
    o
}
fn ops_runs(n: usize) -> Vec<K> {
    let mut o: Vec<K> = [1, 2, 3, M * M, 3 * M * M + 1].iter().flat_map(|c| [K::Runs(true, *c), K::Runs(false, *c)]).collect();
    if n < 1 << 24 {
        o.extend([K::Drain(true), K::Drain(false), K::IterAll, K::IterBack, K::IterMutAll, K::FocusAll, K::FocusBack, K::FocusMutAll, K::GetAll]);
    }
    o
}
/// what the documentation allows, with a constant several times what is needed
fn allowed(k: K, n: usize, height: usize, shared: bool) -> (u64, &'static str) {
    let h = height as u64 + 1;
    let m = M as u64;
    let n = n as u64;
    match k {
        K::Len | K::New => (4 * m, "width"),
        K::Front | K::Back => (6, "constant"),
        K::Clone => (10 * h, "height"),
        K::Get(_) | K::Index(_) | K::Focus(_) | K::FocusNarrow(_) | K::FocusSplit(_) | K::Iter => (100 * h, "height"),
        K::Search(_) => (100 * h * (64 - n.leading_zeros() as u64 + 4), "height times logarithm of the length"),
        K::Push(_) | K::Pop(_) | K::FrontMut | K::BackMut | K::Put(_) | K::PutGuarded(_) | K::FocusMut(_) | K::FocusMutSplit(_) | K::IterMut | K::Range(_) => {
            if shared {
                (40 * m * h, "width times height (shared)")
            } else {
                (100 * h, "height")
            }
        }
        K::Runs(_, c) => (30 * c as u64 + 40 * m * h, "pushes"),
        // finding the next block may climb all empty levels, once per block
        K::Drain(_) => (30 * n + 15 * n * h / m + 40 * m * h, "elements"),
        K::IterAll | K::IterBack | K::IterMutAll | K::FocusAll | K::FocusBack | K::FocusMutAll | K::GetAll => (40 * (n + 1) * h, "elements times height"),
        // packing two nodes of a level may look at all of their grandchildren
        _ => ((60 * m + 4 * m * m) * h, "width times height"),
    }
}
fn name_of(k: K) -> String {
    let s = format!("{:?}", k);
    s.split('(').next().unwrap().to_string()
}
fn work_on(make: &dyn Fn() -> V, height: usize, n: usize, dense: bool, sharing: bool, st: &mut Stats) -> Res {
    let base = make();
    for shared in [false, true] {
        for k in ops_work(n, dense).into_iter().chain(ops_runs(n)) {
            // the fresh one owns all of its nodes; in a huge one all blocks are shared in any case
            let mut v = if shared { base.clone() } else { make() };
            let c = match guard(|| cost(k, &mut v)).and_then(|r| r) {
                Ok(c) => c,
                Err(e) => {
                    std::mem::forget(v);
                    return Err(format!("{:?} on {n} elements (height {height}), shared {shared}: {e}", k));
                }
            };
            let (lim, what) = allowed(k, n, height, shared || sharing);
            if std::env::var("LIBRRB_WORK").is_ok() {
                st.max(&format!("{} {} %", name_of(k), shared), c * 100 / lim);
            }
            st.max(&format!("{what}: percent of the limit"), c * 100 / lim);
            if c > lim {
                return Err(format!("{:?} on {n} elements (height {height}, shared {shared}) does {c} steps; {lim} are allowed ({what})", k));
            }
            st.evals += 1;
        }
    }
    errs()
}
fn c24_hist(h: &[Op], st: &mut Stats) -> Res {
    let w = build(h)?;
    let height = tall_at_most(h, &w.v);
    let n = w.m.len();
    drop(w);
    work_on(&|| build(h).unwrap().v, height, n, M < 64, has_sharing(h), st)
}
/// huge vectors that are not regular any more
fn huge_hist(n: usize, how: usize) -> Big {
    let mut b = Big::new(n);
    let mut go = |l: &[H]| {
        for h in l {
            b.step(*h, 50).unwrap();
        }
    };
    match how {
        0 => (),
        1 => go(&[H::Insert(n / 2), H::Remove(n / 3)]),
        2 => go(&[H::Rotate(n / 3), H::Rotate((1 << 20) + 9)]),
        3 => go(&[H::Push(true), H::Push(false)]),
        4 => go(&[H::KeepRight(5), H::Add(true), H::Double]),
        5 => go(&[H::KeepLeft(n - 70), H::Pop(true), H::Add(false)]),
        6 => go(&[H::Cut(n / 4, n / 2), H::Insert(1), H::Rotate(M * M + 1)]),
        _ => go(&[H::Add(false), H::Rotate(n - 10), H::Add(false), H::Rotate(n / 2), H::Insert(n - 5)]),
    }
    b
}
fn c24_huge(c: &(usize, usize), st: &mut Stats) -> Res {
    let b = huge_hist(c.0, c.1);
    // the documented growth: the logarithm of the length, and the few concatenations
    let height = (usize::BITS - b.n.leading_zeros()) as usize / 6 + 4;
    work_on(&|| huge_hist(c.0, c.1).v, height, b.n, false, true, st)
}
/// tall and sparse: the histories whose height grows with the number of concatenations (see C05)
fn c24_tall(c: &(usize, usize), st: &mut Stats) -> Res {
    let (how, rounds) = *c;
    let m = M as u32;
    let h: Vec<Op> = match how {
        0 => std::iter::once(NB(2)).chain((0..rounds).map(|_| AF(m / 2 + 1))).collect(),
        1 => std::iter::once(NB(2)).chain((0..rounds).map(|_| QF(m / 2 + 1))).collect(),
        2 => std::iter::once(NB(2 * m)).chain((0..rounds).map(|r| IN(m + r as u32 / 2))).collect(),
        _ => std::iter::once(NB(m * m + m)).chain((0..rounds).map(|r| RO(m + (r as u32 * 7) % (m * m)))).collect(),
    };
    let w = build(&h)?;
    let height = tall_at_most(&h, &w.v);
    let n = w.m.len();
    st.max("height of the tall", height as u64);
    drop(w);
    work_on(&|| build(&h).unwrap().v, height, n, false, false, st)
}
pub fn c24_parts() -> Vec<Part> {
    let b = "every operation at every (or every marked) position, unshared and shared";
    let tall = || list("tall", b, || (0..4).flat_map(|k| (if M < 64 { [q(60, 100), q(120, 400)] } else { [300, q(900, 2000)] }).map(|r| (k, r))).collect(), |c| format!("{} after {} rounds", c.0, c.1), c24_tall);
    if M < 64 {
        vec![ex("shapes", b, full(q(10, 12), 4, 1), trans_quiet, c24_hist), ex("towers", b, towers(q(0, 1)), trans_quiet, c24_hist), tall()]
    } else {
        vec![
            tall(),
            ex("towers", b, towers(0), trans_quiet, c24_hist),
            ex("giants", b, giants(if thorough() { giant_seeds() } else { giant_few() }, 0), trans_quiet, c24_hist),
            list("huge", b, || huge_lens().into_iter().filter(|n| *n < 1 << 60).flat_map(|n| (0..8).map(move |k| (n, k))).collect(), |c| format!("{} elements, {}", c.0, c.1), c24_huge),
        ]
    }
}
