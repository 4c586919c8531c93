// Included at the end of the property files: trees of three and four levels of internal nodes at the shipped width,
// i.e. more than 64^3 elements.  Paths of that length are the shortest on which code that follows a path further than
// one node below the spine or the root does anything of its own.

fn giant_seeds() -> Vec<Vec<Op>> {
    let m = M as u32;
    let (mm, mmm) = (m * m, m * m * m);
    vec![
        vec![NB(mmm + 2 * mm + 9)],
        vec![NF(mmm + 2 * mm + 9)],
        vec![NB(mmm / 2 + 2 * mm), NF(mmm / 2 + mm + 7)],
        vec![NB(mmm + 3 * mm), SR(2 * mm + 5), SL(mmm)],
        vec![NB(mmm), RO(mmm / 3)],
        vec![NB(mmm / 4 + 50), AS, AS],
        vec![CV(2 * mmm + 1), IN(mmm), RM(5)],
        vec![NB(2 * mmm + 3 * mm + 1)],
    ]
}
/// the ones with every element different
fn giant_few() -> Vec<Vec<Op>> {
    let g = giant_seeds();
    [0, 1, 3, 4].into_iter().map(|i| g[i].clone()).collect()
}
fn alpha_giant(n: usize) -> Vec<Op> {
    let n = n as u32;
    let m = M as u32;
    let mm = m * m;
    vec![PB, PF, OB, OF, AS, QS, SL(n / 2), SR(n / 2), SL(mm + 3), SR(n - mm - 3), SL(n - 1), SR(1), RO(n / 3), IN(n / 2), RM(n / 2), IN(mm + 1), RM(n - mm), AF(mm + 1), QF(mm + 1), DB(n - 100), DF(n - 100), DB(2 * mm), DF(2 * mm), NB(3 * mm), NF(3 * mm), XM(mm, n - mm), XR(mm, n - mm)]
}
fn giants(seeds: Vec<Vec<Op>>, depth: usize) -> Space {
    Space { seeds, alpha: alpha_giant, max_len: 2_000_000, max_height: 30, max_depth: depth, max_states: 400_000, multi: 1 }
}
/// positions at and around the borders of blocks, of nodes and of the whole
fn giant_spots(n: usize) -> Vec<usize> {
    let mut s = marks(n);
    s.retain(|x| *x < n);
    let step = (s.len() / 40).max(1);
    let mut s: Vec<usize> = s.into_iter().step_by(step).collect();
    s.extend((0..24).map(|k| k * n / 24 + (k * 29) % 64).filter(|x| *x < n));
    s.push(n - 1);
    s.sort();
    s.dedup();
    s
}

fn g_c03(h: &[Op], st: &mut Stats) -> Res {
    let mut w = build(h)?;
    c03_reads(&mut w, st)?;
    let c = w.v.clone();
    let cm = w.m.clone();
    for (k, i) in giant_spots(w.m.len()).into_iter().enumerate() {
        put(&mut w, k % 3, i)?;
    }
    w.verify_all("after writing many positions")?;
    chk("the copy", &c, &cm)?;
    drop(c);
    c03_muts(&mut w, st)?;
    errs()
}
fn g_c06(h: &[Op], st: &mut Stats) -> Res {
    let w = build(h)?;
    let n = w.m.len();
    let sp = giant_spots(n);
    let mut f = w.v.focus();
    // every pair of marked positions one after the other: the cursor moves between any two parts of the tree
    for &i in &sp {
        for &j in &sp {
            for x in [i, j] {
                eq("focus", f.get(x).map(|t| t.id()), Some(w.m[x])).map_err(|e| format!("get({i}) then get({j}): {e}"))?;
            }
        }
    }
    st.evals += (sp.len() * sp.len()) as u64;
    let some: Vec<usize> = sp.iter().copied().step_by((sp.len() / 14).max(1)).collect();
    for &a in &some {
        for &b in some.iter().filter(|b| **b >= a) {
            let mut f = w.v.focus();
            f.narrow(a..b);
            eq("narrowed len", f.len(), b - a)?;
            for (x, inside) in [(0, b > a), ((b - a) / 2, b > a), ((b - a).wrapping_sub(1), b > a), (b - a, false), (b - a + 1, false), (n, false)] {
                let want = if inside { Some(w.m[a + x]) } else { None };
                eq("narrowed focus", f.get(x).map(|t| t.id()), want).map_err(|e| format!("narrowed to {a}..{b}: get({x}): {e}"))?;
            }
            if b - a > 2 {
                let c = (b - a) / 3;
                let (mut l, mut r) = f.split_at(c);
                eq("left part", (l.len(), l.get(0).map(|t| t.id()), l.get(c - 1 + (c == 0) as usize).map(|t| t.id()).filter(|_| c > 0), l.get(c).is_none()), (c, if c > 0 { Some(w.m[a]) } else { None }, if c > 0 { Some(w.m[a + c - 1]) } else { None }, true))?;
                eq("right part", (r.len(), r.get(0).map(|t| t.id()), r.get(b - a - c - 1).map(|t| t.id()), r.get(b - a - c).is_none()), (b - a - c, Some(w.m[a + c]), Some(w.m[b - 1]), true))?;
            }
            st.evals += 7;
        }
    }
    c06_ship(h, st)
}
/// splits of splits along a path, written through every part
fn g_c07(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let mm = M * M;
    for shared in [false, true] {
        for (s, t) in [(n / 2, None), (mm + 5, Some((true, mm))), (n - mm - 1, Some((false, n / 2))), (n / 3, Some((true, n / 3)))] {
            c07_nest(h, shared, s, t, s + shared as usize, st).map_err(|e| format!("split at {s} then {:?}, shared {shared}: {e}", t))?;
        }
        // marked positions in every order of two
        let mut w = build(h)?;
        let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
        let sp: Vec<usize> = giant_spots(n);
        let mut new = w.m.clone();
        {
            let mut f = w.v.focus_mut();
            for &i in &sp {
                for &j in &sp {
                    for x in [i, j] {
                        eq("focus_mut", f.get(x).map(|t| t.id()), Some(new[x])).map_err(|e| format!("get({i}) then get({j}): {e}"))?;
                    }
                }
                let id = w.next;
                w.next += 1;
                *f.get(i).unwrap() = tokn(id);
                new[i] = id;
            }
        }
        w.m = new;
        w.verify_all("after writing through a mutable focus")?;
        if let Some((c, m)) = copy {
            chk("the copy", &c, &m)?;
        }
        st.evals += (sp.len() * sp.len()) as u64;
        st.traces += 5;
    }
    errs()
}
fn g_c08(h: &[Op], st: &mut Stats) -> Res {
    let mut w = build(h)?;
    let n = w.m.len();
    // (steps from the front, steps from the back) repeated; 0 means by skipping
    for (a, b) in [(1usize, 0usize), (0, 1), (1, 1), (70, 3), (3, 5000)] {
        let (mut f, mut g) = (0, n);
        let mut it = w.v.iter();
        while f < g {
            for _ in 0..a.min(g - f) {
                it_step(&mut it, &mut f, &mut g, false, &|t: &&Tok| t.id(), &w.m)?;
            }
            for _ in 0..b.min(g - f) {
                it_step(&mut it, &mut f, &mut g, true, &|t: &&Tok| t.id(), &w.m)?;
            }
        }
        it_step(&mut it, &mut f, &mut g, false, &|t: &&Tok| t.id(), &w.m)?;
        it_step(&mut it, &mut f, &mut g, true, &|t: &&Tok| t.id(), &w.m)?;
        let m = w.m.clone();
        let (mut f, mut g) = (0, n);
        {
            let mut it = w.v.iter_mut();
            while f < g {
                for _ in 0..a.min(g - f) {
                    it_step(&mut it, &mut f, &mut g, false, &|t: &&mut Tok| t.id(), &m)?;
                }
                for _ in 0..b.min(g - f) {
                    it_step(&mut it, &mut f, &mut g, true, &|t: &&mut Tok| t.id(), &m)?;
                }
            }
        }
        let (mut f, mut g) = (0, n);
        let mut it = w.v.clone().into_iter();
        while f < g {
            for _ in 0..a.min(g - f) {
                it_step(&mut it, &mut f, &mut g, false, &|t: &Tok| t.id(), &m)?;
            }
            for _ in 0..b.min(g - f) {
                it_step(&mut it, &mut f, &mut g, true, &|t: &Tok| t.id(), &m)?;
            }
        }
        drop(it);
        st.evals += 3 * n as u64;
    }
    for skip in [63usize, 64, 65, 4095, 4096, 4097, n / 3, n / 2] {
        let want: Vec<u32> = w.m.iter().copied().skip(skip).step_by(skip + 1).collect();
        let (mut it, mut got) = (w.v.iter(), vec![]);
        while let Some(t) = it.nth(skip) {
            got.push(t.id());
        }
        eq("nth", got == want, true).map_err(|e| format!("skipping {skip}: {e}"))?;
        let want: Vec<u32> = w.m.iter().rev().copied().skip(skip).step_by(skip + 1).collect();
        let (mut it, mut got) = (w.v.iter_mut(), vec![]);
        while let Some(t) = it.nth_back(skip) {
            got.push(t.id());
        }
        eq("nth_back", got == want, true).map_err(|e| format!("skipping {skip}: {e}"))?;
    }
    w.verify_all("afterwards")?;
    errs()
}
/// reversal, sorting and search on the same trees
fn g_c15(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    for (a, b) in [(0, n), (1, n - 1), (M * M, n - 5), (n / 3, n / 3 + 2 * M * M + 1)] {
        for shared in [false, true] {
            let mut w = build(h)?;
            let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
            w.v.reverse_range(a..b);
            w.m[a..b].reverse();
            w.verify_all("reversed").map_err(|e| format!("{a}..{b} shared {shared}: {e}"))?;
            if let Some((c, m)) = copy {
                chk("the copy", &c, &m)?;
            }
            st.evals += 1;
        }
    }
    errs()
}
fn g_sort(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    for (a, b) in [(0, n), (M * M + 1, n - M)] {
        for shared in [false, true] {
            let vals: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2_654_435_761) % 1009).collect();
            sort_one(h, &vals, (Bound::Included(a), Bound::Excluded(b)), a, b, 0, shared, st).map_err(|e| format!("{a}..{b} shared {shared}: {e}"))?;
        }
    }
    errs()
}
fn g_dual(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let other = vec![NB(n as u32 / 3), NF(n as u32 - n as u32 / 3)];
    for (a, b) in [(0, n), (M * M + 1, n - M)] {
        let vals: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2_654_435_761) % 1009).collect();
        dual_one(h, &other, &vals, (Bound::Included(a), Bound::Excluded(b)), a, b, 0, (a % 4) as u32, st).map_err(|e| format!("{a}..{b}: {e}"))?;
    }
    errs()
}
fn g_c14(h: &[Op], st: &mut Stats) -> Res {
    let a = build(h)?;
    let n = a.m.len();
    // the same sequence pushed from the other side
    let mut b = World::new();
    for id in a.m.iter().rev() {
        b.v.push_front(tokn(*id));
    }
    b.m = a.m.clone();
    rel(&a, &b, st)?;
    for i in giant_spots(n).into_iter().step_by(7) {
        let id = u32::MAX / 2;
        let was = b.m[i];
        *b.v.get_mut(i).unwrap() = tokn(id);
        b.m[i] = id;
        rel(&a, &b, st).map_err(|e| format!("differing at {i}: {e}"))?;
        *b.v.get_mut(i).unwrap() = tokn(was);
        b.m[i] = was;
    }
    b.v.pop_back();
    b.m.pop();
    rel(&a, &b, st)?;
    errs()
}
/// one operation each on giant trees that share everything
fn g_c16(h: &[Op], st: &mut Stats) -> Res {
    c16_on(h, st, false)
}
fn g_c22() -> Vec<(usize, u32)> {
    let m = M as u32;
    let mmm = m * m * m;
    vec![(0, mmm - 1), (2, mmm), (3, mmm), (3, mmm - 1), (3, mmm + 1), (3, mmm + m * m), (3, 2 * mmm + 128), (5, mmm + 1), (8, mmm + 2 * m * m + 1), (2, mmm + 2 * m * m)]
}
fn g_c22_case(c: &(usize, u32), st: &mut Stats) -> Res {
    let (kind, k) = *c;
    let w = c22_build(kind, k)?;
    w.verify_all("constructed")?;
    shape_ok("constructed", &w.v, &[])?;
    drop(w);
    for op in [PB, PF, OB, OF, SL(k / 2), SR(k / 2), RM(k / 3), IN(k / 3), RO(k / 5), DB(k - 50), DF(k - 50), AS] {
        beat();
        tok::reset();
        let mut w = c22_build(kind, k)?;
        let c = (w.v.clone(), w.m.clone());
        w.step(op)?;
        w.verify_all("after an operation").map_err(|e| format!("{}: {e}", op.text()))?;
        shape_ok("after an operation", &w.v, &[])?;
        chk("the copy", &c.0, &c.1)?;
        st.evals += 1;
    }
    errs()
}
fn giant_parts(id: &str) -> Vec<Part> {
    if M < 64 {
        return vec![];
    }
    let (all, few) = (giant_seeds(), giant_few());
    let b = "more than 64^3 elements at the shipped width";
    match id {
        "C01" | "C02" => vec![ex("giants", b, giants(all, 1), trans_std, visit_none)],
        "C03" => vec![ex("giants", b, giants(all, 0), trans_move, g_c03)],
        "C05" => vec![ex("giants", b, giants(all, 1), trans_inv, visit_none)],
        "C06" => vec![ex("giants", b, giants(all, 0), trans_move, g_c06)],
        "C07" => vec![ex("giants", b, giants(all, 0), trans_move, g_c07)],
        "C08" => vec![ex("giants", b, giants(all, 0), trans_move, g_c08)],
        "C09" => vec![ex("giants", b, giants(few, 0), trans_move, g_sort)],
        "C10" => vec![ex("giants", b, giants(few, 0), trans_move, g_dual)],
        "C11" => vec![ex("giants", b, giants(few, 0), trans_move, |h, st| c11_on(h, st, false))],
        "C12" => vec![ex("giants", b, giants(few, 1), trans_live, visit_none)],
        "C14" => vec![ex("giants", b, giants(few, 0), trans_move, g_c14)],
        "C15" => vec![ex("giants", b, giants(all, 0), trans_move, g_c15)],
        "C16" => vec![ex("giants", b, giants(few, 0), trans_move, g_c16)],
        "C21" => vec![ex("giants", b, giants(few, 1), trans_mem, visit_none)],
        "C22" => vec![list("giants", b, g_c22, |c| format!("{} of {}", c.0, c.1), g_c22_case)],
        _ => vec![],
    }
}
