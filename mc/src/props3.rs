// ---------------------------------------------------------------- C06



/// does the focus stand for exactly m[a..b]?  Some access orders on it.
fn foc_is(what: &str, f: &mut Foc, m: &[u32], st: &mut Stats) -> Res {
    let n = m.len();
    if f.len() != n || f.is_empty() != (n == 0) {
        return Err(format!("{what}: len {} is_empty {} want {n}", f.len(), f.is_empty()));
    }
    let mut one = |i: usize| -> Res {
        st.evals += 1;
        let got = f.get(i).map(|t| t.id());
        if got != m.get(i).copied() {
            return Err(format!("{what}: get({i}) is {:?} want {:?}", got, m.get(i)));
        }
        Ok(())
    };
    for i in 0..n {
        one(i)?;
    }
    one(n)?;
    for i in (0..n).rev() {
        one(i)?;
    }
    one(n + 1)?;
    for i in 0..n {
        one(if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 })?;
    }
    one(2 * n + M)?;
    Ok(())
}

fn c06_visit(h: &[Op], st: &mut Stats) -> Res {
    let w = build(h)?;
    let before = reg(|r| r.clones);
    c06_on(&w, st, usize::MAX)?;
    w.verify_all("after reading through foci")?;
    // and with the structure shared
    let c = w.v.clone();
    c06_on(&w, st, 4)?;
    chk("the copy", &c, &w.m)?;
    eq("clones made by reading", reg(|r| r.clones), before)?;
    errs()
}
fn c06_on(w: &World, st: &mut Stats, deep: usize) -> Res {
    let (v, m) = (&w.v, &w.m);
    let n = m.len();
    let mut f = v.focus();
    foc_is("focus", &mut f, m, st)?;
    for i in far(n) {
        if f.get(i).is_some() {
            return Err(format!("focus: get({i}) yields an element"));
        }
    }
    for i in [n, n + 3] {
        if !panics(|| f.index(i).id()) {
            return Err(format!("focus: index({i}) does not panic"));
        }
    }
    if n <= 80 {
        // all orders of three reads, and a copy made between them
        for i in 0..n {
            for j in 0..n {
                let mut f = v.focus();
                for x in [i, j, i] {
                    eq("focus read", f.get(x).map(|t| t.id()), Some(m[x])).map_err(|e| format!("reads {i} {j} {i}: {e}"))?;
                }
                let mut g = f.clone();
                for k in 0..n {
                    let mut e = f.clone();
                    eq("focus read", e.get(k).map(|t| t.id()), Some(m[k])).map_err(|e| format!("reads {i} {j} {i} {k}: {e}"))?;
                    eq("focus read", g.index(k).id(), m[k]).map_err(|e| format!("reads {i} {j} {i} then all up to {k}: {e}"))?;
                }
                st.evals += 3 + 2 * n as u64;
            }
        }
    }
    let sp: Vec<usize> = if n <= 80 {
        (0..=n).collect()
    } else {
        let s = spots(n);
        let step = (s.len() / 14).max(1);
        s.into_iter().step_by(step).chain([n]).collect()
    };
    let deep = if n <= 80 { deep } else { deep.min(3) };
    for &a in &sp {
        for &b in sp.iter().filter(|b| **b >= a) {
            let part = &m[a..b];
            let what = format!("narrowed to {a}..{b}");
            for (t, r) in ranges(a, b, n).into_iter().enumerate() {
                let mut f = v.focus();
                if t % 2 == 1 && n > 0 {
                    f.get((a + b) % n);
                }
                f.narrow(r);
                foc_is(&what, &mut f, part, st)?;
            }
            let mut f = Foc::narrowed_tree(v, a..b);
            foc_is(&what, &mut f, part, st)?;
            let k = b - a;
            // reaching outside the parent
            if k < n {
                for r in [(0, k + 1), (k / 2, k + 2), (k + 1, k + 1), (0, n - a + 1)] {
                    let inside = r.0 <= r.1 && r.1 <= k;
                    let mut f = Foc::narrowed_tree(v, a..b);
                    let mut g = f.clone();
                    if guard(|| g.narrow(r.0..r.1)).is_ok() && !inside {
                        // allowed only if nothing outside becomes reachable
                        for i in 0..n + 2 {
                            if let Some(t) = g.get(i) {
                                if !part.contains(&t.id()) {
                                    return Err(format!("{what}, then to {:?}: reaches an element outside", r));
                                }
                            }
                        }
                    }
                    foc_is(&what, &mut f, part, st)?;
                }
            }
            // splits of it, after any first read
            let inner: Vec<usize> = if k <= 80 { (0..=k).collect() } else { vec![0, 1, k / 2, k - 1] };
            for &s in &inner {
                if s >= k {
                    continue;
                }
                let mut f = Foc::narrowed_tree(v, a..b);
                f.get((s * 3 + 1) % k.max(1));
                let (mut l, mut r) = f.split_at(s);
                foc_is(&format!("{what}, left of a split at {s}"), &mut l, &part[..s], st)?;
                foc_is(&format!("{what}, right of a split at {s}"), &mut r, &part[s..], st)?;
                foc_is(&format!("{what}, left of a split at {s}, again"), &mut l, &part[..s], st)?;
                if deep > 0 && r.len() > 1 {
                    let t = r.len() / 2;
                    let (mut rl, mut rr) = r.split_at(t);
                    foc_is(&format!("{what}, split at {s} and the right part at {t}, left"), &mut rl, &part[s..s + t], st)?;
                    foc_is(&format!("{what}, split at {s} and the right part at {t}, right"), &mut rr, &part[s + t..], st)?;
                }
            }
            for past in [k + 1, k + 2, n + 1] {
                let f = Foc::narrowed_tree(v, a..b);
                if let Ok((mut l, mut r)) = guard(|| f.split_at(past)) {
                    foc_is(&format!("{what}, left of a split past the end"), &mut l, part, st)?;
                    foc_is(&format!("{what}, right of a split past the end"), &mut r, &[], st)?;
                }
            }
            // narrowed twice
            if k <= 80 && (k <= deep || (a + b) % 3 == 0) {
                for c in 0..=k {
                    for d in c..=k {
                        let mut f = Foc::narrowed_tree(v, a..b);
                        if k > 0 {
                            f.get(d % k);
                        }
                        f.narrow(c..d);
                        foc_is(&format!("{what} and then to {c}..{d}"), &mut f, &part[c..d], st)?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn c06_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every focus of every reachable shape: read orders, narrowings, double narrowings, splits, copies", small(q(10, 11), q(2, 3), 1), trans_move, c06_visit),
            ex("taller shapes", "the same", small(q(8, 10), q(5, 6), 1), trans_move, c06_visit),
            ex("towers", "larger vectors", towers(0), trans_move, c06_visit),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(0), trans_move, c06_visit), ex("after one macro", "shipped width", towers(q(1, 1)), trans_move, c06_ship)]
    }
}
fn c06_ship(h: &[Op], st: &mut Stats) -> Res {
    let w = build(h)?;
    let mut f = w.v.focus();
    foc_is("focus", &mut f, &w.m, st)?;
    let n = w.m.len();
    for (a, b) in [(n / 3, n), (0, n / 2), (n / 4, 3 * n / 4), (n / 2, n / 2)] {
        let mut f = w.v.focus();
        f.narrow(a..b);
        foc_is("narrowed focus", &mut f, &w.m[a..b], st)?;
        if b > a {
            let (mut l, mut r) = f.split_at((b - a) / 2);
            foc_is("left part", &mut l, &w.m[a..a + (b - a) / 2], st)?;
            foc_is("right part", &mut r, &w.m[a + (b - a) / 2..b], st)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07



fn fm_is(what: &str, f: &mut FocMut, m: &[u32], order: usize, st: &mut Stats) -> Res {
    let n = m.len();
    if f.len() != n || f.is_empty() != (n == 0) {
        return Err(format!("{what}: len {} is_empty {} want {n}", f.len(), f.is_empty()));
    }
    for k in 0..n {
        let i = match order % 3 {
            0 => k,
            1 => n - 1 - k,
            _ => {
                if k % 2 == 0 {
                    k / 2
                } else {
                    n - 1 - k / 2
                }
            }
        };
        st.evals += 1;
        let got = f.get(i).map(|t| t.id());
        if got != Some(m[i]) {
            return Err(format!("{what}: get({i}) is {:?} want {}", got, m[i]));
        }
    }
    for i in far(n) {
        if f.get(i).is_some() {
            return Err(format!("{what}: get({i}) yields an element of a part of {n}"));
        }
    }
    Ok(())
}

/// one nest of splits: `cuts` gives the split points (relative to the part split), parts written in the given order
fn c07_nest(h: &[Op], shared: bool, s: usize, t: Option<(bool, usize)>, order: usize, st: &mut Stats) -> Res {
    let mut w = build(h)?;
    let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
    let n = w.m.len();
    let m0 = w.m.clone();
    let new: Vec<u32> = (0..n).map(|_| w.fresh()).collect();
    {
        let mut f = w.v.focus_mut();
        if order % 2 == 1 && n > 0 {
            eq("before the split", f.get((s * 7) % n).map(|t| t.id()), Some(m0[(s * 7) % n]))?;
        }
        {
            let (mut l, mut r) = f.split_at(s);
            let (lm, rm) = (&m0[..s], &m0[s..]);
            match t {
                None => {
                    if order % 2 == 0 {
                        fm_is("left part", &mut l, lm, order, st)?;
                        fm_is("right part", &mut r, rm, order, st)?;
                    } else {
                        fm_is("right part", &mut r, rm, order, st)?;
                        fm_is("left part", &mut l, lm, order, st)?;
                    }
                    // interleaved writes, positions visited pairwise from opposite ends
                    for k in 0..s.max(n - s) {
                        if k < s {
                            let i = if order % 2 == 0 { k } else { s - 1 - k };
                            *l.get(i).ok_or("left part: None")? = tokn(new[i]);
                        }
                        if k < n - s {
                            let i = if order % 3 == 0 { k } else { n - s - 1 - k };
                            *r.get(i).ok_or("right part: None")? = tokn(new[s + i]);
                        }
                    }
                    fm_is("left part after writing", &mut l, &new[..s], order + 1, st)?;
                    fm_is("right part after writing", &mut r, &new[s..], order + 1, st)?;
                }
                Some((right, t)) => {
                    let base = if right { s } else { 0 };
                    let (pm, om) = if right { (rm, lm) } else { (lm, rm) };
                    let (p, o) = if right { (&mut r, &mut l) } else { (&mut l, &mut r) };
                    {
                        let k = pm.len();
                        let (mut a, mut b) = p.split_at(t);
                        fm_is("first inner part", &mut a, &pm[..t], order, st)?;
                        fm_is("outer part", o, om, order, st)?;
                        fm_is("second inner part", &mut b, &pm[t..], order, st)?;
                        for i in 0..k {
                            let i = if order % 2 == 0 { i } else { k - 1 - i };
                            let slot = if i < t { a.get(i) } else { b.get(i - t) };
                            *slot.ok_or("inner part: None")? = tokn(new[base + i]);
                            if !om.is_empty() {
                                let j = i % om.len();
                                eq("outer part in between", o.get(j).map(|t| t.id()), Some(om[j]))?;
                            }
                        }
                        // a third level below the larger inner part
                        let (q, qs) = if t > k - t { (&mut a, &new[base..base + t]) } else { (&mut b, &new[base + t..base + k]) };
                        let u = qs.len() / 2;
                        let (mut x, mut y) = q.split_at(u);
                        fm_is("innermost left", &mut x, &qs[..u], order, st)?;
                        fm_is("innermost right", &mut y, &qs[u..], order, st)?;
                    }
                    fm_is("parent after its parts are gone", p, &new[base..base + pm.len()], order, st)?;
                    let ob = if right { 0 } else { s };
                    for j in 0..om.len() {
                        *o.get(j).ok_or("outer part: None")? = tokn(new[ob + j]);
                    }
                }
            }
        }
        fm_is("the whole after its parts are gone", &mut f, &new, order, st)?;
        // split again elsewhere
        let s2 = if n > 0 { (s + 1 + n / 2) % (n + 1) } else { 0 };
        let (mut l, mut r) = f.split_at(s2);
        fm_is("left part of a second split", &mut l, &new[..s2], order, st)?;
        fm_is("right part of a second split", &mut r, &new[s2..], order, st)?;
    }
    w.m = new;
    w.verify_all("the vector afterwards")?;
    if M < 64 || n < 300 {
        shape_ok("the vector afterwards", &w.v, h)?;
    }
    w.step(PB)?;
    w.step(PF)?;
    w.step(OF)?;
    w.step(OB)?;
    if n > 0 {
        w.step(IN(s as u32))?;
        w.step(OB)?;
        w.step(RM((n / 2) as u32))?;
    }
    w.verify_all("operations afterwards")?;
    if let Some((c, m)) = copy {
        chk("the copy", &c, &m)?;
    }
    errs()
}

fn c07_visit(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = if n <= 80 {
        (0..=n).collect()
    } else {
        let s = spots(n);
        let step = (s.len() / 10).max(1);
        s.into_iter().step_by(step).chain([n]).collect()
    };
    for shared in [false, true] {
        for &s in &sp {
            for order in 0..6 {
                c07_nest(h, shared, s, None, order, st).map_err(|e| format!("split at {s}, order {order}, shared {shared}: {e}"))?;
                st.traces += 1;
            }
            for right in [false, true] {
                let k = if right { n - s } else { s };
                for &t in sp.iter().filter(|t| **t <= k) {
                    let order = s + t + right as usize;
                    c07_nest(h, shared, s, Some((right, t)), order, st).map_err(|e| format!("split at {s} and the {} part at {t}, shared {shared}: {e}", if right { "right" } else { "left" }))?;
                    st.traces += 1;
                }
            }
        }
        // all pairs of reads through the undivided focus
        if n <= 40 {
            for i in 0..n {
                let mut w = build(h)?;
                let copy = w.v.clone();
                if !shared {
                    tok_drop(copy);
                }
                let mut f = w.v.focus_mut();
                for j in 0..n {
                    for x in [i, j] {
                        eq("focus_mut", f.get(x).map(|t| t.id()), Some(w.m[x])).map_err(|e| format!("reads of {i} and each up to {j}: {e}"))?;
                    }
                }
            }
        }
    }
    for past in [n + 1, n + 5] {
        let mut w = build(h)?;
        let mut f = w.v.focus_mut();
        let r = guard(|| {
            let (l, r) = f.split_at(past);
            (l.len(), r.len())
        });
        if let Ok((l, r)) = r {
            if l + r > n {
                return Err(format!("a split past the end covers {} positions of {n}", l + r));
            }
        }
    }
    errs()
}
fn tok_drop<T>(_: T) {}

fn c07_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every split and every nested split of every reachable shape, unshared and shared, six access orders", small(q(10, 12), 2, 1), trans_move, c07_visit),
            ex("taller shapes", "the same", small(q(8, 10), q(4, 6), 1), trans_move, c07_visit),
            ex("several histories per shape", "the same", small(q(7, 8), 3, 3), trans_move, c07_visit),
            ex("towers", "larger vectors", towers(0), trans_move, c07_visit),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(0), trans_move, c07_ship)]
    }
}
fn c07_ship(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = {
        let s = spots(n);
        let step = (s.len() / q(8, 30)).max(1);
        s.into_iter().step_by(step).chain([n]).collect()
    };
    for shared in [false, true] {
        for &s in &sp {
            c07_nest(h, shared, s, None, s, st).map_err(|e| format!("split at {s}, shared {shared}: {e}"))?;
            for t in [0, 1, s / 2, s] {
                if t <= s {
                    c07_nest(h, shared, s, Some((false, t)), s, st).map_err(|e| format!("split at {s}, left at {t}, shared {shared}: {e}"))?;
                }
                if t <= n - s {
                    c07_nest(h, shared, s, Some((true, t)), s + 1, st).map_err(|e| format!("split at {s}, right at {t}, shared {shared}: {e}"))?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn it_step<I: DoubleEndedIterator + ExactSizeIterator>(it: &mut I, f: &mut usize, b: &mut usize, back: bool, id: &dyn Fn(&I::Item) -> u32, m: &[u32]) -> Result<Option<I::Item>, String> {
    let left = *b - *f;
    if it.size_hint() != (left, Some(left)) || it.len() != left {
        return Err(format!("size_hint {:?} len {} with {left} left", it.size_hint(), it.len()));
    }
    let got = if back { it.next_back() } else { it.next() };
    let want = if left == 0 {
        None
    } else if back {
        *b -= 1;
        Some(m[*b])
    } else {
        *f += 1;
        Some(m[*f - 1])
    };
    let g = got.as_ref().map(|x| id(x));
    if g != want {
        return Err(format!("{} is {:?} want {:?}", if back { "next_back" } else { "next" }, g, want));
    }
    Ok(got)
}

/// depth first over all interleavings of a cloneable iterator
fn c08_dfs(it: ItOf, f: usize, b: usize, m: &[u32], path: &mut String, st: &mut Stats) -> Res {
    for back in [false, true] {
        let mut i = it.clone();
        let (mut f, mut b) = (f, b);
        path.push(if back { 'b' } else { 'f' });
        let more = it_step(&mut i, &mut f, &mut b, back, &|t| t.id(), m).map_err(|e| format!("iter, {path}: {e}"))?.is_some();
        st.evals += 1;
        if more {
            c08_dfs(i, f, b, m, path, st)?;
        } else {
            for k in 0..3 {
                it_step(&mut i, &mut f, &mut b, k % 2 == 0, &|t| t.id(), m).map_err(|e| format!("iter, {path} exhausted: {e}"))?;
            }
        }
        path.pop();
    }
    Ok(())
}

fn pattern_text(p: &[bool]) -> String {
    p.iter().map(|b| if *b { 'b' } else { 'f' }).collect()
}

fn c08_pattern(h: &[Op], p: &[bool], kind: usize, shared: bool, st: &mut Stats) -> Res {
    let mut w = build(h)?;
    let copy = if shared { Some((w.v.clone(), w.m.clone())) } else { None };
    let n = w.m.len();
    let (mut f, mut b) = (0, n);
    let fail = |e: String| format!("{}, {}, shared {shared}: {e}", ["iter", "iter_mut", "into_iter"][kind], pattern_text(p));
    match kind {
        0 => {
            let m = w.m.clone();
            let mut it = w.v.iter();
            for back in p {
                it_step(&mut it, &mut f, &mut b, *back, &|t| t.id(), &m).map_err(fail)?;
            }
        }
        1 => {
            let m = w.m.clone();
            let new: Vec<u32> = (0..n).map(|_| w.fresh()).collect();
            {
                let mut it = w.v.iter_mut();
                let mut held: Vec<&mut Tok> = vec![];
                for (k, back) in p.iter().enumerate() {
                    if let Some(t) = it_step(&mut it, &mut f, &mut b, *back, &|t| t.id(), &m).map_err(fail)? {
                        let i = if *back { b } else { f - 1 };
                        if k % 2 == 0 {
                            *t = tokn(new[i]);
                            w.m[i] = new[i];
                        } else {
                            held.push(t);
                            w.m[i] = new[i];
                        }
                    }
                }
                // borrows handed out earlier are still good: write through them now
                let mut order: Vec<usize> = vec![];
                let (mut f, mut b) = (0, n);
                for (k, back) in p.iter().enumerate() {
                    if f == b {
                        break;
                    }
                    let i = if *back {
                        b -= 1;
                        b
                    } else {
                        f += 1;
                        f - 1
                    };
                    if k % 2 == 1 {
                        order.push(i)
                    }
                }
                for (t, i) in held.into_iter().zip(order) {
                    *t = tokn(new[i]);
                }
            }
            w.verify_all("the vector afterwards").map_err(fail)?;
            w.step(PB)?;
            w.step(OF)?;
            w.verify_all("operations afterwards").map_err(fail)?;
        }
        _ => {
            let m = w.m.clone();
            let v = std::mem::replace(&mut w.v, V::new());
            let mut it = v.into_iter();
            for back in p {
                it_step(&mut it, &mut f, &mut b, *back, &|t| t.id(), &m).map_err(fail)?;
            }
            let sole = !shared && !has_sharing(h);
            if sole {
                eq("elements alive before the iterator is dropped", reg(|r| r.live), (b - f) as i64).map_err(fail)?;
            }
            drop(it);
            if sole {
                eq("elements alive after the iterator is dropped", reg(|r| r.live), 0).map_err(fail)?;
            }
        }
    }
    if let Some((c, m)) = copy {
        chk("the copy", &c, &m).map_err(fail)?;
    }
    drop(w);
    st.evals += 1;
    errs().map_err(fail)
}

fn c08_adapters(h: &[Op], st: &mut Stats) -> Res {
    let n = build(h)?.m.len();
    let sp: Vec<usize> = if n <= 80 { (0..=n).collect() } else { spots(n).into_iter().step_by(7).collect() };
    let mut w = build(h)?;
    let m = w.m.clone();
    for &f in &sp {
        for k in [0usize, 1, 2, n / 2, n.saturating_sub(f), n] {
            let mut it = w.v.iter();
            let mut want = m.iter().copied();
            for _ in 0..f {
                it.next();
                want.next();
            }
            if k % 2 == 1 {
                it.next_back();
                want.next_back();
            }
            eq("nth", it.nth(k).map(|t| t.id()), want.nth(k)).map_err(|e| format!("after {f}, nth({k}): {e}"))?;
            eq("nth_back", it.nth_back(k / 2).map(|t| t.id()), want.nth_back(k / 2)).map_err(|e| format!("after {f}, nth({k}), nth_back: {e}"))?;
            eq("rest", it.clone().map(|t| t.id()).collect::<Vec<_>>(), want.clone().collect::<Vec<_>>()).map_err(|e| format!("after {f}, nth({k}): {e}"))?;
            eq("rev", it.clone().rev().map(|t| t.id()).collect::<Vec<_>>(), want.clone().rev().collect::<Vec<_>>())?;
            eq("last", it.clone().last().map(|t| t.id()), want.clone().last())?;
            eq("count", it.clone().count(), want.clone().count())?;
            eq("skip/step_by", it.clone().skip(1).step_by(2).map(|t| t.id()).collect::<Vec<_>>(), want.clone().skip(1).step_by(2).collect::<Vec<_>>())?;
            eq("fold", it.fold(7u64, |a, t| a * 3 % 1000003 + t.id() as u64), want.fold(7u64, |a, t| a * 3 % 1000003 + t as u64))?;
            // the mutable iterator
            let mut want = m.iter().copied();
            let mut it = w.v.iter_mut();
            for _ in 0..f {
                it.next_back();
                want.next_back();
            }
            eq("iter_mut nth", it.nth(k).map(|t| t.id()), want.nth(k)).map_err(|e| format!("after {f} from the back, nth({k}): {e}"))?;
            eq("iter_mut nth_back", it.nth_back(k / 2).map(|t| t.id()), want.nth_back(k / 2)).map_err(|e| format!("after {f} from the back: {e}"))?;
            eq("iter_mut len", it.len(), want.len())?;
            eq("iter_mut rest", it.rev().map(|t| t.id()).collect::<Vec<_>>(), want.rev().collect::<Vec<_>>())?;
            st.evals += 12;
        }
        // consuming iterator
        let mut it = build(h)?.v.into_iter();
        let mut want = m.iter().copied();
        eq("into_iter nth", it.nth(f).map(|t| t.id()), want.nth(f))?;
        eq("into_iter nth_back", it.nth_back(f / 2).map(|t| t.id()), want.nth_back(f / 2))?;
        eq("into_iter len", it.len(), want.len())?;
        eq("into_iter rest", it.rev().map(|t| t.id()).collect::<Vec<_>>(), want.rev().collect::<Vec<_>>())?;
    }
    let mut a: Vec<u32> = vec![];
    for t in &w.v {
        a.push(t.id());
    }
    eq("for loop", a, m.clone())?;
    let mut a: Vec<u32> = vec![];
    for t in &mut w.v {
        a.push(t.id());
    }
    eq("mutable for loop", a, m)?;
    w.verify_all("after iterating")?;
    errs()
}

fn c08_visit(h: &[Op], st: &mut Stats) -> Res {
    c08_adapters(h, st)?;
    let w = build(h)?;
    let n = w.m.len();
    if n <= q(10, 13) {
        c08_dfs(w.v.iter(), 0, n, &w.m, &mut String::new(), st)?;
    }
    drop(w);
    let full = q(6, 8);
    let mut pats: Vec<Vec<bool>> = vec![];
    if n <= full {
        for bits in 0..1u32 << n {
            let mut p: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
            p.extend([true, false, bits & 1 == 1]);
            pats.push(p);
        }
        // partial consumption
        for f in 0..n {
            for b in 0..n - f {
                let mut p = vec![false; f];
                p.extend(vec![true; b]);
                pats.push(p);
            }
        }
    } else {
        let sp: Vec<usize> = if n <= 80 { (0..=n).collect() } else { spots(n).into_iter().step_by(9).collect() };
        for &f in &sp {
            for b in [0, 1, (n - f) / 2, n - f] {
                let mut p = vec![false; f];
                p.extend(vec![true; b]);
                let mut r = p.clone();
                r.reverse();
                p.extend([false, true, true, false]);
                pats.push(p);
                pats.push(r);
            }
        }
        for k in 1..5 {
            pats.push((0..n + 2).map(|i| i % (k + 1) == 0).collect());
            pats.push((0..n + 2).map(|i| i % (k + 1) != 0).collect());
        }
        for f in 0..=4usize.min(n) {
            // a few from each end, then switch
            for bits in 0..1u32 << f {
                let mut p: Vec<bool> = (0..f).map(|i| bits >> i & 1 == 1).collect();
                p.push(false);
                p.extend(vec![true; n / 2]);
                p.extend(vec![false; n / 2]);
                pats.push(p);
            }
        }
    }
    for p in &pats {
        for kind in 0..3 {
            for shared in [false, true] {
                if kind == 0 && shared {
                    continue;
                }
                beat();
                tok::reset();
                c08_pattern(h, p, kind, shared, st)?;
                st.traces += 1;
            }
        }
    }
    Ok(())
}

fn c08_parts() -> Vec<Part> {
    if M < 64 {
        vec![
            ex("shapes", "every interleaving of next and next_back for shared iteration; every interleaving up to a length, structured ones beyond, for mutable and consuming iteration; partial consumption", small(q(9, 10), q(2, 3), 1), trans_move, c08_visit),
            ex("taller shapes", "the same", small(q(7, 8), 6, 1), trans_move, c08_visit),
            ex("towers", "larger vectors", towers(0), trans_move, c08_visit),
        ]
    } else {
        vec![ex("towers", "shipped width", towers(0), trans_move, c08_visit)]
    }
}
include!("props4.rs");
