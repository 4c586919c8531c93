// Included at the end of the property files: vectors far longer than memory, made of shared blocks.  Lengths and
// positions beyond 32 bits occur only here.  The model keeps a length, the one element everything was filled with and
// the exceptions.
use std::collections::BTreeMap as Map;

#[derive(Clone)]
struct Big {
    v: V,
    n: usize,
    base: u32,
    at: Map<usize, u32>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
    Put(usize, usize),
    FocusPut(usize),
    PutIter,
    KeepLeft(usize),
    KeepRight(usize),
    Cut(usize, usize),
    Middle(usize, usize),
    Insert(usize),
    Remove(usize),
    Push(bool),
    Pop(bool),
    Double,
    Add(bool),
    Rotate(usize),
    Reverse(usize, usize),
    Sort(usize, usize),
}
impl Big {
    fn new(n: usize) -> Big {
        Big { v: V::constant_vec_of_length(tokn(7), n), n, base: 7, at: Map::new() }
    }
    fn want(&self, i: usize) -> Option<u32> {
        if i < self.n {
            Some(self.at.get(&i).copied().unwrap_or(self.base))
        } else {
            None
        }
    }
    fn spots(&self) -> Vec<usize> {
        let n = self.n;
        let mut s = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(1), n.saturating_sub(2), n, n.saturating_add(1), usize::MAX];
        for b in [6, 12, 18, 31, 32, 33, 40, 48] {
            let p = 1usize << b;
            s.extend([p - 1, p, p + 1, n.saturating_sub(p), n.saturating_sub(p + 1), n.saturating_add(p)]);
        }
        for k in self.at.keys() {
            s.extend([k.saturating_sub(1), *k, k + 1, k ^ (1 << 32), k & 0xffff_ffff]);
        }
        s.sort();
        s.dedup();
        s
    }
    fn check(&self, what: &str) -> Res {
        let (v, n) = (&self.v, self.n);
        eq("len", (v.len(), v.is_empty()), (n, n == 0)).map_err(|e| format!("{what}: {e}"))?;
        eq("front", v.front().map(|t| t.id()), self.want(0)).map_err(|e| format!("{what}: {e}"))?;
        eq("back", v.back().map(|t| t.id()), if n == 0 { None } else { self.want(n - 1) }).map_err(|e| format!("{what}: {e}"))?;
        let sp = self.spots();
        let mut f = v.focus();
        eq("focus len", f.len(), n)?;
        for &i in sp.iter().chain(sp.iter().rev()) {
            eq("get", v.get(i).map(|t| t.id()), self.want(i)).map_err(|e| format!("{what}: position {i}: {e}"))?;
            if i < usize::MAX / 2 {
                eq("focus", f.get(i).map(|t| t.id()), self.want(i)).map_err(|e| format!("{what}: position {i}: {e}"))?;
            }
        }
        let mut it = v.iter();
        let (mut a, mut b) = (0, n);
        for k in 0..40 {
            eq("iterator length", it.size_hint(), (b - a, Some(b - a)))?;
            let back = k % 3 == 1;
            let want = if a == b {
                None
            } else if back {
                b -= 1;
                self.want(b)
            } else {
                a += 1;
                self.want(a - 1)
            };
            let got = if back { it.next_back() } else { it.next() };
            eq("iterator", got.map(|t| t.id()), want).map_err(|e| format!("{what}: {e}"))?;
        }
        errs()
    }
    fn split(&mut self, at: usize) -> Big {
        let v = self.v.split_off(at);
        let at = at.min(self.n);
        let r = Big { v, n: self.n - at, base: self.base, at: self.at.split_off(&at).into_iter().map(|(k, x)| (k - at, x)).collect() };
        self.n = at;
        r
    }
    fn append(&mut self, o: Big) {
        self.v.append(o.v);
        let n = self.n;
        self.at.extend(o.at.into_iter().map(|(k, x)| (k + n, x)));
        self.n += o.n;
    }
    fn step(&mut self, h: H, id: u32) -> Res {
        let n = self.n;
        match h {
            H::Put(i, how) => {
                let t = tokn(id);
                let done = match how {
                    0 => self.v.get_mut(i).map(|x| *x = t).is_some(),
                    1 => self.v.get_mut_guarded(i).map(|mut x| *x = t).is_some(),
                    _ => {
                        if i < n {
                            self.v[i] = t;
                            true
                        } else {
                            false
                        }
                    }
                };
                eq("there is an element", done, i < n)?;
                if i < n {
                    self.at.insert(i, id);
                }
            }
            H::FocusPut(i) => {
                let mut f = self.v.focus_mut();
                eq("focus_mut len", f.len(), n)?;
                if i < n {
                    // from both sides of a split
                    let (mut l, mut r) = f.split_at(i);
                    eq("parts", (l.len(), r.len()), (i, n - i))?;
                    if l.get(i).is_some() || r.get(n - i).is_some() {
                        return Err("a part yields an element outside itself".into());
                    }
                    *r.get(0).ok_or("no element at the split")? = tokn(id);
                    self.at.insert(i, id);
                    if i > 0 {
                        let got = l.get(i - 1).map(|t| t.id());
                        eq("left of the split", got, Some(self.at.get(&(i - 1)).copied().unwrap_or(self.base)))?;
                        *l.get(i - 1).unwrap() = tokn(id + 1);
                        self.at.insert(i - 1, id + 1);
                    }
                }
            }
            H::PutIter => {
                let mut it = self.v.iter_mut();
                eq("iter_mut length", it.size_hint(), (n, Some(n)))?;
                for k in 0..70.min(n / 2) {
                    *it.next().ok_or("iter_mut ends")? = tokn(id + 2 * k as u32);
                    self.at.insert(k, id + 2 * k as u32);
                    *it.next_back().ok_or("iter_mut ends")? = tokn(id + 2 * k as u32 + 1);
                    self.at.insert(n - 1 - k, id + 2 * k as u32 + 1);
                }
            }
            H::KeepLeft(i) => {
                let r = self.split(i);
                r.check("right part of a split")?
            }
            H::KeepRight(i) => {
                let r = self.split(i);
                self.check("left part of a split")?;
                *self = r;
            }
            H::Cut(i, j) | H::Middle(i, j) => {
                let (i, j) = (i.min(n), j.min(n).max(i.min(n)));
                let o = std::mem::replace(&mut self.v, V::new());
                let mut v = o;
                let mid = v.extract_slice(i..j);
                self.v = v;
                let mut m = std::mem::take(&mut self.at);
                let tail = m.split_off(&j);
                let inner = m.split_off(&i);
                m.extend(tail.into_iter().map(|(k, x)| (k - (j - i), x)));
                self.at = m;
                self.n = n - (j - i);
                let mid = Big { v: mid, n: j - i, base: self.base, at: inner.into_iter().map(|(k, x)| (k - i, x)).collect() };
                if matches!(h, H::Cut(..)) {
                    mid.check("the slice")?;
                } else {
                    self.check("what is left of a slice")?;
                    *self = mid;
                }
            }
            H::Insert(i) => {
                self.v.insert(i, tokn(id));
                let i = i.min(n);
                let hi = self.at.split_off(&i);
                self.at.extend(hi.into_iter().map(|(k, x)| (k + 1, x)));
                self.at.insert(i, id);
                self.n += 1;
            }
            H::Remove(i) => {
                let got = self.v.remove(i).map(|t| t.id());
                eq("remove", got, self.want(i))?;
                if i < n {
                    let mut hi = self.at.split_off(&i);
                    hi.remove(&i);
                    self.at.extend(hi.into_iter().map(|(k, x)| (k - 1, x)));
                    self.n -= 1;
                }
            }
            H::Push(front) => {
                for k in 0..130 {
                    if front {
                        self.v.push_front(tokn(id + k));
                    } else {
                        self.v.push_back(tokn(id + k));
                    }
                    eq("len", self.v.len(), n + k as usize + 1)?;
                }
                if front {
                    let m = std::mem::take(&mut self.at);
                    self.at = m.into_iter().map(|(k, x)| (k + 130, x)).collect();
                    self.at.extend((0..130).map(|k| (129 - k as usize, id + k)));
                } else {
                    self.at.extend((0..130).map(|k| (n + k as usize, id + k)));
                }
                self.n += 130;
            }
            H::Pop(front) => {
                let k = 130.min(n);
                for j in 0..k {
                    let (got, want) = if front { (self.v.pop_front(), self.want(j)) } else { (self.v.pop_back(), self.want(n - 1 - j)) };
                    eq("pop", got.map(|t| t.id()), want)?;
                }
                if front {
                    self.at = self.at.split_off(&k).into_iter().map(|(i, x)| (i - k, x)).collect();
                } else {
                    self.at.split_off(&(n - k));
                }
                self.n -= k;
            }
            H::Double => {
                if n < 1 << 61 {
                    let c = self.clone();
                    self.append(c);
                }
            }
            H::Add(front) => {
                let mut v = V::new();
                let mut at = Map::new();
                for k in 0..100 {
                    v.push_back(tokn(id + k));
                    at.insert(k as usize, id + k);
                }
                let o = Big { v, n: 100, base: self.base, at };
                if front {
                    let mut me = std::mem::replace(self, Big { v: V::new(), n: 0, base: 7, at: Map::new() });
                    me.v.prepend(o.v.clone());
                    me.at = me.at.into_iter().map(|(k, x)| (k + 100, x)).collect();
                    me.at.extend(o.at);
                    me.n += 100;
                    *self = me;
                } else {
                    self.append(o);
                }
            }
            H::Rotate(i) => {
                let mut r = self.split(i);
                let l = std::mem::replace(self, Big { v: V::new(), n: 0, base: 7, at: Map::new() });
                r.append(l);
                *self = r;
            }
            H::Reverse(i, k) => {
                let (i, j) = (i.min(n), (i.min(n) + k).min(n));
                self.v.reverse_range(i..j);
                let w: Vec<u32> = (i..j).rev().map(|x| self.want(x).unwrap()).collect();
                for (x, v) in (i..j).zip(w) {
                    self.at.insert(x, v);
                }
            }
            H::Sort(i, k) => {
                let (i, j) = (i.min(n), (i.min(n) + k).min(n));
                self.v.sort_range_by(&|a: &Tok, b: &Tok| b.id().cmp(&a.id()), i..j);
                let mut w: Vec<u32> = (i..j).map(|x| self.want(x).unwrap()).collect();
                w.sort_by(|a, b| b.cmp(a));
                for (x, v) in (i..j).zip(w) {
                    self.at.insert(x, v);
                }
            }
        }
        Ok(())
    }
}

fn huge_lens() -> Vec<usize> {
    let mut l: Vec<usize> = vec![(1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 77, (1 << 40) + (1 << 32) + 3, (1 << 61) - 1, (1 << 63) + 9];
    if thorough() {
        l.extend([(1 << 31) - 1, 1 << 31, (1 << 32) + (1 << 12), (3 << 32) + 5, (1 << 48) + 1, 1 << 60])
    }
    l
}
fn huge_ops(id: &str, n: usize) -> Vec<H> {
    let mut ps = vec![1, 64 * 64 + 3, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 65, n / 2, n - 1];
    ps.retain(|p| *p <= n);
    ps.sort();
    ps.dedup();
    let mut o = vec![];
    let has = |l: &[&str]| l.contains(&id);
    if has(&["C01", "C02", "C03"]) {
        o.extend([H::Push(false), H::Push(true), H::Pop(false), H::Pop(true)]);
    }
    for &p in &ps {
        if has(&["C02", "C03", "C06"]) {
            o.extend([H::KeepLeft(p), H::KeepRight(p), H::Rotate(p), H::Insert(p), H::Remove(p)]);
            o.extend([H::Cut(p, n - 1), H::Middle(1, p), H::Cut(p / 2, p)]);
        }
        if has(&["C01", "C03", "C06", "C08"]) {
            o.extend([H::Put(p, 0), H::Put(p, 1), H::Put(p, 2)]);
        }
        if has(&["C07"]) {
            o.push(H::FocusPut(p));
            o.push(H::KeepLeft(p));
        }
        if has(&["C15"]) {
            o.extend([H::Reverse(p, 150), H::Put(p, 0)]);
        }
        if has(&["C09"]) {
            o.extend([H::Sort(p, 150), H::Put(p, 0)]);
        }
    }
    if has(&["C02", "C06", "C07"]) {
        o.extend([H::Double, H::Add(false), H::Add(true)]);
    }
    if has(&["C08"]) {
        o.extend([H::PutIter, H::Double]);
    }
    o
}
/// every sequence of two of the property's operations (the first printed, the second all)
fn huge_case(c: &(&'static str, usize, usize), st: &mut Stats) -> Res {
    let (id, n, first) = *c;
    let ops = huge_ops(id, n);
    let one = ops[first];
    let mut base = Big::new(n);
    base.check("constructed")?;
    if n > (1 << 33) {
        base.step(H::Put((1 << 32) + 9, 0), 20)?;
    }
    base.step(H::Put(3, 0), 21)?;
    let kept = base.clone();
    let mut b = base;
    b.step(one, 1000).map_err(|e| format!("{:?}: {e}", one))?;
    b.check("after one operation").map_err(|e| format!("{:?}: {e}", one))?;
    kept.check("the copy").map_err(|e| format!("{:?}: {e}", one))?;
    let mut seconds = huge_ops(id, b.n.max(2));
    seconds.retain(|_| b.n > 1);
    for two in seconds {
        beat();
        let mut d = b.clone();
        d.step(two, 2000).map_err(|e| format!("{:?} then {:?}: {e}", one, two))?;
        d.check("after two operations").map_err(|e| format!("{:?} then {:?}: {e}", one, two))?;
        st.evals += 1;
    }
    b.check("the copy of the first result").map_err(|e| format!("{:?}: {e}", one))?;
    kept.check("the copy").map_err(|e| format!("{:?}: {e}", one))?;
    drop((b, kept));
    eq("elements alive afterwards", reg(|r| r.live), 0)?;
    errs()
}
/// runs in a huge vector: an insertion point or run beyond 32 bits
fn huge_search(c: &(usize, usize), st: &mut Stats) -> Res {
    let (lo, hi) = *c;
    let fill = |id: u32, n: usize| V::constant_vec_of_length(tokn(id), n);
    // 4, 4, ... then 7, 7, ... then 9, 9, ...
    let mut v = fill(4, lo);
    v.append(fill(7, hi - lo));
    v.append(fill(9, 1 << 33));
    let n = hi + (1 << 33);
    eq("len", v.len(), n)?;
    let by = |want: u32| move |x: &u32| x.cmp(&want);
    for (want, ans) in [(4u32, if lo > 0 { Ok(0..lo) } else { Err(0) }), (5, Err(lo)), (7, if hi > lo { Ok(lo..hi) } else { Err(lo) }), (8, Err(hi)), (9, Ok(hi..n)), (10, Err(n))] {
        let f = by(want);
        eq("equal_range_by", v.equal_range_by::<u32, _>(&f), ans.clone()).map_err(|e| format!("{want}: {e}"))?;
        for (a, b) in [(1usize, n - 1), (lo, hi), (lo / 2, n), ((1 << 32) - 1, n)] {
            let (a, b) = (a.min(n), b.min(n));
            if a > b {
                continue;
            }
            let w = match ans.clone() {
                Ok(r) => {
                    let (x, y) = (r.start.clamp(a, b), r.end.clamp(a, b));
                    if x < y {
                        Ok(x..y)
                    } else {
                        Err(x)
                    }
                }
                Err(x) => Err(x.clamp(a, b)),
            };
            eq("equal_range_in_range_by", v.equal_range_in_range_by::<u32, _, _>(&f, a..b), w).map_err(|e| format!("{want} in {a}..{b}: {e}"))?;
            st.evals += 1;
        }
        if let Ok(r) = ans {
            for i in [r.start, r.start + (r.end - r.start) / 2, r.end - 1] {
                eq("equal_range_for_index_by", v.equal_range_for_index_by::<u32, _>(i, &f), r.clone())?;
            }
        }
    }
    errs()
}
fn huge_build(n: &usize, st: &mut Stats) -> Res {
    let b = Big::new(*n);
    b.check("constructed")?;
    st.evals += 1;
    Ok(())
}
/// against short ones with the same beginning, with lengths that agree in their low bits, and against a changed copy
fn huge_compare(c: &(usize, usize), st: &mut Stats) -> Res {
    use std::cmp::Ordering::*;
    let (n, k) = *c;
    let big = Big::new(n);
    let mut small = Big::new(k);
    for up in [Equal, Less, Greater] {
        if up != Equal {
            if k == 0 {
                break;
            }
            small.step(H::Put(k - 1, 0), if up == Less { 3 } else { 9 })?;
        }
        let want = if up == Equal { Greater } else { up.reverse() };
        let what = |x: &str| format!("{x} ({up:?} in the last of {k})");
        for (l, r, want) in [(&big.v, &small.v, want), (&small.v, &big.v, want.reverse())] {
            eq(&what("cmp"), l.cmp(r), want)?;
            eq(&what("partial_cmp"), l.partial_cmp(r), Some(want))?;
            eq(&what("equal"), (l == r, l != r), (false, true))?;
            eq(&what("operators"), (l < r, l > r, l <= r, l >= r), (want == Less, want == Greater, want == Less, want == Greater))?;
            st.evals += 4;
        }
    }
    for i in [0, 1, M, M * M + 1, 100_000] {
        let mut other = big.clone();
        other.step(H::Put(i, 0), 9)?;
        eq("a difference: cmp", (big.v.cmp(&other.v), other.v.cmp(&big.v), big.v.partial_cmp(&other.v)), (Less, Greater, Some(Less)))?;
        eq("a difference: equal", (big.v == other.v, other.v != big.v), (false, true))?;
        st.evals += 2;
    }
    errs()
}
fn huge_parts(id: &str) -> Vec<Part> {
    if M < 64 {
        return vec![];
    }
    let b = "vectors of 2^32 and many more elements made of shared blocks, every two operations";
    for k in ["C01", "C02", "C03", "C06", "C07", "C08", "C09", "C15"] {
        if k == id {
            return vec![list("huge", b, move || huge_lens().into_iter().flat_map(|n| (0..huge_ops(k, n).len()).map(move |i| (k, n, i))).collect(), |c| format!("{} {} {}", c.0, c.1, c.2), huge_case)];
        }
    }
    match id {
        "C11" => vec![list(
            "huge",
            "runs whose borders are beyond 32 bits",
            || {
                let p = [0usize, 5, (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 70, (1 << 40) + 1];
                p.iter().flat_map(|a| p.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect()
            },
            |c| format!("{} {}", c.0, c.1),
            huge_search,
        )],
        "C14" => vec![list(
            "huge",
            "vectors of 2^32 and many more elements against short ones with the same beginning and against changed copies",
            || huge_lens().into_iter().flat_map(|n| [0, 1, 5, M, M * M + 1, n & 0xffff].into_iter().map(move |k| (n, k))).collect(),
            |c| format!("{} {}", c.0, c.1),
            huge_compare,
        )],
        "C22" => vec![list("huge", "repetitions beyond 32 bits", || { let mut l = vec![]; l.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 3, usize::MAX - (1 << 32)]); for b in 20..64 { for d in [0usize, 1, 2, 65] { l.push((1usize << b) - d); l.push((1 << b) + d); l.push((1 << b) + (1 << (b / 2)) + d) } } l }, |c| format!("{}", c), huge_build)],
        _ => vec![],
    }
}
