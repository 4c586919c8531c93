// Included once per pointer kind: `VecT` is librrb::Vector or librrb::ThreadSafeVector.
use crate::engine::*;
use crate::ops::{lib_get, Op, Op::*};
#[allow(unused_imports)]
use crate::ops::{has_sharing, hist_text, parse};
use crate::tok::{self, reg, Tok};
use librrb::RRB_WIDTH as M;

pub type V = VecT<Tok>;

pub struct World {
    pub v: V,
    pub m: Vec<u32>,
    pub next: u32,
    pub kept: Vec<(V, Vec<u32>)>,
    /// verify results of every step (false while merely rebuilding a state that was verified before)
    pub verify: bool,
    /// verify tree invariants of everything produced
    pub inv: bool,
}

pub fn tokn(id: u32) -> Tok {
    Tok::new(id, id)
}

pub fn ids(v: &V) -> Vec<u32> {
    (0..v.len()).map(|i| v.get(i).map(|t| t.id()).unwrap_or(u32::MAX)).collect()
}

fn short(m: &[u32]) -> String {
    if m.len() <= 40 {
        format!("{:?}", m)
    } else {
        format!("[{} elements: {:?} ... {:?}]", m.len(), &m[..8], &m[m.len() - 8..])
    }
}

fn first_diff(a: &[u32], b: &[u32]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("got {} want {} (first difference at {})", short(a), short(b), i)
}

/// Does the vector hold exactly `m`?  By position, by iteration and at the ends.
pub fn chk(what: &str, v: &V, m: &[u32]) -> Res {
    if v.len() != m.len() || v.is_empty() != m.is_empty() {
        return Err(format!("{what}: len {} is_empty {} want {}", v.len(), v.is_empty(), m.len()));
    }
    let got = ids(v);
    if got != m {
        return Err(format!("{what}: by position {}", first_diff(&got, m)));
    }
    if v.get(m.len()).is_some() {
        return Err(format!("{what}: get(len) yields an element"));
    }
    let it: Vec<u32> = v.iter().map(|t| t.id()).collect();
    if it != m {
        return Err(format!("{what}: by iteration {}", first_diff(&it, m)));
    }
    ends(what, v, m)
}

pub fn ends(what: &str, v: &V, m: &[u32]) -> Res {
    if v.len() != m.len() || v.is_empty() != m.is_empty() {
        return Err(format!("{what}: len {} is_empty {} want {}", v.len(), v.is_empty(), m.len()));
    }
    let f = v.front().map(|t| t.id());
    let b = v.back().map(|t| t.id());
    if f != m.first().copied() || b != m.last().copied() {
        return Err(format!("{what}: front {:?} back {:?} want {:?} {:?}", f, b, m.first(), m.last()));
    }
    Ok(())
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {:?} want {:?}", got, want))
    }
}

impl World {
    pub fn new() -> World {
        World { v: V::new(), m: vec![], next: 0, kept: vec![], verify: true, inv: false }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn piece(&self, what: &str, v: &V, m: &[u32]) -> Res {
        if self.verify {
            chk(what, v, m)?;
        }
        if self.inv {
            shape_ok(what, v, &[])?;
        }
        Ok(())
    }
    fn other(&mut self, h: &[Op]) -> Result<(V, Vec<u32>), String> {
        let mut w = World::new();
        w.next = self.next;
        w.verify = false;
        for o in h {
            w.step(*o)?;
        }
        self.next = w.next;
        Ok((w.v, w.m))
    }
    fn fresh_vec(&mut self, k: u32) -> (V, Vec<u32>) {
        let mut v = V::new();
        let mut m = Vec::new();
        for _ in 0..k {
            let id = self.fresh();
            v.push_back(tokn(id));
            m.push(id);
        }
        (v, m)
    }

    /// Performs one operation on the vector and on the model, comparing what it returns.
    pub fn step(&mut self, op: Op) -> Res {
        beat();
        match op {
            PF => {
                let id = self.fresh();
                self.v.push_front(tokn(id));
                self.m.insert(0, id);
            }
            PB => {
                let id = self.fresh();
                self.v.push_back(tokn(id));
                self.m.push(id);
            }
            OF => {
                let got = self.v.pop_front().map(|t| t.id());
                let want = if self.m.is_empty() { None } else { Some(self.m.remove(0)) };
                eq("pop_front", got, want)?;
            }
            OB => {
                let got = self.v.pop_back().map(|t| t.id());
                eq("pop_back", got, self.m.pop())?;
            }
            SL(i) | SR(i) => {
                let at = (i as usize).min(self.m.len());
                let r = self.v.split_off(i as usize);
                let rm = self.m.split_off(at);
                if op == SL(i) {
                    self.piece("split_off result", &r, &rm)?;
                } else {
                    let l = std::mem::replace(&mut self.v, r);
                    let lm = std::mem::replace(&mut self.m, rm);
                    self.piece("split_off remainder", &l, &lm)?;
                }
            }
            LS(i) => {
                self.v.slice_from_start(i as usize);
                self.m.truncate(i as usize);
            }
            LE(i) => {
                self.v.slice_to_end(i as usize);
                self.m.drain(..(i as usize).min(self.m.len()));
            }
            AF(k) => {
                let (o, om) = self.fresh_vec(k);
                self.v.append(o);
                self.m.extend(om);
            }
            QF(k) => {
                let (o, om) = self.fresh_vec(k);
                self.v.prepend(o);
                self.m.splice(0..0, om);
            }
            AS => {
                let c = self.v.clone();
                self.v.append(c);
                let c = self.m.clone();
                self.m.extend(c);
            }
            QS => {
                let c = self.v.clone();
                self.v.prepend(c);
                let c = self.m.clone();
                self.m.extend(c);
            }
            RO(i) => {
                let at = (i as usize).min(self.m.len());
                let mut r = self.v.split_off(i as usize);
                let mut rm = self.m.split_off(at);
                r.append(std::mem::replace(&mut self.v, V::new()));
                rm.append(&mut self.m);
                self.v = r;
                self.m = rm;
            }
            IN(i) => {
                let id = self.fresh();
                self.v.insert(i as usize, tokn(id));
                let at = (i as usize).min(self.m.len());
                self.m.insert(at, id);
            }
            RM(i) => {
                let got = self.v.remove(i as usize).map(|t| t.id());
                let want = if (i as usize) < self.m.len() { Some(self.m.remove(i as usize)) } else { None };
                eq("remove", got, want)?;
            }
            XM(i, j) | XR(i, j) => {
                let r = self.v.extract_slice(i as usize..j as usize);
                let rm: Vec<u32> = self.m.drain(i as usize..j as usize).collect();
                if op == XR(i, j) {
                    self.piece("extract_slice result", &r, &rm)?;
                } else {
                    let l = std::mem::replace(&mut self.v, r);
                    let lm = std::mem::replace(&mut self.m, rm);
                    self.piece("extract_slice remainder", &l, &lm)?;
                }
            }
            NB(k) => {
                for _ in 0..k {
                    let id = self.fresh();
                    self.v.push_back(tokn(id));
                    self.m.push(id);
                    if self.verify {
                        ends("push_back", &self.v, &self.m)?;
                    }
                }
            }
            NF(k) => {
                let mut pre = Vec::with_capacity(k as usize);
                let n = self.m.len();
                for _ in 0..k {
                    let id = self.fresh();
                    self.v.push_front(tokn(id));
                    pre.push(id);
                    if self.verify {
                        eq("len after push_front", self.v.len(), n + pre.len())?;
                        eq("front after push_front", self.v.front().map(|t| t.id()), Some(id))?;
                    }
                }
                pre.reverse();
                pre.append(&mut self.m);
                self.m = pre;
            }
            DB(k) => {
                for _ in 0..k {
                    let got = self.v.pop_back().map(|t| t.id());
                    eq("pop_back", got, self.m.pop())?;
                    if self.verify {
                        ends("pop_back", &self.v, &self.m)?;
                    }
                }
            }
            DF(k) => {
                let n = self.m.len();
                for j in 0..k as usize {
                    let got = self.v.pop_front().map(|t| t.id());
                    eq("pop_front", got, self.m.get(j).copied())?;
                    if self.verify {
                        eq("len after pop_front", self.v.len(), n.saturating_sub(j + 1))?;
                        eq("front after pop_front", self.v.front().map(|t| t.id()), self.m.get(j + 1).copied())?;
                    }
                }
                self.m.drain(..(k as usize).min(n));
            }
            CV(k) => {
                let id = self.fresh();
                self.v = V::constant_vec_of_length(tokn(id), k as usize);
                self.m = vec![id; k as usize];
            }
            FI(k) => {
                let m: Vec<u32> = (0..k).map(|_| self.fresh()).collect();
                self.v = m.iter().map(|i| tokn(*i)).collect();
                self.m = m;
            }
            AP(n) => {
                let (o, om) = self.other(&lib_get(n))?;
                self.v.append(o);
                self.m.extend(om);
            }
            QP(n) => {
                let (o, om) = self.other(&lib_get(n))?;
                self.v.prepend(o);
                self.m.splice(0..0, om);
            }
            MU(i) => {
                let id = self.fresh();
                match self.v.get_mut(i as usize) {
                    Some(t) => *t = tokn(id),
                    None if (i as usize) < self.m.len() => return Err("get_mut: None inside the vector".into()),
                    None => {}
                }
                if let Some(t) = self.m.get_mut(i as usize) {
                    *t = id
                }
            }
            FT => {
                let n = self.m.len();
                let mut f = self.v.focus_mut();
                for i in 0..n {
                    eq("focus_mut", f.get(i).map(|t| t.id()), Some(self.m[i]))?;
                }
            }
            KC => {
                self.kept.push((self.v.clone(), self.m.clone()));
            }
            RV => {
                self.v.reverse();
                self.m.reverse();
            }
        }
        Ok(())
    }

    pub fn verify_all(&self, what: &str) -> Res {
        chk(what, &self.v, &self.m)?;
        for (i, (v, m)) in self.kept.iter().enumerate() {
            chk(&format!("{what}: kept copy {i}"), v, m)?;
        }
        Ok(())
    }
}

/// Rebuilds the state a history leads to (its steps were verified when they were first taken).
pub fn build(h: &[Op]) -> Result<World, String> {
    let mut w = World::new();
    w.verify = false;
    for o in h {
        w.step(*o)?;
    }
    w.verify = true;
    Ok(w)
}

pub fn key(v: &V) -> u128 {
    use std::fmt::Write;
    let mut k = Key::new();
    let _ = write!(k, "{:?}", v);
    k.done()
}

/// Shape plus where each block's elements wrap around in their buffer, read off the element addresses.
pub fn fine_key(v: &V) -> u128 {
    let mut k = Key::new();
    use std::fmt::Write;
    let _ = write!(k, "{:?}", v);
    let mut last = 0usize;
    for i in 0..v.len() {
        if let Some(t) = v.get(i) {
            let a = t as *const Tok as usize;
            // from the last slot of a block's buffer to its first
            k.add((a.wrapping_add((M - 1) * std::mem::size_of::<Tok>()) == last) as u64);
            last = a;
        }
    }
    k.done()
}

/// Height read off the printed form (0 if it cannot be).
pub fn height_in(text: &str) -> usize {
    height_seen(text).unwrap_or(0)
}
/// nothing if the printed form does not show it
pub fn height_seen(text: &str) -> Option<usize> {
    let num = |s: &str| s.split("level: ").nth(1).and_then(|s| s.split(|c: char| !c.is_ascii_digit()).next()).and_then(|s| s.parse().ok());
    text.rfind("root: ").and_then(|i| num(&text[i..]))
}

pub fn vkey(h: &[Op], v: &V) -> Succ {
    use std::fmt::Write;
    let text = format!("{:?}", v);
    let mut k = Key::new();
    let _ = k.write_str(&text);
    let mut k = k.done();
    if h.contains(&KC) {
        k ^= 0x5555;
    }
    (k, v.len(), height_in(&text))
}

// ---------------------------------------------------------------- alphabets

pub fn alpha_end(_n: usize) -> Vec<Op> {
    vec![PB, PF, OB, OF]
}

/// every operation at every position
pub fn alpha_full(n: usize) -> Vec<Op> {
    let mut a = vec![PB, PF, OB, OF, AS, QS];
    for k in [1, M - 1, M, M + 1, 2 * M + 1] {
        a.push(AF(k as u32));
        a.push(QF(k as u32));
    }
    for i in 0..=n + 1 {
        let i = i as u32;
        a.push(SL(i));
        a.push(SR(i));
        a.push(IN(i));
        a.push(RM(i));
        a.push(RO(i));
    }
    a
}

/// a smaller alphabet that still generates the shapes of `alpha_full`
pub fn alpha_shape(n: usize) -> Vec<Op> {
    let mut a = vec![PB, PF, OB, OF, AS];
    for k in [1, M, M + 1] {
        a.push(AF(k as u32));
        a.push(QF(k as u32));
    }
    for i in 1..n {
        let i = i as u32;
        a.push(SL(i));
        a.push(SR(i));
        a.push(RM(i));
        a.push(IN(i));
    }
    a
}

/// positions worth naming in a long vector
pub fn marks(n: usize) -> Vec<usize> {
    let mut p = vec![0, 1, 2, n / 2, n / 3, n.saturating_sub(1), n.saturating_sub(2), n];
    let mut w = M;
    while w < n.saturating_mul(2) {
        for b in [w, 2 * w, w + w / 2] {
            for d in [b.wrapping_sub(1), b, b + 1] {
                if d <= n {
                    p.push(d);
                    p.push(n - d);
                }
            }
        }
        w = w.saturating_mul(M);
    }
    p.retain(|x| *x <= n);
    p.sort();
    p.dedup();
    p
}

/// macro alphabet for the shipped width
pub fn alpha_macro(n: usize) -> Vec<Op> {
    let m = M as u32;
    let mut a = vec![PB, PF, OB, OF, AS];
    for k in [m - 1, m, m + 1, 2 * m + 1, m * (m - 2) + 1, m * m] {
        a.push(NB(k));
        a.push(NF(k));
        a.push(DB(k));
        a.push(DF(k));
        a.push(AF(k));
        a.push(QF(k));
    }
    let mm = marks(n);
    let step = (mm.len() / 12).max(1);
    for p in mm.iter().step_by(step) {
        let p = *p as u32;
        a.push(SL(p));
        a.push(SR(p));
        a.push(RO(p));
        a.push(IN(p));
        a.push(RM(p));
    }
    a
}

// ---------------------------------------------------------------- shape oracle

#[derive(Debug)]
pub enum Val {
    Num(u64),
    Node(String, Vec<(String, Val)>),
    List(Vec<Val>),
}

/// Parser of derived `Debug` output.
pub fn parse_debug(s: &str) -> Option<Val> {
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && (b[*i] == b' ' || b[*i] == b',') {
            *i += 1
        }
    }
    fn val(b: &[u8], i: &mut usize) -> Option<Val> {
        ws(b, i);
        match *b.get(*i)? {
            b'[' => {
                *i += 1;
                let mut l = vec![];
                loop {
                    ws(b, i);
                    if *b.get(*i)? == b']' {
                        *i += 1;
                        return Some(Val::List(l));
                    }
                    l.push(val(b, i)?);
                }
            }
            c if c.is_ascii_digit() => {
                let s = *i;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1
                }
                std::str::from_utf8(&b[s..*i]).ok()?.parse().ok().map(Val::Num)
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let s = *i;
                while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b[*i] == b'_') {
                    *i += 1
                }
                let name = std::str::from_utf8(&b[s..*i]).ok()?.to_string();
                let mut f = vec![];
                ws(b, i);
                match b.get(*i) {
                    Some(b'(') => {
                        *i += 1;
                        loop {
                            ws(b, i);
                            if *b.get(*i)? == b')' {
                                *i += 1;
                                break;
                            }
                            f.push((String::new(), val(b, i)?));
                        }
                    }
                    Some(b'{') => {
                        *i += 1;
                        loop {
                            ws(b, i);
                            if *b.get(*i)? == b'}' {
                                *i += 1;
                                break;
                            }
                            let s = *i;
                            while *i < b.len() && b[*i] != b':' {
                                *i += 1
                            }
                            let k = std::str::from_utf8(b.get(s..*i)?).ok()?.to_string();
                            *i += 1;
                            f.push((k, val(b, i)?));
                        }
                    }
                    _ => {}
                }
                Some(Val::Node(name, f))
            }
            _ => None,
        }
    }
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i == b.len() {
        Some(v)
    } else {
        None
    }
}

/// A node of the printed tree, recognised by its contents rather than by the names of wrapper types: a node with a
/// `buffer` list and nothing else is a block of elements; one with `sizes` and `children` is internal.
#[derive(Debug)]
pub enum Tree {
    Leaf(usize),
    Inner { level: u64, sums: Vec<u64>, kids: Vec<Tree>, kids_are_leaves: bool },
}

impl Tree {
    fn of(v: &Val) -> Option<Tree> {
        match v {
            Val::Node(name, f) => {
                let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| &x.1);
                if let (Some(sizes), Some(children)) = (get("sizes"), get("children")) {
                    let mut level = None;
                    let mut sums = None;
                    fn dig(v: &Val, level: &mut Option<u64>, sums: &mut Option<Vec<u64>>) {
                        if let Val::Node(_, f) = v {
                            for (k, x) in f {
                                match (k.as_str(), x) {
                                    ("level", Val::Num(n)) => *level = Some(*n),
                                    ("buffer", Val::List(l)) => *sums = l.iter().map(|x| if let Val::Num(n) = x { Some(*n) } else { None }).collect(),
                                    _ => dig(x, level, sums),
                                }
                            }
                        }
                    }
                    dig(sizes, &mut level, &mut sums);
                    let (kname, list) = match children {
                        Val::Node(n, f) if f.len() == 1 => match &f[0].1 {
                            Val::List(l) => (n.clone(), l),
                            _ => return None,
                        },
                        _ => return None,
                    };
                    let kids: Option<Vec<Tree>> = list.iter().map(Tree::of).collect();
                    return Some(Tree::Inner { level: level?, sums: sums?, kids: kids?, kids_are_leaves: kname == "Leaves" });
                }
                if let Some(Val::List(l)) = get("buffer") {
                    return Some(Tree::Leaf(l.len()));
                }
                if f.len() == 1 && (name == "Leaf" || name == "Internal" || f[0].0.is_empty()) {
                    return Tree::of(&f[0].1);
                }
                None
            }
            _ => None,
        }
    }
    fn slots(&self) -> usize {
        match self {
            Tree::Leaf(n) => *n,
            Tree::Inner { kids, .. } => kids.len(),
        }
    }
    /// (size) of a well-formed node at the given level; `top` nodes (spine, root) may be empty
    fn check(&self, level: u64, top: bool) -> Result<u64, String> {
        match self {
            Tree::Leaf(n) => {
                if level != 0 {
                    return Err(format!("a block of elements at level {level}"));
                }
                if *n == 0 && !top {
                    return Err("an empty block inside the tree".into());
                }
                if *n > M {
                    return Err("an overfull block".into());
                }
                Ok(*n as u64)
            }
            Tree::Inner { level: l, sums, kids, kids_are_leaves } => {
                if *l != level || level == 0 {
                    return Err(format!("a node that says level {l} at level {level}"));
                }
                if *kids_are_leaves != (level == 1) {
                    return Err(format!("wrong kind of child list at level {level}"));
                }
                if kids.is_empty() && !top {
                    return Err("an empty internal node inside the tree".into());
                }
                if kids.len() > M {
                    return Err("an overfull internal node".into());
                }
                if sums.len() != kids.len() {
                    return Err(format!("{} cached sizes for {} children", sums.len(), kids.len()));
                }
                let mut sum = 0;
                for (s, k) in sums.iter().zip(kids) {
                    sum += k.check(level - 1, false)?;
                    if sum != *s {
                        return Err(format!("cached sizes {:?} but the children hold {} up to there", sums, sum));
                    }
                }
                Ok(sum)
            }
        }
    }
}

/// The documented invariants, checked on the printed tree (independently of the crate's own assertion) and through
/// the crate's own assertion.  Returns the height if the printed form could be read.
pub fn shape_ok(what: &str, v: &V, _h: &[Op]) -> Result<Option<usize>, String> {
    #[cfg(feature = "tree")]
    if let Err(e) = guard(|| librrb::verif::assert_invariants(v)) {
        return Err(format!("{what}: the crate's invariant assertion fails: {e}"));
    }
    let text = format!("{:?}", v);
    let parsed = match parse_debug(&text) {
        Some(Val::Node(_, f)) => {
            let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| &x.1);
            let spine = |k: &str| -> Option<Vec<Tree>> {
                match get(k)? {
                    Val::List(l) => l.iter().map(Tree::of).collect(),
                    _ => None,
                }
            };
            let len = match get("len") {
                Some(Val::Num(n)) => Some(*n),
                _ => None,
            };
            match (spine("left_spine"), spine("right_spine"), get("root").and_then(Tree::of), len) {
                (Some(l), Some(r), Some(root), Some(n)) => Some((l, r, root, n)),
                _ => None,
            }
        }
        _ => None,
    };
    let (l, r, root, n) = match parsed {
        Some(p) => p,
        None => return Ok(None),
    };
    let inner = || -> Res {
        if n as usize != v.len() {
            return Err("cached length differs from len()".into());
        }
        if l.len() != r.len() {
            return Err(format!("spines of length {} and {}", l.len(), r.len()));
        }
        let mut sum = 0;
        for (side, s) in [("left", &l), ("right", &r)] {
            for (i, node) in s.iter().enumerate() {
                sum += node.check(i as u64, true).map_err(|e| format!("{side} spine {i}: {e}"))?;
                if i == 0 && node.slots() == 0 {
                    return Err(format!("{side} end block is empty"));
                }
                if i > 0 && node.slots() >= M {
                    return Err(format!("{side} spine {i} has no free slot"));
                }
            }
        }
        sum += root.check(l.len() as u64, true).map_err(|e| format!("root: {e}"))?;
        if sum != n {
            return Err(format!("cached length {n}, blocks hold {sum}"));
        }
        if !l.is_empty() {
            if root.slots() + 2 > M {
                return Err("root has fewer than two free slots".into());
            }
            if root.slots() == 0 {
                let (a, b) = (l.last().unwrap().slots(), r.last().unwrap().slots());
                let min = if l.len() == 1 { M } else { M - 2 };
                if a.abs_diff(b) > 1 || a + b < min {
                    return Err(format!("empty root over spine tops of {a} and {b} slots"));
                }
            }
        }
        Ok(())
    };
    inner().map_err(|e| format!("{what}: {e} in {text}"))?;
    Ok(Some(l.len()))
}

// ---------------------------------------------------------------- standard transition

/// Takes `op` from the state of `h`, once on a vector that owns its structure and once with a copy alive; checks
/// results, contents and the copy.
pub fn trans_std(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let k = {
        let mut w = build(h)?;
        w.step(op)?;
        w.verify_all("after the operation")?;
        vkey(h, &w.v)
    };
    {
        let mut w = build(h)?;
        let c = w.v.clone();
        let cm = w.m.clone();
        w.step(op)?;
        w.verify_all("after the operation with a copy alive")?;
        chk("the copy", &c, &cm)?;
        if vkey(h, &w.v).0 != k.0 {
            st.count("results whose shape depends on sharing", 1);
        }
    }
    st.evals += 2;
    st.traces += 2;
    Ok(k)
}

/// Transition that only moves to the next state (for checks whose subject is what can be observed there).
pub fn trans_move(h: &[Op], op: Op, st: &mut Stats) -> Result<Succ, String> {
    let mut w = build(h)?;
    w.step(op)?;
    st.traces += 1;
    Ok(vkey(h, &w.v))
}

pub fn root_std(h: &[Op], st: &mut Stats) -> Result<Succ, String> {
    let w = build(h)?;
    w.verify_all("seed")?;
    st.traces += 1;
    Ok(vkey(h, &w.v))
}

pub fn visit_none(_h: &[Op], _st: &mut Stats) -> Res {
    Ok(())
}
include!("props.rs");
include!("elems.rs");
