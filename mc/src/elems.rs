// Included in kind.rs: the same sequence semantics for elements of every size, alignment and ownership.

/// An element type and the element that stands for a number (types with few values identify numbers).
trait Elem: Clone + PartialEq + std::fmt::Debug + 'static {
    fn make(i: u32) -> Self;
}
impl Elem for () {
    fn make(_: u32) {}
}
impl Elem for bool {
    fn make(i: u32) -> bool {
        i % 3 == 0
    }
}
impl Elem for u8 {
    fn make(i: u32) -> u8 {
        i as u8
    }
}
impl Elem for u128 {
    fn make(i: u32) -> u128 {
        (i as u128) << 70 | i as u128
    }
}
impl Elem for String {
    fn make(i: u32) -> String {
        format!("element number {i}")
    }
}
impl Elem for Box<u32> {
    fn make(i: u32) -> Box<u32> {
        Box::new(i)
    }
}
impl Elem for Option<std::num::NonZeroU32> {
    fn make(i: u32) -> Self {
        std::num::NonZeroU32::new(i % 5)
    }
}
impl Elem for [u64; 13] {
    fn make(i: u32) -> Self {
        [i as u64; 13]
    }
}
/// a vector of vectors: elements that are themselves handles sharing structure
impl Elem for VecT<u32> {
    fn make(i: u32) -> Self {
        thread_local! { static BASE: std::cell::RefCell<Option<VecT<u32>>> = const { std::cell::RefCell::new(None) }; }
        BASE.with(|b| {
            let mut v = b.borrow_mut().get_or_insert_with(|| (0..20).collect()).clone();
            v.push_back(i);
            v
        })
    }
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
struct Wide(u8, u32);
impl Elem for Wide {
    fn make(i: u32) -> Self {
        Wide(i as u8, i)
    }
}
/// no size, but counted
#[derive(PartialEq, Debug)]
struct Unit;
thread_local! { static UNITS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
impl Clone for Unit {
    fn clone(&self) -> Unit {
        Unit::make(0)
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.with(|u| u.set(u.get() - 1))
    }
}
impl Elem for Unit {
    fn make(_: u32) -> Unit {
        UNITS.with(|u| u.set(u.get() + 1));
        Unit
    }
}

const ELEMS: [&str; 11] = ["()", "bool", "u8", "u128", "String", "Box", "Option<NonZero>", "[u64; 13]", "vectors", "aligned to 64", "counted, no size"];
const ELEM_OPS: u32 = 14;

fn elem_step<E: Elem>(v: &mut VecT<E>, m: &mut Vec<u32>, kept: &mut Vec<(VecT<E>, Vec<u32>)>, op: u32, next: &mut u32) -> Res {
    let n = m.len();
    let mk = |i: u32| E::make(i);
    let mut fresh = || {
        *next += 1;
        *next - 1
    };
    match op {
        0 => {
            let i = fresh();
            v.push_back(mk(i));
            m.push(i)
        }
        1 => {
            let i = fresh();
            v.push_front(mk(i));
            m.insert(0, i)
        }
        2 => eq("pop_back", v.pop_back(), m.pop().map(mk))?,
        3 => eq("pop_front", v.pop_front(), if n > 0 { Some(mk(m.remove(0))) } else { None })?,
        4 => {
            if kept.len() < 3 {
                kept.push((v.clone(), m.clone()))
            }
        }
        5 => {
            let r = v.split_off(n / 2);
            let rm = m.split_off(n / 2);
            if kept.len() < 3 {
                kept.push((r, rm))
            }
        }
        6 => {
            let c = v.clone();
            v.append(c);
            m.extend_from_within(..);
        }
        7 => {
            if n > 0 {
                eq("remove", v.remove(n / 2), Some(mk(m.remove(n / 2))))?
            }
        }
        8 => {
            let i = fresh();
            v.insert(n / 3, mk(i));
            m.insert(n / 3, i)
        }
        9 => {
            v.reverse();
            m.reverse()
        }
        10 => {
            // every element written through mutable iteration
            for (k, x) in v.iter_mut().enumerate() {
                let i = *next + k as u32;
                *x = mk(i);
                m[k] = i;
            }
            *next += n as u32;
        }
        11 => {
            if n > 1 {
                let (i, j) = (fresh(), n - 1 - n / 5);
                let mut f = v.focus_mut();
                let (mut a, mut b) = f.split_at(n / 2);
                if j < n / 2 {
                    *a.index(j) = mk(i)
                } else {
                    *b.index(j - n / 2) = mk(i)
                }
                let k = i + 1;
                *a.index(0) = mk(k);
                drop((a, b));
                drop(f);
                m[j] = i;
                m[0] = k;
                *next += 1;
            }
        }
        12 => {
            if let Some((k, km)) = kept.pop() {
                v.prepend(k);
                let mut km = km;
                km.extend_from_slice(m);
                *m = km;
            }
        }
        _ => {
            v.slice_to_end(n / 4);
            m.drain(..n / 4);
        }
    }
    Ok(())
}
fn elem_chk<E: Elem>(v: &VecT<E>, m: &[u32]) -> Res {
    eq("len", v.len(), m.len())?;
    let al = std::mem::align_of::<E>();
    let mut f = v.focus();
    let mut it = v.iter();
    for (i, x) in m.iter().enumerate() {
        let w = E::make(*x);
        let e = v.get(i).ok_or("no element")?;
        if e as *const E as usize % al != 0 {
            return Err("misaligned element".into());
        }
        if *e != w {
            return Err(format!("element {i} is {:?}, want {:?}", e, w));
        }
        eq("by focus", f.get(i) == Some(&w), true)?;
        eq("by iteration", it.next() == Some(&w), true)?;
    }
    eq("front", v.front().cloned(), m.first().map(|x| E::make(*x)))?;
    eq("back", v.back().cloned(), m.last().map(|x| E::make(*x)))?;
    eq("by reversed iteration", v.iter().rev().eq(m.iter().rev().map(|x| E::make(*x)).collect::<Vec<_>>().iter()), true)
}
fn elem_seed<E: Elem>(k: u32, how: u32) -> VecT<E> {
    match how {
        0 => (0..k).map(E::make).collect(),
        1 => {
            let mut v = VecT::new();
            for i in (0..k).rev() {
                v.push_front(E::make(i));
            }
            v
        }
        _ => {
            let mut v: VecT<E> = (0..k / 2).map(E::make).collect();
            v.append((k / 2..k).map(E::make).collect());
            v
        }
    }
}
fn elem_words<E: Elem>(k: u32, how: u32, depth: u32, st: &mut Stats) -> Res {
    let before = UNITS.with(|u| u.get());
    for w in 0..ELEM_OPS.pow(depth) {
        let mut v = elem_seed::<E>(k, how);
        let mut m: Vec<u32> = (0..k).collect();
        let (mut kept, mut next, mut x) = (vec![], k, w);
        let mut done = vec![];
        for _ in 0..depth {
            let op = x % ELEM_OPS;
            x /= ELEM_OPS;
            done.push(op);
            elem_step(&mut v, &mut m, &mut kept, op, &mut next).map_err(|e| format!("operations {:?}: {e}", done))?;
        }
        elem_chk(&v, &m).map_err(|e| format!("operations {:?}: {e}", done))?;
        for (c, cm) in &kept {
            elem_chk(c, cm).map_err(|e| format!("operations {:?}: another handle: {e}", done))?;
        }
        // consumed from both ends
        if w % 5 == 0 {
            let mut it = v.into_iter();
            let (a, b): (Vec<E>, Vec<E>) = ((0..m.len() / 2).filter_map(|_| it.next()).collect(), it.by_ref().rev().collect());
            let (wa, wb) = (m[..m.len() / 2].iter().map(|i| E::make(*i)).collect::<Vec<_>>(), m[m.len() / 2..].iter().rev().map(|i| E::make(*i)).collect::<Vec<_>>());
            eq("consumed", (a, b), (wa, wb)).map_err(|e| format!("operations {:?}: {e}", done))?;
        }
        drop(kept);
        beat();
        st.evals += 1;
        st.traces += 1;
        st.transitions += depth as u64;
    }
    eq("counted elements alive", UNITS.with(|u| u.get()), before)
}
fn elem_case(c: &(usize, u32, u32, u32), st: &mut Stats) -> Res {
    let (e, k, how, d) = *c;
    match e {
        0 => elem_words::<()>(k, how, d, st),
        1 => elem_words::<bool>(k, how, d, st),
        2 => elem_words::<u8>(k, how, d, st),
        3 => elem_words::<u128>(k, how, d, st),
        4 => elem_words::<String>(k, how, d, st),
        5 => elem_words::<Box<u32>>(k, how, d, st),
        6 => elem_words::<Option<std::num::NonZeroU32>>(k, how, d, st),
        7 => elem_words::<[u64; 13]>(k, how, d, st),
        8 => elem_words::<VecT<u32>>(k, how, d, st),
        9 => elem_words::<Wide>(k, how, d, st),
        _ => elem_words::<Unit>(k, how, d, st),
    }
}
fn elem_part(depth: u32) -> Part {
    list(
        "element types",
        "every sequence of fourteen operations up to a depth, for elements of no size, one byte, 16 bytes, 104 bytes, aligned to 64, owning memory, with a niche, and vectors themselves",
        move || {
            let m = M as u32;
            let ks = if M < 64 { vec![0, 1, m, 2 * m + 1, m * m + 1] } else { vec![0, 1, 65, 130, 200] };
            (0..ELEMS.len()).flat_map(|e| ks.iter().flat_map(move |k| (0..3).map(move |h| (e, *k, h, depth))).collect::<Vec<_>>()).collect()
        },
        |c| format!("{} seed {} kind {} depth {}", ELEMS[c.0], c.1, c.2, c.3),
        elem_case,
    )
}
