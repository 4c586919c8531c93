//! The operation alphabet: compact, printable and parsable.
use std::sync::RwLock;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    PF,
    PB,
    OF,
    OB,
    /// split_off(i), keep the left part / the right part
    SL(u32),
    SR(u32),
    /// slice_from_start / slice_to_end
    LS(u32),
    LE(u32),
    /// append / prepend a fresh vector of k pushes
    AF(u32),
    QF(u32),
    /// append / prepend a copy of itself
    AS,
    QS,
    /// rotate: right part of split_off(i) gets the left part appended
    RO(u32),
    IN(u32),
    RM(u32),
    /// extract_slice(i..j), keep the extracted part / the remainder
    XM(u32, u32),
    XR(u32, u32),
    /// k pushes / pops
    NB(u32),
    NF(u32),
    DB(u32),
    DF(u32),
    /// replace by constant_vec_of_length(k) / by collecting k elements
    CV(u32),
    FI(u32),
    /// append / prepend the vector built by library history n
    AP(u32),
    QP(u32),
    /// write position i through get_mut (only matters for what is shared)
    MU(u32),
    /// touch everything through a mutable focus
    FT,
    /// keep an additional copy alive from here on (everything becomes shared)
    KC,
    /// sort by the current order reversed (permutes values)
    RV,
}
use Op::*;

static LIB: RwLock<Vec<Vec<Op>>> = RwLock::new(Vec::new());
pub fn lib_add(h: Vec<Op>) -> u32 {
    let mut l = LIB.write().unwrap();
    if let Some(i) = l.iter().position(|x| *x == h) {
        return i as u32;
    }
    l.push(h);
    (l.len() - 1) as u32
}
pub fn lib_get(i: u32) -> Vec<Op> {
    LIB.read().unwrap()[i as usize].clone()
}

impl Op {
    pub fn text(&self) -> String {
        match *self {
            PF => "pf".into(),
            PB => "pb".into(),
            OF => "of".into(),
            OB => "ob".into(),
            SL(i) => format!("sl:{i}"),
            SR(i) => format!("sr:{i}"),
            LS(i) => format!("ls:{i}"),
            LE(i) => format!("le:{i}"),
            AF(k) => format!("af:{k}"),
            QF(k) => format!("qf:{k}"),
            AS => "as".into(),
            QS => "qs".into(),
            RO(i) => format!("ro:{i}"),
            IN(i) => format!("in:{i}"),
            RM(i) => format!("rm:{i}"),
            XM(i, j) => format!("xm:{i},{j}"),
            XR(i, j) => format!("xr:{i},{j}"),
            NB(k) => format!("nb:{k}"),
            NF(k) => format!("nf:{k}"),
            DB(k) => format!("db:{k}"),
            DF(k) => format!("df:{k}"),
            CV(k) => format!("cv:{k}"),
            FI(k) => format!("fi:{k}"),
            AP(n) => format!("ap:({})", hist_text(&lib_get(n))),
            QP(n) => format!("qp:({})", hist_text(&lib_get(n))),
            MU(i) => format!("mu:{i}"),
            FT => "ft".into(),
            KC => "kc".into(),
            RV => "rv".into(),
        }
    }
}

pub fn hist_text(h: &[Op]) -> String {
    h.iter().map(|o| o.text()).collect::<Vec<_>>().join(" ")
}

pub fn parse(s: &str) -> Result<Vec<Op>, String> {
    let mut out = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b' ' {
            i += 1;
            continue;
        }
        let st = i;
        let mut depth = 0;
        while i < b.len() && (b[i] != b' ' || depth > 0) {
            if b[i] == b'(' {
                depth += 1
            }
            if b[i] == b')' {
                depth -= 1
            }
            i += 1;
        }
        let w = &s[st..i];
        let (name, arg) = match w.find(':') {
            Some(p) => (&w[..p], &w[p + 1..]),
            None => (w, ""),
        };
        let n = |s: &str| s.parse::<u32>().map_err(|_| format!("bad operation {w}"));
        let two = |s: &str| -> Result<(u32, u32), String> {
            let mut p = s.split(',');
            Ok((n(p.next().unwrap_or(""))?, n(p.next().unwrap_or(""))?))
        };
        let sub = |s: &str| -> Result<u32, String> { Ok(lib_add(parse(s.strip_prefix('(').and_then(|s| s.strip_suffix(')')).ok_or("parenthesis")?)?)) };
        out.push(match name {
            "pf" => PF,
            "pb" => PB,
            "of" => OF,
            "ob" => OB,
            "sl" => SL(n(arg)?),
            "sr" => SR(n(arg)?),
            "ls" => LS(n(arg)?),
            "le" => LE(n(arg)?),
            "af" => AF(n(arg)?),
            "qf" => QF(n(arg)?),
            "as" => AS,
            "qs" => QS,
            "ro" => RO(n(arg)?),
            "in" => IN(n(arg)?),
            "rm" => RM(n(arg)?),
            "xm" => {
                let (a, b) = two(arg)?;
                XM(a, b)
            }
            "xr" => {
                let (a, b) = two(arg)?;
                XR(a, b)
            }
            "nb" => NB(n(arg)?),
            "nf" => NF(n(arg)?),
            "db" => DB(n(arg)?),
            "df" => DF(n(arg)?),
            "cv" => CV(n(arg)?),
            "fi" => FI(n(arg)?),
            "ap" => AP(sub(arg)?),
            "qp" => QP(sub(arg)?),
            "mu" => MU(n(arg)?),
            "ft" => FT,
            "kc" => KC,
            "rv" => RV,
            _ => return Err(format!("unknown operation {w}")),
        });
    }
    Ok(out)
}

pub fn has_sharing(h: &[Op]) -> bool {
    h.iter().any(|o| matches!(o, AS | QS | CV(_) | KC) || matches!(o, AP(n) | QP(n) if has_sharing(&lib_get(*n))))
}
