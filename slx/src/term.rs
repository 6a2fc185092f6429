//! Hash-consed bit-vector terms with an aggressive simplifier.
use crate::bv::{mask64, Bv};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Bit {
    pub t: T,
    pub i: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(Bv),
    Sym(u32),
    Ext(T, u32),
    Cat(Rc<[T]>),
    Tab(Rc<[Bit]>, Rc<[u64]>),
    Lin(u64, Rc<[(Bit, u64)]>),
    Bin(Op, T, T),
    Ite(T, T, T),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    /// free input bits
    User,
    /// generic-position value in (0, n): scalar or hash output
    Gen,
    /// generic-position value, no range claimed
    GenW,
    /// parity bit of a point
    Odd,
    /// hash-map key material: everything computed from it is "tainted"
    Sip,
}

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    pub w: u32,
    pub class: Class,
    pub t: T,
}

#[derive(Clone)]
pub struct Node {
    pub w: u32,
    pub k: K,
    pub supp: Option<Rc<[Bit]>>,
    pub taint: bool,
}

pub struct Store {
    pub n: Vec<Node>,
    map: HashMap<(u32, K), T>,
    pub syms: Vec<SymInfo>,
    leaves: HashMap<T, Rc<[T]>>,
}

static mut STORE: Option<Box<Store>> = None;

#[allow(static_mut_refs)]
pub fn ts() -> &'static mut Store {
    unsafe {
        if STORE.is_none() {
            STORE = Some(Box::new(Store { n: vec![], map: HashMap::new(), syms: vec![], leaves: HashMap::new() }));
        }
        STORE.as_mut().unwrap()
    }
}

pub fn node(t: T) -> &'static Node {
    // nodes are never removed; the vector may move, so clone-free access is confined to short uses
    &ts().n[t as usize]
}
pub fn w(t: T) -> u32 {
    ts().n[t as usize].w
}
pub fn kind(t: T) -> K {
    ts().n[t as usize].k.clone()
}
pub fn taint(t: T) -> bool {
    ts().n[t as usize].taint
}
fn supp(t: T) -> Option<Rc<[Bit]>> {
    ts().n[t as usize].supp.clone()
}
pub fn as_const(t: T) -> Option<&'static Bv> {
    match &ts().n[t as usize].k {
        K::Const(b) => Some(unsafe { &*(b as *const Bv) }),
        _ => None,
    }
}
pub fn is_true(t: T) -> bool {
    as_const(t).map_or(false, |b| !b.is_zero())
}
pub fn is_false(t: T) -> bool {
    as_const(t).map_or(false, |b| b.is_zero())
}

fn union(a: &[Bit], b: &[Bit]) -> Option<Vec<Bit>> {
    let mut r = Vec::with_capacity(8);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if r.len() > 8 {
            return None;
        }
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if r.len() > 8 {
        None
    } else {
        Some(r)
    }
}

fn self_bits(t: T, w: u32) -> Rc<[Bit]> {
    (0..w as u16).map(|i| Bit { t, i }).collect()
}

fn intern(w: u32, k: K) -> T {
    let s = ts();
    if let Some(t) = s.map.get(&(w, k.clone())) {
        return *t;
    }
    let t = s.n.len() as T;
    let tn = |x: T| s.n[x as usize].taint;
    let taint = match &k {
        K::Const(_) => false,
        K::Sym(i) => s.syms[*i as usize].class == Class::Sip,
        K::Ext(a, _) => tn(*a),
        K::Cat(v) => v.iter().any(|x| tn(*x)),
        K::Tab(b, _) => b.iter().any(|x| tn(x.t)),
        K::Lin(_, c) => c.iter().any(|x| tn(x.0.t)),
        K::Bin(_, a, b) => tn(*a) || tn(*b),
        K::Ite(a, b, c) => tn(*a) || tn(*b) || tn(*c),
    };
    let supp: Option<Rc<[Bit]>> = match &k {
        K::Const(_) => {
            if w <= 64 {
                Some(Rc::new([]))
            } else {
                None
            }
        }
        K::Ext(b, lo) if w <= 8 => Some((0..w as u16).map(|i| Bit { t: *b, i: *lo as u16 + i }).collect()),
        K::Cat(v) => {
            if w > 64 {
                None
            } else {
                let mut acc: Option<Vec<Bit>> = Some(vec![]);
                for x in v.iter() {
                    acc = match (acc, &s.n[*x as usize].supp) {
                        (Some(a), Some(b)) => union(&a, b),
                        _ => None,
                    };
                }
                acc.map(|v| v.into())
            }
        }
        K::Tab(b, _) => Some(b.clone()),
        K::Lin(_, c) if c.len() <= 8 => Some(c.iter().map(|x| x.0).collect()),
        _ if w <= 8 => Some(self_bits(t, w)),
        _ => None,
    };
    s.n.push(Node { w, k: k.clone(), supp, taint });
    s.map.insert((w, k), t);
    t
}

pub fn sym(name: &str, w: u32, class: Class) -> T {
    let s = ts();
    let id = s.syms.len() as u32;
    s.syms.push(SymInfo { name: name.to_string(), w, class, t: 0 });
    let t = intern(w, K::Sym(id));
    ts().syms[id as usize].t = t;
    t
}
pub fn cst(b: Bv) -> T {
    intern(b.w, K::Const(b))
}
pub fn c64(w: u32, v: u64) -> T {
    cst(Bv::new(w, v & mask64(w)))
}
pub fn tt() -> T {
    c64(1, 1)
}
pub fn ff() -> T {
    c64(1, 0)
}

fn raw_ext(t: T, lo: u32, n: u32) -> T {
    if lo == 0 && n == w(t) {
        t
    } else {
        intern(n, K::Ext(t, lo))
    }
}

fn raw_cat(p: Vec<T>) -> T {
    if p.len() == 1 {
        return p[0];
    }
    let tw = p.iter().map(|x| w(*x)).sum();
    intern(tw, K::Cat(p.into()))
}

/// value of a small-support term under an assignment of its bits
fn sev(t: T, bits: &[Bit], idx: usize) -> u64 {
    let get = |b: &Bit| -> u64 {
        let p = bits.binary_search(b).expect("bit in support");
        ((idx >> p) & 1) as u64
    };
    let n = node(t);
    match &n.k {
        K::Const(b) => b.lo(),
        K::Ext(b, lo) => {
            let mut r = 0;
            for i in 0..n.w {
                r |= get(&Bit { t: *b, i: (*lo + i) as u16 }) << i;
            }
            r
        }
        K::Cat(v) => {
            let mut r = 0u64;
            for x in v.iter() {
                let ww = w(*x);
                r = if ww >= 64 { 0 } else { r << ww } | sev(*x, bits, idx);
            }
            r
        }
        K::Tab(b, tab) => {
            let mut j = 0usize;
            for (k, x) in b.iter().enumerate() {
                j |= (get(x) as usize) << k;
            }
            tab[j]
        }
        K::Lin(c, cols) if cols.len() <= 8 => {
            let mut r = *c;
            for (b, m) in cols.iter() {
                if get(b) == 1 {
                    r ^= m;
                }
            }
            r
        }
        _ => {
            let mut r = 0;
            for i in 0..n.w {
                r |= get(&Bit { t, i: i as u16 }) << i;
            }
            r
        }
    }
}

/// Build the term computing f over small-support arguments, if their joint support is small.
fn tabulate(args: &[T], rw: u32, f: impl Fn(&[u64]) -> u64) -> Option<T> {
    if rw > 64 {
        return None;
    }
    let mut bits: Vec<Bit> = vec![];
    for a in args {
        let s = supp(*a)?;
        bits = union(&bits, &s)?;
    }
    let mut tab = Vec::with_capacity(1 << bits.len());
    let mut vals = vec![0u64; args.len()];
    for idx in 0..(1usize << bits.len()) {
        for (i, a) in args.iter().enumerate() {
            vals[i] = sev(*a, &bits, idx);
        }
        tab.push(f(&vals) & mask64(rw));
    }
    Some(mk_tab(rw, bits, tab))
}

fn mk_tab(rw: u32, mut bits: Vec<Bit>, mut tab: Vec<u64>) -> T {
    // drop don't-care bits
    let mut k = 0;
    while k < bits.len() {
        let dc = (0..tab.len()).all(|i| tab[i] == tab[i ^ (1 << k)]);
        if dc {
            let nt: Vec<u64> = (0..tab.len() / 2)
                .map(|i| {
                    let lo = i & ((1 << k) - 1);
                    let hi = i >> k;
                    tab[(hi << (k + 1)) | lo]
                })
                .collect();
            tab = nt;
            bits.remove(k);
        } else {
            k += 1;
        }
    }
    if bits.is_empty() {
        return c64(rw, tab[0]);
    }
    // projection?
    #[derive(Clone, Copy, PartialEq)]
    enum P {
        C(u64),
        B(Bit),
    }
    let mut proj: Vec<P> = vec![];
    for j in 0..rw {
        let col = |i: usize| (tab[i] >> j) & 1;
        let c0 = col(0);
        if (0..tab.len()).all(|i| col(i) == c0) {
            proj.push(P::C(c0));
            continue;
        }
        let mut found = None;
        for (k, b) in bits.iter().enumerate() {
            if (0..tab.len()).all(|i| col(i) == ((i >> k) & 1) as u64) {
                found = Some(*b);
                break;
            }
        }
        match found {
            Some(b) => proj.push(P::B(b)),
            None => {
                return intern(rw, K::Tab(bits.into(), tab.into()));
            }
        }
    }
    // build pieces from MSB
    let mut parts: Vec<T> = vec![];
    let mut j = rw as i64 - 1;
    while j >= 0 {
        match proj[j as usize] {
            P::C(_) => {
                let mut v = 0u64;
                let hi = j;
                while j >= 0 {
                    if let P::C(c) = proj[j as usize] {
                        v = (v << 1) | c;
                        j -= 1;
                    } else {
                        break;
                    }
                }
                parts.push(c64((hi - j) as u32, v));
            }
            P::B(b) => {
                let hi = j;
                let mut last = b;
                j -= 1;
                while j >= 0 {
                    if let P::B(n) = proj[j as usize] {
                        if n.t == last.t && last.i > 0 && n.i == last.i - 1 {
                            last = n;
                            j -= 1;
                            continue;
                        }
                    }
                    break;
                }
                parts.push(raw_ext(b.t, last.i as u32, (hi - j) as u32));
            }
        }
    }
    raw_cat(parts)
}

fn mk_lin(rw: u32, c: u64, cols: BTreeMap<Bit, u64>) -> T {
    let m = mask64(rw);
    let c = c & m;
    let cols: Vec<(Bit, u64)> = cols.into_iter().map(|(b, x)| (b, x & m)).filter(|x| x.1 != 0).collect();
    if cols.is_empty() {
        return c64(rw, c);
    }
    let all = cols.iter().fold(0u64, |a, x| a | x.1);
    // strip constant rows at top/bottom
    let top = 64 - all.leading_zeros();
    let bot = all.trailing_zeros();
    if top < rw || bot > 0 {
        let mut parts = vec![];
        if top < rw {
            parts.push(c64(rw - top, c >> top));
        }
        let mid = mk_lin(top - bot, c >> bot, cols.into_iter().map(|(b, x)| (b, x >> bot)).collect());
        parts.push(mid);
        if bot > 0 {
            parts.push(c64(bot, c & mask64(bot)));
        }
        return mk_concat(&parts);
    }
    if cols.len() <= 8 {
        let bits: Vec<Bit> = cols.iter().map(|x| x.0).collect();
        let tab = (0..1usize << bits.len())
            .map(|i| cols.iter().enumerate().fold(c, |a, (k, x)| if (i >> k) & 1 == 1 { a ^ x.1 } else { a }))
            .collect();
        return mk_tab(rw, bits, tab);
    }
    // projection: every row exactly one column, no constants
    if c == 0 && cols.iter().all(|x| x.1.is_power_of_two()) && cols.len() as u32 == rw {
        let mut rows = vec![None; rw as usize];
        for (b, x) in &cols {
            rows[x.trailing_zeros() as usize] = Some(*b);
        }
        if rows.iter().all(|r| r.is_some()) {
            let parts: Vec<T> = rows.iter().rev().map(|b| raw_ext(b.unwrap().t, b.unwrap().i as u32, 1)).collect();
            return mk_concat(&parts);
        }
    }
    intern(rw, K::Lin(c, cols.into()))
}

fn to_lin(t: T) -> Option<(u64, BTreeMap<Bit, u64>)> {
    let n = node(t);
    if n.w > 64 || n.taint {
        return None;
    }
    let ww = n.w;
    match n.k.clone() {
        K::Const(b) => Some((b.lo(), BTreeMap::new())),
        K::Lin(c, cols) => Some((c, cols.iter().cloned().collect())),
        K::Sym(_) => Some((0, (0..ww).map(|i| (Bit { t, i: i as u16 }, 1u64 << i)).collect())),
        K::Ext(b, lo) => Some((0, (0..ww).map(|i| (Bit { t: b, i: (lo + i) as u16 }, 1u64 << i)).collect())),
        K::Cat(v) => {
            let mut c = 0;
            let mut cols: BTreeMap<Bit, u64> = BTreeMap::new();
            let mut sh = 0;
            for x in v.iter().rev() {
                let (pc, pcols) = to_lin(*x)?;
                c |= pc << sh;
                for (b, m) in pcols {
                    *cols.entry(b).or_insert(0) ^= m << sh;
                }
                sh += w(*x);
            }
            Some((c, cols))
        }
        K::Tab(bits, tab) => {
            let c = tab[0];
            let cols: Vec<u64> = (0..bits.len()).map(|k| tab[1 << k] ^ c).collect();
            for i in 0..tab.len() {
                let mut r = c;
                for (k, m) in cols.iter().enumerate() {
                    if (i >> k) & 1 == 1 {
                        r ^= m;
                    }
                }
                if r != tab[i] {
                    if ww <= 8 {
                        // opaque leaf
                        return Some((0, (0..ww).map(|i| (Bit { t, i: i as u16 }, 1u64 << i)).collect()));
                    }
                    return None;
                }
            }
            Some((c, bits.iter().cloned().zip(cols).filter(|x| x.1 != 0).collect()))
        }
        _ if ww <= 8 => Some((0, (0..ww).map(|i| (Bit { t, i: i as u16 }, 1u64 << i)).collect())),
        _ => None,
    }
}

/// expand bits of other affine nodes, so that cancellations become visible
fn flatten_lin(rw: u32, c: u64, cols: &[(Bit, u64)]) -> Option<T> {
    let is_lin = |b: &Bit| matches!(node(b.t).k, K::Lin(..));
    if !cols.iter().any(|x| is_lin(&x.0)) {
        return None;
    }
    let mut c = c;
    let mut todo: BTreeMap<Bit, u64> = cols.iter().cloned().collect();
    let mut done: BTreeMap<Bit, u64> = BTreeMap::new();
    // children have smaller ids than their parents
    while let Some((b, m)) = todo.pop_last() {
        if m == 0 {
            continue;
        }
        if let K::Lin(lc, lcols) = kind(b.t) {
            if (lc >> b.i) & 1 == 1 {
                c ^= m;
            }
            for (lb, lm) in lcols.iter() {
                if (lm >> b.i) & 1 == 1 {
                    *todo.entry(*lb).or_insert(0) ^= m;
                }
            }
            if todo.len() > 6000 {
                return None;
            }
        } else {
            done.insert(b, m);
        }
    }
    Some(mk_lin(rw, c, done))
}

fn has_lin(t: T) -> bool {
    match &node(t).k {
        K::Lin(..) => true,
        K::Cat(v) => v.iter().any(|x| matches!(node(*x).k, K::Lin(..))),
        _ => false,
    }
}

pub fn mk_concat(parts: &[T]) -> T {
    let mut out: Vec<T> = vec![];
    let mut push = |x: T, out: &mut Vec<T>| {
        if let Some(&last) = out.last() {
            match (kind(last), kind(x)) {
                (K::Const(a), K::Const(b)) => {
                    out.pop();
                    out.push(cst(Bv::concat(&a, &b)));
                    return;
                }
                (K::Ext(a, la), K::Ext(b, lb)) if a == b && la == lb + w(x) => {
                    out.pop();
                    out.push(raw_ext(a, lb, w(last) + w(x)));
                    return;
                }
                _ => {}
            }
        }
        out.push(x);
    };
    for p in parts {
        if w(*p) == 0 {
            continue;
        }
        match kind(*p) {
            K::Cat(v) => {
                for x in v.iter() {
                    push(*x, &mut out);
                }
            }
            _ => push(*p, &mut out),
        }
    }
    if out.len() == 1 {
        return out[0];
    }
    let tw: u32 = out.iter().map(|x| w(*x)).sum();
    if tw <= 64 && out.iter().any(|x| matches!(node(*x).k, K::Tab(..))) {
        let ws: Vec<u32> = out.iter().map(|x| w(*x)).collect();
        if let Some(t) = tabulate(&out, tw, |v| {
            let mut r = 0u64;
            for (x, ww) in v.iter().zip(&ws) {
                r = if *ww >= 64 { 0 } else { r << ww } | x;
            }
            r
        }) {
            return t;
        }
    }
    raw_cat(out)
}

pub fn mk_zext(t: T, nw: u32) -> T {
    let ww = w(t);
    if nw == ww {
        t
    } else {
        mk_concat(&[cst(Bv::zero(nw - ww)), t])
    }
}
pub fn mk_sext(t: T, nw: u32) -> T {
    let ww = w(t);
    if nw == ww {
        return t;
    }
    if let Some(b) = as_const(t) {
        return cst(b.sext(nw));
    }
    let s = mk_extract(t, ww - 1, 1);
    if is_false(s) {
        return mk_zext(t, nw);
    }
    if let Some(r) = tabulate(&[t], nw, |v| Bv::new(ww, v[0]).sext(nw.min(64)).lo()) {
        return r;
    }
    let hi = mk_ite(s, cst(Bv::ones(nw - ww)), cst(Bv::zero(nw - ww)));
    mk_concat(&[hi, t])
}

pub fn mk_extract(t: T, lo: u32, n: u32) -> T {
    let tw = w(t);
    assert!(lo + n <= tw && n > 0, "extract {lo}+{n} of {tw}");
    if lo == 0 && n == tw {
        return t;
    }
    match kind(t) {
        K::Const(b) => cst(b.extract(lo, n)),
        K::Ext(b, l0) => raw_ext(b, l0 + lo, n),
        K::Cat(v) => {
            let mut parts = vec![];
            let mut pos = tw;
            for x in v.iter() {
                let ww = w(*x);
                pos -= ww; // piece occupies [pos, pos+ww)
                let a = lo.max(pos);
                let b = (lo + n).min(pos + ww);
                if a < b {
                    parts.push(mk_extract(*x, a - pos, b - a));
                }
            }
            mk_concat(&parts)
        }
        K::Tab(..) => tabulate(&[t], n, |v| v[0] >> lo).unwrap(),
        K::Lin(c, cols) => mk_lin(n, c >> lo, cols.iter().map(|x| (x.0, x.1 >> lo)).collect()),
        K::Ite(c, a, b) if tw > 8 => mk_ite(c, mk_extract(a, lo, n), mk_extract(b, lo, n)),
        K::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) if tw > 8 => mk_bin(op, mk_extract(a, lo, n), mk_extract(b, lo, n)),
        K::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if tw > 8 && lo == 0 => {
            mk_bin(op, mk_extract(a, 0, n), mk_extract(b, 0, n))
        }
        _ => {
            if let Some(r) = tabulate(&[t], n, |v| v[0] >> lo) {
                return r;
            }
            raw_ext(t, lo, n)
        }
    }
}

fn pieces(t: T) -> Vec<T> {
    match kind(t) {
        K::Cat(v) => v.to_vec(),
        _ => vec![t],
    }
}

/// split a constant into runs of equal bits (msb first), as long as there are few
fn const_runs(t: T) -> Vec<T> {
    if let K::Const(b) = kind(t) {
        let mut out = vec![];
        let mut hi = b.w;
        while hi > 0 {
            let v = b.bit(hi - 1);
            let mut lo = hi - 1;
            while lo > 0 && b.bit(lo - 1) == v {
                lo -= 1;
            }
            out.push(cst(b.extract(lo, hi - lo)));
            hi = lo;
        }
        if out.len() > 24 {
            return vec![t];
        }
        out
    } else {
        vec![t]
    }
}

/// common refinement of two piece lists
fn align(a: Vec<T>, b: Vec<T>) -> Vec<(T, T)> {
    let mut out = vec![];
    let (mut i, mut j) = (0, 0);
    let (mut ra, mut rb) = (a[0], b[0]);
    loop {
        let (wa, wb) = (w(ra), w(rb));
        let m = wa.min(wb);
        out.push((mk_extract(ra, wa - m, m), mk_extract(rb, wb - m, m)));
        if wa > m {
            ra = mk_extract(ra, 0, wa - m);
        } else {
            i += 1;
            if i < a.len() {
                ra = a[i];
            }
        }
        if wb > m {
            rb = mk_extract(rb, 0, wb - m);
        } else {
            j += 1;
            if j < b.len() {
                rb = b[j];
            }
        }
        if i >= a.len() && j >= b.len() {
            return out;
        }
    }
}

fn fold(op: Op, a: &Bv, b: &Bv) -> Bv {
    let sh = |b: &Bv| if b.fits64() && b.lo() < a.w as u64 { b.lo() as u32 } else { a.w };
    match op {
        Op::Add => a.add(b),
        Op::Sub => a.sub(b),
        Op::Mul => a.mul(b),
        Op::UDiv => a.udivrem(b).0,
        Op::URem => a.udivrem(b).1,
        Op::SDiv => a.sdivrem(b).0,
        Op::SRem => a.sdivrem(b).1,
        Op::Shl => a.shl(sh(b)),
        Op::LShr => a.lshr(sh(b)),
        Op::AShr => a.ashr(sh(b)),
        Op::And => a.and(b),
        Op::Or => a.or(b),
        Op::Xor => a.xor(b),
        Op::Eq => Bv::new(1, (a == b) as u64),
        Op::Ult => Bv::new(1, a.ult(b) as u64),
        Op::Slt => Bv::new(1, a.slt(b) as u64),
    }
}

pub fn fold64(op: Op, w: u32, a: u64, b: u64) -> u64 {
    let m = mask64(w);
    let sx = |x: u64| ((x << (64 - w)) as i64) >> (64 - w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                m
            } else {
                sx(a).wrapping_div(sx(b)) as u64
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sx(a).wrapping_rem(sx(b)) as u64
            }
        }
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => (sx(a) >> b.min(w as u64 - 1).min(63)) as u64,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => return (a == b) as u64,
        Op::Ult => return (a < b) as u64,
        Op::Slt => return (sx(a) < sx(b)) as u64,
    };
    r & m
}

pub fn mk_not(t: T) -> T {
    mk_bin(Op::Xor, t, cst(Bv::ones(w(t))))
}
pub fn mk_and(a: T, b: T) -> T {
    mk_bin(Op::And, a, b)
}
pub fn mk_or(a: T, b: T) -> T {
    mk_bin(Op::Or, a, b)
}
pub fn mk_eq(a: T, b: T) -> T {
    mk_bin(Op::Eq, a, b)
}
/// no general-position folding (used for lemmas about real values only)
pub fn mk_eq_raw(a: T, b: T) -> T {
    intern(1, K::Bin(Op::Eq, a, b))
}
pub fn mk_ult(a: T, b: T) -> T {
    mk_bin(Op::Ult, a, b)
}

/// fixed pseudo-random rank of a value in general position (see DESIGN: order of unrelated values)
pub fn shadow(t: T, lo: u32) -> u64 {
    let id = match kind(t) {
        K::Sym(i) => i as u64,
        K::Const(b) => b.lo() ^ 0x5555,
        _ => t as u64,
    };
    let mut z = (id << 12 ^ lo as u64).wrapping_add(unsafe { SEED }).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// a slice of at least 64 bits of a generic-position symbol
fn generic_slice(t: T) -> Option<(T, u32)> {
    if w(t) < 64 {
        return None;
    }
    let (base, lo) = match kind(t) {
        K::Sym(_) => (t, 0),
        K::Ext(b, lo) => (b, lo),
        _ => return None,
    };
    if let K::Sym(i) = kind(base) {
        match ts().syms[i as usize].class {
            Class::Gen | Class::GenW => return Some((base, lo)),
            _ => {}
        }
    }
    None
}

pub const N_BE: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6,
    0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];

/// unsigned bounds from known leading constant bits
fn bounds(t: T) -> (Bv, Bv) {
    let ww = w(t);
    match kind(t) {
        K::Const(b) => (b.clone(), b),
        K::Cat(v) => {
            let mut lo = Bv::zero(0);
            let mut hi = Bv::zero(0);
            let mut first = true;
            for x in v.iter() {
                let (a, b) = match kind(*x) {
                    K::Const(c) => (c.clone(), c),
                    K::Tab(_, tab) => (
                        Bv::new(w(*x), *tab.iter().min().unwrap()),
                        Bv::new(w(*x), *tab.iter().max().unwrap()),
                    ),
                    _ => (Bv::zero(w(*x)), Bv::ones(w(*x))),
                };
                if first {
                    lo = a;
                    hi = b;
                    first = false;
                } else {
                    lo = Bv::concat(&lo, &a);
                    hi = Bv::concat(&hi, &b);
                }
            }
            (lo, hi)
        }
        K::Tab(_, tab) => (Bv::new(ww, *tab.iter().min().unwrap()), Bv::new(ww, *tab.iter().max().unwrap())),
        K::Ite(_, a, b) => {
            let (l1, h1) = bounds(a);
            let (l2, h2) = bounds(b);
            (if l1.ult(&l2) { l1 } else { l2 }, if h1.ult(&h2) { h2 } else { h1 })
        }
        K::Bin(Op::URem, _, c) => {
            if let Some(b) = as_const(c) {
                if !b.is_zero() {
                    return (Bv::zero(ww), b.sub(&Bv::new(ww, 1)));
                }
            }
            (Bv::zero(ww), Bv::ones(ww))
        }
        K::Bin(Op::UDiv, a, c) => {
            let (_, h) = bounds(a);
            if let Some(b) = as_const(c) {
                if !b.is_zero() {
                    return (Bv::zero(ww), h.udivrem(b).0);
                }
            }
            (Bv::zero(ww), Bv::ones(ww))
        }
        K::Bin(Op::And, a, b) => {
            let (_, h1) = bounds(a);
            let (_, h2) = bounds(b);
            (Bv::zero(ww), if h1.ult(&h2) { h1 } else { h2 })
        }
        K::Bin(Op::Add, a, b) => {
            let (l1, h1) = bounds(a);
            let (l2, h2) = bounds(b);
            let h = h1.zext(ww + 1).add(&h2.zext(ww + 1));
            if !h.bit(ww) {
                (l1.add(&l2), h.extract(0, ww))
            } else {
                (Bv::zero(ww), Bv::ones(ww))
            }
        }
        K::Sym(i) if ts().syms[i as usize].class == Class::Gen && ww == 256 => {
            (Bv::new(256, 1), Bv::from_be(&N_BE).sub(&Bv::new(256, 2)))
        }
        _ => (Bv::zero(ww), Bv::ones(ww)),
    }
}

pub fn mk_bin(op: Op, a: T, b: T) -> T {
    let ww = w(a);
    debug_assert_eq!(ww, w(b), "{op:?}");
    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { ww };
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(fold(op, x, y));
    }
    // canonical order: constants to the right for commutative operators
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    let (a, b) = if comm && (as_const(a).is_some() || (as_const(b).is_none() && a > b)) { (b, a) } else { (a, b) };
    let bc = as_const(b);
    if a == b {
        match op {
            Op::Sub | Op::Xor => return cst(Bv::zero(ww)),
            Op::And | Op::Or => return a,
            Op::Eq => return tt(),
            Op::Ult | Op::Slt => return ff(),
            _ => {}
        }
    }
    if let Some(c) = bc {
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c.is_zero() => return a,
            Op::And | Op::Mul if c.is_zero() => return b,
            Op::And if c.is_ones() => return a,
            Op::Or if c.is_ones() => return b,
            Op::Mul | Op::UDiv if c.fits64() && c.lo() == 1 => return a,
            Op::URem if c.fits64() && c.lo() == 1 => return cst(Bv::zero(ww)),
            Op::Ult if c.is_zero() => return ff(),
            _ => {}
        }
    }
    if let Some(t) = tabulate(&[a, b], rw, |v| fold64(op, ww, v[0], v[1])) {
        return t;
    }
    match op {
        Op::Shl | Op::LShr | Op::AShr => {
            if let Some(c) = bc {
                let n = if c.fits64() && c.lo() < ww as u64 { c.lo() as u32 } else { ww };
                return match op {
                    Op::Shl if n >= ww => cst(Bv::zero(ww)),
                    Op::Shl => mk_concat(&[mk_extract(a, 0, ww - n), cst(Bv::zero(n))]),
                    Op::LShr if n >= ww => cst(Bv::zero(ww)),
                    Op::LShr => mk_concat(&[cst(Bv::zero(n)), mk_extract(a, n, ww - n)]),
                    _ => {
                        let n = n.min(ww - 1);
                        mk_sext(mk_extract(a, n, ww - n), ww)
                    }
                };
            }
            // shift amount with few values: expand
            if let Some(s) = supp(b) {
                if s.len() <= 3 && !taint(b) {
                    let mut r = a;
                    let mut first = true;
                    for v in small_values(b) {
                        let x = mk_bin(op, a, c64(ww, v));
                        if first {
                            r = x;
                            first = false;
                        } else {
                            r = mk_ite(mk_eq(b, c64(ww, v)), x, r);
                        }
                    }
                    return r;
                }
            }
        }
        Op::And | Op::Or | Op::Xor => {
            if op == Op::Xor && ww <= 64 && (has_lin(a) || has_lin(b)) {
                if let (Some((c1, mut l1)), Some((c2, l2))) = (to_lin(a), to_lin(b)) {
                    for (k, v) in l2 {
                        *l1.entry(k).or_insert(0) ^= v;
                    }
                    return mk_lin(ww, c1 ^ c2, l1);
                }
            }
            let pa = pieces(a);
            let pb: Vec<T> = if op == Op::Xor { pieces(b) } else { pieces(b).into_iter().flat_map(const_runs).collect() };
            let pa: Vec<T> = if op == Op::Xor { pa } else { pa.into_iter().flat_map(const_runs).collect() };
            if pa.len() > 1 || pb.len() > 1 {
                let segs = align(pa, pb);
                let parts: Vec<T> = segs.into_iter().map(|(x, y)| bitop_seg(op, x, y)).collect();
                return mk_concat(&parts);
            }
            return bitop_seg(op, a, b);
        }
        Op::Add => {
            if let Some(c) = bc {
                if let K::Bin(Op::Add, x, y) = kind(a) {
                    if let Some(c2) = as_const(y) {
                        return mk_bin(Op::Add, x, cst(c.add(c2)));
                    }
                }
                // x + c where low bits of x are constant zero and c only touches them
                if let K::Cat(v) = kind(a) {
                    let last = *v.last().unwrap();
                    if let Some(lc) = as_const(last) {
                        let lw = w(last);
                        let chi = c.lshr(lw);
                        let lo = lc.zext(lw + 1).add(&c.extract(0, lw).zext(lw + 1));
                        if chi.is_zero() && !lo.bit(lw) {
                            let mut p = v.to_vec();
                            *p.last_mut().unwrap() = cst(lo.extract(0, lw));
                            return mk_concat(&p);
                        }
                    }
                }
            }
            if let K::Ite(c, x, y) = kind(a) {
                if bc.is_some() && as_const(x).is_some() && as_const(y).is_some() {
                    return mk_ite(c, mk_bin(op, x, b), mk_bin(op, y, b));
                }
            }
        }
        Op::Sub => {
            if let Some(c) = bc {
                return mk_bin(Op::Add, a, cst(c.neg()));
            }
        }
        Op::Mul => {
            if let Some(c) = bc {
                if c.fits64() && c.lo().is_power_of_two() {
                    return mk_bin(Op::Shl, a, c64(ww, c.lo().trailing_zeros() as u64));
                }
            }
        }
        Op::UDiv | Op::URem => {
            if let Some(c) = bc {
                if c.fits64() && c.lo().is_power_of_two() {
                    let n = c.lo().trailing_zeros();
                    return if op == Op::UDiv {
                        mk_bin(Op::LShr, a, c64(ww, n as u64))
                    } else {
                        mk_zext(mk_extract(a, 0, n), ww)
                    };
                }
                // narrow
                let (_, h) = bounds(a);
                if h.ult(c) {
                    return if op == Op::UDiv { cst(Bv::zero(ww)) } else { a };
                }
            }
        }
        Op::Eq => return mk_eq_(a, b),
        Op::Ult => {
            let (la, ha) = bounds(a);
            let (lb, hb) = bounds(b);
            if ha.ult(&lb) {
                return tt();
            }
            if !la.ult(&hb) {
                return ff();
            }
            if la.is_zero() && as_const(b).map_or(false, |c| c.fits64() && c.lo() == 1) {
                return mk_eq(a, cst(Bv::zero(ww)));
            }
            // strip equal leading pieces
            let (pa, pb) = (pieces(a), pieces(b));
            if pa.len() > 1 || pb.len() > 1 {
                let segs = align(pa.clone(), pb.clone());
                let mut k = 0;
                while k < segs.len() && segs[k].0 == segs[k].1 {
                    k += 1;
                }
                if k > 0 {
                    let x: Vec<T> = segs[k..].iter().map(|s| s.0).collect();
                    let y: Vec<T> = segs[k..].iter().map(|s| s.1).collect();
                    return mk_ult(mk_concat(&x), mk_concat(&y));
                }
                // leading segment certainly different
                if segs.len() > 1 {
                    let (x, y) = segs[0];
                    if is_false(mk_eq(x, y)) {
                        return mk_ult(x, y);
                    }
                }
            }
            if let (Some(x), Some(y)) = (generic_slice(a), generic_slice(b)) {
                if x != y {
                    return c64(1, (shadow(x.0, x.1) < shadow(y.0, y.1)) as u64);
                }
            }
            if let Some(r) = push_ite(op, a, b) {
                return r;
            }
        }
        Op::Slt => {
            let sa = mk_extract(a, ww - 1, 1);
            let sb = mk_extract(b, ww - 1, 1);
            if let (Some(x), Some(y)) = (as_const(sa), as_const(sb)) {
                return match (x.is_zero(), y.is_zero()) {
                    (true, false) => ff(),
                    (false, true) => tt(),
                    _ => mk_ult(a, b),
                };
            }
            if bc.map_or(false, |c| c.is_zero()) {
                return sa;
            }
            if let Some(r) = push_ite(op, a, b) {
                return r;
            }
        }
        _ => {}
    }
    intern(rw, K::Bin(op, a, b))
}

fn push_ite(op: Op, a: T, b: T) -> Option<T> {
    if as_const(b).is_some() {
        if let K::Ite(c, x, y) = kind(a) {
            if as_const(x).is_some() || as_const(y).is_some() {
                return Some(mk_ite(c, mk_bin(op, x, b), mk_bin(op, y, b)));
            }
        }
    }
    if as_const(a).is_some() {
        if let K::Ite(c, x, y) = kind(b) {
            if as_const(x).is_some() || as_const(y).is_some() {
                return Some(mk_ite(c, mk_bin(op, a, x), mk_bin(op, a, y)));
            }
        }
    }
    None
}

fn bitop_seg(op: Op, a: T, b: T) -> T {
    let ww = w(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(fold(op, x, y));
    }
    if a == b {
        return if op == Op::Xor { cst(Bv::zero(ww)) } else { a };
    }
    for (x, y) in [(a, b), (b, a)] {
        if let Some(c) = as_const(y) {
            match op {
                Op::And if c.is_zero() => return y,
                Op::And if c.is_ones() => return x,
                Op::Or if c.is_zero() => return x,
                Op::Or if c.is_ones() => return y,
                Op::Xor if c.is_zero() => return x,
                _ => {}
            }
        }
    }
    if let Some(t) = tabulate(&[a, b], ww, |v| fold64(op, ww, v[0], v[1])) {
        return t;
    }
    if op == Op::Xor && ww <= 64 {
        if let (Some((c1, mut l1)), Some((c2, l2))) = (to_lin(a), to_lin(b)) {
            if l1.len() + l2.len() <= 6000 {
                for (k, v) in l2 {
                    *l1.entry(k).or_insert(0) ^= v;
                }
                return mk_lin(ww, c1 ^ c2, l1);
            }
        }
    }
    if op == Op::And && ww <= 64 {
        for (x, y) in [(a, b), (b, a)] {
            if let (K::Lin(c, cols), Some(m)) = (kind(x), as_const(y)) {
                let m = m.lo();
                return mk_lin(ww, c & m, cols.iter().map(|z| (z.0, z.1 & m)).collect());
            }
        }
    }
    if ww == 1 {
        // absorb x & !x, x | !x through chains is left to the solver
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    intern(ww, K::Bin(op, a, b))
}

fn mk_eq_(a: T, b: T) -> T {
    let ww = w(a);
    if ww == 1 {
        if let Some(c) = as_const(b) {
            return if c.is_zero() { mk_not(a) } else { a };
        }
    }
    let (pa, pb) = (pieces(a), pieces(b));
    if pa.len() > 1 || pb.len() > 1 {
        let segs = align(pa, pb);
        let mut conj: Vec<T> = vec![];
        // at least 64 bits of one generic value against other generic (or constant) bits
        let mut met: HashMap<(T, Option<T>), u32> = HashMap::new();
        for (x, y) in &segs {
            let gb = |t: T| -> Option<(T, u32)> {
                let (base, lo) = match kind(t) {
                    K::Sym(_) => (t, 0),
                    K::Ext(b, lo) => (b, lo),
                    _ => return None,
                };
                match kind(base) {
                    K::Sym(i) if matches!(ts().syms[i as usize].class, Class::Gen | Class::GenW) => Some((base, lo)),
                    _ => None,
                }
            };
            let (gx, gy) = (gb(*x), gb(*y));
            let k = match (gx, gy) {
                (Some(a), Some(b)) if a != b => (a.0.min(b.0), Some(a.0.max(b.0))),
                (Some(a), None) if as_const(*y).is_some() => (a.0, None),
                (None, Some(b)) if as_const(*x).is_some() => (b.0, None),
                _ => continue,
            };
            let n = met.entry(k).or_insert(0);
            *n += w(*x);
            if *n >= 64 {
                return ff();
            }
        }
        for (x, y) in segs {
            let e = if w(x) == ww { eq_leaf(x, y) } else { mk_eq(x, y) };
            if is_false(e) {
                return e;
            }
            if !is_true(e) {
                conj.push(e);
            }
        }
        let mut r = tt();
        for e in conj {
            r = mk_and(r, e);
        }
        return r;
    }
    eq_leaf(a, b)
}

fn eq_leaf(a: T, b: T) -> T {
    let (ga, gb) = (generic_slice(a), generic_slice(b));
    match (ga, gb) {
        (Some(x), Some(y)) => return c64(1, (x == y) as u64),
        (Some(_), None) if as_const(b).is_some() => return ff(),
        (None, Some(_)) if as_const(a).is_some() => return ff(),
        _ => {}
    }
    let ww = w(a);
    if let Some(c) = as_const(b) {
        let (l, h) = bounds(a);
        if c.ult(&l) || h.ult(c) {
            return ff();
        }
        if let K::Bin(Op::Add, x, y) = kind(a) {
            if let Some(c2) = as_const(y) {
                return mk_eq(x, cst(c.sub(c2)));
            }
        }
        if let K::Lin(lc, cols) = kind(a) {
            let all = cols.iter().fold(0u64, |m, x| m | x.1);
            if (lc ^ c.lo()) & !all & mask64(ww) != 0 {
                return ff();
            }
            if let Some(f) = flatten_lin(ww, lc, &cols) {
                return mk_eq(f, b);
            }
            if c.lo() != 0 && ww > 1 {
                return mk_eq(mk_bin(Op::Xor, a, b), cst(Bv::zero(ww)));
            }
        }
    } else if ww <= 64 && (has_lin(a) || has_lin(b)) {
        let x = mk_bin(Op::Xor, a, b);
        if has_lin(x) || as_const(x).is_some() {
            return mk_eq(x, cst(Bv::zero(ww)));
        }
    }
    if let Some(r) = push_ite(Op::Eq, a, b) {
        return r;
    }
    if let (K::Ite(c, x, y), K::Ite(c2, x2, y2)) = (kind(a), kind(b)) {
        if c == c2 {
            return mk_ite(c, mk_eq(x, x2), mk_eq(y, y2));
        }
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    intern(1, K::Bin(Op::Eq, a, b))
}

pub fn mk_ite(c: T, a: T, b: T) -> T {
    if is_true(c) {
        return a;
    }
    if is_false(c) || a == b {
        return b;
    }
    let ww = w(a);
    if let Some(t) = tabulate(&[c, a, b], ww, |v| if v[0] == 1 { v[1] } else { v[2] }) {
        return t;
    }
    if ww == 1 {
        if is_true(a) {
            return mk_or(c, b);
        }
        if is_false(a) {
            return mk_and(mk_not(c), b);
        }
        if is_true(b) {
            return mk_or(mk_not(c), a);
        }
        if is_false(b) {
            return mk_and(c, a);
        }
    }
    if ww <= 64 && !taint(c) {
        let d = mk_bin(Op::Xor, a, b);
        if let Some(dc) = as_const(d) {
            if let (Some((lc, lcols)), Some((bc, mut bcols))) = (to_lin(c), to_lin(b)) {
                let dv = dc.lo();
                for (bit, _) in lcols {
                    *bcols.entry(bit).or_insert(0) ^= dv;
                }
                return mk_lin(ww, bc ^ if lc == 1 { dv } else { 0 }, bcols);
            }
        }
    }
    // common pieces
    let (pa, pb) = (pieces(a), pieces(b));
    if pa.len() > 1 && pb.len() > 1 {
        let segs = align(pa, pb);
        if segs.len() > 1 && segs.iter().any(|s| s.0 == s.1) {
            let parts: Vec<T> = segs.into_iter().map(|(x, y)| mk_ite(c, x, y)).collect();
            return mk_concat(&parts);
        }
    }
    intern(ww, K::Ite(c, a, b))
}

/// possible values of a small-support term
pub fn small_values(t: T) -> Vec<u64> {
    let s = supp(t).unwrap();
    let bits: Vec<Bit> = s.to_vec();
    let mut v: Vec<u64> = (0..1usize << bits.len()).map(|i| sev(t, &bits, i)).collect();
    v.sort();
    v.dedup();
    v
}
pub fn has_small(t: T) -> bool {
    supp(t).is_some()
}

/// table lookup: index term -> values
pub fn mk_lookup(idx: T, rw: u32, f: impl Fn(u64) -> u64) -> Option<T> {
    tabulate(&[idx], rw, |v| f(v[0]))
}

/// All symbol terms a term depends on.
pub fn leaves(t: T) -> Rc<[T]> {
    if let Some(r) = ts().leaves.get(&t) {
        return r.clone();
    }
    // iterative post-order
    let mut stack = vec![(t, false)];
    while let Some((x, done)) = stack.pop() {
        if ts().leaves.contains_key(&x) {
            continue;
        }
        let ch = children(x);
        if !done {
            stack.push((x, true));
            for c in ch {
                stack.push((c, false));
            }
        } else {
            let r: Rc<[T]> = if let K::Sym(_) = kind(x) {
                Rc::new([x])
            } else {
                let mut v: Vec<T> = vec![];
                for c in &ch {
                    v.extend(ts().leaves[c].iter());
                }
                v.sort();
                v.dedup();
                v.into()
            };
            ts().leaves.insert(x, r);
        }
    }
    ts().leaves[&t].clone()
}

pub fn children(t: T) -> Vec<T> {
    match &node(t).k {
        K::Const(_) | K::Sym(_) => vec![],
        K::Ext(a, _) => vec![*a],
        K::Cat(v) => v.to_vec(),
        K::Tab(b, _) => {
            let mut v: Vec<T> = b.iter().map(|x| x.t).collect();
            v.dedup();
            v
        }
        K::Lin(_, c) => {
            let mut v: Vec<T> = c.iter().map(|x| x.0.t).collect();
            v.dedup();
            v
        }
        K::Bin(_, a, b) => vec![*a, *b],
        K::Ite(a, b, c) => vec![*a, *b, *c],
    }
}

/// Valuation of symbols; missing symbols get a default.
pub type Model = HashMap<T, Bv>;

fn prf(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub static mut SEED: u64 = 1;

pub fn default_val(t: T) -> Bv {
    if let K::Sym(i) = kind(t) {
        let s = &ts().syms[i as usize];
        match s.class {
            Class::User | Class::Odd => Bv::zero(s.w),
            Class::Gen | Class::GenW | Class::Sip => {
                let n = ((s.w + 63) / 64) as u64;
                let mut b = Bv::zero(s.w);
                let seed = unsafe { SEED };
                for k in 0..n {
                    b.l[k as usize] = prf(prf((i as u64) * 97 + k) ^ seed);
                }
                if s.w % 64 == 0 {
                    // keep below the group order
                    let top = b.l.len() - 1;
                    b.l[top] >>= 1;
                }
                b.zext(s.w)
            }
        }
    } else {
        panic!("default_val of non-symbol")
    }
}

pub struct Eval<'a> {
    pub m: &'a Model,
    pub memo: HashMap<T, Bv>,
}
impl<'a> Eval<'a> {
    pub fn new(m: &'a Model) -> Self {
        Eval { m, memo: HashMap::new() }
    }
    pub fn eval(&mut self, t: T) -> Bv {
        if let Some(b) = as_const(t) {
            return b.clone();
        }
        if let Some(b) = self.memo.get(&t) {
            return b.clone();
        }
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.memo.contains_key(&x) {
                continue;
            }
            if !done {
                stack.push((x, true));
                for c in children(x) {
                    if !self.memo.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let g = |c: T| self.memo[&c].clone();
            let v = match kind(x) {
                K::Const(b) => b,
                K::Sym(_) => self.m.get(&x).cloned().unwrap_or_else(|| default_val(x)),
                K::Ext(a, lo) => g(a).extract(lo, w(x)),
                K::Cat(v) => {
                    let mut r = Bv::zero(w(x));
                    for p in v.iter() {
                        r = r.shl(w(*p)).or(&g(*p).zext(w(x)));
                    }
                    r
                }
                K::Tab(bits, tab) => {
                    let mut i = 0;
                    for (k, b) in bits.iter().enumerate() {
                        if self.memo[&b.t].bit(b.i as u32) {
                            i |= 1 << k;
                        }
                    }
                    Bv::new(w(x), tab[i])
                }
                K::Lin(c, cols) => {
                    let mut r = c;
                    for (b, m) in cols.iter() {
                        if self.memo[&b.t].bit(b.i as u32) {
                            r ^= m;
                        }
                    }
                    Bv::new(w(x), r)
                }
                K::Bin(op, a, b) => fold(op, &g(a), &g(b)),
                K::Ite(c, a, b) => {
                    if !g(c).is_zero() {
                        g(a)
                    } else {
                        g(b)
                    }
                }
            };
            self.memo.insert(x, v);
        }
        self.memo[&t].clone()
    }
}

/// Facts about single bits of leaves, used to specialise terms along a path.
pub type Facts = HashMap<Bit, bool>;

pub struct Subst<'a> {
    pub f: &'a Facts,
    pub memo: HashMap<T, T>,
}
impl<'a> Subst<'a> {
    pub fn new(f: &'a Facts) -> Self {
        Subst { f, memo: HashMap::new() }
    }
    fn bit(&mut self, b: Bit) -> T {
        if let Some(v) = self.f.get(&b) {
            return c64(1, *v as u64);
        }
        if matches!(node(b.t).k, K::Sym(_)) {
            return raw_ext(b.t, b.i as u32, 1);
        }
        let n = self.go(b.t);
        if n == b.t {
            raw_ext(b.t, b.i as u32, 1)
        } else {
            mk_extract(n, b.i as u32, 1)
        }
    }
    pub fn go(&mut self, t: T) -> T {
        if self.f.is_empty() {
            return t;
        }
        if let Some(r) = self.memo.get(&t) {
            return *r;
        }
        let ww = w(t);
        let r = match kind(t) {
            K::Const(_) => t,
            K::Sym(_) => {
                let mut known = 0;
                for i in 0..ww {
                    if self.f.contains_key(&Bit { t, i: i as u16 }) {
                        known += 1;
                    } else if i == 0 && ww > 64 {
                        break;
                    }
                }
                if known == 0 {
                    t
                } else {
                    let parts: Vec<T> = (0..ww).rev().map(|i| self.bit(Bit { t, i: i as u16 })).collect();
                    mk_concat(&parts)
                }
            }
            K::Ext(a, lo) => {
                if matches!(node(a).k, K::Sym(_)) {
                    if (0..ww).any(|i| self.f.contains_key(&Bit { t: a, i: (lo + i) as u16 })) {
                        let parts: Vec<T> =
                            (0..ww).rev().map(|i| self.bit(Bit { t: a, i: (lo + i) as u16 })).collect();
                        mk_concat(&parts)
                    } else {
                        t
                    }
                } else {
                    let n = self.go(a);
                    if n == a {
                        t
                    } else {
                        mk_extract(n, lo, ww)
                    }
                }
            }
            K::Cat(v) => {
                let p: Vec<T> = v.iter().map(|x| self.go(*x)).collect();
                if p[..] == v[..] {
                    t
                } else {
                    mk_concat(&p)
                }
            }
            K::Tab(bits, tab) => {
                let nb: Vec<T> = bits.iter().map(|b| self.bit(*b)).collect();
                if bits.iter().zip(&nb).all(|(b, n)| raw_ext(b.t, b.i as u32, 1) == *n) {
                    t
                } else {
                    let r = tabulate(&nb, ww, |v| {
                        let mut i = 0;
                        for (k, x) in v.iter().enumerate() {
                            i |= (*x as usize) << k;
                        }
                        tab[i]
                    });
                    match r {
                        Some(r) => r,
                        None => {
                            // rebuild as nested ite
                            fn rec(nb: &[T], tab: &[u64], ww: u32) -> T {
                                if nb.is_empty() {
                                    return c64(ww, tab[0]);
                                }
                                let k = nb.len() - 1;
                                let h = tab.len() / 2;
                                let lo = rec(&nb[..k], &tab[..h], ww);
                                let hi = rec(&nb[..k], &tab[h..], ww);
                                mk_ite(nb[k], hi, lo)
                            }
                            rec(&nb, &tab, ww)
                        }
                    }
                }
            }
            K::Lin(c, cols) => {
                let mut nc = c;
                let mut out: BTreeMap<Bit, u64> = BTreeMap::new();
                let mut extra: Vec<T> = vec![];
                for (b, m) in cols.iter() {
                    let x = self.bit(*b);
                    if let Some((lc, lcols)) = to_lin(x) {
                        if lc == 1 {
                            nc ^= m;
                        }
                        for (bb, _) in lcols {
                            *out.entry(bb).or_insert(0) ^= m;
                        }
                    } else {
                        extra.push(mk_ite(x, c64(ww, *m), c64(ww, 0)));
                    }
                }
                let mut r = mk_lin(ww, nc, out);
                for e in extra {
                    r = mk_bin(Op::Xor, r, e);
                }
                r
            }
            K::Bin(op, a, b) => {
                if ww <= 8 && (0..ww).all(|i| self.f.contains_key(&Bit { t, i: i as u16 })) {
                    let mut v = 0;
                    for i in 0..ww {
                        v |= (self.f[&Bit { t, i: i as u16 }] as u64) << i;
                    }
                    c64(ww, v)
                } else {
                    let (x, y) = (self.go(a), self.go(b));
                    if x == a && y == b {
                        t
                    } else {
                        mk_bin(op, x, y)
                    }
                }
            }
            K::Ite(c, a, b) => {
                let c2 = self.go(c);
                if is_true(c2) {
                    self.go(a)
                } else if is_false(c2) {
                    self.go(b)
                } else {
                    let (x, y) = (self.go(a), self.go(b));
                    if (c2, x, y) == (c, a, b) {
                        t
                    } else {
                        mk_ite(c2, x, y)
                    }
                }
            }
        };
        self.memo.insert(t, r);
        r
    }
}

/// Derive bit facts from a condition known to be true; pushes the conjuncts.
pub fn learn(c: T, facts: &mut Facts, conj: &mut Vec<T>) {
    match kind(c) {
        K::Bin(Op::And, a, b) => {
            learn(a, facts, conj);
            learn(b, facts, conj);
        }
        K::Tab(bits, tab) => {
            for (k, b) in bits.iter().enumerate() {
                let can1 = (0..tab.len()).any(|i| tab[i] == 1 && (i >> k) & 1 == 1);
                let can0 = (0..tab.len()).any(|i| tab[i] == 1 && (i >> k) & 1 == 0);
                if can1 != can0 {
                    facts.insert(*b, can1);
                }
            }
            conj.push(c);
        }
        K::Const(_) => {}
        K::Ext(t, i) if w(c) == 1 => {
            facts.insert(Bit { t, i: i as u16 }, true);
            conj.push(c);
        }
        _ => {
            facts.insert(Bit { t: c, i: 0 }, true);
            conj.push(c);
        }
    }
}

pub fn show(t: T, depth: u32) -> String {
    let n = node(t);
    if depth == 0 {
        return format!("#{t}:{}", n.w);
    }
    match n.k.clone() {
        K::Const(b) => {
            if b.w <= 64 {
                format!("{:#x}:{}", b.lo(), b.w)
            } else {
                format!("0x{}", b.hex())
            }
        }
        K::Sym(i) => format!("{}:{}", ts().syms[i as usize].name, n.w),
        K::Ext(a, lo) => format!("{}[{}+{}]", show(a, depth - 1), lo, n.w),
        K::Cat(v) => format!("cat({})", v.iter().take(12).map(|x| show(*x, depth - 1)).collect::<Vec<_>>().join(",")),
        K::Tab(b, _) => format!(
            "tab:{}<{}>",
            n.w,
            b.iter().map(|x| format!("{}.{}", show(x.t, depth.min(4) - 1), x.i)).collect::<Vec<_>>().join(",")
        ),
        K::Lin(_, c) => format!("lin:{}<{} cols>", n.w, c.len()),
        K::Bin(op, a, b) => format!("{op:?}({},{})", show(a, depth - 1), show(b, depth - 1)),
        K::Ite(c, a, b) => format!("ite({},{},{})", show(c, depth - 1), show(a, depth - 1), show(b, depth - 1)),
    }
}
