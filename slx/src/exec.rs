//! Symbolic executor.
use crate::bv::{mask64, Bv};
use crate::crypto::Crypto;
use crate::ir::{self, addr, of_term, Cast, Func, Module, Pred, Ty, Val, BASE, I, O};
use crate::smt::{Res, Smt};
use crate::term::{self, *};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const NONE: T = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(T, u16)>>,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub pc: usize,
    pub ret: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Inp {
    Bytes(Vec<T>),
    Scalar(T),
    Generic(Vec<T>),
    Choice(u32),
}

#[derive(Clone)]
pub struct HashUse {
    pub algo: u8,
    pub state: T,
    pub block: T,
    pub out: T,
}

pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u64>,
    pub conj: Vec<T>,
    pub facts: Rc<Facts>,
    pub model: Rc<Model>,
    pub smemo: HashMap<T, T>,
    pub ememo: HashMap<T, Bv>,
    pub hashes: Vec<HashUse>,
    /// x coordinates decided on this path
    pub onx: Vec<(T, bool)>,
    /// x coordinates of the points computed on this path
    pub px: Vec<T>,
    pub inputs: Vec<Inp>,
    pub covers: Vec<u32>,
    pub trace: Vec<T>,
    pub forks: u32,
}

impl Clone for State {
    fn clone(&self) -> State {
        State {
            frames: self.frames.clone(),
            mem: self.mem.clone(),
            free: self.free.clone(),
            conj: self.conj.clone(),
            facts: self.facts.clone(),
            model: self.model.clone(),
            smemo: HashMap::new(),
            ememo: HashMap::new(),
            hashes: self.hashes.clone(),
            onx: self.onx.clone(),
            px: self.px.clone(),
            inputs: self.inputs.clone(),
            covers: self.covers.clone(),
            trace: self.trace.clone(),
            forks: self.forks,
        }
    }
}

#[derive(Debug)]
pub enum Stop {
    Panic(String),
    Infeasible,
    Done,
    Err(String),
}
pub type R<X> = Result<X, Stop>;
fn er<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<Inp>,
    pub model: Model,
}

#[derive(Clone, Debug)]
pub enum CInp {
    Bytes(Vec<u8>),
    Scalar([u8; 32]),
    Generic(Vec<u8>),
    Choice(u32),
}

pub struct Ex {
    pub m: Module,
    pub smt: Smt,
    pub cr: Crypto,
    pub names: HashMap<usize, String>,
    pub overrides: HashMap<usize, &'static str>,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub vkeys: BTreeSet<(String, u32, String)>,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub pruned: u64,
    pub covers: BTreeMap<u32, u64>,
    pub fns_run: BTreeSet<usize>,
    pub shard: (u64, u64),
    pub hash_calls: u64,
    pub hash_atoms: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub concrete: Option<Vec<CInp>>,
    pub intab: HashMap<(u8, u32, u32), T>,
    pub cur_loc: String,
    pub asserts: BTreeMap<u32, u64>,
    pub assert_queries: u64,
    pub tracef: bool,
    pub samples: Vec<(Vec<Inp>, Model, Vec<u32>)>,
    pub oncurve_uf: HashMap<T, T>,
    pub prof: HashMap<usize, u64>,
}

fn c(v: u64) -> Val {
    Val::C(v)
}

impl Ex {
    pub fn tm(&self, v: &Val, w: u32) -> T {
        match v {
            Val::C(x) => c64(w, *x),
            Val::T(t) => *t,
            Val::A(_) => panic!("aggregate as term"),
        }
    }

    // ---------------------------------------------------------------- decisions
    pub fn simp(&mut self, st: &mut State, t: T) -> T {
        if as_const(t).is_some() || st.facts.is_empty() {
            return t;
        }
        let memo = std::mem::take(&mut st.smemo);
        let f = st.facts.clone();
        let mut s = Subst { f: &f, memo };
        let r = s.go(t);
        st.smemo = s.memo;
        r
    }
    pub fn meval(&mut self, st: &mut State, t: T) -> Bv {
        if let Some(b) = as_const(t) {
            return b.clone();
        }
        let memo = std::mem::take(&mut st.ememo);
        let m = st.model.clone();
        let mut e = Eval { m: &m, memo };
        let r = e.eval(t);
        st.ememo = e.memo;
        r
    }
    fn slice(&self, st: &State, c: T) -> Vec<T> {
        let mut have: std::collections::HashSet<T> = leaves(c).iter().copied().collect();
        let mut rest: Vec<T> = st.conj.clone();
        let mut out = vec![];
        loop {
            let mut again = false;
            let mut next = vec![];
            for x in rest {
                let l = leaves(x);
                if l.iter().any(|s| have.contains(s)) {
                    for s in l.iter() {
                        have.insert(*s);
                    }
                    out.push(x);
                    again = true;
                } else {
                    next.push(x);
                }
            }
            rest = next;
            if !again || rest.is_empty() {
                break;
            }
        }
        out
    }
    pub fn add_fact(&mut self, st: &mut State, c: T, v: bool, conj: bool) {
        let facts = Rc::make_mut(&mut st.facts);
        let pos = if v { c } else { mk_not(c) };
        let mut cj = vec![];
        learn(pos, facts, &mut cj);
        for (t, b) in [(c, v), (mk_not(c), !v)] {
            if as_const(t).is_none() {
                match kind(t) {
                    K::Ext(a, lo) => {
                        facts.insert(Bit { t: a, i: lo as u16 }, b);
                    }
                    _ => {
                        facts.insert(Bit { t, i: 0 }, b);
                    }
                }
            }
        }
        if conj {
            st.conj.extend(cj);
        }
        st.smemo.clear();
    }
    /// Is (pc and c==v) satisfiable? returns the merged model.
    fn feasible(&mut self, st: &mut State, c: T, v: bool) -> R<Option<Model>> {
        let pos = if v { c } else { mk_not(c) };
        let mut q = self.slice(st, pos);
        q.push(pos);
        match self.smt.check(&q) {
            Res::Sat(m) => {
                let mut full = (*st.model).clone();
                for (k, v) in m {
                    full.insert(k, v);
                }
                Ok(Some(full))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => er(format!("solver unknown at {}", self.cur_loc)),
        }
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if is_true(c) {
            return Ok(true);
        }
        if is_false(c) {
            return Ok(false);
        }
        let c = self.simp(st, c);
        if is_true(c) {
            return Ok(true);
        }
        if is_false(c) {
            return Ok(false);
        }
        if taint(c) {
            let v = self.concretize(st, c)?;
            return Ok(v != 0);
        }
        let v = !self.meval(st, c).is_zero();
        match self.feasible(st, c, !v)? {
            None => {
                self.add_fact(st, c, v, false);
                self.pruned += 1;
                Ok(v)
            }
            Some(m) => {
                if self.tracef {
                    eprintln!("FORK in {} : {}", demangle(&st.frames.last().unwrap().f.name), show(c, 9));
                }
                let mut o = st.clone();
                o.model = Rc::new(m);
                self.add_fact(&mut o, c, !v, true);
                o.forks += 1;
                self.work.push(o);
                self.forks += 1;
                self.add_fact(st, c, v, true);
                st.forks += 1;
                Ok(v)
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        let c = self.simp(st, c);
        if is_true(c) {
            return Ok(());
        }
        if is_false(c) {
            return Err(Stop::Infeasible);
        }
        if self.meval(st, c).is_zero() {
            match self.feasible(st, c, true)? {
                None => return Err(Stop::Infeasible),
                Some(m) => {
                    st.model = Rc::new(m);
                    st.ememo.clear();
                }
            }
        }
        self.add_fact(st, c, true, true);
        Ok(())
    }
    fn check_assert(&mut self, st: &mut State, c: T, id: u32) -> R<()> {
        *self.asserts.entry(id).or_insert(0) += 1;
        let c = self.simp(st, c);
        if is_true(c) {
            return Ok(());
        }
        if is_false(c) {
            self.violate(st, "assert", id, String::new(), None);
            return Err(Stop::Infeasible);
        }
        self.assert_queries += 1;
        if self.meval(st, c).is_zero() {
            self.violate(st, "assert", id, String::new(), Some(mk_not(c)));
        } else if let Some(m) = self.feasible(st, c, false)? {
            let old = std::mem::replace(&mut st.model, Rc::new(m));
            self.violate(st, "assert", id, String::new(), Some(mk_not(c)));
            st.model = old;
            st.ememo.clear();
        }
        self.assume(st, c)
    }
    /// Move a counterexample model to one whose free key bytes agree with the real curve.
    fn realize(&mut self, st: &State, extra: Option<T>) -> Model {
        let mut m = (*st.model).clone();
        if self.oncurve_uf.is_empty() {
            return m;
        }
        let mut q: Vec<T> = st.conj.clone();
        q.extend(extra);
        let uf: Vec<(T, T)> = self.oncurve_uf.iter().map(|(a, b)| (*a, *b)).collect();
        let used: std::collections::HashSet<T> = q.iter().flat_map(|t| leaves(*t).iter().copied().collect::<Vec<_>>()).collect();
        let uf: Vec<(T, T)> = uf.into_iter().filter(|(_, on)| used.contains(on)).collect();
        for (_, on) in &uf {
            // keep the decided polarity in the query: `on` appears in the path condition
            let _ = on;
        }
        for _ in 0..80 {
            let mut bad = vec![];
            {
                let mut e = Eval::new(&m);
                let vals: Vec<(T, Bv, T, bool)> = uf.iter().map(|(x, on)| (*x, e.eval(*x), *on, !e.eval(*on).is_zero())).collect();
                for (x, v, on, ov) in vals {
                    let mut s = vec![2u8];
                    s.extend(v.to_be());
                    let real = self.cr.real_parse(&s).is_some();
                    if real != ov {
                        // lemma: x = v  =>  on = real
                        let l = mk_not(mk_and(mk_eq(x, cst(v)), mk_eq(on, c64(1, !real as u64))));
                        bad.push(l);
                    }
                }
            }
            let ys: Vec<(T, T)> = self.cr.ys.iter().map(|(p, y)| (p.clone(), *y)).collect::<Vec<_>>().into_iter().map(|(p, y)| (self.cr.pt(&p).x, y)).collect();
            for (x, y) in ys {
                if !leaves(y).iter().any(|l| used.contains(l)) || as_const(x).is_some() {
                    continue;
                }
                let mut e = Eval::new(&m);
                let (xv, yv) = (e.eval(x), e.eval(y));
                let mut s = vec![2 + yv.bit(0) as u8];
                s.extend(xv.to_be());
                if let Some(b) = self.cr.real_parse(&s) {
                    let ser = self.cr.real_ser(&b, false);
                    let ry = Bv::from_be(&ser[33..65]);
                    if ry != yv {
                        // x = v  =>  y is the real one
                        bad.push(mk_not(mk_and(mk_eq(x, cst(xv)), mk_not(mk_eq_raw(y, cst(ry))))));
                    }
                }
            }
            if bad.is_empty() {
                return m;
            }
            q.extend(bad);
            match self.smt.check(&q) {
                Res::Sat(n) => {
                    for (k, v) in n {
                        m.insert(k, v);
                    }
                }
                _ => break,
            }
        }
        (*st.model).clone()
    }
    pub fn violate(&mut self, st: &State, kind: &str, id: u32, msg: String, extra: Option<T>) {
        let key = (kind.to_string(), id, msg.clone());
        let n = self.violations.iter().filter(|v| (v.kind.clone(), v.id, v.msg.clone()) == key).count();
        if n < 12 {
            let model = self.realize(st, extra);
            self.violations.push(Violation {
                kind: kind.into(),
                id,
                msg,
                inputs: st.inputs.clone(),
                model,
            });
        }
        self.vkeys.insert(key);
    }
    /// Concretise a hash-map-key dependent term under the fixed valuation.
    pub fn concretize(&mut self, st: &mut State, t: T) -> R<u64> {
        loop {
            let t = self.simp(st, t);
            if let Some(b) = as_const(t) {
                return Ok(b.lo());
            }
            let mut again = false;
            for l in leaves(t).iter() {
                if let K::Sym(i) = kind(*l) {
                    let cl = ts().syms[i as usize].class;
                    match cl {
                        Class::Gen | Class::GenW | Class::Sip => {}
                        Class::Odd => {
                            self.decide(st, *l)?;
                            again = true;
                        }
                        Class::User => {
                            if w(*l) > 8 {
                                return er(format!("hash-map key depends on wide free input {}", show(*l, 2)));
                            }
                            for i in 0..w(*l) {
                                self.decide(st, mk_extract(*l, i, 1))?;
                            }
                            again = true;
                        }
                    }
                }
            }
            if !again {
                let m = Model::new();
                let mut e = Eval::new(&m);
                return Ok(e.eval(t).lo());
            }
        }
    }
    /// Fork over the values of a term.
    pub fn pick(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::T(t) => {
                if taint(*t) {
                    return self.concretize(st, *t);
                }
                let t = self.simp(st, *t);
                if let Some(b) = as_const(t) {
                    return Ok(b.lo());
                }
                let mut n = 0;
                loop {
                    let x = self.meval(st, t);
                    let k = x.lo();
                    if self.decide(st, mk_eq(t, cst(x)))? {
                        return Ok(k);
                    }
                    n += 1;
                    if n > 4096 {
                        return er("pick: too many values");
                    }
                }
            }
            Val::A(_) => er(format!("pick aggregate {w}")),
        }
    }
    /// concrete value or error/taint
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.pick(st, v, 64)
    }

    // ---------------------------------------------------------------- memory
    pub fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None, heap });
        if let Some(id) = st.free.pop() {
            st.mem[id as usize] = Some(o);
            return addr(id, 0);
        }
        let id = st.mem.len() as u64;
        st.mem.push(Some(o));
        addr(id, 0)
    }
    fn dealloc(&mut self, st: &mut State, a: u64) {
        let id = a >> 32;
        st.mem[id as usize] = None;
        st.free.push(id);
    }
    fn loc(&self, st: &State, a: u64, n: u64) -> R<(usize, usize)> {
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff).wrapping_sub(BASE);
        match st.mem.get(id) {
            Some(Some(o)) if off.checked_add(n).map_or(false, |e| e <= o.data.len() as u64) => Ok((id, off as usize)),
            Some(Some(o)) => {
                if std::env::var("SLX_DUMP").is_ok() {
                    eprintln!("{:?}", o.data);
                }
                er(format!("out-of-bounds access {a:#x}+{n} (object size {}) at {}", o.data.len(), self.cur_loc))
            }
            _ => er(format!("bad pointer {a:#x}+{n} at {}", self.cur_loc)),
        }
    }
    pub fn rd_byte(o: &Obj, i: usize) -> Result<u8, (T, u16)> {
        if let Some(s) = &o.sym {
            if s[i].0 != NONE {
                return Err(s[i]);
            }
        }
        Ok(o.data[i])
    }
    pub fn byte_term(o: &Obj, i: usize) -> T {
        match Self::rd_byte(o, i) {
            Ok(b) => c64(8, b as u64),
            Err((t, k)) => byte_of(t, k),
        }
    }
    /// little-endian load of n bytes
    pub fn load_n(&mut self, st: &State, a: u64, n: u64) -> R<Val> {
        let (id, off) = self.loc(st, a, n)?;
        let o = st.mem[id].as_ref().unwrap();
        let n = n as usize;
        let conc = match &o.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| x.0 == NONE),
        };
        if conc {
            if n <= 8 {
                let mut v = 0u64;
                for k in (0..n).rev() {
                    v = (v << 8) | o.data[off + k] as u64;
                }
                return Ok(Val::C(v));
            }
            return Ok(Val::T(cst(Bv::from_le(&o.data[off..off + n]))));
        }
        let s = o.sym.as_ref().unwrap();
        // whole-term fast path
        let (t0, k0) = s[off];
        if t0 != NONE && k0 == 0 && w(t0) as usize == n * 8 && (0..n).all(|k| s[off + k] == (t0, k as u16)) {
            return Ok(Val::T(t0));
        }
        let mut parts: Vec<T> = vec![];
        let mut k = 0;
        while k < n {
            let (t, b) = s[off + k];
            if t == NONE {
                let mut e = k;
                while e < n && s[off + e].0 == NONE {
                    e += 1;
                }
                parts.push(cst(Bv::from_le(&o.data[off + k..off + e])));
                k = e;
            } else {
                let mut e = k + 1;
                while e < n && s[off + e] == (t, b + (e - k) as u16) {
                    e += 1;
                }
                parts.push(bytes_of(t, b as u32, (e - k) as u32));
                k = e;
            }
        }
        parts.reverse();
        Ok(of_term(mk_concat(&parts)))
    }
    pub fn store_n(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let (id, off) = self.loc(st, a, n)?;
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        let n = n as usize;
        match v {
            Val::C(x) => {
                for k in 0..n {
                    o.data[off + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for e in &mut s[off..off + n] {
                        e.0 = NONE;
                    }
                }
            }
            Val::T(t) => {
                if let Some(b) = as_const(*t) {
                    for k in 0..n {
                        o.data[off + k] = b.byte(k);
                    }
                    if let Some(s) = &mut o.sym {
                        for e in &mut s[off..off + n] {
                            e.0 = NONE;
                        }
                    }
                    return Ok(());
                }
                let tt = if (w(*t) as usize) < n * 8 { mk_zext(*t, n as u32 * 8) } else { *t };
                // store constant bytes as constants
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(NONE, 0); len]);
                let ps = if let K::Cat(v) = kind(tt) { v.to_vec() } else { vec![tt] };
                if ps.len() > 1 {
                    // per byte: resolve to the smallest enclosing piece
                    let mut pos = n * 8;
                    let mut kbyte: Vec<Option<(T, u32)>> = vec![None; n];
                    for p in &ps {
                        let pw = w(*p) as usize;
                        pos -= pw;
                        let mut b = (pos + 7) / 8;
                        while b * 8 + 8 <= pos + pw {
                            if (b * 8 - pos) % 8 == 0 && pw % 8 == 0 && pos % 8 == 0 {
                                kbyte[b] = Some((*p, ((b * 8 - pos) / 8) as u32));
                            }
                            b += 1;
                        }
                    }
                    for k in 0..n {
                        match kbyte[k] {
                            Some((p, i)) => {
                                if let Some(b) = as_const(p) {
                                    o.data[off + k] = b.byte(i as usize);
                                    s[off + k] = (NONE, 0);
                                } else {
                                    s[off + k] = (p, i as u16);
                                }
                            }
                            None => {
                                let x = mk_extract(tt, k as u32 * 8, 8);
                                if let Some(b) = as_const(x) {
                                    o.data[off + k] = b.byte(0);
                                    s[off + k] = (NONE, 0);
                                } else {
                                    s[off + k] = (x, 0);
                                }
                            }
                        }
                    }
                } else {
                    for k in 0..n {
                        s[off + k] = (tt, k as u16);
                    }
                }
            }
            Val::A(_) => return er("store aggregate"),
        }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (si, so) = self.loc(st, s, n)?;
        let (di, dof) = self.loc(st, d, n)?;
        let n = n as usize;
        let src = st.mem[si].as_ref().unwrap();
        let data = src.data[so..so + n].to_vec();
        let sy = match &src.sym {
            Some(v) if v[so..so + n].iter().any(|x| x.0 != NONE) => Some(v[so..so + n].to_vec()),
            _ => None,
        };
        let dst = Rc::make_mut(st.mem[di].as_mut().unwrap());
        dst.data[dof..dof + n].copy_from_slice(&data);
        match (sy, &mut dst.sym) {
            (Some(v), Some(x)) => x[dof..dof + n].copy_from_slice(&v),
            (Some(v), None) => {
                let mut x = vec![(NONE, 0); dst.data.len()];
                x[dof..dof + n].copy_from_slice(&v);
                dst.sym = Some(x);
            }
            (None, Some(x)) => {
                for e in &mut x[dof..dof + n] {
                    e.0 = NONE;
                }
            }
            (None, None) => {}
        }
        Ok(())
    }
    /// big-endian value of n bytes
    pub fn rd_be(&mut self, st: &mut State, a: u64, n: u64) -> R<T> {
        let (id, off) = self.loc(st, a, n)?;
        let o = st.mem[id].clone().unwrap();
        let parts: Vec<T> = (0..n as usize).map(|k| Self::byte_term(&o, off + k)).collect();
        let t = mk_concat(&parts);
        Ok(self.simp(st, t))
    }
    pub fn rd_le(&mut self, st: &mut State, a: u64, n: u64) -> R<T> {
        let v = self.load_n(st, a, n)?;
        let t = self.tm(&v, n as u32 * 8);
        Ok(self.simp(st, t))
    }
    pub fn rd_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.loc(st, a, n)?;
        let o = st.mem[id].clone().unwrap();
        Ok((0..n as usize).map(|k| Self::byte_term(&o, off + k)).collect())
    }
    pub fn wr_be(&mut self, st: &mut State, a: u64, t: T) -> R<()> {
        let n = w(t) / 8;
        let parts: Vec<T> = (0..n).map(|k| mk_extract(t, 8 * k, 8)).collect();
        let le = mk_concat(&parts);
        self.store_n(st, a, n as u64, &of_term(le))
    }
    pub fn wr_le(&mut self, st: &mut State, a: u64, t: T) -> R<()> {
        self.store_n(st, a, w(t) as u64 / 8, &of_term(t))
    }

    pub fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(wd) => {
                let n = (*wd as u64 + 7) / 8;
                let v = self.load_n(st, a, n)?;
                if *wd as u64 == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    Val::C(x) => Val::C(x & mask64(*wd)),
                    Val::T(t) => of_term(mk_extract(t, 0, *wd)),
                    v => v,
                })
            }
            Ty::Ptr => self.load_n(st, a, 8),
            Ty::Fp(wd) => self.load_n(st, a, *wd as u64 / 8),
            Ty::Vec(n, e) if e.bits() < 8 => {
                let v = self.load_n(st, a, ty.size())?;
                let t = self.tm(&v, ty.size() as u32 * 8);
                let b = e.bits();
                Ok(Val::A((0..*n).map(|k| of_term(mk_extract(t, k * b, b))).collect()))
            }
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                let mut v = vec![];
                for i in 0..ty.count() {
                    let (o, t) = ty.field(i);
                    v.push(self.load_ty(st, a + o, &t)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Void => er("load void"),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(wd) => self.store_n(st, a, (*wd as u64 + 7) / 8, v),
            Ty::Ptr => self.store_n(st, a, 8, v),
            Ty::Fp(wd) => self.store_n(st, a, *wd as u64 / 8, v),
            // packed
            Ty::Vec(_, e) if e.bits() < 8 => {
                if let Val::A(vs) = v {
                    let mut p: Vec<T> = vs.iter().rev().map(|x| self.tm(x, e.bits())).collect();
                    let pad = ty.size() as u32 * 8 - ty.bits();
                    if pad > 0 {
                        p.insert(0, cst(Bv::zero(pad)));
                    }
                    let t = mk_concat(&p);
                    self.store_n(st, a, ty.size(), &of_term(t))
                } else {
                    er("store agg value")
                }
            }
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => {
                if let Val::A(vs) = v {
                    for i in 0..ty.count() {
                        let (o, t) = ty.field(i);
                        self.store_ty(st, a + o, &t, &vs[i as usize])?;
                    }
                    Ok(())
                } else {
                    er("store agg value")
                }
            }
            Ty::Void => er("store void"),
        }
    }
    fn load_sym(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::C(a) => self.load_ty(st, *a, ty),
            Val::T(t) => {
                if taint(*t) {
                    let a = self.concretize(st, *t)?;
                    return self.load_ty(st, a, ty);
                }
                let t = self.simp(st, *t);
                if let Some(b) = as_const(t) {
                    return self.load_ty(st, b.lo(), ty);
                }
                if has_small(t) && !ty.is_agg() && ty.bits() <= 64 {
                    let vals = small_values(t);
                    if vals.len() <= 256 {
                        let mut tab: HashMap<u64, Val> = HashMap::new();
                        let mut ok = true;
                        let mut nsym = 0;
                        for a in &vals {
                            match self.load_ty(st, *a, ty) {
                                Ok(Val::C(x)) => {
                                    tab.insert(*a, Val::C(x));
                                }
                                Ok(v) => {
                                    nsym += 1;
                                    tab.insert(*a, v);
                                }
                                Err(_) => {
                                    // out of range: must be infeasible
                                    if self.feasible(st, mk_eq(t, c64(64, *a)), true)?.is_some() {
                                        ok = false;
                                    }
                                    tab.insert(*a, Val::C(0));
                                }
                            }
                        }
                        if ok && nsym == 0 {
                            let r = mk_lookup(t, ty.bits(), |a| match tab.get(&a) {
                                Some(Val::C(x)) => *x,
                                _ => 0,
                            });
                            if let Some(r) = r {
                                return Ok(of_term(r));
                            }
                        }
                        if ok && vals.len() <= 32 {
                            let wd = ty.bits();
                            let mut r = self.tm(&tab[&vals[0]], wd);
                            for a in &vals[1..] {
                                let x = self.tm(&tab[a], wd);
                                r = mk_ite(mk_eq(t, c64(64, *a)), x, r);
                            }
                            return Ok(of_term(r));
                        }
                    }
                }
                let a = self.pick(st, &Val::T(t), 64)?;
                self.load_ty(st, a, ty)
            }
            _ => er("load ptr"),
        }
    }

    // ---------------------------------------------------------------- scalar ops
    pub fn bin(&mut self, st: &mut State, op: Op, wd: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if wd <= 64 {
                return Ok(Val::C(fold64(op, wd, *x, *y)));
            }
        }
        let (x, y) = (self.tm(a, wd), self.tm(b, wd));
        if matches!(op, Op::And | Op::Mul | Op::UDiv | Op::URem | Op::Eq | Op::Ult | Op::Slt | Op::LShr) && (taint(x) || taint(y)) {
            let x = self.concretize(st, x)?;
            let y = self.concretize(st, y)?;
            return Ok(Val::C(fold64(op, wd, x, y)));
        }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Mul) && as_const(y).is_none() {
            let x = self.simp(st, x);
            let y = self.simp(st, y);
            return Ok(of_term(mk_bin(op, x, y)));
        }
        Ok(of_term(mk_bin(op, x, y)))
    }
    fn cmp(&mut self, st: &mut State, p: Pred, wd: u32, a: &Val, b: &Val) -> R<Val> {
        let neg = |e: &mut Ex, v: Val| -> Val {
            match v {
                Val::C(x) => Val::C(x ^ 1),
                v => {
                    let t = e.tm(&v, 1);
                    of_term(mk_not(t))
                }
            }
        };
        Ok(match p {
            Pred::Eq => self.bin(st, Op::Eq, wd, a, b)?,
            Pred::Ne => {
                let v = self.bin(st, Op::Eq, wd, a, b)?;
                neg(self, v)
            }
            Pred::Ult => self.bin(st, Op::Ult, wd, a, b)?,
            Pred::Ugt => self.bin(st, Op::Ult, wd, b, a)?,
            Pred::Uge => {
                let v = self.bin(st, Op::Ult, wd, a, b)?;
                neg(self, v)
            }
            Pred::Ule => {
                let v = self.bin(st, Op::Ult, wd, b, a)?;
                neg(self, v)
            }
            Pred::Slt => self.bin(st, Op::Slt, wd, a, b)?,
            Pred::Sgt => self.bin(st, Op::Slt, wd, b, a)?,
            Pred::Sge => {
                let v = self.bin(st, Op::Slt, wd, a, b)?;
                neg(self, v)
            }
            Pred::Sle => {
                let v = self.bin(st, Op::Slt, wd, b, a)?;
                neg(self, v)
            }
        })
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (from, to) {
            if k != Cast::Bit {
                let mut out = vec![];
                if let Val::A(vs) = v {
                    for x in vs.iter().take(*n as usize) {
                        out.push(self.cast(st, k, fe, te, x)?);
                    }
                }
                return Ok(Val::A(out.into()));
            }
        }
        if k == Cast::Bit {
            let t = match v {
                Val::A(vs) => {
                    let e = match from {
                        Ty::Vec(_, e) => e.bits(),
                        _ => return er("bitcast"),
                    };
                    let p: Vec<T> = vs.iter().rev().map(|x| self.tm(x, e)).collect();
                    mk_concat(&p)
                }
                v => self.tm(v, from.bits()),
            };
            return Ok(match to {
                Ty::Vec(n, e) => {
                    let b = e.bits();
                    Val::A((0..*n).map(|i| of_term(mk_extract(t, i * b, b))).collect())
                }
                _ => of_term(t),
            });
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(x) = v {
            if tw <= 64 {
                return Ok(Val::C(match k {
                    Cast::Sext => ir::sx(*x, fw) as u64 & mask64(tw),
                    _ => *x & mask64(tw),
                }));
            }
        }
        let t = self.tm(v, fw);
        Ok(match k {
            Cast::Sext => of_term(mk_sext(t, tw)),
            _ if tw >= fw => of_term(mk_zext(t, tw)),
            _ => {
                if taint(t) {
                    let x = self.concretize(st, t)?;
                    Val::C(x & mask64(tw))
                } else {
                    of_term(mk_extract(t, 0, tw))
                }
            }
        })
    }

    fn val(&self, st: &State, o: &O) -> Val {
        match o {
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            O::V(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp = Vec::with_capacity(b.phis.len());
            for (d, alts) in &b.phis {
                for (p, o) in alts {
                    if *p == from {
                        let v = match o {
                            O::R(r) => fr.regs[*r as usize].clone(),
                            O::V(v) => v.clone(),
                        };
                        tmp.push((*d, v));
                        break;
                    }
                }
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.pc = 0;
    }

    pub fn push_call(&mut self, st: &mut State, id: usize, args: Vec<Val>, ret: Option<u32>) -> R<()> {
        let f = self.m.func(id).map_err(Stop::Err)?;
        self.fns_run.insert(id);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for ((r, _), v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        if st.frames.len() > 400 {
            return er("call depth");
        }
        st.frames.push(Frame { f, regs, blk: 0, pc: 0, ret, allocas: vec![] });
        Ok(())
    }

    /// run one state until it ends
    fn run_state(&mut self, st: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            tick += 1;
            self.steps += 1;
            if tick & 0xfff == 0 {
                if Instant::now() > self.deadline {
                    return er("time limit");
                }
                if self.tracef {
                    for f in &st.frames {
                        let id = self.m.sym.get(&f.f.name).map(|a| *a as usize).unwrap_or(0);
                        *self.prof.entry(id).or_insert(0) += 1;
                    }
                }
            }
            self.step(st)?;
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].code[fr.pc];
        match ins {
            I::Alloca(d, size, n) => {
                let mut sz = *size;
                if let Some((_, o)) = n {
                    let v = self.val(st, o);
                    sz *= self.conc(st, &v)?;
                }
                let a = self.alloc(st, sz, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[*d as usize] = c(a);
            }
            I::Load(d, ty, p) => {
                let p = self.val(st, p);
                let v = match p {
                    Val::C(a) => self.load_ty(st, a, ty)?,
                    p => self.load_sym(st, &p, ty)?,
                };
                self.set(st, *d, v);
            }
            I::Store(ty, v, p) => {
                let p = self.val(st, p);
                let v = self.val(st, v);
                let a = self.conc(st, &p)?;
                self.store_ty(st, a, ty, &v)?;
            }
            I::Gep(d, b, off, dy) => {
                let mut acc = self.val(st, b);
                if *off != 0 {
                    acc = match acc {
                        Val::C(x) => c(x.wrapping_add(*off as u64)),
                        v => {
                            let t = self.tm(&v, 64);
                            of_term(mk_bin(Op::Add, t, c64(64, *off as u64)))
                        }
                    };
                }
                for (scale, wd, o) in dy {
                    let i = self.val(st, o);
                    let i = match i {
                        Val::C(x) => c((ir::sx(x, *wd)).wrapping_mul(*scale) as u64),
                        v => {
                            let t = mk_sext(self.tm(&v, *wd), 64);
                            of_term(mk_bin(Op::Mul, t, c64(64, *scale as u64)))
                        }
                    };
                    acc = match (&acc, &i) {
                        (Val::C(a), Val::C(b)) => c(a.wrapping_add(*b)),
                        _ => {
                            let (a, b) = (self.tm(&acc, 64), self.tm(&i, 64));
                            of_term(mk_bin(Op::Add, a, b))
                        }
                    };
                }
                self.set(st, *d, acc);
            }
            I::Bin(d, op, ty, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let v = if let Ty::Vec(_, e) = ty {
                    let wd = e.bits();
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let mut out = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                out.push(self.bin(st, *op, wd, p, q)?);
                            }
                            Val::A(out.into())
                        }
                        _ => return er("vector bin"),
                    }
                } else {
                    self.bin(st, *op, ty.bits(), &a, &b)?
                };
                self.set(st, *d, v);
            }
            I::Cmp(d, p, ty, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let v = if let Ty::Vec(_, e) = ty {
                    let wd = e.bits();
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let mut out = vec![];
                            for (u, q) in x.iter().zip(y.iter()) {
                                out.push(self.cmp(st, *p, wd, u, q)?);
                            }
                            Val::A(out.into())
                        }
                        _ => return er("vector cmp"),
                    }
                } else {
                    self.cmp(st, *p, ty.bits(), &a, &b)?
                };
                self.set(st, *d, v);
            }
            I::Cast(d, k, f, t, a) => {
                let a = self.val(st, a);
                let v = self.cast(st, *k, f, t, &a)?;
                self.set(st, *d, v);
            }
            I::Select(d, ct, ty, cnd, a, b) => {
                let cv = self.val(st, cnd);
                let (a, b) = (self.val(st, a), self.val(st, b));
                let v = if let Ty::Vec(..) = ct {
                    match (&cv, &a, &b, ty) {
                        (Val::A(cs), Val::A(x), Val::A(y), Ty::Vec(_, e)) => {
                            let mut out = vec![];
                            for i in 0..cs.len() {
                                out.push(self.sel(st, e.bits(), &cs[i], &x[i], &y[i])?);
                            }
                            Val::A(out.into())
                        }
                        _ => return er("vector select"),
                    }
                } else if ty.is_agg() {
                    let k = self.tm(&cv, 1);
                    if self.decide(st, k)? {
                        a
                    } else {
                        b
                    }
                } else {
                    self.sel(st, ty.bits(), &cv, &a, &b)?
                };
                self.set(st, *d, v);
            }
            I::Call(d, rt, callee, args, _) => {
                let cv = self.val(st, callee);
                let ca = self.conc(st, &cv)?;
                let id = match self.m.fn_at(ca) {
                    Some(i) => i,
                    None => return er(format!("call to non-function {ca:#x}")),
                };
                let vals: Vec<Val> = args.iter().map(|(_, o)| self.val(st, o)).collect();
                let info = &self.m.fns[id];
                if let Some(ov) = self.overrides.get(&id) {
                    let ov = *ov;
                    let v = self.builtin(st, ov, &vals, args, rt)?;
                    if let (Some(d), Some(v)) = (d, v) {
                        self.set(st, *d, v);
                    }
                } else if info.noreturn {
                    let msg = self.panic_msg(st, id, &vals);
                    return Err(Stop::Panic(msg));
                } else if info.defined {
                    st.frames.last_mut().unwrap().pc += 1;
                    return self.push_call(st, id, vals, *d);
                } else {
                    let name = info.name.clone();
                    let v = self.builtin(st, &name, &vals, args, rt)?;
                    if let (Some(d), Some(v)) = (d, v) {
                        self.set(st, *d, v);
                    }
                }
            }
            I::ExtVal(d, a, idx) => {
                let mut v = self.val(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return er("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            I::InsVal(d, a, v, idx) => {
                let a = self.val(st, a);
                let v = self.val(st, v);
                fn ins(a: &Val, v: Val, idx: &[u64]) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    if let Val::A(x) = a {
                        let mut y = x.to_vec();
                        y[idx[0] as usize] = ins(&x[idx[0] as usize], v, &idx[1..]);
                        Val::A(y.into())
                    } else {
                        panic!("insertvalue")
                    }
                }
                let r = ins(&a, v, idx);
                self.set(st, *d, r);
            }
            I::ExtEl(d, a, i) => {
                let (a, i) = (self.val(st, a), self.val(st, i));
                let i = self.conc(st, &i)?;
                let v = match a {
                    Val::A(x) => x[i as usize].clone(),
                    _ => return er("extractelement"),
                };
                self.set(st, *d, v);
            }
            I::InsEl(d, a, v, i) => {
                let (a, v, i) = (self.val(st, a), self.val(st, v), self.val(st, i));
                let i = self.conc(st, &i)?;
                let r = match a {
                    Val::A(x) => {
                        let mut y = x.to_vec();
                        y[i as usize] = v;
                        Val::A(y.into())
                    }
                    _ => return er("insertelement"),
                };
                self.set(st, *d, r);
            }
            I::Shuffle(d, a, b, mk) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let r = match (a, b) {
                    (Val::A(x), Val::A(y)) => Val::A(
                        mk.iter()
                            .map(|i| {
                                let i = *i as usize;
                                if i < x.len() {
                                    x[i].clone()
                                } else {
                                    y[i - x.len()].clone()
                                }
                            })
                            .collect(),
                    ),
                    _ => return er("shuffle"),
                };
                self.set(st, *d, r);
            }
            I::Rmw(d, op, wd, p, v) => {
                let (p, v) = (self.val(st, p), self.val(st, v));
                let a = self.conc(st, &p)?;
                let n = *wd as u64 / 8;
                let old = self.load_n(st, a, n)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, Op::Add, *wd, &old, &v)?,
                    "sub" => self.bin(st, Op::Sub, *wd, &old, &v)?,
                    "and" => self.bin(st, Op::And, *wd, &old, &v)?,
                    "or" => self.bin(st, Op::Or, *wd, &old, &v)?,
                    "xor" => self.bin(st, Op::Xor, *wd, &old, &v)?,
                    o => return er(format!("atomicrmw {o}")),
                };
                self.store_n(st, a, n, &nv)?;
                self.set(st, *d, old);
            }
            I::Cas(d, wd, p, e, n) => {
                let (p, e, nv) = (self.val(st, p), self.val(st, e), self.val(st, n));
                let a = self.conc(st, &p)?;
                let sz = *wd as u64 / 8;
                let old = self.load_n(st, a, sz)?;
                let q = self.bin(st, Op::Eq, *wd, &old, &e)?;
                let qt = self.tm(&q, 1);
                let ok = self.decide(st, qt)?;
                if ok {
                    self.store_n(st, a, sz, &nv)?;
                }
                self.set(st, *d, Val::A(vec![old, c(ok as u64)].into()));
            }
            I::Mov(d, a) => {
                let v = self.val(st, a);
                self.set(st, *d, v);
            }
            I::Nop => {}
            I::Unsup(s) => return er(format!("unsupported instruction: {s} in {}", f.name)),
            I::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            I::CondBr(cnd, a, b) => {
                let v = self.val(st, cnd);
                let t = match v {
                    Val::C(x) => x & 1 == 1,
                    Val::T(t) => {
                        self.cur_loc = f.name.clone();
                        self.decide(st, t)?
                    }
                    _ => return er("br cond"),
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch(wd, v, dflt, cases) => {
                let v = self.val(st, v);
                match v {
                    Val::C(x) => {
                        let mut to = *dflt;
                        for (k, b) in cases {
                            if *k == Val::C(x) {
                                to = *b;
                                break;
                            }
                        }
                        self.jump(st, to);
                    }
                    Val::T(t) => {
                        self.cur_loc = f.name.clone();
                        if taint(t) {
                            let x = self.concretize(st, t)?;
                            let to = cases.iter().find(|(k, _)| *k == Val::C(x)).map_or(*dflt, |z| z.1);
                            self.jump(st, to);
                            return Ok(());
                        }
                        let t = self.simp(st, t);
                        // group cases by target: one decision per target
                        let mut groups: Vec<(u32, T)> = vec![];
                        for (k, b) in cases {
                            let e = mk_eq(t, self.tm(k, *wd));
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                                g.1 = mk_or(g.1, e);
                            } else {
                                groups.push((*b, e));
                            }
                        }
                        let mut to = *dflt;
                        for (b, e) in groups {
                            if b == *dflt {
                                continue;
                            }
                            if self.decide(st, e)? {
                                to = b;
                                break;
                            }
                        }
                        self.jump(st, to);
                    }
                    _ => return er("switch"),
                }
                return Ok(());
            }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    let id = a >> 32;
                    st.mem[id as usize] = None;
                    st.free.push(id);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, rv) {
                    self.set(st, d, v);
                }
                return Ok(());
            }
            I::Unreachable => return er(format!("unreachable executed in {}", f.name)),
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(())
    }
    fn sel(&mut self, st: &mut State, wd: u32, cnd: &Val, a: &Val, b: &Val) -> R<Val> {
        match cnd {
            Val::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::T(t) => {
                if taint(*t) {
                    let v = self.concretize(st, *t)?;
                    return Ok(if v & 1 == 1 { a.clone() } else { b.clone() });
                }
                if a == b {
                    return Ok(a.clone());
                }
                let k = self.simp(st, *t);
                let (x, y) = (self.tm(a, wd), self.tm(b, wd));
                Ok(of_term(mk_ite(k, x, y)))
            }
            _ => er("select"),
        }
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> String {
        if let Ok((id, off)) = self.loc(st, a, n) {
            let o = st.mem[id].as_ref().unwrap();
            return String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string();
        }
        String::new()
    }
    fn panic_msg(&mut self, st: &mut State, id: usize, vals: &[Val]) -> String {
        let mut s = demangle(&self.m.fns[id].name);
        // a Location argument: { ptr file, usize len, u32 line, u32 col }
        for v in vals.iter().rev() {
            if let Val::C(p) = v {
                if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(ln))) =
                    (self.load_n(st, *p, 8), self.load_n(st, p + 8, 8), self.load_n(st, p + 16, 4))
                {
                    if fl > 3 && fl < 300 && ln > 0 && ln < 1_000_000 {
                        let f = self.cstr(st, fp, fl - 1);
                        if f.contains(".r") {
                            let f = f.rsplit("registry/src/").next().unwrap_or(&f).to_string();
                            s.push_str(&format!(" at {f}:{ln}"));
                            return s;
                        }
                    }
                }
            }
        }
        // caller as a hint
        if let Some(f) = st.frames.last() {
            s.push_str(&format!(" in {}", demangle(&f.f.name)));
        }
        s
    }

    pub fn explore(&mut self, entry: &str) -> Result<(), String> {
        let a = *self.m.sym.get(entry).ok_or(format!("no entry {entry}"))?;
        let id = self.m.fn_at(a).ok_or("entry not a function")?;
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None; self.m.first_free() as usize];
        for (k, g) in self.m.globals.iter().enumerate() {
            let data = if g.external { vec![0u8; 64.max(g.size as usize)] } else { g.data.clone() };
            mem[k + 1] = Some(Rc::new(Obj { data, sym: None, heap: false }));
        }
        let mut st = State {
            frames: vec![],
            mem,
            free: vec![],
            conj: vec![],
            facts: Rc::new(Facts::new()),
            model: Rc::new(Model::new()),
            smemo: HashMap::new(),
            ememo: HashMap::new(),
            hashes: vec![],
            onx: vec![],
            px: vec![],
            inputs: vec![],
            covers: vec![],
            trace: vec![],
            forks: 0,
        };
        self.push_call(&mut st, id, vec![], None).map_err(|e| format!("{e:?}"))?;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            match self.run_state(&mut st) {
                Ok(()) => unreachable!(),
                Err(Stop::Done) => {
                    self.paths += 1;
                    self.finish(&mut st);
                }
                Err(Stop::Infeasible) => {}
                Err(Stop::Panic(msg)) => {
                    self.paths += 1;
                    self.violate(&st, "panic", 0, msg, None);
                    self.finish(&mut st);
                }
                Err(Stop::Err(e)) => {
                    let mut s = e;
                    for f in st.frames.iter().rev().take(6) {
                        s.push_str(&format!("\n   in {} @{}", demangle(&f.f.name), f.f.blocks[f.blk as usize].name));
                    }
                    return Err(s);
                }
            }
            if self.paths > self.max_paths {
                return Err(format!("path limit {} reached", self.max_paths));
            }
        }
        Ok(())
    }
    fn finish(&mut self, st: &mut State) {
        for c in &st.covers {
            *self.covers.entry(*c).or_insert(0) += 1;
        }
        if self.samples.len() < 64 {
            self.samples.push((st.inputs.clone(), (*st.model).clone(), st.covers.clone()));
        }
        if self.concrete.is_some() {
            for t in &st.trace {
                match as_const(*t) {
                    Some(b) => println!("TRACE {}", b.hex()),
                    None => println!("TRACE ?"),
                }
            }
            for c in &st.covers {
                println!("COVER {c}");
            }
        }
    }
    pub fn assert_builtin(&mut self, st: &mut State, v: &Val, id: u32) -> R<()> {
        let t = self.tm(v, 1);
        let t = if taint(t) {
            let x = self.concretize(st, t)?;
            c64(1, x)
        } else {
            t
        };
        self.check_assert(st, t, id)
    }
}

pub fn byte_of(t: T, k: u16) -> T {
    bytes_of(t, k as u32, 1)
}
pub fn bytes_of(t: T, k: u32, n: u32) -> T {
    let ww = w(t);
    if k == 0 && ww == n * 8 {
        return t;
    }
    mk_extract(t, 8 * k, 8 * n)
}

pub fn demangle(s: &str) -> String {
    let s = s.split(".llvm.").next().unwrap();
    let t = format!("{:#}", rustc_demangle::demangle(s));
    t.chars().take(200).collect()
}

#[allow(dead_code)]
pub fn unused() {
    let _ = term::tt();
}
