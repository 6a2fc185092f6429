//! Intrinsics, libc, libsecp256k1 and harness primitives.
use crate::bv::{mask64, Bv};
use crate::crypto::{Poly, U256};
use crate::exec::*;
use crate::hash;
use crate::ir::{of_term, Ty, Val, O};
use crate::term::*;

fn er<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Err(s.into()))
}
fn c(v: u64) -> R<Option<Val>> {
    Ok(Some(Val::C(v)))
}

impl Ex {
    fn k(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.pick(st, v, 64)
    }
    fn sc_ok(&mut self, st: &mut State, t: T, zero_ok: bool) -> R<bool> {
        // in range [1, n) (or [0, n))
        if self.cr.scalar_known(t) {
            if let Some(b) = as_const(t) {
                return Ok((zero_ok || !b.is_zero()) && b.ult(&Bv::from_be(&N_BE)));
            }
            return Ok(true);
        }
        let mut q = mk_ult(t, cst(Bv::from_be(&N_BE)));
        if !zero_ok {
            q = mk_and(q, mk_not(mk_eq(t, cst(Bv::zero(256)))));
        }
        self.decide(st, q)
    }
    fn scalar_at(&mut self, st: &mut State, a: u64) -> R<T> {
        let t = self.rd_be(st, a, 32)?;
        self.split_ite(st, t)
    }
    /// resolve if-then-else structure by deciding its conditions
    fn split_ite(&mut self, st: &mut State, t: T) -> R<T> {
        let mut t = self.simp(st, t);
        let mut n = 0;
        loop {
            let mut cond = None;
            match kind(t) {
                K::Ite(cnd, _, _) => cond = Some(cnd),
                K::Cat(v) => {
                    for x in v.iter() {
                        if let K::Ite(cnd, _, _) = kind(*x) {
                            cond = Some(cnd);
                            break;
                        }
                    }
                }
                _ => {}
            }
            match cond {
                None => return Ok(t),
                Some(cnd) => {
                    self.decide(st, cnd)?;
                    t = self.simp(st, t);
                }
            }
            n += 1;
            if n > 64 {
                return er("split_ite");
            }
        }
    }
    fn poly_at(&mut self, st: &mut State, a: u64) -> R<Poly> {
        let t = self.rd_le(st, a, 64)?;
        let t = self.split_ite(st, t)?;
        self.cr.of_opaque(t).map_err(|e| Stop::Err(format!("{e} at {}", self.cur_loc)))
    }
    fn put_point(&mut self, st: &mut State, a: u64, p: &Poly) -> R<()> {
        let pt = self.cr.pt(p);
        if as_const(pt.x).is_none() && !self.cr.lift.contains_key(&pt.x) && !st.px.contains(&pt.x) {
            // a free x coordinate lifted earlier on this path is a point in general position: points made
            // later differ from it (the lift itself decides equality with the points that exist by then)
            let xs: Vec<T> = st.onx.iter().filter(|y| y.1).map(|y| y.0).collect();
            for y in xs {
                let e = mk_eq(pt.x, y);
                let e = self.simp(st, e);
                self.assume(st, mk_not(e))?;
            }
            st.px.push(pt.x);
        }
        self.wr_le(st, a, pt.opaque)
    }
    /// decide the even-y representative: (poly with even y, was odd)
    fn even(&mut self, st: &mut State, p: &Poly) -> R<(Poly, bool)> {
        let pt = self.cr.pt(p);
        if self.decide(st, pt.odd)? {
            Ok((p.neg(), true))
        } else {
            Ok((p.clone(), false))
        }
    }
    /// store the even-y representative of a point; which one it is stays open until it matters.
    /// Returns the bit that says whether the point had an odd y.
    fn put_even(&mut self, st: &mut State, a: u64, p: &Poly) -> R<T> {
        let odd = self.cr.pt(p).odd;
        let odd = self.simp(st, odd);
        if is_true(odd) {
            self.put_point(st, a, &p.neg())?;
        } else {
            self.put_point(st, a, p)?;
            if !is_false(odd) {
                let (x, y) = (self.cr.pt(&p.neg()).opaque, self.cr.pt(p).opaque);
                self.wr_le(st, a, mk_ite(odd, x, y))?;
            }
        }
        Ok(odd)
    }
    /// a point or its negation, whichever is stored there: enough when only x matters
    fn poly_x_at(&mut self, st: &mut State, a: u64) -> R<Poly> {
        let t = self.rd_le(st, a, 64)?;
        let t = self.simp(st, t);
        if let K::Ite(_, x, y) = kind(t) {
            if let (Ok(p), Ok(q)) = (self.cr.of_opaque(x), self.cr.of_opaque(y)) {
                if p == q || p == q.neg() {
                    return Ok(q);
                }
            }
        }
        self.poly_at(st, a)
    }
    /// the point with exactly this x term, if this path has decided about it
    fn lift_at(&mut self, st: &mut State, x: T) -> R<Option<Option<Poly>>> {
        if let Some(p) = self.cr.lift.get(&x) {
            let p = p.clone();
            match st.onx.iter().find(|y| y.0 == x) {
                Some((_, true)) => return Ok(Some(Some(p))),
                Some((_, false)) => return Ok(Some(None)),
                None => return Ok(None),
            }
        }
        if let Some((_, false)) = st.onx.iter().find(|y| y.0 == x) {
            return Ok(Some(None));
        }
        if let Some((p, q)) = self.cr.with_x(x) {
            let odd = self.decide(st, q.odd)?;
            return Ok(Some(Some(if odd { p.neg() } else { p })));
        }
        Ok(None)
    }
    /// even-y point with x coordinate term x, None if not on the curve
    fn lift(&mut self, st: &mut State, x: T) -> R<Option<Poly>> {
        let x = self.split_ite(st, x)?;
        if let Some(b) = as_const(x) {
            let mut s = vec![2u8];
            s.extend(b.to_be());
            return Ok(self.cr.real_parse(&s).map(|b| self.cr.poly_of_bytes(b)));
        }
        if let Some(r) = self.lift_at(st, x)? {
            return Ok(r);
        }
        let mut known: Vec<T> = st.onx.iter().map(|y| y.0).collect();
        known.extend(st.px.iter().copied());
        for y in known {
            let e = mk_eq(x, y);
            let e = self.simp(st, e);
            if is_false(e) {
                continue;
            }
            if self.decide(st, e)? {
                return match self.lift_at(st, y)? {
                    Some(r) => Ok(r),
                    None => er("known x without a point"),
                };
            }
        }
        let on = *self.oncurve_uf.entry(x).or_insert_with(|| sym(&format!("oncurve_{x}"), 1, Class::User));
        let v = self.decide(st, on)?;
        st.onx.push((x, v));
        if v {
            Ok(Some(self.cr.lift_term(x)))
        } else {
            Ok(None)
        }
    }
    fn mem_cmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
        if n == 0 || a == b {
            return Ok(Val::C(0));
        }
        let x = self.rd_be(st, a, n)?;
        let y = self.rd_be(st, b, n)?;
        let (x, y) = if taint(x) || taint(y) { return er("memcmp on tainted data") } else { (x, y) };
        let eq = mk_eq(x, y);
        if eq_only {
            return Ok(of_term(mk_zext(mk_not(eq), 32)));
        }
        let lt = mk_ult(x, y);
        Ok(of_term(mk_ite(eq, c64(32, 0), mk_ite(lt, c64(32, 0xffff_ffff), c64(32, 1)))))
    }
    fn compress(&mut self, st: &mut State, algo: u8, state: T, block: T) -> R<T> {
        self.hash_calls += 1;
        let state = self.simp(st, state);
        let block = self.simp(st, block);
        // reuse: same arguments on this path
        for h in st.hashes.clone() {
            if h.algo != algo {
                continue;
            }
            if h.state == state && h.block == block {
                return Ok(h.out);
            }
            let e1 = mk_eq(h.state, state);
            let e1 = self.simp(st, e1);
            if is_false(e1) {
                continue;
            }
            let e2 = mk_eq(h.block, block);
            let e2 = self.simp(st, e2);
            let e = mk_and(e1, e2);
            if is_false(e) {
                continue;
            }
            if self.decide(st, e)? {
                st.hashes.push(HashUse { algo, state, block, out: h.out });
                return Ok(h.out);
            }
        }
        let out = if let (Some(s), Some(b)) = (as_const(state), as_const(block)) {
            let sb = s.to_be();
            let bb = b.to_be();
            let mut o = vec![];
            match algo {
                0 => {
                    let mut v = [0u32; 8];
                    for i in 0..8 {
                        v[i] = u32::from_be_bytes(sb[4 * i..4 * i + 4].try_into().unwrap());
                    }
                    hash::sha256(&mut v, &bb);
                    for x in v {
                        o.extend(x.to_be_bytes());
                    }
                }
                1 => {
                    let mut v = [0u64; 8];
                    for i in 0..8 {
                        v[i] = u64::from_be_bytes(sb[8 * i..8 * i + 8].try_into().unwrap());
                    }
                    hash::sha512(&mut v, &bb);
                    for x in v {
                        o.extend(x.to_be_bytes());
                    }
                }
                _ => {
                    let mut v = [0u32; 5];
                    for i in 0..5 {
                        v[i] = u32::from_be_bytes(sb[4 * i..4 * i + 4].try_into().unwrap());
                    }
                    hash::ripemd160(&mut v, &bb);
                    for x in v {
                        o.extend(x.to_be_bytes());
                    }
                }
            }
            return Ok(cst(Bv::from_be(&o)));
        } else {
            self.hash_atoms += 1;
            match algo {
                0 => self.cr.uf(100, vec![state, block], 256, Class::Gen),
                1 => {
                    let l = self.cr.uf(101, vec![state, block], 256, Class::Gen);
                    let r = self.cr.uf(102, vec![state, block], 256, Class::Gen);
                    mk_concat(&[l, r])
                }
                _ => self.cr.uf(103, vec![state, block], 160, Class::GenW),
            }
        };
        st.hashes.push(HashUse { algo, state, block, out });
        Ok(out)
    }
    /// state words as big-endian concatenation
    fn rd_words(&mut self, st: &mut State, a: u64, n: u64, wb: u64, swap: bool) -> R<T> {
        let mut p = vec![];
        for i in 0..n {
            let v = self.load_n(st, a + i * wb, wb)?;
            let t = self.tm(&v, wb as u32 * 8);
            p.push(if swap { bswap(t) } else { t });
        }
        Ok(mk_concat(&p))
    }
    fn wr_words(&mut self, st: &mut State, a: u64, t: T, n: u64, wb: u64) -> R<()> {
        let ww = wb as u32 * 8;
        for i in 0..n {
            let x = mk_extract(t, (n - 1 - i) as u32 * ww, ww);
            self.store_n(st, a + i * wb, wb, &of_term(x))?;
        }
        Ok(())
    }
    fn hash_fn(&mut self, st: &mut State, algo: u8, sp: u64, bp: u64) -> R<()> {
        let (n, wb, bl) = match algo {
            0 => (8, 4, 64),
            1 => (8, 8, 128),
            _ => (5, 4, 64),
        };
        let s = self.rd_words(st, sp, n, wb, false)?;
        let b = self.rd_be(st, bp, bl)?;
        let o = self.compress(st, algo, s, b)?;
        self.wr_words(st, sp, o, n, wb)
    }
    pub fn next_input(&self, st: &State) -> usize {
        st.inputs.len()
    }
    fn conc_input(&self, st: &State) -> Option<CInp> {
        self.concrete.as_ref().map(|v| v[st.inputs.len()].clone())
    }

    pub fn builtin(&mut self, st: &mut State, name: &str, v: &[Val], args: &[(Ty, O)], rt: &Ty) -> R<Option<Val>> {
        if let Some(x) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, x, v, args, rt);
        }
        if let Some(x) = name.strip_prefix("rustsecp256k1_v0_10_0_") {
            return self.secp(st, x, v);
        }
        match name {
            "slx_bytes" | "slx_generic" => {
                let (p, n) = (self.k(st, &v[0])?, self.k(st, &v[1])?);
                let idx = st.inputs.len() as u32;
                let gen = name == "slx_generic";
                if let Some(ci) = self.conc_input(st) {
                    let b = match ci {
                        CInp::Bytes(b) | CInp::Generic(b) => b,
                        _ => return er("input kind"),
                    };
                    for (i, x) in b.iter().enumerate() {
                        self.store_n(st, p + i as u64, 1, &Val::C(*x as u64))?;
                    }
                    st.inputs.push(Inp::Bytes(b.iter().map(|x| c64(8, *x as u64)).collect()));
                    return Ok(None);
                }
                let mut ts_ = vec![];
                if gen {
                    let t = *self
                        .intab
                        .entry((1, idx, n as u32))
                        .or_insert_with(|| sym(&format!("g{idx}"), n as u32 * 8, Class::GenW));
                    self.wr_be(st, p, t)?;
                    for i in 0..n as u32 {
                        ts_.push(mk_extract(t, (n as u32 - 1 - i) * 8, 8));
                    }
                    st.inputs.push(Inp::Generic(ts_));
                } else {
                    for i in 0..n {
                        let t = *self
                            .intab
                            .entry((0, idx, i as u32))
                            .or_insert_with(|| sym(&format!("b{idx}_{i}"), 8, Class::User));
                        self.store_n(st, p + i, 1, &Val::T(t))?;
                        ts_.push(t);
                    }
                    st.inputs.push(Inp::Bytes(ts_));
                }
                Ok(None)
            }
            "slx_scalar" => {
                let p = self.k(st, &v[0])?;
                let idx = st.inputs.len() as u32;
                if let Some(ci) = self.conc_input(st) {
                    let b = match ci {
                        CInp::Scalar(b) => b,
                        _ => return er("input kind"),
                    };
                    let t = cst(Bv::from_be(&b));
                    self.wr_be(st, p, t)?;
                    st.inputs.push(Inp::Scalar(t));
                    return Ok(None);
                }
                let t = *self.intab.entry((2, idx, 0)).or_insert_with(|| sym(&format!("k{idx}"), 256, Class::Gen));
                self.wr_be(st, p, t)?;
                st.inputs.push(Inp::Scalar(t));
                Ok(None)
            }
            "slx_choice" => {
                let n = self.k(st, &v[0])?;
                let idx = st.inputs.len() as u32;
                if let Some(ci) = self.conc_input(st) {
                    if let CInp::Choice(x) = ci {
                        st.inputs.push(Inp::Choice(x));
                        return c(x as u64);
                    }
                    return er("input kind");
                }
                let t = *self.intab.entry((3, idx, n as u32)).or_insert_with(|| sym(&format!("c{idx}_{n}"), 32, Class::User));
                self.assume(st, mk_ult(t, c64(32, n)))?;
                let x = self.pick(st, &Val::T(t), 32)?;
                if self.shard.1 > 1 {
                    // this process explores the paths whose first two choices fall into its part
                    let prev: Vec<u64> = st.inputs.iter().filter_map(|i| if let Inp::Choice(v) = i { Some(*v as u64) } else { None }).collect();
                    if prev.len() == 1 && (prev[0] * n + x) % self.shard.1 != self.shard.0 {
                        return Err(Stop::Infeasible);
                    }
                }
                st.inputs.push(Inp::Choice(x as u32));
                c(x)
            }
            "slx_assume" => {
                let t = self.tm(&v[0], 1);
                self.assume(st, t)?;
                Ok(None)
            }
            "slx_assert" => {
                let id = self.k(st, &v[1])? as u32;
                self.assert_builtin(st, &v[0], id)?;
                Ok(None)
            }
            "slx_cover" => {
                let id = self.k(st, &v[0])? as u32;
                st.covers.push(id);
                Ok(None)
            }
            "slx_trace" => {
                let (p, n) = (self.k(st, &v[0])?, self.k(st, &v[1])?);
                if n > 0 && self.concrete.is_some() {
                    let t = self.rd_be(st, p, n)?;
                    st.trace.push(t);
                }
                Ok(None)
            }
            "slx_sha256_compress" | "slx_sha512_compress" | "slx_ripemd160_compress" => {
                let (s, b) = (self.k(st, &v[0])?, self.k(st, &v[1])?);
                let al = match name {
                    "slx_sha256_compress" => 0,
                    "slx_sha512_compress" => 1,
                    _ => 2,
                };
                self.hash_fn(st, al, s, b)?;
                Ok(None)
            }
            "slx_rng_u64" => {
                // host randomness: fresh generic value
                let idx = st.inputs.len() as u32;
                let t = *self.intab.entry((4, idx, 0)).or_insert_with(|| sym("rng", 64, Class::Sip));
                Ok(Some(Val::T(t)))
            }
            "malloc" => {
                let n = self.k(st, &v[0])?;
                if n > 1 << 30 {
                    return c(0);
                }
                let a = self.alloc(st, n, true);
                c(a)
            }
            "calloc" => {
                let n = self.k(st, &v[0])?.wrapping_mul(self.k(st, &v[1])?);
                let a = self.alloc(st, n, true);
                c(a)
            }
            "posix_memalign" => {
                let p = self.k(st, &v[0])?;
                let n = self.k(st, &v[2])?;
                let a = self.alloc(st, n, true);
                self.store_n(st, p, 8, &Val::C(a))?;
                c(0)
            }
            "realloc" => {
                let p = self.k(st, &v[0])?;
                let n = self.k(st, &v[1])?;
                let a = self.alloc(st, n, true);
                if p != 0 {
                    let old = st.mem[(p >> 32) as usize].as_ref().map(|o| o.data.len() as u64).unwrap_or(0);
                    self.copy(st, a, p, old.min(n))?;
                    let id = p >> 32;
                    st.mem[id as usize] = None;
                    st.free.push(id);
                }
                c(a)
            }
            "free" => {
                let p = self.k(st, &v[0])?;
                if p != 0 {
                    let id = p >> 32;
                    match st.mem.get(id as usize) {
                        Some(Some(o)) if o.heap => {}
                        _ => return er(format!("invalid free {p:#x}")),
                    }
                    st.mem[id as usize] = None;
                    st.free.push(id);
                }
                Ok(None)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (self.k(st, &v[0])?, self.k(st, &v[1])?, self.k(st, &v[2])?);
                Ok(Some(self.mem_cmp(st, a, b, n, name == "bcmp")?))
            }
            "memcpy" | "memmove" => {
                let (a, b, n) = (self.k(st, &v[0])?, self.k(st, &v[1])?, self.k(st, &v[2])?);
                self.copy(st, a, b, n)?;
                c(a)
            }
            "strlen" => {
                let a = self.k(st, &v[0])?;
                let mut n = 0;
                loop {
                    let x = self.load_n(st, a + n, 1)?;
                    if self.k(st, &x)? == 0 {
                        return c(n);
                    }
                    n += 1;
                }
            }
            "syscall" | "getrandom" => {
                let direct = name == "getrandom";
                let nr = if direct { 318 } else { self.k(st, &v[0])? };
                match nr {
                    318 => {
                        // getrandom
                        let i = if direct { 0 } else { 1 };
                        let (p, n) = (self.k(st, &v[i])?, self.k(st, &v[i + 1])?);
                        let mut i = 0;
                        if st.frames.iter().any(|f| f.f.name.contains("hashmap_random_keys")) {
                            self.wr_be(st, p, cst(Bv::zero(n as u32 * 8)))?;
                            return c(n);
                        }
                        while i < n {
                            let b = (n - i).min(8);
                            let t = *self
                                .intab
                                .entry((5, i as u32, b as u32))
                                .or_insert_with(|| sym(&format!("rnd{i}"), b as u32 * 8, Class::Sip));
                            self.store_n(st, p + i, b, &Val::T(t))?;
                            i += b;
                        }
                        c(n)
                    }
                    202 => c(0), // futex
                    _ => er(format!("syscall {nr}")),
                }
            }
            "getenv" => c(0),
            "zero" => c(0),
            "one" => c(1),
            "nop" => Ok(None),
            "memchr_raw" => er("memchr override"),
            "__errno_location" => {
                let a = self.alloc(st, 4, true);
                c(a)
            }
            "__cxa_thread_atexit_impl" | "__rust_no_alloc_shim_is_unstable_v2" => c(0),
            _ => er(format!("external function {name}")),
        }
    }

    fn intrinsic(&mut self, st: &mut State, x: &str, v: &[Val], args: &[(Ty, O)], rt: &Ty) -> R<Option<Val>> {
        let base = x.split('.').next().unwrap();
        match base {
            "lifetime" | "assume" | "experimental" | "prefetch" | "invariant" | "dbg" | "x86" | "donothing" => {
                if x.starts_with("x86") && x != "x86.sse2.pause" {
                    return er(format!("intrinsic {x}"));
                }
                return Ok(None);
            }
            "memcpy" | "memmove" => {
                let (a, b, n) = (self.k(st, &v[0])?, self.k(st, &v[1])?, self.k(st, &v[2])?);
                self.copy(st, a, b, n)?;
                return Ok(None);
            }
            "memset" => {
                let (a, n) = (self.k(st, &v[0])?, self.k(st, &v[2])?);
                if n > 0 {
                    for i in 0..n {
                        self.store_n(st, a + i, 1, &v[1])?;
                    }
                }
                return Ok(None);
            }
            "is" => return c(0), // is.constant
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "threadlocal" => return Ok(Some(v[0].clone())),
            "expect" => return Ok(Some(v[0].clone())),
            "load" => {
                // load.relative
                let (p, o) = (self.k(st, &v[0])?, self.k(st, &v[1])?);
                let t = self.load_n(st, p.wrapping_add(o), 4)?;
                let d = self.k(st, &t)?;
                return c(p.wrapping_add((d as u32 as i32) as i64 as u64));
            }
            _ => {}
        }
        if let Ty::Vec(n, e) = rt {
            // lane-wise
            let mut out = vec![];
            for i in 0..*n as usize {
                let lv: Vec<Val> = v
                    .iter()
                    .map(|a| match a {
                        Val::A(z) => z[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                let at: Vec<(Ty, O)> = args
                    .iter()
                    .map(|(t, o)| {
                        (
                            match t {
                                Ty::Vec(_, e) => (**e).clone(),
                                t => t.clone(),
                            },
                            o.clone(),
                        )
                    })
                    .collect();
                out.push(self.intrinsic(st, x, &lv, &at, e)?.unwrap());
            }
            return Ok(Some(Val::A(out.into())));
        }
        if x.starts_with("vector.reduce") {
            if let (Val::A(z), Ty::Vec(_, e)) = (&v[0], &args[0].0) {
                let op = match x.split('.').nth(2).unwrap() {
                    "add" => Op::Add,
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    o => return er(format!("reduce {o}")),
                };
                let mut r = z[0].clone();
                for q in &z[1..] {
                    r = self.bin(st, op, e.bits(), &r, q)?;
                }
                return Ok(Some(r));
            }
        }
        let wd = args[0].0.bits();
        let a0 = &v[0];
        let t = |e: &Ex, i: usize| e.tm(&v[i], wd);
        Ok(Some(match base {
            "umax" | "umin" | "smax" | "smin" => {
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let l = self.bin(st, op, wd, a0, &v[1])?;
                let lt = self.tm(&l, 1);
                let (p, q) = (t(self, 0), t(self, 1));
                if base.ends_with("max") {
                    of_term(mk_ite(lt, q, p))
                } else {
                    of_term(mk_ite(lt, p, q))
                }
            }
            "usub" | "uadd" | "umul" | "ssub" | "sadd" | "smul" => {
                if x.contains(".sat") {
                    let (p, q) = (t(self, 0), t(self, 1));
                    match base {
                        "usub" => of_term(mk_ite(mk_ult(p, q), c64(wd, 0), mk_bin(Op::Sub, p, q))),
                        "uadd" => {
                            let s = mk_bin(Op::Add, p, q);
                            of_term(mk_ite(mk_ult(s, p), cst(Bv::ones(wd)), s))
                        }
                        _ => return er(format!("intrinsic {x}")),
                    }
                } else {
                    let (p, q) = (t(self, 0), t(self, 1));
                    let (r, o) = match base {
                        "uadd" => {
                            let s = mk_bin(Op::Add, p, q);
                            (s, mk_ult(s, p))
                        }
                        "usub" => (mk_bin(Op::Sub, p, q), mk_ult(p, q)),
                        "umul" => {
                            let s = mk_bin(Op::Mul, mk_zext(p, 2 * wd), mk_zext(q, 2 * wd));
                            (mk_extract(s, 0, wd), mk_not(mk_eq(mk_extract(s, wd, wd), cst(Bv::zero(wd)))))
                        }
                        _ => {
                            let op = match base {
                                "sadd" => Op::Add,
                                "ssub" => Op::Sub,
                                _ => Op::Mul,
                            };
                            let s = mk_bin(op, mk_sext(p, 2 * wd), mk_sext(q, 2 * wd));
                            let r = mk_extract(s, 0, wd);
                            (r, mk_not(mk_eq(mk_sext(r, 2 * wd), s)))
                        }
                    };
                    Val::A(vec![of_term(r), of_term(o)].into())
                }
            }
            "ctlz" | "cttz" | "ctpop" => {
                let p = t(self, 0);
                let p = if taint(p) { let z = self.concretize(st, p)?; c64(wd, z) } else { self.simp(st, p) };
                if let Some(b) = as_const(p) {
                    let r = match base {
                        "ctlz" => (0..wd).take_while(|i| !b.bit(wd - 1 - i)).count(),
                        "cttz" => (0..wd).take_while(|i| !b.bit(*i)).count(),
                        _ => (0..wd).filter(|i| b.bit(*i)).count(),
                    };
                    return c(r as u64);
                }
                match base {
                    "ctpop" => {
                        let mut r = c64(wd, 0);
                        for i in 0..wd {
                            r = mk_bin(Op::Add, r, mk_zext(mk_extract(p, i, 1), wd));
                        }
                        of_term(r)
                    }
                    _ => {
                        let mut r = c64(wd, wd as u64);
                        for i in 0..wd {
                            let (bit, n) = if base == "ctlz" { (i, wd - 1 - i) } else { (wd - 1 - i, wd - 1 - i) };
                            r = mk_ite(mk_extract(p, bit, 1), c64(wd, n as u64), r);
                        }
                        of_term(r)
                    }
                }
            }
            "bswap" => of_term(bswap(t(self, 0))),
            "bitreverse" => {
                let p = t(self, 0);
                let parts: Vec<T> = (0..wd).map(|i| mk_extract(p, i, 1)).collect();
                of_term(mk_concat(&parts))
            }
            "abs" => {
                let p = t(self, 0);
                of_term(mk_ite(mk_extract(p, wd - 1, 1), mk_bin(Op::Sub, c64(wd, 0), p), p))
            }
            "fshl" | "fshr" => {
                let s = self.k(st, &v[2])? as u32 % wd;
                let (p, q) = (t(self, 0), t(self, 1));
                let cc = mk_concat(&[p, q]);
                if base == "fshl" {
                    of_term(mk_extract(cc, wd - s, wd))
                } else {
                    of_term(mk_extract(cc, s, wd))
                }
            }
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = rt.bits();
                let l = self.bin(st, op, wd, a0, &v[1])?;
                let e = self.bin(st, Op::Eq, wd, a0, &v[1])?;
                let (l, e) = (self.tm(&l, 1), self.tm(&e, 1));
                of_term(mk_ite(e, c64(rw, 0), mk_ite(l, c64(rw, mask64(rw)), c64(rw, 1))))
            }
            _ => return er(format!("intrinsic {x}")),
        }))
    }

    fn secp(&mut self, st: &mut State, name: &str, v: &[Val]) -> R<Option<Val>> {
        self.cur_loc = st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
        let mut p = vec![];
        for x in v {
            p.push(self.k(st, x)?);
        }
        match name {
            "context_preallocated_size" | "context_preallocated_clone_size" => c(208),
            "context_preallocated_create" => c(p[0]),
            "context_preallocated_clone" => c(p[1]),
            "context_preallocated_destroy" => Ok(None),
            "context_randomize" => c(1),
            "ec_seckey_verify" => {
                let t = self.scalar_at(st, p[1])?;
                let ok = self.sc_ok(st, t, false)?;
                c(ok as u64)
            }
            "ec_seckey_negate" => {
                let t = self.scalar_at(st, p[1])?;
                if !self.sc_ok(st, t, false)? {
                    return c(0);
                }
                let q = self.cr.poly(t).neg();
                let r = self.cr.scalar(&q);
                self.wr_be(st, p[1], r)?;
                c(1)
            }
            "ec_seckey_tweak_add" | "ec_seckey_tweak_mul" => {
                let mul = name.ends_with("mul");
                let a = self.scalar_at(st, p[1])?;
                let b = self.scalar_at(st, p[2])?;
                let ok = self.sc_ok(st, a, false)? && self.sc_ok(st, b, !mul)?;
                if !ok {
                    self.wr_be(st, p[1], cst(Bv::zero(256)))?;
                    return c(0);
                }
                let (x, y) = (self.cr.poly(a), self.cr.poly(b));
                let q = if mul { x.mul(&y) } else { x.add(&y) };
                self.cr.ops += 1;
                let r = self.cr.scalar(&q);
                self.wr_be(st, p[1], r)?;
                c(!q.is_zero() as u64)
            }
            "ec_pubkey_create" => {
                let a = self.scalar_at(st, p[2])?;
                if !self.sc_ok(st, a, false)? {
                    self.store_n(st, p[1], 64, &of_term(cst(Bv::zero(512))))?;
                    return c(0);
                }
                let q = self.cr.poly(a);
                self.cr.ops += 1;
                self.put_point(st, p[1], &q)?;
                c(1)
            }
            "ec_pubkey_parse" => {
                let n = p[3];
                if n != 33 && n != 65 {
                    return c(0);
                }
                let t = self.rd_be(st, p[2], n)?;
                if let Some(b) = as_const(t) {
                    return match self.cr.real_parse(&b.to_be()) {
                        Some(b) => {
                            let q = self.cr.poly_of_bytes(b);
                            self.put_point(st, p[1], &q)?;
                            c(1)
                        }
                        None => c(0),
                    };
                }
                let t = self.split_ite(st, t)?;
                let pre = mk_extract(t, n as u32 * 8 - 8, 8);
                if n == 65 {
                    let y = mk_extract(t, 0, 256);
                    let x = mk_extract(t, 256, 256);
                    let four = mk_eq(pre, c64(8, 4));
                    if !self.decide(st, four)? {
                        // hybrid form: the parity is in the header too
                        let h = mk_and(mk_eq(mk_extract(pre, 1, 7), c64(7, 3)), mk_eq(mk_extract(pre, 0, 1), mk_extract(y, 0, 1)));
                        if !self.decide(st, h)? {
                            return c(0);
                        }
                    }
                    return match self.lift(st, x)? {
                        Some(q) => {
                            for q in [q.clone(), q.neg()] {
                                let ty = self.cr.y_term(&q);
                                let e = mk_eq(y, ty);
                                if self.decide(st, e)? {
                                    self.put_point(st, p[1], &q)?;
                                    return c(1);
                                }
                            }
                            c(0)
                        }
                        None => c(0),
                    };
                }
                let ok = mk_eq(mk_extract(pre, 1, 7), c64(7, 1));
                if !self.decide(st, ok)? {
                    return c(0);
                }
                let odd = mk_extract(pre, 0, 1);
                let x = mk_extract(t, 0, 256);
                // a serialization of a point we know: no need to decide its parity
                if as_const(x).is_none() && !self.cr.lift.contains_key(&x) {
                    if let Some((q, pt)) = self.cr.with_x(x) {
                        let same = mk_eq(pt.odd, odd);
                        let q = if self.decide(st, same)? { q } else { q.neg() };
                        self.put_point(st, p[1], &q)?;
                        return c(1);
                    }
                }
                let odd = self.decide(st, odd)?;
                if let Some(b) = as_const(x) {
                    let mut s = vec![2 + odd as u8];
                    s.extend(b.to_be());
                    return match self.cr.real_parse(&s) {
                        Some(b) => {
                            let q = self.cr.poly_of_bytes(b);
                            self.put_point(st, p[1], &q)?;
                            c(1)
                        }
                        None => c(0),
                    };
                }
                match self.lift(st, x)? {
                    Some(q) => {
                        let q = if odd { q.neg() } else { q };
                        self.put_point(st, p[1], &q)?;
                        c(1)
                    }
                    None => c(0),
                }
            }
            "ec_pubkey_serialize" => {
                // ctx, out, outlen*, pk, flags
                let q = self.poly_at(st, p[3])?;
                let pt = self.cr.pt(&q);
                let comp = p[4] & 0x100 != 0;
                if comp {
                    let t = mk_concat(&[c64(7, 1), pt.odd, pt.x]);
                    let t = self.simp(st, t);
                    self.wr_be(st, p[1], t)?;
                    self.store_n(st, p[2], 8, &Val::C(33))?;
                } else {
                    let y = self.cr.y_term(&q);
                    let t = mk_concat(&[c64(8, 4), pt.x, y]);
                    self.wr_be(st, p[1], t)?;
                    self.store_n(st, p[2], 8, &Val::C(65))?;
                }
                c(1)
            }
            "ec_pubkey_cmp" | "xonly_pubkey_cmp" => {
                let (a, b) = if name.starts_with("xonly") {
                    (self.poly_x_at(st, p[1])?, self.poly_x_at(st, p[2])?)
                } else {
                    (self.poly_at(st, p[1])?, self.poly_at(st, p[2])?)
                };
                if a == b || name.starts_with("xonly") && a == b.neg() {
                    return c(0);
                }
                let (x, y) = (self.cr.pt(&a), self.cr.pt(&b));
                let (s, t) = if name.starts_with("xonly") {
                    (x.x, y.x)
                } else {
                    (mk_concat(&[c64(7, 1), x.odd, x.x]), mk_concat(&[c64(7, 1), y.odd, y.x]))
                };
                let (s, t) = (self.simp(st, s), self.simp(st, t));
                let eq = mk_eq(s, t);
                let eq = self.simp(st, eq);
                if is_false(eq) && (as_const(s).is_none() || as_const(t).is_none()) {
                    // order of unrelated points: fixed, arbitrary
                    let (s, t) = if name.starts_with("xonly") { (x.x, y.x) } else { (x.opaque, y.opaque) };
                    return c(if shadow(s, 0) < shadow(t, 0) { 0xffff_ffff } else { 1 });
                }
                let lt = mk_ult(s, t);
                Ok(Some(of_term(mk_ite(eq, c64(32, 0), mk_ite(lt, c64(32, 0xffff_ffff), c64(32, 1))))))
            }
            "ec_pubkey_combine" => {
                let n = p[3];
                let mut ps = vec![];
                for i in 0..n {
                    let ptr = self.load_n(st, p[2] + 8 * i, 8)?;
                    let ptr = self.k(st, &ptr)?;
                    ps.push(self.poly_at(st, ptr)?);
                }
                match self.cr.combine(&ps) {
                    Some(q) => {
                        self.put_point(st, p[1], &q)?;
                        c(1)
                    }
                    None => {
                        self.store_n(st, p[1], 64, &of_term(cst(Bv::zero(512))))?;
                        c(0)
                    }
                }
            }
            "ec_pubkey_negate" => {
                let q = self.poly_at(st, p[1])?.neg();
                self.put_point(st, p[1], &q)?;
                c(1)
            }
            "ec_pubkey_tweak_add" | "ec_pubkey_tweak_mul" => {
                let mul = name.ends_with("mul");
                let q = self.poly_at(st, p[1])?;
                let t = self.scalar_at(st, p[2])?;
                if !self.sc_ok(st, t, !mul)? {
                    self.store_n(st, p[1], 64, &of_term(cst(Bv::zero(512))))?;
                    return c(0);
                }
                let k = self.cr.poly(t);
                match self.cr.tweak(&q, &k, mul) {
                    Some(r) => {
                        self.put_point(st, p[1], &r)?;
                        c(1)
                    }
                    None => {
                        self.store_n(st, p[1], 64, &of_term(cst(Bv::zero(512))))?;
                        c(0)
                    }
                }
            }
            "xonly_pubkey_parse" => {
                let x = self.rd_be(st, p[2], 32)?;
                let x = self.split_ite(st, x)?;
                if as_const(x).is_none() && !self.cr.lift.contains_key(&x) && !st.onx.iter().any(|y| y.0 == x) {
                    if let Some((q, _)) = self.cr.with_x(x) {
                        self.put_even(st, p[1], &q)?;
                        return c(1);
                    }
                }
                match self.lift(st, x)? {
                    Some(q) => {
                        self.put_point(st, p[1], &q)?;
                        c(1)
                    }
                    None => {
                        self.store_n(st, p[1], 64, &of_term(cst(Bv::zero(512))))?;
                        c(0)
                    }
                }
            }
            "xonly_pubkey_serialize" => {
                let q = self.poly_x_at(st, p[2])?;
                let pt = self.cr.pt(&q);
                self.wr_be(st, p[1], pt.x)?;
                c(1)
            }
            "xonly_pubkey_from_pubkey" => {
                // ctx, out, parity*, pubkey
                let q = self.poly_at(st, p[3])?;
                let odd = self.put_even(st, p[1], &q)?;
                if p[2] != 0 {
                    self.store_n(st, p[2], 4, &of_term(mk_zext(odd, 32)))?;
                }
                c(1)
            }
            "xonly_pubkey_tweak_add" => {
                let q = self.poly_at(st, p[2])?;
                let t = self.scalar_at(st, p[3])?;
                if !self.sc_ok(st, t, true)? {
                    return c(0);
                }
                let k = self.cr.poly(t);
                match self.cr.tweak(&q, &k, false) {
                    Some(r) => {
                        self.put_point(st, p[1], &r)?;
                        c(1)
                    }
                    None => c(0),
                }
            }
            "xonly_pubkey_tweak_add_check" => {
                // ctx, tweaked32, parity, internal, tweak32
                let x = self.rd_be(st, p[1], 32)?;
                let q = self.poly_at(st, p[3])?;
                let t = self.scalar_at(st, p[4])?;
                if !self.sc_ok(st, t, true)? {
                    return c(0);
                }
                let k = self.cr.poly(t);
                match self.cr.tweak(&q, &k, false) {
                    Some(r) => {
                        let pt = self.cr.pt(&r);
                        let e = mk_and(mk_eq(pt.x, x), mk_eq(pt.odd, c64(1, p[2] & 1)));
                        Ok(Some(of_term(mk_zext(e, 32))))
                    }
                    None => c(0),
                }
            }
            "keypair_create" => {
                let a = self.scalar_at(st, p[2])?;
                if !self.sc_ok(st, a, false)? {
                    return c(0);
                }
                let q = self.cr.poly(a);
                self.wr_be(st, p[1], a)?;
                self.put_point(st, p[1] + 32, &q)?;
                c(1)
            }
            "keypair_sec" => {
                self.copy(st, p[1], p[2], 32)?;
                c(1)
            }
            "keypair_pub" => {
                self.copy(st, p[1], p[2] + 32, 64)?;
                c(1)
            }
            "keypair_xonly_pub" => {
                // ctx, out, parity*, keypair
                let q = self.poly_at(st, p[3] + 32)?;
                let odd = self.put_even(st, p[1], &q)?;
                if p[2] != 0 {
                    self.store_n(st, p[2], 4, &of_term(mk_zext(odd, 32)))?;
                }
                c(1)
            }
            "keypair_xonly_tweak_add" => {
                let q = self.poly_at(st, p[1] + 32)?;
                let t = self.scalar_at(st, p[2])?;
                if !self.sc_ok(st, t, true)? {
                    return c(0);
                }
                let k = self.cr.poly(t);
                let (e, _) = self.even(st, &q)?;
                let r = e.add(&k);
                if r.is_zero() {
                    return c(0);
                }
                let s = self.cr.scalar(&r);
                self.wr_be(st, p[1], s)?;
                self.put_point(st, p[1] + 32, &r)?;
                c(1)
            }
            "ecdh" => {
                // ctx, output, pubkey, seckey, hashfp, data
                let q = self.poly_at(st, p[2])?;
                let t = self.scalar_at(st, p[3])?;
                if !self.sc_ok(st, t, false)? {
                    return c(0);
                }
                let k = self.cr.poly(t);
                let r = match self.cr.tweak(&q, &k, true) {
                    Some(r) => r,
                    None => return c(0),
                };
                let pt = self.cr.pt(&r);
                if p[4] == 0 {
                    let u = self.cr.uf(200, vec![pt.x, pt.odd], 256, Class::Gen);
                    self.wr_be(st, p[1], u)?;
                } else {
                    // the crate's callback copies x || y
                    let y = self.cr.y_term(&r);
                    let tt = mk_concat(&[pt.x, y]);
                    self.wr_be(st, p[1], tt)?;
                }
                c(1)
            }
            "schnorrsig_sign" | "schnorrsig_sign_custom" => {
                // sign: ctx, sig, msg32, keypair, aux ; custom: ctx, sig, msg, len, keypair, extra
                let (n, kp, aux) = if name.ends_with("custom") { (p[3], p[4], 0) } else { (32, p[3], p[4]) };
                let q = self.poly_at(st, kp + 32)?;
                let (e, _) = self.even(st, &q)?;
                let msg = self.rd_bytes(st, p[2], n)?;
                let msg: Vec<T> = msg.into_iter().map(|t| self.simp(st, t)).collect();
                let sk = self.rd_be(st, kp, 32)?;
                let mc: Option<Vec<u8>> = msg.iter().map(|t| as_const(*t).map(|b| b.byte(0))).collect();
                if let (Some(m), Some(k)) = (mc, as_const(sk)) {
                    if m.len() == 32 {
                        let kb: [u8; 32] = k.to_be().try_into().unwrap();
                        let auxb: Option<Vec<u8>> = if aux == 0 {
                            None
                        } else {
                            self.rd_bytes(st, aux, 32)?.iter().map(|t| as_const(*t).map(|b| b.byte(0))).collect()
                        };
                        let s = self.cr.real_sign(&m, &kb, auxb.as_ref().map_or(std::ptr::null(), |b| b.as_ptr()));
                        let t = cst(Bv::from_be(&s));
                        self.wr_be(st, p[1], t)?;
                        return c(1);
                    }
                }
                let t = self.cr.sign(&e, msg);
                self.wr_be(st, p[1], t)?;
                c(1)
            }
            "schnorrsig_verify" => {
                // ctx, sig, msg, len, xonly
                let q = self.poly_at(st, p[4])?;
                let s = self.rd_be(st, p[1], 64)?;
                let msg = self.rd_bytes(st, p[2], p[3])?;
                let msg: Vec<T> = msg.into_iter().map(|t| self.simp(st, t)).collect();
                let pt = self.cr.pt(&q);
                let mc: Option<Vec<u8>> = msg.iter().map(|t| as_const(*t).map(|b| b.byte(0))).collect();
                if let (Some(sb), Some(m), Some(x)) = (as_const(s), mc, as_const(pt.x)) {
                    let sb: [u8; 64] = sb.to_be().try_into().unwrap();
                    let xb: [u8; 32] = x.to_be().try_into().unwrap();
                    return c(self.cr.real_verify(&sb, &m, &xb) as u64);
                }
                match self.cr.sig_info(s) {
                    Some((e, m)) => {
                        if e != q && e.neg() != q {
                            return c(0);
                        }
                        if m.len() != msg.len() {
                            return c(0);
                        }
                        let mut r = tt();
                        for (a, b) in m.iter().zip(&msg) {
                            r = mk_and(r, mk_eq(*a, *b));
                        }
                        Ok(Some(of_term(mk_zext(r, 32))))
                    }
                    None => c(0), // unforgeability
                }
            }
            _ => er(format!("secp256k1 function {name}")),
        }
    }
}

pub fn bswap(t: T) -> T {
    let n = w(t) / 8;
    let parts: Vec<T> = (0..n).map(|i| mk_extract(t, 8 * i, 8)).collect();
    mk_concat(&parts)
}

#[allow(dead_code)]
fn unused(_: U256) {}
