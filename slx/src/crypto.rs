//! secp256k1 in the generic-group abstraction: scalars are polynomials modulo the group order over
//! atoms, points are discrete-log polynomials; fully concrete operations run the real library.
use crate::bv::Bv;
use crate::term::*;
use secp256k1_sys as ffi;
use std::collections::{BTreeMap, HashMap};

pub type U256 = [u64; 4]; // little-endian limbs

const N: U256 = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF];
// 2^256 - n
const NC: U256 = [0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0];

pub fn from_bv(b: &Bv) -> U256 {
    [b.l[0], b.l[1], b.l[2], b.l[3]]
}
pub fn to_bv(a: &U256) -> Bv {
    Bv { w: 256, l: a.to_vec() }
}
fn lt(a: &U256, b: &U256) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn add_raw(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    (r, c != 0)
}
fn sub_raw(a: &U256, b: &U256) -> U256 {
    let mut r = [0; 4];
    let mut bo = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bo as u64);
        r[i] = y;
        bo = b1 || b2;
    }
    r
}
pub fn addn(a: &U256, b: &U256) -> U256 {
    let (r, c) = add_raw(a, b);
    if c || !lt(&r, &N) {
        sub_raw(&r, &N)
    } else {
        r
    }
}
pub fn negn(a: &U256) -> U256 {
    if *a == [0; 4] {
        *a
    } else {
        sub_raw(&N, a)
    }
}
pub fn muln(a: &U256, b: &U256) -> U256 {
    let mut t = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
            t[i + j] = s as u64;
            c = s >> 64;
        }
        t[i + 4] = c as u64;
    }
    // fold the high part: hi * 2^256 = hi * NC
    while t[4..].iter().any(|x| *x != 0) {
        let hi = [t[4], t[5], t[6], t[7]];
        let mut r = [t[0], t[1], t[2], t[3], 0, 0, 0, 0];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                if i + j >= 8 {
                    break;
                }
                let s = r[i + j] as u128 + hi[i] as u128 * NC[j] as u128 + c;
                r[i + j] = s as u64;
                c = s >> 64;
            }
            let mut k = i + 4;
            while c != 0 && k < 8 {
                let s = r[k] as u128 + c;
                r[k] = s as u64;
                c = s >> 64;
                k += 1;
            }
        }
        t = r;
    }
    let mut r = [t[0], t[1], t[2], t[3]];
    while !lt(&r, &N) {
        r = sub_raw(&r, &N);
    }
    r
}

pub type Mono = Vec<(u32, u32)>;
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Poly(pub BTreeMap<Mono, U256>);

impl Poly {
    pub fn konst(k: U256) -> Poly {
        let mut m = BTreeMap::new();
        if k != [0; 4] {
            m.insert(vec![], k);
        }
        Poly(m)
    }
    pub fn var(v: u32) -> Poly {
        let mut m = BTreeMap::new();
        m.insert(vec![(v, 1)], [1, 0, 0, 0]);
        Poly(m)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            let x = addn(r.get(m).unwrap_or(&[0; 4]), c);
            if x == [0; 4] {
                r.remove(m);
            } else {
                r.insert(m.clone(), x);
            }
        }
        Poly(r)
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), negn(c))).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly(BTreeMap::new());
        for (m1, c1) in &self.0 {
            let mut part = BTreeMap::new();
            for (m2, c2) in &o.0 {
                let mut e: BTreeMap<u32, u32> = m1.iter().cloned().collect();
                for (v, k) in m2 {
                    *e.entry(*v).or_insert(0) += k;
                }
                part.insert(e.into_iter().collect::<Mono>(), muln(c1, c2));
            }
            r = r.add(&Poly(part));
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<U256> {
        if self.0.is_empty() {
            return Some([0; 4]);
        }
        if self.0.len() == 1 {
            if let Some(c) = self.0.get(&vec![]) {
                return Some(*c);
            }
        }
        None
    }
    pub fn as_var(&self) -> Option<u32> {
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.len() == 1 && m[0].1 == 1 && *c == [1, 0, 0, 0] {
                return Some(m[0].0);
            }
        }
        None
    }
    /// (canonical representative of {p,-p}, is p the negated one)
    pub fn canon(&self) -> (Poly, bool) {
        let (_, c) = self.0.iter().next().expect("nonzero");
        let n = negn(c);
        if lt(&n, c) {
            (self.neg(), true)
        } else {
            (self.clone(), false)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pt {
    pub opaque: T, // 512 bits, little-endian memory image
    pub x: T,      // 256 bits, big-endian value
    pub odd: T,    // 1 bit
}

pub struct Crypto {
    ctx: *mut ffi::Context,
    _buf: Vec<u128>,
    pub vars: Vec<T>,              // var -> scalar term (256)
    var_of: HashMap<T, u32>,       // scalar term -> var
    poly_of: HashMap<T, Poly>,     // derived scalar term -> poly
    term_of: HashMap<Poly, T>,     // poly -> derived scalar term
    pts: HashMap<Poly, Pt>,        // exact poly -> point data
    by_opaque: HashMap<T, Poly>,   // opaque atom -> poly
    by_bytes: HashMap<[u8; 64], Poly>,
    pub lift: HashMap<T, Poly>,    // x term -> dlog poly of its even lift
    sigs: HashMap<T, (Poly, Vec<T>)>, // signature atom -> (even dlog poly, message bytes)
    sig_of: HashMap<(Poly, Vec<T>), T>,
    pub ys: HashMap<Poly, T>,
    uf: HashMap<(u32, Vec<T>), T>,
    pub ops: u64,
    pub real_ops: u64,
}

pub fn bytes_le(b: &[u8; 64]) -> T {
    cst(Bv::from_le(b))
}

impl Crypto {
    pub fn new() -> Crypto {
        unsafe {
            let flags = ffi::SECP256K1_START_SIGN | ffi::SECP256K1_START_VERIFY;
            let sz = ffi::secp256k1_context_preallocated_size(flags);
            let mut buf = vec![0u128; sz / 16 + 2];
            let p = std::ptr::NonNull::new(buf.as_mut_ptr() as *mut ffi::types::c_void).unwrap();
            let ctx = ffi::secp256k1_context_preallocated_create(p, flags).as_ptr();
            Crypto {
                ctx,
                _buf: buf,
                vars: vec![],
                var_of: HashMap::new(),
                poly_of: HashMap::new(),
                term_of: HashMap::new(),
                pts: HashMap::new(),
                by_opaque: HashMap::new(),
                by_bytes: HashMap::new(),
                lift: HashMap::new(),
                sigs: HashMap::new(),
                sig_of: HashMap::new(),
                ys: HashMap::new(),
                uf: HashMap::new(),
                ops: 0,
                real_ops: 0,
            }
        }
    }
    fn new_var(&mut self, t: T) -> u32 {
        let v = self.vars.len() as u32;
        self.vars.push(t);
        self.var_of.insert(t, v);
        v
    }
    /// is this term usable as a scalar without a range decision?
    pub fn scalar_known(&self, t: T) -> bool {
        if as_const(t).is_some() || self.poly_of.contains_key(&t) || self.var_of.contains_key(&t) {
            return true;
        }
        if let K::Sym(i) = kind(t) {
            return ts().syms[i as usize].class == Class::Gen && w(t) == 256;
        }
        false
    }
    /// polynomial of a scalar term (must be in range)
    pub fn poly(&mut self, t: T) -> Poly {
        if let Some(b) = as_const(t) {
            return Poly::konst(from_bv(b));
        }
        if let Some(p) = self.poly_of.get(&t) {
            return p.clone();
        }
        if let Some(v) = self.var_of.get(&t) {
            return Poly::var(*v);
        }
        let v = self.new_var(t);
        Poly::var(v)
    }
    /// scalar term of a polynomial
    pub fn scalar(&mut self, p: &Poly) -> T {
        if let Some(k) = p.as_const() {
            return cst(to_bv(&k));
        }
        if let Some(v) = p.as_var() {
            return self.vars[v as usize];
        }
        if let Some(t) = self.term_of.get(p) {
            return *t;
        }
        let t = sym(&format!("s{}", self.term_of.len()), 256, Class::Gen);
        self.term_of.insert(p.clone(), t);
        self.poly_of.insert(t, p.clone());
        t
    }
    // ---- real library
    pub fn real_create(&mut self, sk: &[u8; 32]) -> [u8; 64] {
        self.real_ops += 1;
        unsafe {
            let mut pk = ffi::PublicKey::new();
            let r = ffi::secp256k1_ec_pubkey_create(self.ctx, &mut pk, sk.as_ptr());
            assert_eq!(r, 1);
            pk.underlying_bytes()
        }
    }
    pub fn real_parse(&mut self, b: &[u8]) -> Option<[u8; 64]> {
        self.real_ops += 1;
        unsafe {
            let mut pk = ffi::PublicKey::new();
            let r = ffi::secp256k1_ec_pubkey_parse(self.ctx, &mut pk, b.as_ptr(), b.len());
            if r == 1 {
                Some(pk.underlying_bytes())
            } else {
                None
            }
        }
    }
    pub fn real_ser(&mut self, pk: &[u8; 64], compressed: bool) -> Vec<u8> {
        unsafe {
            let pk = ffi::PublicKey::from_array_unchecked(*pk);
            let mut out = [0u8; 65];
            let mut n = if compressed { 33usize } else { 65 };
            let f = if compressed { ffi::SECP256K1_SER_COMPRESSED } else { ffi::SECP256K1_SER_UNCOMPRESSED };
            ffi::secp256k1_ec_pubkey_serialize(self.ctx, out.as_mut_ptr(), &mut n, &pk, f);
            out[..n].to_vec()
        }
    }
    fn real_combine(&mut self, ps: &[[u8; 64]]) -> Option<[u8; 64]> {
        self.real_ops += 1;
        unsafe {
            let v: Vec<ffi::PublicKey> = ps.iter().map(|p| ffi::PublicKey::from_array_unchecked(*p)).collect();
            let r: Vec<*const ffi::PublicKey> = v.iter().map(|p| p as *const _).collect();
            let mut out = ffi::PublicKey::new();
            if ffi::secp256k1_ec_pubkey_combine(self.ctx, &mut out, r.as_ptr(), r.len() as _) == 1 {
                Some(out.underlying_bytes())
            } else {
                None
            }
        }
    }
    fn real_tweak(&mut self, p: &[u8; 64], k: &[u8; 32], mul: bool) -> Option<[u8; 64]> {
        self.real_ops += 1;
        unsafe {
            let mut v = ffi::PublicKey::from_array_unchecked(*p);
            let r = if mul {
                ffi::secp256k1_ec_pubkey_tweak_mul(self.ctx, &mut v, k.as_ptr())
            } else {
                ffi::secp256k1_ec_pubkey_tweak_add(self.ctx, &mut v, k.as_ptr())
            };
            if r == 1 {
                Some(v.underlying_bytes())
            } else {
                None
            }
        }
    }
    pub fn real_sign(&mut self, msg: &[u8], sk: &[u8; 32], aux: *const u8) -> [u8; 64] {
        self.real_ops += 1;
        unsafe {
            let mut kp = ffi::Keypair::new();
            assert_eq!(ffi::secp256k1_keypair_create(self.ctx, &mut kp, sk.as_ptr()), 1);
            let mut sig = [0u8; 64];
            if msg.len() == 32 {
                ffi::secp256k1_schnorrsig_sign(self.ctx, sig.as_mut_ptr(), msg.as_ptr(), &kp, aux);
            } else {
                panic!("schnorr message length");
            }
            sig
        }
    }
    pub fn real_verify(&mut self, sig: &[u8; 64], msg: &[u8], x: &[u8; 32]) -> bool {
        self.real_ops += 1;
        unsafe {
            let mut pk = ffi::XOnlyPublicKey::new();
            if ffi::secp256k1_xonly_pubkey_parse(self.ctx, &mut pk, x.as_ptr()) != 1 {
                return false;
            }
            ffi::secp256k1_schnorrsig_verify(self.ctx, sig.as_ptr(), msg.as_ptr(), msg.len(), &pk) == 1
        }
    }
    // ---- points
    fn reg_bytes(&mut self, p: &Poly, b: [u8; 64]) -> Pt {
        let s = self.real_ser(&b, true);
        let pt = Pt {
            opaque: bytes_le(&b),
            x: cst(Bv::from_be(&s[1..33])),
            odd: c64(1, (s[0] & 1) as u64),
        };
        self.by_bytes.insert(b, p.clone());
        self.by_opaque.insert(pt.opaque, p.clone());
        self.pts.insert(p.clone(), pt.clone());
        // the opposite point
        let mut s2 = s.clone();
        s2[0] ^= 1;
        if let Some(nb) = self.real_parse(&s2) {
            let np = p.neg();
            let npt = Pt { opaque: bytes_le(&nb), x: pt.x, odd: mk_not(pt.odd) };
            self.by_bytes.insert(nb, np.clone());
            self.by_opaque.insert(npt.opaque, np.clone());
            self.pts.insert(np, npt);
        }
        pt
    }
    /// point data for a (non-zero) dlog polynomial
    pub fn pt(&mut self, p: &Poly) -> Pt {
        if let Some(x) = self.pts.get(p) {
            return x.clone();
        }
        if let Some(k) = p.as_const() {
            let sk: [u8; 32] = to_bv(&k).to_be().try_into().unwrap();
            let b = self.real_create(&sk);
            return self.reg_bytes(p, b);
        }
        let (c, neg) = p.canon();
        let n = self.pts.len();
        let (x, odd) = match self.pts.get(&p.neg()) {
            Some(q) => (q.x, mk_not(q.odd)),
            None => {
                let x = sym(&format!("X{n}"), 256, Class::GenW);
                let o = sym(&format!("odd{n}"), 1, Class::Odd);
                let even_if_o_zero = c.clone();
                let _ = even_if_o_zero;
                (x, if neg { mk_not(o) } else { o })
            }
        };
        let op = sym(&format!("P{n}"), 512, Class::GenW);
        let pt = Pt { opaque: op, x, odd };
        self.pts.insert(p.clone(), pt.clone());
        self.by_opaque.insert(op, p.clone());
        pt
    }
    /// dlog polynomial for an opaque 64-byte memory image
    pub fn of_opaque(&mut self, t: T) -> Result<Poly, String> {
        if let Some(p) = self.by_opaque.get(&t) {
            return Ok(p.clone());
        }
        if let Some(b) = as_const(t) {
            let mut a = [0u8; 64];
            for i in 0..64 {
                a[i] = b.byte(i);
            }
            return Ok(self.poly_of_bytes(a));
        }
        Err(format!("unknown point image {}", show(t, 4)))
    }
    pub fn poly_of_bytes(&mut self, b: [u8; 64]) -> Poly {
        if let Some(p) = self.by_bytes.get(&b) {
            return p.clone();
        }
        // concrete point of unknown discrete log
        let d = sym(&format!("dl{}", self.vars.len()), 256, Class::Gen);
        let v = self.new_var(d);
        let p = Poly::var(v);
        self.reg_bytes(&p, b);
        p
    }
    fn img(&self, p: &Poly) -> Option<[u8; 64]> {
        let pt = self.pts.get(p)?;
        let b = as_const(pt.opaque)?;
        let mut a = [0u8; 64];
        for i in 0..64 {
            a[i] = b.byte(i);
        }
        Some(a)
    }
    /// sum of points given by polys; None if the sum is the point at infinity
    pub fn combine(&mut self, ps: &[Poly]) -> Option<Poly> {
        self.ops += 1;
        let mut s = Poly::konst([0; 4]);
        for p in ps {
            s = s.add(p);
        }
        if s.is_zero() {
            return None;
        }
        if !self.pts.contains_key(&s) && s.as_const().is_none() {
            let im: Option<Vec<_>> = ps.iter().map(|p| self.img(p)).collect();
            if let Some(im) = im {
                let b = self.real_combine(&im)?;
                self.reg_bytes(&s, b);
            }
        }
        Some(s)
    }
    pub fn tweak(&mut self, p: &Poly, k: &Poly, mul: bool) -> Option<Poly> {
        self.ops += 1;
        let s = if mul { p.mul(k) } else { p.add(k) };
        if s.is_zero() {
            return None;
        }
        if !self.pts.contains_key(&s) && s.as_const().is_none() {
            if let (Some(im), Some(kc)) = (self.img(p), k.as_const()) {
                let kb: [u8; 32] = to_bv(&kc).to_be().try_into().unwrap();
                let b = self.real_tweak(&im, &kb, mul)?;
                self.reg_bytes(&s, b);
            }
        }
        Some(s)
    }
    /// the even-y point with symbolic x coordinate `x` (caller decided that x is on the curve)
    pub fn lift_term(&mut self, x: T) -> Poly {
        if let Some(p) = self.lift.get(&x) {
            return p.clone();
        }
        let d = sym(&format!("dlx{}", self.vars.len()), 256, Class::Gen);
        let v = self.new_var(d);
        let p = Poly::var(v);
        let n = self.pts.len();
        let o1 = sym(&format!("P{n}"), 512, Class::GenW);
        let o2 = sym(&format!("P{}", n + 1), 512, Class::GenW);
        self.pts.insert(p.clone(), Pt { opaque: o1, x, odd: ff() });
        self.by_opaque.insert(o1, p.clone());
        let np = p.neg();
        self.pts.insert(np.clone(), Pt { opaque: o2, x, odd: tt() });
        self.by_opaque.insert(o2, np);
        self.lift.insert(x, p.clone());
        p
    }
    /// all polys whose point has exactly this x term
    pub fn with_x(&self, x: T) -> Option<(Poly, Pt)> {
        self.pts.iter().find(|(_, q)| q.x == x).map(|(p, q)| (p.clone(), q.clone()))
    }
    pub fn y_term(&mut self, p: &Poly) -> T {
        let pt = self.pt(p);
        if let Some(b) = self.img(p) {
            let s = self.real_ser(&b, false);
            return cst(Bv::from_be(&s[33..65]));
        }
        if let Some(t) = self.ys.get(p) {
            return *t;
        }
        let hi = sym(&format!("Y{}", self.ys.len()), 255, Class::GenW);
        let t = mk_concat(&[hi, pt.odd]);
        self.ys.insert(p.clone(), t);
        t
    }
    pub fn sign(&mut self, even: &Poly, msg: Vec<T>) -> T {
        let k = (even.clone(), msg.clone());
        if let Some(t) = self.sig_of.get(&k) {
            return *t;
        }
        let t = sym(&format!("sig{}", self.sig_of.len()), 512, Class::GenW);
        self.sig_of.insert(k, t);
        self.sigs.insert(t, (even.clone(), msg));
        t
    }
    pub fn sig_info(&self, t: T) -> Option<(Poly, Vec<T>)> {
        self.sigs.get(&t).cloned()
    }
    pub fn uf(&mut self, id: u32, args: Vec<T>, w: u32, class: Class) -> T {
        let n = self.uf.len();
        *self.uf.entry((id, args)).or_insert_with(|| sym(&format!("uf{id}_{n}"), w, class))
    }
}
