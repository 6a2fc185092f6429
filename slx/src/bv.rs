//! Fixed-width bit-vector constants.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Bv {
    pub w: u32,
    pub l: Vec<u64>,
}

fn nl(w: u32) -> usize {
    ((w + 63) / 64).max(1) as usize
}

pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl Bv {
    pub fn new(w: u32, v: u64) -> Bv {
        let mut l = vec![0; nl(w)];
        l[0] = v;
        let mut b = Bv { w, l };
        b.norm();
        b
    }
    pub fn zero(w: u32) -> Bv {
        Bv::new(w, 0)
    }
    pub fn ones(w: u32) -> Bv {
        let mut b = Bv { w, l: vec![!0; nl(w)] };
        b.norm();
        b
    }
    fn norm(&mut self) {
        let n = nl(self.w);
        self.l.resize(n, 0);
        let r = self.w % 64;
        if r != 0 {
            self.l[n - 1] &= (1u64 << r) - 1;
        }
        if self.w == 0 {
            self.l[0] = 0;
        }
    }
    pub fn from_be(bytes: &[u8]) -> Bv {
        let w = bytes.len() as u32 * 8;
        let mut l = vec![0u64; nl(w)];
        for (i, b) in bytes.iter().rev().enumerate() {
            l[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        Bv { w, l }
    }
    pub fn from_le(bytes: &[u8]) -> Bv {
        let w = bytes.len() as u32 * 8;
        let mut l = vec![0u64; nl(w)];
        for (i, b) in bytes.iter().enumerate() {
            l[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        Bv { w, l }
    }
    pub fn to_be(&self) -> Vec<u8> {
        let n = ((self.w + 7) / 8) as usize;
        (0..n).rev().map(|i| self.byte(i)).collect()
    }
    pub fn byte(&self, i: usize) -> u8 {
        (self.l.get(i / 8).copied().unwrap_or(0) >> (8 * (i % 8))) as u8
    }
    pub fn lo(&self) -> u64 {
        self.l[0]
    }
    pub fn fits64(&self) -> bool {
        self.l[1..].iter().all(|x| *x == 0)
    }
    pub fn is_zero(&self) -> bool {
        self.l.iter().all(|x| *x == 0)
    }
    pub fn is_ones(&self) -> bool {
        *self == Bv::ones(self.w)
    }
    pub fn bit(&self, i: u32) -> bool {
        if i >= self.w {
            return false;
        }
        (self.l[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn set_bit(&mut self, i: u32) {
        self.l[(i / 64) as usize] |= 1 << (i % 64);
    }
    pub fn sign(&self) -> bool {
        self.bit(self.w - 1)
    }
    pub fn extract(&self, lo: u32, w: u32) -> Bv {
        let mut r = self.lshr(lo);
        r.w = w;
        r.norm();
        r
    }
    pub fn zext(&self, w: u32) -> Bv {
        let mut r = self.clone();
        r.w = w;
        r.norm();
        r
    }
    pub fn sext(&self, w: u32) -> Bv {
        if self.w > 0 && self.sign() {
            let hi = Bv::ones(w).shl(self.w);
            hi.or(&self.zext(w))
        } else {
            self.zext(w)
        }
    }
    pub fn concat(hi: &Bv, lo: &Bv) -> Bv {
        let w = hi.w + lo.w;
        hi.zext(w).shl(lo.w).or(&lo.zext(w))
    }
    pub fn shl(&self, n: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if n >= self.w {
            return r;
        }
        let (q, s) = ((n / 64) as usize, n % 64);
        for i in (0..r.l.len()).rev() {
            if i >= q {
                let mut v = self.l[i - q] << s;
                if s > 0 && i > q {
                    v |= self.l[i - q - 1] >> (64 - s);
                }
                r.l[i] = v;
            }
        }
        r.norm();
        r
    }
    pub fn lshr(&self, n: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if n >= self.w {
            return r;
        }
        let (q, s) = ((n / 64) as usize, n % 64);
        for i in 0..r.l.len() {
            if i + q < self.l.len() {
                let mut v = self.l[i + q] >> s;
                if s > 0 && i + q + 1 < self.l.len() {
                    v |= self.l[i + q + 1] << (64 - s);
                }
                r.l[i] = v;
            }
        }
        r
    }
    pub fn ashr(&self, n: u32) -> Bv {
        let r = self.lshr(n.min(self.w));
        if self.sign() {
            let k = n.min(self.w);
            r.or(&Bv::ones(self.w).shl(self.w - k))
        } else {
            r
        }
    }
    fn zip(&self, o: &Bv, f: impl Fn(u64, u64) -> u64) -> Bv {
        assert_eq!(self.w, o.w);
        let mut r = Bv { w: self.w, l: self.l.iter().zip(&o.l).map(|(a, b)| f(*a, *b)).collect() };
        r.norm();
        r
    }
    pub fn and(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Bv) -> Bv {
        self.zip(o, |a, b| a ^ b)
    }
    pub fn not(&self) -> Bv {
        self.xor(&Bv::ones(self.w))
    }
    pub fn add(&self, o: &Bv) -> Bv {
        assert_eq!(self.w, o.w);
        let mut c = 0u128;
        let mut l = vec![];
        for (a, b) in self.l.iter().zip(&o.l) {
            let s = *a as u128 + *b as u128 + c;
            l.push(s as u64);
            c = s >> 64;
        }
        let mut r = Bv { w: self.w, l };
        r.norm();
        r
    }
    pub fn neg(&self) -> Bv {
        self.not().add(&Bv::new(self.w, 1))
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Bv) -> Bv {
        let n = self.l.len();
        let mut l = vec![0u64; n];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n - i {
                let s = l[i + j] as u128 + self.l[i] as u128 * o.l[j] as u128 + c;
                l[i + j] = s as u64;
                c = s >> 64;
            }
        }
        let mut r = Bv { w: self.w, l };
        r.norm();
        r
    }
    pub fn ult(&self, o: &Bv) -> bool {
        for i in (0..self.l.len()).rev() {
            if self.l[i] != o.l[i] {
                return self.l[i] < o.l[i];
            }
        }
        false
    }
    pub fn slt(&self, o: &Bv) -> bool {
        match (self.sign(), o.sign()) {
            (true, false) => true,
            (false, true) => false,
            _ => self.ult(o),
        }
    }
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        if o.is_zero() {
            return (Bv::ones(self.w), self.clone());
        }
        if self.w <= 64 {
            return (Bv::new(self.w, self.lo() / o.lo()), Bv::new(self.w, self.lo() % o.lo()));
        }
        let mut q = Bv::zero(self.w);
        let mut r = Bv::zero(self.w);
        for i in (0..self.w).rev() {
            let top = r.sign();
            r = r.shl(1);
            if self.bit(i) {
                r.l[0] |= 1;
            }
            if top || !r.ult(o) {
                r = r.sub(o);
                q.set_bit(i);
            }
        }
        (q, r)
    }
    pub fn sdivrem(&self, o: &Bv) -> (Bv, Bv) {
        let (sa, sb) = (self.sign(), o.sign());
        let a = if sa { self.neg() } else { self.clone() };
        let b = if sb { o.neg() } else { o.clone() };
        let (q, r) = a.udivrem(&b);
        (if sa != sb { q.neg() } else { q }, if sa { r.neg() } else { r })
    }
    pub fn smt(&self) -> String {
        let mut s = String::with_capacity(self.w as usize + 2);
        if self.w % 4 == 0 {
            s.push_str("#x");
            for i in (0..self.w / 4).rev() {
                let v = (self.l[(i * 4 / 64) as usize] >> (i * 4 % 64)) & 15;
                s.push(char::from_digit(v as u32, 16).unwrap());
            }
        } else {
            s.push_str("#b");
            for i in (0..self.w).rev() {
                s.push(if self.bit(i) { '1' } else { '0' });
            }
        }
        s
    }
    pub fn hex(&self) -> String {
        self.to_be().iter().map(|b| format!("{b:02x}")).collect()
    }
}
