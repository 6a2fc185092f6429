//! C14, C15: DLEQ proofs (BIP374)
use crate::util::*;
use bdk_sp::bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use dleq::{dleq_generate_proof, dleq_verify_proof};
use slxrt::*;

fn base() -> PublicKey {
    if flag() {
        let mut one = [0u8; 32];
        one[31] = 1;
        pk(&SecretKey::from_slice(&one).unwrap())
    } else {
        pk(&sk())
    }
}
fn msg() -> Option<[u8; 32]> {
    if flag() {
        Some(bytes::<32>())
    } else {
        None
    }
}
fn challenge(a: &PublicKey, b: &PublicKey, c: &PublicKey, g: &PublicKey, r1: &PublicKey, r2: &PublicKey, m: Option<&[u8; 32]>) -> [u8; 32] {
    let e: &[u8] = m.map_or(&[], |m| &m[..]);
    tagged(
        "BIP0374/challenge",
        &[&a.serialize(), &b.serialize(), &c.serialize(), &g.serialize(), &r1.serialize(), &r2.serialize(), e],
    )
}

pub fn c14_generate() {
    generate(sk(), base(), pk(&sk()));
}
/// keys and points that are related to each other
pub fn c14_related() {
    let mut one = [0u8; 32];
    one[31] = 1;
    let one = SecretKey::from_slice(&one).unwrap();
    let a = match choice(3) {
        0 => sk(),
        1 => one,
        _ => one.negate(),
    };
    let g = base();
    let big_a = g.mul_tweak(&secp(), &Scalar::from(a)).unwrap();
    let b = match choice(5) {
        0 => g,
        1 => big_a,
        2 => g.negate(&secp()),
        3 => big_a.negate(&secp()),
        _ => pk(&one),
    };
    generate(a, g, b);
}
fn generate(a: SecretKey, g: PublicKey, b: PublicKey) {
    let r = bytes::<32>();
    let m = msg();
    let big_a = g.mul_tweak(&secp(), &Scalar::from(a)).unwrap();
    let big_c = b.mul_tweak(&secp(), &Scalar::from(a)).unwrap();
    let proof = match dleq_generate_proof(a, b, &r, g, m.as_ref()) {
        Ok(p) => p,
        Err(_) => return check(false, 1),
    };
    cover(1);
    trace(&proof);
    check(matches!(dleq_verify_proof(big_a, b, big_c, &proof, g, m.as_ref()), Ok(true)), 2);
    // reference
    let aux = tagged("BIP0374/aux", &[&r]);
    let mut t = a.secret_bytes();
    for i in 0..32 {
        t[i] ^= aux[i];
    }
    let me: &[u8] = m.as_ref().map_or(&[], |m| &m[..]);
    let k = tagged("BIP0374/nonce", &[&t, &big_a.serialize(), &big_c.serialize(), me]);
    let k = SecretKey::from_slice(&k).unwrap();
    let r1 = g.mul_tweak(&secp(), &Scalar::from(k)).unwrap();
    let r2 = b.mul_tweak(&secp(), &Scalar::from(k)).unwrap();
    let e = challenge(&big_a, &b, &big_c, &g, &r1, &r2, m.as_ref());
    let s = k.add_tweak(&Scalar::from(a.mul_tweak(&sc(e)).unwrap())).unwrap();
    check(proof[..32] == e, 3);
    check(proof[32..] == s.secret_bytes(), 4);
}

/// exactness: accepted iff the challenge equation holds, for every proof string
pub fn c15_exact() {
    let (a, b, c, g) = (pk(&sk()), pk(&sk()), pk(&sk()), base());
    let m = msg();
    let proof = bytes::<64>();
    let res = dleq_verify_proof(a, b, c, &proof, g, m.as_ref());
    let e: [u8; 32] = proof[..32].try_into().unwrap();
    let s: [u8; 32] = proof[32..].try_into().unwrap();
    let r = (|| {
        let es = Scalar::from_be_bytes(e).ok()?;
        let ss = Scalar::from_be_bytes(s).ok()?;
        let r1 = g.mul_tweak(&secp(), &ss).ok()?.combine(&a.mul_tweak(&secp(), &es).ok()?.negate(&secp())).ok()?;
        let r2 = b.mul_tweak(&secp(), &ss).ok()?.combine(&c.mul_tweak(&secp(), &es).ok()?.negate(&secp())).ok()?;
        Some(challenge(&a, &b, &c, &g, &r1, &r2, m.as_ref()))
    })();
    match (res, r) {
        (Ok(v), Some(ch)) => {
            cover(1);
            check(v == (ch == e), 1)
        }
        (Ok(true), None) => check(false, 2),
        (_, None) => cover(2),
        (Err(_), Some(ch)) => check(ch != e, 3),
    }
}
/// proofs whose commitments come out as the point at infinity need no knowledge of anything
pub fn c15_degenerate() {
    let g = base();
    let b = pk(&sk());
    let (e, t) = (sk(), sk());
    let s = e.mul_tweak(&t.into()).unwrap();
    let which = choice(3);
    let a = if which != 1 { g.mul_tweak(&secp(), &t.into()).unwrap() } else { pk(&sk()) };
    let c = if which != 0 { b.mul_tweak(&secp(), &t.into()).unwrap() } else { pk(&sk()) };
    let mut proof = [0u8; 64];
    proof[..32].copy_from_slice(&e.secret_bytes());
    proof[32..].copy_from_slice(&s.secret_bytes());
    let m = msg();
    let v = dleq_verify_proof(a, b, c, &proof, g, m.as_ref());
    cover(1);
    check(!matches!(v, Ok(true)), 1);
}
/// proofs by an honest prover, and by provers who leave something out of the challenge or change it
pub fn c15_provers() {
    let a = sk();
    let g = base();
    let b = pk(&sk());
    let m = generic::<32>();
    let c = |p: &PublicKey, k: &SecretKey| p.mul_tweak(&secp(), &(*k).into()).unwrap();
    let (big_a, big_c) = (c(&g, &a), c(&b, &a));
    // two nonces: an honest prover uses one
    let k1 = sk();
    let which = choice(16);
    let k2 = if which == 15 { sk() } else { k1 };
    let (r1, r2) = (c(&g, &k1), c(&b, &k2));
    let mut parts: Vec<Vec<u8>> = [big_a, b, big_c, g, r1, r2].iter().map(|p| p.serialize().to_vec()).collect();
    parts.push(m.to_vec());
    let mut tag = "BIP0374/challenge";
    match which {
        0 => {}
        1..=7 => {
            parts.remove(which as usize - 1);
        }
        8..=13 => parts.swap(which as usize - 8, which as usize - 7),
        14 => tag = "BIP0374/nonce",
        _ => {}
    }
    let parts: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    let e = tagged(tag, &parts);
    let s = k1.add_tweak(&a.mul_tweak(&sc(e)).unwrap().into()).unwrap();
    let mut proof = [0u8; 64];
    proof[..32].copy_from_slice(&e);
    proof[32..].copy_from_slice(&s.secret_bytes());
    cover(which);
    let v = dleq_verify_proof(big_a, b, big_c, &proof, g, Some(&m));
    check(matches!(v, Ok(true)) == (which == 0), 1);
    // without the message
    if which == 7 {
        check(matches!(dleq_verify_proof(big_a, b, big_c, &proof, g, None), Ok(true)), 2);
    }
}

/// a proof made for one statement is refused for any other statement in general position
pub fn c15_binding() {
    let a = sk();
    let g = base();
    let b = pk(&sk());
    let r = bytes::<32>();
    let m = msg();
    let big_a = g.mul_tweak(&secp(), &Scalar::from(a)).unwrap();
    let big_c = b.mul_tweak(&secp(), &Scalar::from(a)).unwrap();
    let mut proof = match dleq_generate_proof(a, b, &r, g, m.as_ref()) {
        Ok(p) => p,
        Err(_) => return check(false, 1),
    };
    let (mut a2, mut b2, mut c2, mut g2, mut m2) = (big_a, b, big_c, g, m);
    let which = choice(12);
    match which {
        0 => a2 = pk(&sk()),
        1 => b2 = pk(&sk()),
        2 => c2 = pk(&sk()),
        3 => g2 = pk(&sk()),
        4 => {
            let n = bytes::<32>();
            assume(m != Some(n));
            m2 = Some(n)
        }
        5 => {
            assume(m.is_some());
            m2 = None
        }
        6 => proof[..32].copy_from_slice(&scalar()),
        7 => proof[32..].copy_from_slice(&scalar()),
        8 => {
            // both sides scaled: still a true statement about another base
            let t = sk();
            g2 = g2.mul_tweak(&secp(), &Scalar::from(t)).unwrap();
            a2 = a2.mul_tweak(&secp(), &Scalar::from(t)).unwrap();
        }
        9 => {
            a2 = a2.negate(&secp());
            c2 = c2.negate(&secp());
        }
        10 => core::mem::swap(&mut a2, &mut c2),
        _ => {
            core::mem::swap(&mut a2, &mut c2);
            core::mem::swap(&mut g2, &mut b2)
        }
    }
    cover(which);
    let v = dleq_verify_proof(a2, b2, c2, &proof, g2, m2.as_ref());
    check(!matches!(v, Ok(true)), 2);
}
