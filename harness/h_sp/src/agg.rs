//! C05, C06, C07: shared-secret inputs on both sides
use crate::util::*;
use bdk_sp::bitcoin::{secp256k1::SecretKey, Network, ScriptBuf};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, scan::Scanner};
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bdk_sp::LexMin;
use slxrt::*;

// ---------------------------------------------------------------------------------------------- C05
fn lexmin(n: usize) {
    let ops: Vec<_> = (0..n).map(|_| outpoint_any()).collect();
    let mut l = LexMin::default();
    check(l.bytes().is_err(), 1);
    let mut best = [0u8; 36];
    for (i, o) in ops.iter().enumerate() {
        let b = op_bytes(o);
        if i == 0 || b < best {
            best = b;
        }
        let r = l.update(o);
        check(op_bytes(r) == best, 2);
        match l.bytes() {
            Ok(m) => {
                cover(1);
                trace(&m);
                check(m == best, 3);
            }
            Err(_) => check(false, 4),
        }
    }
}
pub fn c05_two() {
    lexmin(1 + choice(2) as usize)
}
pub fn c05_four() {
    lexmin(3 + choice(2) as usize)
}
/// same transaction id: only the index decides, as little-endian bytes
pub fn c05_same_txid() {
    let mut a = outpoint_any();
    let b = outpoint_any();
    a.txid = b.txid;
    let mut l = LexMin::default();
    if flag() {
        l.update(&a);
        l.update(&b);
    } else {
        l.update(&b);
        l.update(&a);
    }
    let (x, y) = (op_bytes(&a), op_bytes(&b));
    let m = match l.bytes() {
        Ok(m) => m,
        Err(_) => return check(false, 1),
    };
    cover(1);
    check(m == if a.vout.swap_bytes() < b.vout.swap_bytes() { x } else { y }, 2);
    check(m[32..] == a.vout.to_le_bytes() || m[32..] == b.vout.to_le_bytes(), 3);
}

// ---------------------------------------------------------------------------------------------- C06
fn tweak_of(ins: &[In]) {
    let tx = tx_of(ins, vec![]);
    let prev = prevouts(ins);
    let got = compute_tweak_data(&tx, &prev);
    let want = ref_partial(ins);
    match (&got, want) {
        (Ok(g), Some(w)) => {
            cover(1);
            trace(&g.serialize());
            check(*g == pk(&w), 1);
            let scan = sk();
            let s = Scanner::new(scan, pk(&sk()), Default::default());
            match s.get_shared_secret(&tx, &prev) {
                Ok(p) => check(Ok(p) == g.mul_tweak(&secp(), &scan.into()), 2),
                Err(_) => check(false, 3),
            }
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 4),
        (Err(_), Some(_)) => check(false, 5),
    }
}
/// every pair of input kinds, any outpoints, optionally with keys that cancel
pub fn c06_two() {
    let n = 1 + choice(2) as usize;
    let a = sk();
    let mut ins = vec![mk_in(choice(N_KINDS), a, outpoint_any())];
    if n == 2 {
        let s = match choice(3) {
            0 => sk(),
            1 => a.negate(),
            _ => a,
        };
        ins.push(mk_in(choice(N_KINDS), s, outpoint_any()));
    }
    tweak_of(&ins);
}
/// three inputs
pub fn c06_three() {
    const K: [u32; 4] = [0, 1, 5, 7];
    let a = sk();
    let b = if flag() { a.negate() } else { sk() };
    let c = if flag() { a.negate() } else { sk() };
    let ins: Vec<In> =
        [a, b, c].iter().map(|s| mk_in(K[choice(4) as usize], *s, outpoint_any())).collect();
    tweak_of(&ins);
}
/// three inputs of every kind
pub fn c06_three_all() {
    let a = sk();
    let (b, c) = match choice(4) {
        0 => (sk(), sk()),
        1 => (a.negate(), sk()),
        2 => (sk(), a.negate()),
        _ => (a, a.negate()),
    };
    let ins: Vec<In> = [a, b, c].iter().map(|s| mk_in(choice(N_KINDS), *s, outpoint_any())).collect();
    tweak_of(&ins);
}

// ---------------------------------------------------------------------------------------------- C07
fn spk_of(kind: u32, s: &SecretKey) -> (ScriptBuf, Option<SecretKey>) {
    let p = pk(s);
    let h = h160(&p.serialize());
    match kind {
        0 => (spk_tr(&xonly(&p)), Some(even(*s))),
        1 => (spk_wpkh(&h), Some(*s)),
        2 => (spk_sh(&h), Some(*s)),
        3 => (spk_pkh(&h), Some(*s)),
        4 => (ScriptBuf::new(), None),
        5 => {
            let mut v = vec![0, 0x20];
            v.extend_from_slice(&generic::<32>());
            (ScriptBuf::from_bytes(v), None)
        }
        _ => {
            let mut v = vec![0x52, 0x20];
            v.extend_from_slice(&xonly(&p));
            (ScriptBuf::from_bytes(v), None)
        }
    }
}
fn partial(keys: &[(SecretKey, u32)]) {
    let small = bytes::<36>();
    let l: Vec<_> = keys.iter().map(|(s, k)| spk_of(*k, s)).collect();
    let input: Vec<(ScriptBuf, SecretKey)> = l.iter().zip(keys).map(|(a, b)| (a.0.clone(), b.0)).collect();
    let got = create_silentpayment_partial_secret(&small, &input);
    let mut sum: Option<SecretKey> = None;
    // nobody can be paid by a transaction that spends a future segwit output
    let future = keys.iter().any(|k| k.1 == 6);
    for p in l.iter().filter_map(|x| x.1) {
        sum = match sum {
            None => Some(p),
            Some(s) => s.add_tweak(&p.into()).ok(),
        };
    }
    match (got, sum.filter(|_| !future)) {
        (Ok(g), Some(a)) => {
            cover(1);
            trace(&g.secret_bytes());
            let ih = tagged("BIP0352/Inputs", &[&small, &pk(&a).serialize()]);
            check(Ok(g) == a.mul_tweak(&sc(ih)), 1);
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 2),
        (Err(_), Some(_)) => check(false, 3),
    }
}
pub fn c07_partial() {
    let n = choice(3) as usize;
    let a = sk();
    let mut v = vec![];
    if n > 0 {
        v.push((a, choice(7)));
    }
    if n > 1 {
        let b = match choice(3) {
            0 => sk(),
            1 => a.negate(),
            _ => a,
        };
        v.push((b, choice(7)));
    }
    partial(&v);
}
pub fn c07_partial3() {
    const K: [u32; 4] = [0, 1, 2, 4];
    let a = sk();
    let (b, c) = match choice(4) {
        0 => (sk(), sk()),
        1 => (a.negate(), sk()),
        2 => (sk(), a.negate()),
        _ => (a, a.negate()),
    };
    partial(&[(a, K[choice(4) as usize]), (b, K[choice(4) as usize]), (c, K[choice(4) as usize])]);
}
fn recipients(pick: impl Fn(usize) -> u32, n: usize) {
    let (a, b) = (Wallet::new(), Wallet::new());
    // same scan key, unrelated spend key
    let a2 = Wallet { scan: a.scan, spend: sk() };
    let other_net = SilentPaymentCode::new_v0(pk(&a.scan), pk(&a.spend), Network::Testnet);
    let codes = [a.code(), a.labelled(1), a2.code(), b.code(), b.labelled(0), other_net];
    let partial = sk();
    let mut list = vec![];
    let mut want: Vec<(usize, Vec<[u8; 32]>)> = vec![];
    let (mut ka, mut kb) = (0u32, 0u32);
    for i in 0..n {
        let i = pick(i) as usize;
        let c = &codes[i];
        let k = if i == 3 || i == 4 { &mut kb } else { &mut ka };
        let o = ref_output(&partial, &c.scan, &c.spend, *k);
        *k += 1;
        match want.iter_mut().find(|w| w.0 == i) {
            Some(w) => w.1.push(o),
            None => want.push((i, vec![o])),
        }
        list.push(c.clone());
    }
    let got = create_silentpayment_scriptpubkeys(partial, &list);
    cover(1);
    check(got.len() == want.len(), 1);
    for (i, w) in want {
        match got.get(&codes[i]) {
            None => check(false, 2),
            Some(g) => {
                check(g.len() == w.len(), 3);
                for (x, y) in g.iter().zip(&w) {
                    trace(&x.serialize());
                    check(x.serialize() == *y, 4);
                }
            }
        }
    }
}
pub fn c07_recipients() {
    recipients(|_| choice(6), choice(4) as usize)
}
pub fn c07_recipients4() {
    recipients(|_| choice(6), 4)
}
/// long lists
pub fn c07_recipients_long() {
    match choice(4) {
        0 => recipients(|i| [0, 1, 0, 3, 2, 0, 4, 0, 5, 2, 1, 3, 0, 3][i], 14),
        1 => recipients(|_| 1, 20),
        2 => recipients(|i| (i % 6) as u32, 24),
        _ => recipients(|i| (i / 4) as u32, 24),
    }
}
/// recipients whose keys are arbitrary points
pub fn c07_any_points() {
    let scan = crate::enc::any_key();
    let c1 = SilentPaymentCode::new_v0(scan, crate::enc::any_key(), Network::Bitcoin);
    let c2 = SilentPaymentCode::new_v0(scan, crate::enc::any_key(), Network::Bitcoin);
    let partial = sk();
    let got = create_silentpayment_scriptpubkeys(partial, &[c1.clone(), c2.clone(), c1.clone()]);
    let o = |c: &SilentPaymentCode, k| ref_output(&partial, &c.scan, &c.spend, k);
    cover(1);
    if c1 == c2 {
        check(got[&c1].iter().map(|x| x.serialize()).collect::<Vec<_>>() == vec![o(&c1, 0), o(&c1, 1), o(&c1, 2)], 1);
    } else {
        check(got[&c1].iter().map(|x| x.serialize()).collect::<Vec<_>>() == vec![o(&c1, 0), o(&c1, 2)], 2);
        check(got[&c2].iter().map(|x| x.serialize()).collect::<Vec<_>>() == vec![o(&c2, 1)], 3);
    }
}

// ---------------------------------------------------------------------------------------------- C25
/// an output that looks like a witness program: any first byte, several lengths, declared and real length may differ
/// by one; and whether it is a program with a version above one
pub fn program(all: bool) -> (ScriptBuf, bool) {
    let v = u8_any();
    let (n, push) = if all {
        let n = [1usize, 2, 3, 32, 40, 41][choice(6) as usize];
        (n, if flag() { n } else { n - 1 })
    } else {
        [(2, 2), (40, 40), (2, 1), (41, 41)][choice(4) as usize]
    };
    let mut b = vec![v, push as u8];
    b.extend_from_slice(&[7u8; 41][..n]);
    (ScriptBuf::from_bytes(b), (0x52..=0x60).contains(&v) && push == n && (2..=40).contains(&n))
}
fn odd_in() -> (In, bool) {
    let (spk, future) = program(true);
    let mut i = mk_in(11, sk(), outpoint_any());
    i.prevout.script_pubkey = spk;
    if future {
        i.kind = FUTURE;
    }
    (i, future)
}
/// tweak data and scanning
pub fn c25_tweak() {
    let (odd, future) = odd_in();
    let mut ins = vec![mk_in([0u32, 1, 3][choice(3) as usize], sk(), outpoint_any()), odd];
    if flag() {
        ins.swap(0, 1);
    }
    cover(if future { 1 } else { 2 });
    let tx = tx_of(&ins, vec![out(1, spk_tr(&xonly(&pk(&sk()))))]);
    let prev = prevouts(&ins);
    let r = compute_tweak_data(&tx, &prev);
    match ref_partial(&ins) {
        None => check(r.is_err() && future, 1),
        Some(w) => check(!future && matches!(r, Ok(g) if g == pk(&w)), 2),
    }
    check(Scanner::new(sk(), pk(&sk()), Default::default()).scan_tx(&tx, &prev).is_err() == future, 3);
}
/// the generic sender
pub fn c25_send() {
    let (spk, future) = program(true);
    // eligible
    assume(!spk.is_p2tr());
    let (a, b) = (sk(), sk());
    let small = bytes::<36>();
    let (k, part) = spk_of(choice(4), &a);
    let mut l = vec![(k, a), (spk, b)];
    if flag() {
        l.swap(0, 1);
    }
    cover(if future { 1 } else { 2 });
    match create_silentpayment_partial_secret(&small, &l) {
        Err(_) => check(future, 1),
        Ok(g) => {
            check(!future, 2);
            let a = part.unwrap();
            let ih = tagged("BIP0352/Inputs", &[&small, &pk(&a).serialize()]);
            check(Ok(g) == a.mul_tweak(&sc(ih)), 3);
        }
    }
}
