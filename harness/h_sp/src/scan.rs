//! C08, C09, C10: scanning
use crate::util::*;
use bdk_sp::bitcoin::{secp256k1::SecretKey, OutPoint, ScriptBuf, Transaction, TxOut};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{get_silentpayment_script_pubkey, scan::Scanner, scan_txouts, SpOut};
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bdk_sp::LexMin;
use slxrt::*;

fn scanner(w: &Wallet, labels: &[u32]) -> Scanner {
    Scanner::new(w.scan, pk(&w.spend), w.labels(labels))
}
fn code_of(w: &Wallet, label: Option<u32>) -> SilentPaymentCode {
    match label {
        None => w.code(),
        Some(m) => w.labelled(m),
    }
}
/// scripts the sender creates for these codes, in the order of the list
fn send(ins: &[In], codes: &[SilentPaymentCode]) -> Option<Vec<ScriptBuf>> {
    let mut l = LexMin::default();
    for i in ins {
        l.update(&i.txin.previous_output);
    }
    let keys: Vec<(ScriptBuf, SecretKey)> =
        ins.iter().filter(|i| i.part.is_some()).map(|i| (i.prevout.script_pubkey.clone(), i.sk)).collect();
    let p = create_silentpayment_partial_secret(&l.bytes().ok()?, &keys).ok()?;
    let mut got = create_silentpayment_scriptpubkeys(p, codes);
    let mut r = vec![];
    for c in codes {
        r.push(spk_tr(&got.get_mut(c)?.remove(0).serialize()));
    }
    Some(r)
}
fn rotate<T>(v: &mut Vec<T>) {
    let n = v.len() as u32;
    for i in 0..n.saturating_sub(1) {
        let j = i + choice(n - i);
        v.swap(i as usize, j as usize);
    }
}
/// payments: (to wallet 0 or 1, label)
fn pay_and_scan(ins: &[In], pays: &[(usize, Option<u32>)], labels: &[u32], unrelated: u32) {
    pay_and_scan_in(ins, pays, labels, unrelated, rotate)
}
type Outs = Vec<(TxOut, Option<(usize, Option<u32>)>)>;
fn pay_and_scan_in(ins: &[In], pays: &[(usize, Option<u32>)], labels: &[u32], unrelated: u32, arrange: impl FnOnce(&mut Outs)) {
    let ws = [Wallet::new(), Wallet::new()];
    let codes: Vec<_> = pays.iter().map(|(w, l)| code_of(&ws[*w], *l)).collect();
    let spks = match send(ins, &codes) {
        Some(s) => s,
        None => return check(false, 1),
    };
    // (output, expected finding)
    let mut outs: Outs =
        spks.into_iter().zip(pays).map(|(s, p)| (out(u64_any(), s), Some(*p))).collect();
    match unrelated {
        0 => {}
        1 => outs.push((out(7, spk_tr(&xonly(&pk(&sk())))), None)),
        2 => outs.push((out(7, spk_wpkh(&bytes::<20>())), None)),
        3 => outs.push((out(7, spk_tr(&[0xff; 32])), None)),
        _ => {
            // any 32 bytes, except the keys these wallets could be paid with
            let b = bytes::<32>();
            if let Some(p) = ref_partial(ins) {
                for w in &ws {
                    for k in 0..=pays.len() as u32 {
                        assume(b != ref_output(&p, &pk(&w.scan), &pk(&w.spend), k));
                        for m in labels {
                            assume(b != ref_output(&p, &pk(&w.scan), &w.labelled(*m).spend, k));
                        }
                    }
                }
            }
            outs.push((out(7, spk_tr(&b)), None));
        }
    }
    arrange(&mut outs);
    let tx = tx_of(ins, outs.iter().map(|o| o.0.clone()).collect());
    let txid = tx.compute_txid();
    for (wi, w) in ws.iter().enumerate() {
        let found = match scanner(w, labels).scan_tx(&tx, &prevouts(ins)) {
            Ok(f) => f,
            Err(_) => return check(false, 2),
        };
        let mut want = 0;
        for (i, (o, e)) in outs.iter().enumerate() {
            let hits: Vec<&SpOut> = found.iter().filter(|f| f.outpoint == OutPoint::new(txid, i as u32)).collect();
            match e {
                Some((to, label)) if *to == wi => {
                    want += 1;
                    cover(1);
                    check(hits.len() == 1, 3);
                    check(hits[0].label == *label, 4);
                    check(hits[0].amount == o.value && hits[0].script_pubkey == o.script_pubkey, 5);
                    trace(&hits[0].tweak.secret_bytes());
                }
                _ => check(hits.is_empty(), 6),
            }
        }
        check(found.len() == want, 7);
    }
}
const PAY: [(usize, Option<u32>); 5] = [(0, None), (0, Some(1)), (1, None), (0, Some(0)), (1, Some(1))];

/// every pair of input types that has at least one key, one payment
pub fn c08_inputs() {
    let n = 1 + choice(2);
    let mut ins = vec![];
    for _ in 0..n {
        // 9: P2PK, 7: P2WSH contribute nothing
        let k = [0u32, 1, 2, 3, 4, 7, 9][choice(7) as usize];
        ins.push(mk_in(k, sk(), outpoint_gen()));
    }
    if ins.iter().all(|i| i.part.is_none()) {
        return;
    }
    pay_and_scan(&ins, &[PAY[choice(3) as usize]], &[1], 0);
}
/// up to two payments to any codes, unrelated output of any kind, any output order
pub fn c08_payments() {
    let ins = [mk_in(choice(2), sk(), outpoint_gen())];
    let n = 1 + choice(2);
    let pays: Vec<_> = (0..n).map(|_| PAY[choice(5) as usize]).collect();
    pay_and_scan(&ins, &pays, &[0, 1], choice(4));
}
/// one payment next to a taproot output with any 32 bytes
pub fn c08_free_output() {
    let ins = [mk_in(choice(2), sk(), outpoint_gen())];
    pay_and_scan(&ins, &[PAY[choice(2) as usize]], &[1], 4);
}
/// three payments
pub fn c08_three() {
    let ins = [mk_in(1, sk(), outpoint_gen())];
    let pays: Vec<_> = (0..3).map(|_| PAY[choice(3) as usize]).collect();
    pay_and_scan(&ins, &pays, &[1], 0);
}
/// three payments, all codes, unrelated outputs
pub fn c08_three_all() {
    let ins = [mk_in(1, sk(), outpoint_gen()), mk_in(0, sk(), outpoint_gen())];
    let pays: Vec<_> = (0..3).map(|_| PAY[choice(5) as usize]).collect();
    pay_and_scan(&ins, &pays, &[0, 1], choice(2));
}
/// many payments in one transaction
pub fn c08_many() {
    let ins = [mk_in(1, sk(), outpoint_gen())];
    let n = 7;
    let pat = choice(3) as usize;
    let pays: Vec<_> = (0..n).map(|i| PAY[[i % 5, 1, i / 3 % 4][pat]]).collect();
    pay_and_scan_in(&ins, &pays, &[0, 1], 1, |o| match choice(3) {
        0 => {}
        1 => o.reverse(),
        _ => {
            let m = o.len() / 2;
            o.rotate_left(m);
            o.swap(1, 6)
        }
    });
}
/// payments next to very many other outputs
pub fn c08_vout() {
    let ins = [mk_in(1, sk(), outpoint_gen())];
    let (a, b) = [(0, 300), (255, 0), (256, 44), (299, 1), (300, 0)][choice(5) as usize];
    let fill = |n: usize| (0..n).map(|i| (out(i as u64, spk_tr(&[i as u8 | 1; 32])), None));
    pay_and_scan_in(&ins, &[PAY[0], PAY[1]], &[1], 0, |o| {
        let p: Outs = fill(a).chain(o.drain(..)).chain(fill(b)).collect();
        *o = p;
    });
}

// ---------------------------------------------------------------------------------------------- C09
/// one output of the scanned transaction; returns what a scan may report for it: (label, k)
fn any_out(w: &Wallet, partial: &SecretKey, v: u64, m: u32) -> (TxOut, Option<(Option<u32>, u32)>) {
    let scan = pk(&w.scan);
    let spend = pk(&w.spend);
    let l = |m: u32| spend.combine(&w.label_point(m)).unwrap();
    match choice(11) {
        0 => (out(v, spk_tr(&ref_output(partial, &scan, &spend, 0))), Some((None, 0))),
        1 => (out(v, spk_tr(&ref_output(partial, &scan, &spend, 1))), Some((None, 1))),
        2 => (out(v, spk_tr(&ref_output(partial, &scan, &l(m), 0))), Some((Some(m), 0))),
        3 => (out(v, spk_tr(&ref_output(partial, &scan, &l(m), 1))), Some((Some(m), 1))),
        // a counter after a gap
        4 => (out(v, spk_tr(&ref_output(partial, &scan, &spend, 3))), Some((None, 3))),
        // a label that is not registered
        5 => (out(v, spk_tr(&ref_output(partial, &scan, &l(7), 0))), None),
        // somebody else's
        6 => (out(v, spk_tr(&ref_output(partial, &pk(&sk()), &pk(&sk()), 0))), None),
        // the bare spend key
        7 => (out(v, spk_tr(&xonly(&spend))), None),
        // 32 bytes that are no point
        8 => (out(v, spk_tr(&[0xff; 32])), None),
        // the right key in another kind of output
        9 => {
            let mut s = vec![0x52, 0x20];
            s.extend_from_slice(&ref_output(partial, &scan, &spend, 0));
            (out(v, ScriptBuf::from_bytes(s)), None)
        }
        _ => (out(v, spk_wpkh(&bytes::<20>())), None),
    }
}
fn soundness(n: usize, labels: &[u32]) {
    let w = Wallet::new();
    let ins = [mk_in(1, sk(), outpoint_gen())];
    let partial = match ref_partial(&ins) {
        Some(p) => p,
        None => return,
    };
    let outs: Vec<_> = (0..n).map(|i| any_out(&w, &partial, 1000 + i as u64, labels[0])).collect();
    let tx = tx_of(&ins, outs.iter().map(|o| o.0.clone()).collect());
    let found = match scanner(&w, labels).scan_tx(&tx, &prevouts(&ins)) {
        Ok(f) => f,
        Err(_) => return check(false, 1),
    };
    cover(if found.is_empty() { 1 } else { 2 });
    sound(&w, &tx, &found, labels);
    // which counters are reachable: a scan stops at the first counter without an output
    let have = |k: u32| outs.iter().any(|(_, e)| matches!(e, Some((l, k2)) if *k2 == k && l.map_or(true, |m| labels.contains(&m))));
    let mut top = 0;
    while have(top) {
        top += 1;
    }
    for f in &found {
        let i = f.outpoint.vout as usize;
        match outs[i].1 {
            Some((l, k)) => {
                check(f.label == l, 10);
                check(k < top, 11);
                check(l.map_or(true, |m| labels.contains(&m)), 12);
            }
            None => check(false, 13),
        }
    }
    if top > 0 {
        check(!found.is_empty(), 14);
    }
}
/// every reported output exists once and can be spent with the reported tweak
fn sound(w: &Wallet, tx: &Transaction, found: &[SpOut], labels: &[u32]) {
    let txid = tx.compute_txid();
    for (i, f) in found.iter().enumerate() {
        check(f.outpoint.txid == txid, 2);
        let v = f.outpoint.vout as usize;
        check(v < tx.output.len(), 3);
        check(f.script_pubkey == tx.output[v].script_pubkey && f.amount == tx.output[v].value, 4);
        check(found[i + 1..].iter().all(|g| g.outpoint != f.outpoint), 5);
        check(f.script_pubkey.is_p2tr(), 6);
        let d = match w.spend.add_tweak(&f.tweak.into()) {
            Ok(d) => d,
            Err(_) => return check(false, 7),
        };
        trace(&f.tweak.secret_bytes());
        check(f.script_pubkey == spk_tr(&xonly(&pk(&d))), 8);
        check(f.label.map_or(true, |m| labels.contains(&m)), 9);
    }
}
pub fn c09_two() {
    soundness(choice(3) as usize, &[0, 2]);
}
pub fn c09_three() {
    soundness(3, &[1]);
}
pub fn c09_four() {
    soundness(4, &[1]);
}
/// any shared secret point, not only one that belongs to the transaction; a taproot output with any 32 bytes
pub fn c09_any_secret() {
    let shared = crate::enc::any_key();
    let w = Wallet::new();
    let t0 = SecretKey::from_slice(&ref_tk(&shared, 0)).unwrap();
    let p0 = pk(&w.spend).combine(&pk(&t0)).unwrap();
    let labels: &[u32] = if flag() { &[5] } else { &[] };
    let free = bytes::<32>();
    let mut outs = vec![out(1, spk_tr(&free))];
    let p5 = p0.combine(&w.label_point(5)).unwrap();
    let hit = free == xonly(&p0) || !labels.is_empty() && free == xonly(&p5);
    let mut must = false;
    match choice(3) {
        0 => {}
        1 => {
            outs.push(out(2, spk_tr(&xonly(&p0))));
            must = true;
        }
        _ => {
            outs.push(out(3, spk_tr(&xonly(&p5))));
            must = !labels.is_empty();
        }
    }
    let tx = tx_of(&[], outs);
    let found = match scan_txouts(pk(&w.spend), &w.labels(labels), &tx, shared) {
        Ok(f) => f,
        Err(_) => return check(false, 1),
    };
    cover(if found.is_empty() { 1 } else { 2 });
    sound(&w, &tx, &found, labels);
    check(found.is_empty() == !(must || hit), 20);
}

// ---------------------------------------------------------------------------------------------- C10
pub fn c10_scripts() {
    let w = Wallet::new();
    let spend = pk(&w.spend);
    // any point can be a tweak
    let tweak = crate::enc::any_key();
    let k = u32_any();
    let labels: &[u32] = match choice(3) {
        0 => &[],
        1 => &[3],
        _ => &[3, 4],
    };
    let shared = tweak.mul_tweak(&secp(), &w.scan.into()).unwrap();
    let t = SecretKey::from_slice(&ref_tk(&shared, k)).unwrap();
    let base = spend.combine(&pk(&t)).unwrap();
    let mut want = vec![spk_tr(&xonly(&base))];
    for m in labels {
        want.push(spk_tr(&xonly(&base.combine(&w.label_point(*m)).unwrap())));
    }
    let got = scanner(&w, labels).get_spks_from_tweak(&tweak, k);
    cover(1);
    check(got.len() == want.len(), 1);
    for s in &want {
        check(got.iter().filter(|g| *g == s).count() == 1, 2);
    }
    for g in &got {
        trace(g.as_bytes());
    }
    check(get_silentpayment_script_pubkey(&spend, &shared, k, None) == want[0], 3);
    for (i, m) in labels.iter().enumerate() {
        check(get_silentpayment_script_pubkey(&spend, &shared, k, Some(&w.label_point(*m))) == want[i + 1], 4);
    }
}
/// a script derived for counter zero is found by scanning with the same data, and conversely
pub fn c10_match() {
    let w = Wallet::new();
    let ins = [mk_in(choice(2), sk(), outpoint_gen())];
    let partial = ref_partial(&ins).unwrap();
    let labels: &[u32] = &[3, 4];
    let sc = scanner(&w, labels);
    let spks = sc.get_spks_from_tweak(&pk(&partial), 0);
    check(spks.len() == 3, 1);
    let s = match choice(4) {
        3 => spk_tr(&bytes::<32>()),
        i => spks[i as usize].clone(),
    };
    let tx = tx_of(&ins, vec![out(5, s.clone())]);
    let found = match sc.scan_tx(&tx, &prevouts(&ins)) {
        Ok(f) => f,
        Err(_) => return check(false, 2),
    };
    let hit = spks.contains(&s);
    cover(if hit { 1 } else { 2 });
    check(found.len() == hit as usize, 3);
    // the sender's view of the same payment
    for (i, c) in [w.code(), w.labelled(3), w.labelled(4)].iter().enumerate() {
        let r = spk_tr(&ref_output(&partial, &c.scan, &c.spend, 0));
        check(spks.contains(&r), 4 + i as u32);
    }
}
