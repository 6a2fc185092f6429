//! C22: what is persisted comes back unchanged
use crate::util::*;
use bdk_sp::bitcoin::{
    hashes::Hash, secp256k1::{PublicKey, Scalar, SecretKey}, Amount, BlockHash, OutPoint, ScriptBuf, Transaction, TxIn, TxOut, Txid, Witness,
};
use bdk_sp::receive::{SpMeta, SpOut};
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime};
use indexer::v2::indexes::{Label, ScalarBytes};
use indexer::v2::ChangeSet;
use indexer::SpIndexesChangeSet;
use serde::{de::DeserializeOwned, Serialize};
use slxrt::*;
use std::sync::{
    atomic::{AtomicU32, Ordering::Relaxed},
    Arc,
};

type C2 = ChangeSet<ConfirmationBlockTime>;

fn bin<T: Serialize + DeserializeOwned>(v: &T, id: u32) -> Option<T> {
    let b = match bincode::serialize(v) {
        Ok(b) => b,
        Err(_) => {
            check(false, id);
            return None;
        }
    };
    match bincode::deserialize::<T>(&b) {
        Ok(r) => Some(r),
        Err(_) => {
            check(false, id + 1);
            None
        }
    }
}
fn json<T: Serialize + DeserializeOwned>(v: &T, id: u32) -> Option<T> {
    let b = match serde_json::to_vec(v) {
        Ok(b) => b,
        Err(_) => {
            check(false, id);
            return None;
        }
    };
    match serde_json::from_slice::<T>(&b) {
        Ok(r) => Some(r),
        Err(_) => {
            check(false, id + 1);
            None
        }
    }
}
fn both<T: Serialize + DeserializeOwned + PartialEq>(v: &T, text: bool, id: u32) {
    let r = if text { json(v, id) } else { bin(v, id) };
    if let Some(r) = r {
        cover(1);
        check(r == *v, id + 2);
    }
}
/// In a text format the path count multiplies over the symbolic fields: only a window of `FREE` fields after the first
/// `SKIP` ones is symbolic (which window is a choice of the caller)
static SKIP: AtomicU32 = AtomicU32::new(0);
static FREE: AtomicU32 = AtomicU32::new(u32::MAX);
fn window(skip: u32, free: u32) {
    SKIP.store(skip, Relaxed);
    FREE.store(free, Relaxed);
}
fn free() -> bool {
    let s = SKIP.load(Relaxed);
    if s > 0 {
        SKIP.store(s - 1, Relaxed);
        return false;
    }
    let f = FREE.load(Relaxed);
    if f == 0 {
        return false;
    }
    if f != u32::MAX {
        FREE.store(f - 1, Relaxed);
    }
    true
}
/// In a text format every digit of a symbolic byte forks, so there one byte (at the start, in the middle or at the end)
/// ranges over all values and the rest of the string is fixed.
fn arr32(text: bool) -> [u8; 32] {
    if !text {
        return generic::<32>();
    }
    let mut a = [0u8; 32];
    for (i, x) in a.iter_mut().enumerate() {
        *x = (i as u8).wrapping_mul(41).wrapping_add(7);
    }
    if free() {
        a[[1, 15, 31][choice(3) as usize]] = u8_any();
    }
    a
}
fn sec(text: bool) -> SecretKey {
    if text {
        SecretKey::from_slice(&arr32(true)).unwrap()
    } else {
        sk()
    }
}
const KEYS: [[u8; 33]; 2] = [
    // G and 3G' style constants: both parities
    [
        2, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d,
        0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    ],
    [
        3, 0xc6, 0x04, 0x7f, 0x94, 0x41, 0xed, 0x7d, 0x6d, 0x30, 0x45, 0x40, 0x6e, 0x95, 0xc0, 0x7c, 0xd8, 0x5c, 0x77, 0x8e, 0x4b, 0x8c,
        0xef, 0x3c, 0xa7, 0xab, 0xac, 0x09, 0xb9, 0x5c, 0x70, 0x9e, 0xe5,
    ],
];
fn key(text: bool) -> PublicKey {
    if text {
        PublicKey::from_slice(&KEYS[if free() { choice(2) as usize } else { 1 }]).unwrap()
    } else {
        pk(&sk())
    }
}
fn n32(text: bool) -> u32 {
    if text {
        if !free() {
            return 3;
        }
        [0, 1, 7, 4_294_967_295][choice(4) as usize]
    } else {
        u32_any()
    }
}
fn n64(text: bool) -> u64 {
    if text {
        if !free() {
            return 3;
        }
        [0, 12_345, 2_100_000_000_000_000][choice(3) as usize]
    } else {
        u64_any()
    }
}
fn opt(l: u32) -> Option<u32> {
    if flag() {
        Some(l)
    } else {
        None
    }
}
fn op(text: bool) -> OutPoint {
    OutPoint::new(Txid::from_byte_array(arr32(text)), n32(text))
}
fn spk(text: bool) -> ScriptBuf {
    match choice(3) {
        0 => ScriptBuf::new(),
        1 => spk_wpkh(&arr32(text)[12..].try_into().unwrap()),
        _ => spk_tr(&arr32(text)),
    }
}
fn spout(text: bool) -> SpOut {
    SpOut { outpoint: op(text), tweak: sec(text), script_pubkey: spk(text), amount: Amount::from_sat(n64(text)), label: opt(n32(text)) }
}
fn spout_small(text: bool) -> SpOut {
    SpOut {
        outpoint: OutPoint::new(Txid::from_byte_array(arr32(text)), 2),
        tweak: sec(text),
        script_pubkey: spk_tr(&arr32(text)),
        amount: Amount::from_sat(77_000),
        label: opt(if text { 9 } else { u32_any() }),
    }
}
fn label(text: bool) -> Label {
    let t = sec(text);
    Label { num: n32(text), tweak: Scalar::from(t), point: if text { key(text) } else { pk(&t) } }
}
fn spouts(text: bool) {
    let v = spout(text);
    both(&v, text, 10);
}
fn meta(text: bool) {
    let v = SpMeta { tweak: sec(text), label: opt(n32(text)) };
    let r = if text { json(&v, 20) } else { bin(&v, 20) };
    if let Some(r) = r {
        cover(1);
        check(r.tweak == v.tweak && r.label == v.label, 22);
    }
}
fn labels(text: bool) {
    both(&label(text), text, 30);
    let s = Scalar::from(sec(text));
    let v = ScalarBytes(s);
    if let Some(r) = if text { json(&v, 33) } else { bin(&v, 33) } {
        cover(2);
        check(r.0 == s, 35);
    }
}
fn v1(text: bool) {
    let mut c = SpIndexesChangeSet::default();
    // one component at a time, or all of them
    let only = choice(7);
    let on = |i| only == i || only == 6;
    if text {
        window(choice(if only == 6 { 16 } else { 4 }), 2);
    }
    if on(0) {
        let s = spout_small(text);
        c.spouts.insert(s.outpoint, s);
    }
    if on(1) {
        let s = spout_small(text);
        c.script_to_spout.insert(s.script_pubkey.clone(), s);
    }
    if on(2) {
        c.txid_to_shared_secret.insert(Txid::from_byte_array(arr32(text)), key(text));
    }
    if on(3) {
        let s = spout_small(text);
        c.label_to_spout.insert((s.label, s));
    }
    if on(4) {
        let t = sec(text);
        c.label_to_tweak.insert(if text { key(text) } else { pk(&t) }, (t, n32(text)));
    }
    if on(5) {
        c.num_to_label.insert(n32(text), key(text));
    }
    both(&c, text, 40);
}
fn v2(text: bool) {
    let mut c = C2::default();
    let only = choice(11);
    let on = |i| only == i || only == 10;
    if text {
        window(choice(if only == 10 { 20 } else { 6 }), 2);
    }
    let txid = Txid::from_byte_array(arr32(text));
    if on(0) {
        c.scan_sk = Some(sec(text));
    }
    if on(1) {
        c.spend_pk = Some(key(text));
    }
    if on(2) {
        c.txid_to_partial_secret.insert(txid, key(text));
    }
    if on(3) {
        c.label_lookup.insert(label(text));
    }
    if on(4) {
        c.graph.txs.insert(Arc::new(Transaction {
            version: bdk_sp::bitcoin::transaction::Version::TWO,
            lock_time: bdk_sp::bitcoin::absolute::LockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::new(txid, 1),
                script_sig: ScriptBuf::new(),
                sequence: bdk_sp::bitcoin::Sequence::MAX,
                witness: Witness::from_slice(&[arr32(text)]),
            }],
            output: vec![out(500, spk_tr(&arr32(text)))],
        }));
    }
    if on(5) {
        c.graph.txouts.insert(op(text), TxOut { value: Amount::from_sat(n64(text)), script_pubkey: spk_wpkh(&arr32(text)[12..].try_into().unwrap()) });
    }
    if on(6) {
        let block_id = BlockId { height: n32(text), hash: BlockHash::from_byte_array(arr32(text)) };
        c.graph.anchors.insert((ConfirmationBlockTime { block_id, confirmation_time: n64(text) }, txid));
    }
    if on(7) {
        c.graph.last_seen.insert(txid, n64(text));
    }
    if on(8) {
        c.graph.last_evicted.insert(txid, n64(text));
    }
    if on(9) {
        c.graph.first_seen.insert(txid, n64(text));
    }
    both(&c, text, 50);
}
pub fn c22_bin_spout() {
    spouts(false);
    meta(false);
}
pub fn c22_bin_label() {
    labels(false);
}
pub fn c22_bin_v1() {
    v1(false);
}
pub fn c22_bin_v2() {
    v2(false);
}
pub fn c22_json_spout() {
    spouts(true);
}
pub fn c22_json_meta() {
    meta(true);
}
pub fn c22_json_label() {
    labels(true);
}
pub fn c22_json_v1() {
    v1(true);
}
pub fn c22_json_v2() {
    v2(true);
}
/// the order of the group
const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48,
    0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
fn digits(s: &mut Vec<u8>, x: u8) {
    if x >= 100 {
        s.push(b'0' + x / 100);
    }
    if x >= 10 {
        s.push(b'0' + x / 10 % 10);
    }
    s.push(b'0' + x % 10);
}
/// label scalars of another length or out of range are refused, in binary and in text
pub fn c22_bad_scalar() {
    let v = bytes::<32>();
    let ok = Scalar::from_be_bytes(v);
    let n = [0usize, 31, 32, 33, 64][choice(5) as usize];
    let mut b = v.to_vec();
    b.resize(n, 0);
    let mut s = (n as u64).to_le_bytes().to_vec();
    s.extend_from_slice(&b);
    match bincode::deserialize::<ScalarBytes>(&s) {
        Ok(s) => {
            cover(1);
            check(n == 32 && ok.is_ok() && s.0 == ok.unwrap(), 61);
        }
        Err(_) => {
            cover(2);
            check(n != 32 || ok.is_err(), 62);
        }
    }
}
pub fn c22_bad_scalar_text() {
    let mut v = ORDER;
    if flag() {
        v[[0, 15, 16, 31][choice(4) as usize]] = u8_any();
    } else {
        for (i, x) in v.iter_mut().enumerate() {
            *x = i as u8;
        }
    }
    let ok = Scalar::from_be_bytes(v);
    let n = [0usize, 31, 32, 33, 64][choice(5) as usize];
    let mut s = vec![b'['];
    for i in 0..n {
        if i > 0 {
            s.push(b',');
        }
        digits(&mut s, if i < 32 { v[i] } else { 0 });
    }
    s.push(b']');
    match serde_json::from_slice::<ScalarBytes>(&s) {
        Ok(s) => {
            cover(1);
            check(n == 32 && ok.is_ok() && s.0 == ok.unwrap(), 63);
        }
        Err(_) => {
            cover(2);
            check(n != 32 || ok.is_err(), 64);
        }
    }
}
