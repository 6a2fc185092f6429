//! C21: merging change sets, converting the full-node index
use crate::util::*;
use bdk_sp::bitcoin::{
    hashes::Hash, secp256k1::{PublicKey, Scalar, SecretKey}, Amount, OutPoint, ScriptBuf, Transaction, TxOut, Txid,
};
use bdk_sp::receive::SpOut;
use indexer::bdk_chain::{tx_graph, BlockId, ConfirmationBlockTime, Merge};
use indexer::v2::indexes::Label;
use indexer::v2::ChangeSet;
use indexer::{SpIndexes, SpIndexesChangeSet};
use slxrt::*;
use std::sync::Arc;

type C2 = ChangeSet<ConfirmationBlockTime>;
type G = tx_graph::ChangeSet<ConfirmationBlockTime>;

/// contents of one component: entries (key, value) out of two keys and two values
const CONTENT: [&[(usize, usize)]; 6] = [&[], &[(0, 0)], &[(0, 1)], &[(1, 0)], &[(0, 0), (1, 1)], &[(0, 1), (1, 0)]];
/// two of everything
struct Pool {
    op: [OutPoint; 2],
    txid: [Txid; 2],
    script: [ScriptBuf; 2],
    sk: [SecretKey; 2],
    pk: [PublicKey; 2],
    /// [outpoint][other fields]
    spout: [[SpOut; 2]; 2],
    num: [u32; 2],
    /// [number][point]
    tx: [Arc<Transaction>; 2],
    anchor: [ConfirmationBlockTime; 2],
    time: [u64; 2],
}
fn pool() -> Pool {
    let op = [OutPoint::new(Txid::from_byte_array(generic::<32>()), 3), OutPoint::new(Txid::from_byte_array(generic::<32>()), 1)];
    let sks = [sk(), sk()];
    let pks = [pk(&sks[0]), pk(&sks[1])];
    let script = [spk_wpkh(&generic::<20>()), spk_wpkh(&generic::<20>())];
    let spout = |o: usize, v: usize| SpOut {
        outpoint: op[o],
        tweak: sks[v],
        script_pubkey: script[v].clone(),
        amount: Amount::from_sat(1000 + v as u64),
        label: if v == 0 { None } else { Some(4) },
    };
    let tx = |i: usize| {
        Arc::new(Transaction {
            version: bdk_sp::bitcoin::transaction::Version::TWO,
            lock_time: bdk_sp::bitcoin::absolute::LockTime::ZERO,
            input: vec![],
            output: vec![out(i as u64, script[i].clone())],
        })
    };
    let n = u32_any();
    let n2 = u32_any();
    assume(n != n2);
    let t = u64_any();
    let t2 = u64_any();
    assume(t < t2);
    let anchor = |height, confirmation_time| ConfirmationBlockTime {
        block_id: BlockId { height, hash: bdk_sp::bitcoin::BlockHash::from_byte_array([3; 32]) },
        confirmation_time,
    };
    Pool {
        op,
        txid: [Txid::from_byte_array(generic::<32>()), Txid::from_byte_array(generic::<32>())],
        script: script.clone(),
        sk: sks,
        pk: pks,
        spout: [[spout(0, 0), spout(0, 1)], [spout(1, 0), spout(1, 1)]],
        num: [n, n2],
        tx: [tx(0), tx(1)],
        anchor: [anchor(5, 6), anchor(5, 7)],
        time: [t, t2],
    }
}
fn fill(s: &mut SpIndexesChangeSet, p: &Pool, comp: u32, content: &[(usize, usize)]) {
    for &(k, v) in content {
        match comp {
            0 => drop(s.spouts.insert(p.op[k], p.spout[k][v].clone())),
            1 => drop(s.script_to_spout.insert(p.script[k].clone(), p.spout[k][v].clone())),
            2 => drop(s.txid_to_shared_secret.insert(p.txid[k], p.pk[v])),
            3 => drop(s.label_to_spout.insert((if v == 0 { None } else { Some(4) }, p.spout[k][v].clone()))),
            4 => drop(s.label_to_tweak.insert(p.pk[k], (p.sk[v], p.num[v]))),
            _ => drop(s.num_to_label.insert(p.num[k], p.pk[v])),
        }
    }
}
const V1: u32 = 6;
fn fill2(s: &mut C2, p: &Pool, comp: u32, content: &[(usize, usize)]) {
    for &(k, v) in content {
        match comp {
            0 => s.scan_sk = Some(p.sk[0]),
            1 => s.spend_pk = Some(p.pk[1]),
            2 => drop(s.txid_to_partial_secret.insert(p.txid[k], p.pk[v])),
            3 => drop(s.label_lookup.insert(Label { num: p.num[k], tweak: Scalar::from(p.sk[v]), point: p.pk[v] })),
            4 => drop(s.graph.txs.insert(p.tx[k].clone())),
            5 => drop(s.graph.txouts.insert(p.op[k], TxOut { value: Amount::from_sat(v as u64), script_pubkey: p.script[v].clone() })),
            6 => drop(s.graph.anchors.insert((p.anchor[k], p.txid[v]))),
            7 => drop(s.graph.last_seen.insert(p.txid[k], p.time[v])),
            8 => drop(s.graph.first_seen.insert(p.txid[k], p.time[v])),
            _ => drop(s.graph.last_evicted.insert(p.txid[k], p.time[v])),
        }
    }
}
const V2: u32 = 10;
/// the other components hold one entry of their own in each change set, or nothing
fn three<S: Default>(comps: u32, p: &Pool, comp: u32, rest: bool, f: fn(&mut S, &Pool, u32, &[(usize, usize)])) -> [S; 3] {
    [0usize, 1, 2].map(|i| {
        let mut s = S::default();
        for c in 0..comps {
            if c == comp {
                f(&mut s, p, c, CONTENT[choice(if i < 2 { 6 } else { 3 }) as usize]);
            } else if rest && i < 2 {
                f(&mut s, p, c, &[(i, i)]);
            }
        }
        s
    })
}
fn merged<S: Merge + Clone>(a: &S, b: &S) -> S {
    let mut r = a.clone();
    r.merge(b.clone());
    r
}
fn laws<S: Merge + Clone + Default + PartialEq>(a: &S, b: &S, c: &S) {
    cover(1);
    check(merged(&merged(a, b), c) == merged(a, &merged(b, c)), 1);
    check(merged(a, a) == *a, 2);
    check(merged(a, &S::default()) == *a && merged(&S::default(), a) == *a, 3);
    // empty exactly when it changes nothing
    check(a.is_empty() == (merged(&S::default(), a) == S::default()), 4);
    let ab = merged(a, b);
    check(ab.is_empty() == (a.is_empty() && b.is_empty()), 5);
    // what was merged is there already
    check(merged(&ab, b) == ab, 6);
    let mut t = a.clone();
    check(t.take().is_some() != a.is_empty(), 7);
}
macro_rules! map_ok {
    ($r:expr, $a:expr, $b:expr, $f:ident, $id:expr) => {
        check($r.$f.iter().all(|(k, v)| $b.$f.get(k).or($a.$f.get(k)) == Some(v)), $id);
        check($a.$f.keys().chain($b.$f.keys()).all(|k| $r.$f.contains_key(k)), $id + 1);
    };
}
macro_rules! set_ok {
    ($r:expr, $a:expr, $b:expr, $f:ident, $id:expr) => {
        check($r.$f.iter().all(|k| $a.$f.contains(k) || $b.$f.contains(k)), $id);
        check($a.$f.iter().chain($b.$f.iter()).all(|k| $r.$f.contains(k)), $id + 1);
    };
}
pub fn c21_v1() {
    let p = pool();
    let [a, b, c] = three::<SpIndexesChangeSet>(V1, &p, choice(V1), flag(), fill);
    laws(&a, &b, &c);
    check(a.is_empty() == (a == SpIndexesChangeSet::default()), 10);
    let r = merged(&a, &b);
    map_ok!(r, a, b, spouts, 20);
    map_ok!(r, a, b, script_to_spout, 22);
    map_ok!(r, a, b, txid_to_shared_secret, 24);
    set_ok!(r, a, b, label_to_spout, 26);
    map_ok!(r, a, b, label_to_tweak, 28);
    map_ok!(r, a, b, num_to_label, 30);
    // into the index and back
    let ix: SpIndexes = r.clone().into();
    check(ix.spouts == r.spouts && ix.script_to_spout == r.script_to_spout, 40);
    check(ix.txid_to_shared_secret == r.txid_to_shared_secret && ix.label_to_spout == r.label_to_spout, 41);
    check(ix.num_to_label == r.num_to_label && ix.label_to_tweak.len() == r.label_to_tweak.len(), 42);
    for (k, (t, m)) in &r.label_to_tweak {
        check(ix.label_to_tweak.get(k) == Some(&(Scalar::from(*t), *m)), 43);
    }
    let back: SpIndexesChangeSet = ix.clone().into();
    check(back == r, 44);
    let again: SpIndexes = back.into();
    check(again == ix, 45);
}
pub fn c21_v2() {
    let p = pool();
    let [a, b, c] = three::<C2>(V2, &p, choice(V2), flag(), fill2);
    laws(&a, &b, &c);
    check(a.is_empty() == (a == C2::default()), 10);
    let r = merged(&a, &b);
    check(r.scan_sk == b.scan_sk.or(a.scan_sk) && r.spend_pk == b.spend_pk.or(a.spend_pk), 20);
    map_ok!(r, a, b, txid_to_partial_secret, 21);
    set_ok!(r, a, b, label_lookup, 23);
    let mut g: G = a.graph.clone();
    g.merge(b.graph.clone());
    check(r.graph == g, 25);
    set_ok!(r.graph, a.graph, b.graph, txs, 26);
    set_ok!(r.graph, a.graph, b.graph, anchors, 28);
    map_ok!(r.graph, a.graph, b.graph, txouts, 30);
    let from: C2 = g.clone().into();
    check(from.graph == g && from.scan_sk.is_none() && from.spend_pk.is_none(), 32);
    check(from.txid_to_partial_secret.is_empty() && from.label_lookup.is_empty(), 33);
}
