//! C03, C10, C18: labels, light client scripts and index of the v2 indexer; labels of the v1 indexer
use crate::util::*;
use bdk_sp::bitcoin::{
    hashes::Hash, secp256k1::{PublicKey, SecretKey}, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, Txid, Witness,
};
use indexer::bdk_chain::{ConfirmationBlockTime, Merge};
use indexer::v2::SpIndexerV2;
use indexer::SpIndexes;
use slxrt::*;

pub type A = ConfirmationBlockTime;
pub type Ix = SpIndexerV2<A>;

fn net() -> Network {
    [Network::Bitcoin, Network::Testnet, Network::Regtest][choice(3) as usize]
}
pub fn c03_v1() {
    let w = Wallet::new();
    let m = u32_any();
    let n = net();
    let code = bdk_sp::encoding::SilentPaymentCode::new_v0(pk(&w.scan), pk(&w.spend), n);
    let mut ix = SpIndexes::default();
    check(ix.get_label(m).is_none(), 1);
    let l = match ix.add_label(code, w.scan, m) {
        Ok(l) => l,
        Err(_) => return check(false, 2),
    };
    cover(1);
    check(l.scan == pk(&w.scan) && l.network == n && l.version() == 0, 3);
    check(l.spend == w.labelled(m).spend, 4);
    check(ix.get_label(m) == Some(sc(ref_label(&w.scan, m))), 5);
    check(ix.num_to_label.get(&m) == Some(&w.label_point(m)), 6);
    check(ix.label_to_tweak.get(&w.label_point(m)) == Some(&(sc(ref_label(&w.scan, m)), m)), 7);
    check(ix.num_to_label.len() == 1 && ix.label_to_tweak.len() == 1, 8);
    // a second label leaves the first one alone
    let m2 = u32_any();
    check(ix.add_label(bdk_sp::encoding::SilentPaymentCode::new_v0(pk(&w.scan), pk(&w.spend), n), w.scan, m2).is_ok(), 9);
    check(ix.get_label(m) == Some(sc(ref_label(&w.scan, m))), 10);
    check(ix.get_label(m2) == Some(sc(ref_label(&w.scan, m2))), 11);
    check(ix.num_to_label.len() == if m == m2 { 1 } else { 2 }, 12);
}
pub fn c03_v2() {
    let w = Wallet::new();
    let m = u32_any();
    let n = net();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let a = ix.get_address(n);
    check(a.scan == pk(&w.scan) && a.spend == pk(&w.spend) && a.network == n && a.version() == 0, 1);
    check(ix.index().get_label(m).is_none(), 2);
    // registered first, or by asking for the address
    if flag() {
        let cs = ix.add_label(m);
        check(cs.label_lookup.len() == 1 && cs.txid_to_partial_secret.is_empty() && cs.graph.is_empty(), 3);
        let l = cs.label_lookup.iter().next().unwrap();
        check(l.num == m && l.tweak == sc(ref_label(&w.scan, m)) && l.point == w.label_point(m), 4);
    }
    let l = ix.get_labeled_address(m, n);
    cover(1);
    check(l.scan == pk(&w.scan) && l.network == n && l.version() == 0, 5);
    check(l.spend == w.labelled(m).spend, 6);
    check(ix.index().get_label(m) == Some(sc(ref_label(&w.scan, m))), 7);
    check(ix.index().num_to_label.get(&m) == Some(&w.label_point(m)), 8);
    check(ix.index().label_lookup.get(&w.label_point(m)) == Some(&(sc(ref_label(&w.scan, m)), m)), 9);
    check(ix.index().num_to_label.len() == 1 && ix.index().label_lookup.len() == 1, 10);
    let m2 = u32_any();
    let l2 = ix.get_labeled_address(m2, n);
    check(l2.spend == w.labelled(m2).spend, 11);
    check(ix.index().get_label(m) == Some(sc(ref_label(&w.scan, m))), 12);
    check(ix.index().get_label(m2) == Some(sc(ref_label(&w.scan, m2))), 13);
    check(ix.index().num_to_label.len() == if m == m2 { 1 } else { 2 }, 14);
}
/// the scripts of the light client are the ones a sender creates for counter 0
pub fn c10_v2() {
    let w = Wallet::new();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let n = choice(3);
    let mut ms = vec![];
    for _ in 0..n {
        let m = u32_any();
        assume(!ms.contains(&m));
        let _ = ix.add_label(m);
        ms.push(m);
    }
    let a = sk();
    let got = ix.derive_spks_for_tweak(&pk(&a));
    check(got.len() == ms.len() + 1, 1);
    cover(1);
    let plain = spk_tr(&ref_output(&a, &pk(&w.scan), &pk(&w.spend), 0));
    check(got.iter().any(|g| g[..] == plain.as_bytes()[..]), 2);
    for m in &ms {
        let l = spk_tr(&ref_output(&a, &pk(&w.scan), &w.labelled(*m).spend, 0));
        check(got.iter().any(|g| g[..] == l.as_bytes()[..]), 3);
    }
}

// ------------------------------------------------------------------ indexed transactions
#[derive(Clone, Copy, PartialEq)]
pub enum Pays {
    Me(Option<u32>),
    Unrelated,
    NotTaproot,
    Data,
}
pub struct Case {
    pub tx: Transaction,
    /// discrete log of the tweak data
    pub a: SecretKey,
    pub point: PublicKey,
    /// index, label
    pub mine: Vec<(usize, Option<u32>)>,
}
pub fn txin(previous_output: OutPoint) -> TxIn {
    TxIn { previous_output, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() }
}
pub fn some_outpoint() -> OutPoint {
    OutPoint::new(Txid::from_byte_array(generic::<32>()), 0)
}
/// a transaction paying as asked, `known`: the labels it can be found under
pub fn case(w: &Wallet, ins: Vec<OutPoint>, pays: &[Pays]) -> Case {
    case_with(w, ins, pays, false)
}
/// `even`: only cases where the owned output keys have an even Y (the parity is the matter of C08, C09, C18)
pub fn case_with(w: &Wallet, ins: Vec<OutPoint>, pays: &[Pays], even: bool) -> Case {
    let a = sk();
    let mut outs = vec![];
    let mut mine = vec![];
    let mut k = 0;
    for (i, p) in pays.iter().enumerate() {
        let spk = match p {
            Pays::Me(l) => {
                let spend = match l {
                    None => pk(&w.spend),
                    Some(m) => w.labelled(*m).spend,
                };
                mine.push((i, *l));
                k += 1;
                let p = ref_point(&a, &pk(&w.scan), &spend, k - 1);
                if even {
                    assume(p.serialize()[0] == 2);
                }
                spk_tr(&xonly(&p))
            }
            Pays::Unrelated => spk_tr(&xonly(&pk(&sk()))),
            Pays::NotTaproot => spk_wpkh(&generic::<20>()),
            Pays::Data => ScriptBuf::from_bytes(vec![0x6a, 2, 9, 9]),
        };
        outs.push(out(1000 + i as u64, spk));
    }
    let tx = Transaction {
        version: bdk_sp::bitcoin::transaction::Version::TWO,
        lock_time: bdk_sp::bitcoin::absolute::LockTime::ZERO,
        input: ins.into_iter().map(txin).collect(),
        output: outs,
    };
    Case { tx, a, point: pk(&a), mine }
}
/// every lookup returns exactly the expected outputs
pub fn lookups(ix: &Ix, w: &Wallet, cs: &[&Case]) {
    let i = ix.index();
    let n: usize = cs.iter().map(|c| c.mine.len()).sum();
    check(i.by_shared_secret.len() == n, 20);
    check(i.by_script.len() == n, 21);
    check(i.by_label.len() == n, 22);
    check(i.by_xonly().count() == n, 23);
    check(i.txid_to_partial_secret.len() == cs.iter().filter(|c| !c.mine.is_empty()).count(), 24);
    for c in cs {
        let txid = c.tx.compute_txid();
        check(i.txouts_in_tx(txid).count() == c.mine.len(), 25);
        check(i.txid_to_partial_secret.get(&txid) == if c.mine.is_empty() { None } else { Some(&c.point) }, 26);
        for (j, o) in c.tx.output.iter().enumerate() {
            let op = OutPoint::new(txid, j as u32);
            match c.mine.iter().find(|m| m.0 == j) {
                None => {
                    check(i.by_shared_secret.get(&op).is_none(), 27);
                    check(i.get_by_script(&o.script_pubkey).is_none(), 28);
                }
                Some((_, label)) => {
                    cover(1);
                    let t = match i.by_shared_secret.get(&op) {
                        Some(t) => *t,
                        None => return check(false, 29),
                    };
                    let own = w.spend.add_tweak(&t.into());
                    check(own.is_ok() && spk_tr(&xonly(&pk(&own.unwrap()))) == o.script_pubkey, 30);
                    check(i.get_by_script(&o.script_pubkey) == Some(&t), 31);
                    check(i.by_script.get(&o.script_pubkey) == Some(&op), 32);
                    check(i.get_by_label(*label).any(|x| *x == t), 33);
                    check(i.txouts_in_tx(txid).any(|x| *x == t), 34);
                    check(i.by_xonly().any(|(x, p)| *p == op && x.serialize()[..] == o.script_pubkey.as_bytes()[2..]), 35);
                }
            }
        }
    }
    for l in [None, Some(0), Some(1), Some(2), Some(3)] {
        let want = cs.iter().flat_map(|c| c.mine.iter()).filter(|m| m.1 == l).count();
        check(i.get_by_label(l).count() == want, 36);
    }
}
const PAYS: [Pays; 4] = [Pays::Me(None), Pays::Me(Some(1)), Pays::Unrelated, Pays::NotTaproot];
pub fn c18_one() {
    let w = Wallet::new();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let _ = ix.add_label(1);
    let n = choice(4);
    let pays: Vec<Pays> = (0..n).map(|_| PAYS[choice(4) as usize]).collect();
    let c = case(&w, vec![some_outpoint()], &pays);
    let cs = ix.index_tx(&c.tx, &c.point);
    check(cs.is_empty() == c.mine.is_empty(), 1);
    check(cs.txid_to_partial_secret.get(&c.tx.compute_txid()) == if c.mine.is_empty() { None } else { Some(&c.point) }, 2);
    lookups(&ix, &w, &[&c]);
    let before = ix.index().clone();
    let _ = ix.index_tx(&c.tx, &c.point);
    check(*ix.index() == before, 3);
}

/// what scanning finds once the given labels are registered: payments up to the first one it can't see
pub fn found(c: &Case, labels: &[u32]) -> Vec<(usize, Option<u32>)> {
    let mut r = vec![];
    for (i, l) in &c.mine {
        match l {
            Some(m) if !labels.contains(m) => break,
            _ => r.push((*i, *l)),
        }
    }
    r
}
fn with(c: &Case, mine: Vec<(usize, Option<u32>)>) -> Case {
    Case { tx: c.tx.clone(), a: c.a, point: c.point, mine }
}
const PA: [&[Pays]; 4] = [&[Pays::Me(None)], &[Pays::Me(Some(1))], &[Pays::Unrelated], &[Pays::Unrelated, Pays::Me(Some(2))]];
const PB: [&[Pays]; 3] = [&[Pays::Me(Some(1))], &[Pays::Me(Some(2)), Pays::Me(None)], &[Pays::Me(None), Pays::Me(Some(2))]];
/// label registrations and indexed transactions in any order
pub fn c18_history() {
    let w = Wallet::new();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let cs = [case(&w, vec![some_outpoint()], PA[choice(4) as usize]), case(&w, vec![some_outpoint()], PB[choice(3) as usize])];
    let mut labels: Vec<u32> = vec![];
    let mut seen = [with(&cs[0], vec![]), with(&cs[1], vec![])];
    for _ in 0..4 {
        match choice(4) {
            op @ (0 | 1) => {
                let c = &cs[op as usize];
                let f = found(c, &labels);
                let r = ix.index_tx(&c.tx, &c.point);
                check(r.txid_to_partial_secret.len() == usize::from(!f.is_empty()), 1);
                seen[op as usize] = with(c, f);
            }
            op => {
                let m = op - 1;
                let before = ix.index().clone();
                let _ = ix.add_label(m);
                if labels.contains(&m) {
                    check(*ix.index() == before, 2);
                } else {
                    labels.push(m);
                }
                check(ix.index().by_shared_secret == before.by_shared_secret, 3);
            }
        }
    }
    lookups(&ix, &w, &[&seen[0], &seen[1]]);
}

/// labels registered before and after the transactions are added to the graph
pub fn c18_late() {
    late(&[1, 2]);
}
pub fn c18_late3() {
    late(&[1, 2, 3]);
}
fn late(all: &[u32]) {
    let w = Wallet::new();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let me = Pays::Me;
    let pays: &[Pays] = match choice(5) {
        0 => &[me(None), me(Some(1)), me(Some(2))],
        1 => &[me(Some(2)), me(None), me(Some(1))],
        2 => &[me(Some(1)), Pays::Unrelated, me(Some(1))],
        3 => &[me(None), Pays::NotTaproot, me(Some(3))],
        _ => &[me(Some(3)), me(Some(2))],
    };
    let c = case_with(&w, vec![some_outpoint()], pays, true);
    // a permutation of the labels, and how many come before the transaction
    let mut left = all.to_vec();
    let mut order = vec![];
    while !left.is_empty() {
        order.push(left.remove(choice(left.len() as u32) as usize));
    }
    let first = choice(1 + all.len() as u32) as usize;
    let mut labels = vec![];
    let mut seen = vec![];
    for step in 0..=order.len() {
        if step == first {
            let cs = ix.batch_insert_relevant_unconfirmed([(c.tx.clone(), c.point, 5)]);
            seen = found(&c, &labels);
            check(cs.graph.txs.len() == usize::from(!seen.is_empty()), 40);
        }
        if step < order.len() {
            let _ = ix.add_label(order[step]);
            labels.push(order[step]);
            if !seen.is_empty() {
                seen = found(&c, &labels);
                cover(2);
            }
        }
        check(labels.iter().all(|m| ix.index().get_label(*m) == Some(sc(ref_label(&w.scan, *m)))), 41);
        lookups(&ix, &w, &[&with(&c, seen.clone())]);
    }
}
