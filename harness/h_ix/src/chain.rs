//! C19, C20: blocks, mempool batches and restored state of the v2 indexer
use crate::util::*;
use crate::v2::*;
use bdk_sp::bitcoin::{
    block::{Header, Version}, hashes::Hash, secp256k1::PublicKey, Block, BlockHash, CompactTarget, OutPoint, TxMerkleNode, Txid,
};
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime, Merge};
use indexer::v2::ChangeSet;
use slxrt::*;
use std::collections::{BTreeMap, HashMap};

struct T {
    c: Case,
    /// the tweak data of the transaction is known
    secret: bool,
    /// pays the wallet or spends an output it owns
    relevant: bool,
}
impl T {
    fn found(&self) -> bool {
        self.secret && !self.c.mine.is_empty()
    }
    fn txid(&self) -> Txid {
        self.c.tx.compute_txid()
    }
}
const UNRELATED: u32 = 0;
const PAYS: u32 = 1;
const PAYS_UNKNOWN: u32 = 2;
const SPENDS_PREV: u32 = 3;
const SPENDS_BASE: u32 = 4;
const SPENDS_OTHER: u32 = 5;
const SPENDS_AND_PAYS: u32 = 6;
const LATE: u32 = 7;
const DATA: u32 = 8;
const N: u32 = 9;

fn op(c: &Case, v: u32) -> OutPoint {
    OutPoint::new(c.tx.compute_txid(), v)
}
fn make(kind: u32, w: &Wallet, base: &Case, prev: Option<&T>, label: bool) -> T {
    let label = Pays::Me(if label { Some(1) } else { None });
    let (ins, pays, secret): (Vec<OutPoint>, &[Pays], bool) = match kind {
        UNRELATED => (vec![some_outpoint()], &[Pays::Unrelated], true),
        PAYS => (vec![some_outpoint()], &[Pays::NotTaproot, label], true),
        PAYS_UNKNOWN => (vec![some_outpoint()], &[Pays::NotTaproot, label], false),
        SPENDS_PREV => match prev {
            Some(p) => (vec![some_outpoint(), op(&p.c, p.c.mine.first().map_or(0, |m| m.0 as u32))], &[Pays::NotTaproot], false),
            None => (vec![some_outpoint()], &[Pays::NotTaproot], false),
        },
        SPENDS_BASE => (vec![some_outpoint(), op(base, 0)], &[Pays::NotTaproot], false),
        SPENDS_OTHER => (vec![op(base, 1)], &[Pays::NotTaproot], true),
        LATE => (vec![some_outpoint()], &[Pays::NotTaproot, Pays::NotTaproot, Pays::Unrelated, label], true),
        DATA => (vec![some_outpoint()], &[Pays::Data], false),
        _ => (vec![op(base, 0), some_outpoint()], &[Pays::Me(None)], true),
    };
    let c = case_with(w, ins, pays, true);
    let found = secret && !c.mine.is_empty();
    let relevant = found
        || kind == SPENDS_BASE
        || kind == SPENDS_AND_PAYS
        || (kind == SPENDS_PREV && prev.is_some_and(|p| p.found()));
    T { c, secret, relevant }
}
/// a wallet, with label 1 if asked, that already owns output 0 of the returned transaction
fn start(w: &Wallet, label: bool) -> (Ix, Case) {
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    if label {
        let _ = ix.add_label(1);
    }
    let base = case_with(w, vec![some_outpoint()], &[Pays::Me(None), Pays::NotTaproot], true);
    let _ = ix.batch_insert_relevant_unconfirmed([(base.tx.clone(), base.point, 5)]);
    (ix, base)
}
fn block(txs: &[&Case], w: &Wallet, secrets: &mut HashMap<Txid, PublicKey>) -> (Block, Case) {
    let coinbase = case(w, vec![OutPoint::null()], &[Pays::Me(None)]);
    secrets.insert(coinbase.tx.compute_txid(), coinbase.point);
    let mut txdata = vec![coinbase.tx.clone()];
    txdata.extend(txs.iter().map(|c| c.tx.clone()));
    let header = Header {
        version: Version::TWO,
        prev_blockhash: BlockHash::from_byte_array(generic::<32>()),
        merkle_root: TxMerkleNode::from_byte_array(generic::<32>()),
        time: u32_any(),
        bits: CompactTarget::from_consensus(0x207f_ffff),
        nonce: 7,
    };
    (Block { header, txdata }, coinbase)
}
/// the graph holds the transactions of `kept` and the base, and nothing else
fn graph_is(ix: &Ix, base: &Case, kept: &[&T], dropped: &[Txid]) {
    check(ix.graph().full_txs().count() == kept.len() + 1, 10);
    check(ix.graph().get_tx(base.tx.compute_txid()).is_some(), 11);
    for t in kept {
        match ix.graph().get_tx(t.txid()) {
            Some(x) => check(*x == t.c.tx, 12),
            None => check(false, 13),
        }
    }
    for t in dropped {
        check(ix.graph().get_tx(*t).is_none(), 14);
    }
    check(ix.graph().floating_txouts().count() == 0, 15);
}
fn index_is(ix: &Ix, w: &Wallet, base: &Case, ts: &[&T]) {
    let mut cs: Vec<&Case> = vec![base];
    cs.extend(ts.iter().filter(|t| t.found()).map(|t| &t.c));
    lookups(ix, w, &cs);
}
fn common(cs: &ChangeSet<ConfirmationBlockTime>, ts: &[&T], kept: &[&T]) {
    check(cs.scan_sk.is_none() && cs.spend_pk.is_none() && cs.label_lookup.is_empty(), 20);
    let found: Vec<&&T> = ts.iter().filter(|t| t.found()).collect();
    check(cs.txid_to_partial_secret.len() == found.len(), 21);
    for t in found {
        check(cs.txid_to_partial_secret.get(&t.txid()) == Some(&t.c.point), 22);
    }
    check(cs.graph.txs.len() == kept.len(), 23);
    for t in kept {
        check(cs.graph.txs.iter().any(|x| **x == t.c.tx), 24);
    }
    check(cs.graph.txouts.is_empty() && cs.graph.last_evicted.is_empty(), 25);
}
fn blocks(kinds: &[u32], n: usize) {
    let w = Wallet::new();
    let label = n == 1;
    let (mut ix, base) = start(&w, label);
    let all = flag();
    let mut ts: Vec<T> = vec![];
    for _ in 0..n {
        let t = make(kinds[choice(kinds.len() as u32) as usize], &w, &base, ts.last(), label);
        ts.push(t);
    }
    let mut secrets: HashMap<Txid, PublicKey> =
        ts.iter().filter(|t| t.secret).map(|t| (t.txid(), t.c.point)).collect();
    let (b, coinbase) = block(&ts.iter().map(|t| &t.c).collect::<Vec<_>>(), &w, &mut secrets);
    let height = u32_any();
    let cs = if all { ix.apply_block(&b, secrets, height) } else { ix.apply_block_relevant(&b, secrets, height) };
    let refs: Vec<&T> = ts.iter().collect();
    let kept: Vec<&T> = ts.iter().filter(|t| all || t.relevant).collect();
    let mut dropped: Vec<Txid> = ts.iter().filter(|t| !all && !t.relevant).map(|t| t.txid()).collect();
    dropped.push(coinbase.tx.compute_txid());
    graph_is(&ix, &base, &kept, &dropped);
    index_is(&ix, &w, &base, &refs);
    common(&cs, &refs, &kept);
    let anchor = ConfirmationBlockTime {
        block_id: BlockId { height, hash: b.block_hash() },
        confirmation_time: b.header.time as u64,
    };
    check(ix.graph().all_anchors().len() == kept.len(), 30);
    check(cs.graph.anchors.len() == kept.len(), 31);
    for t in &kept {
        cover(if t.found() { 1 } else if t.relevant { 2 } else { 3 });
        let a = ix.graph().all_anchors().get(&t.txid());
        check(a.is_some() && a.unwrap().len() == 1 && a.unwrap().contains(&anchor), 32);
        check(cs.graph.anchors.contains(&(anchor, t.txid())), 33);
    }
    check(cs.graph.last_seen.is_empty() && cs.graph.first_seen.is_empty(), 34);
}
pub fn c20_block() {
    blocks(&[0, 1, 2, 3, 4, 5, 6, LATE, DATA], 1 + choice(2) as usize);
}
pub fn c20_block3() {
    blocks(&[PAYS, SPENDS_PREV, UNRELATED], 3);
}
pub fn c20_block3_all() {
    blocks(&[0, 1, 2, 3, 4, 5, 6], 3);
}
/// transactions for a batch, the second one may spend the first; any order; all with tweak data
fn batch(w: &Wallet, base: &Case, kinds: &[u32], n: usize) -> Vec<T> {
    let mut ts: Vec<T> = vec![];
    for _ in 0..n {
        let mut t = make(kinds[choice(kinds.len() as u32) as usize], w, base, ts.last(), n == 1);
        t.secret = true;
        if !t.c.mine.is_empty() {
            t.relevant = true;
        }
        ts.push(t);
    }
    if n > 1 && flag() {
        ts.reverse();
    }
    ts
}
const BATCH: [u32; 7] = [UNRELATED, PAYS, SPENDS_PREV, SPENDS_BASE, SPENDS_OTHER, SPENDS_AND_PAYS, LATE];
pub fn c20_mempool() {
    let w = Wallet::new();
    let n = 1 + choice(2) as usize;
    let (ix, base) = start(&w, n == 1);
    let ts = batch(&w, &base, &BATCH, n);
    mempool(&w, ix, &base, ts);
}
pub fn c20_mempool3() {
    let w = Wallet::new();
    let (ix, base) = start(&w, false);
    let ts = batch(&w, &base, &[UNRELATED, PAYS, SPENDS_PREV], 3);
    mempool(&w, ix, &base, ts);
}
fn mempool(w: &Wallet, mut ix: Ix, base: &Case, ts: Vec<T>) {
    let all = flag();
    let seen: Vec<u64> = if ts.len() == 1 { vec![u64_any()] } else { (0..ts.len() as u64).map(|i| 70 - 10 * i).collect() };
    let txs: Vec<_> = ts.iter().zip(&seen).map(|(t, s)| (t.c.tx.clone(), t.c.point, *s)).collect();
    let cs = if all { ix.batch_insert_unconfirmed(txs) } else { ix.batch_insert_relevant_unconfirmed(txs) };
    let refs: Vec<&T> = ts.iter().collect();
    let kept: Vec<&T> = ts.iter().filter(|t| all || t.relevant).collect();
    let dropped: Vec<Txid> = ts.iter().filter(|t| !all && !t.relevant).map(|t| t.txid()).collect();
    graph_is(&ix, base, &kept, &dropped);
    index_is(&ix, w, base, &refs);
    common(&cs, &refs, &kept);
    check(ix.graph().all_anchors().is_empty() && cs.graph.anchors.is_empty(), 40);
    check(cs.graph.last_seen.len() == kept.len(), 41);
    for (t, s) in ts.iter().zip(&seen) {
        if all || t.relevant {
            cover(1);
            check(cs.graph.last_seen.get(&t.txid()) == Some(s), 42);
            check(ix.graph().get_tx_node(t.txid()).and_then(|n| n.last_seen) == Some(*s), 43);
        } else {
            cover(2);
            check(cs.graph.last_seen.get(&t.txid()).is_none(), 44);
        }
    }
}
pub fn c20_anchored() {
    let w = Wallet::new();
    let n = 1 + choice(2) as usize;
    let (mut ix, base) = start(&w, n == 1);
    let ts = batch(&w, &base, &BATCH, n);
    let anchors: Vec<Vec<ConfirmationBlockTime>> = ts
        .iter()
        .map(|_| {
            (0..choice(if n == 1 { 3 } else { 2 }))
                .map(|_| ConfirmationBlockTime {
                    block_id: BlockId { height: u32_any(), hash: BlockHash::from_byte_array(generic::<32>()) },
                    confirmation_time: u64_any(),
                })
                .collect()
        })
        .collect();
    let txs: Vec<_> = ts.iter().zip(&anchors).map(|(t, a)| (t.c.tx.clone(), t.c.point, a.clone())).collect();
    let cs = ix.batch_insert_relevant(txs);
    let refs: Vec<&T> = ts.iter().collect();
    let kept: Vec<&T> = ts.iter().filter(|t| t.relevant).collect();
    let dropped: Vec<Txid> = ts.iter().filter(|t| !t.relevant).map(|t| t.txid()).collect();
    graph_is(&ix, &base, &kept, &dropped);
    index_is(&ix, &w, &base, &refs);
    common(&cs, &refs, &kept);
    check(cs.graph.last_seen.is_empty(), 50);
    let mut total = 0;
    for (t, a) in ts.iter().zip(&anchors) {
        let got = ix.graph().all_anchors().get(&t.txid());
        if t.relevant && !a.is_empty() {
            cover(1);
            total += a.len();
            check(got.is_some_and(|g| g.len() == a.len() && a.iter().all(|x| g.contains(x))), 51);
            check(a.iter().all(|x| cs.graph.anchors.contains(&(*x, t.txid()))), 52);
        } else {
            cover(2);
            check(got.is_none(), 53);
        }
    }
    check(cs.graph.anchors.len() == total, 54);
}
/// an anchor that keeps the position in the block
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct At(BlockId, usize);
impl indexer::bdk_chain::Anchor for At {
    fn anchor_block(&self) -> BlockId {
        self.0
    }
}
impl From<indexer::bdk_chain::TxPosInBlock<'_>> for At {
    fn from(p: indexer::bdk_chain::TxPosInBlock) -> At {
        check(p.block.block_hash() == p.block_id.hash, 90);
        At(p.block_id, p.tx_pos)
    }
}
/// every transaction of a block is anchored at its own position
pub fn c20_position() {
    let w = Wallet::new();
    let mut ix: indexer::v2::SpIndexerV2<At> = indexer::v2::SpIndexerV2::new(w.scan, pk(&w.spend));
    let all = flag();
    let pays: [&[Pays]; 3] = [&[Pays::Me(None)], &[Pays::NotTaproot], &[Pays::Data]];
    let cs: Vec<Case> =
        (0..4).map(|i| case_with(&w, vec![some_outpoint()], if i == 3 { pays[0] } else { pays[choice(3) as usize] }, true)).collect();
    let mut secrets = cs.iter().map(|c| (c.tx.compute_txid(), c.point)).collect();
    let (b, _) = block(&cs.iter().collect::<Vec<_>>(), &w, &mut secrets);
    let height = u32_any();
    let r = if all { ix.apply_block(&b, secrets, height) } else { ix.apply_block_relevant(&b, secrets, height) };
    let mut n = 0;
    for (i, c) in cs.iter().enumerate() {
        let id = c.tx.compute_txid();
        let at = At(BlockId { height, hash: b.block_hash() }, i + 1);
        let kept = all || !c.mine.is_empty();
        n += usize::from(kept);
        cover(1);
        check(ix.graph().get_tx(id).is_some() == kept, 91);
        check(r.graph.anchors.contains(&(at, id)) == kept, 92);
        check(ix.graph().all_anchors().get(&id).is_some_and(|x| x.contains(&at) && x.len() == 1) == kept, 93);
    }
    check(r.graph.anchors.len() == n && r.graph.txs.len() == n, 94);
}
/// transactions that were indexed before: in the block without tweak data, or again in the mempool
pub fn c20_known() {
    let w = Wallet::new();
    let (mut ix, base) = start(&w, false);
    let a = make(PAYS, &w, &base, None, false);
    let b = make([SPENDS_PREV, UNRELATED][choice(2) as usize], &w, &base, Some(&a), false);
    let first = ix.batch_insert_relevant_unconfirmed([(a.c.tx.clone(), a.c.point, 50), (a.c.tx.clone(), a.c.point, 70)]);
    check(first.graph.txs.len() == 1 && first.graph.last_seen.get(&a.txid()) == Some(&70), 60);
    check(ix.graph().get_tx_node(a.txid()).and_then(|n| n.last_seen) == Some(70), 61);
    graph_is(&ix, &base, &[&a], &[b.txid()]);
    let kept: Vec<&T> = if b.relevant { vec![&a, &b] } else { vec![&a] };
    let dropped = if b.relevant { vec![] } else { vec![b.txid()] };
    if flag() {
        let mut none = HashMap::new();
        let (blk, _) = block(&[&a.c, &b.c], &w, &mut none);
        let height = u32_any();
        let cs = ix.apply_block_relevant(&blk, HashMap::new(), height);
        let anchor = ConfirmationBlockTime {
            block_id: BlockId { height, hash: blk.block_hash() },
            confirmation_time: blk.header.time as u64,
        };
        check(cs.txid_to_partial_secret.is_empty(), 62);
        check(cs.graph.txs.len() == usize::from(b.relevant), 63);
        check(cs.graph.anchors.len() == kept.len(), 64);
        check(ix.graph().all_anchors().len() == kept.len(), 65);
        for t in &kept {
            cover(1);
            check(cs.graph.anchors.contains(&(anchor, t.txid())), 66);
            check(ix.graph().all_anchors().get(&t.txid()).is_some_and(|x| x.len() == 1 && x.contains(&anchor)), 67);
        }
        // the same block once more
        let again = ix.apply_block_relevant(&blk, HashMap::new(), height);
        check(again.is_empty(), 68);
    } else {
        let cs = ix.batch_insert_relevant_unconfirmed([(b.c.tx.clone(), b.c.point, 90), (a.c.tx.clone(), a.c.point, 80)]);
        check(cs.graph.txs.len() == usize::from(b.relevant), 70);
        check(cs.graph.last_seen.len() == kept.len(), 71);
        check(ix.graph().get_tx_node(a.txid()).and_then(|n| n.last_seen) == Some(80), 72);
        if b.relevant {
            cover(2);
            check(ix.graph().get_tx_node(b.txid()).and_then(|n| n.last_seen) == Some(90), 73);
        }
    }
    graph_is(&ix, &base, &kept, &dropped);
    index_is(&ix, &w, &base, &[&a]);
}

/// two operations over the same transactions: what the first one added stays, the second one adds its part
pub fn c20_repeat() {
    repeat(2);
}
pub fn c20_repeat3() {
    repeat(3);
}
fn repeat(n: usize) {
    let w = Wallet::new();
    let (mut ix, base) = start(&w, false);
    let a = make(PAYS, &w, &base, None, false);
    let b = make([SPENDS_PREV, UNRELATED][choice(2) as usize], &w, &base, Some(&a), false);
    let spends = b.relevant;
    let ts = [&a, &b];
    let mut known = false;
    let mut kept = [false, false];
    let mut anchors: [Vec<ConfirmationBlockTime>; 2] = [vec![], vec![]];
    let mut seen: [Option<u64>; 2] = [None, None];
    let same = flag();
    let mut none = HashMap::new();
    let (blk, _) = block(&[&a.c, &b.c], &w, &mut none);
    for step in 0..n as u64 {
        let (other, _) = block(&[&a.c, &b.c], &w, &mut none);
        let blk = if same { &blk } else { &other };
        let height = 7 + if same { 0 } else { step as u32 };
        let anchor = ConfirmationBlockTime {
            block_id: BlockId { height, hash: blk.block_hash() },
            confirmation_time: blk.header.time as u64,
        };
        let secrets: HashMap<_, _> = ts.iter().map(|t| (t.txid(), t.c.point)).collect();
        let tx = |i: usize| (ts[i].c.tx.clone(), ts[i].c.point);
        let at = [[30u64, 31], [20, 21], [40, 19]][step as usize % 3];
        let how = choice(6);
        let cs = match how {
            0 => ix.apply_block_relevant(blk, secrets, height),
            1 => ix.apply_block_relevant(blk, HashMap::new(), height),
            2 => ix.apply_block(blk, secrets, height),
            3 => ix.batch_insert_relevant([1, 0].map(|i| (tx(i).0, tx(i).1, [anchor]))),
            4 => ix.batch_insert_relevant_unconfirmed([1, 0].map(|i| (tx(i).0, tx(i).1, at[i]))),
            _ => ix.batch_insert_unconfirmed([0, 1].map(|i| (tx(i).0, tx(i).1, at[i]))),
        };
        known |= how != 1;
        for i in 0..2 {
            let id = ts[i].txid();
            let now = how == 2 || how == 5 || (known && (i == 0 || spends));
            check(cs.graph.txs.iter().any(|t| t.compute_txid() == id) == (now && !kept[i]), 80);
            kept[i] |= now;
            let fresh = now && how < 4 && !anchors[i].contains(&anchor);
            check(cs.graph.anchors.contains(&(anchor, id)) == fresh, 81);
            if fresh {
                anchors[i].push(anchor);
            }
            let later = now && how >= 4 && seen[i].is_none_or(|s| s < at[i]);
            check(cs.graph.last_seen.get(&id).copied() == if later { Some(at[i]) } else { None }, 82);
            if later {
                seen[i] = Some(at[i]);
            }
            cover(1);
            check(ix.graph().get_tx(id).is_some() == kept[i], 83);
            let got = ix.graph().all_anchors().get(&id);
            check(got.map_or(0, |g| g.len()) == anchors[i].len(), 84);
            check(anchors[i].iter().all(|x| got.is_some_and(|g| g.contains(x))), 85);
            if kept[i] {
                check(ix.graph().get_tx_node(id).is_some_and(|t| t.last_seen == seen[i]), 86);
            }
        }
        check(ix.graph().full_txs().count() == 1 + usize::from(kept[0]) + usize::from(kept[1]), 87);
        let found = if known { vec![&a] } else { vec![] };
        index_is(&ix, &w, &base, &found);
    }
}
// ------------------------------------------------------------------ C19
/// everything the graph holds; first-seen times are left out (the graph library does not restore them)
fn same_graph(a: &Ix, b: &Ix) {
    let (mut x, mut y) = (a.graph().initial_changeset(), b.graph().initial_changeset());
    x.first_seen.clear();
    y.first_seen.clear();
    check(x.txs == y.txs, 101);
    check(x.txouts == y.txouts, 102);
    check(x.anchors == y.anchors, 103);
    check(x.last_seen == y.last_seen, 104);
    check(x.last_evicted == y.last_evicted, 105);
}
fn same(live: &Ix, restored: &Ix) {
    check(live.scan_sk() == restored.scan_sk() && live.spend_pk() == restored.spend_pk(), 106);
    let (a, b) = (live.index(), restored.index());
    check(a.num_to_label == b.num_to_label && a.label_lookup == b.label_lookup, 107);
    check(a.by_shared_secret == b.by_shared_secret, 108);
    check(a.by_script == b.by_script && a.by_label == b.by_label, 109);
    check(a.txid_to_partial_secret == b.txid_to_partial_secret, 110);
    check(a == b, 111);
    same_graph(live, restored);
}
fn restore(cs: &ChangeSet<A>) -> Option<Ix> {
    Ix::try_from(cs.clone()).ok()
}
struct Hist {
    w: Wallet,
    a: Case,
    b: Case,
    blk: Block,
    blk_b: Block,
}
const OPS: u32 = 7;
impl Hist {
    fn new() -> Hist {
        let w = Wallet::new();
        let pa: [&[Pays]; 3] = [&[Pays::Me(Some(1))], &[Pays::Me(None), Pays::Me(Some(1))], &[Pays::NotTaproot, Pays::Me(None)]];
        let a = case_with(&w, vec![some_outpoint()], pa[choice(3) as usize], true);
        let spent = OutPoint::new(a.tx.compute_txid(), a.mine[0].0 as u32);
        let b = if flag() {
            case_with(&w, vec![spent], &[Pays::NotTaproot], true)
        } else {
            case_with(&w, vec![some_outpoint()], &[Pays::Me(Some(2))], true)
        };
        let mut s = HashMap::new();
        let (blk, _) = block(&[&a, &b], &w, &mut s);
        let (blk_b, _) = block(&[&b], &w, &mut s);
        Hist { w, a, b, blk, blk_b }
    }
    fn run(&self, ix: &mut Ix, op: u32) -> ChangeSet<A> {
        let (ta, tb) = (self.a.tx.compute_txid(), self.b.tx.compute_txid());
        match op {
            0 => ix.add_label(1),
            1 => ix.add_label(2),
            2 => ix.batch_insert_relevant_unconfirmed([(self.a.tx.clone(), self.a.point, 50), (self.b.tx.clone(), self.b.point, 60)]),
            3 => {
                let s: HashMap<_, _> = [(ta, self.a.point), (tb, self.b.point)].into_iter().collect();
                ix.apply_block_relevant(&self.blk, s, 7)
            }
            4 => ix.apply_block(&self.blk_b, HashMap::new(), 8),
            5 => ix.batch_insert_unconfirmed([(self.b.tx.clone(), self.b.point, 70)]),
            _ => {
                let mut cs = ix.insert_seen_at(ta, 80);
                cs.merge(ix.insert_evicted_at(tb, 90));
                cs
            }
        }
    }
}
fn history(n: u32) {
    let h = Hist::new();
    let mut ix = Ix::new(h.w.scan, pk(&h.w.spend));
    let mut stage = ix.initial_changeset();
    for _ in 0..n {
        let cs = h.run(&mut ix, choice(OPS));
        stage.merge(cs);
    }
    match restore(&stage) {
        Some(r) => {
            cover(1);
            if !ix.index().by_shared_secret.is_empty() {
                cover(2);
            }
            same(&ix, &r)
        }
        None => check(false, 100),
    }
    match restore(&ix.initial_changeset()) {
        Some(r) => same(&ix, &r),
        None => check(false, 99),
    }
}
pub fn c19_history() {
    history(1 + choice(2));
}
pub fn c19_history3() {
    history(3);
}
/// changes of another wallet are ignored, changes without both keys don't restore
pub fn c19_foreign() {
    let h = Hist::new();
    let mut ix = Ix::new(h.w.scan, pk(&h.w.spend));
    let _ = ix.add_label(1);
    let _ = h.run(&mut ix, 2);
    let full = ix.initial_changeset();
    // someone else's wallet: another scan key, another spend key, or both
    let v = choice(3);
    let o = Wallet { scan: if v == 1 { h.w.scan } else { sk() }, spend: if v == 0 { h.w.spend } else { sk() } };
    let mut other = Ix::new(o.scan, pk(&o.spend));
    let _ = other.add_label(3);
    let oc = case_with(&o, vec![some_outpoint()], &[Pays::Me(Some(3))], true);
    let _ = other.batch_insert_unconfirmed([(oc.tx.clone(), oc.point, 70)]);
    let before = ix.clone();
    ix.apply_changeset(other.initial_changeset());
    check(*ix.index() == *before.index(), 120);
    check(ix.graph() == before.graph(), 121);
    check(ix.scan_sk() == before.scan_sk() && ix.spend_pk() == before.spend_pk(), 122);
    cover(1);
    // its own changes once more
    ix.apply_changeset(full.clone());
    same(&before, &ix);
    let mut part = full.clone();
    if flag() {
        part.scan_sk = None;
    } else {
        part.spend_pk = None;
    }
    check(Ix::try_from(part.clone()).is_err(), 123);
    ix.apply_changeset(part.clone());
    same(&before, &ix);
    part.scan_sk = None;
    part.spend_pk = None;
    check(Ix::try_from(part).is_err(), 124);
    // applied to a fresh wallet with the same keys
    let mut fresh = Ix::new(h.w.scan, pk(&h.w.spend));
    fresh.apply_changeset(full);
    same(&before, &fresh);
}
/// a label registered by asking for its address
pub fn c19_address() {
    let w = Wallet::new();
    let m = u32_any();
    let mut ix = Ix::new(w.scan, pk(&w.spend));
    let mut stage = ix.initial_changeset();
    if flag() {
        stage.merge(ix.add_label(m));
    }
    let _ = ix.get_labeled_address(m, bdk_sp::bitcoin::Network::Regtest);
    match restore(&stage) {
        Some(r) => {
            cover(1);
            check(r.index().get_label(m) == ix.index().get_label(m), 130);
        }
        None => check(false, 131),
    }
    match restore(&ix.initial_changeset()) {
        Some(r) => same(&ix, &r),
        None => check(false, 132),
    }
}
