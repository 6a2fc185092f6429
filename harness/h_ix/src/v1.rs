//! C17: the full-node indexer
use crate::util::*;
use crate::v2::some_outpoint;
use bdk_sp::bitcoin::{hashes::Hash, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use bdk_sp::receive::{scan::Scanner, SpOut};
use indexer::bdk_chain::{ConfirmationBlockTime, Merge, TxGraph};
use indexer::{PrevoutSource, SpIndexer, SpIndexes};
use slxrt::*;

pub struct Src(pub Vec<(Txid, Vec<TxOut>)>);
impl PrevoutSource for Src {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        let id = tx.compute_txid();
        for (t, p) in &self.0 {
            if *t == id {
                return p.clone();
            }
        }
        vec![]
    }
}
type Ix = SpIndexer<Src, ConfirmationBlockTime>;

/// what an output pays: nothing of the wallet, or the wallet under a label
#[derive(Clone, Copy)]
enum Pays {
    Me(Option<u32>),
    Unrelated,
    NotTaproot,
}
const PAYS: [Pays; 5] = [Pays::Me(None), Pays::Me(Some(1)), Pays::Unrelated, Pays::NotTaproot, Pays::Me(Some(0))];

struct Case {
    tx: Transaction,
    prev: Vec<TxOut>,
    /// index, label
    mine: Vec<(usize, Option<u32>)>,
}
fn case(w: &Wallet, ins: &[In], pays: &[Pays]) -> Case {
    let partial = ref_partial(ins);
    let mut outs = vec![];
    let mut mine = vec![];
    let mut k = 0;
    for (i, p) in pays.iter().enumerate() {
        let spk = match (p, &partial) {
            (Pays::Me(l), Some(a)) => {
                let spend = match l {
                    None => pk(&w.spend),
                    Some(m) => w.labelled(*m).spend,
                };
                mine.push((i, *l));
                k += 1;
                spk_tr(&ref_output(a, &pk(&w.scan), &spend, k - 1))
            }
            (Pays::Unrelated, _) => spk_tr(&xonly(&pk(&sk()))),
            _ => spk_wpkh(&generic::<20>()),
        };
        outs.push(out(1000 + i as u64, spk));
    }
    Case { tx: tx_of(ins, outs), prev: prevouts(ins), mine }
}
/// kinds of the inputs, and whether the last one cancels the first
const INS: [(&[u32], bool); 9] = [
    (&[1], false),
    (&[0], false),
    (&[7], false),
    (&[11], false),
    (&[1, 1], true),
    (&[1, 3], false),
    (&[11, 1], false),
    (&[0, 0], true),
    (&[0, 7], false),
];
fn ins(n: u32) -> Vec<In> {
    let (kinds, cancel) = INS[choice(n) as usize];
    let mut r: Vec<In> = vec![];
    for k in kinds {
        let s = if cancel && !r.is_empty() { r[0].sk.negate() } else { sk() };
        let mut i = mk_in(*k, s, some_outpoint());
        i.prevout.value = bdk_sp::bitcoin::Amount::from_sat(u64_any());
        r.push(i);
    }
    r
}
/// the views agree with one another and hold exactly `want`
fn views(ix: &SpIndexes, w: &Wallet, want: &[(&Case, usize, Option<u32>)]) {
    check(ix.spouts.len() == want.len(), 20);
    check(ix.script_to_spout.len() == want.len(), 21);
    check(ix.label_to_spout.len() == want.len(), 22);
    for (c, i, l) in want {
        let txid = c.tx.compute_txid();
        let op = OutPoint::new(txid, *i as u32);
        let o = &c.tx.output[*i];
        let s: &SpOut = match ix.spouts.get(&op) {
            Some(s) => s,
            None => return check(false, 23),
        };
        cover(1);
        check(s.outpoint == op && s.script_pubkey == o.script_pubkey && s.amount == o.value && s.label == *l, 24);
        let own = w.spend.add_tweak(&s.tweak.into());
        check(own.is_ok() && spk_tr(&xonly(&pk(&own.unwrap()))) == o.script_pubkey, 25);
        check(ix.script_to_spout.get(&o.script_pubkey) == Some(s), 26);
        check(ix.label_to_spout.iter().any(|(m, x)| m == l && x == s), 27);
        check(ix.txout(op).as_ref() == Some(o), 28);
        check(ix.txouts_in_tx(txid).filter(|x| *x == s).count() == 1, 29);
        check(ix.txid_to_shared_secret.contains_key(&txid), 30);
    }
    let mut n = 0;
    let mut ids: Vec<Txid> = vec![];
    for (c, _, _) in want {
        let txid = c.tx.compute_txid();
        if !ids.contains(&txid) {
            ids.push(txid);
            n += ix.txouts_in_tx(txid).count();
        }
    }
    check(n == want.len(), 31);
    check(ix.txid_to_shared_secret.len() == ids.len(), 32);
}
fn graph_has(g: &TxGraph<ConfirmationBlockTime>, cs: &[&Case]) {
    let found: Vec<&&Case> = cs.iter().filter(|c| !c.mine.is_empty()).collect();
    check(g.full_txs().count() == found.len(), 40);
    for c in cs {
        let txid = c.tx.compute_txid();
        let has = g.get_tx(txid);
        check(has.is_some() == !c.mine.is_empty(), 41);
        for (i, p) in c.tx.input.iter().zip(&c.prev) {
            let o = g.get_txout(i.previous_output);
            if !c.mine.is_empty() {
                check(o == Some(p), 42);
            } else {
                check(o.is_none(), 43);
            }
        }
        if let Some(t) = has {
            check(*t == c.tx, 44);
        }
    }
}
fn spender(o: OutPoint, second: bool) -> Transaction {
    let i = |previous_output| TxIn { previous_output, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() };
    let ins = if second { vec![i(OutPoint::new(Txid::from_byte_array(generic::<32>()), 0)), i(o)] } else { vec![i(o)] };
    Transaction {
        version: bdk_sp::bitcoin::transaction::Version::TWO,
        lock_time: bdk_sp::bitcoin::absolute::LockTime::ZERO,
        input: ins,
        output: vec![],
    }
}
fn spends(ix: &Ix, cs: &[&Case]) {
    for c in cs {
        let txid = c.tx.compute_txid();
        for i in 0..c.tx.output.len() + 1 {
            for second in [false, true] {
                let t = spender(OutPoint::new(txid, i as u32), second);
                check(ix.spends_owned_spouts(&t) == c.mine.iter().any(|(j, _)| *j == i), 50);
            }
        }
    }
}
fn indexer(w: &Wallet, cs: &[&Case]) -> Ix {
    let src = Src(cs.iter().map(|c| (c.tx.compute_txid(), c.prev.clone())).collect());
    let scanner = Scanner::new(w.scan, pk(&w.spend), w.labels(&[0, 1]));
    SpIndexer::new(src, scanner, SpIndexes::default(), TxGraph::default())
}
fn step(ix: &mut Ix, c: &Case) {
    match ix.index_tx(&c.tx) {
        Ok(cs) => {
            check(cs.txs.iter().any(|t| **t == c.tx) == !c.mine.is_empty(), 60);
            check(cs.txs.len() == usize::from(!c.mine.is_empty()), 61);
            check(cs.anchors.is_empty() && cs.last_seen.is_empty(), 62);
        }
        Err(_) => {
            check(c.mine.is_empty(), 63);
            cover(2);
        }
    }
}
/// one transaction of up to 2 inputs and 3 outputs, indexed twice
pub fn c17_one() {
    let w = Wallet::new();
    let ins = ins(9);
    let n = choice(3);
    let pays: Vec<Pays> = (0..n).map(|_| PAYS[choice(4) as usize]).collect();
    let c = case(&w, &ins, &pays);
    let mut ix = indexer(&w, &[&c]);
    step(&mut ix, &c);
    let want: Vec<_> = c.mine.iter().map(|(i, l)| (&c, *i, *l)).collect();
    views(&ix.indexes, &w, &want);
    graph_has(&ix.tx_graph, &[&c]);
    spends(&ix, &[&c]);
    let before = ix.indexes.clone();
    match ix.index_tx(&c.tx) {
        Ok(cs) => check(cs.is_empty(), 70),
        Err(_) => check(c.mine.is_empty(), 71),
    }
    check(ix.indexes == before, 72);
    graph_has(&ix.tx_graph, &[&c]);
}
const PAT: [&[Pays]; 4] = [&[Pays::Me(None)], &[Pays::Me(Some(1)), Pays::Me(None)], &[Pays::Unrelated], &[Pays::Unrelated, Pays::Me(Some(1))]];
/// two transactions in either order, the second one possibly spending an output of the first
pub fn c17_two() {
    let w = Wallet::new();
    let a = case(&w, &[mk_in(1, sk(), some_outpoint())], PAT[choice(4) as usize]);
    // what the second one spends: something else, or an output of the first
    let op = match choice(3) {
        0 => some_outpoint(),
        v => OutPoint::new(a.tx.compute_txid(), v - 1),
    };
    let b = case(&w, &[mk_in(1, sk(), op)], PAT[choice(4) as usize]);
    let mut ix = indexer(&w, &[&a, &b]);
    let order = if flag() { [&a, &b] } else { [&b, &a] };
    let mut want: Vec<(&Case, usize, Option<u32>)> = vec![];
    let mut before = ix.indexes.clone();
    for c in order {
        step(&mut ix, c);
        want.extend(c.mine.iter().map(|(i, l)| (c, *i, *l)));
        views(&ix.indexes, &w, &want);
        // what was there stays
        check(before.spouts.iter().all(|(o, s)| ix.indexes.spouts.get(o) == Some(s)), 80);
        check(before.script_to_spout.iter().all(|(o, s)| ix.indexes.script_to_spout.get(o) == Some(s)), 81);
        check(before.label_to_spout.iter().all(|s| ix.indexes.label_to_spout.contains(s)), 82);
        before = ix.indexes.clone();
    }
    let found = |c: &Case| !c.mine.is_empty();
    check(ix.tx_graph.full_txs().count() == usize::from(found(&a)) + usize::from(found(&b)), 83);
    for c in [&a, &b] {
        check(ix.tx_graph.get_tx(c.tx.compute_txid()).is_some() == found(c), 84);
        if found(c) {
            check(ix.tx_graph.get_txout(c.tx.input[0].previous_output) == Some(&c.prev[0]) || op == c.tx.input[0].previous_output, 85);
        }
    }
    spends(&ix, &[&a, &b]);
    let s = a.mine.iter().any(|(i, _)| OutPoint::new(a.tx.compute_txid(), *i as u32) == op);
    check(ix.spends_owned_spouts(&b.tx) == s, 86);
    if s {
        cover(2);
    }
    for c in order {
        match ix.index_tx(&c.tx) {
            Ok(cs) => check(cs.is_empty(), 87),
            Err(_) => check(false, 88),
        }
    }
    check(ix.indexes == before, 89);
}

/// two transactions that spend the same input, so that they share secret and scripts
pub fn c17_conflict() {
    let w = Wallet::new();
    let (s, op) = (sk(), some_outpoint());
    let kind = choice(2);
    let pick = |k: u32| -> &[Pays] { PAT[k as usize] };
    let (pa, pb) = (choice(4), choice(4));
    let a = case(&w, &[mk_in(kind, s, op)], pick(pa));
    let mut b = case(&w, &[mk_in(kind, s, op)], pick(pb));
    // the replacement pays other amounts
    for o in b.tx.output.iter_mut() {
        o.value = bdk_sp::bitcoin::Amount::from_sat(7 + o.value.to_sat());
    }
    let mut ix = indexer(&w, &[&a, &b]);
    for c in [&a, &b] {
        step(&mut ix, c);
    }
    let x = &ix.indexes;
    let n = a.mine.len() + b.mine.len();
    check(x.spouts.len() == n && x.label_to_spout.len() == n, 90);
    for c in [&a, &b] {
        let txid = c.tx.compute_txid();
        check(x.txid_to_shared_secret.contains_key(&txid) == !c.mine.is_empty(), 91);
        check(ix.tx_graph.get_tx(txid).is_some() == !c.mine.is_empty(), 92);
        check(x.txouts_in_tx(txid).count() == c.mine.len(), 93);
        for (i, l) in &c.mine {
            let o = &c.tx.output[*i];
            cover(1);
            match x.spouts.get(&OutPoint::new(txid, *i as u32)) {
                Some(s) => {
                    check(s.amount == o.value && s.script_pubkey == o.script_pubkey && s.label == *l, 94);
                    check(x.label_to_spout.contains(&(*l, s.clone())), 95);
                }
                None => check(false, 96),
            }
            // either of the two
            let by = x.script_to_spout.get(&o.script_pubkey);
            check(by.is_some_and(|s| s.script_pubkey == o.script_pubkey && x.spouts.get(&s.outpoint) == Some(s)), 97);
        }
        let used = !a.mine.is_empty() || !b.mine.is_empty();
        check((ix.tx_graph.get_txout(op) == Some(&c.prev[0])) == used, 98);
    }
    check(x.script_to_spout.values().all(|s| x.spouts.get(&s.outpoint) == Some(s)), 99);
    spends(&ix, &[&a, &b]);
}
/// a transaction that spends a future segwit output is not indexed, whatever it pays
pub fn c25_index() {
    let w = Wallet::new();
    let mut ins = vec![mk_in([0u32, 1][choice(2) as usize], sk(), some_outpoint()), mk_in(11, sk(), some_outpoint())];
    // pays what would be found without the special input
    let mut c = case(&w, &ins, &[Pays::Me(None), Pays::Me(Some(1))]);
    let future = flag();
    let v: u8 = if future { 0x52 + choice(15) as u8 } else { [0x00, 0x4f, 0x50, 0x61][choice(4) as usize] };
    let mut spk = vec![v, 2, 9, 9];
    spk.truncate(4);
    let at = if flag() { 0 } else { 1 };
    ins[1].prevout.script_pubkey = ScriptBuf::from_bytes(spk);
    c.prev = prevouts(&ins);
    if at == 0 {
        c.tx.input.swap(0, 1);
        c.prev.swap(0, 1);
    }
    if future {
        c.mine.clear();
    }
    cover(if future { 3 } else { 4 });
    let mut ix = indexer(&w, &[&c]);
    step(&mut ix, &c);
    let want: Vec<_> = c.mine.iter().map(|(i, l)| (&c, *i, *l)).collect();
    views(&ix.indexes, &w, &want);
    graph_has(&ix.tx_graph, &[&c]);
}
