//! C26: blocks are matched against the wallet with the tweaks from the index server
use crate::filters::Nop;
use crate::util::*;
use bdk_sp::bitcoin::{bip158::GcsFilterWriter, hashes::Hash, secp256k1::{PublicKey, SecretKey}};
use bdk_sp_oracles::bip157::{tokio::sync::mpsc::unbounded_channel, BlockHash, IndexedFilter};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitSubscriber, TweakEvent};
use indexer::bdk_chain::BlockId;
use indexer::v2::SpIndexerV2;
use slxrt::*;
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Waker};

type Spk = [u8; 34];
struct Blk {
    height: u32,
    hash: [u8; 32],
    tweaks: Vec<PublicKey>,
    /// scripts in the block
    scripts: Vec<Spk>,
}
fn tr(x: [u8; 32]) -> Spk {
    spk_tr(&x).as_bytes().try_into().unwrap()
}
/// what the wallet can be paid with: (script, tweak)
fn derived(w: &Wallet, labels: &[u32], tweaks: &[PublicKey], k: u32) -> Vec<(Spk, PublicKey)> {
    let mut v = vec![];
    for t in tweaks {
        let shared = t.mul_tweak(&secp(), &w.scan.into()).unwrap();
        let tk = SecretKey::from_slice(&ref_tk(&shared, k)).unwrap();
        let base = pk(&w.spend).combine(&pk(&tk)).unwrap();
        v.push((tr(xonly(&base)), *t));
        for m in labels {
            v.push((tr(xonly(&base.combine(&w.label_point(*m)).unwrap())), *t));
        }
    }
    v
}
fn filter(b: &Blk) -> Vec<u8> {
    let k = |i: usize| u64::from_le_bytes(b.hash[i..i + 8].try_into().unwrap());
    let mut out = vec![];
    let mut w = GcsFilterWriter::new(&mut out, k(0), k(8), 784931, 19);
    for s in &b.scripts {
        w.add_element(s);
    }
    w.finish().unwrap();
    out
}
/// points an index server hands out
fn point(i: u8) -> PublicKey {
    pk(&SecretKey::from_slice(&[i + 1; 32]).unwrap())
}
fn body(t: &[PublicKey]) -> Vec<u8> {
    serde_json::to_vec(t).unwrap()
}
/// the subscriber creates its database in the working directory
#[cfg(panic = "unwind")]
fn subscriber(f: impl FnOnce() -> (BlindbitSubscriber, DatabaseBuffer)) -> (BlindbitSubscriber, DatabaseBuffer) {
    let old = std::env::current_dir().unwrap();
    let d = std::env::temp_dir().join(format!("c26-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let r = f();
    std::env::set_current_dir(old).unwrap();
    let _ = std::fs::remove_file(d.join("filter_data.redb"));
    let _ = std::fs::remove_dir(&d);
    r
}
#[cfg(not(panic = "unwind"))]
fn subscriber(f: impl FnOnce() -> (BlindbitSubscriber, DatabaseBuffer)) -> (BlindbitSubscriber, DatabaseBuffer) {
    f()
}
/// the height a request asks for
fn height_of(url: &str, base: &str) -> u32 {
    check(url.starts_with(base), 20);
    let (path, query) = url[base.len()..].split_once('?').unwrap_or((&url[base.len()..], ""));
    for q in query.split('&').filter(|q| !q.is_empty()) {
        let (k, v) = q.split_once('=').unwrap_or((q, ""));
        if k == "dustLimit" {
            // no payment of a thousand satoshi or more may be left out
            check(v.parse::<u64>().map_or(false, |v| v <= 1000), 21);
        }
    }
    match path.strip_prefix("tweaks/").and_then(|h| h.parse().ok()) {
        Some(h) => h,
        None => {
            check(false, 22);
            0
        }
    }
}
/// `batches`: blocks announced together; `fail`: how many times a request gets no answer first
fn drive(w: &Wallet, labels: &[u32], unspent: Vec<Spk>, batches: &[Vec<Blk>], slash: bool, fail: u32) {
    reqwest::harness::reset();
    let mut ix = SpIndexerV2::new(w.scan, pk(&w.spend));
    for m in labels {
        let _ = ix.add_label(*m);
    }
    let (f_tx, f_rx) = unbounded_channel();
    let (t_tx, mut t_rx) = unbounded_channel();
    let url = if slash { "http://tweaks.example/api/" } else { "http://tweaks.example/api" };
    let (mut sub, mut buf) = subscriber(|| BlindbitSubscriber::new(unspent.clone(), ix, url.to_string(), f_rx, t_tx).unwrap());
    let waker = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&waker);
    let mut fut = pin!(sub.run());
    let mut served = 0;
    let mut fails = fail;
    for (n, blocks) in batches.iter().enumerate() {
        for b in blocks {
            check(buf.push_filter(IndexedFilter::harness_new(b.height, filter(b), BlockHash::from_byte_array(b.hash))).is_none(), 1);
        }
        check(f_tx.send(FilterEvent::Changes(buf.write_queue())).is_ok(), 2);
        let tip = BlockId { height: 900 + n as u32, hash: BlockHash::from_byte_array(generic::<32>()) };
        check(f_tx.send(FilterEvent::Tip(tip)).is_ok(), 3);
        let mut open: Vec<usize> = vec![];
        let mut asked: Vec<u32> = vec![];
        let mut got = vec![];
        loop {
            check(fut.as_mut().poll(&mut cx).is_pending(), 4);
            let r = reqwest::harness::requests();
            open.extend(served..r.len());
            served = r.len();
            // matches come before the tip
            let mut synced = false;
            while let Ok(e) = t_rx.try_recv() {
                check(!synced, 5);
                match e {
                    TweakEvent::Matches(m) => got.push(m),
                    TweakEvent::Synced(t) => {
                        check(t == tip, 6);
                        synced = true;
                    }
                }
            }
            if synced {
                break;
            }
            // it waits for the server
            check(!open.is_empty(), 7);
            let i = open.remove(choice(open.len() as u32) as usize);
            let h = height_of(&r[i], "http://tweaks.example/api/");
            let b = blocks.iter().find(|b| b.height == h);
            check(b.is_some(), 8);
            if fails > 0 {
                fails -= 1;
                cover(4);
                reqwest::harness::answer(i, [Err(()), Ok((500, b"internal error".to_vec()))][choice(2) as usize].clone());
                continue;
            }
            asked.push(h);
            reqwest::harness::answer(i, Ok((200, body(&b.unwrap().tweaks))));
        }
        check(open.is_empty(), 9);
        let mut want = 0;
        for b in blocks {
            let d = if asked.contains(&b.height) { derived(w, labels, &b.tweaks, 0) } else { vec![] };
            let hit = b.scripts.iter().any(|s| unspent.contains(s) || d.iter().any(|x| x.0 == *s));
            let m: Vec<_> = got.iter().filter(|m| m.0.to_byte_array() == b.hash).collect();
            check(m.len() == hit as usize, 11);
            cover(if hit { 1 } else { 2 });
            if hit {
                want += 1;
                // with everything needed to index it
                check(m[0].1.len() == d.len(), 12);
                for (s, t) in d {
                    check(m[0].1.get(&s) == Some(&t), 13);
                }
            }
        }
        check(got.len() == want, 14);
        // the tip is only announced when the tweaks of every block are known
        check(blocks.iter().all(|b| asked.contains(&b.height)), 10);
    }
    drop(f_tx);
    check(fut.as_mut().poll(&mut cx).is_ready(), 15);
    check(reqwest::harness::requests().len() == served, 16);
    cover(3);
}
const T: [&[u8]; 4] = [&[], &[1], &[2], &[1, 2]];
fn block(w: &Wallet, labels: &[u32], unspent: &[Spk], height: u32, t: u32, s: u32) -> Blk {
    let tweaks: Vec<PublicKey> = T[t as usize].iter().map(|i| point(*i)).collect();
    let ours = derived(w, labels, &[point(1)], 0);
    let scripts = match s {
        0 => vec![],
        // somebody else's
        1 => vec![tr(generic::<32>())],
        2 => vec![tr(generic::<32>()), ours[0].0],
        3 => vec![ours.last().unwrap().0, tr(generic::<32>())],
        4 => unspent.to_vec(),
        // a second payment without the first
        5 => vec![derived(w, labels, &[point(1)], 1)[0].0],
        _ => vec![tr(bytes::<32>())],
    };
    Blk { height, hash: generic::<32>(), tweaks, scripts }
}
fn labels() -> &'static [u32] {
    [&[][..], &[2]][choice(2) as usize]
}
fn unspent() -> Vec<Spk> {
    (0..choice(3)).map(|_| tr(generic::<32>())).collect()
}
/// one block
pub fn c26_blocks() {
    let w = Wallet::new();
    let (l, u) = (labels(), unspent());
    let b = block(&w, l, &u, [0, 7, 840_000][choice(3) as usize], choice(4), choice(7));
    drive(&w, l, u, &[vec![b]], flag(), 0);
}
/// two blocks, in one batch or in two, answered in any order
pub fn c26_order() {
    let w = Wallet::new();
    let u = vec![tr(generic::<32>())];
    let mut b: Vec<Blk> = (0..2).map(|i| block(&w, &[2], &u, 9 + i, choice(4), choice(5))).collect();
    if flag() {
        let last = b.pop();
        drive(&w, &[2], u, &[b, last.into_iter().collect()], true, 0);
    } else {
        drive(&w, &[2], u, &[b], true, 0);
    }
}
/// more blocks, and batches without any
pub fn c26_many() {
    let w = Wallet::new();
    let u = vec![tr(generic::<32>())];
    let p = choice(4);
    let b: Vec<Blk> = (0..4).map(|i| block(&w, &[], &u, 98 + i, [1, 3, 2, 0][i as usize], (i + p) % 5)).collect();
    drive(&w, &[], u, &[vec![], b, vec![]], false, 0);
}
/// the server does not answer the first time
pub fn c26_failed() {
    let w = Wallet::new();
    let u = vec![tr(generic::<32>())];
    let b = block(&w, &[], &u, 11, 1, [2, 4][choice(2) as usize]);
    drive(&w, &[], u, &[vec![b]], false, 1);
}
