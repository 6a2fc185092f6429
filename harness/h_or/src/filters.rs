//! C23: compact filters from the network client to the database and to the tweak subscriber
use bdk_sp_oracles::bip157::{
    tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
    BlockHash, Event, HeaderCheckpoint, IndexedFilter, SyncUpdate,
};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError, TABLE_DEF};
use bdk_sp::bitcoin::hashes::Hash;
use redb::Database;
use slxrt::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone)]
struct Flt {
    height: u32,
    hash: [u8; 32],
    content: Vec<u8>,
}
fn flt(height: u32) -> Flt {
    Flt { height, hash: generic::<32>(), content: generic::<4>().to_vec() }
}
impl Flt {
    fn event(&self) -> IndexedFilter {
        IndexedFilter::harness_new(self.height, self.content.clone(), BlockHash::from_byte_array(self.hash))
    }
}
pub fn new_db() -> Arc<Mutex<Database>> {
    Arc::new(Mutex::new(Database::builder().create_with_backend(redb::backends::InMemoryBackend::new()).unwrap()))
}
fn stored(db: &Arc<Mutex<Database>>, h: u32) -> Option<Vec<u8>> {
    let g = match db.try_lock() {
        Ok(g) => g,
        // held by the code under test: nothing it wrote can be seen yet
        Err(_) => return None,
    };
    let r = g.begin_read().unwrap();
    let t = match r.open_table(TABLE_DEF) {
        Ok(t) => t,
        Err(_) => return None,
    };
    let v = t.get(h).unwrap().map(|v| v.value());
    v
}
/// What the tweak subscriber sees. It is woken inside the `send` of each announcement, and looks the
/// announced heights up in the database at that moment.
struct Obs {
    rx: UnboundedReceiver<FilterEvent>,
    db: Arc<Mutex<Database>>,
    /// filters at or above the birthday that are not announced yet; the last one of a height counts
    pending: BTreeMap<u32, Flt>,
    tips: Vec<(u32, [u8; 32])>,
    changes_after_tip: bool,
}
impl Obs {
    fn changes(&mut self, writes: BTreeMap<u32, BlockHash>) {
        let mut last = None;
        for (h, hash) in writes {
            check(last.map_or(true, |l| l < h), 1);
            last = Some(h);
            // announced once, with the hash that was delivered
            let f = self.pending.remove(&h);
            check(f.is_some(), 2);
            let f = f.unwrap();
            check(hash.to_byte_array() == f.hash, 3);
            // and it is in the database already
            check(stored(&self.db, h).as_deref() == Some(&f.content[..]), 4);
            cover(1);
        }
    }
}
struct W(Mutex<Obs>);
impl W {
    fn pump(self: &Arc<Self>) {
        let waker = Waker::from(self.clone());
        let mut cx = Context::from_waker(&waker);
        let mut o = self.0.lock().unwrap();
        loop {
            let ev = match o.rx.poll_recv(&mut cx) {
                Poll::Ready(Some(ev)) => ev,
                _ => break,
            };
            match ev {
                FilterEvent::Changes(c) => {
                    if !c.writes.is_empty() && !o.tips.is_empty() {
                        o.changes_after_tip = true;
                    }
                    o.changes(c.writes);
                }
                FilterEvent::Tip(t) => o.tips.push((t.height, t.hash.to_byte_array())),
            }
        }
    }
    fn deliver(&self, f: &Flt) {
        let mut o = self.0.lock().unwrap();
        o.pending.insert(f.height, f.clone());
    }
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.pump()
    }
}
pub struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
#[derive(Clone)]
enum Ev {
    Filter(Flt),
    Synced(u32, [u8; 32]),
    Other,
}
fn drive(birthday: u32, prefill: Vec<Flt>, n: usize, mut next: impl FnMut(usize) -> Ev) {
    let db = new_db();
    let (ev_tx, ev_rx): (UnboundedSender<Event>, _) = unbounded_channel();
    let (tx, rx) = unbounded_channel();
    let w = Arc::new(W(Mutex::new(Obs { rx, db: db.clone(), pending: BTreeMap::new(), tips: vec![], changes_after_tip: false })));
    w.pump();
    let mut buf = DatabaseBuffer::new(db.clone());
    for f in &prefill {
        w.deliver(f);
        if let Some(c) = buf.push_filter(f.event()) {
            w.0.lock().unwrap().changes(c.writes);
        }
    }
    let mut sub = FilterSubscriber::new(buf, ev_rx, tx, birthday);
    let mut fut = pin!(sub.run());
    let waker = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&waker);
    let mut low = vec![];
    for i in 0..n {
        let e = next(i);
        let msg = match &e {
            Ev::Filter(f) => {
                if f.height >= birthday {
                    w.deliver(f);
                } else {
                    low.push(f.height);
                }
                Event::IndexedFilter(f.event())
            }
            Ev::Synced(h, x) => Event::FiltersSynced(SyncUpdate {
                tip: HeaderCheckpoint::new(*h, BlockHash::from_byte_array(*x)),
                recent_history: Default::default(),
            }),
            Ev::Other => Event::Block(bdk_sp_oracles::bip157::IndexedBlock {
                height: birthday,
                block: bdk_sp::bitcoin::constants::genesis_block(bdk_sp::bitcoin::Network::Regtest),
            }),
        };
        check(ev_tx.send(msg).is_ok(), 5);
        check(fut.as_mut().poll(&mut cx).is_pending(), 6);
        let mut o = w.0.lock().unwrap();
        check(!o.changes_after_tip, 7);
        match e {
            Ev::Synced(h, x) => {
                // everything delivered so far is announced, then the tip
                check(o.pending.is_empty(), 8);
                check(o.tips == [(h, x)], 9);
                o.tips.clear();
                cover(2);
            }
            _ => check(o.tips.is_empty(), 10),
        }
    }
    for h in low {
        check(stored(&db, h).is_none(), 11);
        cover(3);
    }
    // the client stops
    drop(ev_tx);
    check(matches!(fut.as_mut().poll(&mut cx), Poll::Ready(Err(UpdateError::NodeStopped))), 12);
}
/// arbitrary heights and birthday
pub fn c23_events() {
    let birthday = u32_any();
    drive(birthday, vec![], 4, |i| match choice(if i < 3 { 3 } else { 2 }) {
        0 => Ev::Synced(u32_any(), generic::<32>()),
        1 => Ev::Filter(flt(u32_any())),
        _ => Ev::Other,
    });
}
/// more events, the heights close to the birthday
pub fn c23_order() {
    let birthday = u32_any();
    assume(birthday >= 1 && birthday < u32::MAX - 3);
    drive(birthday, vec![], 5, |i| match choice(if i < 4 { 4 } else { 1 }) {
        0 => Ev::Synced(birthday + 2, generic::<32>()),
        x => Ev::Filter(flt(birthday - 1 + [0, 1, 3][x as usize - 1])),
    });
}
/// the buffer is about to be flushed part way
pub fn c23_flush() {
    let n = 998 + choice(2);
    // a filter the buffer does not hold for a height inside
    let pre = (0..n).map(|h| Flt { height: h, hash: [h as u8; 32], content: vec![h as u8, (h >> 8) as u8] }).collect();
    drive(0, pre, 4, |i| match if i == 3 { 0 } else { choice(4) } {
        0 => Ev::Synced(n + 4, generic::<32>()),
        1 => Ev::Filter(flt(n + 10 - i as u32)),
        2 => Ev::Filter(flt(n - 1)),
        _ => Ev::Filter(flt(n + i as u32)),
    });
}
/// the tweak subscriber is gone
pub fn c23_closed() {
    let db = new_db();
    let (ev_tx, ev_rx): (UnboundedSender<Event>, _) = unbounded_channel();
    let (tx, rx) = unbounded_channel();
    drop(rx);
    let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db), ev_rx, tx, u32_any());
    let mut fut = pin!(sub.run());
    let waker = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&waker);
    check(ev_tx.send(Event::IndexedFilter(flt(u32_any()).event())).is_ok(), 1);
    check(fut.as_mut().poll(&mut cx).is_pending(), 2);
    let tip = HeaderCheckpoint::new(u32_any(), BlockHash::from_byte_array(generic::<32>()));
    check(ev_tx.send(Event::FiltersSynced(SyncUpdate { tip, recent_history: Default::default() })).is_ok(), 3);
    check(matches!(fut.as_mut().poll(&mut cx), Poll::Ready(Err(UpdateError::ChannelClosed))), 4);
    cover(1);
}
