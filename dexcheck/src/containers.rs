//! The order-book container against an ordered map, the ring queues against a
//! double-ended queue, the event and request records against their layout.
use crate::abi;
use crate::abi::{u64_at, Sd};
use bytemuck::{bytes_of, Zeroable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_dex::critbit::{LeafNode, Slab, SlabView};
use serum_dex::instruction::SelfTradeBehavior;
use serum_dex::matching::{OrderType, Side};
use serum_dex::state::{Event, EventQueueHeader, EventView, Queue, QueueHeader, Request, RequestQueueHeader, RequestView};
use std::cell::{RefCell, RefMut};
use std::collections::{BTreeMap, VecDeque};
use std::num::NonZeroU64;
use svm::ensure;
use svm::harness::{Report, Violation};

type Res = Result<Report, Violation>;

fn leaf_bytes(key: u128, slot: u8, tier: u8, owner: [u64; 4], qty: u64, cid: u64) -> [u8; 72] {
    let mut b = [0u8; 72];
    b[..4].copy_from_slice(&2u32.to_le_bytes());
    b[4] = slot;
    b[5] = tier;
    b[8..24].copy_from_slice(&key.to_le_bytes());
    for i in 0..4 {
        b[24 + 8 * i..32 + 8 * i].copy_from_slice(&owner[i].to_le_bytes());
    }
    b[56..64].copy_from_slice(&qty.to_le_bytes());
    b[64..72].copy_from_slice(&cid.to_le_bytes());
    b
}

/// An order id, drawn so that ids share long prefixes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Key {
    pub base: u8,
    pub bit: u8,
    pub low: u16,
}
fn key_of(k: &Key, bases: &[u128]) -> u128 {
    let b = bases[k.base as usize % bases.len()];
    let b = if k.bit < 128 { b ^ (1u128 << k.bit) } else { b };
    if k.bit >= 160 {
        b ^ k.low as u128
    } else if k.bit >= 144 {
        b ^ ((k.low as u128) << 64)
    } else {
        b
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Insert(Key, u64),
    /// insert until the slab holds nearly as many as it can
    Fill(u64),
    /// remove about half of what is there
    Thin(u64),
    Remove(Key),
    /// remove the n-th present key
    RemoveNth(u16),
    Min,
    Max,
    SetQty(u16, u64),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlabCase {
    pub nodes: u16,
    pub slop: u8,
    pub bases: Vec<u128>,
    pub ops: Vec<SOp>,
}
fn skey() -> impl Strategy<Value = Key> {
    (0u8..4, prop_oneof![3 => 0u8..128, 3 => 128u8..=255], prop_oneof![0u16..8, any::<u16>()]).prop_map(|(base, bit, low)| Key { base, bit, low })
}
pub fn slab_case() -> impl Strategy<Value = SlabCase> {
    slabs(prop_oneof![0u16..12, 12u16..60, 60u16..=255], 1)
}
/// Books as large as deployed ones.
pub fn long_slab_case() -> impl Strategy<Value = SlabCase> {
    slabs(prop_oneof![250u16..300, 300u16..1500, 505u16..520], 4)
}
fn slabs(nodes: impl Strategy<Value = u16>, fill: u32) -> impl Strategy<Value = SlabCase> {
    let op = prop_oneof![
        10 => (skey(), any::<u64>()).prop_map(|(k, q)| SOp::Insert(k, q)),
        fill => any::<u64>().prop_map(SOp::Fill),
        fill => any::<u64>().prop_map(SOp::Thin),
        3 => skey().prop_map(SOp::Remove),
        5 => any::<u16>().prop_map(SOp::RemoveNth),
        2 => Just(SOp::Min),
        2 => Just(SOp::Max),
        2 => (any::<u16>(), any::<u64>()).prop_map(|(a, b)| SOp::SetQty(a, b)),
    ];
    let op = prop_oneof![60 => op, 1 => Just(SOp::Clear)];
    let base = prop_oneof![
        any::<u128>(),
        Just(0u128),
        Just(u128::MAX),
        (1u128..50, any::<u16>()).prop_map(|(p, s)| p << 64 | s as u128),
        (1u128..50, any::<u16>()).prop_map(|(p, s)| p << 64 | !(s as u64) as u128)
    ];
    (nodes, 0u8..72, prop::collection::vec(base, 1..4), prop::collection::vec(op, 1..120))
        .prop_map(|(nodes, slop, bases, ops)| SlabCase { nodes, slop, bases, ops })
}

struct Sl {
    buf: Vec<u8>,
    model: BTreeMap<u128, [u8; 72]>,
    cap: usize,
    serial: u64,
}
impl Sl {
    fn slab(&mut self) -> &mut Slab {
        Slab::new(&mut self.buf)
    }
    fn leaf(&mut self, key: u128, qty: u64) -> LeafNode {
        self.serial += 1;
        let s = self.serial;
        to(&leaf_bytes(key, s as u8, (s % 8) as u8, [s, !s, s << 3, 7], qty, s * 3))
    }
    fn insert(&mut self, key: u128, qty: u64, rep: &mut Report) -> Result<(), Violation> {
        let leaf = self.leaf(key, qty);
        let raw = raw72(leaf);
        let had = self.model.get(&key).copied();
        let room = had.is_some() || 2 * (self.model.len() + 1) - 1 <= self.cap;
        match self.slab().insert_leaf(&leaf) {
            Ok((h, old)) => {
                ensure!(room, "slab:over", "an insert beyond {} nodes succeeded with {} orders", self.cap, self.model.len());
                let old = old.map(raw72);
                ensure!(old == had, "slab:replaced", "insert of {:032x} replaced {:02x?}, present was {:02x?}", key, old, had);
                let at = self.slab().get(h).and_then(|n| n.as_leaf()).copied().map(raw72);
                ensure!(at == Some(raw), "slab:handle", "the handle returned for {:032x} leads to {:02x?}", key, at);
                self.model.insert(key, raw);
                rep.label(if had.is_some() { "order replaced" } else { "order inserted" });
            }
            Err(_) => {
                ensure!(!room, "slab:refused", "insert refused with {} orders in {} nodes", self.model.len(), self.cap);
                rep.label("insert refused: full");
            }
        }
        Ok(())
    }
    fn removed(&mut self, got: Option<LeafNode>, key: Option<u128>, rep: &mut Report) -> Result<(), Violation> {
        let want = key.and_then(|k| self.model.remove(&k));
        let got = got.map(raw72);
        ensure!(got == want, "slab:removed", "removing {:x?} gave {:02x?}, present was {:02x?}", key, got, want);
        rep.label(if want.is_some() { "order removed" } else { "nothing to remove" });
        Ok(())
    }
    fn check(&mut self, rep: &mut Report) -> Result<(), Violation> {
        rep.evals += 1;
        let n = 32 + self.cap * 72;
        let book = abi::slab(&self.buf[..n]).map_err(|e| Violation::new("slab:structure", e))?;
        let keys: Vec<u128> = book.leaves.keys().copied().collect();
        let want: Vec<u128> = self.model.keys().copied().collect();
        ensure!(keys == want, "slab:contents", "the slab holds {:x?}, should hold {:x?}", keys, want);
        for (k, l) in &book.leaves {
            let raw = self.model[k];
            let got = leaf_bytes(l.key, l.slot, l.tier, { let b = l.owner.to_bytes(); [u64_at(&b, 0), u64_at(&b, 8), u64_at(&b, 16), u64_at(&b, 24)] }, l.qty, l.cid);
            ensure!(raw == got, "slab:payload", "order {:x} carries {:02x?}, was {:02x?}", k, got, raw);
        }
        ensure!(self.buf[n..].iter().all(|b| *b == 0xa5), "slab:slop", "bytes past the last whole node were written");
        let (cap, empty) = (self.cap, self.model.is_empty());
        let (min, max) = (self.model.keys().next().copied(), self.model.keys().next_back().copied());
        let s = self.slab();
        ensure!(s.capacity() as usize == cap, "slab:capacity", "capacity {} of {}", s.capacity(), cap);
        ensure!(s.is_empty() == empty, "slab:empty", "is_empty says {}", s.is_empty());
        let at = |h: Option<u32>| h.and_then(|h| s.get(h)).and_then(|n| n.as_leaf()).map(|l| l.order_id());
        ensure!(at(s.find_min()) == min, "slab:min", "minimum is {:x?}, should be {:x?}", at(s.find_min()), min);
        ensure!(at(s.find_max()) == max, "slab:max", "maximum is {:x?}, should be {:x?}", at(s.find_max()), max);
        Ok(())
    }
}

pub fn check_slab(c: &SlabCase) -> Res {
    let mut rep = Report::default();
    let cap = c.nodes as usize;
    let mut buf = vec![0u8; 32 + cap * 72];
    buf.extend(std::iter::repeat(0xa5).take(c.slop as usize));
    let mut s = Sl { buf, model: BTreeMap::new(), cap, serial: 0 };
    for m in [0, 1, cap as u32 / 2, (cap as u32).saturating_sub(1) / 2, cap as u32] {
        let ok = s.slab().assert_minimum_capacity(m).is_ok();
        ensure!(ok == (cap > 2 * m as usize), "slab:minimum", "minimum capacity {} of {} nodes judged {}", m, cap, ok);
    }
    for op in &c.ops {
        match op {
            SOp::Insert(k, q) => {
                let key = key_of(k, &c.bases);
                s.insert(key, *q, &mut rep)?;
            }
            SOp::Fill(q) => {
                let mut x = *q;
                while 2 * s.model.len() + 2 < cap {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let key = ((x >> 60) as u128) << 64 | (x as u128 & 0xffff_ffff);
                    s.insert(key, x, &mut rep)?;
                    s.serial += 1;
                }
                rep.label("filled");
            }
            SOp::Thin(q) => {
                let mut x = *q;
                let keys: Vec<u128> = s.model.keys().copied().collect();
                for key in keys {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    if x >> 63 == 0 {
                        let got = s.slab().remove_by_key(key);
                        s.removed(got, Some(key), &mut rep)?;
                    }
                }
                rep.label("thinned");
            }
            SOp::Remove(k) => {
                let key = key_of(k, &c.bases);
                let got = s.slab().remove_by_key(key);
                s.removed(got, Some(key), &mut rep)?;
            }
            SOp::RemoveNth(n) => {
                if !s.model.is_empty() {
                    let key = *s.model.keys().nth(*n as usize % s.model.len()).unwrap();
                    let got = s.slab().remove_by_key(key);
                    s.removed(got, Some(key), &mut rep)?;
                }
            }
            SOp::Min => {
                let k = s.model.keys().next().copied();
                let got = s.slab().remove_min();
                s.removed(got, k, &mut rep)?;
            }
            SOp::Max => {
                let k = s.model.keys().next_back().copied();
                let got = s.slab().remove_max();
                s.removed(got, k, &mut rep)?;
            }
            SOp::SetQty(n, q) => {
                // the way matching reduces a resting order: best order, in place
                let max = n & 1 == 1;
                let sl = s.slab();
                let h = if max { sl.find_max() } else { sl.find_min() };
                if let Some(h) = h {
                    sl.get_mut(h).unwrap().as_leaf_mut().unwrap().set_quantity(*q);
                    let key = *if max { s.model.keys().next_back() } else { s.model.keys().next() }.unwrap();
                    s.model.get_mut(&key).unwrap()[56..64].copy_from_slice(&q.to_le_bytes());
                }
            }
            SOp::Clear => {
                s.slab().clear();
                s.model.clear();
                rep.label("cleared");
            }
        }
        s.check(&mut rep)?;
        if s.model.len() >= 3 {
            rep.hit(&(s.model.keys().collect::<Vec<_>>(), s.serial));
        }
    }
    Ok(rep)
}

// ---------------------------------------------------------------- records

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec {
    pub bid: bool,
    pub flag: bool,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub id: u128,
    pub owner: [u64; 4],
    pub slot: u8,
    pub tier: u8,
    pub cid: u64,
    pub st: u8,
    pub ot: u8,
    pub junk: u8,
}
pub fn rec() -> impl Strategy<Value = Rec> {
    let w = || prop_oneof![3 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => 0u64..1000];
    ((any::<bool>(), any::<bool>(), w(), w(), w(), any::<u128>()), (any::<[u64; 4]>(), any::<u8>(), 0u8..8, w(), 0u8..3, 0u8..3, any::<u8>()))
        .prop_map(|((bid, flag, a, b, c, id), (owner, slot, tier, cid, st, ot, junk))| Rec { bid, flag, a, b, c, id, owner, slot, tier, cid, st, ot, junk })
}
fn side(bid: bool) -> Side {
    if bid {
        Side::Bid
    } else {
        Side::Ask
    }
}
fn event_bytes(flags: u8, r: &Rec, tier: u8, fee: u64) -> Vec<u8> {
    let mut v = vec![flags, r.slot, tier, 0, 0, 0, 0, 0];
    for x in [r.a, r.b, fee] {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.extend_from_slice(&r.id.to_le_bytes());
    for x in r.owner {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.extend_from_slice(&r.cid.to_le_bytes());
    v
}
fn request_bytes(flags: u8, tier: u8, st: u8, qty: u64, pc: u64, r: &Rec) -> Vec<u8> {
    let mut v = vec![flags, r.slot, tier, st, 0, 0, 0, 0];
    for x in [qty, pc] {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.extend_from_slice(&r.id.to_le_bytes());
    for x in r.owner {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.extend_from_slice(&r.cid.to_le_bytes());
    v
}
fn to<T: Zeroable + bytemuck::Pod>(b: &[u8]) -> T {
    let mut t = T::zeroed();
    bytemuck::bytes_of_mut(&mut t).copy_from_slice(b);
    t
}
/// None: refused (error or panic)
fn ev_view(b: &[u8]) -> Option<(bool, bool, bool, [u64; 3], u128, [u64; 4], u8, u8, u64)> {
    let e: Event = to(b);
    let v = std::panic::catch_unwind(|| e.as_view().ok()).ok()??;
    Some(match v {
        EventView::Fill { side, maker, native_qty_paid, native_qty_received, native_fee_or_rebate, order_id, owner, owner_slot, fee_tier, client_order_id } => {
            let t: u8 = fee_tier.into();
            (true, side == Side::Bid, maker, [native_qty_received, native_qty_paid, native_fee_or_rebate], order_id, owner, owner_slot, t, client_order_id.map_or(0, |x| x.get()))
        }
        EventView::Out { side, release_funds, native_qty_unlocked, native_qty_still_locked, order_id, owner, owner_slot, client_order_id } => {
            (false, side == Side::Bid, release_funds, [native_qty_unlocked, native_qty_still_locked, 0], order_id, owner, owner_slot, 0, client_order_id.map_or(0, |x| x.get()))
        }
    })
}

pub fn check_rec(r: &Rec) -> Res {
    let mut rep = Report::default();
    // fill
    let fill = event_bytes(1 | (r.bid as u8) << 2 | (r.flag as u8) << 3, r, r.tier, r.c);
    let want = (true, r.bid, r.flag, [r.a, r.b, r.c], r.id, r.owner, r.slot, r.tier, r.cid);
    let got = ev_view(&fill);
    ensure!(got == Some(want), "record:fill", "fill record reads {:?}, holds {:?}", got, want);
    let e: Event = to(&fill);
    let again = bytes_of(&Event::new(e.as_view().map_err(|_| Violation::new("record:fill", "unreadable"))?)).to_vec();
    ensure!(again == fill, "record:fill", "fill record rewritten as {:02x?}, was {:02x?}", again, fill);
    let x = abi::event(&again).map_err(|e| Violation::new("record:fill", e))?;
    ensure!(matches!(x, abi::Ev::Fill { side, maker, paid, received, fee, .. } if (side == Sd::Bid) == r.bid && maker == r.flag && received == r.a && paid == r.b && fee == r.c), "record:fill", "{:?} vs {:?}", x, r);
    // out
    let out = event_bytes(2 | (r.bid as u8) << 2 | (r.flag as u8) << 4, r, 0, 0);
    let want = (false, r.bid, r.flag, [r.a, r.b, 0], r.id, r.owner, r.slot, 0, r.cid);
    let got = ev_view(&out);
    ensure!(got == Some(want), "record:out", "out record reads {:?}, holds {:?}", got, want);
    let e = Event::new(EventView::Out {
        side: side(r.bid),
        release_funds: r.flag,
        native_qty_unlocked: r.a,
        native_qty_still_locked: r.b,
        order_id: r.id,
        owner: r.owner,
        owner_slot: r.slot,
        client_order_id: NonZeroU64::new(r.cid),
    });
    ensure!(bytes_of(&e) == &out[..], "record:out", "out record written as {:02x?}, layout is {:02x?}", bytes_of(&e), out);
    // contradictory flags are never read as an event
    for base in [&fill, &out] {
        let mut b = base.clone();
        b[0] |= r.junk;
        let f = b[0];
        let legal = f & 0xe0 == 0 && (f & 1 == 1 && f & (2 | 16) == 0 || f & 3 == 2 && f & (1 | 8) == 0);
        if !legal {
            let got = ev_view(&b);
            ensure!(got.is_none(), "record:flags", "an event with flags {:#x} was read as {:?}", f, got);
            rep.label("contradictory event refused");
        }
    }
    let mut b = fill.clone();
    if r.junk > 7 {
        b[2] = r.junk;
        let got = ev_view(&b);
        ensure!(got.is_none(), "record:tier", "a fill with fee tier {} was read as {:?}", r.junk, got);
    }
    // requests
    let ot = [0u8, 0x10, 0x08][r.ot as usize];
    let newreq = request_bytes(1 | (r.bid as u8) << 2 | ot, r.tier, r.st, r.a.max(1), r.b, r);
    let q: Request = to(&newreq);
    match q.as_view() {
        Ok(RequestView::NewOrder { side, order_type, owner_slot, fee_tier, order_id, max_coin_qty, native_pc_qty_locked, owner, client_order_id, self_trade_behavior }) => {
            let o = match order_type {
                OrderType::Limit => 0,
                OrderType::ImmediateOrCancel => 1,
                OrderType::PostOnly => 2,
            };
            let t: u8 = fee_tier.into();
            let s = match self_trade_behavior {
                SelfTradeBehavior::DecrementTake => 0,
                SelfTradeBehavior::CancelProvide => 1,
                SelfTradeBehavior::AbortTransaction => 2,
            };
            let got = (side == Side::Bid, o, owner_slot, t, order_id, max_coin_qty.get(), native_pc_qty_locked.map_or(0, |x| x.get()), owner, client_order_id.map_or(0, |x| x.get()), s);
            let want = (r.bid, r.ot, r.slot, r.tier, r.id, r.a.max(1), r.b, r.owner, r.cid, r.st);
            ensure!(got == want, "record:request", "new-order request reads {:?}, holds {:?}", got, want);
            let again = Request::new(RequestView::NewOrder { side, order_type, owner_slot, fee_tier, order_id, max_coin_qty, native_pc_qty_locked, owner, client_order_id, self_trade_behavior });
            ensure!(bytes_of(&again) == &newreq[..], "record:request", "new-order request rewritten as {:02x?}, was {:02x?}", bytes_of(&again), newreq);
        }
        _ => svm::bad!("record:request", "new-order request {:?} unreadable", r),
    }
    let creq = request_bytes(2 | (r.bid as u8) << 2, 0, 0, r.a, 0, r);
    let made = Request::new(RequestView::CancelOrder { side: side(r.bid), order_id: r.id, cancel_id: r.a, expected_owner_slot: r.slot, expected_owner: r.owner, client_order_id: NonZeroU64::new(r.cid) });
    ensure!(bytes_of(&made) == &creq[..], "record:request", "cancel request written as {:02x?}, layout is {:02x?}", bytes_of(&made), creq);
    match made.as_view() {
        Ok(RequestView::CancelOrder { side: s, order_id, cancel_id, expected_owner_slot, expected_owner, client_order_id }) => {
            let got = (s == Side::Bid, order_id, cancel_id, expected_owner_slot, expected_owner, client_order_id.map_or(0, |x| x.get()));
            ensure!(got == (r.bid, r.id, r.a, r.slot, r.owner, r.cid), "record:request", "cancel request reads {:?}, was {:?}", got, r);
        }
        _ => svm::bad!("record:request", "cancel request {:?} unreadable", r),
    }
    rep.evals += 6;
    rep.hit(&fill);
    Ok(rep)
}

// ---------------------------------------------------------------- queues

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    Push(u64),
    PushMany(u16),
    Pop,
    PopMany(u16),
    Edit(u64),
    Revert(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueueCase {
    pub cap: u16,
    pub head: u16,
    pub seq: u64,
    pub requests: bool,
    pub ops: Vec<QOp>,
}
fn qop(bulk: u16, many: u32) -> impl Strategy<Value = QOp> {
    prop_oneof![
        8 => any::<u64>().prop_map(QOp::Push),
        2 * many => (0..bulk).prop_map(QOp::PushMany),
        5 => Just(QOp::Pop),
        2 * many => (0..bulk).prop_map(QOp::PopMany),
        2 => any::<u64>().prop_map(QOp::Edit),
        3 => any::<u16>().prop_map(QOp::Revert),
    ]
}
fn queues(cap: impl Strategy<Value = u16>, bulk: u16, many: u32, len: usize) -> impl Strategy<Value = QueueCase> {
    (cap, any::<u16>(), prop_oneof![Just(0u64), 0u64..1 << 40], any::<bool>(), prop::collection::vec(qop(bulk, many), 1..len))
        .prop_map(|(cap, head, seq, requests, ops)| QueueCase { cap, head: head % cap, seq, requests, ops })
}
pub fn queue_case() -> impl Strategy<Value = QueueCase> {
    queues(1u16..14, 14, 1, 80)
}
/// Queues as long as deployed ones.
pub fn long_queue_case() -> impl Strategy<Value = QueueCase> {
    queues(prop_oneof![250u16..260, 200u16..1200, 510u16..515], 900, 4, 30)
}

fn queue_run<H: QueueHeader>(c: &QueueCase, counts_pushes: bool) -> Res {
    let mut rep = Report::default();
    let cap = c.cap as usize;
    let mut h0 = H::zeroed();
    let b = bytemuck::bytes_of_mut(&mut h0);
    b[8..16].copy_from_slice(&(c.head as u64).to_le_bytes());
    b[24..32].copy_from_slice(&c.seq.to_le_bytes());
    let header = RefCell::new(h0);
    let buf: RefCell<Vec<H::Item>> = RefCell::new(vec![H::Item::zeroed(); cap]);
    let item = |n: u64| -> H::Item {
        let mut t = H::Item::zeroed();
        let b = bytemuck::bytes_of_mut(&mut t);
        for (i, x) in b.iter_mut().enumerate() {
            *x = (n >> (8 * (i % 8))) as u8 ^ i as u8;
        }
        t
    };
    let raw = |t: &H::Item| bytes_of(t).to_vec();
    let mut model: VecDeque<Vec<u8>> = VecDeque::new();
    let mut seq = c.seq;
    let mut head = c.head as u64;
    let mut serial = 0u64;
    for op in &c.ops {
        let mut q = Queue::<H>::new(header.borrow_mut(), RefMut::map(buf.borrow_mut(), |v| &mut v[..]));
        let mut ops: Vec<QOp> = match op {
            QOp::PushMany(n) => (0..*n).map(|i| QOp::Push(i as u64)).collect(),
            QOp::PopMany(n) => (0..*n).map(|_| QOp::Pop).collect(),
            o => vec![o.clone()],
        };
        let bulk = ops.len();
        for (at, o) in ops.drain(..).enumerate() {
            match o {
                QOp::Push(x) => {
                    serial += 1;
                    let it = item(x.wrapping_mul(31).wrapping_add(serial));
                    let r = q.push_back(it);
                    if model.len() == cap {
                        match r {
                            Err(back) => ensure!(raw(&back) == raw(&it), "queue:full", "the refused record came back changed"),
                            Ok(()) => svm::bad!("queue:full", "a push into a full queue of {} succeeded", cap),
                        }
                        rep.label("push refused: full");
                    } else {
                        ensure!(r.is_ok(), "queue:refused", "push refused with {} of {}", model.len(), cap);
                        model.push_back(raw(&it));
                        seq = seq.wrapping_add(1);
                    }
                }
                QOp::Pop => {
                    let got = q.pop_front().ok().map(|x| raw(&x));
                    let want = model.pop_front();
                    if want.is_some() {
                        head = (head + 1) % cap as u64;
                        if head == 0 {
                            rep.label("head wrapped");
                        }
                    }
                    ensure!(got == want, "queue:pop", "popped {:02x?}, oldest was {:02x?}", got, want);
                }
                QOp::Edit(x) => {
                    if let Some(f) = q.peek_front_mut() {
                        *f = item(x);
                        let n = raw(f);
                        if let Some(m) = model.front_mut() {
                            *m = n;
                        }
                    } else {
                        ensure!(model.is_empty(), "queue:peek", "nothing to peek at in a queue of {}", model.len());
                    }
                }
                QOp::Revert(n) => {
                    let n = (n as usize % (cap + 2)) as u64;
                    let r = q.revert_pushes(n);
                    if n <= model.len() as u64 {
                        ensure!(r.is_ok(), "queue:revert", "revert to {} of {} refused", n, model.len());
                        let k = model.len() as u64 - n;
                        model.truncate(n as usize);
                        seq = seq.wrapping_sub(k);
                        if k > 0 {
                            rep.label("pushes reverted");
                        }
                    } else {
                        ensure!(r.is_err(), "queue:revert", "revert to {} of {} accepted", n, model.len());
                    }
                }
                _ => unreachable!(),
            }
            rep.evals += 1;
            ensure!(q.len() == model.len() as u64, "queue:len", "len {} of {}", q.len(), model.len());
            ensure!(q.full() == (model.len() == cap) && q.empty() == model.is_empty(), "queue:len", "full {} empty {} with {} of {}", q.full(), q.empty(), model.len(), cap);
            let front = q.peek_front().map(|x| raw(x));
            ensure!(front == model.front().cloned(), "queue:peek", "front is {:02x?}, oldest was {:02x?}", front, model.front());
            if cap > 20 && at + 1 < bulk {
                continue;
            }
            let all: Vec<Vec<u8>> = q.iter().map(|x| raw(x)).collect();
            let want: Vec<Vec<u8>> = model.iter().cloned().collect();
            ensure!(all == want, "queue:contents", "queue holds {:02x?}, should hold {:02x?}", all, want);
        }
        drop(q);
        // what a client reads from the account
        let h = bytes_of(&*header.borrow()).to_vec();
        ensure!(u64_at(&h, 8) == head && u64_at(&h, 16) == model.len() as u64, "queue:header", "head {} count {}, expected {} {}", u64_at(&h, 8), u64_at(&h, 16), head, model.len());
        let s = if counts_pushes { seq } else { c.seq };
        ensure!(u64_at(&h, 24) == s, "queue:sequence", "sequence {} expected {}", u64_at(&h, 24), s);
        for (i, m) in model.iter().enumerate() {
            ensure!(raw(&buf.borrow()[(head as usize + i) % cap]) == *m, "queue:layout", "record {} is not where clients look for it", i);
        }
        if model.len() > 1 {
            rep.hit(&(head, model.len(), serial, cap));
        }
        if head as usize + model.len() > cap {
            rep.label("contents wrap around");
        }
    }
    Ok(rep)
}
pub fn check_queue(c: &QueueCase) -> Res {
    if c.requests {
        queue_run::<RequestQueueHeader>(c, false)
    } else {
        queue_run::<EventQueueHeader>(c, true)
    }
}
fn raw72(l: LeafNode) -> [u8; 72] {
    let mut b = [0; 72];
    b.copy_from_slice(bytes_of(&l));
    b
}
