//! The instruction wire format, restated independently of the program, and
//! the search that compares the program's decoder and encoder with it.
use crate::abi::{u128_at, u32_at, u64_at};
use crate::ops::{case, resolve, BASE};
use crate::world::{dex, disc, Env};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_dex::instruction::{MarketInstruction as MI, NewOrderInstructionV3, SelfTradeBehavior};
use serum_dex::matching::{OrderType, Side};
use std::num::NonZeroU64;
use svm::ensure;
use svm::harness::{Report, Violation};

/// 0 bid, 1 ask; 0 limit, 1 immediate-or-cancel, 2 post-only; 0 decrement take, 1 cancel provide, 2 abort
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct O3 {
    pub side: u8,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub st: u8,
    pub ot: u8,
    pub cid: u64,
    pub limit: u16,
    pub max_ts: i64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ins {
    Init { coin_lot: u64, pc_lot: u64, bps: u16, nonce: u64, dust: u64 },
    NewV1 { side: u8, price: u64, qty: u64, ot: u8, cid: u64 },
    Match(u16),
    Consume(u16),
    CancelV1 { side: u8, id: u128, owner: [u64; 4], slot: u8 },
    Settle,
    CancelCidV1(u64),
    Disable,
    Sweep,
    NewV2 { side: u8, price: u64, qty: u64, ot: u8, cid: u64, st: u8 },
    NewV3(O3),
    Cancel { side: u8, id: u128 },
    CancelCid(u64),
    Take { side: u8, price: u64, qty: u64, pc: u64, min_coin: u64, min_pc: u64, limit: u16 },
    Close,
    InitOo,
    Prune(u16),
    ConsumePerm(u16),
    CancelCids([u64; 8]),
    Replace(O3),
    ReplaceMany(Vec<O3>),
}

fn put(d: &mut Vec<u8>, xs: &[u64]) {
    for x in xs {
        d.extend_from_slice(&x.to_le_bytes());
    }
}
fn put32(d: &mut Vec<u8>, x: u8) {
    d.extend_from_slice(&(x as u32).to_le_bytes());
}
fn put_o3(d: &mut Vec<u8>, o: &O3) {
    put32(d, o.side);
    put(d, &[o.price, o.qty, o.pc]);
    put32(d, o.st);
    put32(d, o.ot);
    put(d, &[o.cid]);
    d.extend_from_slice(&o.limit.to_le_bytes());
    d.extend_from_slice(&o.max_ts.to_le_bytes());
}

pub fn encode(i: &Ins) -> Vec<u8> {
    let lim = |n: u32, l: &u16| {
        let mut d = disc(n);
        d.extend_from_slice(&l.to_le_bytes());
        d
    };
    match i {
        Ins::Init { coin_lot, pc_lot, bps, nonce, dust } => {
            let mut d = disc(0);
            put(&mut d, &[*coin_lot, *pc_lot]);
            d.extend_from_slice(&bps.to_le_bytes());
            put(&mut d, &[*nonce, *dust]);
            d
        }
        Ins::NewV1 { side, price, qty, ot, cid } => {
            let mut d = disc(1);
            put32(&mut d, *side);
            put(&mut d, &[*price, *qty]);
            put32(&mut d, *ot);
            put(&mut d, &[*cid]);
            d
        }
        Ins::Match(l) => lim(2, l),
        Ins::Consume(l) => lim(3, l),
        Ins::CancelV1 { side, id, owner, slot } => {
            let mut d = disc(4);
            put32(&mut d, *side);
            d.extend_from_slice(&id.to_le_bytes());
            put(&mut d, owner);
            d.push(*slot);
            d
        }
        Ins::Settle => disc(5),
        Ins::CancelCidV1(c) => {
            let mut d = disc(6);
            put(&mut d, &[*c]);
            d
        }
        Ins::Disable => disc(7),
        Ins::Sweep => disc(8),
        Ins::NewV2 { side, price, qty, ot, cid, st } => {
            let mut d = disc(9);
            put32(&mut d, *side);
            put(&mut d, &[*price, *qty]);
            put32(&mut d, *ot);
            put(&mut d, &[*cid]);
            put32(&mut d, *st);
            d
        }
        Ins::NewV3(o) => {
            let mut d = disc(10);
            put_o3(&mut d, o);
            d
        }
        Ins::Cancel { side, id } => {
            let mut d = disc(11);
            put32(&mut d, *side);
            d.extend_from_slice(&id.to_le_bytes());
            d
        }
        Ins::CancelCid(c) => {
            let mut d = disc(12);
            put(&mut d, &[*c]);
            d
        }
        Ins::Take { side, price, qty, pc, min_coin, min_pc, limit } => {
            let mut d = disc(13);
            put32(&mut d, *side);
            put(&mut d, &[*price, *qty, *pc, *min_coin, *min_pc]);
            d.extend_from_slice(&limit.to_le_bytes());
            d
        }
        Ins::Close => disc(14),
        Ins::InitOo => disc(15),
        Ins::Prune(l) => lim(16, l),
        Ins::ConsumePerm(l) => lim(17, l),
        Ins::CancelCids(c) => {
            let mut d = disc(18);
            put(&mut d, c);
            d
        }
        Ins::Replace(o) => {
            let mut d = disc(19);
            put_o3(&mut d, o);
            d
        }
        Ins::ReplaceMany(v) => {
            let mut d = disc(20);
            put(&mut d, &[v.len() as u64]);
            for o in v {
                put_o3(&mut d, o);
            }
            d
        }
    }
}

fn en(d: &[u8], o: usize, max: u32) -> Option<u8> {
    let x = u32_at(d, o);
    if x > max {
        None
    } else {
        Some(x as u8)
    }
}
fn nz(d: &[u8], o: usize) -> Option<u64> {
    match u64_at(d, o) {
        0 => None,
        x => Some(x),
    }
}
fn u16_at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([d[o], d[o + 1]])
}
fn get_o3(d: &[u8]) -> Option<O3> {
    Some(O3 {
        side: en(d, 0, 1)?,
        price: nz(d, 4)?,
        qty: nz(d, 12)?,
        pc: nz(d, 20)?,
        st: en(d, 28, 2)?,
        ot: en(d, 32, 2)?,
        cid: u64_at(d, 36),
        limit: u16_at(d, 44),
        max_ts: if d.len() == 46 { i64::MAX } else { u64_at(d, 46) as i64 },
    })
}

/// The documented meaning of a byte string, or None if it means nothing.
pub fn decode(b: &[u8]) -> Option<Ins> {
    if b.len() < 5 || b[0] != 0 {
        return None;
    }
    let d = &b[5..];
    let n = d.len();
    Some(match u32_at(b, 1) {
        0 if n == 34 => Ins::Init { coin_lot: u64_at(d, 0), pc_lot: u64_at(d, 8), bps: u16_at(d, 16), nonce: u64_at(d, 18), dust: u64_at(d, 26) },
        1 if n == 32 => Ins::NewV1 { side: en(d, 0, 1)?, price: nz(d, 4)?, qty: nz(d, 12)?, ot: en(d, 20, 2)?, cid: u64_at(d, 24) },
        2 if n == 2 => Ins::Match(u16_at(d, 0)),
        3 if n == 2 => Ins::Consume(u16_at(d, 0)),
        4 if n == 53 => Ins::CancelV1 {
            side: en(d, 0, 1)?,
            id: u128_at(d, 4),
            owner: [u64_at(d, 20), u64_at(d, 28), u64_at(d, 36), u64_at(d, 44)],
            slot: d[52],
        },
        5 if n == 0 => Ins::Settle,
        6 if n == 8 => Ins::CancelCidV1(u64_at(d, 0)),
        7 if n == 0 => Ins::Disable,
        8 if n == 0 => Ins::Sweep,
        9 if n == 36 => Ins::NewV2 { side: en(d, 0, 1)?, price: nz(d, 4)?, qty: nz(d, 12)?, ot: en(d, 20, 2)?, cid: u64_at(d, 24), st: en(d, 32, 2)? },
        10 if n == 46 || n == 54 => Ins::NewV3(get_o3(d)?),
        11 if n == 20 => Ins::Cancel { side: en(d, 0, 1)?, id: u128_at(d, 4) },
        12 if n == 8 => Ins::CancelCid(u64_at(d, 0)),
        13 if n == 46 => Ins::Take {
            side: en(d, 0, 1)?,
            price: nz(d, 4)?,
            qty: nz(d, 12)?,
            pc: nz(d, 20)?,
            min_coin: u64_at(d, 28),
            min_pc: u64_at(d, 36),
            limit: u16_at(d, 44),
        },
        14 if n == 0 => Ins::Close,
        15 if n == 0 => Ins::InitOo,
        16 if n == 2 => Ins::Prune(u16_at(d, 0)),
        17 if n == 2 => Ins::ConsumePerm(u16_at(d, 0)),
        18 if n % 8 == 0 && n <= 64 => {
            let mut c = [0; 8];
            for i in 0..n / 8 {
                c[i] = u64_at(d, i * 8);
            }
            Ins::CancelCids(c)
        }
        19 if n == 54 => Ins::Replace(get_o3(d)?),
        20 if n >= 8 && (n - 8) % 54 == 0 && (n - 8) / 54 <= 8 && u64_at(d, 0) == ((n - 8) / 54) as u64 => {
            Ins::ReplaceMany(d[8..].chunks(54).map(get_o3).collect::<Option<Vec<_>>>()?)
        }
        _ => return None,
    })
}

fn sd(s: &Side) -> u8 {
    match s {
        Side::Bid => 0,
        Side::Ask => 1,
    }
}
fn ot(o: &OrderType) -> u8 {
    match o {
        OrderType::Limit => 0,
        OrderType::ImmediateOrCancel => 1,
        OrderType::PostOnly => 2,
    }
}
fn st(s: &SelfTradeBehavior) -> u8 {
    match s {
        SelfTradeBehavior::DecrementTake => 0,
        SelfTradeBehavior::CancelProvide => 1,
        SelfTradeBehavior::AbortTransaction => 2,
    }
}
fn o3(n: &NewOrderInstructionV3) -> O3 {
    O3 {
        side: sd(&n.side),
        price: n.limit_price.get(),
        qty: n.max_coin_qty.get(),
        pc: n.max_native_pc_qty_including_fees.get(),
        st: st(&n.self_trade_behavior),
        ot: ot(&n.order_type),
        cid: n.client_order_id,
        limit: n.limit,
        max_ts: n.max_ts,
    }
}
/// What the program understood.
pub fn view(m: &MI) -> Ins {
    match m {
        MI::InitializeMarket(i) => Ins::Init { coin_lot: i.coin_lot_size, pc_lot: i.pc_lot_size, bps: i.fee_rate_bps, nonce: i.vault_signer_nonce, dust: i.pc_dust_threshold },
        MI::NewOrder(n) => Ins::NewV1 { side: sd(&n.side), price: n.limit_price.get(), qty: n.max_qty.get(), ot: ot(&n.order_type), cid: n.client_id },
        MI::MatchOrders(l) => Ins::Match(*l),
        MI::ConsumeEvents(l) => Ins::Consume(*l),
        MI::CancelOrder(c) => Ins::CancelV1 { side: sd(&c.side), id: c.order_id, owner: c.owner, slot: c.owner_slot },
        MI::SettleFunds => Ins::Settle,
        MI::CancelOrderByClientId(c) => Ins::CancelCidV1(*c),
        MI::DisableMarket => Ins::Disable,
        MI::SweepFees => Ins::Sweep,
        MI::NewOrderV2(n) => Ins::NewV2 { side: sd(&n.side), price: n.limit_price.get(), qty: n.max_qty.get(), ot: ot(&n.order_type), cid: n.client_id, st: st(&n.self_trade_behavior) },
        MI::NewOrderV3(n) => Ins::NewV3(o3(n)),
        MI::CancelOrderV2(c) => Ins::Cancel { side: sd(&c.side), id: c.order_id },
        MI::CancelOrderByClientIdV2(c) => Ins::CancelCid(*c),
        MI::SendTake(t) => Ins::Take {
            side: sd(&t.side),
            price: t.limit_price.get(),
            qty: t.max_coin_qty.get(),
            pc: t.max_native_pc_qty_including_fees.get(),
            min_coin: t.min_coin_qty,
            min_pc: t.min_native_pc_qty,
            limit: t.limit,
        },
        MI::CloseOpenOrders => Ins::Close,
        MI::InitOpenOrders => Ins::InitOo,
        MI::Prune(l) => Ins::Prune(*l),
        MI::ConsumeEventsPermissioned(l) => Ins::ConsumePerm(*l),
        MI::CancelOrdersByClientIds(c) => Ins::CancelCids(*c),
        MI::ReplaceOrderByClientId(n) => Ins::Replace(o3(n)),
        MI::ReplaceOrdersByClientIds(v) => Ins::ReplaceMany(v.iter().map(o3).collect()),
    }
}

fn n64() -> impl Strategy<Value = u64> {
    prop_oneof![4 => any::<u64>().prop_map(|x| x.max(1)), 2 => 1u64..300, 1 => Just(u64::MAX), 1 => (0u32..64).prop_map(|s| 1u64 << s)]
}
fn w64() -> impl Strategy<Value = u64> {
    prop_oneof![4 => any::<u64>(), 2 => 0u64..300, 1 => Just(u64::MAX), 1 => (0u32..64).prop_map(|s| 1u64 << s)]
}
fn w16() -> impl Strategy<Value = u16> {
    prop_oneof![any::<u16>(), 0u16..4, Just(u16::MAX), Just(0x0100u16)]
}
fn w128() -> impl Strategy<Value = u128> {
    prop_oneof![any::<u128>(), (w64(), w64()).prop_map(|(a, b)| (a as u128) << 64 | b as u128)]
}
fn w_i64() -> impl Strategy<Value = i64> {
    prop_oneof![3 => any::<i64>(), 1 => Just(i64::MAX), 1 => Just(i64::MIN), 1 => -2i64..3, 1 => 1_600_000_000i64..1_700_000_000]
}
fn order3() -> impl Strategy<Value = O3> {
    (0u8..2, n64(), n64(), n64(), 0u8..3, 0u8..3, w64(), w16(), w_i64())
        .prop_map(|(side, price, qty, pc, st, ot, cid, limit, max_ts)| O3 { side, price, qty, pc, st, ot, cid, limit, max_ts })
}
pub fn ins() -> impl Strategy<Value = Ins> {
    prop_oneof![
        2 => (w64(), w64(), w16(), w64(), w64()).prop_map(|(coin_lot, pc_lot, bps, nonce, dust)| Ins::Init { coin_lot, pc_lot, bps, nonce, dust }),
        1 => (0u8..2, n64(), n64(), 0u8..3, w64()).prop_map(|(side, price, qty, ot, cid)| Ins::NewV1 { side, price, qty, ot, cid }),
        1 => w16().prop_map(Ins::Match),
        1 => w16().prop_map(Ins::Consume),
        1 => (0u8..2, w128(), any::<[u64; 4]>(), any::<u8>()).prop_map(|(side, id, owner, slot)| Ins::CancelV1 { side, id, owner, slot }),
        1 => Just(Ins::Settle),
        1 => w64().prop_map(Ins::CancelCidV1),
        1 => Just(Ins::Disable),
        1 => Just(Ins::Sweep),
        1 => (0u8..2, n64(), n64(), 0u8..3, w64(), 0u8..3).prop_map(|(side, price, qty, ot, cid, st)| Ins::NewV2 { side, price, qty, ot, cid, st }),
        6 => order3().prop_map(Ins::NewV3),
        3 => (0u8..2, w128()).prop_map(|(side, id)| Ins::Cancel { side, id }),
        2 => w64().prop_map(Ins::CancelCid),
        4 => (0u8..2, n64(), n64(), n64(), w64(), w64(), w16()).prop_map(|(side, price, qty, pc, min_coin, min_pc, limit)| Ins::Take { side, price, qty, pc, min_coin, min_pc, limit }),
        1 => Just(Ins::Close),
        1 => Just(Ins::InitOo),
        1 => w16().prop_map(Ins::Prune),
        1 => w16().prop_map(Ins::ConsumePerm),
        3 => prop::collection::vec(w64(), 8).prop_map(|v| { let mut c = [0; 8]; c.copy_from_slice(&v); Ins::CancelCids(c) }),
        3 => order3().prop_map(Ins::Replace),
        4 => prop::collection::vec(order3(), 0..=8).prop_map(Ins::ReplaceMany),
    ]
}

/// A distortion of a well-formed byte string.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Twist {
    Cut(u16),
    Grow(Vec<u8>),
    Flip(u16, u8),
    Set32(u16, u32),
    Zero(u16, u8),
    Disc(u32),
    Version(u8),
    Count(u64),
    /// drop or repeat a whole trailing word / order
    Words(i8, u8),
}
fn twist() -> impl Strategy<Value = Twist> {
    prop_oneof![
        2 => any::<u16>().prop_map(Twist::Cut),
        2 => prop::collection::vec(any::<u8>(), 1..60).prop_map(Twist::Grow),
        4 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Twist::Flip(a, b)),
        4 => (any::<u16>(), prop_oneof![0u32..6, Just(256u32), Just(257), Just(1 << 16), Just(1 << 24), Just(u32::MAX), any::<u32>()]).prop_map(|(a, b)| Twist::Set32(a, b)),
        3 => (any::<u16>(), 1u8..17).prop_map(|(a, b)| Twist::Zero(a, b)),
        3 => prop_oneof![0u32..24, Just(256u32), Just(1 << 24), (0u32..21, 1u32..4).prop_map(|(a, s)| a | 1 << (8 * s)), any::<u32>()].prop_map(Twist::Disc),
        1 => any::<u8>().prop_map(Twist::Version),
        2 => prop_oneof![0u64..12, any::<u64>(), (0u64..9).prop_map(|x| x | 1 << 32), (0u64..9).prop_map(|x| x | 1 << 8)].prop_map(Twist::Count),
        3 => (-12i8..13, prop_oneof![Just(8u8), Just(54), Just(2), Just(4), Just(1)]).prop_map(|(a, b)| Twist::Words(a, b)),
    ]
}
fn apply(b: &mut Vec<u8>, t: &Twist) {
    match t {
        Twist::Cut(n) => {
            let n = *n as usize % (b.len() + 1);
            b.truncate(n)
        }
        Twist::Grow(v) => b.extend_from_slice(v),
        Twist::Flip(i, x) => {
            if !b.is_empty() {
                let i = *i as usize % b.len();
                b[i] ^= x;
            }
        }
        Twist::Set32(i, x) => {
            if b.len() >= 9 {
                // enum fields sit at offsets of 4-byte fields
                let i = 5 + *i as usize % (b.len() - 8);
                b[i..i + 4].copy_from_slice(&x.to_le_bytes());
            }
        }
        Twist::Zero(i, n) => {
            if b.len() > 5 {
                let i = 5 + *i as usize % (b.len() - 5);
                let e = (i + *n as usize).min(b.len());
                b[i..e].fill(0);
            }
        }
        Twist::Disc(d) => {
            if b.len() >= 5 {
                b[1..5].copy_from_slice(&d.to_le_bytes())
            }
        }
        Twist::Version(v) => {
            if !b.is_empty() {
                b[0] = *v
            }
        }
        Twist::Count(c) => {
            if b.len() >= 13 {
                b[5..13].copy_from_slice(&c.to_le_bytes())
            }
        }
        Twist::Words(k, w) => {
            let (k, w) = (*k as isize, *w as usize);
            if k < 0 {
                let n = b.len().saturating_sub((-k) as usize * w).max(5.min(b.len()));
                b.truncate(n)
            } else {
                for i in 0..k as usize * w {
                    let x = if b.len() > 5 + w { b[b.len() - w] } else { i as u8 };
                    b.push(x)
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WireCase {
    Valid(Ins),
    Twisted(Ins, Vec<Twist>),
    Raw(Vec<u8>),
    /// discriminant, body
    Body(u32, Vec<u8>),
}
pub fn wire_case() -> impl Strategy<Value = WireCase> {
    let lens = prop_oneof![Just(0usize), Just(2), Just(8), Just(20), Just(32), Just(34), Just(36), Just(46), Just(53), Just(54), Just(64), Just(62), Just(116), Just(440), 0usize..450];
    prop_oneof![
        4 => ins().prop_map(WireCase::Valid),
        6 => (ins(), prop::collection::vec(twist(), 1..3)).prop_map(|(i, t)| WireCase::Twisted(i, t)),
        1 => prop::collection::vec(any::<u8>(), 0..12).prop_map(WireCase::Raw),
        2 => (0u32..22, lens.prop_flat_map(|n| prop::collection::vec(prop_oneof![Just(0u8), Just(1), any::<u8>()], n))).prop_map(|(d, b)| WireCase::Body(d, b)),
    ]
}

/// None: the decoder itself blew up
fn unpack(b: &[u8]) -> Option<Option<MI>> {
    std::panic::catch_unwind(|| MI::unpack(b)).ok()
}

pub fn check_wire(c: &WireCase) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let b = match c {
        WireCase::Valid(i) => encode(i),
        WireCase::Twisted(i, ts) => {
            let mut b = encode(i);
            for t in ts {
                apply(&mut b, t);
            }
            b
        }
        WireCase::Raw(b) => b.clone(),
        WireCase::Body(d, b) => {
            let mut v = disc(*d);
            v.extend_from_slice(b);
            v
        }
    };
    let want = decode(&b);
    let got = unpack(&b);
    ensure!(got.is_some(), "wire:panic", "decoding {:02x?} panicked", b);
    let got = got.unwrap();
    let seen = got.as_ref().map(view);
    ensure!(seen == want, "wire:meaning", "{:02x?} means {:?}, the program read {:?}", b, want, seen);
    rep.evals += 1;
    rep.hit(&b);
    match &got {
        Some(m) => {
            rep.label("understood");
            let canon = encode(want.as_ref().unwrap());
            let packed = m.pack();
            ensure!(packed == canon, "wire:pack", "{:?} packs as {:02x?}, wire format is {:02x?}", m, packed, canon);
            ensure!(MI::unpack(&packed).as_ref() == Some(m), "wire:roundtrip", "{:?} does not survive the round trip", m);
            rep.evals += 2;
        }
        None => rep.label("refused"),
    }
    Ok(rep)
}

/// Bytes that mean nothing, or a retired instruction, never take effect.
pub fn junk_case() -> impl Strategy<Value = (crate::ops::Case, Vec<(u8, WireCase)>)> {
    let p = crate::ops::Profile { len: (2, 8), ..BASE };
    (case(p), prop::collection::vec((any::<u8>(), wire_case()), 1..12))
}
pub fn check_junk((c, junk): &(crate::ops::Case, Vec<(u8, WireCase)>)) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut env = Env::new(&c.cfg, false);
    let mut metas = vec![];
    for op in &c.ops {
        let snap = env.snap().map_err(|e| Violation::new("unreadable", e))?;
        for act in resolve(&env, &snap, op) {
            metas.push(act.ix(&env.a));
            env.exec(&act);
        }
    }
    if metas.is_empty() {
        return Ok(rep);
    }
    for (pick, j) in junk {
        let (m, own) = &metas[*pick as usize % metas.len()];
        let mut b = match j {
            WireCase::Valid(i) => encode(i),
            // distort the instruction these accounts were meant for
            WireCase::Twisted(_, ts) => {
                let mut b = own.clone();
                for t in ts {
                    apply(&mut b, t);
                }
                b
            }
            WireCase::Raw(b) => b.clone(),
            WireCase::Body(d, b) => {
                let mut v = disc(*d);
                v.extend_from_slice(b);
                v
            }
        };
        let meant = decode(&b);
        if !matches!(meant, None | Some(Ins::NewV1 { .. } | Ins::NewV2 { .. } | Ins::CancelV1 { .. } | Ins::CancelCidV1(_))) {
            b[0] = 1 + pick % 255; // an unknown version
        }
        let before = env.w.clone();
        let pid = env.pid;
        let r = env.w.exec_raw(&pid, m, &b, dex);
        rep.evals += 1;
        rep.hit(&(m.len(), &b));
        rep.label(if meant.is_none() { "junk executed" } else { "retired or unknown version executed" });
        if r.ok() {
            svm::bad!("wire:executed", "{:02x?} was executed ({:?} accounts)", b, m.len());
        }
        env.w = before;
    }
    Ok(rep)
}

pub fn mi_side(s: crate::abi::Sd) -> Side {
    match s {
        crate::abi::Sd::Bid => Side::Bid,
        crate::abi::Sd::Ask => Side::Ask,
    }
}
pub fn nz64(x: u64) -> Option<NonZeroU64> {
    NonZeroU64::new(x)
}
