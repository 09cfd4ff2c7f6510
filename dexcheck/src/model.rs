//! Reference model of the exchange: one step from a parsed snapshot of the
//! real accounts to the snapshot that must result. Written against the
//! documented behaviour with ordered maps and checked arithmetic; it shares no
//! code with the program.
use crate::abi::*;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub mkt: Mkt,
    pub bids: Book,
    pub asks: Book,
    pub evq: EvQ,
    pub reqq: ReqQ,
    /// open-orders accounts; `None` while not yet initialised
    pub oos: BTreeMap<Pubkey, Option<Oo>>,
    pub oo_lamports: BTreeMap<Pubkey, u64>,
    /// token balances, vaults included
    pub tokens: BTreeMap<Pubkey, u64>,
    pub ts: i64,
}

impl Snap {
    pub fn book(&self, s: Sd) -> &Book {
        match s {
            Sd::Bid => &self.bids,
            Sd::Ask => &self.asks,
        }
    }
    pub fn book_mut(&mut self, s: Sd) -> &mut Book {
        match s {
            Sd::Bid => &mut self.bids,
            Sd::Ask => &mut self.asks,
        }
    }
    pub fn disabled(&self) -> bool {
        self.mkt.flags & F_DISABLED != 0
    }
    pub fn permissioned(&self) -> bool {
        self.mkt.flags & F_PERM != 0
    }
    pub fn crank_auth(&self) -> Option<Pubkey> {
        if self.mkt.flags & F_CRANK != 0 {
            self.mkt.auth.map(|a| a.2)
        } else {
            None
        }
    }
    fn tok(&mut self, k: &Pubkey) -> &mut u64 {
        self.tokens.entry(*k).or_insert(0)
    }
    fn xfer(&mut self, from: &Pubkey, to: &Pubkey, n: u64) -> R<()> {
        if *self.tok(from) < n {
            return Err(Fail::InsufficientFunds);
        }
        if from == to {
            return Ok(());
        }
        *self.tok(from) -= n;
        let t = self.tok(to);
        *t = t.checked_add(n).ok_or(Fail::Unspecified)?;
        Ok(())
    }
}

/// Why the model refuses an instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fail {
    Disabled,
    Expired,
    InsufficientFunds,
    SelfTrade,
    EventQueueFull,
    SlotsFull,
    NotFound,
    NotOwner,
    BadOpenOrders,
    Authority,
    NotEmpty,
    MinNotMet,
    BadRequest,
    /// arithmetic outside the supported range: nothing is claimed
    Unspecified,
}
pub type R<T> = Result<T, Fail>;

pub const TIERS: [u64; 8] = [40, 39, 38, 36, 34, 32, 30, 10];

/// Taker rate in units of 2^-64.
pub fn rate(tier: u8) -> u128 {
    ((TIERS[tier as usize] as u128) << 64) / 100_000
}
pub fn taker_fee(tier: u8, pc: u64) -> u64 {
    let x = rate(tier) * pc as u128;
    ((x + ((1u128 << 64) - 1)) >> 64) as u64
}
pub fn budget_without_fee(tier: u8, pc: u64) -> u64 {
    (((pc as u128) << 64) / ((1u128 << 64) + rate(tier))) as u64
}
pub fn referrer_cut(fee: u64) -> u64 {
    fee / 5
}
pub const STABLE: u8 = 7;
pub fn tier_for(stable: bool, srm: u64, msrm: u64) -> u8 {
    if stable {
        return STABLE;
    }
    if msrm >= 1 {
        return 6;
    }
    let t = [100u64, 1_000, 10_000, 100_000, 1_000_000];
    t.iter().filter(|x| srm >= **x * 1_000_000).count() as u8
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ot {
    Limit,
    Ioc,
    PostOnly,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum St {
    Decrement,
    CancelProvide,
    Abort,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Order {
    pub side: Sd,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub ot: Ot,
    pub st: St,
    pub limit: u16,
    pub cid: u64,
    pub max_ts: i64,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Trade {
    pub maker_id: u128,
    pub price: u64,
    pub qty: u64,
}

/// What happened inside one step, for classification and direct oracles.
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub trades: Vec<Trade>,
    pub self_trades: usize,
    pub evicted: Vec<u128>,
    pub posted: Vec<(u128, u64)>,
    pub released: bool,
    pub limit_hit: bool,
    pub fees: u64,
    pub ids: Vec<u128>,
    pub cancelled: Vec<u128>,
    pub consumed: usize,
    pub stopped_early: bool,
}

#[derive(Default, Debug)]
struct Proceeds {
    coin_unlocked: u64, // lots
    pc_unlocked: u64,
    coin_credit: u64, // lots
    pc_credit: u64,
    coin_debit: u64, // lots
    pc_debit: u64,
}

fn mul(a: u64, b: u64) -> R<u64> {
    a.checked_mul(b).ok_or(Fail::Unspecified)
}
fn add(a: u64, b: u64) -> R<u64> {
    a.checked_add(b).ok_or(Fail::Unspecified)
}
fn sub(a: u64, b: u64) -> R<u64> {
    a.checked_sub(b).ok_or(Fail::Unspecified)
}

fn push(s: &mut Snap, e: Ev) -> R<()> {
    if s.evq.events.len() == s.evq.cap {
        return Err(Fail::EventQueueFull);
    }
    s.evq.events.push(e);
    s.evq.seq += 1;
    Ok(())
}

pub fn order_id(price: u64, seq: u64, side: Sd) -> u128 {
    let low = match side {
        Sd::Bid => !seq,
        Sd::Ask => seq,
    };
    (price as u128) << 64 | low as u128
}

/// The matching engine. `taker == None` is an instant swap (no open-orders
/// account, nothing may rest, no taker events).
#[allow(clippy::too_many_arguments)]
fn place(
    s: &mut Snap,
    info: &mut Info,
    taker: Option<(Pubkey, u8)>,
    id: u128,
    tier: u8,
    o: &Order,
) -> R<Proceeds> {
    let (cl, pl) = (s.mkt.coin_lot, s.mkt.pc_lot);
    let mut p = Proceeds::default();
    let mut rem = o.qty; // coin lots wanted / offered
    let mut locked = if o.side == Sd::Bid { o.pc } else { 0 };
    let mut steps = o.limit;
    let maker_side = o.side.opp();
    let (t_owner, t_slot) = taker.unwrap_or_default();
    let crossed;
    loop {
        let best = s.book(maker_side).best(maker_side).copied();
        let Some(best) = best else {
            crossed = false;
            break;
        };
        let px = best.price();
        let crosses = match o.side {
            Sd::Bid => o.price >= px,
            Sd::Ask => o.price <= px,
        };
        if !crosses || o.ot == Ot::PostOnly || steps == 0 {
            crossed = crosses;
            if crosses && steps == 0 && o.ot != Ot::PostOnly {
                info.limit_hit = true;
            }
            break;
        }
        let mut q = best.qty.min(rem);
        if o.side == Sd::Bid {
            q = q.min(budget_without_fee(tier, locked) / pl / px);
        }
        if q == 0 {
            crossed = true;
            break;
        }
        steps -= 1;
        if taker.is_some() && best.owner == t_owner {
            info.self_trades += 1;
            let (cancel_maker, cancel_taker) = match o.st {
                St::Decrement => (q, q),
                St::CancelProvide => (best.qty, 0),
                St::Abort => return Err(Fail::SelfTrade),
            };
            let left = best.qty - cancel_maker;
            let unit = match maker_side {
                Sd::Bid => mul(px, pl)?,
                Sd::Ask => cl,
            };
            push(
                s,
                Ev::Out {
                    side: maker_side,
                    release: true,
                    unlocked: mul(cancel_maker, unit)?,
                    still: mul(left, unit)?,
                    id: best.key,
                    owner: best.owner,
                    slot: best.slot,
                    cid: best.cid,
                },
            )?;
            set_qty(s, maker_side, best.key, left);
            rem -= cancel_taker;
            let mut ended = rem == 0;
            let (unlocked, still) = match o.side {
                Sd::Ask => {
                    p.coin_unlocked = add(p.coin_unlocked, cancel_taker)?;
                    // the remaining quantity is reported in lots
                    (mul(cancel_taker, cl)?, rem)
                }
                Sd::Bid => {
                    let mut un = mul(mul(cancel_taker, px)?, pl)?;
                    let mut st = sub(locked, un)?;
                    ended |= st == 0;
                    if ended {
                        un = locked;
                        st = 0;
                    }
                    p.pc_unlocked = add(p.pc_unlocked, un)?;
                    locked = st;
                    (un, st)
                }
            };
            push(
                s,
                Ev::Out { side: o.side, release: false, unlocked, still, id, owner: t_owner, slot: t_slot, cid: o.cid },
            )?;
            if ended {
                return Ok(p);
            }
            continue;
        }
        // a trade
        let pc = mul(mul(q, px)?, pl)?;
        let coin = mul(q, cl)?;
        let fee = taker_fee(tier, pc);
        info.trades.push(Trade { maker_id: best.key, price: px, qty: q });
        info.fees += fee;
        let (m_paid, m_recv) = match maker_side {
            Sd::Bid => (pc, coin),
            Sd::Ask => (coin, pc),
        };
        push(
            s,
            Ev::Fill {
                side: maker_side,
                maker: true,
                paid: m_paid,
                received: m_recv,
                fee: 0,
                id: best.key,
                owner: best.owner,
                slot: best.slot,
                tier: best.tier,
                cid: best.cid,
            },
        )?;
        if best.qty == q {
            push(
                s,
                Ev::Out {
                    side: maker_side,
                    release: true,
                    unlocked: 0,
                    still: 0,
                    id: best.key,
                    owner: best.owner,
                    slot: best.slot,
                    cid: best.cid,
                },
            )?;
        }
        set_qty(s, maker_side, best.key, best.qty - q);
        rem -= q;
        let (t_paid, t_recv) = match o.side {
            Sd::Bid => {
                let spent = add(pc, fee)?;
                locked = sub(locked, spent)?;
                p.coin_credit = add(p.coin_credit, q)?;
                p.pc_debit = add(p.pc_debit, spent)?;
                (spent, coin)
            }
            Sd::Ask => {
                let net = sub(pc, fee)?;
                p.pc_credit = add(p.pc_credit, net)?;
                p.coin_debit = add(p.coin_debit, q)?;
                (coin, net)
            }
        };
        if taker.is_some() {
            push(
                s,
                Ev::Fill {
                    side: o.side,
                    maker: false,
                    paid: t_paid,
                    received: t_recv,
                    fee,
                    id,
                    owner: t_owner,
                    slot: t_slot,
                    tier,
                    cid: o.cid,
                },
            )?;
        }
        let cut = referrer_cut(fee);
        s.mkt.rebates = add(s.mkt.rebates, cut)?;
        s.mkt.pc_fees = add(s.mkt.pc_fees, fee - cut)?;
        // the fee leaves the deposits (an instant bid pays it in afterwards)
        s.mkt.pc_dep = s.mkt.pc_dep.wrapping_sub(fee);
        if rem == 0 || (o.side == Sd::Bid && locked == 0) {
            crossed = true;
            break;
        }
    }
    let may_rest = o.ot != Ot::Ioc && !crossed;
    match o.side {
        Sd::Bid => {
            let post = if may_rest { rem.min(locked / pl / o.price) } else { 0 };
            let keep = mul(mul(post, o.price)?, pl)?;
            if taker.is_some() {
                let unlocked = sub(locked, keep)?;
                p.pc_unlocked = add(p.pc_unlocked, unlocked)?;
                info.released |= unlocked > 0;
                push(
                    s,
                    Ev::Out { side: Sd::Bid, release: false, unlocked, still: keep, id, owner: t_owner, slot: t_slot, cid: o.cid },
                )?;
            }
            if post > 0 {
                rest(s, info, Sd::Bid, Leaf { key: id, slot: t_slot, tier, owner: t_owner, qty: post, cid: o.cid })?;
            }
        }
        Sd::Ask => {
            if may_rest && rem > 0 {
                rest(s, info, Sd::Ask, Leaf { key: id, slot: t_slot, tier, owner: t_owner, qty: rem, cid: o.cid })?;
            } else if taker.is_some() {
                p.coin_unlocked = add(p.coin_unlocked, rem)?;
                info.released |= rem > 0;
                push(
                    s,
                    Ev::Out {
                        side: Sd::Ask,
                        release: false,
                        unlocked: mul(rem, cl)?,
                        still: 0,
                        id,
                        owner: t_owner,
                        slot: t_slot,
                        cid: o.cid,
                    },
                )?;
            }
        }
    }
    Ok(p)
}

fn set_qty(s: &mut Snap, side: Sd, key: u128, qty: u64) {
    let b = s.book_mut(side);
    if qty == 0 {
        b.leaves.remove(&key);
    } else {
        b.leaves.get_mut(&key).unwrap().qty = qty;
    }
}

fn rest(s: &mut Snap, info: &mut Info, side: Sd, leaf: Leaf) -> R<()> {
    info.posted.push((leaf.key, leaf.qty));
    if !s.book(side).fits() {
        // least aggressive: lowest bid / highest ask, newest first among equals
        let worst = match side {
            Sd::Bid => *s.bids.leaves.values().next().unwrap(),
            Sd::Ask => *s.asks.leaves.values().next_back().unwrap(),
        };
        s.book_mut(side).leaves.remove(&worst.key);
        info.evicted.push(worst.key);
        let unlocked = match side {
            Sd::Bid => mul(mul(worst.qty, worst.price())?, s.mkt.pc_lot)?,
            Sd::Ask => mul(worst.qty, s.mkt.coin_lot)?,
        };
        push(
            s,
            Ev::Out { side, release: true, unlocked, still: 0, id: worst.key, owner: worst.owner, slot: worst.slot, cid: worst.cid },
        )?;
    }
    s.book_mut(side).leaves.insert(leaf.key, leaf);
    Ok(())
}

/// The open-orders account an owner acts through.
fn owned<'a>(s: &'a mut Snap, oo: &Pubkey, owner: &Pubkey) -> R<&'a mut Oo> {
    let market = s.mkt.own;
    match s.oos.get_mut(oo) {
        Some(Some(o)) if o.flags == F_INIT | F_OO && o.market == market => {
            if o.owner != *owner {
                return Err(Fail::NotOwner);
            }
            Ok(o)
        }
        _ => Err(Fail::BadOpenOrders),
    }
}

pub fn new_order(
    s: &mut Snap,
    info: &mut Info,
    oo: Pubkey,
    owner: Pubkey,
    payer: Pubkey,
    tier: u8,
    o: &Order,
) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    if let Some(None) = s.oos.get(&oo) {
        if s.permissioned() {
            return Err(Fail::Authority);
        }
        let m = s.mkt.own;
        s.oos.insert(oo, Some(Oo::fresh(m, owner)));
    }
    owned(s, &oo, &owner)?;
    if o.max_ts != i64::MAX && s.ts > o.max_ts {
        return Err(Fail::Expired);
    }
    if s.reqq.count != 0 {
        return Err(Fail::BadRequest);
    }
    let (cl, vault) = (
        s.mkt.coin_lot,
        match o.side {
            Sd::Bid => s.mkt.pc_vault,
            Sd::Ask => s.mkt.coin_vault,
        },
    );
    let lock = match o.side {
        Sd::Bid => o.pc,
        Sd::Ask => o.qty.checked_mul(cl).ok_or(Fail::InsufficientFunds)?,
    };
    let payer_bal = *s.tok(&payer);
    let a = owned(s, &oo, &owner)?;
    let deposit;
    match o.side {
        Sd::Bid => {
            let from_free = lock.min(a.pc_free);
            deposit = lock - from_free;
            if payer_bal < deposit {
                return Err(Fail::InsufficientFunds);
            }
            a.pc_free -= from_free;
            a.pc_total = add(a.pc_total, deposit)?;
            s.mkt.pc_dep = add(s.mkt.pc_dep, deposit)?;
        }
        Sd::Ask => {
            let from_free = lock.min(a.coin_free);
            deposit = lock - from_free;
            if payer_bal < deposit {
                return Err(Fail::InsufficientFunds);
            }
            a.coin_free -= from_free;
            a.coin_total = add(a.coin_total, deposit)?;
            s.mkt.coin_dep = add(s.mkt.coin_dep, deposit)?;
        }
    }
    let id = order_id(o.price, s.reqq.seq, o.side);
    s.reqq.seq += 1;
    info.ids.push(id);
    let a = owned(s, &oo, &owner)?;
    let slot = a.slots.iter().position(|x| x.is_none()).ok_or(Fail::SlotsFull)?;
    a.slots[slot] = Some(Slot { id, side: o.side, cid: o.cid });
    let p = place(s, info, Some((oo, slot as u8)), id, tier, o)?;
    let a = owned(s, &oo, &owner)?;
    let coin_in = mul(p.coin_credit, cl)?;
    let coin_un = mul(p.coin_unlocked, cl)?;
    let coin_out = mul(p.coin_debit, cl)?;
    a.coin_total = sub(add(a.coin_total, coin_in)?, coin_out)?;
    a.coin_free = add(add(a.coin_free, coin_in)?, coin_un)?;
    a.pc_total = sub(add(a.pc_total, p.pc_credit)?, p.pc_debit)?;
    a.pc_free = add(add(a.pc_free, p.pc_credit)?, p.pc_unlocked)?;
    s.xfer(&payer, &vault, deposit)?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
pub fn send_take(
    s: &mut Snap,
    info: &mut Info,
    coin_wallet: Pubkey,
    pc_wallet: Pubkey,
    tier: u8,
    o: &Order,
    min_coin: u64,
    min_pc: u64,
) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    let id = order_id(o.price, s.reqq.seq, o.side);
    s.reqq.seq += 1;
    info.ids.push(id);
    let o = Order { ot: Ot::Ioc, st: St::Abort, cid: 0, ..*o };
    let p = place(s, info, None, id, tier, &o)?;
    let cl = s.mkt.coin_lot;
    let (cv, pv) = (s.mkt.coin_vault, s.mkt.pc_vault);
    match o.side {
        Sd::Bid => {
            if p.coin_credit < min_coin {
                return Err(Fail::MinNotMet);
            }
            let out = mul(p.coin_credit, cl)?;
            s.mkt.pc_dep = s.mkt.pc_dep.wrapping_add(p.pc_debit);
            s.mkt.coin_dep = sub(s.mkt.coin_dep, out)?;
            s.xfer(&pc_wallet, &pv, p.pc_debit)?;
            s.xfer(&cv, &coin_wallet, out)?;
        }
        Sd::Ask => {
            if p.pc_credit < min_pc {
                return Err(Fail::MinNotMet);
            }
            let inn = mul(p.coin_debit, cl)?;
            s.mkt.coin_dep = add(s.mkt.coin_dep, inn)?;
            s.mkt.pc_dep = sub(s.mkt.pc_dep, p.pc_credit)?;
            s.xfer(&coin_wallet, &cv, inn)?;
            s.xfer(&pv, &pc_wallet, p.pc_credit)?;
        }
    }
    Ok(())
}

fn cancel_leaf(s: &mut Snap, info: &mut Info, oo: Pubkey, owner: &Pubkey, side: Sd, id: u128) -> R<()> {
    let leaf = *s.book(side).leaves.get(&id).ok_or(Fail::NotFound)?;
    if leaf.owner != oo {
        return Err(Fail::NotOwner);
    }
    let unlocked = match side {
        Sd::Bid => mul(mul(leaf.qty, leaf.price())?, s.mkt.pc_lot)?,
        Sd::Ask => mul(leaf.qty, s.mkt.coin_lot)?,
    };
    let a = owned(s, &oo, owner)?;
    match a.slots[leaf.slot as usize] {
        Some(sl) if sl.id == id && sl.side == side => {}
        _ => return Err(Fail::BadRequest),
    }
    match side {
        Sd::Bid => a.pc_free = add(a.pc_free, unlocked)?,
        Sd::Ask => a.coin_free = add(a.coin_free, unlocked)?,
    }
    s.book_mut(side).leaves.remove(&id);
    info.cancelled.push(id);
    push(s, Ev::Out { side, release: false, unlocked, still: 0, id, owner: oo, slot: leaf.slot, cid: leaf.cid })
}

pub fn cancel(s: &mut Snap, info: &mut Info, oo: Pubkey, owner: Pubkey, side: Sd, id: u128) -> R<()> {
    owned(s, &oo, &owner)?;
    cancel_leaf(s, info, oo, &owner, side, id)
}

pub fn cancel_cid(s: &mut Snap, info: &mut Info, oo: Pubkey, owner: Pubkey, cid: u64) -> R<()> {
    if cid == 0 {
        return Err(Fail::BadRequest);
    }
    let a = owned(s, &oo, &owner)?;
    let sl = a.slots.iter().flatten().find(|x| x.cid == cid).copied().ok_or(Fail::NotFound)?;
    cancel_leaf(s, info, oo, &owner, sl.side, sl.id)
}

pub fn cancel_batch(s: &mut Snap, info: &mut Info, oo: Pubkey, owner: Pubkey, cids: &[u64]) -> R<()> {
    let a = owned(s, &oo, &owner)?;
    let todo: Vec<Slot> = a.slots.iter().flatten().filter(|x| x.cid != 0 && cids.contains(&x.cid)).copied().collect();
    for sl in todo {
        match cancel_leaf(s, info, oo, &owner, sl.side, sl.id) {
            // an order already matched or evicted but not yet cranked
            Err(Fail::NotFound) => {}
            r => r?,
        }
    }
    Ok(())
}

pub fn consume(s: &mut Snap, info: &mut Info, given: &[Pubkey], limit: u16, authority: Option<Pubkey>) -> R<()> {
    match (s.crank_auth(), authority) {
        (None, None) => {}
        (Some(a), Some(b)) if a == b => {}
        _ => return Err(Fail::Authority),
    }
    for _ in 0..limit {
        let Some(e) = s.evq.events.first().copied() else { break };
        if !given.contains(&e.owner()) {
            info.stopped_early = true;
            break;
        }
        let market = s.mkt.own;
        let a = match s.oos.get_mut(&e.owner()) {
            Some(Some(a)) if a.flags == F_INIT | F_OO && a.market == market => a,
            _ => return Err(Fail::BadOpenOrders),
        };
        match a.slots[e.slot() as usize] {
            Some(sl) if sl.id == e.id() && sl.side == e.side() => {}
            _ => return Err(Fail::BadRequest),
        }
        match e {
            Ev::Fill { side, maker: true, paid, received, fee, .. } => match side {
                Sd::Bid => {
                    a.pc_total = sub(a.pc_total, paid)?;
                    a.coin_total = add(a.coin_total, received)?;
                    a.coin_free = add(a.coin_free, received)?;
                    a.pc_free = add(a.pc_free, fee)?;
                }
                Sd::Ask => {
                    a.coin_total = sub(a.coin_total, paid)?;
                    a.pc_total = add(a.pc_total, received)?;
                    a.pc_free = add(a.pc_free, received)?;
                }
            },
            Ev::Fill { maker: false, fee, .. } => {
                a.rebates = add(a.rebates, referrer_cut(fee))?;
            }
            Ev::Out { side, release, unlocked, still, slot, .. } => {
                if release {
                    match side {
                        Sd::Bid => a.pc_free = add(a.pc_free, unlocked)?,
                        Sd::Ask => a.coin_free = add(a.coin_free, unlocked)?,
                    }
                }
                if still == 0 {
                    a.slots[slot as usize] = None;
                }
            }
        }
        s.evq.events.remove(0);
        s.evq.head = (s.evq.head + 1) % s.evq.cap as u64;
        info.consumed += 1;
    }
    Ok(())
}

pub fn settle(
    s: &mut Snap,
    oo: Pubkey,
    owner: Pubkey,
    coin_wallet: Pubkey,
    pc_wallet: Pubkey,
    referrer: Option<Pubkey>,
) -> R<()> {
    let (cv, pv) = (s.mkt.coin_vault, s.mkt.pc_vault);
    let a = owned(s, &oo, &owner)?;
    let (c, p, r) = (a.coin_free, a.pc_free, a.rebates);
    a.coin_free = 0;
    a.pc_free = 0;
    a.rebates = 0;
    a.coin_total = sub(a.coin_total, c)?;
    a.pc_total = sub(a.pc_total, p)?;
    s.mkt.coin_dep = sub(s.mkt.coin_dep, c)?;
    s.mkt.pc_dep = sub(s.mkt.pc_dep, p)?;
    s.xfer(&cv, &coin_wallet, c)?;
    s.xfer(&pv, &pc_wallet, p)?;
    match referrer {
        Some(k) => s.xfer(&pv, &k, r)?,
        None => s.mkt.pc_fees = add(s.mkt.pc_fees, r)?,
    }
    s.mkt.rebates = sub(s.mkt.rebates, r)?;
    Ok(())
}

pub fn sweep(s: &mut Snap, to: Pubkey) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    let pv = s.mkt.pc_vault;
    let n = s.mkt.pc_fees;
    s.mkt.pc_fees = 0;
    s.xfer(&pv, &to, n)
}

pub fn disable(s: &mut Snap) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    s.mkt.flags |= F_DISABLED;
    Ok(())
}

pub fn init_oo(s: &mut Snap, oo: Pubkey, owner: Pubkey, authority: Option<Pubkey>) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    if let Some(None) = s.oos.get(&oo) {
        if s.mkt.auth.map(|a| a.0) != authority {
            return Err(Fail::Authority);
        }
        let m = s.mkt.own;
        s.oos.insert(oo, Some(Oo::fresh(m, owner)));
    }
    owned(s, &oo, &owner)?;
    Ok(())
}

pub fn close_oo(s: &mut Snap, oo: Pubkey, owner: Pubkey) -> R<()> {
    let a = owned(s, &oo, &owner)?;
    if a.n_orders() != 0 || a.coin_total != 0 || a.pc_total != 0 {
        return Err(Fail::NotEmpty);
    }
    a.flags = F_CLOSED;
    s.oo_lamports.insert(oo, 0);
    Ok(())
}

/// Removal of an account's resting orders by the prune authority; `limit`
/// bounds the work, so with a small limit some may remain: `removed` is what
/// the program removed and the model checks that it was entitled to.
pub fn prune(
    s: &mut Snap,
    info: &mut Info,
    oo: Pubkey,
    owner: Pubkey,
    authority: Pubkey,
    limit: u16,
    removed: Option<&[(Sd, u128)]>,
) -> R<()> {
    if s.disabled() {
        return Err(Fail::Disabled);
    }
    match s.mkt.auth {
        Some((_, p, _)) if p == authority => {}
        _ => return Err(Fail::Authority),
    }
    owned(s, &oo, &owner)?;
    let nodes = |n: usize| if n == 0 { 0 } else { 2 * n - 1 };
    let all = nodes(s.bids.leaves.len()) + nodes(s.asks.leaves.len());
    let mine: Vec<(Sd, u128)> = [Sd::Bid, Sd::Ask]
        .iter()
        .flat_map(|sd| s.book(*sd).leaves.values().filter(|l| l.owner == oo).map(|l| (*sd, l.key)).collect::<Vec<_>>())
        .collect();
    let list: Vec<(Sd, u128)> = if (limit as usize) >= all {
        // everything; the order of the events follows the book walk, so it is taken as given
        let mut v: Vec<(Sd, u128)> = removed.unwrap_or(&[]).iter().filter(|r| mine.contains(r)).copied().collect();
        for m in mine {
            if !v.contains(&m) {
                v.push(m);
            }
        }
        v
    } else {
        match removed {
            Some(r) => r.iter().filter(|r| mine.contains(r)).take(limit as usize).copied().collect(),
            // which ones it met depends on the walk: whether they fit is not ours to say
            None if s.evq.events.len() + mine.len().min(limit as usize) > s.evq.cap => return Err(Fail::Unspecified),
            None => vec![],
        }
    };
    for (side, id) in list {
        cancel_leaf(s, info, oo, &owner, side, id)?;
    }
    Ok(())
}
