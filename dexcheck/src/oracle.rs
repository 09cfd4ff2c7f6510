//! Direct oracles: judgements made from the observed states and events alone,
//! without the reference model's matching engine.
use crate::abi::*;
use crate::model::*;
use crate::run::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};
use svm::harness::Violation;
use svm::{bad, ensure};

pub type V = Result<(), Violation>;

/// What a history accumulates for the oracles.
#[derive(Default)]
pub struct Mem {
    /// when an order came to rest
    pub arrival: HashMap<u128, u64>,
    tick: u64,
    /// (coin, pc) each user must end up with relative to the start
    pub expect: BTreeMap<Pubkey, (i128, i128)>,
    /// rebates nobody can claim
    pub orphan_rebates: u128,
    pub trades: u64,
    /// ids ever issued
    pub ids: std::collections::HashSet<(u128, Sd)>,
}

pub fn appended(st: &StepOut) -> &[Ev] {
    let n = st.pre.evq.events.len();
    st.post.evq.events.get(n..).unwrap_or(&[])
}

/// Fills of makers: (maker id, owner, maker side, lots, price)
pub fn maker_fills(st: &StepOut) -> Vec<(u128, Pubkey, Sd, u64, u64)> {
    let cl = st.pre.mkt.coin_lot;
    appended(st)
        .iter()
        .filter_map(|e| match *e {
            Ev::Fill { maker: true, side, paid, received, id, owner, .. } => {
                let coin = if side == Sd::Bid { received } else { paid };
                Some((id, owner, side, coin / cl, (id >> 64) as u64))
            }
            _ => None,
        })
        .collect()
}

/// The resting orders this step ran into, in the order it did.
fn touched(st: &StepOut, maker_side: Sd) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for e in appended(st) {
        let id = match *e {
            Ev::Fill { maker: true, side, id, .. } if side == maker_side => id,
            Ev::Out { release: true, side, id, .. } if side == maker_side => id,
            _ => continue,
        };
        if v.last() != Some(&id) {
            v.push(id);
        }
    }
    v
}

fn single(act: &Act) -> Option<&Order> {
    match act {
        Act::New { o, .. } | Act::Take { o, .. } => Some(o),
        Act::Replace { os, .. } if os.len() == 1 => Some(&os[0]),
        _ => None,
    }
}

impl Mem {
    pub fn observe(&mut self, st: &StepOut) {
        if !st.out.ok() {
            return;
        }
        for id in &st.info.ids {
            self.tick += 1;
            self.arrival.entry(*id).or_insert(self.tick);
        }
        for sd in [Sd::Bid, Sd::Ask] {
            for k in st.post.book(sd).leaves.keys() {
                self.tick += 1;
                self.arrival.entry(*k).or_insert(self.tick);
            }
        }
    }

    /// Best price first, then first come first served; nobody is skipped.
    pub fn priority(&self, act: &Act, st: &StepOut) -> V {
        let Some(o) = single(act) else { return Ok(()) };
        if !st.out.ok() {
            return Ok(());
        }
        let mk = o.side.opp();
        let mut q: Vec<&Leaf> = st.pre.book(mk).leaves.values().filter(|l| !st.info.cancelled.contains(&l.key)).collect();
        q.sort_by_key(|l| {
            let p = l.price() as i128;
            (if mk == Sd::Bid { -p } else { p }, self.arrival.get(&l.key).copied().unwrap_or(0))
        });
        let t = touched(st, mk);
        for (i, id) in t.iter().enumerate() {
            ensure!(q.get(i).map(|l| l.key) == Some(*id), "priority:order", "{:?}: order {:x} was matched at position {} but the queue is {:?}", act, id, i, q.iter().take(6).map(|l| (l.price(), l.qty, l.key)).collect::<Vec<_>>());
            let left = st.post.book(mk).leaves.get(id);
            ensure!(i + 1 == t.len() || left.is_none(), "priority:skipped", "{:?}: moved past order {:x} while it still has {:?}", act, id, left);
        }
        for l in q.iter().skip(t.len()) {
            ensure!(st.post.book(mk).leaves.get(&l.key) == Some(*l), "priority:untouched", "{:?}: order {:x} changed without being matched", act, l.key);
        }
        Ok(())
    }

    /// Nobody pays more or receives less than the order allowed.
    pub fn bounds(&self, env: &Env, act: &Act, st: &StepOut) -> V {
        if !st.out.ok() {
            return Ok(());
        }
        let fills = maker_fills(st);
        let (cl, pl) = (st.pre.mkt.coin_lot as i128, st.pre.mkt.pc_lot as i128);
        let Some(o) = single(act) else { return Ok(()) };
        for (id, _, _, _, px) in &fills {
            let ok = if o.side == Sd::Bid { *px <= o.price } else { *px >= o.price };
            ensure!(ok, "bounds:price", "{:?} traded with {:x} at {} beyond its limit", act, id, px);
        }
        let lots: i128 = fills.iter().map(|f| f.3 as i128).sum();
        let gross: i128 = fills.iter().map(|f| f.3 as i128 * f.4 as i128 * pl).sum();
        let (coin0, coin1, pc0, pc1, tier, resting);
        match act {
            Act::New { oo, payer, owner, fee, .. } | Act::Replace { oo, payer, owner, fee, .. } => {
                let tot = |s: &Snap| s.oos[oo].as_ref().map_or((0, 0), |a| (a.coin_total as i128, a.pc_total as i128));
                let (a, b) = (tot(&st.pre), tot(&st.post));
                let w = |s: &Snap| s.tokens[payer] as i128;
                let (wc, wp) = if o.side == Sd::Bid { (0, 1) } else { (1, 0) };
                coin0 = a.0 + wc * w(&st.pre);
                coin1 = b.0 + wc * w(&st.post);
                pc0 = a.1 + wp * w(&st.pre);
                pc1 = b.1 + wp * w(&st.post);
                tier = env.tier(owner, fee).unwrap_or(0);
                let fresh: Vec<&Leaf> = st.post.book(o.side).leaves.values().filter(|l| l.owner == *oo && !st.pre.book(o.side).leaves.contains_key(&l.key)).collect();
                ensure!(fresh.len() <= 1, "bounds:rest", "{:?} left {} new orders", act, fresh.len());
                resting = fresh.first().map_or(0, |l| l.qty as i128);
                if let Some(l) = fresh.first() {
                    ensure!(l.price() == o.price, "bounds:rest", "{:?} rests at {}", act, l.price());
                }
            }
            Act::Take { coin, pc, signer, fee, .. } => {
                coin0 = st.pre.tokens[coin] as i128;
                coin1 = st.post.tokens[coin] as i128;
                pc0 = st.pre.tokens[pc] as i128;
                pc1 = st.post.tokens[pc] as i128;
                tier = env.tier(signer, fee).unwrap_or(0);
                resting = 0;
            }
            _ => return Ok(()),
        }
        let fees: i128 = fills.iter().map(|f| taker_fee(tier, (f.3 as u128 * f.4 as u128 * pl as u128) as u64) as i128).sum();
        ensure!(lots + resting <= o.qty as i128, "bounds:quantity", "{:?} traded {} and rests {} lots", act, lots, resting);
        match o.side {
            Sd::Bid => {
                let spent = pc0 - pc1;
                ensure!(coin1 - coin0 == lots * cl, "bounds:amount", "{:?} bought {} lots but received {} coin", act, lots, coin1 - coin0);
                ensure!(spent == gross + fees, "bounds:amount", "{:?} spent {} pc for trades worth {} with fees {}", act, spent, gross, fees);
                ensure!(spent + resting * o.price as i128 * pl <= o.pc as i128, "bounds:budget", "{:?} spent {} pc and locked {} lots at its limit", act, spent, resting);
            }
            Sd::Ask => {
                ensure!(coin0 - coin1 == lots * cl, "bounds:amount", "{:?} sold {} lots but gave {} coin", act, lots, coin0 - coin1);
                ensure!(pc1 - pc0 == gross - fees, "bounds:amount", "{:?} received {} pc for trades worth {} with fees {}", act, pc1 - pc0, gross, fees);
            }
        }
        Ok(())
    }

    /// What each order type promises.
    pub fn types(&self, act: &Act, st: &StepOut) -> V {
        let Act::New { o, oo, .. } = act else { return Ok(()) };
        if !st.out.ok() {
            return Ok(());
        }
        let mk = o.side.opp();
        let t = touched(st, mk);
        let fresh: Vec<&Leaf> = st.post.book(o.side).leaves.values().filter(|l| l.owner == *oo && !st.pre.book(o.side).leaves.contains_key(&l.key)).collect();
        match o.ot {
            Ot::PostOnly => ensure!(t.is_empty(), "types:post-only", "{:?} took {:?}", act, t),
            Ot::Ioc => ensure!(fresh.is_empty(), "types:ioc", "{:?} rests {:?}", act, fresh),
            Ot::Limit => {}
        }
        ensure!(t.len() <= o.limit as usize, "types:limit", "{:?} matched {} orders", act, t.len());
        if let (Some(_), Some(best)) = (fresh.first(), st.post.book(mk).best(mk)) {
            let cross = if o.side == Sd::Bid { o.price >= best.price() } else { o.price <= best.price() };
            ensure!(!cross, "types:rested-crossing", "{:?} rests while {} is available opposite", act, best.price());
        }
        Ok(())
    }

    /// An account never trades with itself.
    pub fn self_trade(&self, act: &Act, st: &StepOut) -> V {
        let (Act::New { oo, .. } | Act::Replace { oo, .. }) = act else { return Ok(()) };
        if !st.out.ok() {
            return Ok(());
        }
        for e in appended(st) {
            if let Ev::Fill { maker: true, owner, id, .. } = e {
                ensure!(owner != oo, "self-trade", "{:?} traded with its own order {:x}", act, id);
            }
        }
        if let Act::New { o, .. } = act {
            if o.st == St::Abort {
                for id in touched(st, o.side.opp()) {
                    let l = st.pre.book(o.side.opp()).leaves.get(&id);
                    ensure!(l.map_or(true, |l| l.owner != *oo), "self-trade:abort", "{:?} went through against its own order", act);
                }
            }
        }
        // self-trade handling moves nothing between accounts: every other
        // account's stake is untouched unless it traded or was evicted
        Ok(())
    }

    /// Ids are never reused.
    pub fn unique(&mut self, act: &Act, st: &StepOut) -> V {
        if !st.out.ok() {
            return Ok(());
        }
        if let Act::New { .. } | Act::Replace { .. } | Act::Take { .. } = act {
            ensure!(st.post.reqq.seq > st.pre.reqq.seq || st.info.ids.is_empty(), "unique:sequence", "{:?}: sequence went from {} to {}", act, st.pre.reqq.seq, st.post.reqq.seq);
        } else {
            ensure!(st.post.reqq.seq >= st.pre.reqq.seq, "unique:sequence", "{:?}: sequence went back from {} to {}", act, st.pre.reqq.seq, st.post.reqq.seq);
        }
        for (k, o) in &st.post.oos {
            let Some(o) = o else { continue };
            let before = st.pre.oos[k].as_ref();
            for (i, sl) in o.slots.iter().enumerate() {
                let Some(sl) = sl else { continue };
                if before.map_or(true, |b| b.slots[i] != Some(*sl)) {
                    ensure!(self.ids.insert((sl.id, sl.side)), "unique:reused", "{:?}: order id {:x} was issued before", act, sl.id);
                }
            }
        }
        Ok(())
    }

    /// Books every trade at the maker's price, independently of the exchange.
    pub fn book_trades(&mut self, env: &Env, act: &Act, st: &StepOut) {
        if !st.out.ok() {
            return;
        }
        let user_of = |oo: &Pubkey| env.oos.iter().find(|x| x.0 == *oo).map(|x| env.users[x.1].key).unwrap_or_default();
        let (cl, pl) = (st.pre.mkt.coin_lot as i128, st.pre.mkt.pc_lot as i128);
        let taker = match act {
            Act::New { owner, fee, .. } | Act::Replace { owner, fee, .. } => Some((*owner, *fee)),
            Act::Take { signer, fee, .. } => Some((*signer, *fee)),
            _ => None,
        };
        if let Some((t, fee)) = taker {
            let tier = env.tier(&t, &fee).unwrap_or(0);
            for (_, owner, side, lots, px) in maker_fills(st) {
                let coin = lots as i128 * cl;
                let pc = lots as i128 * px as i128 * pl;
                let f = taker_fee(tier, pc as u64);
                let sgn = if side == Sd::Bid { 1 } else { -1 };
                let m = self.expect.entry(user_of(&owner)).or_default();
                m.0 += sgn * coin;
                m.1 -= sgn * pc;
                let x = self.expect.entry(t).or_default();
                x.0 -= sgn * coin;
                x.1 += sgn * pc - f as i128;
                self.trades += 1;
                if matches!(act, Act::Take { .. }) {
                    self.orphan_rebates += referrer_cut(f) as u128;
                }
            }
        }
        match act {
            Act::Settle { oo, owner, coin, pc, referrer } => {
                if let Some(Some(a)) = st.pre.oos.get(oo) {
                    let dest = env.users.iter().find(|u| u.coin == *coin || u.pc == *pc).unwrap().key;
                    if dest != *owner {
                        let d = self.expect.entry(dest).or_default();
                        d.0 += a.coin_free as i128;
                        d.1 += a.pc_free as i128;
                        let d = self.expect.entry(*owner).or_default();
                        d.0 -= a.coin_free as i128;
                        d.1 -= a.pc_free as i128;
                    }
                    if let Some(r) = referrer {
                        if let Some(u) = env.users.iter().find(|u| u.pc == *r) {
                            self.expect.entry(u.key).or_default().1 += a.rebates as i128;
                        }
                    }
                }
            }
            Act::CloseOo { oo, .. } => {
                if let Some(Some(a)) = st.pre.oos.get(oo) {
                    self.orphan_rebates += a.rebates as u128;
                }
            }
            _ => {}
        }
    }
}

/// Everybody leaves: crank, cancel, crank, settle, sweep. Every step must be
/// accepted, and what everybody walks away with is what they traded.
pub fn drain(env: &mut Env, mem: &mut Mem, prop: &str, start: &BTreeMap<Pubkey, u64>, swept_before: bool) -> V {
    let _ = swept_before;
    let mut snap = env.snap().map_err(|e| Violation::new("drain:unreadable", e))?;
    let all: Vec<Pubkey> = env.oos.iter().map(|x| x.0).collect();
    let mut go = |env: &mut Env, snap: Snap, act: Act, mem: &mut Mem| -> Result<Snap, Violation> {
        let st = step(env, snap, &act).map_err(|f| Violation::new(f.sig, f.msg))?;
        if let Some(v) = pick(&st.findings, prop) {
            return Err(v);
        }
        if !st.out.ok() {
            return Err(Violation::new(format!("drain:{:?}", act.kind()), format!("leaving the market: {:?} was refused: {:?}", act, st.out)));
        }
        mem.book_trades(env, &act, &st);
        Ok(st.post)
    };
    let crank = |env: &mut Env, mut snap: Snap, mem: &mut Mem, go: &mut dyn FnMut(&mut Env, Snap, Act, &mut Mem) -> Result<Snap, Violation>| -> Result<Snap, Violation> {
        let n = snap.evq.events.len();
        if n == 0 {
            return Ok(snap);
        }
        // in two batches
        for limit in [(n / 2) as u16, 65535] {
            let auth = snap.crank_auth();
            snap = go(env, snap, Act::Consume { given: all.clone(), limit, auth }, mem)?;
        }
        if !snap.evq.events.is_empty() {
            bad!("drain:events-left", "{} events left after cranking with every account", snap.evq.events.len());
        }
        Ok(snap)
    };
    snap = crank(env, snap, mem, &mut go)?;
    for i in 0..env.oos.len() {
        let (k, u) = env.oos[i];
        let owner = env.users[u].key;
        let slots: Vec<Slot> = match &snap.oos[&k] {
            Some(a) if a.flags == F_INIT | F_OO => a.slots.iter().flatten().copied().collect(),
            _ => continue,
        };
        for sl in slots {
            if snap.evq.events.len() + 2 > snap.evq.cap {
                snap = crank(env, snap, mem, &mut go)?;
            }
            snap = go(env, snap, Act::Cancel { oo: k, owner, side: sl.side, id: sl.id }, mem)?;
        }
    }
    snap = crank(env, snap, mem, &mut go)?;
    for i in 0..env.oos.len() {
        let (k, u) = env.oos[i];
        let us = env.users[u].clone();
        match &snap.oos[&k] {
            Some(a) if a.flags == F_INIT | F_OO => {}
            _ => continue,
        };
        snap = go(env, snap, Act::Settle { oo: k, owner: us.key, coin: us.coin, pc: us.pc, referrer: None }, mem)?;
        let dest = if us.key == k { env.users[0].key } else { us.key };
        snap = go(env, snap, Act::CloseOo { oo: k, owner: us.key, dest }, mem)?;
    }
    let mut fees = snap.mkt.pc_fees;
    if !snap.disabled() {
        snap = go(env, snap, Act::Sweep { to: svm::key("ref_pc", 2) }, mem)?;
        fees = 0;
    }
    let (cv, pv) = (snap.tokens[&env.a.coin_vault], snap.tokens[&env.a.pc_vault]);
    ensure!(cv == env.donated.0, "drain:coin-vault", "after everybody left the coin vault holds {}, of which {} was donated", cv, env.donated.0);
    let want = env.donated.1 as u128 + fees as u128 + mem.orphan_rebates;
    ensure!(pv as u128 == want, "drain:pc-vault", "after everybody left the pc vault holds {}, expected {} (donations {} unswept fees {} unclaimable rebates {})", pv, want, env.donated.1, fees, mem.orphan_rebates);
    ensure!(snap.bids.leaves.is_empty() && snap.asks.leaves.is_empty(), "drain:book", "orders left after everybody cancelled");
    for u in &env.users {
        let e = mem.expect.get(&u.key).copied().unwrap_or_default();
        let dc = snap.tokens[&u.coin] as i128 - start[&u.coin] as i128;
        let dp = snap.tokens[&u.pc] as i128 - start[&u.pc] as i128;
        ensure!((dc, dp) == e, "drain:user", "user {} ends with coin {:+} pc {:+}, its trades amount to coin {:+} pc {:+}", u.key, dc, dp, e.0, e.1);
    }
    Ok(())
}
