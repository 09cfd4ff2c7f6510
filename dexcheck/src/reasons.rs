//! Refusals carry the published number of their cause (C44).
//!
//! Only refusals with a single cause are judged: the same request, with that
//! one thing put right, must be one the model accepts.
use crate::abi::*;
use crate::model::*;
use crate::probe::*;
use crate::world::*;
use svm::Outcome;

/// The published numbers.
pub mod code {
    pub const MARKET_FLAGS: u32 = 0;
    pub const COIN_VAULT: u32 = 6;
    pub const PC_VAULT: u32 = 7;
    pub const COIN_MINT: u32 = 8;
    pub const PC_MINT: u32 = 9;
    pub const FUNDS: u32 = 34;
    pub const CLIENT_ID: u32 = 41;
    pub const TOO_MANY: u32 = 42;
    pub const ORDERS_ACCOUNT: u32 = 45;
    pub const REQUEST_QUEUE: u32 = 48;
    pub const EVENT_QUEUE: u32 = 49;
    pub const EVENTS_FULL: u32 = 51;
    pub const RENT_NOT_GIVEN: u32 = 57;
    pub const NOT_RENT_EXEMPT: u32 = 58;
    pub const NOT_FOUND: u32 = 59;
    pub const NOT_YOURS: u32 = 60;
    pub const SELF_TRADE: u32 = 61;
    pub const AUTHORITY: u32 = 62;
    pub const EXPIRED: u32 = 63;
    pub const MINIMUM: u32 = 64;
    /// from here on: places in the source
    pub const PLACES: u32 = 1 << 24;
}

/// The custom number in a refusal.
pub fn number(o: &Outcome) -> Option<u32> {
    match o {
        Outcome::Err(s) => s.strip_prefix("Custom(")?.strip_suffix(')')?.parse().ok(),
        _ => None,
    }
}

fn with_orders(act: &Act, f: impl Fn(&mut Order)) -> Act {
    let mut a = act.clone();
    match &mut a {
        Act::New { o, .. } | Act::Take { o, .. } => f(o),
        Act::Replace { os, .. } => os.iter_mut().for_each(f),
        _ => {}
    }
    a
}

/// What the request is refused with, when it has this one thing wrong with it.
pub fn sole_cause(env: &Env, pre: &Snap, act: &Act, why: Fail) -> Option<(u32, &'static str)> {
    let mut s = pre.clone();
    let ok = |a: &Act, s: &Snap| a.predict(env, s, None).0.is_ok();
    let account = match act {
        Act::New { oo, owner, .. }
        | Act::Replace { oo, owner, .. }
        | Act::Cancel { oo, owner, .. }
        | Act::CancelCid { oo, owner, .. }
        | Act::CancelBatch { oo, owner, .. }
        | Act::Settle { oo, owner, .. }
        | Act::InitOo { oo, owner, .. }
        | Act::CloseOo { oo, owner, .. } => Some((*oo, *owner)),
        _ => None,
    };
    match why {
        Fail::Disabled => {
            s.mkt.flags &= !F_DISABLED;
            ok(act, &s).then_some((code::MARKET_FLAGS, "market disabled"))
        }
        Fail::Expired => ok(&with_orders(act, |o| o.max_ts = i64::MAX), &s).then_some((code::EXPIRED, "deadline passed")),
        Fail::InsufficientFunds => {
            let ks = match act {
                Act::New { payer, .. } | Act::Replace { payer, .. } => vec![*payer],
                Act::Take { coin, pc, .. } => vec![*coin, *pc],
                _ => return None,
            };
            for k in ks {
                *s.tokens.entry(k).or_insert(0) = 1 << 62;
            }
            ok(act, &s).then_some((code::FUNDS, "too little money"))
        }
        Fail::SelfTrade => ok(&with_orders(act, |o| o.st = St::Decrement), &s).then_some((code::SELF_TRADE, "would trade with itself")),
        Fail::MinNotMet => {
            let mut a = act.clone();
            if let Act::Take { min_coin, min_pc, .. } = &mut a {
                *min_coin = 0;
                *min_pc = 0;
            }
            ok(&a, &s).then_some((code::MINIMUM, "minimum not met"))
        }
        Fail::EventQueueFull => {
            s.evq.cap = 1 << 20;
            ok(act, &s).then_some((code::EVENTS_FULL, "event queue full"))
        }
        Fail::SlotsFull => {
            let a = s.oos.get_mut(&account?.0)?.as_mut()?;
            for x in a.slots.iter_mut().take(16) {
                *x = None;
            }
            ok(act, &s).then_some((code::TOO_MANY, "no free slot"))
        }
        Fail::NotEmpty => Some((code::TOO_MANY, "account not empty")),
        Fail::NotFound => match act {
            Act::Cancel { .. } => Some((code::NOT_FOUND, "no such order")),
            Act::CancelCid { oo, cid, .. } => {
                let known = pre.oos.get(oo)?.as_ref()?.slots.iter().flatten().any(|x| x.cid == *cid);
                Some(if known { (code::NOT_FOUND, "named order gone") } else { (code::CLIENT_ID, "no such client id") })
            }
            _ => None,
        },
        Fail::NotOwner => match act {
            Act::Cancel { .. } => Some((code::NOT_YOURS, "order of somebody else")),
            _ => None,
        },
        Fail::Authority => match act {
            Act::InitOo { .. } | Act::New { .. } => {
                let (oo, owner) = account?;
                s.oos.insert(oo, Some(Oo::fresh(pre.mkt.own, owner)));
                ok(act, &s).then_some((code::AUTHORITY, "opened without the authority"))
            }
            _ => None,
        },
        Fail::BadOpenOrders => {
            let (oo, owner) = account?;
            match pre.oos.get(&oo)? {
                None => {
                    s.oos.insert(oo, Some(Oo::fresh(pre.mkt.own, owner)));
                    let c = if pre.mkt.auth.is_some() { code::AUTHORITY } else { code::RENT_NOT_GIVEN };
                    ok(act, &s).then_some((c, "account never opened"))
                }
                Some(a) if a.flags == F_INIT | F_OO && a.market == pre.mkt.own && a.owner != owner => {
                    s.oos.get_mut(&oo)?.as_mut()?.owner = owner;
                    ok(act, &s).then_some((code::ORDERS_ACCOUNT, "account of somebody else"))
                }
                _ => None,
            }
        }
        Fail::BadRequest | Fail::Unspecified => None,
    }
}

/// What an acceptable request is refused with after one account was swapped.
pub fn swapped(env: &Env, act: &Act, p: &Probe) -> Option<(u32, &'static str)> {
    let k = act.kind();
    let at = |i: usize| {
        let a = p.metas[i].pubkey;
        p.extra.iter().find(|x| x.key == a).or_else(|| env.w.get(&a)).filter(|x| x.owner == spl_token::ID && x.data.len() == 165).is_some()
    };
    let i = roles(act, env).iter().enumerate().position(|(i, r)| *r == p.role && act.ix(&env.a).0[i].pubkey != p.metas[i].pubkey)?;
    match p.role {
        Role::ReqQ => Some((code::REQUEST_QUEUE, "wrong request queue")),
        Role::EventQ => Some((code::EVENT_QUEUE, "wrong event queue")),
        Role::CoinVault if at(i) && k != Kind::Settle => Some((code::COIN_VAULT, "wrong coin vault")),
        Role::PcVault if at(i) && k != Kind::Settle => Some((code::PC_VAULT, "wrong price vault")),
        Role::CoinWallet if at(i) && k == Kind::Take => Some((code::COIN_MINT, "wallet of another mint")),
        Role::PcWallet if at(i) && matches!(k, Kind::Take | Kind::Sweep) => Some((code::PC_MINT, "wallet of another mint")),
        _ => None,
    }
}
