//! Runs histories against the real program: every instruction is predicted by
//! the reference model from the actual state before it, and the actual state
//! after it is compared facet by facet; state invariants are checked as well.
//! Each disagreement is attributed to the properties it contradicts.
use crate::abi::*;
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use svm::harness::{Report, Violation};
use svm::Outcome;

#[derive(Clone, Debug)]
pub struct Finding {
    pub tags: Vec<&'static str>,
    pub sig: String,
    pub msg: String,
}

pub struct StepOut {
    pub pre: Snap,
    pub post: Snap,
    pub predicted: R<Snap>,
    pub info: Info,
    pub out: Outcome,
    pub findings: Vec<Finding>,
}

/// Everything an account will be worth once the pending events are applied.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Eff {
    pub coin_free: i128,
    pub coin_total: i128,
    pub pc_free: i128,
    pub pc_total: i128,
}
pub fn effective(s: &Snap) -> BTreeMap<Pubkey, Eff> {
    let mut m: BTreeMap<Pubkey, Eff> = BTreeMap::new();
    for (k, o) in &s.oos {
        if let Some(o) = o {
            m.insert(*k, Eff { coin_free: o.coin_free as i128, coin_total: o.coin_total as i128, pc_free: o.pc_free as i128, pc_total: o.pc_total as i128 });
        }
    }
    for e in &s.evq.events {
        let x = m.entry(e.owner()).or_default();
        match *e {
            Ev::Fill { maker: true, side: Sd::Bid, paid, received, .. } => {
                x.pc_total -= paid as i128;
                x.coin_total += received as i128;
                x.coin_free += received as i128;
            }
            Ev::Fill { maker: true, side: Sd::Ask, paid, received, .. } => {
                x.coin_total -= paid as i128;
                x.pc_total += received as i128;
                x.pc_free += received as i128;
            }
            Ev::Out { release: true, side, unlocked, .. } => match side {
                Sd::Bid => x.pc_free += unlocked as i128,
                Sd::Ask => x.coin_free += unlocked as i128,
            },
            _ => {}
        }
    }
    m
}

/// Ledger identities that must hold in every reachable state.
pub fn ledger(s: &Snap, donated: (u64, u64)) -> Result<(), String> {
    let m = &s.mkt;
    let cv = s.tokens[&m.coin_vault] as i128;
    let pv = s.tokens[&m.pc_vault] as i128;
    let want_c = m.coin_dep as i128 + m.coin_fees as i128 + donated.0 as i128;
    let want_p = m.pc_dep as i128 + m.pc_fees as i128 + m.rebates as i128 + donated.1 as i128;
    if cv != want_c {
        return Err(format!("coin vault holds {} but owes {} (deposits {} + fees {} + donations {})", cv, want_c, m.coin_dep, m.coin_fees, donated.0));
    }
    if pv != want_p {
        return Err(format!("pc vault holds {} but owes {} (deposits {} + fees {} + rebates {} + donations {})", pv, want_p, m.pc_dep, m.pc_fees, m.rebates, donated.1));
    }
    let eff = effective(s);
    let tc: i128 = eff.values().map(|e| e.coin_total).sum();
    let tp: i128 = eff.values().map(|e| e.pc_total).sum();
    if tc != m.coin_dep as i128 {
        return Err(format!("traders' coin adds up to {} but {} is recorded as deposited", tc, m.coin_dep));
    }
    if tp != m.pc_dep as i128 {
        return Err(format!("traders' pc adds up to {} but {} is recorded as deposited", tp, m.pc_dep));
    }
    Ok(())
}

/// Locked funds are exactly what the account's resting orders need, and what
/// is free never exceeds the total.
pub fn locked(s: &Snap) -> Result<(), String> {
    let eff = effective(s);
    for (k, e) in &eff {
        let asks: i128 = s.asks.leaves.values().filter(|l| l.owner == *k).map(|l| l.qty as i128 * s.mkt.coin_lot as i128).sum();
        let bids: i128 = s.bids.leaves.values().filter(|l| l.owner == *k).map(|l| l.qty as i128 * l.price() as i128 * s.mkt.pc_lot as i128).sum();
        if e.coin_total - e.coin_free != asks {
            return Err(format!("account {} has {} coin locked, its asks need {}", k, e.coin_total - e.coin_free, asks));
        }
        if e.pc_total - e.pc_free != bids {
            return Err(format!("account {} has {} pc locked, its bids need {}", k, e.pc_total - e.pc_free, bids));
        }
        if e.coin_free < 0 || e.pc_free < 0 {
            return Err(format!("account {} has a negative free balance", k));
        }
    }
    Ok(())
}

/// Orders, slots and events agree; identities are unique.
pub fn consistency(s: &Snap) -> Result<(), String> {
    let mut ids = std::collections::HashSet::new();
    for sd in [Sd::Bid, Sd::Ask] {
        for l in s.book(sd).leaves.values() {
            let low = l.key as u64;
            let seq = if sd == Sd::Bid { !low } else { low };
            if seq >= s.reqq.seq {
                return Err(format!("resting order {:x} carries sequence {} not yet issued", l.key, seq));
            }
            if l.qty == 0 || l.price() == 0 {
                return Err(format!("resting order {:x} with quantity {} price {}", l.key, l.qty, l.price()));
            }
            match s.oos.get(&l.owner) {
                Some(Some(o)) => match o.slots[l.slot as usize & 127] {
                    Some(x) if l.slot < 128 && x.id == l.key && x.side == sd && x.cid == l.cid => {}
                    x => return Err(format!("resting order {:x} (slot {}, client id {}) vs account slot {:?}", l.key, l.slot, l.cid, x)),
                },
                _ => return Err(format!("resting order {:x} belongs to no open-orders account", l.key)),
            }
        }
    }
    for (k, o) in &s.oos {
        let Some(o) = o else { continue };
        for (i, sl) in o.slots.iter().enumerate() {
            let Some(sl) = sl else { continue };
            if !ids.insert((sl.id, sl.side)) {
                return Err(format!("order id {:x} occupies two slots", sl.id));
            }
            let resting = s.book(sl.side).leaves.get(&sl.id).map_or(false, |l| l.owner == *k);
            let leaving = s.evq.events.iter().any(|e| matches!(e, Ev::Out { still: 0, id, owner, slot, .. } if *id == sl.id && owner == k && *slot as usize == i));
            if resting == leaving {
                return Err(format!("account {} slot {} order {:x}: resting={} pending removal={}", k, i, sl.id, resting, leaving));
            }
        }
    }
    for e in &s.evq.events {
        match s.oos.get(&e.owner()) {
            Some(Some(o)) => match o.slots.get(e.slot() as usize).copied().flatten() {
                Some(x) if x.id == e.id() && x.side == e.side() => {}
                x => return Err(format!("pending event {:?} does not match its slot {:?}", e, x)),
            },
            _ => return Err(format!("pending event {:?} belongs to no account", e)),
        }
    }
    Ok(())
}

pub fn crossed(s: &Snap) -> Option<String> {
    let (b, a) = (s.bids.best(Sd::Bid)?, s.asks.best(Sd::Ask)?);
    if b.price() >= a.price() {
        Some(format!("book crossed: best bid {} >= best ask {}", b.price(), a.price()))
    } else {
        None
    }
}

fn maker_seq(ev: &[Ev]) -> Vec<(u128, u64)> {
    ev.iter()
        .filter_map(|e| match e {
            Ev::Fill { maker: true, side: Sd::Bid, id, received, .. } => Some((*id, *received)),
            Ev::Fill { maker: true, side: Sd::Ask, id, paid, .. } => Some((*id, *paid)),
            _ => None,
        })
        .collect()
}
fn fee_seq(ev: &[Ev]) -> Vec<u64> {
    ev.iter().filter_map(|e| if let Ev::Fill { maker: false, fee, .. } = e { Some(*fee) } else { None }).collect()
}
fn fill_amounts(ev: &[Ev]) -> Vec<(u128, bool, u64, u64, u64)> {
    ev.iter()
        .filter_map(|e| if let Ev::Fill { id, maker, paid, received, fee, .. } = e { Some((*id, *maker, *paid, *received, *fee)) } else { None })
        .collect()
}
fn identity(ev: &[Ev]) -> Vec<(u128, Pubkey, u8, u64, u8)> {
    ev.iter()
        .map(|e| match e {
            Ev::Fill { id, owner, slot, cid, tier, .. } => (*id, *owner, *slot, *cid, *tier),
            Ev::Out { id, owner, slot, cid, .. } => (*id, *owner, *slot, *cid, 0),
        })
        .collect()
}

const CANCELS: [Kind; 3] = [Kind::Cancel, Kind::CancelCid, Kind::CancelBatch];
const MATCHING: [Kind; 3] = [Kind::New, Kind::Replace, Kind::Take];

fn kind_tag(k: Kind) -> &'static str {
    match k {
        Kind::New => "C05",
        Kind::Replace => "C08",
        Kind::Take => "C25",
        Kind::Cancel | Kind::CancelCid | Kind::CancelBatch => "C07",
        Kind::Consume => "C09",
        Kind::Settle => "C12",
        Kind::Sweep => "C10",
        Kind::Disable => "C21",
        Kind::InitOo | Kind::CloseOo => "C24",
        Kind::Prune => "C23",
        Kind::Match => "C27",
    }
}

/// All disagreements between the predicted and the actual next state.
pub fn diff(act: &Act, pre: &Snap, info: &Info, want: &Snap, got: &Snap) -> Vec<Finding> {
    let k = act.kind();
    let own = kind_tag(k);
    let matching = MATCHING.contains(&k);
    let mut f: Vec<Finding> = vec![];
    // what else the instruction was about
    let mut about: Vec<&'static str> = vec![];
    match act {
        // cancellations, evictions, self-trade choices and prunes take effect here
        Act::Consume { .. } => {
            let done = pre.evq.events.len().saturating_sub(want.evq.events.len().min(got.evq.events.len()));
            for e in pre.evq.events.iter().take(done) {
                match e {
                    Ev::Out { .. } => about.extend(["C07", "C06", "C16", "C23"]),
                    Ev::Fill { .. } => about.extend(["C04", "C10"]),
                }
            }
        }
        Act::New { o, fee, .. } => {
            if o.max_ts != i64::MAX {
                about.push("C26");
            }
            if fee.is_some() {
                about.push("C11");
            }
        }
        Act::Replace { .. } | Act::Take { .. } => about.push("C05"),
        _ => {}
    }
    let mut add = |tags: &[&'static str], facet: &str, msg: String| {
        let mut t = vec![own];
        t.extend_from_slice(tags);
        if info.self_trades > 0 {
            t.push("C06");
        }
        if !info.evicted.is_empty() {
            t.push("C16");
        }
        if pre.disabled() {
            t.push("C21");
        }
        t.extend_from_slice(&about);
        f.push(Finding { tags: t, sig: format!("{:?}:{}", k, facet), msg });
    };
    if want.mkt != got.mkt {
        let (a, b) = (&want.mkt, &got.mkt);
        if (a.coin_dep, a.pc_dep, a.coin_fees) != (b.coin_dep, b.pc_dep, b.coin_fees) {
            add(if matching { &["C01", "C04"] } else { &["C01"] }, "deposits", format!("deposits recorded (coin {}, pc {}), expected (coin {}, pc {})", b.coin_dep, b.pc_dep, a.coin_dep, a.pc_dep));
        }
        if (a.pc_fees, a.rebates) != (b.pc_fees, b.rebates) {
            add(&["C10"], "fees", format!("fees accrued {} rebates {}, expected {} and {}", b.pc_fees, b.rebates, a.pc_fees, a.rebates));
        }
        let strip = |m: &Mkt| Mkt { coin_dep: 0, pc_dep: 0, coin_fees: 0, pc_fees: 0, rebates: 0, ..m.clone() };
        if strip(a) != strip(b) {
            add(&["C20", "C21"], "market", format!("market record {:?}, expected {:?}", strip(b), strip(a)));
        }
    }
    for sd in [Sd::Bid, Sd::Ask] {
        let (a, b) = (want.book(sd), got.book(sd));
        if a != b {
            let extra: Vec<_> = b.leaves.values().filter(|l| a.leaves.get(&l.key) != Some(l)).collect();
            let missing: Vec<_> = a.leaves.values().filter(|l| b.leaves.get(&l.key) != Some(l)).collect();
            let mut t = vec![];
            if matching {
                let maker_touched = missing.iter().chain(extra.iter()).any(|l| pre.book(sd).leaves.contains_key(&l.key));
                if maker_touched {
                    t.extend(["C03", "C16"]);
                } else {
                    t.extend(["C04", "C17"]);
                }
                t.push("C05");
                // only the recorded discount tier differs
                let untier = |b: &Book| b.leaves.values().map(|l| Leaf { tier: 0, ..*l }).collect::<Vec<_>>();
                if untier(a) == untier(b) {
                    t = vec!["C11"];
                }
            }
            if missing.iter().chain(extra.iter()).any(|l| act.actor() != Some(l.owner)) {
                t.push("C27");
            }
            if !pre.book(sd).fits() {
                t.push("C16");
            }
            add(&t, "book", format!("{:?} book: unexpected {:?}, missing {:?}", sd, extra, missing));
        }
    }
    if want.evq != got.evq {
        let n = pre.evq.events.len();
        if k == Kind::Consume || want.evq.events.get(..n) != got.evq.events.get(..n) || want.evq.head != got.evq.head {
            add(&["C09", "C19"], "queue", format!("event queue head {} count {}, expected head {} count {}", got.evq.head, got.evq.events.len(), want.evq.head, want.evq.events.len()));
        } else {
            let (a, b) = (&want.evq.events[n..], &got.evq.events[n..]);
            let mut t = vec![];
            if matching {
                if maker_seq(a) != maker_seq(b) {
                    t.extend(["C03", "C05"]);
                }
                if fee_seq(a) != fee_seq(b) {
                    t.push("C10");
                }
                if fill_amounts(a) != fill_amounts(b) {
                    t.extend(["C03", "C04"]);
                }
                if identity(a) != identity(b) {
                    t.extend(["C17", "C11"]);
                }
                if t.is_empty() {
                    t.extend(["C04", "C05"]);
                }
            }
            if a == b {
                t.push("C19");
            }
            // somebody else's order ended up differently
            let others = |l: &[Ev]| l.iter().filter(|e| act.actor() != Some(e.owner())).copied().collect::<Vec<_>>();
            if others(a) != others(b) {
                t.push("C27");
            }
            let released = |l: &[Ev]| l.iter().filter(|e| matches!(e, Ev::Out { release: true, .. })).copied().collect::<Vec<_>>();
            if matching && released(a) != released(b) {
                t.extend(["C06", "C16"]);
            }
            add(&t, "events", format!("events appended {:?}, expected {:?} (seq {} vs {})", b, a, got.evq.seq, want.evq.seq));
        }
    }
    if want.reqq != got.reqq {
        add(&["C17"], "sequence", format!("request queue {:?}, expected {:?}", got.reqq, want.reqq));
    }
    for (key, b) in &got.oos {
        let a = &want.oos[key];
        let actor = act.actor() == Some(*key);
        match (a, b) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                let mut t: Vec<&'static str> = vec![];
                if !actor && k != Kind::Consume {
                    t.push("C27");
                }
                if (a.coin_free, a.coin_total, a.pc_free, a.pc_total) != (b.coin_free, b.coin_total, b.pc_free, b.pc_total) {
                    let mut t = t.clone();
                    t.push("C01");
                    if matching {
                        t.push("C04");
                        if a.pc_free != b.pc_free || a.pc_total != b.pc_total {
                            t.push("C10");
                        }
                    }
                    add(
                        &t,
                        "balances",
                        format!(
                            "account {} coin {}/{} pc {}/{} (free/total), expected coin {}/{} pc {}/{}",
                            key, b.coin_free, b.coin_total, b.pc_free, b.pc_total, a.coin_free, a.coin_total, a.pc_free, a.pc_total
                        ),
                    );
                }
                if a.slots != b.slots {
                    let d: Vec<_> = (0..128).filter(|i| a.slots[*i] != b.slots[*i]).map(|i| (i, b.slots[i], a.slots[i])).collect();
                    let mut t = t.clone();
                    t.push("C17");
                    add(&t, "slots", format!("account {} slots (index, actual, expected) {:?}", key, d));
                }
                if a.rebates != b.rebates {
                    let mut t = t.clone();
                    t.push("C10");
                    add(&t, "rebates", format!("account {} referrer rebates {}, expected {}", key, b.rebates, a.rebates));
                }
                if (a.flags, a.market, a.owner) != (b.flags, b.market, b.owner) {
                    let mut t = t.clone();
                    t.extend(["C24", "C13"]);
                    add(&t, "account", format!("account {} flags/market/owner {:?}, expected {:?}", key, (b.flags, b.market, b.owner), (a.flags, a.market, a.owner)));
                }
            }
            _ => add(&["C24"], "account", format!("account {} initialised: {}, expected {}", key, b.is_some(), a.is_some())),
        }
    }
    for (key, b) in &got.tokens {
        let a = want.tokens[key];
        if a != *b {
            let mut t = vec!["C01", "C12"];
            if matching {
                t.push("C04");
            }
            if k != Kind::Settle {
                t.retain(|x| *x != "C12");
            } else {
                t.push("C10");
            }
            let named = match act {
                Act::New { payer, .. } | Act::Replace { payer, .. } => vec![*payer],
                Act::Take { coin, pc, .. } => vec![*coin, *pc],
                Act::Settle { coin, pc, referrer, .. } => [Some(*coin), Some(*pc), *referrer].into_iter().flatten().collect(),
                Act::Sweep { .. } => vec![*key],
                _ => vec![],
            };
            if !named.contains(key) && *key != want.mkt.coin_vault && *key != want.mkt.pc_vault {
                t.push("C27");
            }
            add(&t, "tokens", format!("token account {} holds {}, expected {}", key, b, a));
        }
    }
    if want.oo_lamports != got.oo_lamports {
        add(&["C24"], "lamports", format!("lamports {:?}, expected {:?}", got.oo_lamports, want.oo_lamports));
    }
    f
}

fn outcome_findings(env: &Env, act: &Act, pre: &Snap, predicted: &R<Snap>, info: &Info, out: &Outcome) -> Vec<Finding> {
    let k = act.kind();
    let own = kind_tag(k);
    match (predicted, out.ok()) {
        (Err(Fail::Unspecified), _) | (Ok(_), true) | (Err(_), false) => vec![],
        (Err(reason), true) => {
            let mut t = vec![];
            match reason {
                Fail::Disabled => t.push("C21"),
                Fail::Expired => t.push("C26"),
                Fail::InsufficientFunds => t.extend(["C04", "C01", own]),
                Fail::SelfTrade => t.push("C06"),
                Fail::EventQueueFull => t.extend(["C16", "C19"]),
                Fail::SlotsFull => t.extend(["C16", "C17"]),
                Fail::NotFound => t.push(own),
                Fail::NotOwner => t.extend(["C13", "C11", own]),
                Fail::BadOpenOrders => t.extend(["C14", "C24"]),
                Fail::Authority => {
                    t.push("C22");
                    if k == Kind::Prune {
                        t.push("C23");
                    }
                }
                Fail::NotEmpty => t.push("C24"),
                Fail::MinNotMet => t.push("C25"),
                Fail::BadRequest => t.push(own),
                Fail::Unspecified => {}
            }
            t.push(own);
            vec![Finding { tags: t, sig: format!("{:?}:accepted:{:?}", k, reason), msg: format!("accepted {:?} which must be refused ({:?})", act, reason) }]
        }
        (Ok(_), false) => {
            let mut t = vec![own];
            if pre.disabled() {
                t.push("C21");
            }
            if env.a.perm > 0 {
                t.push("C22");
            }
            if info.self_trades > 0 {
                t.push("C06");
            }
            if !info.evicted.is_empty() || pre.evq.events.len() + 8 > pre.evq.cap {
                t.push("C16");
            }
            if !info.trades.is_empty() {
                t.extend(["C03", "C04"]);
            }
            if let Act::New { fee: Some(_), .. } = act {
                t.push("C11");
            }
            if let Act::New { o, .. } = act {
                if o.max_ts != i64::MAX {
                    t.push("C26");
                }
                t.push("C04");
            }
            if let Act::New { oo, .. } | Act::Replace { oo, .. } = act {
                match pre.oos.get(oo) {
                    Some(Some(a)) if a.n_orders() > 100 => t.extend(["C16", "C17"]),
                    Some(None) => t.push("C24"),
                    _ => {}
                }
            }
            vec![Finding { tags: t, sig: format!("{:?}:refused", k), msg: format!("refused {:?} which must be accepted: {:?}", act, out) }]
        }
    }
}

pub fn invariants(env: &Env, s: &Snap) -> Vec<Finding> {
    let mut f = vec![];
    if let Err(e) = ledger(s, env.donated) {
        f.push(Finding { tags: vec!["C01"], sig: "ledger".into(), msg: e });
    }
    if let Err(e) = locked(s) {
        f.push(Finding { tags: vec!["C01", "C17"], sig: "locked".into(), msg: e });
    }
    if let Err(e) = consistency(s) {
        f.push(Finding { tags: vec!["C17"], sig: "consistency".into(), msg: e });
    }
    if let Some(e) = crossed(s) {
        f.push(Finding { tags: vec!["C05"], sig: "crossed".into(), msg: e });
    }
    f
}

/// Executes one instruction against the real program and judges it.
pub fn step(env: &mut Env, pre: Snap, act: &Act) -> Result<StepOut, Finding> {
    let bystanders = |env: &Env| -> Vec<(usize, svm::Acct)> {
        // accounts that are not part of market A's snapshot
        let Some(b) = &env.b else { return vec![] };
        let mut ks = vec![b.market, b.req_q, b.event_q, b.bids, b.asks, b.coin_vault, b.pc_vault];
        ks.extend(env.oos_b.iter().map(|x| x.0));
        ks.iter().map(|k| (env.w.index[k], env.w.get(k).unwrap().clone())).collect()
    };
    let before = bystanders(env);
    let env_pre = env.clone_light();
    let out = env.exec(act);
    let post = match env.snap() {
        Ok(s) => s,
        Err(e) => return Err(Finding { tags: vec!["*"], sig: format!("{:?}:unreadable", act.kind()), msg: format!("accounts unreadable after {:?}: {}", act, e) }),
    };
    let (predicted, info) = act.predict(&env_pre.view(env), &pre, if out.ok() { Some(&post) } else { None });
    let mut findings = outcome_findings(env, act, &pre, &predicted, &info, &out);
    if let Outcome::Runtime(e) = &out {
        if predicted.is_ok() {
            findings.push(Finding { tags: vec![kind_tag(act.kind()), "C27"], sig: "runtime".into(), msg: e.clone() });
        }
    }
    if out.ok() {
        if let Ok(want) = &predicted {
            findings.extend(diff(act, &pre, &info, want, &post));
        }
        findings.extend(invariants(env, &post));
    }
    for (i, a) in before {
        if env.w.accts[i] != a {
            findings.push(Finding { tags: vec!["C14", "C27"], sig: "bystander".into(), msg: format!("{:?} changed account {} of another market", act, a.key) });
        }
    }
    Ok(StepOut { pre, post, predicted, info, out, findings })
}

/// Prediction reads token records of wallets (mints, owners, fee balances),
/// none of which change during an instruction.
pub struct Light;
impl Light {
    pub fn view<'a>(&self, env: &'a Env) -> &'a Env {
        env
    }
}
impl Env {
    fn clone_light(&self) -> Light {
        Light
    }
}

pub fn pick(f: &[Finding], prop: &str) -> Option<Violation> {
    f.iter().find(|x| prop == "ANY" || x.tags.contains(&prop) || x.tags.contains(&"*")).map(|x| Violation::new(x.sig.clone(), x.msg.clone()))
}

/// Runs a history; `on_step` sees every judged step.
pub fn run(case: &Case, prop: &str, with_b: bool, rep: &mut Report, mut on_step: impl FnMut(&Env, &Act, &StepOut, &mut Report) -> Result<(), Violation>) -> Result<Env, Violation> {
    let mut env = Env::new(&case.cfg, with_b);
    let mut snap = env.snap().map_err(|e| Violation::new("init:unreadable", e))?;
    'ops: for op in &case.ops {
        side_effect(&mut env, op);
        snap.ts = env.w.clock_ts;
        if matches!(op, Op::Donate { .. } | Op::InitOo { .. }) {
            snap = env.snap().map_err(|e| Violation::new("unreadable", e))?;
        }
        for act in resolve(&env, &snap, op) {
            let st = match step(&mut env, snap, &act) {
                Ok(s) => s,
                Err(f) => {
                    return Err(Violation::new(f.sig, f.msg));
                }
            };
            rep.evals += 1;
            count(rep, &act, &st);
            if let Some(v) = pick(&st.findings, prop) {
                return Err(v);
            }
            on_step(&env, &act, &st, rep)?;
            if matches!(st.predicted, Err(Fail::Unspecified)) && st.out.ok() {
                rep.label("history cut: arithmetic out of range");
                break 'ops;
            }
            snap = st.post;
        }
    }
    Ok(env)
}

fn count(rep: &mut Report, act: &Act, st: &StepOut) {
    let name = match (act.kind(), st.out.ok()) {
        (Kind::New, true) => "new ok",
        (Kind::New, false) => "new refused",
        (Kind::Replace, true) => "replace ok",
        (Kind::Replace, false) => "replace refused",
        (Kind::Take, true) => "take ok",
        (Kind::Take, false) => "take refused",
        (Kind::Cancel, true) => "cancel ok",
        (Kind::Cancel, false) => "cancel refused",
        (Kind::CancelCid, true) => "cancel-by-client-id ok",
        (Kind::CancelCid, false) => "cancel-by-client-id refused",
        (Kind::CancelBatch, true) => "cancel-batch ok",
        (Kind::CancelBatch, false) => "cancel-batch refused",
        (Kind::Consume, true) => "consume ok",
        (Kind::Consume, false) => "consume refused",
        (Kind::Settle, true) => "settle ok",
        (Kind::Settle, false) => "settle refused",
        (Kind::Sweep, true) => "sweep ok",
        (Kind::Sweep, false) => "sweep refused",
        (Kind::Disable, true) => "disable ok",
        (Kind::Disable, false) => "disable refused",
        (Kind::InitOo, true) => "init-open-orders ok",
        (Kind::InitOo, false) => "init-open-orders refused",
        (Kind::CloseOo, true) => "close ok",
        (Kind::CloseOo, false) => "close refused",
        (Kind::Prune, true) => "prune ok",
        (Kind::Prune, false) => "prune refused",
        (Kind::Match, true) => "match ok",
        (Kind::Match, false) => "match refused",
    };
    rep.label(name);
    if st.out.ok() {
        if !st.info.trades.is_empty() {
            rep.label("step with trades");
        }
        if st.info.trades.len() > 1 {
            rep.label("step with several trades");
        }
        if st.info.self_trades > 0 {
            rep.label("step with self-trade");
        }
        if !st.info.evicted.is_empty() {
            rep.label("step with eviction");
        }
        if st.info.limit_hit {
            rep.label("match limit reached");
        }
        if !st.info.posted.is_empty() {
            rep.label("order rested");
        }
        if st.info.stopped_early {
            rep.label("crank stopped at an absent account");
        }
    } else if let Err(r) = &st.predicted {
        rep.label(match r {
            Fail::Disabled => "refusal: disabled",
            Fail::Expired => "refusal: expired",
            Fail::InsufficientFunds => "refusal: funds",
            Fail::SelfTrade => "refusal: self-trade abort",
            Fail::EventQueueFull => "refusal: event queue full",
            Fail::SlotsFull => "refusal: slots full",
            Fail::NotFound => "refusal: not found",
            Fail::NotOwner => "refusal: not owner",
            Fail::BadOpenOrders => "refusal: bad open orders",
            Fail::Authority => "refusal: authority",
            Fail::NotEmpty => "refusal: not empty",
            Fail::MinNotMet => "refusal: minimum not met",
            Fail::BadRequest => "refusal: bad request",
            Fail::Unspecified => "refusal: arithmetic range",
        });
    }
}
#[allow(unused)]
pub const IS_CANCEL: [Kind; 3] = CANCELS;
