//! Generated histories: abstract operations, resolved against the live state.
use crate::abi::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use svm::key;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Budget {
    /// enough for the whole quantity at the limit price, fees included
    Full,
    /// exactly quantity * price, no room for fees
    NoFee,
    /// Full plus / minus a little
    Near(i8),
    /// a fraction (n/16) of NoFee
    Part(u8),
    Abs(u32),
    Max,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum FeeSel {
    None,
    Srm,
    Msrm,
    /// some other token account of the signer
    Other,
    /// someone else's SRM account
    Foreign,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ts {
    Never,
    Rel(i64),
    Abs(i64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OrdGen {
    pub bid: bool,
    /// offset from the reference price
    pub px: i32,
    pub qty: u64,
    pub budget: Budget,
    pub ot: Ot,
    pub st: St,
    pub limit: u16,
    pub cid: u64,
    pub ts: Ts,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New { oo: u8, o: OrdGen, fee: FeeSel, legacy: bool },
    Replace { oo: u8, os: Vec<OrdGen>, fee: FeeSel, single: bool },
    Take { u: u8, o: OrdGen, fee: FeeSel, min: u64, met: bool },
    /// pick: index among the account's own resting orders, or among all orders
    Cancel { oo: u8, pick: u8, any: bool, flip: bool },
    CancelCid { oo: u8, cid: u64, pick: u8 },
    CancelBatch { oo: u8, cids: Vec<(u64, u8)> },
    /// mask over open-orders accounts (bit set = omitted)
    Consume { limit: u16, omit: u8 },
    Settle { oo: u8, referrer: u8, dest: u8 },
    Sweep,
    Disable,
    InitOo { oo: u8, auth: bool },
    CloseOo { oo: u8 },
    Prune { oo: u8, limit: u16 },
    Donate { pc: bool, n: u32 },
    Clock { d: i32 },
    /// many non-crossing orders, to reach capacity limits
    Bulk { oo: u8, bid: bool, n: u8, gap: u8, crank: bool },
    CrankAll,
    /// process all but the last few events
    CrankBut { k: u8 },
    /// cancel every order of an account, one by one
    CancelAll { oo: u8 },
    Match,
    /// authority instructions with a questionable authority: what, account, whose key
    Rogue { what: u8, oo: u8, who: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

/// Relative weights of the operations in a history.
#[derive(Clone, Copy)]
pub struct Profile {
    pub new: u32,
    pub replace: u32,
    pub take: u32,
    pub cancel: u32,
    pub cancel_cid: u32,
    pub cancel_batch: u32,
    pub consume: u32,
    pub settle: u32,
    pub sweep: u32,
    pub disable: u32,
    pub init: u32,
    pub close: u32,
    pub prune: u32,
    pub bulk: u32,
    pub rogue: u32,
    pub len: (usize, usize),
    /// permission levels to use
    pub perm: &'static [u8],
    /// prices stay within this distance of the reference
    pub spread: i32,
    pub st_abort: u32,
    /// share (of 10) of orders carrying an expiry
    pub expiry: u32,
    pub big_caps: bool,
}
pub const BASE: Profile = Profile {
    new: 40,
    replace: 5,
    take: 8,
    cancel: 6,
    cancel_cid: 3,
    cancel_batch: 3,
    consume: 10,
    settle: 6,
    sweep: 2,
    disable: 0,
    init: 1,
    close: 1,
    prune: 1,
    bulk: 0,
    rogue: 0,
    len: (4, 40),
    perm: &[0, 0, 0, 1, 2, 3],
    spread: 4,
    st_abort: 1,
    expiry: 1,
    big_caps: false,
};

/// Few operations, many orders: reaches the capacity limits.
pub const CAP: Profile = Profile { new: 14, bulk: 26, consume: 4, settle: 2, replace: 3, take: 4, prune: 1, len: (2, 14), perm: &[0, 0, 0, 2], big_caps: true, ..BASE };

/// Deep books that large orders sweep.
pub const DEEP: Profile = Profile { new: 40, bulk: 7, take: 20, len: (6, 30), ..CAP };

pub fn cfg_strategy(p: Profile) -> impl Strategy<Value = Cfg> {
    let lot = || prop_oneof![4 => Just(1u64), 2 => Just(10u64), 2 => Just(100u64), 1 => Just(1_000_000u64), 3 => 1u64..2000, 1 => (0u32..36, 0u64..3).prop_map(|(b, d)| (1u64 << b) + d)];
    let price = prop_oneof![
        4 => 5u64..40,
        4 => 200u64..5000,
        2 => 100_000u64..10_000_000,
        1 => (1u64 << 32)..(1 << 34),
        1 => Just(u64::MAX - 12),
        1 => (3u32..64, 0u64..8).prop_map(|(b, d)| (1u64 << b) - d % (1 << b - 1)),
    ];
    let srm = || {
        let k = 1_000_000u64;
        prop_oneof![
            2 => Just(0u64),
            2 => (0usize..5, -1i64..=1).prop_map(move |(i, d)| ([100u64, 1_000, 10_000, 100_000, 1_000_000][i] * k).wrapping_add(d as u64)),
            1 => 0u64..2_000_000 * k,
        ]
    };
    let msrm = || prop_oneof![2 => Just(0u64), 1 => Just(1u64), 1 => 2u64..100];
    let perm = proptest::sample::select(p.perm);
    let caps = if p.big_caps {
        (0u16..60, 0u16..30, 0u16..30).boxed()
    } else {
        (0u16..300, 0u16..80, 0u16..80).boxed()
    };
    (
        (lot(), lot(), perm, caps, 0u8..9),
        (
            prop_oneof![3 => Just(0u64), 1 => 0u64..1000, 1 => (u32::MAX as u64 - 3)..(u32::MAX as u64 + 3), 1 => (0u32..63, 0u64..6).prop_map(|(b, d)| (1u64 << b).saturating_sub(d))],
            0u16..500,
            prop_oneof![9 => Just(0u8), 1 => 1u8..=6],
            price,
            [srm(), srm(), srm(), srm()],
            [msrm(), msrm(), msrm(), msrm()],
            prop_oneof![3 => Just((0u64, 0u64)), 1 => (0u64..1000, 0u64..1000)],
        ),
    )
        .prop_map(|((coin_lot, pc_lot, perm, (evq_extra, bids_extra, asks_extra), slop), (seq0, head0, stable, price, srm, msrm, donate))| Cfg {
            coin_lot,
            pc_lot,
            perm,
            evq_extra,
            bids_extra,
            asks_extra,
            slop,
            seq0,
            head0,
            stable,
            price,
            srm,
            msrm,
            donate,
        })
}

pub fn cid() -> impl Strategy<Value = u64> {
    prop_oneof![1 => Just(0u64), 8 => 1u64..7, 1 => Just(u64::MAX), 1 => any::<u64>(), 1 => (0u32..60, 1u64..7).prop_map(|(b, c)| (c << b) + c)]
}

pub fn ord(p: Profile) -> impl Strategy<Value = OrdGen> {
    let s = p.spread;
    let wide = if p.big_caps { 300i32 } else { 40 };
    let px = prop_oneof![24 => -s..=s, if p.big_caps { 24 } else { 4 } => -wide..wide, 2 => Just(0i32), 1 => any::<i32>()];
    let qty = prop_oneof![30 => 1u64..12, 10 => 5u64..60, 6 => 1u64..1000, if p.big_caps { 20 } else { 1 } => 20u64..200, 2 => 1u64..1_000_000, 1 => Just(u64::MAX), 2 => (0u32..63).prop_map(|b| 1u64 << b)];
    let budget = prop_oneof![
        8 => Just(Budget::Full),
        2 => Just(Budget::NoFee),
        3 => (-4i8..5).prop_map(Budget::Near),
        3 => (1u8..40).prop_map(Budget::Part),
        1 => (1u32..10_000).prop_map(Budget::Abs),
        1 => Just(Budget::Max),
    ];
    let ot = prop_oneof![6 => Just(Ot::Limit), 2 => Just(Ot::Ioc), 2 => Just(Ot::PostOnly)];
    let st = prop_oneof![4 => Just(St::Decrement), 4 => Just(St::CancelProvide), p.st_abort => Just(St::Abort)];
    let limit = prop_oneof![6 => Just(65535u16), 3 => 1u16..6, 1 => Just(0u16), 1 => 6u16..20, 1 => prop_oneof![Just(256u16), Just(32768), Just(65534), any::<u16>()]];
    let e = p.expiry;
    let ts = prop_oneof![
        10 - e => Just(Ts::Never),
        e => prop_oneof![4 => (-2i64..3).prop_map(Ts::Rel), 1 => any::<i64>().prop_map(Ts::Abs), 1 => Just(Ts::Abs(i64::MAX - 1)), 1 => Just(Ts::Abs(i64::MIN))],
    ];
    (any::<bool>(), px, qty, budget, ot, st, limit, cid(), ts).prop_map(|(bid, px, qty, budget, ot, st, limit, cid, ts)| OrdGen {
        bid,
        px,
        qty,
        budget,
        ot,
        st,
        limit,
        cid,
        ts,
    })
}

pub fn fee_sel() -> impl Strategy<Value = FeeSel> {
    prop_oneof![20 => Just(FeeSel::None), 16 => Just(FeeSel::Srm), 10 => Just(FeeSel::Msrm), 2 => Just(FeeSel::Other), 1 => Just(FeeSel::Foreign)]
}

pub fn op(p: Profile) -> BoxedStrategy<Op> {
    let oo = || 0u8..N_OOS as u8;
    let climit = || prop_oneof![8 => Just(65535u16), 8 => 1u16..8, 2 => Just(0u16), 1 => prop_oneof![Just(256u16), Just(32768), any::<u16>()]];
    let omit = || prop_oneof![5 => Just(0u8), 3 => (0u8..7).prop_map(|b| 1 << b), 2 => any::<u8>()];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (p.new, (oo(), ord(p), fee_sel(), any::<bool>()).prop_map(|(oo, o, fee, legacy)| Op::New { oo, o, fee, legacy }).boxed()),
        (
            p.replace,
            (oo(), prop_oneof![3 => prop::collection::vec(ord(p), 1..2), 2 => prop::collection::vec(ord(p), 0..5), 1 => prop::collection::vec(ord(p), 5..9)], fee_sel(), any::<bool>())
                .prop_map(|(oo, os, fee, single)| Op::Replace { oo, os, fee, single })
                .boxed(),
        ),
        (
            p.take,
            (0u8..N_USERS as u8, ord(p), fee_sel(), prop_oneof![2 => Just(0u64), 1 => 1u64..20, 1 => 0u64..100_000], prop::bool::weighted(0.7))
                .prop_map(|(u, o, fee, min, met)| Op::Take { u, o, fee, min, met })
                .boxed(),
        ),
        (p.cancel, (oo(), any::<u8>(), prop::bool::weighted(0.2), prop::bool::weighted(0.1)).prop_map(|(oo, pick, any, flip)| Op::Cancel { oo, pick, any, flip }).boxed()),
        (p.cancel_cid, (oo(), cid(), any::<u8>()).prop_map(|(oo, cid, pick)| Op::CancelCid { oo, cid, pick }).boxed()),
        (p.cancel_batch, (oo(), prop::collection::vec((cid(), any::<u8>()), 0..9)).prop_map(|(oo, cids)| Op::CancelBatch { oo, cids }).boxed()),
        (p.consume, (climit(), omit()).prop_map(|(limit, omit)| Op::Consume { limit, omit }).boxed()),
        (p.consume / 3 + 1, Just(Op::CrankAll).boxed()),
        (p.consume / 4 + 1, (1u8..4).prop_map(|k| Op::CrankBut { k }).boxed()),
        (if p.big_caps { 2 } else { 1 }, oo().prop_map(|oo| Op::CancelAll { oo }).boxed()),
        (p.settle, (oo(), 0u8..6, 0u8..N_USERS as u8).prop_map(|(oo, referrer, dest)| Op::Settle { oo, referrer, dest }).boxed()),
        (p.sweep, Just(Op::Sweep).boxed()),
        (p.disable, Just(Op::Disable).boxed()),
        (p.init, (oo(), prop::bool::weighted(0.8)).prop_map(|(oo, auth)| Op::InitOo { oo, auth }).boxed()),
        (p.close, oo().prop_map(|oo| Op::CloseOo { oo }).boxed()),
        (p.prune, (oo(), prop_oneof![6 => Just(65535u16), 4 => 0u16..30, 1 => prop_oneof![Just(256u16), any::<u16>()]]).prop_map(|(oo, limit)| Op::Prune { oo, limit }).boxed()),
        (1, (any::<bool>(), 0u32..1000).prop_map(|(pc, n)| Op::Donate { pc, n }).boxed()),
        (if p.expiry > 2 { 6 } else { 1 }, prop_oneof![9 => -5i32..6, 1 => prop_oneof![Just(497_483_647i32), Just(500_000_000), Just(1_400_000_000), Just(i32::MAX), Just(-1_650_000_000), Just(i32::MIN)]].prop_map(|d| Op::Clock { d }).boxed()),
        (
            p.bulk,
            (oo(), any::<bool>(), prop_oneof![2 => 1u8..20, 3 => 60u8..131], 0u8..4, any::<bool>())
                .prop_map(|(oo, bid, n, gap, crank)| Op::Bulk { oo, bid, n, gap, crank })
                .boxed(),
        ),
        (1, Just(Op::Match).boxed()),
        (p.rogue, (0u8..3, oo(), 0u8..6).prop_map(|(what, oo, who)| Op::Rogue { what, oo, who }).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn case(p: Profile) -> impl Strategy<Value = Case> {
    (cfg_strategy(p), prop::collection::vec(op(p), p.len.0..p.len.1)).prop_map(|(cfg, ops)| Case { cfg, ops })
}

/// An account that has used many of its slots withdraws from most of them,
/// trades on in late slots and tries to leave while something is pending.
pub fn late_slots(p: Profile) -> impl Strategy<Value = Case> {
    let n = prop_oneof![1u8..10, 28u8..40, 60u8..70, 90u8..130, 126u8..129];
    let part = (0u8..N_OOS as u8, any::<bool>(), n, 0u8..3, prop::collection::vec(ord(p), 0..4), any::<[bool; 4]>(), 0u8..4);
    (cfg_strategy(p), prop::collection::vec(part, 1..4), prop::collection::vec(op(p), 0..6)).prop_map(|(cfg, parts, tail)| {
        let mut ops = vec![];
        for (oo, bid, n, gap, os, keep, k) in parts {
            ops.push(Op::Bulk { oo, bid, n, gap, crank: true });
            ops.push(Op::CrankAll);
            let news = os.into_iter().map(|o| Op::New { oo, o, fee: FeeSel::None, legacy: false });
            let cancel = Op::CancelAll { oo };
            if keep[0] {
                ops.extend(news);
                ops.push(cancel);
            } else {
                ops.push(cancel);
                ops.extend(news);
            }
            ops.push(if keep[1] { Op::CrankAll } else { Op::CrankBut { k } });
            if keep[2] {
                ops.push(Op::Settle { oo, referrer: 0, dest: 0 });
            }
            if keep[3] {
                ops.push(Op::CloseOo { oo });
            }
        }
        ops.extend(tail);
        Case { cfg, ops }
    })
}

pub fn order(env: &Env, o: &OrdGen, tier_guess: u8) -> Order {
    let base = env.cfg.price as i128;
    let price = (base + o.px as i128).clamp(1, u64::MAX as i128) as u64;
    let nofee = o.qty as u128 * price as u128 * env.cfg.pc_lot as u128;
    let fee = (nofee * rate(tier_guess) >> 64) + 1;
    let full = nofee + fee;
    let c = |x: u128| if x > 1 << 59 { 1u64 << 55 } else { x.max(1) as u64 };
    let pc = match o.budget {
        Budget::Full => c(full),
        Budget::NoFee => c(nofee),
        Budget::Near(d) => c((full as i128 + d as i128).max(1) as u128),
        Budget::Part(n) => c(nofee / 16 * n as u128),
        Budget::Abs(n) => n as u64,
        Budget::Max => 1u64 << 59,
    };
    Order {
        side: if o.bid { Sd::Bid } else { Sd::Ask },
        price,
        qty: o.qty,
        pc,
        ot: o.ot,
        st: o.st,
        limit: o.limit,
        cid: o.cid,
        max_ts: match o.ts {
            Ts::Never => i64::MAX,
            Ts::Rel(d) => env.w.clock_ts + d,
            Ts::Abs(t) => t,
        },
    }
}

pub fn fee_acct(env: &Env, u: usize, f: FeeSel) -> Option<Pubkey> {
    match f {
        FeeSel::None => None,
        FeeSel::Srm => Some(env.users[u].srm),
        FeeSel::Msrm => Some(env.users[u].msrm),
        FeeSel::Other => Some(env.users[u].coin),
        FeeSel::Foreign => Some(env.users[(u + 1) % N_USERS].srm),
    }
}

pub fn all_oos(env: &Env, s: &Snap) -> Vec<Pubkey> {
    let _ = s;
    env.oos.iter().map(|x| x.0).collect()
}

/// Mostly a client id the account actually uses.
fn known_cid(s: &Snap, k: &Pubkey, cid: u64, pick: u8) -> u64 {
    if let Some(Some(a)) = s.oos.get(k) {
        let v: Vec<u64> = a.slots.iter().flatten().map(|x| x.cid).filter(|c| *c != 0).collect();
        if !v.is_empty() && pick % 5 != 0 {
            return v[pick as usize / 5 % v.len()];
        }
    }
    cid
}

/// Resolves an abstract operation to the instructions it stands for.
pub fn resolve(env: &Env, s: &Snap, op: &Op) -> Vec<Act> {
    let who = |oo: u8| {
        let (k, o) = env.oos[oo as usize % N_OOS];
        (k, o, env.users[o].clone())
    };
    // an account with open orders, if the chosen one has none
    let busy = |oo: u8| {
        (0..N_OOS as u8)
            .map(|d| who(oo.wrapping_add(d) % N_OOS as u8))
            .find(|x| matches!(s.oos.get(&x.0), Some(Some(a)) if a.n_orders() > 0))
            .unwrap_or_else(|| who(oo))
    };
    // a solvent account that can trade
    let ready = |oo: u8| {
        (0..N_OOS as u8)
            .map(|d| who(oo.wrapping_add(d) % N_OOS as u8))
            .find(|x| x.1 != POOR && (!s.permissioned() || matches!(s.oos.get(&x.0), Some(Some(a)) if a.flags == F_INIT | F_OO)))
            .unwrap_or_else(|| who(oo))
    };
    let auth = s.crank_auth();
    match op {
        Op::New { oo, o, fee, legacy } => {
            let (k, ui, u) = who(*oo);
            let fee = fee_acct(env, ui, *fee);
            let o = order(env, o, env.tier(&u.key, &fee).unwrap_or(0));
            vec![Act::New { oo: k, owner: u.key, payer: if o.side == Sd::Bid { u.pc } else { u.coin }, fee, o, legacy: *legacy }]
        }
        Op::Replace { oo, os, fee, single } => {
            let (k, ui, u) = who(*oo);
            let fee = fee_acct(env, ui, *fee);
            let t = env.tier(&u.key, &fee).unwrap_or(0);
            let side = os.first().map_or(true, |o| o.bid);
            let last = os.last().map_or(0, |o| o.px);
            let os: Vec<Order> = os
                .iter()
                .map(|o| {
                    let mut o = o.clone();
                    // mostly one side per batch: one payer serves them all
                    if last % 5 != 0 {
                        o.bid = side;
                    }
                    order(env, &o, t)
                })
                .collect();
            let payer = if side { u.pc } else { u.coin };
            vec![Act::Replace { oo: k, owner: u.key, payer, fee, os, single: *single }]
        }
        Op::Take { u, o, fee, min, met } => {
            let ui = *u as usize % N_USERS;
            let u = env.users[ui].clone();
            let fee = fee_acct(env, ui, *fee);
            let o = order(env, o, env.tier(&u.key, &fee).unwrap_or(0));
            let mk = |a, b| Act::Take { signer: u.key, coin: u.coin, pc: u.pc, fee, o, min_coin: a, min_pc: b };
            if *met {
                // around what it can actually get
                let probe = mk(0, 0);
                let (r, _) = probe.predict(env, s, None);
                if let Ok(x) = r {
                    let got_c = (x.tokens[&u.coin].saturating_sub(s.tokens[&u.coin])) / env.cfg.coin_lot;
                    let got_p = x.tokens[&u.pc].saturating_sub(s.tokens[&u.pc]);
                    let d = (*min % 3) as i64 - 1;
                    return vec![mk(got_c.saturating_add_signed(d), got_p.saturating_add_signed(d))];
                }
            }
            vec![mk(*min, *min)]
        }
        Op::Cancel { oo, pick, any, flip } => {
            let (k, _, u) = busy(*oo);
            let mut c: Vec<(Sd, u128)> = [Sd::Bid, Sd::Ask]
                .iter()
                .flat_map(|sd| s.book(*sd).leaves.values().filter(|l| *any || l.owner == k).map(|l| (*sd, l.key)).collect::<Vec<_>>())
                .collect();
            if c.is_empty() {
                // stale ids: still in the account, no longer on the book
                if let Some(Some(a)) = s.oos.get(&k) {
                    c = a.slots.iter().flatten().map(|x| (x.side, x.id)).collect();
                }
            }
            if c.is_empty() {
                c.push((Sd::Bid, order_id(env.cfg.price, *pick as u64, Sd::Bid)));
            }
            let (sd, id) = c[*pick as usize % c.len()];
            vec![Act::Cancel { oo: k, owner: u.key, side: if *flip { sd.opp() } else { sd }, id }]
        }
        Op::CancelCid { oo, cid, pick } => {
            let (k, _, u) = busy(*oo);
            vec![Act::CancelCid { oo: k, owner: u.key, cid: known_cid(s, &k, *cid, *pick) }]
        }
        Op::CancelBatch { oo, cids } => {
            let (k, _, u) = busy(*oo);
            vec![Act::CancelBatch { oo: k, owner: u.key, cids: cids.iter().map(|(c, p)| known_cid(s, &k, *c, *p)).collect() }]
        }
        Op::Consume { limit, omit } => {
            let given: Vec<Pubkey> = all_oos(env, s).into_iter().enumerate().filter(|(i, _)| omit >> i & 1 == 0).map(|x| x.1).collect();
            vec![Act::Consume { given, limit: *limit, auth }]
        }
        Op::CrankBut { k } => vec![Act::Consume { given: all_oos(env, s), limit: s.evq.events.len().saturating_sub(*k as usize) as u16, auth }],
        Op::CancelAll { oo } => {
            let (k, _, u) = busy(*oo);
            [Sd::Bid, Sd::Ask]
                .iter()
                .flat_map(|sd| s.book(*sd).leaves.values().filter(|l| l.owner == k).map(|l| Act::Cancel { oo: k, owner: u.key, side: *sd, id: l.key }).collect::<Vec<_>>())
                .collect()
        }
        Op::CrankAll => vec![Act::Consume { given: all_oos(env, s), limit: 65535, auth }],
        Op::Settle { oo, referrer, dest } => {
            let (k, _, u) = who(*oo);
            let d = if *dest == 0 { &env.users[0] } else { &u };
            let referrer = match referrer {
                0..=2 => None,
                3 => Some(key("ref_pc", 0)),
                4 => Some(u.pc),
                _ => Some(key("ref_pc", 1)),
            };
            vec![Act::Settle { oo: k, owner: u.key, coin: d.coin, pc: d.pc, referrer }]
        }
        Op::Sweep => vec![Act::Sweep { to: key("ref_pc", 2) }],
        Op::Disable => vec![Act::Disable],
        Op::InitOo { oo, auth } => {
            let (k, _, u) = who(*oo);
            vec![Act::InitOo { oo: k, owner: u.key, auth: if *auth && env.a.perm > 0 { Some(env.a.oo_auth) } else { None } }]
        }
        Op::CloseOo { oo } => {
            let (k, _, u) = who(*oo);
            let dest = if u.key == k { env.users[0].key } else { u.key };
            vec![Act::CloseOo { oo: k, owner: u.key, dest }]
        }
        Op::Prune { oo, limit } => {
            let (k, _, u) = busy(*oo);
            vec![Act::Prune { oo: k, owner: u.key, limit: *limit, auth: env.a.prune_auth }]
        }
        Op::Bulk { oo, bid, n, gap, crank } => {
            let (k, _, u) = ready(*oo);
            let mut v = vec![];
            for i in 0..*n as i64 {
                let off = 5 + i * (1 + *gap as i64);
                let price = (env.cfg.price as i128 + if *bid { -(off as i128) } else { off as i128 }).clamp(1, u64::MAX as i128) as u64;
                let side = if *bid { Sd::Bid } else { Sd::Ask };
                let o = Order {
                    side,
                    price,
                    qty: 1,
                    pc: (price as u128 * env.cfg.pc_lot as u128).clamp(1, 1 << 59) as u64,
                    ot: if i % 3 == 0 { Ot::PostOnly } else { Ot::Limit },
                    st: St::Decrement,
                    limit: 65535,
                    cid: i as u64 % 9,
                    max_ts: i64::MAX,
                };
                v.push(Act::New { oo: k, owner: u.key, payer: if *bid { u.pc } else { u.coin }, fee: None, o, legacy: false });
                if *crank && i % 40 == 39 {
                    v.push(Act::Consume { given: all_oos(env, s), limit: 65535, auth });
                }
            }
            v
        }
        Op::Match => vec![Act::Match { limit: 5 }],
        Op::Rogue { what, oo, who: w } => {
            let (k, _, u) = who(*oo);
            let signer = [env.a.oo_auth, env.a.prune_auth, env.a.crank_auth, u.key, env.users[0].key, key("stranger", 9)][*w as usize % 6];
            vec![match what {
                0 => Act::Consume { given: all_oos(env, s), limit: 65535, auth: if *w == 5 { None } else { Some(signer) } },
                1 => Act::InitOo { oo: k, owner: u.key, auth: if *w == 5 { None } else { Some(signer) } },
                _ => Act::Prune { oo: k, owner: u.key, limit: 65535, auth: signer },
            }]
        }
        Op::Donate { .. } | Op::Clock { .. } => vec![],
    }
}

/// Operations that are not instructions of the exchange.
pub fn side_effect(env: &mut Env, op: &Op) {
    match op {
        Op::Donate { pc, n } => {
            let k = if *pc { env.a.pc_vault } else { env.a.coin_vault };
            env.w.edit_token(&k, |t| t.amount += *n as u64);
            if *pc {
                env.donated.1 += *n as u64;
            } else {
                env.donated.0 += *n as u64;
            }
        }
        Op::Clock { d } => env.w.clock_ts += *d as i64,
        Op::InitOo { oo, .. } => {
            // an account emptied by closing disappears; its address can be funded again
            let k = env.oos[*oo as usize % N_OOS].0;
            let a = env.w.get_mut(&k).unwrap();
            if a.lamports == 0 {
                a.data = vec![0; OO_LEN];
                a.lamports = rent(OO_LEN);
            }
        }
        _ => {}
    }
}
