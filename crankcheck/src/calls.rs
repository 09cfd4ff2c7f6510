//! C39: the published client calls and the one-shot commands of the tool.  Each
//! call is compared with its effect worked out directly: the accounts it must
//! create, then the instruction itself, encoded here.
use crate::keeper::{key_file, keys, quiet, same};
use crate::rpc::*;
use dexcheck::abi::{Sd, OO_LEN};
use dexcheck::model::{Order, Ot, St};
use dexcheck::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_common::client::{rpc as common, Cluster};
use solana_program::{instruction::AccountMeta, program_pack::Pack, pubkey::Pubkey, system_program};
use solana_sdk::signature::{keypair_from_seed, Keypair, Signer};
use std::cell::RefCell;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};
use svm::harness::*;
use svm::{bad, ensure, key, Acct, World};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Ord {
    pub bid: bool,
    pub price: u8,
    pub qty: u8,
    pub pc: u16,
    pub ot: u8,
    pub st: u8,
    pub limit: u8,
    pub cid: u8,
    pub ts: u8,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    InitOo { u: u8, slot: Option<u8> },
    Place { u: u8, wallet: u8, slot: Option<u8>, o: Ord },
    CancelCid { u: u8, slot: u8, cid: u8 },
    CancelCids { u: u8, slot: u8, cids: [u8; 8] },
    Close { u: u8, slot: u8 },
    Match { u: u8 },
    Crank { u: u8 },
    Settle { u: u8, signer: Option<u8>, slot: u8, coin: u8, pc: u8, cli: bool },
    CreateRaw { u: u8, len: u16, owner: u8 },
    CreateToken { u: u8, mint: u8, owner: u8 },
    NewMint { u: u8, owner: u8, dec: u8, cli: bool },
    MintNew { u: u8, minter: u8, mint: u8, qty: u64, cli: bool },
    MintTo { u: u8, minter: u8, mint: u8, to: u8, qty: u64 },
    InitToken { u: u8, mint: u8 },
    Transfer { u: u8, auth: u8, from: u8, to: u8, amount: u64 },
    Read { wallet: u8 },
    Clock,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub perm: u8,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub disabled: bool,
    pub ops: Vec<Op>,
    /// transactions that go wrong: call, which of its transactions, how
    #[serde(default)]
    pub lose: Vec<(u8, u8, Fault)>,
}

/// Client ids: zero, small, and pairs that agree in their low or high half.
fn cid_of(i: u8) -> u64 {
    match i {
        4 => (1 << 32) + 1,
        5 => (3 << 32) + 1,
        6 => u64::MAX,
        7 => 1 << 63,
        x => x as u64,
    }
}
fn ord() -> impl Strategy<Value = Ord> {
    (any::<bool>(), 0u8..12, 0u8..9, prop_oneof![3 => Just(60_000u16), 1 => any::<u16>()], 0u8..3, 0u8..3, prop_oneof![Just(9u8), 0u8..4, any::<u8>()], 0u8..8, prop_oneof![4 => Just(0u8), 1 => 1u8..4]).prop_map(
        |(bid, price, qty, pc, ot, st, limit, cid, ts)| Ord { bid, price, qty, pc, ot, st, limit, cid, ts },
    )
}
fn op() -> impl Strategy<Value = Op> {
    // mostly consistent choices: slot s belongs to user s % 3
    let u = || 0u8..3;
    let us = || prop_oneof![5 => (0u8..9).prop_map(|s| (s % 3, s)), 1 => (0u8..3, 0u8..9)];
    let q = || prop_oneof![0u64..100, any::<u64>(), Just(u64::MAX)];
    prop_oneof![
        3 => (us(), any::<bool>()).prop_map(|((u, s), some)| Op::InitOo { u, slot: if some { Some(s) } else { None } }),
        12 => (us(), prop_oneof![6 => Just(0u8), 1 => 1u8..4], prop::bool::weighted(0.85), ord()).prop_map(|((u, s), wallet, some, o)| Op::Place { u, wallet, slot: if some { Some(s) } else { None }, o }),
        3 => (us(), 0u8..8).prop_map(|((u, slot), cid)| Op::CancelCid { u, slot, cid }),
        2 => (us(), prop_oneof![prop::array::uniform8(0u8..8).boxed(), (prop::array::uniform8(any::<bool>()), 0u8..8, 0u8..8).prop_map(|(w, a, b)| w.map(|w| if w { a } else { b })).boxed()]).prop_map(|((u, slot), cids)| Op::CancelCids { u, slot, cids }),
        2 => us().prop_map(|(u, slot)| Op::Close { u, slot }),
        1 => u().prop_map(|u| Op::Match { u }),
        4 => u().prop_map(|u| Op::Crank { u }),
        3 => (us(), prop_oneof![2 => Just(None), 1 => u().prop_map(Some)], 0u8..8, 0u8..8, Just(true)).prop_map(|((u, slot), signer, coin, pc, cli)| Op::Settle { u, signer, slot, coin, pc, cli }),
        1 => (u(), any::<u16>(), 0u8..4).prop_map(|(u, len, owner)| Op::CreateRaw { u, len: len % 5000, owner }),
        1 => (u(), 0u8..3, 0u8..3).prop_map(|(u, mint, owner)| Op::CreateToken { u, mint, owner }),
        1 => (u(), 0u8..3, any::<u8>(), any::<bool>()).prop_map(|(u, owner, dec, cli)| Op::NewMint { u, owner, dec, cli }),
        1 => (u(), 0u8..3, 0u8..3, q(), any::<bool>()).prop_map(|(u, minter, mint, qty, cli)| Op::MintNew { u, minter, mint, qty, cli }),
        1 => (u(), 0u8..3, 0u8..3, 0u8..8, q()).prop_map(|(u, minter, mint, to, qty)| Op::MintTo { u, minter, mint, to, qty }),
        1 => (u(), 0u8..3).prop_map(|(u, mint)| Op::InitToken { u, mint }),
        2 => (u(), u(), 0u8..8, 0u8..8, q()).prop_map(|(u, auth, from, to, amount)| Op::Transfer { u, auth, from, to, amount }),
        1 => (0u8..8).prop_map(|wallet| Op::Read { wallet }),
        1 => Just(Op::Clock),
    ]
}
fn lost() -> impl Strategy<Value = Vec<(u8, u8, Fault)>> {
    let how = prop_oneof![3 => Just(Fault::Dropped), 1 => Just(Fault::Turned), 1 => Just(Fault::Muted)];
    prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec((0u8..24, prop_oneof![3 => Just(0u8), 1 => 1u8..3], how), 1..5)]
}
pub fn case() -> impl Strategy<Value = Case> {
    (0u8..3, prop_oneof![Just(1u64), 1u64..1000], prop_oneof![Just(1u64), 1u64..100], prop::bool::weighted(0.05), proptest::collection::vec(op(), 1..24), lost())
        .prop_map(|(perm, coin_lot, pc_lot, disabled, ops, lose)| Case { perm: if perm == 2 { 1 } else { 0 }, coin_lot, pc_lot, disabled, ops, lose })
}

pub fn user(i: u8) -> Keypair {
    keypair_from_seed(&[20 + i; 32]).unwrap()
}
fn wallet(i: u8) -> Pubkey {
    // 0..3 base wallets, 3..6 quote wallets, 6 other mint, 7 nothing there
    key("wallet", i as u64)
}
fn slot(i: u8) -> Pubkey {
    key("slot", i as u64)
}
fn mint(i: u8) -> Pubkey {
    key("mint", i as u64)
}
fn acct(w: &mut World, k: Pubkey, lamports: u64) {
    w.add(Acct { key: k, owner: system_program::ID, lamports, data: vec![], executable: false });
}

thread_local! {
    static HTTP: RefCell<Option<(u16, Arc<Mutex<Option<Node>>>)>> = RefCell::new(None);
}
/// The address of this worker's node, now standing for `n`.
fn url(n: &Node) -> String {
    HTTP.with(|h| {
        let mut h = h.borrow_mut();
        let (port, cell) = h.get_or_insert_with(|| {
            let cell = Arc::new(Mutex::new(None));
            (serve(cell.clone()), cell)
        });
        *cell.lock().unwrap() = Some(n.clone());
        format!("http://127.0.0.1:{}", port)
    })
}
fn start(n: &Node, command: crank::Command) -> Result<(), String> {
    let opts = crank::Opts { cluster: Cluster::Custom(url(n)), command };
    crank::start(opts).map_err(|e| e.to_string())
}

fn base_world() -> World {
    let mut w = World::new();
    for i in 0..3u8 {
        // the last one cannot afford an exchange account
        acct(&mut w, user(i).pubkey(), if i == 2 { 9_000_000 } else { 1 << 40 });
    }
    acct(&mut w, pk(DISABLER), 1);
    for i in 0..3u8 {
        w.add_mint(mint(i), 1 << 50, Some(user(i % 2).pubkey()));
    }
    for i in 0..3u8 {
        w.add_token(wallet(i), mint(0), user(i).pubkey(), 1 << 40);
        w.add_token(wallet(3 + i), mint(1), user(i).pubkey(), 1 << 40);
    }
    w.add_token(wallet(6), mint(2), user(0).pubkey(), 1 << 40);
    w
}

/// A call's expected effect: `Some` new state, or refused.
type Want = Option<World>;
fn dexed(w: &World, m: &Mk, a: &Act) -> Want {
    let mut w = w.clone();
    let (x, d) = a.ix(m);
    w.exec_raw(&pid(), &x, &d, dex).ok().then_some(w)
}
fn pay(w: &mut World, who: &Pubkey, fee: u64, amount: u64) -> bool {
    // the fee is charged first; it is added back in the comparison
    let a = w.get_mut(who).unwrap();
    if a.lamports < fee + amount {
        return false;
    }
    a.lamports -= amount;
    true
}
fn created(w: &World, payer: &Pubkey, fee: u64, k: Pubkey, len: usize, owner: Pubkey) -> Want {
    let mut w = w.clone();
    if !pay(&mut w, payer, fee, rent(len)) {
        return None;
    }
    w.add(Acct { key: k, owner, lamports: rent(len), data: vec![0; len], executable: false });
    Some(w)
}
fn token_at(w: &World, payer: &Pubkey, fee: u64, k: Pubkey, mt: Pubkey, owner: Pubkey) -> Want {
    let mut w = w.clone();
    if !pay(&mut w, payer, fee, rent(spl_token::state::Account::LEN)) {
        return None;
    }
    w.add_token(k, mt, owner, 0);
    Some(w)
}
fn token_ix(w: &World, data: Vec<u8>, metas: Vec<AccountMeta>) -> Want {
    let mut w = w.clone();
    w.exec_raw(&spl_token::ID, &metas, &data, |p, a, d| spl_token::processor::Processor::process(p, a, d)).ok().then_some(w)
}
fn amount_data(tag: u8, n: u64) -> Vec<u8> {
    let mut d = vec![tag];
    d.extend_from_slice(&n.to_le_bytes());
    d
}
fn minted(w: &World, minter: &Pubkey, mt: Pubkey, to: Pubkey, qty: u64) -> Want {
    token_ix(w, amount_data(7, qty), vec![wr(mt), wr(to), si(*minter)])
}

pub fn order_of(o: &Ord, now: i64, coin_lot: u64, pc_lot: u64) -> (Order, serum_dex::instruction::NewOrderInstructionV3) {
    use serum_dex::instruction::{NewOrderInstructionV3, SelfTradeBehavior};
    use serum_dex::matching::{OrderType, Side};
    let _ = coin_lot;
    let price = o.price as u64 + 1;
    let qty = o.qty as u64 + 1;
    let pc = o.pc as u64 * pc_lot + 1;
    let max_ts = match o.ts {
        0 => i64::MAX,
        1 => now - 1,
        2 => now,
        _ => now + 1,
    };
    let ot = [(Ot::Limit, OrderType::Limit), (Ot::Ioc, OrderType::ImmediateOrCancel), (Ot::PostOnly, OrderType::PostOnly)][o.ot as usize % 3];
    let st = [St::Decrement, St::CancelProvide, St::Abort][o.st as usize % 3];
    let sb = match st {
        St::Decrement => SelfTradeBehavior::DecrementTake,
        St::CancelProvide => SelfTradeBehavior::CancelProvide,
        St::Abort => SelfTradeBehavior::AbortTransaction,
    };
    let nz = |x: u64| NonZeroU64::new(x).unwrap();
    (
        Order { side: if o.bid { Sd::Bid } else { Sd::Ask }, price, qty, pc, ot: ot.0, st, limit: o.limit as u16, cid: cid_of(o.cid), max_ts },
        NewOrderInstructionV3 {
            side: if o.bid { Side::Bid } else { Side::Ask },
            limit_price: nz(price),
            max_coin_qty: nz(qty),
            max_native_pc_qty_including_fees: nz(pc),
            self_trade_behavior: sb,
            order_type: ot.1,
            client_order_id: cid_of(o.cid),
            limit: o.limit as u16,
            max_ts,
        },
    )
}

/// What a call returned: the keys of accounts it says it made.
struct Got {
    r: Result<Vec<Pubkey>, String>,
    /// accounts that exist now and did not before
    fresh: Vec<Pubkey>,
    /// fees of the call
    fee: u64,
    /// a transaction of the call was lost, or its answer was
    hit: bool,
}

pub struct Run {
    pub node: Node,
    pub cl: solana_client::rpc_client::RpcClient,
    pub m: Mk,
}
impl Run {
    fn call(&self, f: impl FnOnce(&solana_client::rpc_client::RpcClient) -> Result<Vec<Pubkey>, String>) -> (World, Got) {
        let (pre, n0) = {
            let n = self.node.lock().unwrap();
            (n.w.clone(), n.fees.values().sum::<u64>())
        };
        let r = quiet(|| f(&self.cl));
        let n = self.node.lock().unwrap();
        let fresh = n.w.accts.iter().filter(|a| pre.get(&a.key).is_none()).map(|a| a.key).collect();
        (pre, Got { r, fresh, fee: n.fees.values().sum::<u64>() - n0, hit: n.hit })
    }
    /// Compares the state with what the call had to do.
    fn judge(&self, what: &str, pre: &World, payer: &Pubkey, got: &Got, want: Want, rep: &mut Report) -> Result<(), Violation> {
        rep.evals += 1;
        if got.hit && got.r.is_err() {
            rep.label("calls that reported a loss");
            return Ok(());
        }
        let n = self.node.lock().unwrap();
        let fees = std::collections::HashMap::from([(*payer, got.fee)]);
        match want {
            Some(want) => {
                if let Err(e) = &got.r {
                    bad!("failed", "{}: should succeed but failed: {}", what, e);
                }
                same(&n.w, &want, &fees).map_err(|e| Violation::new("effect", format!("{}: {}", what, e)))?;
                Ok(())
            }
            None => {
                ensure!(got.r.is_err(), "unreported", "{}: was refused by the network but reported as done", what);
                same(&n.w, pre, &fees).map_err(|e| Violation::new("refused-effect", format!("{}: {}", what, e)))
            }
        }
    }
}

pub fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = base_world();
    let cfg = Cfg { coin_lot: c.coin_lot, pc_lot: c.pc_lot, perm: c.perm, evq_extra: 0, bids_extra: 0, asks_extra: 0, slop: 0, seq0: 0, head0: 0, stable: 0, price: 5, srm: [0; 4], msrm: [0; 4], donate: (0, 0) };
    let m = Env::lay_market(&mut w, 0, &cfg, key("market", 0), mint(0), mint(1));
    let (a, d) = Env::init_market_ix(&m, &cfg);
    assert!(w.exec_raw(&pid(), &a, &d, dex).ok());
    for i in 0..9u8 {
        Env::dex_acct(&mut w, slot(i), OO_LEN);
        if i < 6 || c.perm > 0 {
            let auth = if c.perm > 0 { Some(m.oo_auth) } else { None };
            let (x, d) = Act::InitOo { oo: slot(i), owner: user(i % 3).pubkey(), auth }.ix(&m);
            assert!(w.exec_raw(&pid(), &x, &d, dex).ok());
        }
    }
    if c.disabled {
        let (x, d) = Act::Disable.ix(&m);
        assert!(w.exec_raw(&pid(), &x, &d, dex).ok());
    }
    let node: Node = Arc::new(Mutex::new(Chain::new(w)));
    let run = Run { cl: client(&node), node, m };
    for (i, op) in c.ops.iter().enumerate() {
        {
            let mut n = run.node.lock().unwrap();
            n.faults.clear();
            n.hit = false;
            n.expired = true;
            for (at, nth, fault) in &c.lose {
                // sending events for processing does not wait for the outcome
                if *at as usize % c.ops.len() == i && !matches!(op, Op::Crank { .. }) {
                    n.faults = (0..*nth).map(|_| Fault::Fine).chain([*fault]).collect();
                }
            }
        }
        one(&run, c, op, &mut rep)?;
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        rep.label_n("transactions landed", run.node.lock().unwrap().landed.len() as u64);
    }
    rep.sample = Some(clip(&format!("{:?}", c.ops), 300));
    Ok(rep)
}

fn nothing<E: std::fmt::Display>(r: Result<(), E>) -> Result<Vec<Pubkey>, String> {
    r.map(|_| vec![]).map_err(|e| e.to_string())
}
fn one_key<E: std::fmt::Display>(r: Result<Keypair, E>) -> Result<Vec<Pubkey>, String> {
    r.map(|k| vec![k.pubkey()]).map_err(|e| e.to_string())
}

fn one(run: &Run, c: &Case, op: &Op, rep: &mut Report) -> Result<(), Violation> {
    let m = &run.m;
    let k = keys(m);
    let what = format!("{:?}", op);
    let before = run.node.lock().unwrap().w.clone();
    // the account a successful call had to create
    let fresh1 = |got: &Got| -> Result<Pubkey, Violation> {
        match got.fresh.as_slice() {
            [k] => {
                if let Ok(v) = &got.r {
                    ensure!(v.is_empty() || v[0] == *k, "returned", "{}: returned {:?}, created {}", what, v, k);
                }
                Ok(*k)
            }
            [] => Ok(key("not created", 0)),
            v => bad!("effect", "{}: {} accounts appeared", what, v.len()),
        }
    };
    match op {
        Op::Clock => {
            run.node.lock().unwrap().w.clock_ts += 1;
            return Ok(());
        }
        Op::Read { wallet: i } => {
            let at = wallet(*i);
            let r = quiet(|| common::get_token_account::<spl_token_2::state::Account>(&run.cl, &at).map_err(|e| e.to_string()));
            rep.evals += 1;
            if before.get(&at).is_some() {
                let t = before.token(&at);
                let ok = matches!(&r, Ok(a) if a.amount == t.amount && a.mint == t.mint && a.owner == t.owner);
                ensure!(ok, "read", "{}: {:?}", what, r.map(|a| a.amount));
            } else {
                ensure!(r.is_err(), "read", "{}: read an account that does not exist", what);
            }
            return Ok(());
        }
        Op::InitOo { u, slot: s } => {
            let p = user(*u);
            let mut o = s.map(slot);
            let (pre, got) = run.call(|cl| crank::init_open_orders(cl, &pid(), &p, &k, &mut o).map_err(|e| e.to_string()).map(|_| o.iter().copied().filter(|_| s.is_none()).collect()));
            let (at, base) = match s {
                Some(s) => (slot(*s), Some(pre.clone())),
                None => {
                    let at = fresh1(&got)?;
                    (at, created(&pre, &p.pubkey(), got.fee, at, OO_LEN, pid()))
                }
            };
            let want = base.and_then(|b| dexed(&b, m, &Act::InitOo { oo: at, owner: p.pubkey(), auth: None }));
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Place { u, wallet: wl, slot: s, o } => {
            let p = user(*u);
            let (ord, ix) = order_of(o, before.clock_ts, c.coin_lot, c.pc_lot);
            let payer = match wl {
                0 => wallet(u % 3 + if o.bid { 3 } else { 0 }),
                1 => wallet(u % 3 + if o.bid { 0 } else { 3 }),
                2 => wallet((u + 1) % 3 + if o.bid { 3 } else { 0 }),
                _ => wallet(7),
            };
            let mut at = s.map(slot);
            let (pre, got) = run.call(|cl| crank::place_order(cl, &pid(), &p, &payer, &k, &mut at, ix).map_err(|e| e.to_string()).map(|_| at.iter().copied().filter(|_| s.is_none()).collect()));
            let (at, base) = match s {
                Some(s) => (slot(*s), Some(pre.clone())),
                None => {
                    let at = fresh1(&got)?;
                    (at, created(&pre, &p.pubkey(), got.fee, at, OO_LEN, pid()))
                }
            };
            let want = base.and_then(|b| dexed(&b, m, &Act::New { oo: at, owner: p.pubkey(), payer, fee: None, o: ord, legacy: false }));
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::CancelCid { u, slot: s, cid } => {
            let p = user(*u);
            let (pre, got) = run.call(|cl| nothing(crank::cancel_order_by_client_order_id(cl, &pid(), &p, &k, &slot(*s), cid_of(*cid))));
            let want = dexed(&pre, m, &Act::CancelCid { oo: slot(*s), owner: p.pubkey(), cid: cid_of(*cid) });
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::CancelCids { u, slot: s, cids } => {
            let p = user(*u);
            let mut ids = [0u64; 8];
            for i in 0..8 {
                ids[i] = cid_of(cids[i]);
            }
            let (pre, got) = run.call(|cl| nothing(crank::cancel_orders_by_client_order_ids(cl, &pid(), &p, &k, &slot(*s), ids)));
            let want = dexed(&pre, m, &Act::CancelBatch { oo: slot(*s), owner: p.pubkey(), cids: ids.to_vec() });
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Close { u, slot: s } => {
            let p = user(*u);
            let (pre, got) = run.call(|cl| nothing(crank::close_open_orders(cl, &pid(), &p, &k, &slot(*s))));
            let want = dexed(&pre, m, &Act::CloseOo { oo: slot(*s), owner: p.pubkey(), dest: p.pubkey() });
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Match { u } => {
            let p = user(*u);
            let (pre, got) = run.call(|cl| nothing(crank::match_orders(cl, &pid(), &p, &k, &wallet(0), &wallet(3))));
            let want = dexed(&pre, m, &Act::Match { limit: 2 });
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Crank { u } => {
            let p = user(*u);
            let q = dexcheck::abi::event_queue(before.data(&m.event_q)).unwrap();
            // the call makes its transaction unlike earlier ones by a random small
            // payment to itself, which a caller with next to nothing may fail
            if q.events.is_empty() || before.get(&p.pubkey()).map_or(0, |a| a.lamports) < 50_000 {
                return Ok(());
            }
            let mut given: Vec<Pubkey> = q.events.iter().map(|e| e.owner()).collect();
            given.sort();
            given.dedup();
            let act = Act::Consume { given, limit: 65535, auth: None };
            let metas = act.ix(m).0;
            let (pre, got) = run.call(|cl| crank::consume_events_once(cl, &pid(), &p, metas, 65535, 0, m.event_q).map(|_| vec![]).map_err(|e| e.to_string()));
            let want = dexed(&pre, m, &act);
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Settle { u, signer, slot: s, coin, pc, .. } => {
            let (p, sg) = (user(*u), signer.map(user));
            let node = run.node.clone();
            let cmd = crank::Command::SettleFunds {
                payer: key_file(&p),
                dex_program_id: pid(),
                market: m.market,
                orders: slot(*s),
                coin_wallet: wallet(*coin),
                pc_wallet: wallet(*pc),
                signer: sg.as_ref().map(key_file),
            };
            let (pre, got) = run.call(|_| nothing(start(&node, cmd)));
            let owner = sg.as_ref().unwrap_or(&p).pubkey();
            let want = dexed(&pre, m, &Act::Settle { oo: slot(*s), owner, coin: wallet(*coin), pc: wallet(*pc), referrer: None });
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::CreateRaw { u, len, owner } => {
            let p = user(*u);
            let ow = [pid(), spl_token::ID, system_program::ID, key("some program", 0)][*owner as usize % 4];
            let (pre, got) = run.call(|cl| one_key(common::create_account_rent_exempt(cl, &p, *len as usize, &ow)));
            let at = fresh1(&got)?;
            let want = created(&pre, &p.pubkey(), got.fee, at, *len as usize, ow);
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::CreateToken { u, mint: mt, owner } => {
            let (p, ow) = (user(*u), user(*owner).pubkey());
            let (pre, got) = run.call(|cl| one_key(common::create_token_account(cl, &mint(*mt), &ow, &p)));
            let at = fresh1(&got)?;
            let want = token_at(&pre, &p.pubkey(), got.fee, at, mint(*mt), ow);
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::InitToken { u, mint: mt } => {
            let p = user(*u);
            let node = run.node.clone();
            let cmd = crank::Command::InitializeTokenAccount { mint: mint(*mt), owner_account: key_file(&p) };
            let (pre, got) = run.call(|_| nothing(start(&node, cmd)));
            let at = fresh1(&got)?;
            let want = token_at(&pre, &p.pubkey(), got.fee, at, mint(*mt), p.pubkey());
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::NewMint { u, owner, dec, cli } => {
            let (p, ow) = (user(*u), user(*owner).pubkey());
            let node = run.node.clone();
            let (pre, got) = run.call(|cl| {
                if *cli {
                    let mk = Keypair::new();
                    let f = key_file(&mk);
                    let r = start(&node, crank::Command::Genesis { payer: key_file(&p), mint: f.clone(), owner_pubkey: ow, decimals: *dec });
                    let _ = std::fs::remove_file(f);
                    r.map(|_| vec![mk.pubkey()])
                } else {
                    one_key(common::new_mint(cl, &p, &ow, *dec).map(|k| k.0))
                }
            });
            let at = fresh1(&got)?;
            let mut want = pre.clone();
            let want = if pay(&mut want, &p.pubkey(), got.fee, rent(spl_token::state::Mint::LEN)) {
                want.add_mint(at, 0, Some(ow));
                let mut mm = want.mint(&at);
                mm.decimals = *dec;
                mm.pack_into_slice(&mut want.get_mut(&at).unwrap().data);
                Some(want)
            } else {
                None
            };
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::MintNew { u, minter, mint: mt, qty, cli } => {
            let (p, mi) = (user(*u), user(*minter));
            let node = run.node.clone();
            let (pre, got) = run.call(|cl| {
                if *cli {
                    nothing(start(&node, crank::Command::Mint { payer: key_file(&p), signer: key_file(&mi), mint_pubkey: mint(*mt), recipient: None, quantity: *qty }))
                } else {
                    one_key(common::mint_to_new_account(cl, &p, &mi, &mint(*mt), *qty))
                }
            });
            let at = fresh1(&got)?;
            let want = token_at(&pre, &p.pubkey(), got.fee, at, mint(*mt), p.pubkey()).and_then(|w| minted(&w, &mi.pubkey(), mint(*mt), at, *qty));
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::MintTo { u, minter, mint: mt, to, qty } => {
            let (p, mi) = (user(*u), user(*minter));
            let node = run.node.clone();
            let cmd = crank::Command::Mint { payer: key_file(&p), signer: key_file(&mi), mint_pubkey: mint(*mt), recipient: Some(wallet(*to)), quantity: *qty };
            let (pre, got) = run.call(|_| nothing(start(&node, cmd)));
            let want = minted(&pre, &mi.pubkey(), mint(*mt), wallet(*to), *qty);
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
        Op::Transfer { u, auth, from, to, amount } => {
            let (p, au) = (user(*u), user(*auth));
            let (pre, got) = run.call(|cl| common::transfer(cl, &wallet(*from), &wallet(*to), *amount, &au, &p).map(|_| vec![]).map_err(|e| e.to_string()));
            let want = token_ix(&pre, amount_data(3, *amount), vec![wr(wallet(*from)), wr(wallet(*to)), si(au.pubkey())]);
            run.judge(&what, &pre, &p.pubkey(), &got, want, rep)?;
        }
    }
    let after = run.node.lock().unwrap();
    let (name, _) = what.split_once(|c: char| c == ' ' || c == '{').unwrap_or((&what, ""));
    let changed = after.w.accts.iter().any(|a| before.get(&a.key).map_or(true, |b| b.data != a.data));
    rep.label(match (changed, after.landed.last().map_or(false, |l| l.1.is_none())) {
        (true, _) => "calls with an effect",
        (false, true) => "calls accepted without effect on data",
        _ => "calls refused",
    });
    if changed {
        rep.hit(&(name.to_string(), op));
    }
    Ok(())
}

// ---------------------------------------------------------------- listing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Listing {
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub mints: (u8, u8),
    pub poor: bool,
    pub price: u8,
    pub qty: u8,
    /// through the command line: (states the base lot size, states the quote lot size)
    pub cmd: Option<(bool, bool)>,
    /// the transaction of the listing that goes wrong, and how
    #[serde(default)]
    pub lose: Option<(u8, Fault)>,
}
pub fn listing_case() -> impl Strategy<Value = Listing> {
    let lot = || prop_oneof![Just(1u64), (0u32..40).prop_map(|b| 1u64 << b), 1u64..1000, 1u64..=1 << 20, any::<u32>().prop_map(|x| x as u64 + 1)];
    (lot(), lot(), 0u8..3, 0u8..3, prop::bool::weighted(0.1), 0u8..9, 0u8..9, prop::option::weighted(0.06, any::<(bool, bool)>()), prop::option::weighted(0.2, (0u8..5, prop_oneof![2 => Just(Fault::Dropped), 1 => Just(Fault::Turned), 1 => Just(Fault::Muted)]))).prop_map(|(coin_lot, pc_lot, a, b, poor, price, qty, cmd, lose)| Listing {
        // the defaults the command states
        coin_lot: if let Some((false, _)) = cmd { 1_000_000 } else { coin_lot },
        pc_lot: if let Some((_, false)) = cmd { 10_000 } else { pc_lot },
        mints: (a, if a == b { (b + 1) % 3 } else { b }),
        poor,
        price,
        qty,
        cmd,
        lose,
    })
}

/// The market on the node, found by looking.
fn listed(node: &Node) -> Result<crank::MarketPubkeys, String> {
    let n = node.lock().unwrap();
    let mut found = n.w.accts.iter().filter(|a| a.owner == pid()).filter_map(|a| dexcheck::abi::market(&a.data).ok().filter(|s| s.own == a.key));
    let s = found.next().ok_or("no market on the node after listing one")?;
    if found.next().is_some() {
        return Err("several markets after listing one".into());
    }
    let vault_signer = n.w.token(&s.coin_vault).owner;
    Ok(crank::MarketPubkeys {
        market: Box::new(s.own),
        req_q: Box::new(s.req_q),
        event_q: Box::new(s.event_q),
        bids: Box::new(s.bids),
        asks: Box::new(s.asks),
        coin_vault: Box::new(s.coin_vault),
        pc_vault: Box::new(s.pc_vault),
        vault_signer_key: Box::new(vault_signer),
    })
}

/// A listed market has what was asked for, and can be traded in and left.
pub fn listing(c: &Listing) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = base_world();
    let p = user(if c.poor { 2 } else { 0 });
    let (cm, pm) = (mint(c.mints.0), mint(c.mints.1));
    let (cw, pw) = (key("lister coin", 0), key("lister pc", 0));
    w.add_token(cw, cm, p.pubkey(), 1 << 48);
    w.add_token(pw, pm, p.pubkey(), 1 << 60);
    let node: Node = Arc::new(Mutex::new(Chain::new(w)));
    let cl = client(&node);
    if let Some((nth, fault)) = c.lose {
        let mut n = node.lock().unwrap();
        n.expired = true;
        n.faults = (0..nth).map(|_| Fault::Fine).chain([fault]).collect();
    }
    let r = quiet(|| match c.cmd {
        None => crank::list_market(&cl, &pid(), &p, &cm, &pm, c.coin_lot, c.pc_lot).map_err(|e| e.to_string()),
        Some((a, b)) => {
            let cmd = crank::Command::ListMarket {
                payer: key_file(&p),
                dex_program_id: pid(),
                coin_mint: cm,
                pc_mint: pm,
                coin_lot_size: Some(c.coin_lot).filter(|_| a),
                pc_lot_size: Some(c.pc_lot).filter(|_| b),
            };
            start(&node, cmd)?;
            listed(&node)
        }
    });
    rep.label(if c.cmd.is_some() { "listed by command" } else { "listed by call" });
    rep.evals += 1;
    if c.poor {
        ensure!(r.is_err(), "unreported", "a listing nobody paid for was reported as done");
        return Ok(rep);
    }
    {
        let mut n = node.lock().unwrap();
        n.faults.clear();
        if n.hit && r.is_err() {
            rep.label("listings that reported a loss");
            return Ok(rep);
        }
        (n.hit, n.expired) = (false, false);
    }
    let k = match r {
        Ok(k) => k,
        Err(e) => bad!("list-failed", "listing failed: {}", e),
    };
    let (nonce, signer) = vault_signer_for(&k.market);
    let m = Mk {
        market: *k.market,
        req_q: *k.req_q,
        event_q: *k.event_q,
        bids: *k.bids,
        asks: *k.asks,
        coin_vault: *k.coin_vault,
        pc_vault: *k.pc_vault,
        coin_mint: cm,
        pc_mint: pm,
        vault_signer: *k.vault_signer_key,
        nonce,
        oo_auth: Pubkey::default(),
        prune_auth: Pubkey::default(),
        crank_auth: Pubkey::default(),
        perm: 0,
    };
    {
        let n = node.lock().unwrap();
        let s = match dexcheck::abi::market(n.w.data(&m.market)) {
            Ok(s) => s,
            Err(e) => bad!("list-state", "market unreadable: {}", e),
        };
        ensure!(s.own == m.market && s.coin_mint == cm && s.pc_mint == pm && s.coin_lot == c.coin_lot && s.pc_lot == c.pc_lot, "list-state", "market {:?}, asked {:?} {} {}", s, c, cm, pm);
        ensure!(s.req_q == m.req_q && s.event_q == m.event_q && s.bids == m.bids && s.asks == m.asks && s.coin_vault == m.coin_vault && s.pc_vault == m.pc_vault, "list-keys", "the returned addresses are not the market's: {:?} / {:?}", k, s);
        ensure!(signer == m.vault_signer || s.nonce != nonce, "list-signer", "vault authority {} nonce {}", m.vault_signer, s.nonce);
        ensure!(n.w.token(&m.coin_vault).owner == m.vault_signer && n.w.token(&m.pc_vault).owner == m.vault_signer, "list-vaults", "vault owners");
        ensure!(n.w.token(&m.coin_vault).mint == cm && n.w.token(&m.pc_vault).mint == pm, "list-vaults", "vault mints");
        for a in [m.market, m.req_q, m.event_q, m.bids, m.asks, m.coin_vault, m.pc_vault] {
            let a = n.w.get(&a).unwrap();
            ensure!(a.lamports >= rent(a.data.len()), "list-rent", "account {} of {} bytes has {}", a.key, a.data.len(), a.lamports);
        }
        // room for what such a market is meant to hold
        for (what, k, least) in [("request queue", m.req_q, 640), ("event queue", m.event_q, 1 << 20), ("bids", m.bids, 1 << 16), ("asks", m.asks, 1 << 16)] {
            let l = n.w.data(&k).len();
            ensure!(l >= least + 12, "list-size", "the {} has {} bytes, at least {} are needed", what, l, least + 12);
        }
        rep.hit(&(c.coin_lot, c.pc_lot, c.mints));
    }
    // trade there: rest an ask, hit it from another account, crank, settle, close
    let (price, qty) = (c.price as u64 + 1, c.qty as u64 + 1);
    let go = |what: &str, r: Result<(), String>| -> Result<(), Violation> {
        match r {
            Ok(()) => Ok(()),
            Err(e) => Err(Violation::new("list-trade", format!("{} in the listed market: {}", what, e))),
        }
    };
    let start0 = {
        let n = node.lock().unwrap();
        (n.w.token_balance(&cw), n.w.token_balance(&pw))
    };
    let mut made = vec![];
    for (bid, wal) in [(false, cw), (true, pw)] {
        let mut at = None;
        use serum_dex::instruction::{NewOrderInstructionV3, SelfTradeBehavior};
        use serum_dex::matching::{OrderType, Side};
        let nz = |x: u64| NonZeroU64::new(x).unwrap();
        let o = NewOrderInstructionV3 {
            side: if bid { Side::Bid } else { Side::Ask },
            limit_price: nz(price),
            max_coin_qty: nz(qty),
            max_native_pc_qty_including_fees: nz(1 << 55),
            self_trade_behavior: SelfTradeBehavior::DecrementTake,
            order_type: OrderType::Limit,
            client_order_id: 7,
            limit: 10,
            max_ts: i64::MAX,
        };
        go("placing", quiet(|| crank::place_order(&cl, &pid(), &p, &wal, &k, &mut at, o).map_err(|e| e.to_string())))?;
        made.push(at.unwrap_or_default());
    }
    let ix = quiet(|| crank::consume_events_instruction(&cl, &pid(), &k, &cw, &pw).map_err(|e| e.to_string()));
    let ix = match ix {
        Ok(Some(ix)) => ix,
        r => bad!("list-trade", "nothing to crank after a trade: {:?}", r.map(|_| ())),
    };
    let bh = cl.get_latest_blockhash().unwrap();
    let tx = solana_sdk::transaction::Transaction::new_signed_with_payer(&[ix], Some(&p.pubkey()), &[&p], bh);
    go("cranking", node.lock().unwrap().submit(&tx).map(|_| ()))?;
    for at in made {
        let cmd = crank::Command::SettleFunds { payer: key_file(&p), dex_program_id: pid(), market: m.market, orders: at, coin_wallet: cw, pc_wallet: pw, signer: None };
        go("settling", quiet(|| start(&node, cmd)))?;
        go("closing", quiet(|| crank::close_open_orders(&cl, &pid(), &p, &k, &at).map_err(|e| e.to_string())))?;
    }
    rep.evals += 7;
    let n = node.lock().unwrap();
    let s = dexcheck::abi::market(n.w.data(&m.market)).unwrap();
    let (a, b) = (n.w.token_balance(&cw), n.w.token_balance(&pw));
    ensure!(a == start0.0 && b + s.pc_fees + s.rebates == start0.1, "list-trade", "after trading with oneself: base {} was {}, quote {} + fees {} + rebates {} was {}", a, start0.0, b, s.pc_fees, s.rebates, start0.1);
    Ok(rep)
}
