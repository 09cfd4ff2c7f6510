use crate::chain::{self, *};
use dexcheck::abi::{self, Sd};
use dexcheck::model::{Order, Ot, St};
use dexcheck::world::{disc, enc_order, ro, si, wr, Act as DexAct, Cfg, Env, Mk};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::{instruction::AccountMeta, pubkey::Pubkey, system_program, sysvar};
use std::collections::BTreeMap;
use svm::harness::{Report, Violation};
use svm::{bad, ensure, key, Acct, World};

const NU: usize = 3;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ord_ {
    bid: bool,
    price: u64,
    qty: u64,
    /// 0 exact, 1 generous, 2 tight, 3 odd
    budget: u8,
    ot: u8,
    st: u8,
    limit: u16,
    cid: u64,
    /// data without the trailing timestamp
    legacy: bool,
    /// discount account shown: 0 none, 1 the address's own, 2 the user's, 3 another user's address's, 4 not a token account
    fee: u8,
    /// 0 no expiry, 1 expires now, 2 expired, 3 later
    ts: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rq {
    Init { bump: u8 },
    New(Ord_, u8),
    Cancel { nth: u8 },
    CancelCid(u64),
    Settle { referrer: u8 },
    /// where the rent goes: 0 the user, 1 another user, 2 a fresh address
    Close(u8),
    /// which accounts are shown (one bit each)
    Consume { limit: u16, perm: bool, shown: u8 },
    Prune { limit: u16, signed: bool },
    /// requests the proxy does not carry: 0 take, 1 match, 2 replace, 3 batch cancel, 4 sweep, 5 disable, 6.. junk
    Other(u8, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Twist {
    Unsign(u8),
    ReadOnly(u8),
    Replace(u8, u8),
    Swap(u8, u8),
    Same(u8, u8),
    Drop(u8),
    Truncate(u8),
    Extra(u8),
    Set(u8, u8),
    Cut(u8),
    /// someone else's signature instead of the user's
    OtherUser(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub m: u8,
    pub u: u8,
    pub rq: Rq,
    pub twist: Vec<Twist>,
    /// before the request: 0 nothing, 1 prefund the address, 2 a stranger's approval on the payer, 3 approval of the address already there
    pub side: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub perm: u8,
    pub chain: Vec<Mw>,
    /// users whose accounts exist at the start (bit per user, market 0 then 1)
    pub ready: u8,
    pub steps: Vec<Step>,
}

fn ord() -> impl Strategy<Value = Ord_> {
    let side_price = prop_oneof![3 => (any::<bool>(), 1u64..14), 2 => (Just(true), 1u64..8), 2 => (Just(false), 7u64..14)];
    let small = (side_price, 1u64..12, 0u8..4, prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0u8..3, prop_oneof![10 => 5u16..40, 2 => 0u16..4, 1 => any::<u16>()], prop_oneof![8 => 0u64..5, 1 => any::<u64>()], any::<bool>());
    (small, prop_oneof![20 => Just(0u8), 1 => 1u8..4], prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => 2u8..5], prop_oneof![5 => Just(0u8), 1 => 1u8..4]).prop_map(|(((bid, price), qty, budget, ot, st, limit, cid, legacy), big, fee, ts)| {
        let qty = match big {
            1 => u64::MAX - qty,
            2 => u64::MAX / 7,
            3 => 1 << 58,
            _ => qty,
        };
        Ord_ { bid, price, qty, budget, ot, st, limit, cid, legacy, fee, ts }
    })
}
fn rq() -> BoxedStrategy<Rq> {
    prop_oneof![
        2 => prop_oneof![8 => Just(0u8), 1 => any::<u8>()].prop_map(|bump| Rq::Init { bump }),
        12 => (ord(), 0u8..24).prop_map(|(o, p)| Rq::New(o, p)),
        3 => (0u8..4).prop_map(|nth| Rq::Cancel { nth }),
        2 => (0u64..6).prop_map(Rq::CancelCid),
        4 => (0u8..14).prop_map(|referrer| Rq::Settle { referrer }),
        1 => prop_oneof![3 => Just(0u8), 1 => 1u8..3].prop_map(Rq::Close),
        3 => (prop_oneof![8 => 0u16..12, 1 => any::<u16>()], any::<bool>(), prop_oneof![3 => Just(255u8), 1 => any::<u8>()]).prop_map(|(limit, perm, shown)| Rq::Consume { limit, perm, shown }),
        1 => (0u16..6, prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(limit, signed)| Rq::Prune { limit, signed }),
        1 => (0u8..9, prop::collection::vec(any::<u8>(), 0..8)).prop_map(|(a, b)| Rq::Other(a, b)),
    ]
    .boxed()
}
fn twist() -> impl Strategy<Value = Twist> {
    prop_oneof![
        4 => (0u8..16).prop_map(Twist::Unsign),
        1 => (0u8..16).prop_map(Twist::ReadOnly),
        6 => (0u8..16, 0u8..40).prop_map(|(a, b)| Twist::Replace(a, b)),
        2 => (0u8..16, 0u8..16).prop_map(|(a, b)| Twist::Swap(a, b)),
        2 => (0u8..16, 0u8..16).prop_map(|(a, b)| Twist::Same(a, b)),
        2 => (0u8..16).prop_map(Twist::Drop),
        2 => (0u8..16).prop_map(Twist::Truncate),
        1 => (0u8..40).prop_map(Twist::Extra),
        2 => (0u8..64, any::<u8>()).prop_map(|(a, b)| Twist::Set(a, b)),
        1 => (0u8..60).prop_map(Twist::Cut),
        3 => (0u8..3).prop_map(Twist::OtherUser),
    ]
}
fn step(twisted: bool) -> impl Strategy<Value = Step> {
    let tw = if twisted { prop_oneof![2 => Just(0usize), 4 => Just(1), 2 => Just(2)].boxed() } else { Just(0usize).boxed() };
    let t = tw.prop_flat_map(|n| prop::collection::vec(twist(), n));
    (prop_oneof![5 => Just(0u8), 1 => Just(1u8)], 0u8..NU as u8, rq(), t, prop_oneof![10 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)]).prop_map(|(m, u, rq, twist, side)| Step { m, u, rq, twist, side })
}
fn with_chain(chain: BoxedStrategy<Vec<Mw>>, twisted: bool) -> impl Strategy<Value = Case> {
    let lots = prop_oneof![3 => Just(1u64), 2 => 2u64..50, 1 => Just(1_000_000u64)];
    (lots.clone(), lots, 1u8..4, chain, prop_oneof![4 => Just(7u8), 2 => Just(63u8), 1 => 0u8..64], prop::collection::vec(step(twisted), 1..26)).prop_map(|(coin_lot, pc_lot, perm, chain, ready, steps)| Case { coin_lot, pc_lot, perm, chain, ready, steps })
}
pub fn case(twisted: bool) -> impl Strategy<Value = Case> {
    let ch = prop_oneof![
        4 => Just(vec![Mw::Pda]),
        2 => Just(vec![Mw::Referral, Mw::Pda]),
        1 => Just(vec![Mw::Pda, Mw::Referral]),
        2 => Just(vec![Mw::Log, Mw::Referral, Mw::Pda]),
    ];
    with_chain(ch.boxed(), twisted)
}
pub fn chain_case() -> impl Strategy<Value = Case> {
    use chain::Act::*;
    let any_where = || prop_oneof![4 => Just(Watch), 1 => Just(VetoData), 2 => Just(Veto), 2 => (0u16..7).prop_map(Change), 3 => prop_oneof![3 => Just(Callback(false)), 1 => Just(Callback(true))]];
    let early = prop_oneof![2 => any_where(), 2 => Just(Strip), 3 => (0u8..4, 0u8..4).prop_map(|(pre, post)| Pay { pre, post }), 1 => Just(BadPost)];
    let lib = || prop_oneof![Just(vec![]), Just(vec![Mw::Log]), Just(vec![Mw::Referral])];
    let ch = (prop::collection::vec(early.prop_map(Mw::Probe), 0..3), lib(), prop_oneof![8 => Just(true), 1 => Just(false)], lib(), prop::collection::vec(any_where().prop_map(Mw::Probe), 0..3)).prop_map(|(mut a, b, p, c, d)| {
        a.extend(b);
        if p {
            a.push(Mw::Pda);
        }
        a.extend(c);
        a.extend(d);
        a
    });
    with_chain(ch.boxed(), false)
}

pub struct X {
    pub w: World,
    pub mks: Vec<Mk>,
    pub users: Vec<(Pubkey, Pubkey, Pubkey)>,
    pub refs: Vec<Pubkey>,
    pub plain: Pubkey,
}
fn sys(w: &mut World, k: Pubkey, lamports: u64) {
    w.add(Acct { key: k, owner: system_program::ID, lamports, data: vec![], executable: false });
}
impl X {
    fn new(c: &Case) -> X {
        let mut w = World::new();
        let (cm, pm) = (key("coin_mint", 0), key("pc_mint", 0));
        w.add_mint(cm, 1 << 63, Some(key("issuer", 0)));
        w.add_mint(pm, 1 << 63, Some(key("issuer", 1)));
        let mut rent = vec![];
        rent.extend_from_slice(&3480u64.to_le_bytes());
        rent.extend_from_slice(&2f64.to_le_bytes());
        rent.push(50);
        w.add(Acct { key: sysvar::rent::ID, owner: sysvar::ID, lamports: 1, data: rent, executable: false });
        let mut users = vec![];
        for i in 0..NU as u64 {
            let u = (key("user", i), key("coin_wallet", i), key("pc_wallet", i));
            // the last user cannot pay for more than one account
            sys(&mut w, u.0, if i == 2 { 30_000_000 } else { 1 << 40 });
            w.add_token(u.1, cm, u.0, if i == 2 { 3_000_000 } else { 1 << 60 });
            w.add_token(u.2, pm, u.0, if i == 2 { 3_000_000 } else { 1 << 60 });
            users.push(u);
        }
        let refs = vec![key("ref_ok", 0), key("ref_bad", 0), key("ref_fake", 0), key("ref_mint", 0)];
        w.add_token(refs[0], pm, referral(), 0);
        w.add_token(refs[1], pm, users[1].0, 0);
        w.add_token(refs[2], pm, referral(), 0);
        w.get_mut(&refs[2]).unwrap().owner = key("evil", 0);
        w.add_token(refs[3], cm, referral(), 0);
        for i in 0..2 {
            w.add_token(till_wallet(i), pm, till().0, 1000 * (1 - i));
        }
        sys(&mut w, key("filler", 0), 1);
        let cfg = Cfg {
            coin_lot: c.coin_lot,
            pc_lot: c.pc_lot,
            perm: c.perm,
            evq_extra: 0,
            bids_extra: 0,
            asks_extra: 0,
            slop: 0,
            seq0: 5,
            head0: 3,
            stable: 0,
            price: 1,
            srm: [0; 4],
            msrm: [0; 4],
            donate: (0, 0),
        };
        let mut mks = vec![];
        for i in 0..2u64 {
            let market = key("market", i);
            let mut m = Env::lay_market(&mut w, i, &cfg, market, cm, pm);
            m.oo_auth = init_auth(&market).0;
            let (a, d) = Env::init_market_ix(&m, &cfg);
            let r = w.exec_raw(&dex_id(), &a, &d, dexcheck::world::dex);
            assert!(r.ok(), "market: {:?}", r);
            mks.push(m);
        }
        for i in 0..2usize {
            for u in 0..NU {
                let o = pda(&mks[i].market, &users[u].0).0;
                w.add_token(key("srm", (i * NU + u) as u64), dexcheck::world::pk(dexcheck::world::SRM), o, 1_000_000_000_000 * (u as u64 + 1));
            }
        }
        for u in 0..NU as u64 {
            w.add_token(key("srm_user", u), dexcheck::world::pk(dexcheck::world::SRM), users[u as usize].0, 1_000_000_000_000);
        }
        // an open-orders account from before the proxy: owned by the user directly
        let plain = key("plain_oo", 0);
        Env::dex_acct(&mut w, plain, abi::OO_LEN);
        let (a, d) = DexAct::InitOo { oo: plain, owner: users[0].0, auth: Some(mks[0].oo_auth) }.ix(&mks[0]);
        let r = w.exec_raw(&dex_id(), &a, &d, dexcheck::world::dex);
        assert!(r.ok(), "plain: {:?}", r);
        X { w, mks, users, refs, plain }
    }
    fn oo(&self, m: usize, u: usize) -> Option<abi::Oo> {
        let k = pda(&self.mks[m].market, &self.users[u].0).0;
        let a = self.w.get(&k)?;
        abi::oo(&a.data).ok()
    }
    /// Most requests are aimed at an account that can serve them.
    fn adapt(&self, st: &Step) -> Step {
        let mut st = st.clone();
        let (m, u) = (st.m as usize, st.u as usize);
        let has = |m: usize, u: usize| self.oo(m, u).map_or(false, |o| o.slots.iter().any(|s| s.is_some()));
        let open = |m: usize, u: usize| self.oo(m, u).is_some();
        let pick = |f: &dyn Fn(usize, usize) -> bool| (0..NU).map(|i| (m, (u + i) % NU)).chain((0..NU).map(|i| (1 - m, (u + i) % NU))).find(|(m, u)| f(*m, *u));
        let to = match st.rq {
            Rq::Cancel { nth } if nth < 3 => pick(&has),
            Rq::CancelCid(n) if n < 4 => pick(&has),
            Rq::Prune { limit, .. } if limit > 1 => pick(&has),
            Rq::New(_, p) if p > 2 => pick(&open),
            Rq::Settle { referrer } if referrer > 1 => pick(&open),
            Rq::Init { bump: 0 } if st.side == 0 => pick(&|m, u| !open(m, u)),
            _ => None,
        };
        if let Some((m, u)) = to {
            st.m = m as u8;
            st.u = u as u8;
        }
        st
    }
    /// The request as an honest client makes it (the exchange's own request,
    /// wrapped for the chain).
    fn honest(&self, st: &Step, chain: &[Mw]) -> (Vec<AccountMeta>, Vec<u8>) {
        let m = &self.mks[st.m as usize];
        let (user, coin, pc) = self.users[st.u as usize];
        let (oo, bump) = pda(&m.market, &user);
        let (ia, bi) = init_auth(&m.market);
        let has_pda = chain.contains(&Mw::Pda);
        // without the address stage the user's own plain account is used
        let (oo, owner) = if has_pda { (oo, user) } else { (self.plain, user) };
        let orders = |k: &Pubkey| self.w.get(k).and_then(|a| abi::oo(&a.data).ok()).map(|o| o.slots.iter().flatten().map(|s| (s.side, s.id)).collect::<Vec<_>>()).unwrap_or_default();
        let (metas, data) = match &st.rq {
            Rq::Init { .. } => {
                let mut a = vec![];
                if has_pda {
                    a.extend([ro(dex_id()), ro(system_program::ID)]);
                }
                a.extend([wr(oo), AccountMeta::new(owner, true), ro(m.market), ro(sysvar::rent::ID), ro(ia)]);
                (a, disc(15))
            }
            Rq::New(o, p) => {
                let side = if o.bid { Sd::Bid } else { Sd::Ask };
                let need = o.price.saturating_mul(o.qty).saturating_mul(m_lot(self, st.m));
                let b = match o.budget {
                    0 => need,
                    1 => need.saturating_mul(2).saturating_add(7),
                    2 => need / 2 + 1,
                    _ => need.saturating_add(1),
                };
                let order = Order {
                    side,
                    price: o.price,
                    qty: o.qty,
                    pc: b.max(1),
                    ot: [Ot::Limit, Ot::Ioc, Ot::PostOnly][o.ot as usize % 3],
                    st: [St::Decrement, St::CancelProvide, St::Abort][o.st as usize % 3],
                    limit: o.limit,
                    cid: o.cid,
                    max_ts: match o.ts {
                        0 => i64::MAX,
                        1 => self.w.clock_ts,
                        2 => self.w.clock_ts - 1,
                        _ => self.w.clock_ts + 1,
                    },
                };
                let fee = match o.fee {
                    0 => None,
                    1 => Some(key("srm", (st.m as usize * NU + st.u as usize) as u64)),
                    2 => Some(key("srm_user", st.u as u64)),
                    3 => Some(key("srm", (st.m as usize * NU + (st.u as usize + 1) % NU) as u64)),
                    _ => Some(user),
                };
                let payer = match (p, o.bid) {
                    (0, true) => coin,
                    (0, false) => pc,
                    (1, _) => self.users[(st.u as usize + 1) % NU].2,
                    (_, true) => pc,
                    (_, false) => coin,
                };
                let (a, _) = DexAct::New { oo, owner, payer, fee, o: order.clone(), legacy: false }.ix(m);
                let mut d = disc(10);
                enc_order(&mut d, &order, o.legacy);
                (a, d)
            }
            Rq::Cancel { nth } => {
                let os = orders(&oo);
                let (side, id) = if os.is_empty() { (Sd::Bid, 77) } else { os[*nth as usize % os.len()] };
                DexAct::Cancel { oo, owner, side, id }.ix(m)
            }
            Rq::CancelCid(n) => {
                let cids: Vec<u64> = self.w.get(&oo).and_then(|a| abi::oo(&a.data).ok()).map(|o| o.slots.iter().flatten().map(|s| s.cid).collect()).unwrap_or_default();
                let cid = if cids.is_empty() || *n == 5 { *n } else { cids[*n as usize % cids.len()] };
                DexAct::CancelCid { oo, owner, cid }.ix(m)
            }
            Rq::Settle { referrer } => {
                let r = match referrer {
                    1 => self.refs[1],
                    2 => self.refs[2],
                    3 => self.refs[3],
                    4 => pc,
                    5 => self.users[(self.users.iter().position(|x| x.0 == user).unwrap_or(0) + 1) % NU].2,
                    _ => self.refs[0],
                };
                DexAct::Settle { oo, owner, coin, pc, referrer: Some(r) }.ix(m)
            }
            Rq::Close(d) => {
                let dest = match d {
                    0 => user,
                    1 => self.users[(st.u as usize + 1) % NU].0,
                    _ => key("fresh", 0),
                };
                DexAct::CloseOo { oo, owner, dest }.ix(m)
            }
            Rq::Consume { limit, perm, shown } => {
                let mut given: Vec<Pubkey> = (0..NU).map(|u| pda(&m.market, &self.users[u].0).0).collect();
                given.push(self.plain);
                let mut i = 0;
                given.retain(|_| {
                    i += 1;
                    shown >> (i - 1) & 1 == 1
                });
                given.retain(|k| self.w.get(k).map_or(false, |a| a.owner == dex_id()));
                DexAct::Consume { given, limit: *limit, auth: if *perm { Some(m.crank_auth) } else { None } }.ix(m)
            }
            Rq::Prune { limit, signed } => {
                let (mut a, d) = DexAct::Prune { oo, owner, limit: *limit, auth: m.prune_auth }.ix(m);
                a[3].is_signer = *signed;
                (a, d)
            }
            Rq::Other(which, junk) => {
                let order = Order { side: Sd::Bid, price: 3, qty: 2, pc: 1000, ot: Ot::Limit, st: St::Decrement, limit: 5, cid: 1, max_ts: i64::MAX };
                match which {
                    0 => DexAct::Take { signer: user, coin, pc, fee: None, o: order, min_coin: 0, min_pc: 0 }.ix(m),
                    1 => DexAct::Match { limit: 3 }.ix(m),
                    2 => DexAct::Replace { oo, owner, payer: pc, fee: None, os: vec![order], single: junk.len() % 2 == 0 }.ix(m),
                    3 => DexAct::CancelBatch { oo, owner, cids: vec![1, 2] }.ix(m),
                    4 => DexAct::Sweep { to: pc }.ix(m),
                    5 => DexAct::Disable.ix(m),
                    _ => {
                        let (a, _) = DexAct::Cancel { oo, owner, side: Sd::Bid, id: 1 }.ix(m);
                        (a, junk.clone())
                    }
                }
            }
        };
        let mut ms = vec![ro(dex_id())];
        let mut d = vec![];
        for s in chain {
            match s {
                Mw::Pda => match st.rq {
                    Rq::Init { bump: b } => d.extend([0, if b == 0 { bump } else { b }, bi]),
                    _ => d.push(1),
                },
                Mw::Probe(a) => {
                    d.push(7);
                    if a.pays() {
                        ms.extend([wr(till_wallet(0)), wr(till_wallet(1)), ro(till().0), ro(spl_token::ID)]);
                    }
                    if *a == chain::Act::Strip {
                        ms.push(ro(key("filler", 0)));
                    }
                }
                _ => {}
            }
        }
        ms.extend(metas);
        d.extend(data);
        (ms, d)
    }
    fn cand(&self, i: u8) -> Pubkey {
        let m = &self.mks[(i as usize / 20) % 2];
        let all = [
            self.users[0].0,
            self.users[1].0,
            self.users[2].0,
            pda(&m.market, &self.users[0].0).0,
            pda(&m.market, &self.users[1].0).0,
            pda(&m.market, &self.users[2].0).0,
            self.users[0].1,
            self.users[1].2,
            self.users[2].2,
            m.market,
            self.plain,
            dex_id(),
            spl_token::ID,
            self.refs[0],
            self.refs[1],
            self.refs[2],
            m.oo_auth,
            m.bids,
            m.pc_vault,
            key("nobody", 0),
        ];
        all[i as usize % 20]
    }
    fn twist(&self, t: &Twist, ms: &mut Vec<AccountMeta>, d: &mut Vec<u8>) {
        let n = ms.len().max(1);
        let at = |i: &u8| *i as usize % n;
        if ms.is_empty() {
            return;
        }
        match t {
            Twist::Unsign(i) => {
                // most indices mean the one that signs
                let i = if *i < 10 { ms.iter().position(|m| m.is_signer).unwrap_or(0) } else { at(i) };
                ms[i].is_signer = false
            }
            Twist::ReadOnly(i) => ms[at(i)].is_writable = false,
            Twist::Replace(i, c) => ms[at(i)].pubkey = self.cand(*c),
            Twist::Swap(i, j) => {
                let (a, b) = (ms[at(i)].pubkey, ms[at(j)].pubkey);
                ms[at(i)].pubkey = b;
                ms[at(j)].pubkey = a;
            }
            Twist::Same(i, j) => ms[at(i)].pubkey = ms[at(j)].pubkey,
            Twist::Drop(i) => {
                ms.remove(at(i));
            }
            Twist::Truncate(k) => ms.truncate(*k as usize),
            Twist::Extra(c) => ms.push(ro(self.cand(*c))),
            Twist::Set(p, v) => {
                let l = d.len();
                if l > 0 {
                    d[*p as usize % l] = *v
                }
            }
            Twist::Cut(k) => d.truncate(*k as usize),
            Twist::OtherUser(u) => {
                if let Some(i) = ms.iter().position(|m| m.is_signer) {
                    ms[i].pubkey = self.users[*u as usize].0;
                }
            }
        }
    }
}
fn m_lot(x: &X, m: u8) -> u64 {
    abi::market(x.w.data(&x.mks[m as usize].market)).map(|m| m.pc_lot).unwrap_or(1)
}
fn norm(w: &World) -> BTreeMap<Pubkey, &Acct> {
    w.accts.iter().filter(|a| a.lamports != 0 || !a.data.is_empty()).map(|a| (a.key, a)).collect()
}

pub fn check(c: &Case, prop: &str) -> Result<Report, Violation> {
    let mut rep = Report::default();
    svm::register_program(dex_id(), dexcheck::world::dex);
    let mut x = X::new(c);
    CHAIN.with(|h| *h.borrow_mut() = vec![Mw::Pda]);
    for i in 0..6u8 {
        if c.ready >> i & 1 == 1 {
            let st = Step { m: i / 3, u: i % 3, rq: Rq::Init { bump: 0 }, twist: vec![], side: 0 };
            let (ms, d) = x.honest(&st, &[Mw::Pda]);
            let r = x.w.exec_raw(&proxy_id(), &ms, &d, proxy);
            // the last user cannot afford two
            ensure!(r.ok() || i == 5 || prop == "C35", "refused:init", "an account could not be created: {:?}", r);
        }
    }
    CHAIN.with(|h| *h.borrow_mut() = c.chain.clone());
    for st in &c.steps {
        let st = &x.adapt(st);
        let user = x.users[st.u as usize];
        let oo = pda(&x.mks[st.m as usize].market, &user.0).0;
        match st.side {
            1 => {
                if x.w.get(&oo).is_none() {
                    sys(&mut x.w, oo, if st.u == 0 { 1_000 } else { 1 << 30 });
                }
            }
            2 | 3 => {
                let d = if st.side == 2 { key("stranger", 0) } else { oo };
                for k in [user.1, user.2] {
                    x.w.edit_token(&k, |t| {
                        t.delegate = Some(d).into();
                        t.delegated_amount = 5;
                    });
                }
            }
            _ => {}
        }
        let (mut ms, mut d) = x.honest(st, &c.chain);
        for t in &st.twist {
            x.twist(t, &mut ms, &mut d);
        }
        let want = interpret(&x.w, &ms, &d, &c.chain);
        let before = x.w.accts.clone();
        NOTES.with(|n| n.borrow_mut().clear());
        let r = x.w.exec_raw(&proxy_id(), &ms, &d, proxy);
        let notes = NOTES.with(|n| n.borrow().clone());
        rep.evals += 1;
        rep.label(match (want.kind, r.ok()) {
            ("init", true) => "init ok",
            ("new", true) => "new ok",
            ("cancel", true) => "cancel ok",
            ("cancel_cid", true) => "cancel_cid ok",
            ("settle", true) => "settle ok",
            ("close", true) => "close ok",
            ("consume", true) => "consume ok",
            ("consume_perm", true) => "consume_perm ok",
            ("prune", true) => "prune ok",
            ("fallback", true) => "fallback ok",
            (_, true) => "other ok",
            ("init", _) => "init refused",
            ("new", _) => "new refused",
            ("cancel", _) => "cancel refused",
            ("settle", _) => "settle refused",
            ("close", _) => "close refused",
            ("consume", _) => "consume refused",
            ("prune", _) => "prune refused",
            _ => "other refused",
        });
        let kind = want.kind;
        match (&want.after, r.ok()) {
            (None, true) => {
                bad!(format!("accepted:{}", kind), "a {} request that must be refused was accepted: {:?} chain {:?} accounts {:?} data {:?}", kind, st, c.chain, ms, d);
            }
            (Some(_), false) => {
                // C35 is about refusals; a wrong refusal is C36's and C38's business
                if prop != "C35" {
                    bad!(format!("refused:{}", kind), "a {} request that must be accepted was refused ({:?}): {:?} chain {:?}", kind, r, st, c.chain);
                }
            }
            (None, false) => {
                ensure!(before == x.w.accts, "refused-changed", "refused request changed accounts");
                if prop == "C35" && !st.twist.is_empty() {
                    rep.hit(&(kind, &st.twist, c.chain.len()));
                }
            }
            (Some(w2), true) => {
                let (a, b) = (norm(&x.w), norm(w2));
                if a != b {
                    let k = a.iter().find(|(k, v)| b.get(*k) != Some(*v)).map(|(k, _)| *k).or_else(|| b.keys().find(|k| !a.contains_key(*k)).copied()).unwrap();
                    bad!(format!("effect:{}", kind), "a {} request {:?} left account {} as {:?}, made directly it would be {:?} (chain {:?})", kind, st, k, a.get(&k), b.get(&k), c.chain);
                }
                if prop == "C36" && before != x.w.accts {
                    rep.hit(&(kind, format!("{:?}", st.rq), &before.iter().zip(&x.w.accts).filter(|(a, b)| a != b).map(|(a, _)| a.key).collect::<Vec<_>>()));
                }
                // approvals: never more than the order may cost, and none left
                for ix in &x.w.last_cpis {
                    if ix.program_id == spl_token::ID && ix.data.first() == Some(&4) {
                        let n = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
                        ensure!(n <= want.approve, "approval", "{:?}: the address was approved for {} where the order may cost {}", st, n, want.approve);
                    }
                }
                ensure!(want.relayed == x.w.last_cpis.iter().any(|i| i.program_id == dex_id()), "relay", "{:?}: relayed {}", st, !want.relayed);
                if kind == "fallback" {
                    ensure!(x.w.last_cpis.is_empty(), "relay", "{:?}: the proxy called another program for a request it does not carry", st);
                }
                if prop == "C38" {
                    // payments ahead of the exchange stay ahead of it
                    let at = x.w.last_cpis.iter().position(|i| i.program_id == dex_id());
                    if let Some(at) = at {
                        let amounts = |s: &[solana_program::instruction::Instruction]| -> Vec<u64> {
                            s.iter().filter(|i| i.program_id == spl_token::ID && i.data.first() == Some(&3) && i.accounts[2].pubkey == till().0).map(|i| u64::from_le_bytes(i.data[1..9].try_into().unwrap())).collect()
                        };
                        let (mut pre, mut post) = (vec![], vec![]);
                        for m in &c.chain {
                            if let Mw::Probe(chain::Act::Pay { pre: a, post: b }) = m {
                                pre.extend((*a > 0).then_some(*a as u64));
                                post.extend((*b > 0).then_some(*b as u64));
                            }
                        }
                        ensure!(amounts(&x.w.last_cpis[..at]) == pre, "order:pre", "{:?}: payments before the exchange {:?}, expected {:?}", st, amounts(&x.w.last_cpis[..at]), pre);
                        ensure!(amounts(&x.w.last_cpis[at..]) == post, "order:post", "{:?}: payments after the exchange {:?}, expected {:?}", st, amounts(&x.w.last_cpis[at..]), post);
                    }
                }
            }
        }
        if prop == "C38" {
            ensure!(notes == want.notes, "hooks", "{:?} chain {:?}: the hooks saw {:?}, expected {:?}", st, c.chain, notes, want.notes);
            if c.chain.len() >= 2 {
                rep.hit(&(kind, &c.chain, r.ok()));
            }
        }
        // a refused request that should have been accepted: keep going from here
    }
    let _ = (si(key("x", 0)), x.oo(0, 0));
    Ok(rep)
}
