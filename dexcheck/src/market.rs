//! Market creation (C20) and fee-tier selection (C11).
use crate::abi::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::{instruction::AccountMeta, program_pack::Pack, pubkey::Pubkey, sysvar};
use svm::harness::{Report, Violation};
use svm::{bad, ensure, key, near, Acct, World};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Flaw {
    /// account 0..5 belongs to another program
    Owner(u8),
    /// account 0..5 has non-zero bytes in its head / first word / tail
    Dirty(u8, u8),
    /// account 1..9 not rent exempt
    Rent(u8),
    /// account length off by this many bytes
    Length(u8, i8),
    ReqQueueEmpty,
    EventQueue(u8),
    Book(bool, u8),
    MarketSize,
    VaultOwner(bool, u16),
    VaultDelegate(bool, u16),
    VaultCloseAuthority(bool, u16),
    VaultMint(bool, u16),
    VaultUninit(bool),
    VaultProgram(bool),
    VaultLen(bool),
    MintUninit(bool),
    MintProgram(bool),
    SwapVaults,
    Nonce(u64),
    TooFewAccounts,
    TooManyAccounts,
    Again(u8),
    ReadOnly(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InitCase {
    pub cfg: Cfg,
    pub fee_bps: u16,
    pub dust: u64,
    pub req_extra: u8,
    pub vault_amounts: (u64, u64),
    pub frozen_like: bool,
    pub flaw: Option<Flaw>,
}

fn near_or() -> impl Strategy<Value = u16> {
    prop_oneof![2 => Just(300u16), 3 => 0u16..256, 1 => 256u16..300]
}
/// somebody else, or the same key but for one bit
fn who(k: &Pubkey, n: u16) -> Pubkey {
    if n < 256 {
        near(k, n as u64)
    } else {
        key("stranger", 9)
    }
}
/// anybody: the owner itself included
fn own_or(k: &Pubkey, n: u16) -> Pubkey {
    if (256..300).contains(&n) {
        *k
    } else {
        who(k, n)
    }
}

pub fn init_case() -> impl Strategy<Value = InitCase> {
    let cfg = crate::ops::cfg_strategy(crate::ops::Profile { perm: &[0, 1, 2, 3], ..crate::ops::BASE });
    let b = any::<bool>;
    let flaw = prop_oneof![
        (0u8..5).prop_map(Flaw::Owner),
        (0u8..5, 0u8..3).prop_map(|(a, b)| Flaw::Dirty(a, b)),
        (1u8..9).prop_map(Flaw::Rent),
        (0u8..5, prop_oneof![-7i8..0, 1i8..8]).prop_map(|(a, d)| Flaw::Length(a, d)),
        Just(Flaw::ReqQueueEmpty),
        prop_oneof![Just(0u8), 0u8..128, Just(127u8)].prop_map(Flaw::EventQueue),
        (b(), prop_oneof![Just(0u8), 0u8..=200, Just(200u8)]).prop_map(|(x, n)| Flaw::Book(x, n)),
        Just(Flaw::MarketSize),
        (b(), near_or()).prop_map(|(p, n)| Flaw::VaultOwner(p, n)),
        (b(), near_or()).prop_map(|(p, n)| Flaw::VaultDelegate(p, n)),
        (b(), near_or()).prop_map(|(p, n)| Flaw::VaultCloseAuthority(p, n)),
        (b(), near_or()).prop_map(|(p, n)| Flaw::VaultMint(p, n)),
        b().prop_map(Flaw::VaultUninit),
        b().prop_map(Flaw::VaultProgram),
        b().prop_map(Flaw::VaultLen),
        b().prop_map(Flaw::MintUninit),
        b().prop_map(Flaw::MintProgram),
        Just(Flaw::SwapVaults),
        prop_oneof![0u64..300, any::<u64>()].prop_map(Flaw::Nonce),
        Just(Flaw::TooFewAccounts),
        Just(Flaw::TooManyAccounts),
        (0u8..5).prop_map(Flaw::Again),
        (0u8..5).prop_map(Flaw::ReadOnly),
    ];
    (cfg, any::<u16>(), any::<u64>(), 0u8..4, (0u64..1000, 0u64..1000), b(), prop_oneof![1 => Just(None), 3 => flaw.prop_map(Some)])
        .prop_map(|(cfg, fee_bps, dust, req_extra, vault_amounts, frozen_like, flaw)| InitCase { cfg, fee_bps, dust, req_extra, vault_amounts, frozen_like, flaw })
}

pub fn check_init(c: &InitCase) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = World::new();
    let (cm, pm) = (key("coin_mint", 0), key("pc_mint", 0));
    w.add_mint(cm, 1 << 63, Some(key("issuer", 0)));
    w.add_mint(pm, 1 << 63, Some(key("issuer", 1)));
    let m = Env::lay_market(&mut w, 0, &c.cfg, key("market", 0), cm, pm);
    let resize = |w: &mut World, k: &Pubkey, len: usize| {
        let a = w.get_mut(k).unwrap();
        a.data.resize(len, 0);
        a.lamports = rent(len);
    };
    resize(&mut w, &m.req_q, wpad(32 + (1 + c.req_extra as usize) * REQUEST_LEN));
    w.edit_token(&m.coin_vault, |t| t.amount = c.vault_amounts.0);
    w.edit_token(&m.pc_vault, |t| t.amount = c.vault_amounts.1);
    let (mut metas, _) = Env::init_market_ix(&m, &c.cfg);
    let mut nonce = m.nonce;
    let accs: Vec<Pubkey> = metas.iter().map(|x| x.pubkey).collect();
    let vault = |p: bool| if p { m.pc_vault } else { m.coin_vault };
    let mint = |p: bool| if p { pm } else { cm };
    let mut valid = true;
    if let Some(f) = &c.flaw {
        valid = false;
        match f {
            Flaw::Owner(i) => w.get_mut(&accs[*i as usize]).unwrap().owner = key("evil-prog", 1),
            Flaw::Dirty(i, at) => {
                let d = &mut w.get_mut(&accs[*i as usize]).unwrap().data;
                let n = d.len();
                match at {
                    0 => d[2] = 1,
                    1 => d[5 + 3] = 1,
                    _ => d[n - 3] = 1,
                }
            }
            Flaw::Rent(i) => w.get_mut(&accs[*i as usize]).unwrap().lamports = rent(w.data(&accs[*i as usize]).len()) - 1,
            Flaw::Length(i, d) => {
                let k = accs[*i as usize];
                let n = (w.data(&k).len() as i64 + *d as i64) as usize;
                resize(&mut w, &k, n);
            }
            Flaw::ReqQueueEmpty => resize(&mut w, &m.req_q, wpad(32 + REQUEST_LEN - 8)),
            Flaw::EventQueue(n) => resize(&mut w, &m.event_q, wpad(32 + (*n as usize).min(127) * EVENT_LEN + 80)),
            Flaw::Book(b, n) => resize(&mut w, if *b { &m.bids } else { &m.asks }, wpad(8 + 32 + *n as usize * NODE_LEN + 64)),
            Flaw::MarketSize => {
                let n = if c.cfg.perm == 0 { MARKET_V2_LEN } else { MARKET_V1_LEN };
                resize(&mut w, &m.market, n)
            }
            Flaw::VaultOwner(p, n) => w.edit_token(&vault(*p), |t| t.owner = who(&t.owner, *n)),
            Flaw::VaultDelegate(p, n) => w.edit_token(&vault(*p), |t| {
                t.delegate = solana_program::program_option::COption::Some(own_or(&t.owner, *n));
                t.delegated_amount = (*n % 3) as u64;
            }),
            Flaw::VaultCloseAuthority(p, n) => w.edit_token(&vault(*p), |t| t.close_authority = solana_program::program_option::COption::Some(own_or(&t.owner, *n))),
            Flaw::VaultMint(p, n) => {
                let other = who(&mint(*p), *n);
                w.add_mint(other, 0, None);
                w.edit_token(&vault(*p), |t| t.mint = other);
            }
            Flaw::VaultUninit(p) => w.get_mut(&vault(*p)).unwrap().data[0x6c] = 0,
            Flaw::VaultProgram(p) => w.get_mut(&vault(*p)).unwrap().owner = key("evil-prog", 1),
            Flaw::VaultLen(p) => {
                let k = vault(*p);
                resize(&mut w, &k, spl_token::state::Account::LEN + 1)
            }
            Flaw::MintUninit(p) => w.get_mut(&mint(*p)).unwrap().data[0x2d] = 0,
            Flaw::MintProgram(p) => w.get_mut(&mint(*p)).unwrap().owner = key("evil-prog", 1),
            Flaw::SwapVaults => metas.swap(5, 6),
            Flaw::Nonce(n) => {
                nonce = *n;
                valid = *n == m.nonce;
            }
            Flaw::TooFewAccounts => metas.truncate(9),
            Flaw::TooManyAccounts => {
                while metas.len() < 14 {
                    metas.push(AccountMeta::new_readonly(key("stranger", metas.len() as u64), false));
                }
            }
            Flaw::Again(_) => {}
            Flaw::ReadOnly(i) => metas[*i as usize].is_writable = false,
        }
    }
    let mut d = disc(0);
    d.extend_from_slice(&c.cfg.coin_lot.to_le_bytes());
    d.extend_from_slice(&c.cfg.pc_lot.to_le_bytes());
    d.extend_from_slice(&c.fee_bps.to_le_bytes());
    d.extend_from_slice(&nonce.to_le_bytes());
    d.extend_from_slice(&c.dust.to_le_bytes());
    if let Some(Flaw::Again(i)) = &c.flaw {
        // one of the accounts already serves another market
        let other = Env::lay_market(&mut w, 7, &c.cfg, key("market", 7), cm, pm);
        let (om, od) = Env::init_market_ix(&other, &c.cfg);
        let r = w.exec_raw(&pid(), &om, &od, dex);
        ensure!(r.ok(), "init:refused", "a well-formed market was refused: {:?}", r);
        metas[*i as usize].pubkey = om[*i as usize].pubkey;
    }
    let before: Vec<Acct> = w.accts.clone();
    let r = w.exec_raw(&pid(), &metas, &d, dex);
    rep.evals = 1;
    rep.label(if r.ok() { "accepted" } else { "refused" });
    rep.hit(&format!("{:?}", c.flaw));
    ensure!(r.ok() == valid, if valid { "init:refused" } else { "init:accepted" }, "market creation with {:?} ({:?}) gave {:?}", c.flaw, c, r);
    if !r.ok() {
        return Ok(rep);
    }
    let mk = market(w.data(&m.market)).map_err(|e| Violation::new("init:market", e))?;
    let mut flags = F_INIT | F_MARKET;
    if c.cfg.perm > 0 {
        flags |= F_PERM;
    }
    if c.cfg.perm > 2 {
        flags |= F_CRANK;
    }
    let zero = Pubkey::default();
    let want = Mkt {
        flags,
        own: m.market,
        nonce,
        coin_mint: cm,
        pc_mint: pm,
        coin_vault: m.coin_vault,
        coin_dep: 0,
        coin_fees: 0,
        pc_vault: m.pc_vault,
        pc_dep: 0,
        pc_fees: 0,
        dust: c.dust,
        req_q: m.req_q,
        event_q: m.event_q,
        bids: m.bids,
        asks: m.asks,
        coin_lot: c.cfg.coin_lot,
        pc_lot: c.cfg.pc_lot,
        fee_bps: c.fee_bps as u64,
        rebates: 0,
        auth: if c.cfg.perm > 0 {
            Some((m.oo_auth, if c.cfg.perm > 1 { m.prune_auth } else { zero }, if c.cfg.perm > 2 { m.crank_auth } else { zero }))
        } else {
            None
        },
    };
    ensure!(mk == want, "init:market", "market record {:?}, expected {:?}", mk, want);
    let e = |r: Result<bool, String>, what: &str| -> Result<(), Violation> {
        match r {
            Ok(true) => Ok(()),
            Ok(false) => Err(Violation::new("init:state", format!("{} is not empty after creation", what))),
            Err(e) => Err(Violation::new("init:state", format!("{}: {}", what, e))),
        }
    };
    e(book(w.data(&m.bids), F_BIDS).map(|b| b.leaves.is_empty() && b.cap >= 201 + c.cfg.bids_extra as usize), "bids")?;
    e(book(w.data(&m.asks), F_ASKS).map(|b| b.leaves.is_empty() && b.cap >= 201 + c.cfg.asks_extra as usize), "asks")?;
    e(event_queue(w.data(&m.event_q)).map(|q| q.events.is_empty() && q.seq == 0 && q.head == 0), "event queue")?;
    e(req_queue(w.data(&m.req_q)).map(|q| q.count == 0 && q.seq == 0 && q.head == 0), "request queue")?;
    let five = [m.market, m.req_q, m.event_q, m.bids, m.asks];
    for a in &before {
        if !five.contains(&a.key) {
            ensure!(w.get(&a.key) == Some(a), "init:bystander", "market creation changed {}", a.key);
        }
    }
    // none of the five can be made into a market again
    for i in 0..5 {
        let fresh = Env::lay_market(&mut w, 20 + i, &c.cfg, key("market", 20 + i), cm, pm);
        let (mut fm, fd) = Env::init_market_ix(&fresh, &c.cfg);
        fm[i as usize].pubkey = five[i as usize];
        let r = w.exec_raw(&pid(), &fm, &fd, dex);
        rep.evals += 1;
        ensure!(!r.ok(), "init:reused", "account {} of a live market was accepted for another market", i);
        if i == 0 {
            let r = w.exec_raw(&pid(), &metas, &d, dex);
            ensure!(!r.ok(), "init:twice", "the market was initialised twice");
        }
    }
    Ok(rep)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FeeAcc {
    None,
    Srm,
    Msrm,
    OtherMint,
    /// an SRM / MSRM account of somebody else
    Foreign(bool),
    /// owner, or mint, one bit off
    NearOwner(u8),
    NearMint(u8, bool),
    WrongLen,
    WrongProgram,
    Uninit,
    /// another market's / program's account
    Market,
    /// SRM account on which the owner granted a delegation
    Delegated,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TierCase {
    pub stable: u8,
    pub amount: u64,
    pub acc: FeeAcc,
    pub price: u64,
    pub qty: u64,
    pub pc_lot: u64,
    pub bid: bool,
    pub via: u8,
}

pub fn tier_case() -> impl Strategy<Value = TierCase> {
    let k = 1_000_000u64;
    let amount = prop_oneof![
        1 => Just(0u64),
        2 => Just(1u64),
        6 => (0usize..5, -1i64..=1).prop_map(move |(i, d)| ([100u64, 1_000, 10_000, 100_000, 1_000_000][i] * k).wrapping_add(d as u64)),
        2 => 0u64..2_000_000 * k,
        1 => any::<u64>(),
        1 => (0usize..6).prop_map(move |i| [100u64, 1_000, 10_000, 100_000, 1_000_000, 99][i]),
    ];
    let acc = prop_oneof![
        2 => Just(FeeAcc::None),
        8 => Just(FeeAcc::Srm),
        8 => Just(FeeAcc::Msrm),
        2 => Just(FeeAcc::OtherMint),
        2 => any::<bool>().prop_map(FeeAcc::Foreign),
        2 => any::<u8>().prop_map(FeeAcc::NearOwner),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(n, m)| FeeAcc::NearMint(n, m)),
        1 => Just(FeeAcc::WrongLen),
        1 => Just(FeeAcc::WrongProgram),
        1 => Just(FeeAcc::Uninit),
        1 => Just(FeeAcc::Market),
        1 => Just(FeeAcc::Delegated),
    ];
    let amt = || prop_oneof![2 => 1u64..1000, 2 => 1u64..1_000_000, 1 => (0u32..28).prop_map(|b| 1u64 << b), 1 => Just(100_000u64), 1 => Just(2500u64)];
    (prop_oneof![4 => Just(0u8), 1 => 1u8..=6], amount, acc, amt(), amt(), prop_oneof![Just(1u64), 1u64..500], any::<bool>(), 0u8..4).prop_map(
        |(stable, amount, acc, price, qty, pc_lot, bid, via)| TierCase { stable, amount, acc, price, qty, pc_lot, bid, via },
    )
}

/// Hundred-thousandths, from the published schedule.
fn published(stable: bool, srm: u64, msrm: u64) -> u64 {
    if stable {
        return 10;
    }
    if msrm > 0 {
        return 30;
    }
    match srm {
        x if x >= 1_000_000_000_000 => 32,
        x if x >= 100_000_000_000 => 34,
        x if x >= 10_000_000_000 => 36,
        x if x >= 1_000_000_000 => 38,
        x if x >= 100_000_000 => 39,
        _ => 40,
    }
}

pub fn check_tier(c: &TierCase) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let cfg = Cfg {
        coin_lot: 1,
        pc_lot: c.pc_lot,
        perm: 0,
        evq_extra: 0,
        bids_extra: 0,
        asks_extra: 0,
        slop: 0,
        seq0: 0,
        head0: 0,
        stable: c.stable,
        price: c.price,
        srm: [0; 4],
        msrm: [0; 4],
        donate: (0, 0),
    };
    let mut env = Env::new(&cfg, false);
    let k = key("fee_acct", 0);
    let u = env.users[0].clone();
    let mk = env.users[1].clone();
    let (mint, owner) = match c.acc {
        FeeAcc::Msrm => (pk(MSRM), u.key),
        FeeAcc::OtherMint => (key("junk_mint", 0), u.key),
        FeeAcc::NearOwner(n) => (pk(SRM), near(&u.key, n as u64)),
        FeeAcc::NearMint(n, m) => (near(&pk(if m { MSRM } else { SRM }), n as u64), u.key),
        FeeAcc::Foreign(m) => (pk(if m { MSRM } else { SRM }), mk.key),
        _ => (pk(SRM), u.key),
    };
    env.w.add_token(k, mint, owner, c.amount);
    let mut fee = Some(k);
    let mut refused = false;
    match c.acc {
        FeeAcc::None => fee = None,
        FeeAcc::Foreign(_) | FeeAcc::NearOwner(_) => refused = true,
        FeeAcc::WrongLen => {
            env.w.get_mut(&k).unwrap().data.push(0);
            refused = true;
        }
        FeeAcc::WrongProgram => {
            env.w.get_mut(&k).unwrap().owner = key("evil-prog", 1);
            refused = true;
        }
        FeeAcc::Uninit => {
            env.w.get_mut(&k).unwrap().data[0x6c] = 0;
            refused = true;
        }
        FeeAcc::Market => {
            fee = Some(env.a.bids);
            refused = true;
        }
        FeeAcc::Delegated => env.w.edit_token(&k, |t| {
            t.delegate = solana_program::program_option::COption::Some(mk.key);
            t.delegated_amount = 1;
        }),
        _ => {}
    }
    let (srm, msrm) = match c.acc {
        FeeAcc::Srm | FeeAcc::Delegated => (c.amount, 0),
        FeeAcc::Msrm => (0, c.amount),
        _ => (0, 0),
    };
    let bps = published(c.stable > 0, srm, msrm);
    let gross = c.price as u128 * c.qty as u128 * c.pc_lot as u128;
    if gross >= 1 << 58 {
        return Ok(rep);
    }
    let mside = if c.bid { Sd::Ask } else { Sd::Bid };
    let ord = |side: Sd, pc: u64| Order { side, price: c.price, qty: c.qty, pc, ot: Ot::Limit, st: St::Decrement, limit: 65535, cid: 7, max_ts: i64::MAX };
    let maker = Act::New { oo: env.oos[1].0, owner: mk.key, payer: if c.bid { mk.coin } else { mk.pc }, fee: None, o: ord(mside, gross as u64), legacy: false };
    let r = env.exec(&maker);
    ensure!(r.ok(), "tier:maker", "maker refused {:?}", r);
    let budget = (gross * 2).max(10) as u64;
    let o = ord(mside.opp(), budget);
    let taker = match c.via {
        0 | 1 => Act::New { oo: env.oos[0].0, owner: u.key, payer: if c.bid { u.pc } else { u.coin }, fee, o, legacy: c.via == 1 },
        2 => Act::Replace { oo: env.oos[0].0, owner: u.key, payer: if c.bid { u.pc } else { u.coin }, fee, os: vec![o], single: c.amount % 2 == 0 },
        _ => Act::Take { signer: u.key, coin: u.coin, pc: u.pc, fee, o, min_coin: 0, min_pc: 0 },
    };
    let s0 = env.snap().map_err(|e| Violation::new("tier:unreadable", e))?;
    let r = env.exec(&taker);
    rep.evals = 1;
    rep.hit(&format!("{:?}", c));
    rep.label(if refused { "must be refused" } else { "must be charged" });
    ensure!(r.ok() != refused, if refused { "tier:accepted" } else { "tier:refused" }, "{:?}: {:?}", c, r);
    if refused {
        return Ok(rep);
    }
    let s1 = env.snap().map_err(|e| Violation::new("tier:unreadable", e))?;
    let fee_paid = s1.mkt.pc_fees as i128 + s1.mkt.rebates as i128 - s0.mkt.pc_fees as i128 - s0.mkt.rebates as i128;
    // the exact rational amount, rounded up; the program's 64-bit rate may be
    // below the exact rate by less than 2^-64
    let exact = gross * bps as u128;
    let hi = (exact + 99_999) / 100_000;
    let lo = if gross < 1 << 44 { hi } else { hi - 1 };
    if fee_paid < lo as i128 || fee_paid > hi as i128 {
        bad!("tier:fee", "{:?}: trade worth {} charged {}, the published rate {}e-5 gives {}", c, gross, fee_paid, bps, hi);
    }
    let rebate = s1.mkt.rebates - s0.mkt.rebates;
    ensure!(rebate as i128 == fee_paid / 5, "tier:rebate", "{:?}: fee {} set aside {} for the referrer", c, fee_paid, rebate);
    // what the taker got
    let tot = |s: &Snap| -> (i128, i128) {
        let a = s.oos[&env.oos[0].0].as_ref().unwrap();
        (s.tokens[&u.coin] as i128 + a.coin_total as i128, s.tokens[&u.pc] as i128 + a.pc_total as i128)
    };
    let (a, b) = (tot(&s0), tot(&s1));
    let sgn = if c.bid { 1 } else { -1 };
    ensure!(b.0 - a.0 == sgn * c.qty as i128, "tier:coin", "{:?}: taker's coin changed by {}", c, b.0 - a.0);
    ensure!(b.1 - a.1 == -sgn * gross as i128 - fee_paid, "tier:pc", "{:?}: taker's pc changed by {}, trade {} fee {}", c, b.1 - a.1, gross, fee_paid);
    Ok(rep)
}
#[allow(unused)]
fn _r() -> Pubkey {
    sysvar::rent::ID
}
