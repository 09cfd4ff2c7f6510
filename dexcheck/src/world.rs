//! A generated exchange: one market under test (A), a second market (B) for
//! cross-market attempts, users, wallets and open-orders accounts; plus
//! instruction encoders written from the wire format, independent of the
//! program's own builders.
use crate::abi::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, pubkey::Pubkey, rent::Rent, sysvar};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use svm::{key, Acct, Outcome, World};

pub const SRM: &str = "SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt";
pub const MSRM: &str = "MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L";
pub const DISABLER: &str = "5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V";
pub const SWEEPER: &str = "DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE";
pub const STABLE_MARKETS: [&str; 6] = [
    "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS",
    "5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z",
    "EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ",
    "8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m",
    "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62",
    "CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5",
];
pub fn pk(s: &str) -> Pubkey {
    Pubkey::from_str(s).unwrap()
}

pub fn dex(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // what the program's own entrypoint does, minus logging
    Ok(serum_dex::state::State::process(pid, accs, data)?)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub coin_lot: u64,
    pub pc_lot: u64,
    /// 0 open market, 1 open-orders authority, 2 + prune authority, 3 + crank authority
    pub perm: u8,
    /// event queue capacity above the minimum of 128
    pub evq_extra: u16,
    /// book node capacity above the minimum of 201, bids / asks
    pub bids_extra: u16,
    pub asks_extra: u16,
    /// 8-byte words of slack after the last whole record (event queue, bids, asks)
    pub slop: u8,
    /// past activity: order sequence number and event queue position
    pub seq0: u64,
    pub head0: u16,
    /// 0 ordinary market, 1..=6 one of the listed stable markets
    pub stable: u8,
    pub price: u64,
    pub srm: [u64; 4],
    pub msrm: [u64; 4],
    /// tokens sent to the vaults directly
    pub donate: (u64, u64),
}

#[derive(Clone)]
pub struct Mk {
    pub market: Pubkey,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_vault: Pubkey,
    pub pc_vault: Pubkey,
    pub coin_mint: Pubkey,
    pub pc_mint: Pubkey,
    pub vault_signer: Pubkey,
    pub nonce: u64,
    pub oo_auth: Pubkey,
    pub prune_auth: Pubkey,
    pub crank_auth: Pubkey,
    pub perm: u8,
}

#[derive(Clone)]
pub struct User {
    pub key: Pubkey,
    pub coin: Pubkey,
    pub pc: Pubkey,
    pub srm: Pubkey,
    pub msrm: Pubkey,
}

pub const N_USERS: usize = 5;
/// the user with little money
pub const POOR: usize = 3;
/// the user whose key is that of its own open-orders account (a program address)
pub const SELF_OWNED: usize = 4;
pub const N_OOS: usize = 8;
/// the account nobody opens beforehand
pub const UNOPENED: usize = 6;

#[derive(Clone)]
pub struct Env {
    pub w: World,
    pub pid: Pubkey,
    pub a: Mk,
    pub b: Option<Mk>,
    pub users: Vec<User>,
    /// open-orders accounts of market A: (key, owner index)
    pub oos: Vec<(Pubkey, usize)>,
    /// open-orders accounts of market B, one per user
    pub oos_b: Vec<(Pubkey, usize)>,
    pub cfg: Cfg,
    pub donated: (u64, u64),
}

pub fn rent(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}
/// The address the exchange is deployed at (set once by checks that need another).
pub static PID: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
pub fn pid() -> Pubkey {
    *PID.get_or_init(|| key("serum-dex-prog", 1))
}

thread_local! {
    static SIGNERS: RefCell<HashMap<Pubkey, (u64, Pubkey)>> = RefCell::new(HashMap::new());
}
pub fn vault_signer_for(market: &Pubkey) -> (u64, Pubkey) {
    SIGNERS.with(|s| {
        *s.borrow_mut().entry(*market).or_insert_with(|| {
            (0u64..)
                .find_map(|n| Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], &pid()).ok().map(|k| (n, k)))
                .unwrap()
        })
    })
}

pub fn wpad(bytes: usize) -> usize {
    5 + bytes + 7
}

impl Env {
    pub fn dex_acct(w: &mut World, k: Pubkey, len: usize) {
        w.add(Acct { key: k, owner: pid(), lamports: rent(len), data: vec![0; len], executable: false });
    }

    /// Lays out the accounts of a market (not yet initialised).
    pub fn lay_market(w: &mut World, tag: u64, cfg: &Cfg, market: Pubkey, coin_mint: Pubkey, pc_mint: Pubkey) -> Mk {
        let (nonce, vs) = vault_signer_for(&market);
        let m = Mk {
            market,
            req_q: key("req_q", tag),
            event_q: key("event_q", tag),
            bids: key("bids", tag),
            asks: key("asks", tag),
            coin_vault: key("coin_vault", tag),
            pc_vault: key("pc_vault", tag),
            coin_mint,
            pc_mint,
            vault_signer: vs,
            nonce,
            oo_auth: key("oo_auth", tag),
            prune_auth: key("prune_auth", tag),
            crank_auth: key("crank_auth", tag),
            perm: cfg.perm,
        };
        let slop = (cfg.slop as usize) * 8;
        Self::dex_acct(w, m.market, if cfg.perm == 0 { MARKET_V1_LEN } else { MARKET_V2_LEN });
        Self::dex_acct(w, m.req_q, wpad(32 + 2 * REQUEST_LEN));
        Self::dex_acct(w, m.event_q, wpad(32 + (128 + cfg.evq_extra as usize) * EVENT_LEN + slop));
        Self::dex_acct(w, m.bids, wpad(8 + 32 + (201 + cfg.bids_extra as usize) * NODE_LEN + slop));
        Self::dex_acct(w, m.asks, wpad(8 + 32 + (201 + cfg.asks_extra as usize) * NODE_LEN + slop));
        w.add_token(m.coin_vault, coin_mint, vs, 0);
        w.add_token(m.pc_vault, pc_mint, vs, 0);
        for k in [m.oo_auth, m.prune_auth, m.crank_auth] {
            w.add(Acct { key: k, owner: solana_program::system_program::ID, lamports: 1_000_000, data: vec![], executable: false });
        }
        m
    }

    pub fn init_market_ix(m: &Mk, cfg: &Cfg) -> (Vec<AccountMeta>, Vec<u8>) {
        let mut d = vec![0u8];
        d.extend_from_slice(&0u32.to_le_bytes());
        d.extend_from_slice(&cfg.coin_lot.to_le_bytes());
        d.extend_from_slice(&cfg.pc_lot.to_le_bytes());
        d.extend_from_slice(&0u16.to_le_bytes());
        d.extend_from_slice(&m.nonce.to_le_bytes());
        d.extend_from_slice(&100u64.to_le_bytes());
        let mut a = vec![wr(m.market), wr(m.req_q), wr(m.event_q), wr(m.bids), wr(m.asks)];
        a.extend([ro(m.coin_vault), ro(m.pc_vault), ro(m.coin_mint), ro(m.pc_mint), ro(sysvar::rent::ID)]);
        for (lvl, k) in [(1, m.oo_auth), (2, m.prune_auth), (3, m.crank_auth)] {
            if m.perm >= lvl {
                a.push(ro(k));
            }
        }
        (a, d)
    }

    pub fn new(cfg: &Cfg, with_b: bool) -> Env {
        let mut w = World::new();
        let pid = pid();
        let (cm, pm) = (key("coin_mint", 0), key("pc_mint", 0));
        w.add_mint(cm, 1 << 63, Some(key("issuer", 0)));
        w.add_mint(pm, 1 << 63, Some(key("issuer", 1)));
        for s in [DISABLER, SWEEPER] {
            w.add(Acct { key: pk(s), owner: solana_program::system_program::ID, lamports: 1, data: vec![], executable: false });
        }
        let users: Vec<User> = (0..N_USERS as u64)
            .map(|i| {
                let me = if i as usize == SELF_OWNED { key("open_orders", N_OOS as u64 - 1) } else { key("user", i) };
                let u = User { key: me, coin: key("coin_wallet", i), pc: key("pc_wallet", i), srm: key("srm_acct", i), msrm: key("msrm_acct", i) };
                if i as usize != SELF_OWNED {
                    w.add(Acct { key: u.key, owner: solana_program::system_program::ID, lamports: 1_000_000_000, data: vec![], executable: false });
                }
                let bal = if i as usize == POOR { 50_000 } else { 1u64 << 60 };
                w.add_token(u.coin, cm, u.key, bal);
                w.add_token(u.pc, pm, u.key, bal);
                w.add_token(u.srm, pk(SRM), u.key, cfg.srm[i as usize % 4]);
                w.add_token(u.msrm, pk(MSRM), u.key, cfg.msrm[i as usize % 4]);
                u
            })
            .collect();
        // wallets belonging to nobody in particular: referrers, fee receiver
        for i in 0..3 {
            w.add_token(key("ref_pc", i), pm, key("referrer", i), 0);
        }
        let market = if cfg.stable == 0 { key("market", 0) } else { pk(STABLE_MARKETS[(cfg.stable as usize - 1) % 6]) };
        let a = Self::lay_market(&mut w, 0, cfg, market, cm, pm);
        let mut oos = vec![];
        for i in 0..N_OOS as u64 {
            let k = key("open_orders", i);
            Self::dex_acct(&mut w, k, OO_LEN);
            oos.push((k, if i as usize == N_OOS - 1 { SELF_OWNED } else { i as usize % SELF_OWNED }));
        }
        let mut env = Env { w, pid, a, b: None, users, oos, oos_b: vec![], cfg: cfg.clone(), donated: cfg.donate };
        let (am, d) = Self::init_market_ix(&env.a, cfg);
        let r = env.w.exec_raw(&pid, &am, &d, dex);
        assert!(r.ok(), "market A init: {:?}", r);
        if with_b {
            let b = Self::lay_market(&mut env.w, 1, cfg, key("market", 1), cm, pm);
            let (bm, d) = Self::init_market_ix(&b, cfg);
            let r = env.w.exec_raw(&pid, &bm, &d, dex);
            assert!(r.ok(), "market B init: {:?}", r);
            for i in 0..N_USERS as u64 {
                let k = key("open_orders_b", i);
                Self::dex_acct(&mut env.w, k, OO_LEN);
                env.oos_b.push((k, i as usize));
            }
            // some business in the other market
            for i in 0..N_USERS {
                let (k, o) = env.oos_b[i];
                let u = env.users[o].clone();
                let auth = if cfg.perm > 0 { Some(b.oo_auth) } else { None };
                let mut acts = vec![Act::InitOo { oo: k, owner: u.key, auth }];
                for (side, price, payer) in [(Sd::Bid, 2, u.pc), (Sd::Ask, 9, u.coin)] {
                    let qty = 3 + i as u64;
                    let o = Order { side, price, qty, pc: qty * price * cfg.pc_lot, ot: Ot::Limit, st: St::Decrement, limit: 9, cid: 1 + i as u64, max_ts: i64::MAX };
                    acts.push(Act::New { oo: k, owner: u.key, payer, fee: None, o, legacy: false });
                }
                for a in acts {
                    let (m, d) = a.ix(&b);
                    // the poor user may fail to pay
                    env.w.exec_raw(&pid, &m, &d, dex);
                }
            }
            env.b = Some(b);
        }
        // past activity
        let rq = env.w.get_mut(&env.a.req_q.clone()).unwrap();
        rq.data[5 + 24..5 + 32].copy_from_slice(&cfg.seq0.to_le_bytes());
        let cap = 128 + cfg.evq_extra as u64;
        let eq = env.w.get_mut(&env.a.event_q.clone()).unwrap();
        let head = cfg.head0 as u64 % cap;
        eq.data[5 + 8..5 + 16].copy_from_slice(&head.to_le_bytes());
        eq.data[5 + 24..5 + 32].copy_from_slice(&(cfg.seq0 / 2).to_le_bytes());
        let (cv, pv) = (env.a.coin_vault, env.a.pc_vault);
        env.w.edit_token(&cv, |t| t.amount = cfg.donate.0);
        env.w.edit_token(&pv, |t| t.amount = cfg.donate.1);
        // markets with an authority need explicit open-orders creation
        for i in 0..N_OOS {
            if i != UNOPENED && (cfg.perm > 0 || i % 2 == 0) {
                let (k, o) = env.oos[i];
                let act = Act::InitOo { oo: k, owner: env.users[o].key, auth: if cfg.perm > 0 { Some(env.a.oo_auth) } else { None } };
                let r = env.exec(&act);
                assert!(r.ok(), "open orders init: {:?}", r);
            }
        }
        env
    }

    pub fn exec(&mut self, act: &Act) -> Outcome {
        let (m, d) = act.ix(&self.a);
        let pid = self.pid;
        self.w.exec_raw(&pid, &m, &d, dex)
    }

    pub fn wallets(&self) -> Vec<Pubkey> {
        let mut v: Vec<Pubkey> = self.users.iter().flat_map(|u| [u.coin, u.pc]).collect();
        v.extend((0..3).map(|i| key("ref_pc", i)));
        v
    }

    pub fn snap(&self) -> Result<Snap, String> {
        let m = &self.a;
        let d = |k: &Pubkey| self.w.data(k);
        let mut oos = BTreeMap::new();
        let mut lam = BTreeMap::new();
        for (k, _) in &self.oos {
            let data = d(k);
            // untouched accounts are all zero
            let v = if data[..13].iter().all(|b| *b == 0) { None } else { Some(oo(data)?) };
            oos.insert(*k, v);
            lam.insert(*k, self.w.get(k).unwrap().lamports);
        }
        let mut tokens: BTreeMap<Pubkey, u64> = self.wallets().into_iter().map(|k| (k, self.w.token_balance(&k))).collect();
        tokens.insert(m.coin_vault, self.w.token_balance(&m.coin_vault));
        tokens.insert(m.pc_vault, self.w.token_balance(&m.pc_vault));
        Ok(Snap {
            mkt: market(d(&m.market))?,
            bids: book(d(&m.bids), F_BIDS)?,
            asks: book(d(&m.asks), F_ASKS)?,
            evq: event_queue(d(&m.event_q))?,
            reqq: req_queue(d(&m.req_q))?,
            oos,
            oo_lamports: lam,
            tokens,
            ts: self.w.clock_ts,
        })
    }

    /// Fee tier the exchange owes this signer, given the account presented.
    pub fn tier(&self, signer: &Pubkey, fee: &Option<Pubkey>) -> R<u8> {
        let stable = STABLE_MARKETS.iter().any(|s| pk(s) == self.a.market);
        match fee {
            None => Ok(tier_for(stable, 0, 0)),
            Some(k) => {
                let t = self.w.token(k);
                if t.owner != *signer {
                    return Err(Fail::NotOwner);
                }
                let (s, m) = if t.mint == pk(SRM) {
                    (t.amount, 0)
                } else if t.mint == pk(MSRM) {
                    (0, t.amount)
                } else {
                    (0, 0)
                };
                Ok(tier_for(stable, s, m))
            }
        }
    }
}

pub fn wr(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn si(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

/// A concrete, fully resolved instruction.
#[derive(Clone, Debug)]
pub enum Act {
    New { oo: Pubkey, owner: Pubkey, payer: Pubkey, fee: Option<Pubkey>, o: Order, legacy: bool },
    Replace { oo: Pubkey, owner: Pubkey, payer: Pubkey, fee: Option<Pubkey>, os: Vec<Order>, single: bool },
    Take { signer: Pubkey, coin: Pubkey, pc: Pubkey, fee: Option<Pubkey>, o: Order, min_coin: u64, min_pc: u64 },
    Cancel { oo: Pubkey, owner: Pubkey, side: Sd, id: u128 },
    CancelCid { oo: Pubkey, owner: Pubkey, cid: u64 },
    CancelBatch { oo: Pubkey, owner: Pubkey, cids: Vec<u64> },
    Consume { given: Vec<Pubkey>, limit: u16, auth: Option<Pubkey> },
    Settle { oo: Pubkey, owner: Pubkey, coin: Pubkey, pc: Pubkey, referrer: Option<Pubkey> },
    Sweep { to: Pubkey },
    Disable,
    InitOo { oo: Pubkey, owner: Pubkey, auth: Option<Pubkey> },
    CloseOo { oo: Pubkey, owner: Pubkey, dest: Pubkey },
    Prune { oo: Pubkey, owner: Pubkey, limit: u16, auth: Pubkey },
    Match { limit: u16 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    New,
    Replace,
    Take,
    Cancel,
    CancelCid,
    CancelBatch,
    Consume,
    Settle,
    Sweep,
    Disable,
    InitOo,
    CloseOo,
    Prune,
    Match,
}

fn side_u32(s: Sd) -> u32 {
    match s {
        Sd::Bid => 0,
        Sd::Ask => 1,
    }
}
pub fn enc_order(d: &mut Vec<u8>, o: &Order, legacy: bool) {
    d.extend_from_slice(&side_u32(o.side).to_le_bytes());
    d.extend_from_slice(&o.price.to_le_bytes());
    d.extend_from_slice(&o.qty.to_le_bytes());
    d.extend_from_slice(&o.pc.to_le_bytes());
    let st = match o.st {
        St::Decrement => 0u32,
        St::CancelProvide => 1,
        St::Abort => 2,
    };
    let ot = match o.ot {
        Ot::Limit => 0u32,
        Ot::Ioc => 1,
        Ot::PostOnly => 2,
    };
    d.extend_from_slice(&st.to_le_bytes());
    d.extend_from_slice(&ot.to_le_bytes());
    d.extend_from_slice(&o.cid.to_le_bytes());
    d.extend_from_slice(&o.limit.to_le_bytes());
    if !legacy {
        d.extend_from_slice(&o.max_ts.to_le_bytes());
    }
}
pub fn disc(n: u32) -> Vec<u8> {
    let mut d = vec![0u8];
    d.extend_from_slice(&n.to_le_bytes());
    d
}

/// Account order the program searches by: little-endian 64-bit words.
pub fn sort_key(k: &Pubkey) -> [u64; 4] {
    let b = k.to_bytes();
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = u64_at(&b, i * 8);
    }
    r
}

impl Act {
    pub fn kind(&self) -> Kind {
        match self {
            Act::New { .. } => Kind::New,
            Act::Replace { .. } => Kind::Replace,
            Act::Take { .. } => Kind::Take,
            Act::Cancel { .. } => Kind::Cancel,
            Act::CancelCid { .. } => Kind::CancelCid,
            Act::CancelBatch { .. } => Kind::CancelBatch,
            Act::Consume { .. } => Kind::Consume,
            Act::Settle { .. } => Kind::Settle,
            Act::Sweep { .. } => Kind::Sweep,
            Act::Disable => Kind::Disable,
            Act::InitOo { .. } => Kind::InitOo,
            Act::CloseOo { .. } => Kind::CloseOo,
            Act::Prune { .. } => Kind::Prune,
            Act::Match { .. } => Kind::Match,
        }
    }
    pub fn ix(&self, m: &Mk) -> (Vec<AccountMeta>, Vec<u8>) {
        match self {
            Act::New { oo, owner, payer, fee, o, legacy } => {
                let mut d = disc(10);
                enc_order(&mut d, o, *legacy && o.max_ts == i64::MAX);
                (new_metas(m, oo, owner, payer, fee), d)
            }
            Act::Replace { oo, owner, payer, fee, os, single } => {
                let d = if *single && os.len() == 1 {
                    let mut d = disc(19);
                    enc_order(&mut d, &os[0], false);
                    d
                } else {
                    let mut d = disc(20);
                    d.extend_from_slice(&(os.len() as u64).to_le_bytes());
                    for o in os {
                        enc_order(&mut d, o, false);
                    }
                    d
                };
                (new_metas(m, oo, owner, payer, fee), d)
            }
            Act::Take { signer, coin, pc, fee, o, min_coin, min_pc } => {
                let mut d = disc(13);
                d.extend_from_slice(&side_u32(o.side).to_le_bytes());
                for x in [o.price, o.qty, o.pc, *min_coin, *min_pc] {
                    d.extend_from_slice(&x.to_le_bytes());
                }
                d.extend_from_slice(&o.limit.to_le_bytes());
                let mut a = vec![wr(m.market), wr(m.req_q), wr(m.event_q), wr(m.bids), wr(m.asks), wr(*coin), wr(*pc), si(*signer)];
                a.extend([wr(m.coin_vault), wr(m.pc_vault), ro(spl_token::ID), ro(m.vault_signer)]);
                a.extend(fee.iter().map(|f| ro(*f)));
                (a, d)
            }
            Act::Cancel { oo, owner, side, id } => {
                let mut d = disc(11);
                d.extend_from_slice(&side_u32(*side).to_le_bytes());
                d.extend_from_slice(&id.to_le_bytes());
                (cancel_metas(m, oo, owner), d)
            }
            Act::CancelCid { oo, owner, cid } => {
                let mut d = disc(12);
                d.extend_from_slice(&cid.to_le_bytes());
                (cancel_metas(m, oo, owner), d)
            }
            Act::CancelBatch { oo, owner, cids } => {
                let mut d = disc(18);
                for c in cids {
                    d.extend_from_slice(&c.to_le_bytes());
                }
                (cancel_metas(m, oo, owner), d)
            }
            Act::Consume { given, limit, auth } => {
                let mut ks = given.clone();
                ks.sort_by_key(sort_key);
                let mut a: Vec<AccountMeta> = ks.into_iter().map(wr).collect();
                a.push(wr(m.market));
                a.push(wr(m.event_q));
                let mut d;
                match auth {
                    None => {
                        d = disc(3);
                        // two accounts that are required but unused
                        a.push(wr(m.coin_vault));
                        a.push(wr(m.pc_vault));
                    }
                    Some(k) => {
                        d = disc(17);
                        a.push(si(*k));
                    }
                }
                d.extend_from_slice(&limit.to_le_bytes());
                (a, d)
            }
            Act::Settle { oo, owner, coin, pc, referrer } => {
                let mut a = vec![wr(m.market), wr(*oo), si(*owner), wr(m.coin_vault), wr(m.pc_vault), wr(*coin), wr(*pc), ro(m.vault_signer), ro(spl_token::ID)];
                a.extend(referrer.iter().map(|r| wr(*r)));
                (a, disc(5))
            }
            Act::Sweep { to } => (vec![wr(m.market), wr(m.pc_vault), si(pk(SWEEPER)), wr(*to), ro(m.vault_signer), ro(spl_token::ID)], disc(8)),
            Act::Disable => (vec![wr(m.market), si(pk(DISABLER))], disc(7)),
            Act::InitOo { oo, owner, auth } => {
                let mut a = vec![wr(*oo), si(*owner), ro(m.market), ro(sysvar::rent::ID)];
                a.extend(auth.iter().map(|k| si(*k)));
                (a, disc(15))
            }
            Act::CloseOo { oo, owner, dest } => (vec![wr(*oo), si(*owner), wr(*dest), ro(m.market)], disc(14)),
            Act::Prune { oo, owner, limit, auth } => {
                let mut d = disc(16);
                d.extend_from_slice(&limit.to_le_bytes());
                (vec![wr(m.market), wr(m.bids), wr(m.asks), si(*auth), wr(*oo), ro(*owner), wr(m.event_q)], d)
            }
            Act::Match { limit } => {
                let mut d = disc(2);
                d.extend_from_slice(&limit.to_le_bytes());
                (vec![wr(m.market), wr(m.req_q), wr(m.event_q), wr(m.bids), wr(m.asks), wr(m.coin_vault), wr(m.pc_vault)], d)
            }
        }
    }
    /// The open-orders account that acts, if any.
    pub fn actor(&self) -> Option<Pubkey> {
        match self {
            Act::New { oo, .. }
            | Act::Replace { oo, .. }
            | Act::Cancel { oo, .. }
            | Act::CancelCid { oo, .. }
            | Act::CancelBatch { oo, .. }
            | Act::Settle { oo, .. }
            | Act::InitOo { oo, .. }
            | Act::CloseOo { oo, .. }
            | Act::Prune { oo, .. } => Some(*oo),
            _ => None,
        }
    }
    /// The model's verdict on this instruction from state `pre`. `post` is only
    /// consulted by `Prune` for the order in which the program removed orders.
    pub fn predict(&self, env: &Env, pre: &Snap, post: Option<&Snap>) -> (R<Snap>, Info) {
        let mut s = pre.clone();
        let mut info = Info::default();
        let r = self.step(env, &mut s, &mut info, pre, post);
        (r.map(|_| s), info)
    }
    fn step(&self, env: &Env, s: &mut Snap, info: &mut Info, pre: &Snap, post: Option<&Snap>) -> R<()> {
        let payer_ok = |payer: &Pubkey, side: Sd| {
            let mint = env.w.token(payer).mint;
            mint == match side {
                Sd::Bid => env.a.pc_mint,
                Sd::Ask => env.a.coin_mint,
            }
        };
        match self {
            Act::New { oo, owner, payer, fee, o, .. } => {
                let tier = env.tier(owner, fee)?;
                if !payer_ok(payer, o.side) {
                    return Err(Fail::BadRequest);
                }
                new_order(s, info, *oo, *owner, *payer, tier, o)
            }
            Act::Replace { oo, owner, payer, fee, os, .. } => {
                let cids: Vec<u64> = os.iter().map(|o| o.cid).collect();
                cancel_batch(s, info, *oo, *owner, &cids)?;
                for o in os {
                    let tier = env.tier(owner, fee)?;
                    if !payer_ok(payer, o.side) {
                        return Err(Fail::BadRequest);
                    }
                    new_order(s, info, *oo, *owner, *payer, tier, o)?;
                }
                Ok(())
            }
            Act::Take { signer, coin, pc, fee, o, min_coin, min_pc } => {
                let tier = env.tier(signer, fee)?;
                send_take(s, info, *coin, *pc, tier, o, *min_coin, *min_pc)
            }
            Act::Cancel { oo, owner, side, id } => cancel(s, info, *oo, *owner, *side, *id),
            Act::CancelCid { oo, owner, cid } => cancel_cid(s, info, *oo, *owner, *cid),
            Act::CancelBatch { oo, owner, cids } => cancel_batch(s, info, *oo, *owner, cids),
            Act::Consume { given, limit, auth } => {
                if auth.is_none() && given.is_empty() {
                    return Err(Fail::BadRequest);
                }
                if auth.is_some() && given.is_empty() {
                    return Err(Fail::BadRequest);
                }
                consume(s, info, given, *limit, *auth)
            }
            Act::Settle { oo, owner, coin, pc, referrer } => settle(s, *oo, *owner, *coin, *pc, *referrer),
            Act::Sweep { to } => sweep(s, *to),
            Act::Disable => disable(s),
            Act::InitOo { oo, owner, auth } => init_oo(s, *oo, *owner, *auth),
            Act::CloseOo { oo, owner, .. } => close_oo(s, *oo, *owner),
            Act::Prune { oo, owner, limit, auth } => {
                let mut removed = vec![];
                if let Some(p) = post {
                    // order taken from the events the program appended
                    let n = pre.evq.events.len();
                    for e in p.evq.events.iter().skip(n) {
                        if let Ev::Out { side, id, .. } = e {
                            removed.push((*side, *id));
                        }
                    }
                }
                prune(s, info, *oo, *owner, *auth, *limit, post.map(|_| &removed[..]))
            }
            Act::Match { .. } => Ok(()),
        }
    }
}

fn new_metas(m: &Mk, oo: &Pubkey, owner: &Pubkey, payer: &Pubkey, fee: &Option<Pubkey>) -> Vec<AccountMeta> {
    let mut a = vec![wr(m.market), wr(*oo), wr(m.req_q), wr(m.event_q), wr(m.bids), wr(m.asks), wr(*payer), si(*owner)];
    a.extend([wr(m.coin_vault), wr(m.pc_vault), ro(spl_token::ID), ro(sysvar::rent::ID)]);
    a.extend(fee.iter().map(|f| ro(*f)));
    a
}
fn cancel_metas(m: &Mk, oo: &Pubkey, owner: &Pubkey) -> Vec<AccountMeta> {
    vec![wr(m.market), wr(m.bids), wr(m.asks), wr(*oo), si(*owner), wr(m.event_q)]
}
