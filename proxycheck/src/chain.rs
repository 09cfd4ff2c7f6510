//! The proxy program under test, assembled from the library's parts, and a
//! reference interpreter of what it must do with a request.
use dexcheck::world::{self, pk};
use serum_dex::instruction::*;
use serum_dex_permissioned::*;
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::cell::RefCell;
use svm::{key, Acct, World};

pub fn dex_id() -> Pubkey {
    pk("9xQeWvG816bUx9EPjHmaT23yvVM2ZWbrrpZb9PusVFin")
}
pub fn proxy_id() -> Pubkey {
    key("proxy", 0)
}
pub fn referral() -> Pubkey {
    key("referral", 0)
}
pub fn pda(market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"open-orders", dex_id().as_ref(), market.as_ref(), user.as_ref()], &proxy_id())
}
pub fn init_auth(market: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"open-orders-init", dex_id().as_ref(), market.as_ref()], &proxy_id())
}
pub fn till() -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"till"], &proxy_id())
}
pub fn till_wallet(i: u64) -> Pubkey {
    key("till_wallet", i)
}

/// One stage of the chain.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Mw {
    Pda,
    Referral,
    Log,
    /// a hook of our own: strips one byte of data, notes what it saw, and maybe acts
    Probe(Act),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Act {
    Watch,
    VetoData,
    Veto,
    /// change the request's number (limit, client id)
    Change(u16),
    /// strip the leading account
    Strip,
    /// a transfer before and/or after the exchange is called, signed by the program
    Pay { pre: u8, post: u8 },
    /// a transfer that cannot succeed, after the exchange is called
    BadPost,
    /// be told afterwards; fail then if true
    Callback(bool),
}
impl Act {
    pub fn pays(&self) -> bool {
        matches!(self, Act::Pay { .. } | Act::BadPost)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Note {
    Data(u8, Vec<u8>),
    Hook(u8, &'static str, Vec<Pubkey>),
    Called(Pubkey, Vec<Pubkey>, Vec<u8>, Vec<u8>),
}

thread_local! {
    pub static CHAIN: RefCell<Vec<Mw>> = RefCell::new(vec![]);
    pub static NOTES: RefCell<Vec<Note>> = RefCell::new(vec![]);
}
fn note(n: Note) {
    NOTES.with(|x| x.borrow_mut().push(n))
}

/// What a changing stage makes of a new order.
fn change_order(o: &mut NewOrderInstructionV3, n: u16) {
    use serum_dex::matching::Side;
    use std::num::NonZeroU64;
    match n {
        0 => {}
        1 => o.max_coin_qty = NonZeroU64::new(o.max_coin_qty.get().saturating_add(3)).unwrap(),
        2 => o.side = if o.side == Side::Bid { Side::Ask } else { Side::Bid },
        3 => o.max_native_pc_qty_including_fees = NonZeroU64::new(o.max_native_pc_qty_including_fees.get() / 2 + 1).unwrap(),
        _ => o.client_order_id = n as u64,
    }
}

struct Probe(u8, Act);
fn callback<'a, 'info>(pid: &'a Pubkey, accs: Vec<AccountInfo<'info>>, data: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    let fail = args[0] == 1;
    note(Note::Called(*pid, accs.iter().map(|a| *a.key).collect(), data, args));
    if fail {
        return Err(ProgramError::Custom(77));
    }
    Ok(())
}
fn pay(from: u64, to: u64, n: u64) -> Instruction {
    spl_token::instruction::transfer(&spl_token::ID, &till_wallet(from), &till_wallet(to), &till().0, &[], n).unwrap()
}
impl Probe {
    fn hook(&self, ctx: &mut Context, name: &'static str) -> ProgramResult {
        note(Note::Hook(self.0, name, ctx.accounts.iter().map(|a| *a.key).collect()));
        let seeds = || vec![vec![b"till".to_vec(), vec![till().1]]];
        // the till's accounts come first
        let mut tills = vec![];
        if self.1.pays() {
            if ctx.accounts.len() < 4 {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            tills = ctx.accounts.drain(..4).collect();
        }
        match self.1 {
            Act::Veto => return Err(ProgramError::Custom(66)),
            Act::Strip => {
                ctx.accounts.remove(0);
            }
            Act::Pay { pre, post } => {
                if pre > 0 {
                    ctx.pre_instructions.push((pay(0, 1, pre as u64), tills.clone(), seeds()));
                }
                if post > 0 {
                    ctx.post_instructions.push((pay(0, 1, post as u64), tills, seeds()));
                }
            }
            Act::BadPost => ctx.post_instructions.push((pay(1, 0, u64::MAX), tills, seeds())),
            Act::Callback(f) => ctx.post_callbacks.push((callback, vec![ctx.accounts[0].clone()], vec![f as u8, self.0])),
            _ => {}
        }
        Ok(())
    }
}
impl MarketMiddleware for Probe {
    fn instruction(&mut self, data: &mut &[u8]) -> ProgramResult {
        note(Note::Data(self.0, data.to_vec()));
        if self.1 == Act::VetoData {
            return Err(ProgramError::Custom(65));
        }
        if data.is_empty() {
            return Err(ProgramError::InvalidInstructionData);
        }
        *data = &data[1..];
        Ok(())
    }
    fn init_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.hook(ctx, "init")
    }
    fn new_order_v3(&self, ctx: &mut Context, ix: &mut NewOrderInstructionV3) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            change_order(ix, n);
        }
        self.hook(ctx, "new")
    }
    fn cancel_order_v2(&self, ctx: &mut Context, ix: &mut CancelOrderInstructionV2) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            ix.order_id = ix.order_id.wrapping_add(n as u128);
        }
        self.hook(ctx, "cancel")
    }
    fn cancel_order_by_client_id_v2(&self, ctx: &mut Context, id: &mut u64) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            *id = n as u64;
        }
        self.hook(ctx, "cancel_cid")
    }
    fn settle_funds(&self, ctx: &mut Context) -> ProgramResult {
        self.hook(ctx, "settle")
    }
    fn close_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.hook(ctx, "close")
    }
    fn consume_events(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            *limit = n;
        }
        self.hook(ctx, "consume")
    }
    fn consume_events_permissioned(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            *limit = n;
        }
        self.hook(ctx, "consume_perm")
    }
    fn prune(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        if let Act::Change(n) = self.1 {
            *limit = n;
        }
        self.hook(ctx, "prune")
    }
    fn fallback(&self, ctx: &mut Context) -> ProgramResult {
        self.hook(ctx, "fallback")
    }
}

pub fn proxy(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut v: Vec<Box<dyn MarketMiddleware>> = CHAIN.with(|c| {
        c.borrow()
            .iter()
            .enumerate()
            .map(|(i, m)| -> Box<dyn MarketMiddleware> {
                match m {
                    Mw::Pda => Box::new(OpenOrdersPda::new()),
                    Mw::Referral => Box::new(ReferralFees::new(referral())),
                    Mw::Log => Box::new(Logger),
                    Mw::Probe(a) => Box::new(Probe(i as u8, *a)),
                }
            })
            .collect()
    });
    let mut p = MarketProxy::new();
    for m in v.iter_mut() {
        p = p.middleware(&mut **m);
    }
    p.run(pid, accs, data)
}

/// What the proxy must do with a request: the accounts afterwards (None: it
/// must refuse), and what hooks of ours must have seen.
pub struct Want {
    pub after: Option<World>,
    pub notes: Vec<Note>,
    /// forwarded to the exchange
    pub relayed: bool,
    /// most the open-orders address may be approved to spend
    pub approve: u64,
    pub kind: &'static str,
}

fn dex(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    world::dex(pid, accs, data)
}

fn kind_of(ix: &Option<MarketInstruction>) -> (&'static str, usize) {
    match ix {
        Some(MarketInstruction::InitOpenOrders) => ("init", 4),
        Some(MarketInstruction::NewOrderV3(_)) => ("new", 12),
        Some(MarketInstruction::CancelOrderV2(_)) => ("cancel", 6),
        Some(MarketInstruction::CancelOrderByClientIdV2(_)) => ("cancel_cid", 6),
        Some(MarketInstruction::SettleFunds) => ("settle", 10),
        Some(MarketInstruction::CloseOpenOrders) => ("close", 4),
        Some(MarketInstruction::ConsumeEvents(_)) => ("consume", 4),
        Some(MarketInstruction::ConsumeEventsPermissioned(_)) => ("consume_perm", 3),
        Some(MarketInstruction::Prune(_)) => ("prune", 7),
        _ => ("fallback", 0),
    }
}

pub fn interpret(w: &World, metas: &[AccountMeta], data: &[u8], chain: &[Mw]) -> Want {
    let mut out = Want { after: None, notes: vec![], relayed: false, approve: 0, kind: "none" };
    let _ = run(w, metas, data, chain, &mut out);
    out
}
fn run(w: &World, metas: &[AccountMeta], data: &[u8], chain: &[Mw], out: &mut Want) -> Option<()> {
    // flags are those of the account, however often it is named
    let held = |k: &Pubkey| {
        let mut m = AccountMeta::new_readonly(*k, false);
        for x in metas.iter().filter(|x| x.pubkey == *k) {
            m.is_signer |= x.is_signer;
            m.is_writable |= x.is_writable;
        }
        m
    };
    if metas.first()?.pubkey != dex_id() {
        return None;
    }
    let mut accs: Vec<AccountMeta> = metas[1..].iter().map(|m| held(&m.pubkey)).collect();
    let mut d = data;
    let (mut bump, mut bump_init) = (0u8, 0u8);
    for (i, m) in chain.iter().enumerate() {
        match m {
            Mw::Pda => {
                let t = *d.first()?;
                d = &d[1..];
                if t == 0 {
                    bump = *d.first()?;
                    bump_init = *d.get(1)?;
                    d = &d[2..];
                }
            }
            Mw::Probe(a) => {
                out.notes.push(Note::Data(i as u8, d.to_vec()));
                if *a == Act::VetoData {
                    return None;
                }
                d.first()?;
                d = &d[1..];
            }
            _ => {}
        }
    }
    // how the exchange reads the request
    let mut ix = MarketInstruction::unpack(d);
    let (kind, need) = kind_of(&ix);
    out.kind = kind;
    if accs.len() < need {
        return None;
    }
    let mut pre: Vec<(Instruction, bool)> = vec![];
    let mut post: Vec<(Instruction, bool)> = vec![];
    let mut calls = vec![];
    let mut signs: Vec<Pubkey> = vec![]; // addresses the proxy signs for
    let mut w2 = w.clone();
    let key_at = |a: &Vec<AccountMeta>, i: usize| a.get(i).map(|m| m.pubkey);
    for (i, m) in chain.iter().enumerate() {
        match m {
            Mw::Log => {}
            Mw::Referral => {
                if kind == "settle" {
                    let k = key_at(&accs, 9)?;
                    let dd = w2.get(&k).map(|a| a.data.clone()).unwrap_or_default();
                    if dd.get(32..64)? != referral().as_ref() {
                        return None;
                    }
                }
            }
            Mw::Pda => match kind {
                "init" => {
                    if accs.len() < 7 {
                        return None;
                    }
                    let (oo, user, market, ia) = (accs[2].clone(), accs[3].clone(), accs[4].pubkey, accs[6].pubkey);
                    let (want_oo, b) = pda(&market, &user.pubkey);
                    if accs[0].pubkey != dex_id() || accs[1].pubkey != system_program::ID || oo.pubkey != want_oo || b != bump {
                        return None;
                    }
                    if !user.is_signer || accs[5].pubkey != sysvar::rent::ID {
                        return None;
                    }
                    let seeds: [&[u8]; 4] = [b"open-orders-init", dex_id_ref(), market.as_ref(), &[bump_init]];
                    if Pubkey::create_program_address(&seeds, &proxy_id()).ok()? != ia {
                        return None;
                    }
                    // a fresh, rent-exempt account owned by the exchange, paid by the user
                    if !oo.is_writable {
                        return None;
                    }
                    let len = dexcheck::abi::OO_LEN;
                    let have = match w2.get(&oo.pubkey) {
                        None => 0,
                        Some(a) if a.owner == system_program::ID && a.data.is_empty() => a.lamports,
                        Some(_) => return None,
                    };
                    let cost = world::rent(len).saturating_sub(have);
                    if cost > 0 {
                        let u = w2.get_mut(&user.pubkey)?;
                        if !user.is_writable || u.lamports < cost || u.owner != system_program::ID || !u.data.is_empty() {
                            return None;
                        }
                        u.lamports -= cost;
                    }
                    let fresh = Acct { key: oo.pubkey, owner: dex_id(), lamports: have + cost, data: vec![0; len], executable: false };
                    match w2.get_mut(&oo.pubkey) {
                        Some(a) => *a = fresh,
                        None => {
                            w2.add(fresh);
                        }
                    }
                    signs.extend([oo.pubkey, ia]);
                    accs.drain(..2);
                    accs[1] = sign(&accs[0]);
                    accs[4].is_signer = true;
                }
                "new" => {
                    let (user, market, oo, payer) = (accs[7].clone(), accs[0].pubkey, accs[1].clone(), accs[6].clone());
                    if !user.is_signer {
                        return None;
                    }
                    let amount = match ix.as_ref()? {
                        MarketInstruction::NewOrderV3(o) => match o.side {
                            serum_dex::matching::Side::Bid => o.max_native_pc_qty_including_fees.get(),
                            serum_dex::matching::Side::Ask => {
                                let md = &w2.get(&market)?.data;
                                let lot = u64::from_le_bytes(md.get(349..357)?.try_into().ok()?);
                                o.max_coin_qty.get().checked_mul(lot)?
                            }
                        },
                        _ => unreachable!(),
                    };
                    out.approve = amount;
                    pre.push((spl_token::instruction::approve(&spl_token::ID, &payer.pubkey, &oo.pubkey, &user.pubkey, &[], amount).ok()?, true));
                    post.push((spl_token::instruction::revoke(&spl_token::ID, &payer.pubkey, &user.pubkey, &[]).ok()?, true));
                    signs.push(pda(&market, &user.pubkey).0);
                    accs[7] = sign(&oo);
                }
                "cancel" | "cancel_cid" => act_as(&mut accs, 0, 3, 4, &mut signs)?,
                "settle" => act_as(&mut accs, 0, 1, 2, &mut signs)?,
                "close" => act_as(&mut accs, 3, 0, 1, &mut signs)?,
                "prune" => accs[5] = accs[4].clone(),
                _ => {}
            },
            Mw::Probe(a) => {
                out.notes.push(Note::Hook(i as u8, kind, accs.iter().map(|m| m.pubkey).collect()));
                if let (Act::Change(n), Some(ix)) = (a, ix.as_mut()) {
                    match ix {
                        MarketInstruction::NewOrderV3(o) => change_order(o, *n),
                        MarketInstruction::CancelOrderV2(o) => o.order_id = o.order_id.wrapping_add(*n as u128),
                        MarketInstruction::CancelOrderByClientIdV2(c) => *c = *n as u64,
                        MarketInstruction::ConsumeEvents(l) | MarketInstruction::ConsumeEventsPermissioned(l) | MarketInstruction::Prune(l) => *l = *n,
                        _ => {}
                    }
                }
                if a.pays() {
                    if accs.len() < 4 {
                        return None;
                    }
                    accs.drain(..4);
                }
                match a {
                    Act::Veto => return None,
                    Act::Strip => {
                        if accs.is_empty() {
                            return None;
                        }
                        accs.remove(0);
                    }
                    Act::Pay { pre: a, post: b } => {
                        if *a > 0 {
                            pre.push((pay(0, 1, *a as u64), false));
                        }
                        if *b > 0 {
                            post.push((pay(0, 1, *b as u64), false));
                        }
                    }
                    Act::BadPost => post.push((pay(1, 0, u64::MAX), false)),
                    Act::Callback(f) => calls.push((*f, i as u8, accs.first()?.pubkey)),
                    _ => {}
                }
            }
        }
    }
    if kind == "fallback" {
        out.after = Some(w.clone());
        return Some(());
    }
    let tok: svm::ProcessFn = spl_token::processor::Processor::process;
    let go = |w: &mut World, ix: &Instruction, user: bool| -> Option<()> {
        // only accounts the request named, with no more than its privileges
        if !metas.iter().any(|m| m.pubkey == spl_token::ID) {
            return None;
        }
        for m in &ix.accounts {
            if !metas.iter().any(|x| x.pubkey == m.pubkey) {
                return None;
            }
            let h = held(&m.pubkey);
            if m.is_writable && !h.is_writable || m.is_signer && !h.is_signer && (user || m.pubkey != till().0) {
                return None;
            }
        }
        if w.exec(ix, tok).ok() {
            Some(())
        } else {
            None
        }
    };
    for (ix, u) in &pre {
        go(&mut w2, ix, *u)?;
    }
    let data = ix.as_ref()?.pack();
    // the proxy's own addresses are all it can sign for
    for a in &accs {
        if a.is_signer && !held(&a.pubkey).is_signer && !signs.contains(&a.pubkey) {
            return None;
        }
    }
    if !w2.exec_raw(&dex_id(), &accs, &data, dex).ok() {
        return None;
    }
    out.relayed = true;
    for (ix, u) in &post {
        go(&mut w2, ix, *u)?;
    }
    for (fail, i, k) in calls {
        out.notes.push(Note::Called(proxy_id(), vec![k], data.clone(), vec![fail as u8, i]));
        if fail {
            return None;
        }
    }
    out.after = Some(w2);
    Some(())
}
fn dex_id_ref() -> &'static [u8] {
    use std::sync::OnceLock;
    static D: OnceLock<Pubkey> = OnceLock::new();
    D.get_or_init(dex_id).as_ref()
}
fn sign(m: &AccountMeta) -> AccountMeta {
    AccountMeta { is_signer: true, ..m.clone() }
}
fn act_as(accs: &mut Vec<AccountMeta>, market: usize, oo: usize, user: usize, signs: &mut Vec<Pubkey>) -> Option<()> {
    if !accs[user].is_signer {
        return None;
    }
    signs.push(pda(&accs[market].pubkey, &accs[user].pubkey).0);
    accs[user] = sign(&accs[oo]);
    Some(())
}
