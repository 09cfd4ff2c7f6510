//! Hostile variants of instructions that would otherwise be accepted.
use crate::abi::*;
use crate::model::*;
use crate::run::*;
use crate::world::*;
use solana_program::{instruction::AccountMeta, pubkey::Pubkey, sysvar};
use svm::{key, near, Acct};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Market,
    ReqQ,
    EventQ,
    Bids,
    Asks,
    CoinVault,
    PcVault,
    VaultSigner,
    TokenProgram,
    /// the open-orders account acted on
    Oo,
    /// one of the accounts handed to the crank
    CrankOo,
    Owner,
    Admin,
    Authority,
    /// a wallet of the caller's choice
    CoinWallet,
    PcWallet,
    FeeAccount,
    Unused,
    /// owner named but not signing (prune)
    NamedOwner,
}

pub fn roles(act: &Act, env: &Env) -> Vec<Role> {
    use Role::*;
    let _ = env;
    match act {
        Act::New { o, fee, .. } => new_roles(o.side, fee.is_some()),
        Act::Replace { os, fee, .. } => new_roles(os.first().map_or(Sd::Bid, |o| o.side), fee.is_some()),
        Act::Take { fee, .. } => {
            let mut v = vec![Market, ReqQ, EventQ, Bids, Asks, CoinWallet, PcWallet, Owner, CoinVault, PcVault, TokenProgram, VaultSigner];
            if fee.is_some() {
                v.push(FeeAccount);
            }
            v
        }
        Act::Cancel { .. } | Act::CancelCid { .. } | Act::CancelBatch { .. } => vec![Market, Bids, Asks, Oo, Owner, EventQ],
        Act::Consume { given, auth, .. } => {
            let mut v = vec![CrankOo; given.len()];
            v.extend([Market, EventQ]);
            match auth {
                None => v.extend([Unused, Unused]),
                Some(_) => v.push(Authority),
            }
            v
        }
        Act::Settle { referrer, .. } => {
            let mut v = vec![Market, Oo, Owner, CoinVault, PcVault, CoinWallet, PcWallet, VaultSigner, TokenProgram];
            if referrer.is_some() {
                v.push(PcWallet);
            }
            v
        }
        Act::Sweep { .. } => vec![Market, PcVault, Admin, PcWallet, VaultSigner, TokenProgram],
        Act::Disable => vec![Market, Admin],
        Act::InitOo { auth, .. } => {
            let mut v = vec![Oo, Owner, Market, Unused];
            if auth.is_some() {
                v.push(Authority);
            }
            v
        }
        Act::CloseOo { .. } => vec![Oo, Owner, Unused, Market],
        Act::Prune { .. } => vec![Market, Bids, Asks, Authority, Oo, NamedOwner, EventQ],
        Act::Match { .. } => vec![],
    }
}
fn new_roles(side: Sd, fee: bool) -> Vec<Role> {
    use Role::*;
    let payer = if side == Sd::Bid { PcWallet } else { CoinWallet };
    let mut v = vec![Market, Oo, ReqQ, EventQ, Bids, Asks, payer, Owner, CoinVault, PcVault, TokenProgram, Unused];
    if fee {
        v.push(FeeAccount);
    }
    v
}

/// Does the signer have to be exactly this one for the instruction to act?
fn owner_bound(act: &Act, st_pre: &Snap, info: &Info) -> bool {
    match act {
        // an account nobody owns yet may be claimed by whoever signs
        Act::New { oo, .. } | Act::InitOo { oo, .. } => st_pre.oos[oo].is_some(),
        Act::Replace { oo, .. } => st_pre.oos[oo].is_some(),
        // an instant swap that trades nothing moves nothing
        Act::Take { .. } => !info.trades.is_empty(),
        _ => true,
    }
}

pub struct Probe {
    pub what: String,
    pub role: Role,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    /// accounts that exist for this attempt only
    pub extra: Vec<Acct>,
}

/// The same instruction without somebody's signature, or signed by somebody else.
pub fn signature_probes(env: &Env, act: &Act, pre: &Snap, info: &Info, pick: u64) -> Vec<Probe> {
    let (metas, data) = act.ix(&env.a);
    let rs = roles(act, env);
    let mut v = vec![];
    for (i, r) in rs.iter().enumerate() {
        if !matches!(r, Role::Owner | Role::Admin | Role::Authority) {
            continue;
        }
        let mut m = metas.clone();
        m[i].is_signer = false;
        v.push(Probe { what: format!("account {} ({:?}) not signing", i, r), role: *r, metas: m, data: data.clone(), extra: vec![] });
        if *r == Role::Owner && !owner_bound(act, pre, info) {
            continue;
        }
        // not needed when the account exists already
        if *r == Role::Authority && matches!(act, Act::InitOo { oo, .. } if pre.oos[oo].is_some()) {
            v.pop();
            continue;
        }
        let others: Vec<Pubkey> = env
            .users
            .iter()
            .map(|u| u.key)
            .chain([env.a.oo_auth, env.a.prune_auth, env.a.crank_auth, pk(DISABLER), pk(SWEEPER), env.a.vault_signer, key("stranger", 9)])
            .filter(|k| *k != metas[i].pubkey)
            .collect();
        for d in 0..2u64 {
            let k = others[((pick + d * 3) % others.len() as u64) as usize];
            let mut m = metas.clone();
            m[i] = AccountMeta { pubkey: k, is_signer: true, is_writable: metas[i].is_writable };
            v.push(Probe { what: format!("account {} ({:?}) replaced by {}", i, r, k), role: *r, metas: m, data: data.clone(), extra: vec![] });
        }
        // a key that differs from the right one in a single bit
        let k = near(&metas[i].pubkey, pick >> 8);
        let mut m = metas.clone();
        m[i] = AccountMeta { pubkey: k, is_signer: true, is_writable: metas[i].is_writable };
        v.push(Probe { what: format!("account {} ({:?}) replaced by its neighbour {}", i, r, k), role: *r, metas: m, data: data.clone(), extra: vec![] });
        // stranger with a wallet of its own in place of the payer
        if *r == Role::Owner {
            let u = &env.users[(pick % N_USERS as u64) as usize];
            if u.key != metas[i].pubkey {
                let mut m = metas.clone();
                m[i] = AccountMeta::new_readonly(u.key, true);
                for (j, q) in rs.iter().enumerate() {
                    match q {
                        Role::CoinWallet => m[j].pubkey = u.coin,
                        Role::PcWallet => m[j].pubkey = u.pc,
                        _ => {}
                    }
                }
                if !matches!(act, Act::Take { .. }) {
                    if let Some(j) = rs.iter().position(|q| *q == Role::FeeAccount) {
                        m.truncate(j);
                    }
                    v.push(Probe { what: format!("owner and wallets replaced by those of {}", u.key), role: *r, metas: m, data: data.clone(), extra: vec![] });
                }
            }
        }
    }
    v
}

/// Adds the attacker's look-alike accounts to the world.
pub fn lay_lookalikes(env: &mut Env) {
    let a = env.a.clone();
    for (i, k) in [a.market, a.req_q, a.event_q, a.bids, a.asks].iter().enumerate() {
        let mut x = env.w.get(k).unwrap().clone();
        x.key = key("lookalike", i as u64);
        x.owner = key("evil-prog", 1);
        env.w.add(x);
    }
    env.w.add_token(key("lookalike", 5), a.coin_mint, a.vault_signer, 1 << 50);
    env.w.add_token(key("lookalike", 6), a.pc_mint, a.vault_signer, 1 << 50);
    env.w.add(Acct { key: key("evil-token", 1), owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![1], executable: true });
    env.w.add_token(key("lookalike", 7), key("junk_mint", 0), a.vault_signer, 1 << 50);
    env.w.add_token(key("lookalike", 8), key("junk_mint", 0), env.users[0].key, 1 << 50);
    for i in 0..N_OOS as u64 {
        let mut x = env.w.get(&env.oos[i as usize].0).unwrap().clone();
        x.key = key("fake_oo", i);
        x.owner = key("evil-prog", 1);
        env.w.add(x);
    }
}
/// Keeps the look-alikes byte-identical to what they imitate.
pub fn refresh_lookalikes(env: &mut Env) {
    let a = env.a.clone();
    let mut pairs: Vec<(Pubkey, Pubkey)> = [a.market, a.req_q, a.event_q, a.bids, a.asks].iter().enumerate().map(|(i, k)| (*k, key("lookalike", i as u64))).collect();
    pairs.extend((0..N_OOS).map(|i| (env.oos[i].0, key("fake_oo", i as u64))));
    for (from, to) in pairs {
        let d = env.w.get(&from).unwrap().data.clone();
        env.w.get_mut(&to).unwrap().data = d;
    }
}

/// The same instruction with one account swapped for another.
pub fn substitution(env: &Env, act: &Act, pre: &Snap, pick: u64) -> Option<Probe> {
    let rs = roles(act, env);
    // replacing nothing is a cancellation of nothing: most accounts stay unread
    if rs.is_empty() || matches!(act, Act::Replace { os, .. } if os.is_empty()) {
        return None;
    }
    let (metas, data) = act.ix(&env.a);
    let i = (pick % rs.len() as u64) as usize;
    let how = pick / 64;
    let role = rs[i];
    let b = env.b.as_ref()?;
    let a = &env.a;
    let orig = metas[i].pubkey;
    if how % 4 == 0 {
        // a twin: everything as in the right account, except for one bit of its
        // address, or of the mint or owner it names
        let at = how / 4;
        let mut twin = match env.w.get(&orig) {
            Some(x) => x.clone(),
            None => Acct { key: orig, owner: solana_program::system_program::ID, lamports: 1, data: vec![], executable: role == Role::TokenProgram },
        };
        let k = near(&orig, at);
        let mut m = metas.clone();
        m[i].pubkey = k;
        let flip = |d: &mut Vec<u8>, from: usize| d[from + (at % 256) as usize / 8] ^= 1 << (at % 8);
        match role {
            Role::ReqQ | Role::EventQ | Role::Bids | Role::Asks | Role::CoinVault | Role::PcVault | Role::VaultSigner | Role::TokenProgram => {}
            // a perfect copy in the hands of another program
            Role::CoinWallet | Role::PcWallet | Role::FeeAccount if at >> 8 & 1 == 0 => twin.owner = key("evil-prog", 1),
            Role::CoinWallet | Role::PcWallet => flip(&mut twin.data, 0),
            Role::FeeAccount => flip(&mut twin.data, 32),
            _ => return None,
        }
        twin.key = k;
        if env.w.get(&k).is_some() {
            return None;
        }
        return Some(Probe { what: format!("account {} ({:?}) replaced by its twin {}", i, role, k), role, metas: m, data, extra: vec![twin] });
    }
    let how = how / 4;
    let mut cands: Vec<Pubkey> = vec![];
    let others = [a.market, a.req_q, a.event_q, a.bids, a.asks, a.coin_vault, a.pc_vault, a.vault_signer];
    let owner_ix = |k: &Pubkey| env.oos.iter().find(|x| x.0 == *k).map(|x| x.1);
    match role {
        Role::Market => {
            // opening an account in, or disabling, another market is a legitimate wish
            if !matches!(act, Act::InitOo { .. } | Act::Disable) {
                cands.push(b.market);
            }
            cands.push(key("lookalike", 0));
            cands.extend(others);
        }
        Role::ReqQ => {
            cands.extend([b.req_q, key("lookalike", 1)]);
            cands.extend(others);
        }
        Role::EventQ => {
            cands.extend([b.event_q, key("lookalike", 2)]);
            cands.extend(others);
        }
        Role::Bids => {
            cands.extend([b.bids, key("lookalike", 3)]);
            cands.extend(others);
        }
        Role::Asks => {
            cands.extend([b.asks, key("lookalike", 4)]);
            cands.extend(others);
        }
        Role::CoinVault => {
            cands.extend([b.coin_vault, key("lookalike", 5), key("lookalike", 7), env.users[0].coin]);
            cands.extend(others);
        }
        Role::PcVault => {
            cands.extend([b.pc_vault, key("lookalike", 6), key("lookalike", 7), env.users[0].pc]);
            cands.extend(others);
        }
        Role::VaultSigner => {
            cands.extend([b.vault_signer, env.users[0].key, key("stranger", 9)]);
        }
        Role::TokenProgram => cands.extend([key("evil-token", 1), solana_program::system_program::ID, a.market]),
        Role::Oo => {
            let own = owner_ix(&orig)?;
            // this owner's account in the other market, somebody else's account here,
            // a forged account, and accounts that are no open-orders accounts at all
            cands.push(env.oos_b[own].0);
            let inited = |k: &Pubkey| matches!(pre.oos.get(k), Some(Some(_)));
            cands.extend(env.oos.iter().filter(|x| x.1 != own && inited(&x.0)).map(|x| x.0));
            let j = env.oos.iter().position(|x| x.0 == orig)?;
            cands.push(key("fake_oo", j as u64));
            cands.extend(others);
        }
        Role::CoinWallet => cands.extend([env.users[0].pc, key("lookalike", 8), a.market, env.oos[0].0]),
        Role::PcWallet => cands.extend([env.users[0].coin, key("lookalike", 8), a.market, env.oos[0].0]),
        Role::FeeAccount => cands.extend([a.market, env.oos[0].0, a.coin_mint]),
        Role::NamedOwner => cands.extend([key("stranger", 9)]),
        Role::CrankOo | Role::Owner | Role::Admin | Role::Authority | Role::Unused => return None,
    }
    cands.retain(|k| *k != orig);
    if cands.is_empty() {
        return None;
    }
    let k = cands[(how % cands.len() as u64) as usize];
    let mut m = metas.clone();
    m[i].pubkey = k;
    Some(Probe { what: format!("account {} ({:?}) replaced by {}", i, role, k), role, metas: m, data, extra: vec![] })
}

pub fn rent_id() -> Pubkey {
    sysvar::rent::ID
}
#[allow(unused)]
fn _u(_: &StepOut) {}
