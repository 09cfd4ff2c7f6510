//! Account validation (C32) and pool creation (C33).
use crate::env::*;
use crate::hist::{amount, cfg, fee_rate};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::{program_option::COption, pubkey::Pubkey};
use svm::harness::{Report, Violation};
use svm::{ensure, key, near, Acct, World};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Role {
    Pool,
    Mint,
    Vault,
    Signer,
    UserPt,
    UserAsset,
    Auth,
    Lqd,
    Ini,
    Referrer,
    TokenProgram,
    Retbuf,
    Param,
    Truncate,
    VaultGone,
    MinterGone,
    LqdGone,
    /// a copy whose address differs in one bit
    Twin,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: PoolCfg,
    /// 0 create, 1 redeem, 2 quote creation, 3 quote redemption
    pub what: u8,
    pub size: u64,
    pub probes: Vec<(Role, u8, u8)>,
}
pub fn case() -> impl Strategy<Value = Case> {
    use Role::*;
    let role = prop::sample::select(vec![Pool, Mint, Vault, Vault, Signer, UserPt, UserPt, UserAsset, UserAsset, Auth, Auth, Lqd, Lqd, Ini, Ini, Referrer, TokenProgram, Retbuf, Param, Truncate, VaultGone, MinterGone, LqdGone, Twin, Twin, Twin]);
    (cfg(any::<bool>()), 0u8..4, 1u64..1_000_000, prop::collection::vec((role, any::<u8>(), any::<u8>()), 1..12)).prop_map(|(mut cfg, what, size, probes)| {
        cfg.supply = cfg.supply.clamp(10, 1 << 40);
        for v in &mut cfg.vaults {
            *v = (*v).clamp(1, 1 << 40);
        }
        Case { what, size: size % cfg.supply.min(1 << 30) / 8 + 1, cfg, probes }
    })
}

/// Two pools of one program, and accounts that look like theirs.
fn two(c: &PoolCfg) -> Result<(PoolEnv, PoolEnv), Violation> {
    let mut w = World::new();
    common(&mut w);
    let share = [c.supply / 4, c.supply / 4, c.supply / 4];
    let mut a = lay(&mut w, 0, c, 1 << 62, &share);
    let mut b = lay(&mut w, 1, c, 1 << 62, &share);
    // look-alikes
    let evil = key("evil-prog", 1);
    w.add(Acct { key: key("fake", 0), owner: evil, lamports: rent(1024), data: vec![0; 1024], executable: false });
    w.add(Acct { key: key("empty", 0), owner: evil, lamports: rent(0), data: vec![], executable: false });
    w.add(Acct { key: key("blank", 0), owner: pid(), lamports: rent(1024), data: vec![0; 1024], executable: false });
    w.add_mint(key("other_mint", 0), c.supply, Some(a.signer));
    for i in 0..N_MINTS as u64 {
        w.add_token(key("twin_vault", i), a.mints[i as usize], a.signer, 1 << 40);
    }
    w.add_token(key("twin_lqd", 0), a.mint, pk(FEE_OWNER), 0);
    let m = a.mint;
    for k in ["forged_pt", "forged_vault"] {
        w.add_token(key(k, 0), m, key("user", 0), 1 << 40);
        w.get_mut(&key(k, 0)).unwrap().owner = evil;
    }
    for i in 0..N_MINTS as u64 {
        w.add_token(key("forged_asset", i), a.mints[i as usize], key("user", 0), 1 << 40);
        w.get_mut(&key("forged_asset", i)).unwrap().owner = evil;
    }
    b.w = w;
    b.init(c).map_err(|e| Violation::new("init", e))?;
    a.w = std::mem::replace(&mut b.w, World::new());
    a.init(c).map_err(|e| Violation::new("init", e))?;
    let d = a.w.data(&a.pool).to_vec();
    a.w.get_mut(&key("fake", 0)).unwrap().data = d;
    let ok: svm::ProcessFn = |_, _, _| Ok(());
    svm::register_program(key("evil-token", 1), ok);
    Ok((a, b))
}

pub fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let (base, other) = two(&c.cfg)?;
    let st = base.state().map_err(|e| Violation::new("record", e))?;
    let n = base.n;
    let quote = c.what >= 2;
    let u0 = base.users[0].clone();
    let metas = if quote { base.get_metas(&st.assets) } else { base.exec_metas(&st.assets, u0.pool_token, &base.user_assets(0, &st.assets), u0.key, base.users[1].pool_token) };
    let data = action_data(!quote, &if c.what % 2 == 0 { Action::Create(c.size) } else { Action::Redeem(c.size) });
    {
        let mut e = base.clone();
        let r = e.go(&metas, &data);
        ensure!(r.ok(), "guard:baseline", "a well-formed request was refused: {:?}: {:?}", c, r);
    }
    for (role, i, how) in &c.probes {
        let mut e = base.clone();
        let mut m = metas.clone();
        let asset = *i as usize % n;
        let pick = |v: &[Pubkey]| v[*how as usize % v.len()];
        let at = |x: usize| 2 + n + 1 + x;
        use Role::*;
        match role {
            Pool => m[0].pubkey = pick(&[other.pool, key("fake", 0), key("blank", 0), base.mint]),
            Mint => m[1].pubkey = pick(&[other.mint, key("other_mint", 0), base.mints[0]]),
            Vault => m[2 + asset].pubkey = pick(&[other.vaults[asset], key("twin_vault", asset as u64), u0.assets[asset], base.vaults[(asset + 1) % N_MINTS], base.lqd]),
            Signer => m[2 + n].pubkey = pick(&[other.signer, u0.key, key("stranger", 9)]),
            UserPt if !quote => {
                let mut v = vec![u0.assets[0], other.users[0].pool_token, key("forged_pt", 0), base.pool, base.mint];
                if c.what == 1 {
                    v.push(base.users[1].pool_token);
                    v.push(base.lqd);
                }
                m[at(0)].pubkey = pick(&v)
            }
            UserAsset if !quote => {
                let mut v = vec![u0.assets[(asset + 1) % N_MINTS], u0.pool_token, key("forged_asset", asset as u64), base.pool];
                if c.what == 0 {
                    v.push(base.users[1].assets[asset]);
                }
                m[at(1 + asset)].pubkey = pick(&v)
            }
            Auth if !quote => match how % 3 {
                0 => m[at(1 + n)].is_signer = false,
                1 => m[at(1 + n)].pubkey = base.users[1].key,
                _ => m[at(1 + n)].pubkey = base.signer,
            },
            Lqd if !quote => m[at(2 + n)].pubkey = pick(&[key("twin_lqd", 0), u0.pool_token, other.lqd, base.users[1].pool_token]),
            Ini if !quote => m[at(3 + n)].pubkey = pick(&[u0.pool_token, other.ini, base.users[1].pool_token, key("twin_lqd", 0)]),
            Referrer if !quote => m[at(4 + n)].pubkey = pick(&[u0.assets[0], other.users[1].pool_token, key("forged_pt", 0), base.pool]),
            TokenProgram if !quote => {
                m[at(5 + n)].pubkey = key("evil-token", 1);
            }
            Retbuf if quote => match how % 6 {
                3 => {
                    m[at(0)].pubkey = key("empty", 0);
                    m[at(1)].pubkey = key("evil-token", 1);
                }
                4 => m[at(0)].pubkey = key("fake", 0),
                5 => {
                    m[at(0)].pubkey = u0.key;
                    m[at(1)].pubkey = key("evil-token", 1);
                }
                0 => m[at(0)].pubkey = base.users[2].pool_token,
                1 => m[at(1)].pubkey = spl_token::ID,
                _ => m[at(1)].pubkey = key("evil-token", 1),
            },
            Param if c.cfg.params > 0 => {
                let last = m.len() - 1 - (*i as usize % c.cfg.params as usize);
                if how % 2 == 0 {
                    m[last].pubkey = key("stranger", 7);
                } else {
                    m.pop();
                }
            }
            Truncate => m.truncate(*how as usize % m.len()),
            VaultGone => {
                let v = base.vaults[asset];
                let o = if i % 2 == 0 { key("stranger", 9) } else { near(&base.signer, *how as u64) };
                e.w.edit_token(&v, |t| t.owner = o);
            }
            Twin => {
                let mut v: Vec<usize> = (1..=2 + n).collect();
                if !quote {
                    v.extend([at(2 + n), at(3 + n)]);
                }
                let x = v[*i as usize % v.len()];
                let k = near(&m[x].pubkey, *how as u64);
                if let (Some(a), None) = (e.w.get(&m[x].pubkey).cloned(), e.w.get(&k)) {
                    e.w.add(Acct { key: k, ..a });
                }
                m[x].pubkey = k;
            }
            MinterGone if how % 3 == 2 => {
                let o = near(&base.signer, *i as u64);
                e.w.get_mut(&base.mint).unwrap().data[4..36].copy_from_slice(o.as_ref());
            }
            MinterGone => {
                let d = &mut e.w.get_mut(&base.mint).unwrap().data;
                if how % 2 == 0 {
                    d[4..36].copy_from_slice(key("stranger", 9).as_ref());
                } else {
                    d[..4].copy_from_slice(&[0; 4]);
                }
            }
            LqdGone if !quote => {
                let v = base.lqd;
                let o = if i % 2 == 0 { u0.key } else { near(&pk(FEE_OWNER), *how as u64) };
                e.w.edit_token(&v, |t| t.owner = o);
            }
            _ => continue,
        }
        if m == metas && e.w.accts == base.w.accts {
            continue;
        }
        let r = e.go(&m, &data);
        rep.evals += 1;
        rep.hit(&(c.what, role, i, how, c.cfg.admin));
        rep.label(if quote { "quote probed" } else { "execution probed" });
        ensure!(!r.ok(), format!("guard:{:?}", role), "{:?} with {:?}/{}/{} was accepted; accounts {:?}", c.what, role, i, how, m.iter().map(|x| x.pubkey).collect::<Vec<_>>());
    }
    Ok(rep)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Flaw {
    PoolOwner,
    PoolDirty(u16, u8),
    PoolSmall(u16),
    /// 0 pool, 1 mint, 2 lqd, 3 initializer, 4.. vaults
    Rent(u8),
    MintAuthority(u8),
    MintUninit,
    MintForged,
    VaultOwner(u8, u8),
    VaultForged(u8),
    VaultUninit(u8),
    SignerKey,
    NonceShift(u8),
    LqdOwner(u8),
    LqdOwnerDelegated,
    LqdDelegate(u64, u8),
    LqdClose(u8),
    LqdMint,
    LqdForged,
    IniMint,
    IniForged,
    RentSysvar,
    FeeRate(u32),
    Truncate(u8),
    NoAdmin,
    Trailing,
    Cut(u8),
    OtherTag,
    NotInitialize(u8),
    Twice,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InitCase {
    pub cfg: PoolCfg,
    pub close_is_signer: bool,
    pub custom: Vec<u8>,
    pub flaw: Option<Flaw>,
}
pub fn init_case() -> impl Strategy<Value = InitCase> {
    use Flaw::*;
    let b = any::<bool>;
    let flaw = prop_oneof![
        Just(PoolOwner),
        (prop_oneof![2 => 0u16..16, 3 => 0u16..1024, 1 => 1016u16..1024], prop_oneof![Just(1u8), Just(0x80u8), 1u8..=255]).prop_map(|(i, b)| PoolDirty(i, b)),
        (0u16..200).prop_map(PoolSmall),
        (0u8..8).prop_map(Rent),
        (0u8..8).prop_map(Rent),
        (0u8..90).prop_map(MintAuthority),
        Just(MintUninit),
        Just(MintForged),
        (0u8..4, 0u8..20).prop_map(|(i, k)| VaultOwner(i, k)),
        (0u8..4).prop_map(VaultForged),
        (0u8..4).prop_map(VaultUninit),
        Just(SignerKey),
        (1u8..=255).prop_map(NonceShift),
        (0u8..90).prop_map(LqdOwner),
        Just(LqdOwnerDelegated),
        (prop_oneof![2 => Just(0u64), 1 => Just(1u64), 1 => Just(u64::MAX), 1 => any::<u64>()], 0u8..6).prop_map(|(n, k)| LqdDelegate(n, k)),
        (0u8..90).prop_map(LqdClose),
        Just(LqdMint),
        Just(LqdForged),
        Just(IniMint),
        Just(IniForged),
        Just(RentSysvar),
        prop_oneof![0u32..150, Just(149u32), Just(1_000_000u32), 1_000_000u32..=u32::MAX].prop_map(FeeRate),
        (0u8..20).prop_map(Truncate),
        Just(NoAdmin),
        Just(Trailing),
        (1u8..40).prop_map(Cut),
        Just(OtherTag),
        (0u8..4).prop_map(NotInitialize),
        Just(Twice),
    ];
    (cfg(any::<bool>()), fee_rate(), b(), prop::collection::vec(any::<u8>(), 0..40), prop_oneof![1 => Just(None), 3 => flaw.prop_map(Some)], amount()).prop_map(|(mut cfg, r, close_is_signer, custom, flaw, _)| {
        cfg.params = 0;
        cfg.fee_rate = r;
        InitCase { cfg, close_is_signer, custom, flaw }
    })
}

pub fn check_init(c: &InitCase) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = World::new();
    common(&mut w);
    let share = [c.cfg.supply / 4, 0, c.cfg.supply / 4];
    let mut e = lay(&mut w, 0, &c.cfg, 1 << 62, &share);
    let other = lay(&mut w, 1, &c.cfg, 1 << 62, &share);
    e.w = w;
    let evil = key("evil-prog", 1);
    let sg = e.signer;
    if c.close_is_signer {
        let k = e.lqd;
        e.w.edit_token(&k, |t| t.close_authority = COption::Some(sg));
    }
    let name: String = (0..c.cfg.name).map(|i| (b'a' + i % 26) as char).collect();
    let mut metas = e.init_metas();
    let mut data = init_data(e.nonce, e.n as u8, &name, c.cfg.fee_rate, &c.custom);
    let mut valid = true;
    let n = e.n;
    let (pool, mint, u0, os) = (e.pool, e.mint, e.users[0].key, other.signer);
    // somebody other than the pool's own key
    let who = move |k: u8, own: Option<Pubkey>| match k {
        1 => os,
        2 => u0,
        3 => pool,
        4 => own.unwrap_or(mint),
        5 => Pubkey::default(),
        0 => key("stranger", 9),
        // the pool's key, or the fee owner's, but for one bit
        k if k % 2 == 0 => near(&sg, k as u64 * 3),
        k => near(&pk(FEE_OWNER), k as u64 * 3),
    };
    use Flaw::*;
    if let Some(f) = c.flaw {
        valid = false;
        match f {
            PoolOwner => e.w.get_mut(&e.pool).unwrap().owner = evil,
            PoolDirty(i, b) => e.w.get_mut(&e.pool).unwrap().data[i as usize] = b,
            PoolSmall(k) => {
                // too small for the record by k+1 bytes
                let need = 8 + 32 + 4 + 64 * n + 32 + 1 + 4 + 4 + name.len() + 32 + 32 + 4 + if c.cfg.admin { 33 + 4 + 9 } else { 1 + 4 };
                let l = need.saturating_sub(k as usize + 1);
                let a = e.w.get_mut(&e.pool).unwrap();
                a.data = vec![0; l];
                a.lamports = rent(l);
            }
            Rent(i) => {
                let k = match i {
                    0 => e.pool,
                    1 => e.mint,
                    2 => e.lqd,
                    3 => e.ini,
                    x => e.vaults[(x as usize - 4) % n],
                };
                e.w.get_mut(&k).unwrap().lamports -= 1;
            }
            MintAuthority(k) => {
                let d = &mut e.w.get_mut(&e.mint).unwrap().data;
                if k == 0 {
                    // the field still names the pool's key, but is not set
                    d[..4].copy_from_slice(&[0; 4]);
                } else {
                    d[4..36].copy_from_slice(who(k, None).as_ref());
                }
            }
            MintUninit => e.w.get_mut(&e.mint).unwrap().data[45] = 0,
            MintForged => e.w.get_mut(&e.mint).unwrap().owner = evil,
            VaultOwner(i, k) => {
                let v = e.vaults[i as usize % n];
                let o = who(k, None);
                e.w.edit_token(&v, |t| {
                    t.owner = o;
                    if k == 0 {
                        t.close_authority = COption::Some(sg);
                    }
                })
            }
            VaultForged(i) => e.w.get_mut(&e.vaults[i as usize % n]).unwrap().owner = evil,
            VaultUninit(i) => e.w.get_mut(&e.vaults[i as usize % n]).unwrap().data[108] = 0,
            SignerKey => {
                // everything belongs to another key than the derived one
                metas[2 + n].pubkey = other.signer;
                for i in 0..n {
                    let v = e.vaults[i];
                    e.w.edit_token(&v, |t| t.owner = other.signer);
                }
                e.w.get_mut(&e.mint).unwrap().data[4..36].copy_from_slice(other.signer.as_ref());
                let k = e.lqd;
                e.w.edit_token(&k, |t| t.close_authority = COption::None);
            }
            NonceShift(d) => data = init_data(e.nonce.wrapping_add(d), n as u8, &name, c.cfg.fee_rate, &c.custom),
            LqdOwner(i) => {
                let k = e.lqd;
                let o = who(i, Some(sg));
                e.w.edit_token(&k, |t| t.owner = o)
            }
            LqdOwnerDelegated => {
                let k = e.lqd;
                e.w.edit_token(&k, |t| {
                    t.owner = key("stranger", 9);
                    t.delegate = COption::Some(pk(FEE_OWNER));
                    t.delegated_amount = u64::MAX;
                })
            }
            LqdDelegate(amount, i) => {
                let k = e.lqd;
                let o = who(i, Some(sg));
                e.w.edit_token(&k, |t| {
                    t.delegate = COption::Some(o);
                    t.delegated_amount = amount;
                })
            }
            LqdClose(i) => {
                let k = e.lqd;
                let o = if i == 5 { pk(FEE_OWNER) } else { who(i, None) };
                e.w.edit_token(&k, |t| t.close_authority = COption::Some(o))
            }
            LqdMint => {
                let k = e.lqd;
                e.w.edit_token(&k, |t| t.mint = other.mint)
            }
            LqdForged => e.w.get_mut(&e.lqd).unwrap().owner = evil,
            IniMint => {
                let k = e.ini;
                e.w.edit_token(&k, |t| t.mint = other.mint)
            }
            IniForged => e.w.get_mut(&e.ini).unwrap().owner = evil,
            RentSysvar => metas[5 + n].pubkey = key("retbuf", 0),
            FeeRate(r) => data = init_data(e.nonce, n as u8, &name, r, &c.custom),
            Truncate(k) => {
                let need = 6 + n + c.cfg.admin as usize;
                metas.truncate(k as usize % need)
            }
            NoAdmin => {
                metas.truncate(6 + n);
                valid = !c.cfg.admin;
            }
            Trailing => data.push(0),
            Cut(k) => data.truncate(data.len().saturating_sub(k as usize).max(8)),
            OtherTag => data[0] ^= 1,
            NotInitialize(k) => {
                let st = [0; 0];
                let _: [u8; 0] = st;
                let listed: Vec<(Pubkey, Pubkey)> = (0..n).map(|i| (e.mints[i], e.vaults[i])).collect();
                let a = if k % 2 == 0 { Action::Create(1) } else { Action::Redeem(1) };
                if k < 2 {
                    metas = e.exec_metas(&listed, e.users[0].pool_token, &e.user_assets(0, &listed), e.users[0].key, e.users[1].pool_token);
                    data = action_data(true, &a);
                } else {
                    metas = e.get_metas(&listed);
                    data = action_data(false, &a);
                }
            }
            Twice => valid = true,
        }
    }
    let before = e.w.accts.clone();
    let r = e.go(&metas, &data);
    rep.evals += 1;
    rep.hit(&(format!("{:?}", c.flaw), c.cfg.admin));
    rep.label(if r.ok() { "accepted" } else { "refused" });
    ensure!(r.ok() == valid, if valid { "init:refused" } else { "init:accepted" }, "pool creation with {:?} ({:?}) gave {:?}", c.flaw, c, r);
    if !valid {
        ensure!(before == e.w.accts, "init:changed", "a refused creation changed accounts");
        return Ok(rep);
    }
    let want = St {
        mint: e.mint,
        assets: (0..n).map(|i| (e.mints[i], e.vaults[i])).collect(),
        signer: e.signer,
        nonce: e.nonce,
        params: vec![],
        name,
        lqd: e.lqd,
        ini: e.ini,
        fee_rate: c.cfg.fee_rate,
        admin: if c.cfg.admin { Some(e.admin) } else { None },
        custom: if c.cfg.admin { custom(false) } else { vec![] },
    };
    let got = e.state().map_err(|x| Violation::new("init:record", x))?;
    ensure!(got == want, "init:record", "pool record {:?}, expected {:?}", got, want);
    for a in &before {
        ensure!(a.key == e.pool || e.w.get(&a.key) == Some(a), "init:bystander", "creation changed {}", a.key);
    }
    let r = e.go(&metas, &data);
    rep.evals += 1;
    ensure!(!r.ok(), "init:twice", "the pool was initialised twice");
    let d2 = init_data(e.nonce, n as u8, "mine", 150, &[]);
    let r = e.go(&metas, &d2);
    ensure!(!r.ok(), "init:twice", "the pool was initialised twice");
    Ok(rep)
}
