//! Pools, their accounts and a byte-level view of them.
use serde::{Deserialize, Serialize};
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, program_error::ProgramError, program_option::COption,
    program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program, sysvar,
};
use std::collections::BTreeMap;
use svm::{key, Acct, Outcome, World};

pub const REQ_TAG: u64 = 0x220a6cbdcd1cc4cf;
pub const STATE_TAG: u64 = 0x16a7874c7fb2301b;
pub const ADMIN_TAG: u64 = 0x31e6452361a17878;
pub const CUSTOM_TAG: u64 = 0x4a3ab7f76f93f94e;
pub const FEE_OWNER: &str = "3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK";

pub fn pk(s: &str) -> Pubkey {
    s.parse().unwrap()
}
pub fn pid() -> Pubkey {
    key("pool-program", 1)
}
pub fn retbuf_pid() -> Pubkey {
    key("retbuf-program", 1)
}

enum Plain {}
impl serum_pool::Pool for Plain {}

/// The library's default pool.
pub fn plain(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    serum_pool::pool_entrypoint::<Plain>(p, a, d)
}

/// The admin-controlled example, entered the way the loader does.
pub fn admin(p: &Pubkey, accs: &[AccountInfo], d: &[u8]) -> ProgramResult {
    const GROW: usize = 10 * 1024;
    // 8-byte aligned buffer in the loader's format
    let mut b: Vec<u8> = Vec::with_capacity(accs.len() * (GROW + 512) + d.len() + 64);
    b.extend_from_slice(&(accs.len() as u64).to_le_bytes());
    let mut at: Vec<usize> = vec![];
    for (i, a) in accs.iter().enumerate() {
        if let Some(j) = accs[..i].iter().position(|x| x.key == a.key) {
            b.extend_from_slice(&[j as u8, 0, 0, 0, 0, 0, 0, 0]);
            at.push(at[j]);
            continue;
        }
        at.push(b.len());
        b.extend_from_slice(&[0xff, a.is_signer as u8, a.is_writable as u8, a.executable as u8, 0, 0, 0, 0]);
        b.extend_from_slice(a.key.as_ref());
        b.extend_from_slice(a.owner.as_ref());
        b.extend_from_slice(&a.lamports().to_le_bytes());
        let data = a.data.borrow();
        b.extend_from_slice(&(data.len() as u64).to_le_bytes());
        b.extend_from_slice(&data);
        let pad = GROW + (8 - data.len() % 8) % 8;
        b.resize(b.len() + pad, 0);
        b.extend_from_slice(&0u64.to_le_bytes());
    }
    b.extend_from_slice(&(d.len() as u64).to_le_bytes());
    b.extend_from_slice(d);
    b.extend_from_slice(p.as_ref());
    let mut words = vec![0u64; b.len() / 8 + 1];
    let base = words.as_mut_ptr() as *mut u8;
    // SAFETY: the buffer is large enough and lives across the call
    let r = unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), base, b.len());
        serum_pool_examples_admin_controlled::entrypoint(base)
    };
    let out = unsafe { std::slice::from_raw_parts(base, b.len()) };
    for (i, a) in accs.iter().enumerate() {
        if accs[..i].iter().any(|x| x.key == a.key) {
            continue;
        }
        let o = at[i];
        **a.lamports.borrow_mut() = u64::from_le_bytes(out[o + 72..o + 80].try_into().unwrap());
        let n = u64::from_le_bytes(out[o + 80..o + 88].try_into().unwrap()) as usize;
        let mut data = a.data.borrow_mut();
        assert_eq!(n, data.len());
        data.copy_from_slice(&out[o + 88..o + 88 + n]);
    }
    if r == 0 {
        Ok(())
    } else {
        Err(ProgramError::from(r))
    }
}

/// Writes data[8..] at the offset given by data[..8].
pub fn retbuf(_: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let off = u64::from_le_bytes(d.get(..8).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap()) as usize;
    let mut x = a[0].try_borrow_mut_data()?;
    let body = &d[8..];
    x.get_mut(off..off + body.len()).ok_or(ProgramError::AccountDataTooSmall)?.copy_from_slice(body);
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct St {
    pub mint: Pubkey,
    pub assets: Vec<(Pubkey, Pubkey)>,
    pub signer: Pubkey,
    pub nonce: u8,
    pub params: Vec<(Pubkey, u8)>,
    pub name: String,
    pub lqd: Pubkey,
    pub ini: Pubkey,
    pub fee_rate: u32,
    pub admin: Option<Pubkey>,
    pub custom: Vec<u8>,
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("pool record truncated".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn key(&mut self) -> Result<Pubkey, String> {
        Ok(Pubkey::new(self.take(32)?))
    }
}

/// Reads a pool record from its published layout.
pub fn read_state(d: &[u8]) -> Result<St, String> {
    let mut r = Rd(d);
    if r.u64()? != STATE_TAG {
        return Err("not a pool record".into());
    }
    let mint = r.key()?;
    let n = r.u32()?;
    let assets = (0..n).map(|_| Ok((r.key()?, r.key()?))).collect::<Result<_, String>>()?;
    let signer = r.key()?;
    let nonce = r.u8()?;
    let n = r.u32()?;
    let params = (0..n).map(|_| Ok((r.key()?, r.u8()?))).collect::<Result<_, String>>()?;
    let n = r.u32()? as usize;
    let name = String::from_utf8(r.take(n)?.to_vec()).map_err(|e| e.to_string())?;
    let (lqd, ini) = (r.key()?, r.key()?);
    let fee_rate = r.u32()?;
    let admin = match r.u8()? {
        0 => None,
        1 => Some(r.key()?),
        x => return Err(format!("option tag {}", x)),
    };
    let n = r.u32()? as usize;
    let custom = r.take(n)?.to_vec();
    Ok(St { mint, assets, signer, nonce, params, name, lqd, ini, fee_rate, admin, custom })
}
pub fn write_state(s: &St) -> Vec<u8> {
    let mut b = STATE_TAG.to_le_bytes().to_vec();
    b.extend_from_slice(s.mint.as_ref());
    b.extend_from_slice(&(s.assets.len() as u32).to_le_bytes());
    for (m, v) in &s.assets {
        b.extend_from_slice(m.as_ref());
        b.extend_from_slice(v.as_ref());
    }
    b.extend_from_slice(s.signer.as_ref());
    b.push(s.nonce);
    b.extend_from_slice(&(s.params.len() as u32).to_le_bytes());
    for (m, v) in &s.params {
        b.extend_from_slice(m.as_ref());
        b.push(*v);
    }
    b.extend_from_slice(&(s.name.len() as u32).to_le_bytes());
    b.extend_from_slice(s.name.as_bytes());
    b.extend_from_slice(s.lqd.as_ref());
    b.extend_from_slice(s.ini.as_ref());
    b.extend_from_slice(&s.fee_rate.to_le_bytes());
    match s.admin {
        None => b.push(0),
        Some(k) => {
            b.push(1);
            b.extend_from_slice(k.as_ref())
        }
    }
    b.extend_from_slice(&(s.custom.len() as u32).to_le_bytes());
    b.extend_from_slice(&s.custom);
    b
}
pub fn custom(paused: bool) -> Vec<u8> {
    let mut b = CUSTOM_TAG.to_le_bytes().to_vec();
    b.push(paused as u8);
    b
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PoolCfg {
    pub admin: bool,
    pub vaults: Vec<u64>,
    pub supply: u64,
    pub fee_rate: u32,
    /// accounts that must accompany every request
    pub params: u8,
    /// initializer's fee account is the LQD one
    pub same_fee: bool,
    pub name: u8,
}

#[derive(Clone)]
pub struct User {
    pub key: Pubkey,
    pub pool_token: Pubkey,
    pub assets: Vec<Pubkey>,
}

pub const N_USERS: usize = 3;
pub const N_MINTS: usize = 5;

#[derive(Clone)]
pub struct PoolEnv {
    pub w: World,
    pub is_admin: bool,
    pub tag: u64,
    pub pool: Pubkey,
    pub mint: Pubkey,
    pub mints: Vec<Pubkey>,
    /// vault of mint i (whether or not listed)
    pub vaults: Vec<Pubkey>,
    pub signer: Pubkey,
    pub nonce: u8,
    pub lqd: Pubkey,
    pub ini: Pubkey,
    pub users: Vec<User>,
    pub admin: Pubkey,
    pub retbuf: Pubkey,
    pub n: usize,
    pub params: Vec<Pubkey>,
    pub space: usize,
}

pub fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

/// Program-wide accounts.
pub fn common(w: &mut World) {
    w.add(Acct { key: sysvar::rent::ID, owner: sysvar::ID, lamports: 1, data: bincode::serialize(&Rent::default()).unwrap(), executable: false });
    for i in 0..N_MINTS as u64 {
        w.add_mint(key("asset_mint", i), u64::MAX / 2, Some(key("issuer", i)));
    }
    for i in 0..N_USERS as u64 {
        w.add(Acct { key: key("user", i), owner: system_program::ID, lamports: 1 << 40, data: vec![], executable: false });
    }
    w.add(Acct { key: key("retbuf", 0), owner: retbuf_pid(), lamports: rent(256), data: vec![0; 256], executable: false });
    svm::register_program(retbuf_pid(), retbuf);
}

/// Lays down an uninitialised pool with its accounts.
pub fn lay(w: &mut World, tag: u64, c: &PoolCfg, user_assets: u64, user_tokens: &[u64; N_USERS]) -> PoolEnv {
    let pool = key("pool", tag);
    let (signer, nonce) = (0u8..=255).rev().find_map(|n| Pubkey::create_program_address(&[pool.as_ref(), &[n]], &pid()).ok().map(|k| (k, n))).unwrap();
    let mint = key("pool_mint", tag);
    w.add_mint(mint, c.supply, Some(signer));
    let space = 1024;
    w.add(Acct { key: pool, owner: pid(), lamports: rent(space), data: vec![0; space], executable: false });
    let mints: Vec<Pubkey> = (0..N_MINTS as u64).map(|i| key("asset_mint", i)).collect();
    let vaults: Vec<Pubkey> = (0..N_MINTS as u64).map(|i| key("vault", tag * 100 + i)).collect();
    for i in 0..N_MINTS {
        w.add_token(vaults[i], mints[i], signer, c.vaults.get(i).copied().unwrap_or(0));
    }
    let lqd = key("lqd_fee", tag);
    w.add_token(lqd, mint, pk(FEE_OWNER), 0);
    let ini = if c.same_fee { lqd } else { key("ini_fee", tag) };
    if !c.same_fee {
        w.add_token(ini, mint, key("initializer", tag), 0);
    }
    let mut users = vec![];
    for u in 0..N_USERS as u64 {
        let k = key("user", u);
        let pt = key("user_pt", tag * 100 + u);
        w.add_token(pt, mint, k, user_tokens[u as usize]);
        let assets: Vec<Pubkey> = (0..N_MINTS as u64)
            .map(|i| {
                let a = key("user_asset", tag * 1000 + u * 10 + i);
                w.add_token(a, mints[i as usize], k, user_assets);
                a
            })
            .collect();
        users.push(User { key: k, pool_token: pt, assets });
    }
    // the rest of the supply
    let held: u64 = user_tokens.iter().sum();
    w.add_token(key("holder", tag), mint, key("holder", 1000 + tag), c.supply - held);
    PoolEnv {
        w: World::new(),
        is_admin: c.admin,
        tag,
        pool,
        mint,
        mints,
        vaults,
        signer,
        nonce,
        lqd,
        ini,
        users,
        admin: key("admin", tag),
        retbuf: key("retbuf", 0),
        n: c.vaults.len(),
        params: vec![],
        space,
    }
}

pub fn init_data(nonce: u8, n: u8, name: &str, fee_rate: u32, custom: &[u8]) -> Vec<u8> {
    let mut d = REQ_TAG.to_le_bytes().to_vec();
    d.push(0);
    d.push(nonce);
    d.push(n);
    d.extend_from_slice(&(name.len() as u32).to_le_bytes());
    d.extend_from_slice(name.as_bytes());
    d.extend_from_slice(&fee_rate.to_le_bytes());
    d.extend_from_slice(&(custom.len() as u32).to_le_bytes());
    d.extend_from_slice(custom);
    d
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Action {
    Create(u64),
    Redeem(u64),
    Swap(Vec<u64>),
}
pub fn action_data(exec: bool, a: &Action) -> Vec<u8> {
    let mut d = REQ_TAG.to_le_bytes().to_vec();
    d.push(if exec { 2 } else { 1 });
    match a {
        Action::Create(n) => {
            d.push(0);
            d.extend_from_slice(&n.to_le_bytes());
        }
        Action::Redeem(n) => {
            d.push(1);
            d.extend_from_slice(&n.to_le_bytes());
        }
        Action::Swap(v) => {
            d.push(2);
            d.extend_from_slice(&(v.len() as u32).to_le_bytes());
            for x in v {
                d.extend_from_slice(&x.to_le_bytes());
            }
        }
    }
    d
}

pub fn rw(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn sig(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

impl PoolEnv {
    pub fn entry(&self) -> svm::ProcessFn {
        if self.is_admin {
            admin
        } else {
            plain
        }
    }
    pub fn init_metas(&self) -> Vec<AccountMeta> {
        let mut m = vec![rw(self.pool), rw(self.mint)];
        m.extend(self.vaults[..self.n].iter().map(|v| rw(*v)));
        m.extend([ro(self.signer), ro(self.lqd), ro(self.ini), ro(sysvar::rent::ID)]);
        if self.is_admin {
            m.push(ro(self.admin));
        }
        m
    }
    pub fn go(&mut self, metas: &[AccountMeta], data: &[u8]) -> Outcome {
        let f = self.entry();
        self.w.exec_raw(&pid(), metas, data, f)
    }
    pub fn state(&self) -> Result<St, String> {
        read_state(self.w.data(&self.pool))
    }
    /// Accounts of an Execute request.
    pub fn exec_metas(&self, listed: &[(Pubkey, Pubkey)], user_pt: Pubkey, assets: &[Pubkey], auth: Pubkey, referrer: Pubkey) -> Vec<AccountMeta> {
        let mut m = vec![rw(self.pool), rw(self.mint)];
        m.extend(listed.iter().map(|a| rw(a.1)));
        m.push(ro(self.signer));
        m.push(rw(user_pt));
        m.extend(assets.iter().map(|a| rw(*a)));
        m.push(sig(auth));
        m.extend([rw(self.lqd), rw(self.ini), rw(referrer), ro(spl_token::ID)]);
        m.extend(self.params.iter().map(|k| ro(*k)));
        m
    }
    pub fn get_metas(&self, listed: &[(Pubkey, Pubkey)]) -> Vec<AccountMeta> {
        let mut m = vec![ro(self.pool), ro(self.mint)];
        m.extend(listed.iter().map(|a| ro(a.1)));
        m.extend([ro(self.signer), rw(self.retbuf), ro(retbuf_pid())]);
        m.extend(self.params.iter().map(|k| ro(*k)));
        m
    }
    /// The user's accounts for the listed assets.
    pub fn user_assets(&self, u: usize, listed: &[(Pubkey, Pubkey)]) -> Vec<Pubkey> {
        listed.iter().map(|a| self.users[u].assets[self.mints.iter().position(|m| *m == a.0).unwrap()]).collect()
    }
    pub fn tokens(&self) -> BTreeMap<Pubkey, spl_token::state::Account> {
        self.w
            .accts
            .iter()
            .filter(|a| a.owner == spl_token::ID && a.data.len() == spl_token::state::Account::LEN)
            .map(|a| (a.key, spl_token::state::Account::unpack_from_slice(&a.data).unwrap()))
            .collect()
    }
    pub fn supply(&self) -> u64 {
        self.w.mint(&self.mint).supply
    }
    /// A pool ready for use.
    pub fn new(c: &PoolCfg, user_assets: u64, user_tokens: &[u64; N_USERS]) -> Result<PoolEnv, String> {
        let mut w = World::new();
        common(&mut w);
        let mut e = lay(&mut w, 0, c, user_assets, user_tokens);
        e.w = w;
        e.init(c)?;
        Ok(e)
    }
    pub fn init(&mut self, c: &PoolCfg) -> Result<(), String> {
        let name: String = (0..c.name).map(|i| (b'a' + i % 26) as char).collect();
        let d = init_data(self.nonce, self.n as u8, &name, c.fee_rate, &[]);
        let m = self.init_metas();
        let r = self.go(&m, &d);
        if !r.ok() {
            return Err(format!("a well-formed pool was refused: {:?}", r));
        }
        if c.params > 0 {
            // pools may ask for extra accounts; written into the record directly
            let mut s = self.state()?;
            self.params = (0..c.params as u64).map(|i| key("param", i)).collect();
            s.params = self.params.iter().map(|k| (*k, 0)).collect();
            let b = write_state(&s);
            self.w.get_mut(&self.pool).unwrap().data[..b.len()].copy_from_slice(&b);
        }
        Ok(())
    }
}

pub fn delegate_of(t: &spl_token::state::Account) -> Option<Pubkey> {
    match t.delegate {
        COption::Some(k) => Some(k),
        COption::None => None,
    }
}
