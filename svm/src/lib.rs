//! A small in-process Solana runtime for driving on-chain programs natively.
//!
//! It gives the programs under test exactly what the chain gives them:
//! accounts with owners, lamports and data; signer/writable privileges taken
//! from the instruction's metas; CPI with PDA signing and privilege checks;
//! rent/clock sysvars; and all-or-nothing instructions (an error or a panic
//! rolls every account back).
use serde::{Deserialize, Serialize};
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Once;

pub mod harness;

pub type ProcessFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub executable: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Outcome {
    Ok,
    /// An error returned by the program (or by a program it called).
    Err(String),
    /// The program panicked (on chain: the instruction fails).
    Panic(String),
    /// The runtime refused the instruction's effects.
    Runtime(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Ok)
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub accts: Vec<Acct>,
    pub index: HashMap<Pubkey, usize>,
    pub clock_ts: i64,
    pub clock_slot: u64,
    /// CPIs made by the last executed instruction: (program, data, metas)
    pub last_cpis: Vec<Instruction>,
}

thread_local! {
    static CALLER: RefCell<Vec<Pubkey>> = RefCell::new(Vec::new());
    /// accounts each running program was called with, and the signer and
    /// writable privileges it holds on them
    static CALLER_KEYS: RefCell<Vec<Privs>> = RefCell::new(Vec::new());
    /// accounts given a new length by the system program
    static GROWN: RefCell<HashMap<Pubkey, usize>> = RefCell::new(HashMap::new());
    static CLOCK: Cell<(i64, u64)> = Cell::new((0, 0));
    static CPIS: RefCell<Vec<Instruction>> = RefCell::new(Vec::new());
    static CPI_ERR: RefCell<Option<String>> = RefCell::new(None);
    static TOUCHED: RefCell<HashSet<Pubkey>> = RefCell::new(HashSet::new());
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static LOGS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static PROGRAMS: RefCell<HashMap<Pubkey, ProcessFn>> = RefCell::new(HashMap::new());
}

/// Register a program callable by CPI (per thread).
pub fn register_program(id: Pubkey, f: ProcessFn) {
    PROGRAMS.with(|p| p.borrow_mut().insert(id, f));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
pub fn take_logs() -> Vec<String> {
    LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// (account, signer, writable), one entry per account.
type Privs = Vec<(Pubkey, bool, bool)>;
fn privileges(metas: &[AccountMeta]) -> Privs {
    // an account named twice has the union of the flags
    let mut uniq: Privs = Vec::new();
    for m in metas {
        match uniq.iter_mut().find(|u| u.0 == m.pubkey) {
            Some(u) => {
                u.1 |= m.is_signer;
                u.2 |= m.is_writable;
            }
            None => uniq.push((m.pubkey, m.is_signer, m.is_writable)),
        }
    }
    uniq
}

struct Stubs;

fn sys_u32(d: &[u8], o: usize) -> Option<u32> {
    Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?))
}
fn sys_u64(d: &[u8], o: usize) -> Option<u64> {
    Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?))
}

/// The parts of the system program that the code under test uses.
fn process_system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    use ProgramError::*;
    let tag = sys_u32(data, 0).ok_or(InvalidInstructionData)?;
    let create = |to: &AccountInfo, space: u64, owner: Pubkey| -> ProgramResult {
        if !to.is_signer {
            return Err(MissingRequiredSignature);
        }
        if *to.owner != system_program::ID || to.data_len() != 0 {
            return Err(AccountAlreadyInitialized);
        }
        set_data_len(to, space as usize);
        set_owner(to, owner);
        Ok(())
    };
    match tag {
        0 => {
            let lamports = sys_u64(data, 4).ok_or(InvalidInstructionData)?;
            let space = sys_u64(data, 12).ok_or(InvalidInstructionData)?;
            let owner = Pubkey::new(data.get(20..52).ok_or(InvalidInstructionData)?);
            if infos.len() < 2 {
                return Err(NotEnoughAccountKeys);
            }
            let (from, to) = (&infos[0], &infos[1]);
            if !from.is_signer {
                return Err(MissingRequiredSignature);
            }
            if to.lamports() != 0 {
                return Err(AccountAlreadyInitialized);
            }
            create(to, space, owner)?;
            if from.lamports() < lamports {
                return Err(InsufficientFunds);
            }
            **from.lamports.borrow_mut() -= lamports;
            **to.lamports.borrow_mut() += lamports;
            Ok(())
        }
        1 => {
            let owner = Pubkey::new(data.get(4..36).ok_or(InvalidInstructionData)?);
            let a = infos.get(0).ok_or(NotEnoughAccountKeys)?;
            if !a.is_signer || *a.owner != system_program::ID {
                return Err(MissingRequiredSignature);
            }
            set_owner(a, owner);
            Ok(())
        }
        2 => {
            let lamports = sys_u64(data, 4).ok_or(InvalidInstructionData)?;
            if infos.len() < 2 {
                return Err(NotEnoughAccountKeys);
            }
            let (from, to) = (&infos[0], &infos[1]);
            if !from.is_signer {
                return Err(MissingRequiredSignature);
            }
            if from.lamports() < lamports || *from.owner != system_program::ID {
                return Err(InsufficientFunds);
            }
            **from.lamports.borrow_mut() -= lamports;
            **to.lamports.borrow_mut() += lamports;
            Ok(())
        }
        8 => {
            let space = sys_u64(data, 4).ok_or(InvalidInstructionData)?;
            let a = infos.get(0).ok_or(NotEnoughAccountKeys)?;
            if !a.is_signer || *a.owner != system_program::ID || a.data_len() != 0 {
                return Err(AccountAlreadyInitialized);
            }
            set_data_len(a, space as usize);
            Ok(())
        }
        _ => Err(InvalidInstructionData),
    }
}

/// Largest size an account can be grown to by the system program stub.
pub const MAX_GROW: usize = 16 * 1024;

fn set_data_len(a: &AccountInfo, len: usize) {
    // Accounts that may be created by CPI are backed by buffers with spare
    // capacity (see `World::exec`), so growing a slice in place is sound.
    assert!(len <= MAX_GROW);
    GROWN.with(|g| g.borrow_mut().insert(*a.key, len));
    let mut d = a.data.borrow_mut();
    let p = d.as_mut_ptr();
    // SAFETY: zero-length buffers are allocated with MAX_GROW zeroed bytes.
    *d = unsafe { std::slice::from_raw_parts_mut(p, len) };
}
fn set_owner(a: &AccountInfo, owner: Pubkey) {
    // SAFETY: `owner` references point into writable boxes owned by `exec`.
    unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, owner) }
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let _ = message;
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = invoke(ix, infos, seeds);
        if let Err(ref e) = r {
            CPI_ERR.with(|c| *c.borrow_mut() = Some(format!("cpi: {:?}", e)));
        }
        r
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let (ts, slot) = CLOCK.with(|c| c.get());
        let c = Clock {
            unix_timestamp: ts,
            slot,
            ..Clock::default()
        };
        unsafe { *(var_addr as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CALLER.with(|c| *c.borrow().last().expect("cpi outside a program"));
    let pdas: Vec<Pubkey> = seeds
        .iter()
        .filter_map(|s| Pubkey::create_program_address(s, &caller).ok())
        .collect();
    // What the caller may do is what the runtime granted it, whatever flags it
    // set on the infos it holds.
    let held = CALLER_KEYS.with(|c| c.borrow().last().cloned().unwrap_or_default());
    let granted = privileges(&ix.accounts);
    for (k, s, w) in &granted {
        let (_, hs, hw) = *held.iter().find(|h| h.0 == *k).ok_or(ProgramError::NotEnoughAccountKeys)?;
        if *s && !hs && !pdas.contains(k) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if *w && !hw {
            return Err(ProgramError::Custom(0xdead_0001)); // writable privilege escalated
        }
    }
    let mut callee_infos: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let info = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let g = granted.iter().find(|g| g.0 == m.pubkey).unwrap();
        let mut c = info.clone();
        c.is_signer = g.1;
        c.is_writable = g.2;
        callee_infos.push(c);
    }
    // the called program has to be among the caller's accounts
    if !held.iter().any(|h| h.0 == ix.program_id) {
        return Err(ProgramError::NotEnoughAccountKeys);
    }
    CPIS.with(|c| c.borrow_mut().push(ix.clone()));
    TOUCHED.with(|t| {
        let mut t = t.borrow_mut();
        for m in ix.accounts.iter().filter(|m| m.is_writable) {
            t.insert(m.pubkey);
        }
    });
    if CALLER.with(|c| c.borrow().len()) >= 5 {
        return Err(ProgramError::Custom(0xdead_0002)); // call depth
    }
    CALLER.with(|c| c.borrow_mut().push(ix.program_id));
    CALLER_KEYS.with(|c| c.borrow_mut().push(granted));
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            CALLER.with(|c| {
                c.borrow_mut().pop();
            });
            CALLER_KEYS.with(|c| {
                c.borrow_mut().pop();
            });
        }
    }
    let _pop = Pop;
    if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(&ix.program_id, &callee_infos, &ix.data)
    } else if ix.program_id == system_program::ID {
        process_system(&callee_infos, &ix.data)
    } else {
        let f = PROGRAMS.with(|p| p.borrow().get(&ix.program_id).copied());
        match f {
            Some(f) => f(&ix.program_id, &callee_infos, &ix.data),
            None => Err(ProgramError::IncorrectProgramId),
        }
    }
}

static INIT: Once = Once::new();
pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            PANIC_MSG.with(|p| *p.borrow_mut() = msg.clone());
            if std::env::var("VERIF_PANICS").is_ok() && CALLER.with(|c| c.borrow().is_empty()) {
                eprintln!("harness panic: {}", msg);
            }
        }));
    });
}

struct Backing {
    key: Pubkey,
    owner: Box<Pubkey>,
    lamports: Box<u64>,
    buf: Vec<u8>,
    len: usize,
}

impl World {
    pub fn new() -> Self {
        init();
        World {
            clock_ts: 1_650_000_000,
            clock_slot: 1000,
            ..Default::default()
        }
    }
    pub fn add(&mut self, a: Acct) -> usize {
        assert!(!self.index.contains_key(&a.key), "duplicate account");
        let i = self.accts.len();
        self.index.insert(a.key, i);
        self.accts.push(a);
        i
    }
    /// Runs something with more accounts in the world, which are gone afterwards.
    pub fn with_extra<T>(&mut self, extra: &[Acct], f: impl FnOnce(&mut World) -> T) -> T {
        let n = self.accts.len();
        for a in extra {
            self.add(a.clone());
        }
        let t = f(self);
        for a in self.accts.split_off(n) {
            self.index.remove(&a.key);
        }
        t
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.index.get(k).map(|i| &self.accts[*i])
    }
    pub fn get_mut(&mut self, k: &Pubkey) -> Option<&mut Acct> {
        let i = *self.index.get(k)?;
        Some(&mut self.accts[i])
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        &self.get(k).expect("account").data
    }
    /// Balance of an SPL token account (0 when absent or not a token account).
    pub fn token_balance(&self, k: &Pubkey) -> u64 {
        match self.get(k) {
            Some(a) if a.owner == spl_token::ID && a.data.len() == spl_token::state::Account::LEN => {
                u64::from_le_bytes(a.data[64..72].try_into().unwrap())
            }
            _ => 0,
        }
    }
    pub fn add_mint(&mut self, key: Pubkey, supply: u64, authority: Option<Pubkey>) {
        let mut data = vec![0u8; spl_token::state::Mint::LEN];
        spl_token::state::Mint {
            mint_authority: authority.into(),
            supply,
            decimals: 6,
            is_initialized: true,
            freeze_authority: None.into(),
        }
        .pack_into_slice(&mut data);
        let lamports = Rent::default().minimum_balance(data.len());
        self.add(Acct { key, owner: spl_token::ID, lamports, data, executable: false });
    }
    pub fn add_token(&mut self, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut data = vec![0u8; spl_token::state::Account::LEN];
        spl_token::state::Account {
            mint,
            owner,
            amount,
            delegate: None.into(),
            state: spl_token::state::AccountState::Initialized,
            is_native: None.into(),
            delegated_amount: 0,
            close_authority: None.into(),
        }
        .pack_into_slice(&mut data);
        let lamports = Rent::default().minimum_balance(data.len());
        self.add(Acct { key, owner: spl_token::ID, lamports, data, executable: false });
    }
    pub fn token(&self, k: &Pubkey) -> spl_token::state::Account {
        spl_token::state::Account::unpack_from_slice(self.data(k)).unwrap()
    }
    pub fn edit_token(&mut self, k: &Pubkey, f: impl FnOnce(&mut spl_token::state::Account)) {
        let mut t = self.token(k);
        f(&mut t);
        t.pack_into_slice(&mut self.get_mut(k).unwrap().data);
    }
    pub fn mint(&self, k: &Pubkey) -> spl_token::state::Mint {
        spl_token::state::Mint::unpack_from_slice(self.data(k)).unwrap()
    }

    /// Executes one instruction. On anything but `Outcome::Ok` no account changes.
    pub fn exec(&mut self, ix: &Instruction, f: ProcessFn) -> Outcome {
        self.exec_raw(&ix.program_id, &ix.accounts, &ix.data, f)
    }

    pub fn exec_raw(
        &mut self,
        program_id: &Pubkey,
        metas: &[AccountMeta],
        data: &[u8],
        f: ProcessFn,
    ) -> Outcome {
        // Privileges are per transaction account: merge duplicates.
        let uniq = privileges(metas);
        let mut backing: Vec<Backing> = uniq
            .iter()
            .map(|(k, _, _)| match self.get(k) {
                Some(a) => {
                    let mut buf = a.data.clone();
                    let len = buf.len();
                    if len == 0 {
                        buf = vec![0u8; MAX_GROW];
                    }
                    Backing { key: *k, owner: Box::new(a.owner), lamports: Box::new(a.lamports), buf, len }
                }
                None => Backing {
                    key: *k,
                    owner: Box::new(system_program::ID),
                    lamports: Box::new(0),
                    buf: vec![0u8; MAX_GROW],
                    len: 0,
                },
            })
            .collect();
        let lamports_before: u128 = backing.iter().map(|b| *b.lamports as u128).sum();

        CLOCK.with(|c| c.set((self.clock_ts, self.clock_slot)));
        CPIS.with(|c| c.borrow_mut().clear());
        CPI_ERR.with(|c| *c.borrow_mut() = None);
        TOUCHED.with(|t| t.borrow_mut().clear());
        CALLER.with(|c| {
            let mut c = c.borrow_mut();
            c.clear();
            c.push(*program_id);
        });

        CALLER_KEYS.with(|c| {
            let mut c = c.borrow_mut();
            c.clear();
            c.push(uniq.clone());
        });
        GROWN.with(|g| g.borrow_mut().clear());
        let mut new_lens: Vec<Option<usize>> = Vec::new();
        let executable = |k: Pubkey| match self.get(&k) {
            Some(a) => a.executable,
            None => k == spl_token::ID || k == system_program::ID || PROGRAMS.with(|p| p.borrow().contains_key(&k)),
        };
        let result = {
            let mut infos_u: Vec<AccountInfo> = Vec::with_capacity(backing.len());
            for (b, (_, s, w)) in backing.iter_mut().zip(uniq.iter()) {
                // SAFETY: each backing is borrowed once; `owner` is only written
                // through `set_owner` above.
                let key: &Pubkey = unsafe { &*(&b.key as *const Pubkey) };
                let owner: &Pubkey = unsafe { &*(&*b.owner as *const Pubkey) };
                let len = b.len;
                infos_u.push(AccountInfo {
                    key,
                    is_signer: *s,
                    is_writable: *w,
                    lamports: Rc::new(RefCell::new(&mut *b.lamports)),
                    data: Rc::new(RefCell::new(&mut b.buf[..len])),
                    owner,
                    executable: executable(b.key),
                    rent_epoch: 0,
                });
            }
            let infos: Vec<AccountInfo> = metas
                .iter()
                .map(|m| {
                    let i = uniq.iter().position(|u| u.0 == m.pubkey).unwrap();
                    infos_u[i].clone()
                })
                .collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                f(program_id, &infos, data)
            }));
            // The runtime looks at the memory, not at the slices a program holds.
            for i in &infos_u {
                new_lens.push(GROWN.with(|g| g.borrow().get(i.key).copied()));
            }
            r
        };
        CALLER.with(|c| c.borrow_mut().clear());
        self.last_cpis = CPIS.with(|c| std::mem::take(&mut *c.borrow_mut()));

        match result {
            Err(_) => {
                return Outcome::Panic(PANIC_MSG.with(|p| p.borrow().clone()));
            }
            Ok(Err(e)) => return Outcome::Err(format!("{:?}", e)),
            Ok(Ok(())) => {}
        }
        // On chain a failed CPI fails the whole transaction even if the caller
        // swallowed the error.
        if let Some(e) = CPI_ERR.with(|c| c.borrow_mut().take()) {
            return Outcome::Err(e);
        }
        let touched = TOUCHED.with(|t| t.borrow().clone());
        let lamports_after: u128 = backing.iter().map(|b| *b.lamports as u128).sum();
        if lamports_after != lamports_before {
            return Outcome::Runtime("sum of lamports changed".into());
        }
        for (i, b) in backing.iter().enumerate() {
            let w = uniq[i].2;
            let new = &b.buf[..new_lens[i].unwrap_or(b.len)];
            let (old_owner, old_lamports, old): (Pubkey, u64, &[u8]) = match self.get(&b.key) {
                Some(a) => (a.owner, a.lamports, &a.data),
                None => (system_program::ID, 0, &[]),
            };
            let changed = new != old;
            if !w && (changed || *b.lamports != old_lamports || *b.owner != old_owner) {
                return Outcome::Runtime(format!("readonly account {} modified", b.key));
            }
            if changed && old_owner != *program_id && !touched.contains(&b.key) {
                return Outcome::Runtime(format!("account {} of another program modified", b.key));
            }
            if *b.lamports < old_lamports && old_owner != *program_id && !touched.contains(&b.key) {
                return Outcome::Runtime(format!("account {} of another program debited", b.key));
            }
        }
        for (i, b) in backing.into_iter().enumerate() {
            let new = &b.buf[..new_lens[i].unwrap_or(b.len)];
            match self.index.get(&b.key).copied() {
                Some(j) => {
                    let a = &mut self.accts[j];
                    if a.data != new {
                        a.data.clear();
                        a.data.extend_from_slice(new);
                    }
                    a.lamports = *b.lamports;
                    a.owner = *b.owner;
                }
                None => {
                    if *b.lamports != 0 || !new.is_empty() || *b.owner != system_program::ID {
                        self.add(Acct {
                            key: b.key,
                            owner: *b.owner,
                            lamports: *b.lamports,
                            data: new.to_vec(),
                            executable: false,
                        });
                    }
                }
            }
        }
        Outcome::Ok
    }
}

/// Deterministic, readable test keys: a label plus a number.
pub fn key(label: &str, n: u64) -> Pubkey {
    let mut b = [0u8; 32];
    let l = label.as_bytes();
    b[..l.len().min(16)].copy_from_slice(&l[..l.len().min(16)]);
    // mix the number so byte-order comparisons are not all decided by the label;
    // in every group of five, the first differs from each of the others in one
    // word only: the last, the first, the second, the third
    let g = n / 5;
    let h = g.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    b[16..24].copy_from_slice(&h.to_be_bytes());
    b[24..32].copy_from_slice(&g.to_le_bytes());
    match n % 5 {
        0 => (),
        1 => b[31] ^= 0x40,
        2 => b[0] ^= 0x80,
        3 => b[15] ^= 0x80,
        _ => b[23] ^= 0x55,
    }
    Pubkey::new_from_array(b)
}

/// The same key with one bit changed.
pub fn near(k: &Pubkey, pick: u64) -> Pubkey {
    let mut b = k.to_bytes();
    let i = (pick % 256) as usize;
    b[i / 8] ^= 1 << (i % 8);
    Pubkey::new_from_array(b)
}
