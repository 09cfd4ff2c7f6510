//! Pools with rules of their own (C41): recording and scripted rules plugged
//! into the library, compared with a model of what the library owes them.
use crate::env::*;
use crate::hist::{amount, balances, ceil_div, charged, fee_rate, mv, Tok};
use crate::layout::{encode_basket, from_lib, read_request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_pool::schema::{Basket, PoolState};
use serum_pool::{Pool, PoolContext};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, program_error::ProgramError, pubkey::Pubkey};
use std::cell::RefCell;
use svm::harness::{Report, Violation};
use svm::{bad, ensure, key, World};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Custom { n: u16, b: u8 },
    Rate(u32),
    Name(u8),
    Admin(Option<u8>),
    Params(Vec<(u8, bool)>),
    /// only while the pool is being created
    Nonce(u8),
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Script {
    /// quantities the rule names; none: the proportional basket
    pub basket: Option<Vec<i64>>,
    pub fail: Option<u32>,
    pub give: Vec<i64>,
    pub take: Vec<i64>,
    pub edits: Vec<Edit>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// one of the recorded extra accounts replaced
    Other(u8),
    /// the last one left out
    Missing,
    /// two swapped
    Swapped,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Init { rate: u32, script: Script, extra: u8 },
    Act { exec: bool, a: Action, user: u8, referrer: u8, script: Script, extra: u8, fault: Fault },
    /// other data
    Foreign { data: Vec<u8>, near: Option<u8>, fail: Option<u32>, accounts: u8 },
    /// the pool's own tag with a damaged body
    Damaged { exec: bool, a: Action, cut: Option<u8>, grow: Vec<u8>, set: Option<(u8, u8)> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: PoolCfg,
    /// the rules also take over creating and redeeming themselves
    pub whole: bool,
    pub user_assets: u64,
    pub user_tokens: [u64; N_USERS],
    pub ops: Vec<Op>,
}

fn quantities() -> impl Strategy<Value = Vec<i64>> {
    let q = prop_oneof![2 => 0i64..4, 5 => 0i64..1000, 3 => 0i64..10_000_000, 1 => (0u32..63).prop_map(|b| 1i64 << b), 1 => -5i64..0, 1 => any::<i64>()];
    prop_oneof![9 => prop::collection::vec(prop_oneof![6 => (0i64..1000).boxed(), 2 => q.boxed()], 4), 1 => Just(vec![0, 0, 0, 0])]
}
fn edits() -> impl Strategy<Value = Vec<Edit>> {
    let e = prop_oneof![
        4 => (prop_oneof![8 => 0u16..40, 1 => 500u16..1100], any::<u8>()).prop_map(|(n, b)| Edit::Custom { n, b }),
        2 => prop_oneof![5 => fee_rate().boxed(), 1 => prop_oneof![0u32..150, Just(149u32), Just(1_000_000u32), any::<u32>()].boxed()].prop_map(Edit::Rate),
        1 => (0u8..30).prop_map(Edit::Name),
        1 => any::<Option<u8>>().prop_map(Edit::Admin),
        3 => prop::collection::vec((0u8..6, any::<bool>()), 0..4).prop_map(Edit::Params),
        1 => any::<u8>().prop_map(Edit::Nonce),
    ];
    prop_oneof![2 => Just(vec![]).boxed(), 3 => prop::collection::vec(e, 1..4).boxed()]
}
fn script() -> impl Strategy<Value = Script> {
    (prop::option::of(quantities()), prop_oneof![8 => Just(None), 1 => any::<u32>().prop_map(Some)], quantities(), quantities(), edits()).prop_map(|(basket, fail, give, take, edits)| Script { basket, fail, give, take, edits })
}
fn action() -> impl Strategy<Value = Action> {
    let size = || prop_oneof![4 => 0u64..1000, 3 => amount()];
    prop_oneof![4 => size().prop_map(Action::Create), 4 => size().prop_map(Action::Redeem), 3 => prop::collection::vec(amount(), 0..5).prop_map(Action::Swap)]
}
pub fn case() -> impl Strategy<Value = Case> {
    let init = || (prop_oneof![6 => fee_rate().boxed(), 1 => prop_oneof![0u32..150, Just(1_000_000u32), any::<u32>()].boxed()], script(), 0u8..7).prop_map(|(rate, script, extra)| Op::Init { rate, script, extra });
    let op = prop_oneof![
        10 => (any::<bool>(), action(), 0u8..3, 0u8..4, script(), prop_oneof![3 => 0u8..3, 1 => 3u8..9], prop_oneof![8 => Just(Fault::None), 1 => any::<u8>().prop_map(Fault::Other), 1 => Just(Fault::Missing), 1 => Just(Fault::Swapped)])
            .prop_map(|(g, a, user, referrer, script, extra, fault)| Op::Act { exec: g || matches!(fault, Fault::Swapped), a, user, referrer, script, extra, fault }),
        2 => (prop::collection::vec(any::<u8>(), 0..40), prop::option::of(0u8..64), prop::option::weighted(0.3, any::<u32>()), 0u8..6).prop_map(|(data, near, fail, accounts)| Op::Foreign { data, near, fail, accounts }),
        2 => (any::<bool>(), action(), prop::option::of(any::<u8>()), prop::collection::vec(any::<u8>(), 0..4), prop::option::of((8u8..32, any::<u8>()))).prop_map(|(exec, a, cut, grow, set)| Op::Damaged { exec, a, cut, grow, set }),
        1 => init(),
    ];
    (crate::hist::cfg(Just(false)), any::<bool>(), prop_oneof![4 => Just(1u64 << 40), 1 => 0u64..2000], [0u16..=1000, 0u16..=1000, 0u16..=1000], prop::collection::vec(init(), 1..3), prop::collection::vec(op, 1..10)).prop_map(
        |(mut cfg, whole, user_assets, sh, first, rest)| {
            cfg.params = 0;
            let mut left = cfg.supply;
            let mut user_tokens = [0u64; N_USERS];
            for i in 0..N_USERS {
                user_tokens[i] = (left as u128 * sh[i] as u128 / 1000) as u64;
                left -= user_tokens[i];
            }
            Case { cfg, whole, user_assets, user_tokens, ops: first.into_iter().chain(rest).collect() }
        },
    )
}

/// One call received by a rule.
#[derive(Clone, Debug, PartialEq)]
struct Call {
    rule: &'static str,
    sizes: Vec<u64>,
    record: Option<St>,
    /// pool, mint, vaults, authority
    own: Vec<Pubkey>,
    user: Option<Vec<Pubkey>>,
    fees: Option<Vec<Pubkey>>,
    retbuf: Option<Vec<Pubkey>>,
    params: Option<Vec<(Pubkey, bool)>>,
    extra: Vec<Pubkey>,
    held: Vec<u64>,
    supply: u64,
    data: Vec<u8>,
}
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    static LOG: RefCell<Vec<Call>> = RefCell::new(vec![]);
}
fn rec(rule: &'static str, c: &PoolContext, s: &PoolState, sizes: Vec<u64>) -> Result<Script, ProgramError> {
    let mut own = vec![*c.pool_account.key, *c.pool_token_mint.key];
    own.extend(c.pool_vault_accounts.iter().map(|a| *a.key));
    own.push(*c.pool_authority.key);
    let call = Call {
        rule,
        sizes,
        record: Some(from_lib(s)),
        own,
        user: c.user_accounts.as_ref().map(|u| {
            let mut v = vec![*u.pool_token_account.key];
            v.extend(u.asset_accounts.iter().map(|a| *a.key));
            v.push(*u.authority.key);
            v
        }),
        fees: c.fee_accounts.as_ref().map(|f| vec![*f.lqd_fee_account.key, *f.initializer_fee_account.key, *f.referrer_fee_account.key]),
        retbuf: c.retbuf.as_ref().map(|r| vec![*r.account.key, *r.program.key]),
        params: c.account_params.map(|p| p.iter().map(|a| (*a.key, a.is_writable)).collect()),
        extra: c.custom_accounts.iter().map(|a| *a.key).collect(),
        held: c.pool_asset_quantities()?,
        supply: c.total_pool_tokens()?,
        data: vec![],
    };
    LOG.with(|l| l.borrow_mut().push(call));
    let sc = SCRIPT.with(|s| s.borrow().clone());
    match sc.fail {
        Some(n) => Err(ProgramError::Custom(n)),
        None => Ok(sc),
    }
}
fn named(c: &PoolContext, q: &Option<Vec<i64>>, size: u64, up: bool) -> Result<Basket, ProgramError> {
    match q {
        Some(q) => Ok(Basket { quantities: q[..c.pool_vault_accounts.len()].to_vec() }),
        None => c.get_simple_basket(size, up),
    }
}
fn cutto(c: &PoolContext, q: &[i64]) -> Basket {
    Basket { quantities: q[..c.pool_vault_accounts.len()].to_vec() }
}
fn apply(e: &Edit, s: &mut St, init: bool) {
    match e {
        Edit::Custom { n, b } => s.custom = vec![*b; *n as usize],
        Edit::Rate(r) => s.fee_rate = *r,
        Edit::Name(n) => s.name = "é".repeat(*n as usize),
        Edit::Admin(a) => s.admin = a.map(|a| key("adm", a as u64)),
        Edit::Params(v) => s.params = v.iter().map(|(k, w)| (key("param", *k as u64), *w as u8)).collect(),
        Edit::Nonce(n) if init => s.nonce = *n,
        Edit::Nonce(_) => {}
    }
}
fn edit(es: &[Edit], s: &mut PoolState, init: bool) {
    for e in es {
        let mut x = from_lib(s);
        apply(e, &mut x, init);
        s.custom_state = x.custom;
        s.fee_rate = x.fee_rate;
        s.name = x.name;
        s.admin_key = x.admin.map(|a| a.into());
        s.account_params = x.params.iter().map(|(a, w)| serum_pool::schema::ParamDesc { address: a.into(), writable: *w != 0 }).collect();
        s.vault_signer_nonce = x.nonce;
    }
}
fn foreign(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    LOG.with(|l| {
        l.borrow_mut().push(Call {
            rule: "other",
            sizes: vec![],
            record: None,
            own: vec![*p],
            user: None,
            fees: None,
            retbuf: None,
            params: None,
            extra: a.iter().map(|a| *a.key).collect(),
            held: vec![],
            supply: 0,
            data: d.to_vec(),
        })
    });
    SCRIPT.with(|s| s.borrow().fail).map_or(Ok(()), |n| Err(ProgramError::Custom(n)))
}

macro_rules! rules {
    () => {
        fn initialize_pool(c: &PoolContext, s: &mut PoolState) -> Result<(), ProgramError> {
            let sc = rec("create pool", c, s, vec![])?;
            edit(&sc.edits, s, true);
            Ok(())
        }
        fn get_creation_basket(c: &PoolContext, s: &PoolState, n: u64) -> Result<Basket, ProgramError> {
            let sc = rec("creation basket", c, s, vec![n])?;
            named(c, &sc.basket, n, true)
        }
        fn get_redemption_basket(c: &PoolContext, s: &PoolState, n: u64) -> Result<Basket, ProgramError> {
            let sc = rec("redemption basket", c, s, vec![n])?;
            named(c, &sc.basket, n, false)
        }
        fn get_swap_basket(c: &PoolContext, s: &PoolState, v: &[u64]) -> Result<Basket, ProgramError> {
            let sc = rec("swap basket", c, s, v.to_vec())?;
            named(c, &sc.basket, v.get(0).copied().unwrap_or(0), false)
        }
        fn process_swap(c: &PoolContext, s: &mut PoolState, v: &[u64]) -> Result<(), ProgramError> {
            let sc = rec("swap", c, s, v.to_vec())?;
            edit(&sc.edits, s, false);
            c.transfer_basket_from_user(&cutto(c, &sc.give))?;
            c.transfer_basket_to_user(s, &cutto(c, &sc.take))
        }
        fn process_foreign_instruction(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
            foreign(p, a, d)
        }
    };
}
enum Rules {}
impl Pool for Rules {
    rules!();
}
enum Whole {}
impl Pool for Whole {
    rules!();
    fn process_creation(c: &PoolContext, s: &mut PoolState, n: u64) -> Result<(), ProgramError> {
        let sc = rec("creation", c, s, vec![n])?;
        edit(&sc.edits, s, false);
        c.transfer_basket_from_user(&cutto(c, &sc.give))?;
        c.mint_tokens(s, n)
    }
    fn process_redemption(c: &PoolContext, s: &mut PoolState, n: u64) -> Result<(), ProgramError> {
        let sc = rec("redemption", c, s, vec![n])?;
        edit(&sc.edits, s, false);
        c.transfer_basket_to_user(s, &cutto(c, &sc.take))
    }
}
fn enter_rules(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    serum_pool::pool_entrypoint::<Rules>(p, a, d)
}
fn enter_whole(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    serum_pool::pool_entrypoint::<Whole>(p, a, d)
}

/// Moves the basket in or out; None when it cannot be.
fn shift(t: &mut Tok, st: &St, ua: &[Pubkey], q: &[i64], into: bool) -> Option<()> {
    for (i, a) in st.assets.iter().enumerate() {
        let n = u64::try_from(q[i]).ok()?;
        let (f, g) = if into { (ua[i], a.1) } else { (a.1, ua[i]) };
        if !mv(t, &f, &g, n) {
            return None;
        }
    }
    Some(())
}
fn mint(env: &PoolEnv, t: &mut Tok, rate: u32, pt: Pubkey, referrer: Pubkey, size: u64) -> Option<u64> {
    if !(150..1_000_000).contains(&rate) || ceil_div(size as u128 * rate as u128, 1_000_000) > (u64::MAX / 2) as u128 {
        return None;
    }
    let f = charged(env, rate, size, pt, referrer);
    let s = env.supply().checked_add(size)?;
    for (k, n) in [(env.lqd, f.lqd), (env.ini, f.ini), (referrer, f.refr), (pt, size - f.total())] {
        let x = t.get_mut(&k).unwrap();
        *x = x.checked_add(n)?;
    }
    Some(s)
}
fn simple(env: &PoolEnv, st: &St, n: u64, up: bool) -> Option<Vec<i64>> {
    let s = env.supply() as u128;
    if s == 0 {
        return None;
    }
    st.assets
        .iter()
        .map(|a| {
            let x = env.w.token_balance(&a.1) as u128 * n as u128;
            i64::try_from(if up { ceil_div(x, s) } else { x / s }).ok()
        })
        .collect()
}

struct Want {
    calls: Vec<Call>,
    /// none: refused
    after: Option<(Option<St>, Tok, u64, Option<Vec<u8>>)>,
    error: Option<u32>,
}

pub fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = World::new();
    common(&mut w);
    let mut env = lay(&mut w, 0, &c.cfg, c.user_assets, &c.user_tokens);
    env.w = w;
    let f: svm::ProcessFn = if c.whole { enter_whole } else { enter_rules };
    for op in &c.ops {
        let stored = env.state().ok();
        let blank = env.w.data(&env.pool).iter().all(|b| *b == 0);
        ensure!(stored.is_some() || blank, "record", "the pool's record cannot be read: {:?}", env.w.data(&env.pool));
        let bal = balances(&env);
        let supply = env.supply();
        let extras = |n: u8| -> Vec<Pubkey> { (0..n as u64).map(|i| key("extra", i)).collect() };
        let mut script = Script::default();
        let base = |rule, sizes: Vec<u64>, st: &St, extra: u8| {
            let mut own = vec![env.pool, env.mint];
            own.extend(st.assets.iter().map(|a| a.1));
            own.push(env.signer);
            Call { rule, sizes, record: Some(st.clone()), own, user: None, fees: None, retbuf: None, params: None, extra: extras(extra), held: st.assets.iter().map(|a| bal[&a.1]).collect(), supply, data: vec![] }
        };
        let (metas, data, want): (Vec<AccountMeta>, Vec<u8>, Want) = match op {
            Op::Init { rate, script: sc, extra } => {
                script = sc.clone();
                let name = "pool".to_string();
                let data = init_data(env.nonce, env.n as u8, &name, *rate, &[7; 3]);
                let mut m = env.init_metas();
                m.extend(extras(*extra).into_iter().map(ro));
                let mut want = Want { calls: vec![], after: None, error: None };
                if stored.is_none() {
                    let st = St {
                        mint: env.mint,
                        assets: (0..env.n).map(|i| (env.mints[i], env.vaults[i])).collect(),
                        signer: env.signer,
                        nonce: env.nonce,
                        params: vec![],
                        name,
                        lqd: env.lqd,
                        ini: env.ini,
                        fee_rate: *rate,
                        admin: None,
                        custom: vec![],
                    };
                    let mut call = base("create pool", vec![], &st, *extra);
                    call.fees = Some(vec![env.lqd, env.ini, env.lqd]);
                    want.calls = vec![call];
                    let mut fin = st;
                    for e in &sc.edits {
                        apply(e, &mut fin, true);
                    }
                    let rate_ok = (150..1_000_000).contains(&fin.fee_rate);
                    let fits = write_state(&fin).len() <= env.space;
                    if sc.fail.is_some() {
                        want.error = sc.fail;
                    } else if rate_ok && fits && fin.nonce == env.nonce {
                        want.after = Some((Some(fin), bal.clone(), supply, None));
                    }
                }
                (m, data, want)
            }
            Op::Act { exec, a, user, referrer, script: sc, extra, fault } => {
                script = sc.clone();
                let u = *user as usize;
                let rf = match referrer {
                    3 => env.ini,
                    r => env.users[*r as usize].pool_token,
                };
                let (pt, auth) = (env.users[u].pool_token, env.users[u].key);
                // a blank pool is asked as if it held what it was laid with
                let assets: Vec<(Pubkey, Pubkey)> = match &stored {
                    Some(s) => s.assets.clone(),
                    None => (0..env.n).map(|i| (env.mints[i], env.vaults[i])).collect(),
                };
                let ua = env.user_assets(u, &assets);
                env.params = vec![];
                let mut m = if *exec { env.exec_metas(&assets, pt, &ua, auth, rf) } else { env.get_metas(&assets) };
                let mut ps: Vec<AccountMeta> = stored.iter().flat_map(|s| s.params.iter()).map(|(k, w)| AccountMeta { pubkey: *k, is_signer: false, is_writable: *w != 0 && *exec }).collect();
                let mut sound = true;
                match fault {
                    Fault::Other(i) if !ps.is_empty() => {
                        let i = *i as usize % ps.len();
                        ps[i].pubkey = key("param", 77);
                        sound = false;
                    }
                    Fault::Missing if !ps.is_empty() => {
                        ps.pop();
                        sound = false;
                    }
                    Fault::Swapped if ps.len() > 1 && ps[0].pubkey != ps[1].pubkey => {
                        ps.swap(0, 1);
                        sound = false;
                    }
                    _ => {}
                }
                m.extend(ps.clone());
                m.extend(extras(*extra).into_iter().map(ro));
                let data = action_data(*exec, a);
                let mut want = Want { calls: vec![], after: None, error: None };
                if let (Some(st), true) = (&stored, sound) {
                    let rate_ok = (150..1_000_000).contains(&st.fee_rate);
                    let mut edited = st.clone();
                    for e in &sc.edits {
                        apply(e, &mut edited, false);
                    }
                    let fits = write_state(&edited).len() <= env.space;
                    // one account named twice is writable if either mention is
                    let wr = |k: &Pubkey| m.iter().any(|x| x.pubkey == *k && x.is_writable);
                    let mut fin = |rule, sizes: Vec<u64>| {
                        let mut x = base(rule, sizes, st, *extra);
                        x.params = Some(ps.iter().map(|p| (p.pubkey, wr(&p.pubkey))).collect());
                        if *exec {
                            let mut v = vec![pt];
                            v.extend(&ua);
                            v.push(auth);
                            x.user = Some(v);
                            x.fees = Some(vec![env.lqd, env.ini, rf]);
                        } else {
                            x.retbuf = Some(vec![env.retbuf, retbuf_pid()]);
                        }
                        x
                    };
                    let n = env.n;
                    let mut t = bal.clone();
                    let named = |size, up| sc.basket.as_ref().map_or_else(|| simple(&env, st, size, up), |q| Some(q[..n].to_vec()));
                    let after = (|| match (*exec, a) {
                        (false, a) => {
                            let (rule, sizes, b) = match a {
                                Action::Create(n) => ("creation basket", vec![*n], named(*n, true)),
                                Action::Redeem(n) => ("redemption basket", vec![*n], named(*n, false)),
                                Action::Swap(v) => ("swap basket", v.clone(), named(v.get(0).copied().unwrap_or(0), false)),
                            };
                            want.calls = vec![fin(rule, sizes)];
                            Some((Some(st.clone()), t, supply, Some(encode_basket(&b?))))
                        }
                        (true, Action::Create(size)) if c.whole => {
                            want.calls = vec![fin("creation", vec![*size])];
                            shift(&mut t, st, &ua, &sc.give, true)?;
                            let s = mint(&env, &mut t, edited.fee_rate, pt, rf, *size)?;
                            Some((Some(edited.clone()), t, s, None)).filter(|_| fits)
                        }
                        (true, Action::Redeem(size)) if c.whole => {
                            want.calls = vec![fin("redemption", vec![*size])];
                            shift(&mut t, st, &ua, &sc.take, false)?;
                            Some((Some(edited.clone()), t, supply, None)).filter(|_| fits)
                        }
                        (true, Action::Create(size)) => {
                            want.calls = vec![fin("creation basket", vec![*size])];
                            shift(&mut t, st, &ua, &named(*size, true)?, true)?;
                            let s = mint(&env, &mut t, st.fee_rate, pt, rf, *size)?;
                            Some((Some(st.clone()), t, s, None))
                        }
                        (true, Action::Redeem(size)) => {
                            if !rate_ok || ceil_div(*size as u128 * st.fee_rate as u128, 1_000_000) > (u64::MAX / 2) as u128 {
                                return None;
                            }
                            let fees = charged(&env, st.fee_rate, *size, pt, rf);
                            let burn = size - fees.total();
                            want.calls = vec![fin("redemption basket", vec![burn])];
                            let b = named(burn, false)?;
                            for (k, n) in [(env.lqd, fees.lqd), (env.ini, fees.ini), (rf, fees.refr)] {
                                if n > 0 && !mv(&mut t, &pt, &k, n) {
                                    return None;
                                }
                            }
                            let x = t.get_mut(&pt).unwrap();
                            *x = x.checked_sub(burn)?;
                            shift(&mut t, st, &ua, &b, false)?;
                            Some((Some(st.clone()), t, supply - burn, None))
                        }
                        (true, Action::Swap(v)) => {
                            want.calls = vec![fin("swap", v.clone())];
                            shift(&mut t, st, &ua, &sc.give, true)?;
                            shift(&mut t, st, &ua, &sc.take, false)?;
                            Some((Some(edited.clone()), t, supply, None)).filter(|_| fits)
                        }
                    })();
                    want.after = after;
                    if sc.fail.is_some() && !want.calls.is_empty() {
                        want.error = sc.fail;
                        want.after = None;
                    }
                }
                (m, data, want)
            }
            Op::Foreign { data, near, fail, accounts } => {
                script.fail = *fail;
                let mut d = data.clone();
                if let Some(b) = near {
                    // the pool's tag but for one bit
                    let mut x = action_data(true, &Action::Create(1));
                    x[*b as usize / 8] ^= 1 << (b % 8);
                    x.truncate(9 + data.len());
                    d = x;
                }
                if d.len() >= 8 && d[..8] == REQ_TAG.to_le_bytes() {
                    d.pop();
                }
                let m: Vec<AccountMeta> = [env.pool, env.mint, env.users[0].key, key("extra", 0), env.signer].iter().take(*accounts as usize).map(|k| ro(*k)).collect();
                let mut call = base("other", vec![], &St { assets: vec![], ..blank_st() }, 0);
                call.record = None;
                call.own = vec![pid()];
                call.extra = m.iter().map(|x| x.pubkey).collect();
                call.supply = 0;
                call.data = d.clone();
                let after = if fail.is_some() { None } else { Some((stored.clone(), bal.clone(), supply, None)) };
                (m, d, Want { calls: vec![call], after, error: *fail })
            }
            Op::Damaged { exec, a, cut, grow, set } => {
                let mut d = action_data(*exec, a);
                if let Some((i, b)) = set {
                    let i = *i as usize % d.len();
                    if i >= 8 {
                        d[i] = *b;
                    }
                }
                if let Some(n) = cut {
                    let n = 8 + *n as usize % (d.len() - 8);
                    d.truncate(n);
                }
                d.extend_from_slice(grow);
                if read_request(&d).is_ok() {
                    continue;
                }
                let assets: Vec<(Pubkey, Pubkey)> = (0..env.n).map(|i| (env.mints[i], env.vaults[i])).collect();
                let m = if *exec { env.exec_metas(&assets, env.users[0].pool_token, &env.user_assets(0, &assets), env.users[0].key, env.users[1].pool_token) } else { env.get_metas(&assets) };
                (m, d, Want { calls: vec![], after: None, error: None })
            }
        };
        SCRIPT.with(|s| *s.borrow_mut() = script);
        LOG.with(|l| l.borrow_mut().clear());
        let before = env.w.accts.clone();
        let r = env.w.exec_raw(&pid(), &metas, &data, f);
        let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        rep.evals += 1;
        let kind = match op {
            Op::Init { .. } => "init",
            Op::Act { exec: true, a: Action::Create(_), .. } => "create",
            Op::Act { exec: true, a: Action::Redeem(_), .. } => "redeem",
            Op::Act { exec: true, .. } => "swap",
            Op::Act { .. } => "quote",
            Op::Foreign { .. } => "other data",
            Op::Damaged { .. } => "damaged",
        };
        rep.label(match (kind, r.ok()) {
            ("init", true) => "init ok",
            ("init", _) => "init refused",
            ("create", true) => "create ok",
            ("create", _) => "create refused",
            ("redeem", true) => "redeem ok",
            ("redeem", _) => "redeem refused",
            ("swap", true) => "swap ok",
            ("swap", _) => "swap refused",
            ("quote", true) => "quote ok",
            ("quote", _) => "quote refused",
            ("other data", _) => "other data",
            _ => "damaged",
        });
        if r.ok() {
            let (st, t, s, quote) = match want.after {
                Some(x) => x,
                None => bad!(format!("{}:accepted", kind), "{:?} must be refused (record {:?}, {:?})", op, stored, c.cfg),
            };
            ensure!(log == want.calls, format!("{}:calls", kind), "{:?}: the pool's rules were called with {:?}, expected {:?}", op, log, want.calls);
            let now = env.state().ok();
            ensure!(now == st, format!("{}:record", kind), "{:?}: the record is {:?}, expected {:?}", op, now, st);
            let t1 = balances(&env);
            for k in t1.keys() {
                ensure!(t1[k] == t[k], format!("{}:amount", kind), "{:?}: account {} holds {}, expected {} (before: {})", op, k, t1[k], t[k], bal[k]);
            }
            ensure!(env.supply() == s, format!("{}:supply", kind), "{:?}: supply {}, expected {}", op, env.supply(), s);
            if let Some(q) = quote {
                ensure!(env.w.data(&env.retbuf)[..q.len()] == q[..], "quote:basket", "{:?}: quoted {:?}, expected {:?}", op, &env.w.data(&env.retbuf)[..q.len()], q);
            }
            for (a, b) in before.iter().zip(&env.w.accts) {
                let may = a.key == env.pool && kind != "quote" && kind != "other data" || a.key == env.retbuf && kind == "quote" || a.key == env.mint || t.contains_key(&a.key);
                ensure!(a == b || may, format!("{}:changed", kind), "{:?} changed account {}", op, a.key);
            }
            rep.hit(&(kind, c.whole, format!("{:?}", op)));
        } else {
            ensure!(want.after.is_none(), format!("{}:refused", kind), "{:?} must be accepted (record {:?}, {:?}): {:?}", op, stored, c.cfg, r);
            ensure!(log.len() <= want.calls.len() && log[..] == want.calls[..log.len()], format!("{}:calls", kind), "refused {:?}: the pool's rules were called with {:?}, expected {:?}", op, log, want.calls);
            if let Some(n) = want.error {
                ensure!(log == want.calls, format!("{}:calls", kind), "{:?}: the pool's rules were called with {:?}, expected {:?}", op, log, want.calls);
                let e = format!("{:?}", r);
                // 0 is reported in a form of its own
                ensure!(n == 0 || e.contains(&format!("Custom({})", n)), format!("{}:error", kind), "{:?}: the rule refused with {}, reported {}", op, n, e);
                rep.label("refused by a rule");
            }
            ensure!(before == env.w.accts, format!("{}:changed", kind), "refused {:?} changed accounts", op);
        }
    }
    Ok(rep)
}
fn blank_st() -> St {
    let z = Pubkey::default();
    St { mint: z, assets: vec![], signer: z, nonce: 0, params: vec![], name: String::new(), lqd: z, ini: z, fee_rate: 0, admin: None, custom: vec![] }
}
