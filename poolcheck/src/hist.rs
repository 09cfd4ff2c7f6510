//! Creation and redemption histories (C30, C31).
use crate::env::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use svm::harness::{Report, Violation};
use svm::{bad, ensure};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Size {
    Abs(u64),
    /// thousandths of the outstanding supply
    Supply(u16),
    /// what the account holds, plus an offset
    Held(i8),
    /// the supply plus an offset
    All(i8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Acc {
    User(u8),
    Lqd,
    Ini,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Create { user: u8, pt: Option<Acc>, referrer: Acc, size: Size },
    Redeem { user: u8, pt: Option<Acc>, referrer: Acc, size: Size },
    Get { create: bool, size: Size },
    Swap { exec: bool, v: Vec<u64> },
    Donate { asset: u8, amount: u64 },
    /// somebody burns pool tokens outside the pool
    Burn { amount: u64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: PoolCfg,
    pub user_assets: u64,
    pub user_tokens: [u64; N_USERS],
    pub ops: Vec<Op>,
}

pub fn amount() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..4,
        4 => 1u64..1000,
        4 => 1u64..10_000_000,
        2 => (0u32..64, 0u64..3).prop_map(|(b, d)| (1u64 << b).saturating_sub(d)),
        2 => (1u64..1000).prop_map(|x| x * 10_000),
        1 => any::<u64>(),
    ]
    .boxed()
}
fn size() -> BoxedStrategy<Size> {
    prop_oneof![
        5 => amount().prop_map(Size::Abs),
        3 => (0u16..3000).prop_map(Size::Supply),
        3 => (-2i8..3).prop_map(Size::Held),
        1 => (-2i8..3).prop_map(Size::All),
    ]
    .boxed()
}
fn acc() -> impl Strategy<Value = Acc> {
    prop_oneof![6 => (0u8..3).prop_map(Acc::User), 1 => Just(Acc::Lqd), 1 => Just(Acc::Ini)]
}
pub fn fee_rate() -> impl Strategy<Value = u32> {
    prop_oneof![2 => 150u32..1000, 3 => Just(2500u32), 2 => 150u32..100_000, 1 => 150u32..1_000_000, 1 => Just(150u32), 1 => Just(999_999u32), 1 => Just(250u32)]
}
pub fn cfg(admin: impl Strategy<Value = bool>) -> impl Strategy<Value = PoolCfg> {
    let supply = prop_oneof![1 => Just(0u64), 3 => 1u64..1000, 4 => 1u64..100_000_000, 2 => (10u32..62).prop_map(|b| 1u64 << b), 1 => (1u64..1 << 62)];
    (admin, prop::collection::vec(prop_oneof![4 => amount(), 2 => 1u64..1_000_000_000], 1..=4), supply, fee_rate(), prop_oneof![3 => Just(0u8), 1 => 1u8..3], prop_oneof![5 => Just(false), 1 => Just(true)], 0u8..20)
        .prop_map(|(admin, vaults, supply, fee_rate, params, same_fee, name)| PoolCfg { admin, vaults: vaults.into_iter().map(|v| v.min(1 << 62)).collect(), supply, fee_rate, params, same_fee, name })
}
pub fn case() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        6 => (0u8..3, prop_oneof![5 => Just(None), 1 => acc().prop_map(Some)], acc(), size()).prop_map(|(user, pt, referrer, size)| Op::Create { user, pt, referrer, size }),
        6 => (0u8..3, prop_oneof![5 => Just(None), 1 => acc().prop_map(Some)], acc(), size()).prop_map(|(user, pt, referrer, size)| Op::Redeem { user, pt, referrer, size }),
        3 => (any::<bool>(), size()).prop_map(|(create, size)| Op::Get { create, size }),
        1 => (any::<bool>(), prop::collection::vec(amount(), 0..4)).prop_map(|(exec, v)| Op::Swap { exec, v }),
        1 => (0u8..4, amount()).prop_map(|(asset, amount)| Op::Donate { asset, amount }),
        1 => amount().prop_map(|amount| Op::Burn { amount }),
    ];
    (cfg(any::<bool>()), prop_oneof![4 => Just(1u64 << 62), 1 => amount().prop_map(|a| a.min(1 << 62))], [0u16..=1000, 0u16..=1000, 0u16..=1000], prop::collection::vec(op, 1..14)).prop_map(|(cfg, user_assets, sh, ops)| {
        let mut left = cfg.supply;
        let mut user_tokens = [0u64; N_USERS];
        for i in 0..N_USERS {
            user_tokens[i] = (left as u128 * sh[i] as u128 / 1000) as u64;
            left -= user_tokens[i];
        }
        Case { cfg, user_assets, user_tokens, ops }
    })
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Fees {
    pub lqd: u64,
    pub ini: u64,
    pub refr: u64,
}
impl Fees {
    pub fn total(&self) -> u64 {
        self.lqd + self.ini + self.refr
    }
}
pub fn ceil_div(a: u128, b: u128) -> u128 {
    if a == 0 {
        0
    } else {
        (a - 1) / b + 1
    }
}
/// The published schedule: rate per million rounded up in total; two fifths of
/// it (at least a ten-thousandth of the tokens, rounded up) to LQD, half of
/// LQD's share (as far as there is any left) to the referrer, the rest to the
/// initializer.
pub fn schedule(rate: u32, tokens: u64) -> Fees {
    let total = ceil_div(tokens as u128 * rate as u128, 1_000_000) as u64;
    let lqd = (total as u128 * 2 / 5).max(ceil_div(tokens as u128, 10_000)) as u64;
    let refr = (lqd / 2).min(total - lqd);
    Fees { lqd, ini: total - lqd - refr, refr }
}
pub fn charged(env: &PoolEnv, rate: u32, tokens: u64, pt: Pubkey, referrer: Pubkey) -> Fees {
    let mut f = schedule(rate, tokens);
    if pt == env.lqd {
        f = Fees::default();
    }
    if pt == env.ini {
        f.ini = 0;
    }
    if pt == referrer {
        f.refr = 0;
    }
    f
}

pub type Tok = BTreeMap<Pubkey, u64>;
pub fn balances(env: &PoolEnv) -> Tok {
    env.w.accts.iter().filter(|a| a.owner == spl_token::ID && a.data.len() == 165).map(|a| (a.key, env.w.token_balance(&a.key))).collect()
}
pub fn mv(t: &mut Tok, from: &Pubkey, to: &Pubkey, n: u64) -> bool {
    if t[from] < n {
        return false;
    }
    if from != to {
        *t.get_mut(from).unwrap() -= n;
        match t[to].checked_add(n) {
            Some(x) => *t.get_mut(to).unwrap() = x,
            None => return false,
        }
    }
    true
}

/// None: must be refused.
pub fn predict_create(env: &PoolEnv, st: &St, user: usize, pt: Pubkey, referrer: Pubkey, size: u64) -> Option<(Tok, u64, Vec<u64>, Fees)> {
    let supply = env.supply();
    if supply == 0 {
        return None;
    }
    let mut t = balances(env);
    let ua = env.user_assets(user, &st.assets);
    let mut basket = vec![];
    for (i, a) in st.assets.iter().enumerate() {
        let q = ceil_div(t[&a.1] as u128 * size as u128, supply as u128);
        if q > i64::MAX as u128 {
            return None;
        }
        basket.push(q as u64);
        let _ = i;
    }
    for (i, a) in st.assets.iter().enumerate() {
        if !mv(&mut t, &ua[i], &a.1, basket[i]) {
            return None;
        }
    }
    if ceil_div(size as u128 * st.fee_rate as u128, 1_000_000) > (u64::MAX / 2) as u128 {
        return None;
    }
    let f = charged(env, st.fee_rate, size, pt, referrer);
    let s2 = supply.checked_add(size)?;
    for (k, n) in [(env.lqd, f.lqd), (env.ini, f.ini), (referrer, f.refr), (pt, size - f.total())] {
        let x = t.get_mut(&k).unwrap();
        *x = x.checked_add(n)?;
    }
    Some((t, s2, basket, f))
}
pub fn predict_redeem(env: &PoolEnv, st: &St, user: usize, pt: Pubkey, auth: Pubkey, referrer: Pubkey, size: u64) -> Option<(Tok, u64, Vec<u64>, Fees)> {
    let supply = env.supply();
    if supply == 0 || env.w.token(&pt).owner != auth {
        return None;
    }
    if ceil_div(size as u128 * st.fee_rate as u128, 1_000_000) > (u64::MAX / 2) as u128 {
        return None;
    }
    let f = charged(env, st.fee_rate, size, pt, referrer);
    let burn = size - f.total();
    let mut t = balances(env);
    let mut basket = vec![];
    for a in &st.assets {
        let q = t[&a.1] as u128 * burn as u128 / supply as u128;
        if q > i64::MAX as u128 {
            return None;
        }
        basket.push(q as u64);
    }
    for (k, n) in [(env.lqd, f.lqd), (env.ini, f.ini), (referrer, f.refr)] {
        if n > 0 && !mv(&mut t, &pt, &k, n) {
            return None;
        }
    }
    if t[&pt] < burn {
        return None;
    }
    *t.get_mut(&pt).unwrap() -= burn;
    let ua = env.user_assets(user, &st.assets);
    for (i, a) in st.assets.iter().enumerate() {
        if !mv(&mut t, &a.1, &ua[i], basket[i]) {
            return None;
        }
    }
    Some((t, supply - burn, basket, f))
}

pub fn size_of(env: &PoolEnv, pt: &Pubkey, s: Size) -> u64 {
    let off = |x: u64, d: i8| x.wrapping_add(d as i64 as u64);
    match s {
        Size::Abs(n) => n,
        Size::Supply(m) => (env.supply() as u128 * m as u128 / 1000).min(u64::MAX as u128) as u64,
        Size::Held(d) => off(env.w.token_balance(pt), d),
        Size::All(d) => off(env.supply(), d),
    }
}

pub fn check(c: &Case, prop: &str) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut env = PoolEnv::new(&c.cfg, c.user_assets, &c.user_tokens).map_err(|e| Violation::new("init", e))?;
    for op in &c.ops {
        let st = env.state().map_err(|e| Violation::new("record", e))?;
        let acc = |a: Acc| match a {
            Acc::User(u) => env.users[u as usize].pool_token,
            Acc::Lqd => env.lqd,
            Acc::Ini => env.ini,
        };
        let (want, metas, data, kind): (Option<(Tok, u64, Vec<u64>, Fees)>, _, _, _) = match op {
            Op::Donate { asset, amount } => {
                let v = env.vaults[*asset as usize % env.n];
                let n = (*amount).min((1 << 62) - env.w.token_balance(&v).min(1 << 62));
                env.w.edit_token(&v, |t| t.amount += n);
                continue;
            }
            Op::Burn { amount } => {
                let h = svm::key("holder", 0);
                let n = (*amount).min(env.w.token_balance(&h));
                env.w.edit_token(&h, |t| t.amount -= n);
                let mint = env.mint;
                let s = env.supply() - n;
                env.w.get_mut(&mint).unwrap().data[36..44].copy_from_slice(&s.to_le_bytes());
                continue;
            }
            Op::Create { user, pt, referrer, size } => {
                let u = *user as usize;
                let pt = pt.map_or(env.users[u].pool_token, acc);
                let n = size_of(&env, &pt, *size);
                let m = env.exec_metas(&st.assets, pt, &env.user_assets(u, &st.assets), env.users[u].key, acc(*referrer));
                (predict_create(&env, &st, u, pt, acc(*referrer), n), m, action_data(true, &Action::Create(n)), "create")
            }
            Op::Redeem { user, pt, referrer, size } => {
                let u = *user as usize;
                let (pt, auth) = match pt {
                    None => (env.users[u].pool_token, env.users[u].key),
                    // acting for a fee account takes its owner's signature
                    Some(a) => (acc(*a), if *user == 0 { env.users[u].key } else { env.w.token(&acc(*a)).owner }),
                };
                let n = size_of(&env, &pt, *size);
                let m = env.exec_metas(&st.assets, pt, &env.user_assets(u, &st.assets), auth, acc(*referrer));
                (predict_redeem(&env, &st, u, pt, auth, acc(*referrer), n), m, action_data(true, &Action::Redeem(n)), "redeem")
            }
            Op::Get { create, size } => {
                let pt = env.users[0].pool_token;
                let n = size_of(&env, &pt, *size);
                let supply = env.supply() as u128;
                let basket: Option<Vec<u64>> = if supply == 0 {
                    None
                } else {
                    st.assets
                        .iter()
                        .map(|a| {
                            let x = env.w.token_balance(&a.1) as u128 * n as u128;
                            let q = if *create { ceil_div(x, supply) } else { x / supply };
                            if q > i64::MAX as u128 {
                                None
                            } else {
                                Some(q as u64)
                            }
                        })
                        .collect()
                };
                let a = if *create { Action::Create(n) } else { Action::Redeem(n) };
                (basket.map(|b| (balances(&env), env.supply(), b, Fees::default())), env.get_metas(&st.assets), action_data(false, &a), "quote")
            }
            Op::Swap { exec, v } => {
                let m = if *exec {
                    env.exec_metas(&st.assets, env.users[0].pool_token, &env.user_assets(0, &st.assets), env.users[0].key, env.users[1].pool_token)
                } else {
                    env.get_metas(&st.assets)
                };
                (None, m, action_data(*exec, &Action::Swap(v.clone())), "swap")
            }
        };
        let before = env.clone();
        let t0 = balances(&env);
        let r = env.go(&metas, &data);
        rep.evals += 1;
        rep.label(match (kind, r.ok()) {
            ("create", true) => "create ok",
            ("create", false) => "create refused",
            ("redeem", true) => "redeem ok",
            ("redeem", false) => "redeem refused",
            ("quote", true) => "quote ok",
            ("quote", false) => "quote refused",
            (_, true) => "swap ok",
            _ => "swap refused",
        });
        match (&want, r.ok()) {
            (None, false) => continue,
            (None, true) => bad!(format!("{}:accepted", kind), "{:?} must be refused in {:?} (supply {}, record {:?})", op, c.cfg, before.supply(), st),
            (Some(_), false) => bad!(format!("{}:refused", kind), "{:?} must be accepted in {:?} (supply {}): {:?}", op, c.cfg, before.supply(), r),
            _ => {}
        }
        let (t, s, basket, fees) = want.unwrap();
        let t1 = balances(&env);
        let st1 = env.state().map_err(|e| Violation::new("record", e))?;
        ensure!(st1 == st, format!("{}:record", kind), "{:?} changed the pool record from {:?} to {:?}", op, st, st1);
        if prop == "C30" {
            let fee_accs = [env.lqd, env.ini];
            for k in t1.keys() {
                let is_pool_token = env.w.token(k).mint == env.mint;
                if is_pool_token {
                    ensure!(t1[k] == t[k], format!("{}:fee", kind), "{:?}: {} {} went from {} to {}, expected {} (fees {:?})", op, if fee_accs.contains(k) { "fee account" } else { "pool token account" }, k, t0[k], t1[k], t[k], fees);
                }
            }
            ensure!(env.supply() == s, format!("{}:supply", kind), "{:?}: supply {} expected {}", op, env.supply(), s);
            if kind != "quote" && fees.total() > 0 {
                rep.hit(&(format!("{:?}", op), st.fee_rate, before.supply()));
            }
        } else {
            for k in t1.keys() {
                ensure!(t1[k] == t[k], format!("{}:amount", kind), "{:?}: token account {} went from {} to {}, expected {} (basket {:?})", op, k, t0[k], t1[k], t[k], basket);
            }
            ensure!(env.supply() == s, format!("{}:supply", kind), "{:?}: supply {} expected {}", op, env.supply(), s);
            if kind == "quote" {
                let d = env.w.data(&env.retbuf);
                let mut r = Rd(d);
                let n = r.u32().unwrap() as usize;
                let got: Vec<u64> = (0..n.min(20)).map(|_| r.u64().unwrap()).collect();
                ensure!(got == basket, "quote:basket", "{:?}: quoted {:?}, expected {:?}", op, got, basket);
                for (a, b) in before.w.accts.iter().zip(&env.w.accts) {
                    ensure!(a == b || a.key == env.retbuf, "quote:changed", "{:?} changed account {}", op, a.key);
                }
            } else {
                // nobody's share loses value
                let (s0, s1) = (before.supply() as u128, env.supply() as u128);
                for a in &st.assets {
                    let (v0, v1) = (t0[&a.1] as u128, t1[&a.1] as u128);
                    // v1/s1 >= v0/s0
                    let ok = match (v1.checked_mul(s0), v0.checked_mul(s1)) {
                        (Some(x), Some(y)) => x >= y,
                        _ => true,
                    };
                    ensure!(ok, format!("{}:dilution", kind), "{:?}: asset {} per pool token went from {}/{} to {}/{}", op, a.0, v0, s0, v1, s1);
                }
            }
            if basket.iter().any(|q| *q > 0) {
                rep.hit(&(format!("{:?}", op), before.supply(), &basket));
            }
        }
        // pool tokens in accounts always add up to the supply
        let sum: u128 = t1.iter().filter(|(k, _)| env.w.token(k).mint == env.mint).map(|(_, v)| *v as u128).sum();
        ensure!(sum == env.supply() as u128, format!("{}:supply", kind), "{:?}: accounts hold {} pool tokens, supply {}", op, sum, env.supply());
    }
    Ok(rep)
}
