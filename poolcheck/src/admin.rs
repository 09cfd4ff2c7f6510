//! The admin-controlled pool (C34).
use crate::env::*;
use crate::hist::{amount, balances, predict_create, predict_redeem, Tok};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use svm::harness::{Report, Violation};
use svm::{bad, ensure, key, World};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Who {
    Admin,
    /// the right account, not signing
    Unsigned,
    User(u8),
    /// whoever was admin first
    First,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Pause(Who),
    /// how to present the vaults: 0 right, 1 reversed, 2 missing one, 3 another account
    Unpause(Who, u8),
    Approve { who: Who, vault: u8, to: u8, amount: u64, twist: u8 },
    /// vault of mint i; 5.. other candidates
    Add(Who, u8),
    Remove(Who, u8),
    Fee(Who, u32),
    Admin { who: Who, new: u8, signs: bool },
    Create { user: u8, size: u64 },
    Redeem { user: u8, size: u64 },
    Quote { create: bool, size: u64 },
    /// a delegate spends from a vault
    Spend { vault: u8, to: u8, amount: u64 },
    Donate { vault: u8, amount: u64 },
    Junk(Who, Vec<u8>),
    /// one user ends up with every share
    Gather(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub cfg: PoolCfg,
    pub space: u16,
    pub ops: Vec<Op>,
}
fn who() -> impl Strategy<Value = Who> {
    prop_oneof![12 => Just(Who::Admin), 1 => Just(Who::Unsigned), 1 => (0u8..3).prop_map(Who::User), 1 => Just(Who::First)]
}
fn small() -> BoxedStrategy<u64> {
    prop_oneof![2 => Just(0u64), 5 => 1u64..100_000, 1 => amount()].boxed()
}
/// Sizes from here up name the whole supply, or what the user holds.
const TOP: u64 = u64::MAX - 8;
fn shares() -> BoxedStrategy<u64> {
    prop_oneof![4 => small(), 1 => Just(TOP), 1 => TOP + 1..=TOP + 6].boxed()
}
fn size_of(e: &PoolEnv, user: usize, size: u64) -> u64 {
    let held = e.w.token_balance(&e.users[user].pool_token);
    match size.wrapping_sub(TOP) {
        0 => e.supply(),
        1 => e.supply().wrapping_sub(1),
        2 => e.supply() + 1,
        3 => held,
        4 => held.wrapping_sub(1),
        5 => held + 1,
        6 => e.supply() / 2,
        _ => size,
    }
}
pub fn case() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        2 => who().prop_map(Op::Pause),
        4 => (who(), prop_oneof![5 => Just(0u8), 1 => 1u8..4]).prop_map(|(a, b)| Op::Unpause(a, b)),
        4 => (who(), 0u8..6, 0u8..4, small(), prop_oneof![8 => Just(0u8), 1 => 1u8..4]).prop_map(|(who, vault, to, amount, twist)| Op::Approve { who, vault, to, amount, twist }),
        4 => (who(), 0u8..10).prop_map(|(a, b)| Op::Add(a, b)),
        4 => (who(), 0u8..10).prop_map(|(a, b)| Op::Remove(a, b)),
        2 => (who(), prop_oneof![3 => 150u32..1_000_000, 1 => 0u32..150, 1 => Just(149u32), 1 => Just(150u32), 1 => Just(1_000_000u32), 1 => Just(999_999u32), 1 => any::<u32>()]).prop_map(|(a, b)| Op::Fee(a, b)),
        2 => (who(), 0u8..4, prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(who, new, signs)| Op::Admin { who, new, signs }),
        4 => (0u8..3, shares()).prop_map(|(user, size)| Op::Create { user, size }),
        4 => (0u8..3, shares()).prop_map(|(user, size)| Op::Redeem { user, size }),
        1 => (0u8..3).prop_map(Op::Gather),
        2 => (any::<bool>(), shares()).prop_map(|(create, size)| Op::Quote { create, size }),
        3 => (0u8..6, 0u8..4, small()).prop_map(|(vault, to, amount)| Op::Spend { vault, to, amount }),
        1 => (0u8..5, small()).prop_map(|(vault, amount)| Op::Donate { vault, amount }),
        1 => (who(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(a, b)| Op::Junk(a, b)),
    ];
    (crate::hist::cfg(Just(true)), prop_oneof![4 => Just(1024u16), 1 => 0u16..200], prop::collection::vec(op, 1..20)).prop_map(|(mut cfg, space, ops)| {
        cfg.params = 0;
        cfg.supply = cfg.supply.clamp(4, 1 << 40);
        for v in &mut cfg.vaults {
            *v = if *v % 4 == 0 { 0 } else { (*v).min(1 << 40) };
        }
        Case { cfg, space, ops }
    })
}

/// Candidate vaults: one per asset, then twins, strangers' accounts, non-accounts.
fn cand(e: &PoolEnv, i: u8) -> Pubkey {
    match i {
        0..=4 => e.vaults[i as usize],
        5 => key("twin_vault", 0),
        6 => e.users[0].assets[4],
        7 => key("forged", 0),
        8 => key("uninit", 0),
        _ => e.pool,
    }
}
fn person(e: &PoolEnv, i: u8) -> Pubkey {
    if i < 3 {
        e.users[i as usize].key
    } else {
        e.admin
    }
}

type Toks = std::collections::BTreeMap<Pubkey, spl_token::state::Account>;

pub fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = World::new();
    common(&mut w);
    let q = c.cfg.supply / 4;
    let mut e = lay(&mut w, 0, &c.cfg, 1 << 62, &[q, q, q]);
    // sometimes the record only just fits
    let need = 8 + 32 + 4 + 64 * e.n + 32 + 1 + 4 + 4 + c.cfg.name as usize + 64 + 4 + 33 + 4 + 9;
    let space = if c.space == 1024 { 1024 } else { need + c.space as usize };
    let a = w.get_mut(&e.pool).unwrap();
    a.data = vec![0; space];
    a.lamports = rent(space);
    w.add_token(key("twin_vault", 0), e.mints[0], e.signer, 0);
    w.add_token(key("forged", 0), e.mints[4], e.signer, 0);
    w.get_mut(&key("forged", 0)).unwrap().owner = key("evil-prog", 1);
    w.add_token(key("uninit", 0), e.mints[4], e.signer, 0);
    w.get_mut(&key("uninit", 0)).unwrap().data[108] = 0;
    e.w = w;
    e.init(&c.cfg).map_err(|x| Violation::new("init", x))?;
    let mut admin = e.admin;
    for op in &c.ops {
        let st = e.state().map_err(|x| Violation::new("record", x))?;
        let toks: Toks = e.tokens();
        let paused = st.custom == custom(true);
        ensure!(paused || st.custom == custom(false), "record", "custom state {:?}", st.custom);
        ensure!(st.admin == Some(admin), "admin", "the pool's admin is {:?}, expected {}", st.admin, admin);
        // what must come out: None = refused
        let mut want_st = st.clone();
        let mut want_tok = toks.clone();
        let mut ok = true;
        let mut metas = vec![];
        let mut data = vec![];
        let mut is_admin_op = true;
        let mut quote: Option<Vec<u64>> = None;
        let mut head = |w: &Who, body: &[u8], metas: &mut Vec<_>| -> bool {
            data = ADMIN_TAG.to_le_bytes().to_vec();
            data.extend_from_slice(body);
            metas.push(rw(e.pool));
            let (k, s) = match w {
                Who::Admin => (admin, true),
                Who::Unsigned => (admin, false),
                Who::User(u) => (e.users[*u as usize].key, true),
                Who::First => (e.admin, true),
            };
            metas.push(if s { sig(k) } else { ro(k) });
            k == admin
        };
        match op {
            Op::Pause(w) => {
                ok &= head(w, &[0], &mut metas);
                want_st.custom = custom(true);
            }
            Op::Unpause(w, how) => {
                ok &= head(w, &[1], &mut metas);
                let mut v: Vec<Pubkey> = st.assets.iter().map(|a| a.1).collect();
                match how {
                    1 => v.reverse(),
                    2 => {
                        v.pop();
                    }
                    3 => {
                        if let Some(x) = v.first_mut() {
                            *x = key("twin_vault", 0)
                        }
                    }
                    _ => {}
                }
                ok &= v == st.assets.iter().map(|a| a.1).collect::<Vec<_>>();
                ok &= st.assets.iter().all(|a| delegate_of(&toks[&a.1]).is_none() || toks[&a.1].delegated_amount == 0);
                metas.extend(v.into_iter().map(ro));
                want_st.custom = custom(false);
            }
            Op::Approve { who, vault, to, amount, twist } => {
                let mut b = vec![2];
                b.extend_from_slice(&amount.to_le_bytes());
                ok &= head(who, &b, &mut metas);
                let v = cand(&e, *vault);
                ok &= st.assets.iter().any(|a| a.1 == v);
                let sg = if *twist == 1 { e.users[0].key } else { e.signer };
                let tp = if *twist == 2 { key("evil-token", 1) } else { spl_token::ID };
                ok &= *twist == 0 || *twist == 3;
                metas.extend([rw(v), ro(person(&e, *to)), ro(sg), ro(tp)]);
                if *twist == 3 {
                    metas.pop();
                    ok = false;
                }
                want_st.custom = custom(true);
                if let Some(t) = want_tok.get_mut(&v) {
                    t.delegate = Some(person(&e, *to)).into();
                    t.delegated_amount = *amount;
                }
            }
            Op::Add(w, i) => {
                ok &= head(w, &[3], &mut metas);
                let v = cand(&e, *i);
                metas.push(ro(v));
                match (toks.get(&v), *i) {
                    (Some(t), i) if i != 8 => {
                        ok &= !st.assets.iter().any(|a| a.0 == t.mint || a.1 == v) && t.owner == e.signer;
                        want_st.assets.push((t.mint, v));
                    }
                    _ => ok = false,
                }
                ok &= write_state(&want_st).len() <= space;
            }
            Op::Remove(w, i) => {
                ok &= head(w, &[4], &mut metas);
                let v = cand(&e, *i);
                metas.push(ro(v));
                match toks.get(&v) {
                    Some(t) => ok &= t.amount == 0 && st.assets.iter().any(|a| a.1 == v),
                    None => ok = false,
                }
                want_st.assets.retain(|a| a.1 != v);
            }
            Op::Fee(w, r) => {
                let mut b = vec![5];
                b.extend_from_slice(&r.to_le_bytes());
                ok &= head(w, &b, &mut metas);
                ok &= *r >= 150 && *r < 1_000_000;
                want_st.fee_rate = *r;
            }
            Op::Admin { who, new, signs } => {
                ok &= head(who, &[6], &mut metas);
                let k = person(&e, *new);
                metas.push(if *signs { sig(k) } else { ro(k) });
                // the same key may sign elsewhere in the same instruction
                ok &= metas.iter().any(|m| m.pubkey == k && m.is_signer);
                want_st.admin = Some(k);
            }
            Op::Junk(w, b) => {
                ok = false;
                head(w, b, &mut metas);
                // well-formed by chance?
                if matches!(b.as_slice(), [0] | [1] | [3] | [4] | [6]) || b.len() == 9 && b[0] == 2 || b.len() == 5 && b[0] == 5 {
                    continue;
                }
                metas.extend(st.assets.iter().map(|a| rw(a.1)));
            }
            Op::Create { user, size } | Op::Redeem { user, size } => {
                is_admin_op = false;
                let u = *user as usize;
                let size = &size_of(&e, u, *size);
                let pt = e.users[u].pool_token;
                let r = e.users[(u + 1) % N_USERS].pool_token;
                let create = matches!(op, Op::Create { .. });
                let p: Option<(Tok, u64, _, _)> = if create { predict_create(&e, &st, u, pt, r, *size) } else { predict_redeem(&e, &st, u, pt, e.users[u].key, r, *size) };
                metas = e.exec_metas(&st.assets, pt, &e.user_assets(u, &st.assets), e.users[u].key, r);
                data = action_data(true, &if create { Action::Create(*size) } else { Action::Redeem(*size) });
                match (p, paused) {
                    (Some((t, ..)), false) => {
                        for (k, v) in t {
                            want_tok.get_mut(&k).unwrap().amount = v;
                        }
                    }
                    _ => ok = false,
                }
            }
            Op::Quote { create, size } => {
                is_admin_op = false;
                let size = &size_of(&e, 0, *size);
                metas = e.get_metas(&st.assets);
                data = action_data(false, &if *create { Action::Create(*size) } else { Action::Redeem(*size) });
                let s = e.supply() as u128;
                let b: Option<Vec<u64>> = st
                    .assets
                    .iter()
                    .map(|a| {
                        let x = toks[&a.1].amount as u128 * *size as u128;
                        let q = if s == 0 { return None } else if *create { crate::hist::ceil_div(x, s) } else { x / s };
                        if q > i64::MAX as u128 {
                            None
                        } else {
                            Some(q as u64)
                        }
                    })
                    .collect();
                ok = !paused && b.is_some() && s > 0;
                quote = b;
            }
            Op::Spend { vault, to, amount } => {
                let v = cand(&e, *vault);
                let d = person(&e, *to);
                let dest = match e.mints.iter().position(|m| *m == toks[&v].mint) {
                    Some(i) => e.users[0].assets[i],
                    None => continue,
                };
                let ix = spl_token::instruction::transfer(&spl_token::ID, &v, &dest, &d, &[], *amount).unwrap();
                let f: svm::ProcessFn = spl_token::processor::Processor::process;
                let r = e.w.exec(&ix, f);
                if r.ok() {
                    rep.label("delegate spent");
                }
                continue;
            }
            Op::Gather(user) => {
                let mut all = 0;
                let mut from: Vec<Pubkey> = e.users.iter().map(|u| u.pool_token).collect();
                from.push(key("holder", 0));
                from.extend([e.lqd, e.ini]);
                from.sort();
                from.dedup();
                for k in from {
                    if e.w.get(&k).is_some() && e.w.token(&k).mint == e.mint {
                        e.w.edit_token(&k, |t| all += std::mem::take(&mut t.amount));
                    }
                }
                let k = e.users[*user as usize].pool_token;
                e.w.edit_token(&k, |t| t.amount = all);
                if all == e.supply() {
                    rep.label("one holder of everything");
                }
                continue;
            }
            Op::Donate { vault, amount } => {
                let v = e.vaults[*vault as usize];
                let n = (*amount).min(1 << 40);
                e.w.edit_token(&v, |t| t.amount = (t.amount + n).min(1 << 61));
                continue;
            }
        }
        if is_admin_op {
            // the runtime merges the flags of an account named twice
            ok &= metas.iter().any(|m| m.pubkey == admin && m.is_signer);
        }
        let before = e.w.accts.clone();
        let r = e.go(&metas, &data);
        rep.evals += 1;
        rep.label(match (is_admin_op, r.ok()) {
            (true, true) => "admin request ok",
            (true, false) => "admin request refused",
            (false, true) => "user request ok",
            (false, false) if paused => "user request refused while paused",
            _ => "user request refused",
        });
        if r.ok() != ok {
            bad!(if ok { "admin:refused" } else { "admin:accepted" }, "{:?} must be {} (record {:?}): {:?}", op, if ok { "accepted" } else { "refused" }, st, r);
        }
        if !r.ok() {
            ensure!(before == e.w.accts, "admin:changed", "refused {:?} changed accounts", op);
            continue;
        }
        rep.hit(&(format!("{:?}", op), st.assets.len(), paused, st.fee_rate));
        let got = e.state().map_err(|x| Violation::new("record", x))?;
        ensure!(got == want_st, "admin:record", "{:?}: pool record {:?}, expected {:?}", op, got, want_st);
        let t = e.tokens();
        for (k, v) in &t {
            ensure!(*v == want_tok[k], "admin:tokens", "{:?}: token account {} is {:?}, expected {:?}", op, k, v, want_tok[k]);
        }
        if let Some(b) = quote {
            let mut r = Rd(e.w.data(&e.retbuf));
            let n = r.u32().unwrap() as usize;
            let got: Vec<u64> = (0..n.min(20)).map(|_| r.u64().unwrap()).collect();
            ensure!(got == b, "admin:quote", "{:?}: quoted {:?}, expected {:?}", op, got, b);
        }
        admin = got.admin.unwrap_or_default();
    }
    let _ = balances;
    Ok(rep)
}
