//! The published instruction builders against the wire format and account
//! lists the processor expects, and against their effect when executed.
use crate::abi::*;
use crate::model::{Ot, St};
use crate::ops::*;
use crate::wire::{mi_side, nz64};
use crate::world::*;
use serum_dex::instruction as ins;
use serum_dex::instruction::SelfTradeBehavior;
use serum_dex::matching::OrderType;
use solana_program::{instruction::Instruction, pubkey::Pubkey, sysvar};
use svm::ensure;
use svm::harness::{Report, Violation};

fn ot(o: Ot) -> OrderType {
    match o {
        Ot::Limit => OrderType::Limit,
        Ot::Ioc => OrderType::ImmediateOrCancel,
        Ot::PostOnly => OrderType::PostOnly,
    }
}
fn st(s: St) -> SelfTradeBehavior {
    match s {
        St::Decrement => SelfTradeBehavior::DecrementTake,
        St::CancelProvide => SelfTradeBehavior::CancelProvide,
        St::Abort => SelfTradeBehavior::AbortTransaction,
    }
}

/// The published builder's version of `act`, where there is one.
pub fn built(env: &Env, act: &Act) -> Option<Instruction> {
    let m = &env.a;
    let p = &env.pid;
    let tok = &spl_token::ID;
    match act {
        Act::New { oo, owner, payer, fee, o, .. } => ins::new_order(
            &m.market,
            oo,
            &m.req_q,
            &m.event_q,
            &m.bids,
            &m.asks,
            payer,
            owner,
            &m.coin_vault,
            &m.pc_vault,
            tok,
            &sysvar::rent::ID,
            fee.as_ref(),
            p,
            mi_side(o.side),
            nz64(o.price)?,
            nz64(o.qty)?,
            ot(o.ot),
            o.cid,
            st(o.st),
            o.limit,
            nz64(o.pc)?,
            o.max_ts,
        ),
        Act::Take { signer, coin, pc, fee, o, min_coin, min_pc } => ins::send_take(
            &m.market,
            &m.req_q,
            &m.event_q,
            &m.bids,
            &m.asks,
            coin,
            pc,
            signer,
            &m.coin_vault,
            &m.pc_vault,
            tok,
            &m.vault_signer,
            fee.as_ref(),
            p,
            mi_side(o.side),
            nz64(o.price)?,
            nz64(o.qty)?,
            nz64(o.pc)?,
            *min_coin,
            *min_pc,
            o.limit,
        ),
        Act::Cancel { oo, owner, side, id } => ins::cancel_order(p, &m.market, &m.bids, &m.asks, oo, owner, &m.event_q, mi_side(*side), *id),
        Act::CancelCid { oo, owner, cid } => ins::cancel_order_by_client_order_id(p, &m.market, &m.bids, &m.asks, oo, owner, &m.event_q, *cid),
        Act::CancelBatch { oo, owner, cids } => {
            let mut c = [0u64; 8];
            if cids.len() > 8 {
                return None;
            }
            c[..cids.len()].copy_from_slice(cids);
            ins::cancel_orders_by_client_order_ids(p, &m.market, &m.bids, &m.asks, oo, owner, &m.event_q, c)
        }
        Act::Consume { given, limit, auth } => {
            let mut ks = given.clone();
            ks.sort_by_key(sort_key);
            let refs: Vec<&Pubkey> = ks.iter().collect();
            match auth {
                None => ins::consume_events(p, refs, &m.market, &m.event_q, &m.coin_vault, &m.pc_vault, *limit),
                Some(a) => ins::consume_events_permissioned(p, refs, &m.market, &m.event_q, a, *limit),
            }
        }
        Act::Settle { oo, owner, coin, pc, referrer } => {
            ins::settle_funds(p, &m.market, tok, oo, owner, &m.coin_vault, coin, &m.pc_vault, pc, referrer.as_ref(), &m.vault_signer)
        }
        Act::Sweep { to } => ins::sweep_fees(p, &m.market, &m.pc_vault, &pk(SWEEPER), to, &m.vault_signer, tok),
        Act::Disable => ins::disable_market(p, &m.market, &pk(DISABLER)),
        Act::InitOo { oo, owner, auth } => ins::init_open_orders(p, oo, owner, &m.market, auth.as_ref()),
        Act::CloseOo { oo, owner, dest } => ins::close_open_orders(p, oo, owner, dest, &m.market),
        Act::Prune { oo, owner, limit, auth } => ins::prune(p, &m.market, &m.bids, &m.asks, auth, oo, owner, &m.event_q, *limit),
        Act::Match { limit } => ins::match_orders(p, &m.market, &m.req_q, &m.bids, &m.asks, &m.event_q, &m.coin_vault, &m.pc_vault, *limit),
        Act::Replace { .. } => return None,
    }
    .ok()
}

pub fn check_builders(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut env = Env::new(&c.cfg, false);
    for op in &c.ops {
        side_effect(&mut env, op);
        let snap = env.snap().map_err(|e| Violation::new("unreadable", e))?;
        for act in resolve(&env, &snap, op) {
            let (metas, mut data) = act.ix(&env.a);
            if let Act::New { o, .. } = &act {
                data = disc(10);
                enc_order(&mut data, o, false);
            }
            if let Act::CancelBatch { .. } = &act {
                data.resize(5 + 64, 0);
            }
            if let Some(ix) = built(&env, &act) {
                let name = format!("build:{:?}", act.kind());
                rep.evals += 1;
                ensure!(ix.program_id == env.pid, name, "{:?} is addressed to {}", act, ix.program_id);
                ensure!(ix.data == data, name, "{:?} is encoded as {:02x?}, wire format is {:02x?}", act, ix.data, data);
                let ks = |v: &[solana_program::instruction::AccountMeta]| v.iter().map(|a| a.pubkey).collect::<Vec<_>>();
                ensure!(ks(&ix.accounts) == ks(&metas), name, "{:?} lists accounts {:?}, expected {:?}", act, ks(&ix.accounts), ks(&metas));
                let sg = |v: &[solana_program::instruction::AccountMeta]| v.iter().map(|a| a.is_signer).collect::<Vec<_>>();
                ensure!(sg(&ix.accounts) == sg(&metas), name, "{:?} asks for signatures {:?}, expected {:?}", act, sg(&ix.accounts), sg(&metas));
                let mut other = env.clone();
                let pid = env.pid;
                let r1 = other.w.exec_raw(&pid, &ix.accounts, &ix.data, dex);
                let r2 = env.w.exec_raw(&pid, &metas, &data, dex);
                ensure!(r1 == r2, name, "{:?} built by the library gave {:?}, built from the documentation {:?}", act, r1, r2);
                let (a, b) = (other.snap(), env.snap());
                ensure!(a == b, name, "{:?} built by the library had another effect", act);
                if r1.ok() {
                    rep.hit(&(format!("{:?}", act), snap.evq.events.len()));
                    rep.label("built, executed, same effect");
                }
            } else {
                env.exec(&act);
            }
        }
    }
    Ok(rep)
}

/// Market creation through the published builder.
pub fn check_create(cfg: &Cfg) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let env = Env::new(cfg, false);
    let m = &env.a;
    let (metas, data) = Env::init_market_ix(m, cfg);
    let a = |lvl: u8, k: &'static str| if cfg.perm >= lvl { Some(svm::key(k, 0)) } else { None };
    let (x, y, z) = (a(1, "oo_auth"), a(2, "prune_auth"), a(3, "crank_auth"));
    let ix = ins::initialize_market(
        &m.market,
        &env.pid,
        &m.coin_mint,
        &m.pc_mint,
        &m.coin_vault,
        &m.pc_vault,
        x.as_ref(),
        y.as_ref(),
        z.as_ref(),
        &m.bids,
        &m.asks,
        &m.req_q,
        &m.event_q,
        cfg.coin_lot,
        cfg.pc_lot,
        m.nonce,
        100,
    )
    .map_err(|_| Violation::new("build:init", "builder refused"))?;
    let ks = |v: &[solana_program::instruction::AccountMeta]| v.iter().map(|a| (a.pubkey, a.is_signer)).collect::<Vec<_>>();
    ensure!(ix.program_id == env.pid && ix.data == data && ks(&ix.accounts) == ks(&metas), "build:init", "{:?} vs {:?} {:02x?}", ix, metas, data);
    // run it on blank accounts
    let mut w = svm::World::new();
    w.add_mint(m.coin_mint, 1, None);
    w.add_mint(m.pc_mint, 1, None);
    Env::lay_market(&mut w, 0, cfg, m.market, m.coin_mint, m.pc_mint);
    let mut w2 = w.clone();
    let pid = env.pid;
    let r = w.exec_raw(&pid, &ix.accounts, &ix.data, dex);
    let r2 = w2.exec_raw(&pid, &metas, &data, dex);
    ensure!(r == r2 && r.ok(), "build:init", "built market creation gave {:?}, documented one {:?}", r, r2);
    for k in [m.market, m.bids, m.asks, m.req_q, m.event_q] {
        ensure!(w.data(&k) == w2.data(&k), "build:init", "different market state");
    }
    let got = market(w.data(&m.market)).map_err(|e| Violation::new("build:init", e))?;
    ensure!(got.auth.map(|(a, p, c)| (Some(a), p, c)).unwrap_or((None, Pubkey::default(), Pubkey::default())).0 == x, "build:init", "authority {:?}", got.auth);
    ensure!((got.coin_lot, got.pc_lot, got.coin_mint, got.pc_mint) == (cfg.coin_lot, cfg.pc_lot, m.coin_mint, m.pc_mint), "build:init", "{:?}", got);
    rep.hit(&format!("{:?}", cfg));
    rep.evals += 1;
    Ok(rep)
}
