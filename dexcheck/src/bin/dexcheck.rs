use dexcheck::abi::*;
use dexcheck::model::*;
use dexcheck::ops::*;
use dexcheck::oracle::*;
use dexcheck::probe::*;
use dexcheck::run::*;
use dexcheck::world::*;
use svm::harness::*;
use svm::{bad, ensure};

type NonTrivial = fn(&Act, &StepOut) -> bool;

fn mark(rep: &mut Report, act: &Act, st: &StepOut) {
    let s = &st.pre;
    rep.hit(&(format!("{:?}", act), s.bids.leaves.len(), s.asks.leaves.len(), s.evq.events.len(), s.mkt.pc_dep));
}

/// A model-checked history with the direct oracles that belong to `prop`.
fn history(cx: &mut Ctx, sub: &str, p: Profile, quick: u64, thorough: u64, nt: NonTrivial, drained: bool) {
    histories(cx, sub, || case(p), quick, thorough, nt, drained)
}
fn histories<S>(cx: &mut Ctx, sub: &str, gen: impl Fn() -> S + Sync, quick: u64, thorough: u64, nt: NonTrivial, drained: bool)
where
    S: proptest::strategy::Strategy<Value = Case>,
{
    let prop = cx.prop.clone();
    let prop = prop.as_str();
    cx.search(sub, quick, thorough, gen, |c: &Case| {
        let mut rep = Report::default();
        let mut mem = Mem::default();
        let start = Env::new(&c.cfg, false).snap().map_err(|e| Violation::new("init", e))?.tokens;
        let mut cut = false;
        let with_b = prop == "C27";
        let mut env = run(c, prop, with_b, &mut rep, |env, act, st, rep| {
            if nt(act, st) {
                mark(rep, act, st);
            }
            match prop {
                "C03" => mem.priority(act, st)?,
                "C04" => mem.bounds(env, act, st)?,
                "C05" => mem.types(act, st)?,
                "C06" => mem.self_trade(act, st)?,
                "C17" => mem.unique(act, st)?,
                "C12" => settled(act, st)?,
                "C25" => swapped(act, st)?,
                _ => {}
            }
            mem.observe(st);
            mem.book_trades(env, act, st);
            if matches!(st.predicted, Err(Fail::Unspecified)) && st.out.ok() {
                cut = true;
            }
            Ok(())
        })?;
        if drained && !cut {
            rep.label("drained");
            rep.label_n("trades settled by draining", mem.trades);
            if mem.trades > 0 && prop == "C02" {
                rep.hit(&format!("{:?}", mem.expect));
            }
            drain(&mut env, &mut mem, prop, &start, true)?;
        }
        Ok(rep)
    });
}

/// Settlement pays exactly the free balances, to the wallets named, once.
fn settled(act: &Act, st: &StepOut) -> V {
    let Act::Settle { oo, coin, pc, referrer, .. } = act else { return Ok(()) };
    if !st.out.ok() {
        return Ok(());
    }
    let (Some(a), Some(b)) = (&st.pre.oos[oo], &st.post.oos[oo]) else { return Ok(()) };
    let d = |k: &_| st.post.tokens[k] as i128 - st.pre.tokens[k] as i128;
    let same = *referrer == Some(*pc);
    ensure!(d(coin) == a.coin_free as i128, "settle:coin", "{:?} paid {} coin, free balance was {}", act, d(coin), a.coin_free);
    let want = a.pc_free as i128 + if same { a.rebates as i128 } else { 0 };
    ensure!(d(pc) == want, "settle:pc", "{:?} paid {} pc, owed {}", act, d(pc), want);
    if let (Some(r), false) = (referrer, same) {
        ensure!(d(r) == a.rebates as i128, "settle:referrer", "{:?} paid the referrer {}, rebate was {}", act, d(r), a.rebates);
    }
    ensure!(b.coin_free == 0 && b.pc_free == 0 && b.rebates == 0, "settle:left", "{:?} left free coin {} pc {} rebates {}", act, b.coin_free, b.pc_free, b.rebates);
    ensure!(b.coin_total == a.coin_total - a.coin_free && b.pc_total == a.pc_total - a.pc_free && a.slots == b.slots, "settle:locked", "{:?} touched locked funds or orders", act);
    Ok(())
}

/// An instant swap gives at least the minimum, leaves nothing behind.
fn swapped(act: &Act, st: &StepOut) -> V {
    let Act::Take { coin, pc, o, min_coin, min_pc, .. } = act else { return Ok(()) };
    if !st.out.ok() {
        return Ok(());
    }
    let d = |k: &_| st.post.tokens[k] as i128 - st.pre.tokens[k] as i128;
    let cl = st.pre.mkt.coin_lot as i128;
    match o.side {
        Sd::Bid => {
            ensure!(d(coin) >= *min_coin as i128 * cl, "swap:minimum", "{:?} received {} coin", act, d(coin));
            ensure!(-d(pc) <= o.pc as i128 && d(coin) <= o.qty as i128 * cl, "swap:maximum", "{:?} paid {} for {}", act, -d(pc), d(coin));
        }
        Sd::Ask => {
            ensure!(d(pc) >= *min_pc as i128, "swap:minimum", "{:?} received {} pc", act, d(pc));
            ensure!(-d(coin) <= o.qty as i128 * cl, "swap:maximum", "{:?} paid {} coin", act, -d(coin));
        }
    }
    ensure!(st.post.book(o.side) == st.pre.book(o.side), "swap:rests", "{:?} changed its own side of the book", act);
    ensure!(st.post.oos == st.pre.oos, "swap:accounts", "{:?} changed an open-orders account", act);
    Ok(())
}

fn any_trade(_: &Act, st: &StepOut) -> bool {
    st.out.ok() && !st.info.trades.is_empty()
}
fn kinds(act: &Act, st: &StepOut, k: &[Kind]) -> bool {
    st.out.ok() && k.contains(&act.kind())
}

/// Replacing equals cancelling and placing one by one.
fn replace_equiv(cx: &mut Ctx, quick: u64, thorough: u64) {
    let p = Profile { replace: 30, new: 30, settle: 2, ..BASE };
    cx.search("replace-vs-sequence", quick, thorough, || case(p), |c: &Case| {
        let mut rep = Report::default();
        let mut env = Env::new(&c.cfg, false);
        for op in &c.ops {
            side_effect(&mut env, op);
            let snap = env.snap().map_err(|e| Violation::new("unreadable", e))?;
            for act in resolve(&env, &snap, op) {
                if let Act::Replace { oo, owner, payer, fee, os, .. } = &act {
                    if os.is_empty() {
                        continue;
                    }
                    let mut seq = env.clone();
                    let r = env.exec(&act);
                    let mut ok = seq.exec(&Act::CancelBatch { oo: *oo, owner: *owner, cids: os.iter().map(|o| o.cid).collect() }).ok();
                    for o in os {
                        ok = ok && seq.exec(&Act::New { oo: *oo, owner: *owner, payer: *payer, fee: *fee, o: *o, legacy: false }).ok();
                    }
                    rep.evals += 1;
                    ensure!(r.ok() == ok, "replace:outcome", "{:?} gave {:?}; cancelling and placing one by one gave success={}", act, r, ok);
                    if ok {
                        let (x, y) = (env.snap(), seq.snap());
                        ensure!(x == y, "replace:state", "{:?}: state differs from cancelling and placing one by one: {:?} vs {:?}", act, x, y);
                        rep.hit(&format!("{:?}", act));
                        rep.label("replace equals its parts");
                    } else {
                        rep.label("replace refused like its parts");
                    }
                } else {
                    env.exec(&act);
                }
            }
        }
        Ok(rep)
    });
}

/// However the crank is batched, the result is the same.
fn crank_equiv(cx: &mut Ctx, quick: u64, thorough: u64) {
    use proptest::prelude::*;
    let p = Profile { consume: 0, take: 12, ..BASE };
    let st = move || (case(p), prop::collection::vec((0u16..6, any::<u8>()), 1..30));
    cx.search("crank-batching", quick, thorough, st, |(c, parts): &(Case, Vec<(u16, u8)>)| {
        let mut rep = Report::default();
        let mut env = Env::new(&c.cfg, false);
        for op in &c.ops {
            if matches!(op, Op::CrankAll) {
                continue;
            }
            side_effect(&mut env, op);
            let snap = env.snap().map_err(|e| Violation::new("unreadable", e))?;
            for act in resolve(&env, &snap, op) {
                env.exec(&act);
            }
        }
        let s0 = env.snap().map_err(|e| Violation::new("unreadable", e))?;
        let all = all_oos(&env, &s0);
        let auth = s0.crank_auth();
        let mut one = env.clone();
        let r = one.exec(&Act::Consume { given: all.clone(), limit: 65535, auth });
        ensure!(r.ok(), "crank:refused", "cranking everything was refused: {:?}", r);
        let s1 = one.snap().map_err(|e| Violation::new("unreadable", e))?;
        ensure!(s1.evq.events.is_empty(), "crank:left", "{} events left", s1.evq.events.len());
        let mut many = env.clone();
        let mut left = s0.evq.events.len();
        for (limit, omit) in parts {
            // the crank hands in a subset of the accounts
            let given: Vec<_> = all.iter().enumerate().filter(|(i, _)| omit & 0x80 == 0 || omit >> i & 1 == 0).map(|x| *x.1).collect();
            if given.is_empty() {
                continue;
            }
            let r = many.exec(&Act::Consume { given, limit: *limit, auth });
            ensure!(r.ok(), "crank:refused", "partial crank was refused: {:?}", r);
            let s = many.snap().map_err(|e| Violation::new("unreadable", e))?;
            let now = s.evq.events.len();
            ensure!(now <= left && left - now <= *limit as usize, "crank:limit", "{} events before, {} after a crank of at most {}", left, now, limit);
            ensure!(s0.evq.events[s0.evq.events.len() - now..] == s.evq.events[..], "crank:fifo", "events were not consumed oldest first");
            left = now;
            rep.evals += 1;
        }
        let r = many.exec(&Act::Consume { given: all, limit: 65535, auth });
        ensure!(r.ok(), "crank:refused", "final crank was refused: {:?}", r);
        let s2 = many.snap().map_err(|e| Violation::new("unreadable", e))?;
        ensure!(s1 == s2, "crank:batching", "batched cranking ended differently: {:?} vs {:?}", s2, s1);
        if s0.evq.events.len() > 3 {
            rep.hit(&format!("{:?}{:?}", s0.evq.events, parts));
        }
        rep.label_n("events cranked both ways", s0.evq.events.len() as u64);
        Ok(rep)
    });
}

/// Refusals with one cause carry that cause's number.
fn reasons(cx: &mut Ctx, sub: &str, p: Profile, quick: u64, thorough: u64) {
    use dexcheck::reasons::*;
    use proptest::prelude::*;
    cx.search(sub, quick, thorough, move || (case(p), any::<u64>()), |(c, salt): &(Case, u64)| {
        let mut rep = Report::default();
        let mut env = Env::new(&c.cfg, true);
        lay_lookalikes(&mut env);
        let mut n = 0u64;
        for op in &c.ops {
            side_effect(&mut env, op);
            let pre = env.snap().map_err(|e| Violation::new("unreadable", e))?;
            for act in resolve(&env, &pre, op) {
                n += 1;
                let pre = env.snap().map_err(|e| Violation::new("unreadable", e))?;
                let (r, _) = act.predict(&env, &pre, None);
                match r {
                    Ok(after) => {
                        refresh_lookalikes(&mut env);
                        let pid = env.pid;
                        let (_, info) = act.predict(&env, &pre, None);
                        let mut judge = |out: svm::Outcome, want: u32, cause: &'static str, what: &str| -> Result<(), Violation> {
                            rep.evals += 1;
                            rep.hit(&(act.kind(), want, what));
                            rep.label(cause);
                            if !out.ok() && number(&out) != Some(want) {
                                bad!(format!("reason:{:?}:{}", act.kind(), cause), "{:?} with {}: refused with {:?}, {} is number {}", act, what, out, cause, want);
                            }
                            Ok(())
                        };
                        // somebody else signs for an open account
                        if matches!(act.kind(), Kind::Settle | Kind::Cancel | Kind::CancelCid | Kind::CancelBatch | Kind::CloseOo) {
                            let at = roles(&act, &env).iter().position(|r| *r == Role::Owner).unwrap();
                            let l: Vec<Probe> = signature_probes(&env, &act, &pre, &info, fp(&(salt, n, 77u8))).into_iter().filter(|x| x.metas[at].is_signer).collect();
                            if let Some(pr) = l.get(fp(&(salt, n)) as usize % l.len().max(1)) {
                                let out = env.w.exec_raw(&pid, &pr.metas, &pr.data, dex);
                                judge(out, code::ORDERS_ACCOUNT, "account of somebody else", &pr.what)?;
                            }
                        }
                        // the queue has room for some of its events only
                        let needs = after.evq.events.len().saturating_sub(pre.evq.events.len());
                        if needs > 0 && matches!(act.kind(), Kind::New | Kind::Take | Kind::Replace | Kind::Cancel | Kind::CancelCid | Kind::CancelBatch) {
                            let room = fp(&(salt, n, 78u8)) as usize % needs;
                            let q = env.a.event_q;
                            let count = (pre.evq.cap - room) as u64;
                            env.w.get_mut(&q).unwrap().data[21..29].copy_from_slice(&count.to_le_bytes());
                            let (m, d) = act.ix(&env.a);
                            let out = env.w.exec_raw(&pid, &m, &d, dex);
                            env.w.get_mut(&q).unwrap().data[21..29].copy_from_slice(&(pre.evq.events.len() as u64).to_le_bytes());
                            ensure!(!out.ok(), "reason:full-queue-passed", "{:?} makes {} events and passed with room for {}", act, needs, room);
                            judge(out, code::EVENTS_FULL, "event queue full", "a queue nearly full")?;
                        }
                        // opened on an account that cannot last
                        if let Act::New { oo, .. } | Act::InitOo { oo, .. } = &act {
                            if pre.oos[oo].is_none() {
                                let a = env.w.get_mut(oo).unwrap();
                                let had = a.lamports;
                                a.lamports = rent(a.data.len()) - 1 - fp(&(salt, n)) % 1000;
                                let (m, d) = act.ix(&env.a);
                                let out = env.w.exec_raw(&pid, &m, &d, dex);
                                env.w.get_mut(oo).unwrap().lamports = had;
                                judge(out, code::NOT_RENT_EXEMPT, "account not rent exempt", "too few lamports")?;
                            }
                        }
                        for i in 0..2 {
                            let Some(pr) = substitution(&env, &act, &pre, fp(&(salt, n, i))) else { continue };
                            let Some((want, cause)) = swapped(&env, &act, &pr) else { continue };
                            let out = env.w.with_extra(&pr.extra, |w| w.exec_raw(&pid, &pr.metas, &pr.data, dex));
                            judge(out, want, cause, &pr.what)?;
                        }
                        env.exec(&act);
                    }
                    Err(why) => {
                        let out = env.exec(&act);
                        if out.ok() {
                            continue;
                        }
                        match sole_cause(&env, &pre, &act, why) {
                            Some((want, cause)) => {
                                rep.evals += 1;
                                rep.hit(&(act.kind(), cause, format!("{:?}", act)));
                                rep.label(cause);
                                if number(&out) != Some(want) {
                                    bad!(format!("reason:{:?}:{}", act.kind(), cause), "{:?}: refused with {:?}, {} is number {}", act, out, cause, want);
                                }
                            }
                            // malformed: a place in the source, never another cause's number
                            None if why == Fail::BadRequest => {
                                rep.evals += 1;
                                if let Some(got) = number(&out) {
                                    ensure!(got >= code::PLACES, format!("reason:{:?}:borrowed", act.kind()), "{:?}: refused with number {}", act, got);
                                }
                            }
                            None => {}
                        }
                    }
                }
            }
        }
        Ok(rep)
    });
}

/// Runs a history and, before every accepted instruction, tries hostile variants.
fn probes(cx: &mut Ctx, sub: &str, p: Profile, quick: u64, thorough: u64) {
    use proptest::prelude::*;
    let prop = cx.prop.clone();
    let prop = prop.as_str();
    let st = move || (case(p), any::<u64>());
    cx.search(sub, quick, thorough, st, |(c, salt): &(Case, u64)| {
        let mut rep = Report::default();
        let subst = prop == "C14";
        let mut env = Env::new(&c.cfg, subst);
        if subst {
            lay_lookalikes(&mut env);
        }
        let evil: svm::ProcessFn = |_, _, _| Ok(());
        svm::register_program(svm::key("evil-token", 1), evil);
        let mut n = 0u64;
        for op in &c.ops {
            side_effect(&mut env, op);
            let pre = env.snap().map_err(|e| Violation::new("unreadable", e))?;
            for act in resolve(&env, &pre, op) {
                n += 1;
                let pre = env.snap().map_err(|e| Violation::new("unreadable", e))?;
                let (r, info) = act.predict(&env, &pre, None);
                // prune's outcome depends on the book walk; its acceptance does not
                if r.is_ok() {
                    let h = fp(&(salt, n));
                    let list: Vec<Probe> = if subst {
                        refresh_lookalikes(&mut env);
                        (0..6).filter_map(|i| substitution(&env, &act, &pre, fp(&(h, i)))).collect()
                    } else {
                        signature_probes(&env, &act, &pre, &info, h)
                            .into_iter()
                            .filter(|x| match prop {
                                "C13" => matches!(x.role, Role::Owner | Role::Admin),
                                "C22" => x.role == Role::Authority,
                                "C23" => x.role == Role::Authority && act.kind() == Kind::Prune,
                                _ => false,
                            })
                            .collect()
                    };
                    for pr in list {
                        let pid = env.pid;
                        let out = env.w.with_extra(&pr.extra, |w| w.exec_raw(&pid, &pr.metas, &pr.data, dex));
                        rep.evals += 1;
                        rep.hit(&(act.kind(), pr.role, &pr.what));
                        if out.ok() {
                            bad!(format!("probe:{:?}:{:?}", act.kind(), pr.role), "{:?} went through with {}", act, pr.what);
                        }
                    }
                    rep.label("instruction probed");
                }
                env.exec(&act);
            }
        }
        Ok(rep)
    });
}

fn main() {
    let mut cx = Ctx::from_args();
    let p = cx.prop.clone();
    cx.assume("Solana runtime semantics as reproduced by the in-process runtime (atomic instructions, signer/writable privileges, account ownership, SPL token 3.x executed for real)");
    let q = 110_000;
    let t = 3_000_000;
    const NEVER_PERM: &[u8] = &[0];
    let _ = NEVER_PERM;
    match p.as_str() {
        "ANY" => {
            history(&mut cx, "history", BASE, q, t, any_trade, true);
            history(&mut cx, "capacity", CAP, 3000, 80_000, any_trade, true);
            let p = Profile { consume: 1, new: 30, bulk: 20, cancel: 8, cancel_cid: 4, cancel_batch: 8, take: 8, replace: 8, prune: 4, ..CAP };
            histories(&mut cx, "late-slots", || late_slots(CAP), 3000, 60_000, any_trade, true);
            history(&mut cx, "full-queue", p, 3000, 80_000, any_trade, true);
        }
        "C44" => {
            cx.rule("a refusal with exactly one cause whose number was compared; fingerprint: the instruction, the cause and its arguments");
            reasons(&mut cx, "history", Profile { disable: 1, perm: &[0, 0, 1, 2, 3], ..BASE }, q / 2, t / 4);
            let p = Profile { consume: 1, new: 30, bulk: 20, cancel: 8, cancel_cid: 4, cancel_batch: 8, take: 8, replace: 8, prune: 4, ..CAP };
            reasons(&mut cx, "full-queue", p, 1500, 40_000);
        }
        "C01" => {
            cx.rule("an accepted instruction after which a vault balance or a recorded liability differs from before; fingerprint: the instruction and the sizes of books and queue it met");
            let nt: NonTrivial = |_, st| st.out.ok() && (st.pre.tokens != st.post.tokens || st.pre.mkt != st.post.mkt || st.pre.oos != st.post.oos);
            history(&mut cx, "history", BASE, q, t, nt, true);
            history(&mut cx, "capacity", CAP, 2400, 60_000, nt, true);
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, cancel: 8, cancel_batch: 12, replace: 6, ..CAP }, 1000, 30_000, nt, true);
        }
        "C02" => {
            cx.rule("a history with at least one trade, drained to empty; fingerprint: the net result of all trades per user");
            let p = Profile { len: (4, 30), perm: &[0, 0, 3], ..BASE };
            history(&mut cx, "history+drain", p, q, t, |_, _| false, true);
            let p = Profile { disable: 2, ..p };
            history(&mut cx, "history+disable+drain", p, q / 4, t / 4, |_, _| false, true);
            history(&mut cx, "capacity+drain", CAP, 2400, 60_000, |_, _| false, true);
            histories(&mut cx, "late-slots", || late_slots(CAP), 1500, 60_000, |_, _| false, true);
        }
        "C03" => {
            cx.rule("an accepted order that matched at least two resting orders, or one with a queue of at least two at that price; fingerprint: the order and the book sizes it met");
            let nt: NonTrivial = |_, st| st.out.ok() && st.info.trades.len() + st.info.self_trades >= 2;
            let p = Profile { spread: 3, take: 16, ..BASE };
            history(&mut cx, "history", p, q, t, nt, false);
            history(&mut cx, "deep-book", DEEP, 2400, 60_000, nt, false);
        }
        "C04" => {
            cx.rule("an accepted order or swap that traded; fingerprint: the order and the book sizes it met");
            history(&mut cx, "history", Profile { take: 16, ..BASE }, q, t, any_trade, false);
            history(&mut cx, "deep-book", DEEP, 2000, 60_000, any_trade, false);
        }
        "C05" => {
            cx.rule("an accepted order that found a crossing order on the other side (trades, post-only refusal, limit reached) or rested; fingerprint: the order and the book sizes it met");
            let nt: NonTrivial = |a, st| st.out.ok() && matches!(a, Act::New { .. }) && (!st.info.trades.is_empty() || st.info.limit_hit || st.info.released);
            history(&mut cx, "history", BASE, q, t, nt, false);
            history(&mut cx, "deep-book", DEEP, 2000, 60_000, nt, false);
        }
        "C06" => {
            cx.rule("an order that met an order of its own account (accepted or aborted); fingerprint: the order and the book sizes it met");
            let nt: NonTrivial = |_, st| st.info.self_trades > 0;
            let p = Profile { st_abort: 4, spread: 2, len: (6, 40), ..BASE };
            history(&mut cx, "history", p, q, t, nt, false);
            histories(&mut cx, "late-slots", || late_slots(CAP), 1500, 60_000, nt, false);
            histories(&mut cx, "deep-book", || case(DEEP), 1500, 60_000, nt, false);
        }
        "C07" => {
            cx.rule("an accepted cancellation that removed at least one order; fingerprint: the instruction and the book sizes it met");
            let nt: NonTrivial = |a, st| kinds(a, st, &[Kind::Cancel, Kind::CancelCid, Kind::CancelBatch]) && !st.info.cancelled.is_empty();
            history(&mut cx, "history", Profile { cancel: 14, cancel_cid: 10, cancel_batch: 8, ..BASE }, q, t, nt, false);
            history(&mut cx, "capacity", Profile { cancel: 14, cancel_cid: 10, cancel_batch: 8, ..CAP }, 2000, 60_000, nt, false);
            // also what is refused for want of room counts here
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, cancel: 10, cancel_cid: 10, cancel_batch: 20, replace: 2, ..CAP }, 1600, 60_000, nt, false);
        }
        "C08" => {
            cx.rule("an accepted replacement; fingerprint: the instruction (and the book sizes it met)");
            let nt: NonTrivial = |a, st| kinds(a, st, &[Kind::Replace]);
            history(&mut cx, "history", Profile { replace: 25, ..BASE }, q * 2 / 3, t / 2, nt, false);
            replace_equiv(&mut cx, q / 3, t / 2);
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, cancel: 2, cancel_cid: 2, cancel_batch: 2, replace: 25, ..CAP }, 1600, 60_000, nt, false);
        }
        "C09" => {
            cx.rule("a crank that consumed events (history), or a queue of at least four events cranked in one go and in generated batches with generated account subsets; fingerprint: instruction and sizes, or the events and batches");
            let nt: NonTrivial = |a, st| kinds(a, st, &[Kind::Consume]) && st.info.consumed > 0;
            history(&mut cx, "history", Profile { consume: 20, ..BASE }, q * 2 / 3, t / 2, nt, false);
            crank_equiv(&mut cx, q / 3, t / 2);
            history(&mut cx, "capacity", CAP, 1200, 30_000, nt, false);
            histories(&mut cx, "late-slots", || late_slots(CAP), 1000, 60_000, nt, false);
        }
        "C10" => {
            cx.rule("an accepted instruction that charged, shared out, paid or swept a fee; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| st.out.ok() && (st.info.fees > 0 || st.pre.mkt.pc_fees != st.post.mkt.pc_fees || matches!(a, Act::Settle { .. }) && st.pre.mkt.rebates != st.post.mkt.rebates);
            history(&mut cx, "history", Profile { sweep: 5, settle: 10, take: 14, spread: 2, ..BASE }, q, t, nt, false);
            histories(&mut cx, "deep-book", || case(DEEP), 1500, 60_000, nt, false);
        }
        "C11" => {
            cx.rule("a trade by a taker presenting a generated discount account (or none) in a generated market; fingerprint: the whole case");
            cx.search("tiers", 120_000, 4_000_000, dexcheck::market::tier_case, dexcheck::market::check_tier);
            history(&mut cx, "history", BASE, q / 3, t / 3, any_trade, false);
        }
        "C20" => {
            cx.rule("a market creation attempt; fingerprint: the flaw planted in it (or none)");
            cx.search("create", 30_000, 1_500_000, dexcheck::market::init_case, dexcheck::market::check_init);
            history(&mut cx, "history", BASE, q / 3, t / 3, |_, _| false, false);
        }
        "C12" => {
            cx.rule("an accepted settlement that paid something; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| kinds(a, st, &[Kind::Settle]) && st.pre.tokens != st.post.tokens;
            history(&mut cx, "history", Profile { settle: 20, spread: 2, ..BASE }, q, t, nt, false);
            histories(&mut cx, "late-slots", || late_slots(CAP), 1500, 60_000, nt, false);
        }
        "C13" => {
            cx.rule("a hostile variant (signature missing, signed by somebody else, somebody else's wallets) of an instruction that is otherwise accepted; fingerprint: instruction kind, role, variant");
            let p = Profile { settle: 10, sweep: 4, disable: 1, close: 3, init: 3, cancel: 10, cancel_cid: 5, cancel_batch: 5, len: (4, 25), ..BASE };
            probes(&mut cx, "hostile-signers", p, q / 2, t / 8);
            let nt: NonTrivial = |_, st| matches!(st.predicted, Err(Fail::NotOwner));
            history(&mut cx, "history", Profile { cancel: 20, ..BASE }, q / 3, t / 4, nt, false);
        }
        "C14" => {
            cx.rule("one account of an otherwise accepted instruction replaced by the other market's counterpart, an account of another role, a forged look-alike, somebody else's account; fingerprint: instruction kind, role, replacement");
            let p = Profile { settle: 10, sweep: 4, close: 3, init: 3, cancel: 10, cancel_cid: 5, cancel_batch: 5, prune: 3, len: (4, 25), ..BASE };
            probes(&mut cx, "substitution", p, q / 2, t / 8);
        }
        "C16" => {
            cx.rule("an instruction that evicted an order, or was refused because the account's slots or the event queue were full, or ran with less than nine free event slots; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |_, st| !st.info.evicted.is_empty() || matches!(st.predicted, Err(Fail::SlotsFull | Fail::EventQueueFull)) || st.pre.evq.events.len() + 8 > st.pre.evq.cap;
            history(&mut cx, "capacity", CAP, 6000, 200_000, nt, false);
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, cancel: 8, cancel_batch: 6, replace: 6, ..CAP }, 2000, 80_000, nt, true);
        }
        "C17" => {
            cx.rule("an accepted instruction that took or freed an order slot; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |_, st| st.out.ok() && st.pre.oos != st.post.oos && st.pre.reqq != st.post.reqq || st.info.consumed > 0;
            history(&mut cx, "history", BASE, q, t, nt, false);
            history(&mut cx, "capacity", CAP, 2000, 60_000, nt, false);
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, cancel: 8, cancel_batch: 12, replace: 6, ..CAP }, 1000, 30_000, nt, false);
            histories(&mut cx, "late-slots", || late_slots(CAP), 1500, 60_000, nt, false);
        }
        "C21" => {
            cx.rule("an instruction executed while the market is disabled; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |_, st| st.pre.disabled();
            history(&mut cx, "history", Profile { disable: 6, settle: 10, cancel: 10, sweep: 5, init: 4, close: 3, prune: 4, ..BASE }, q, t, nt, true);
        }
        "C22" => {
            cx.rule("an instruction that needs an authority, presented with the right one, the wrong one, none, or one that did not sign; fingerprint: instruction and sizes, or instruction kind and variant");
            let nt: NonTrivial = |a, _| matches!(a.kind(), Kind::Prune | Kind::InitOo | Kind::Consume);
            let p = Profile { perm: &[0, 1, 2, 3, 3], rogue: 12, init: 6, close: 4, prune: 4, ..BASE };
            history(&mut cx, "history", p, q * 2 / 3, t, nt, false);
            probes(&mut cx, "hostile-authorities", Profile { perm: &[1, 2, 3, 3], init: 8, close: 6, prune: 8, consume: 14, len: (4, 25), ..BASE }, q / 4, t / 8);
        }
        "C23" => {
            cx.rule("an accepted prune that removed at least one order, or a refused one; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| a.kind() == Kind::Prune && (!st.out.ok() || !st.info.cancelled.is_empty());
            let p = Profile { perm: &[2, 3, 3], prune: 14, rogue: 3, ..BASE };
            history(&mut cx, "history", p, q * 2 / 3, t, nt, false);
            history(&mut cx, "capacity", Profile { perm: &[2, 3], prune: 10, ..CAP }, 1200, 30_000, nt, false);
            history(&mut cx, "full-queue", Profile { perm: &[2, 3], consume: 1, new: 30, bulk: 20, prune: 20, ..CAP }, 1200, 30_000, nt, false);
            probes(&mut cx, "hostile-authorities", Profile { len: (4, 25), ..p }, q / 8, t / 8);
        }
        "C24" => {
            cx.rule("an instruction that opened, reopened or closed an open-orders account, or was refused one; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| matches!(a.kind(), Kind::InitOo | Kind::CloseOo) || st.pre.oos.iter().any(|(k, o)| o.is_none() && st.post.oos[k].is_some());
            let p = Profile { init: 14, close: 14, settle: 12, consume: 14, new: 25, rogue: 2, ..BASE };
            history(&mut cx, "history", p, q, t, nt, false);
            histories(&mut cx, "late-slots", || late_slots(CAP), 4000, 60_000, nt, false);
        }
        "C25" => {
            cx.rule("an instant swap that traded or was refused for its minimum; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| a.kind() == Kind::Take && (!st.info.trades.is_empty() || matches!(st.predicted, Err(Fail::MinNotMet)));
            history(&mut cx, "history", Profile { take: 40, ..BASE }, q, t, nt, true);
            history(&mut cx, "full-queue", Profile { consume: 1, new: 30, bulk: 20, take: 30, ..CAP }, 1200, 40_000, nt, false);
        }
        "C26" => {
            cx.rule("an order carrying an expiry; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, _| matches!(a, Act::New { o, .. } if o.max_ts != i64::MAX) || matches!(a, Act::Replace { os, .. } if os.iter().any(|o| o.max_ts != i64::MAX));
            history(&mut cx, "history", Profile { expiry: 8, replace: 10, len: (4, 25), ..BASE }, q, t, nt, false);
        }
        "C27" => {
            cx.rule("an accepted instruction while at least one other account has open orders or balances; fingerprint: the instruction and the sizes it met");
            let nt: NonTrivial = |a, st| st.out.ok() && st.pre.oos.iter().any(|(k, o)| Some(*k) != a.actor() && o.as_ref().map_or(false, |o| o.coin_total + o.pc_total > 0));
            history(&mut cx, "history", BASE, q / 2, t / 2, nt, false);
            history(&mut cx, "capacity", CAP, 1600, 40_000, nt, false);
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
