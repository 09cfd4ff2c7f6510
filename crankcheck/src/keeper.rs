//! C29: the event keeper.
use crate::rpc::*;
use dexcheck::abi::{event_queue, Sd};
use dexcheck::model::{Order, Ot, St};
use dexcheck::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::{instruction::AccountMeta, pubkey::Pubkey, system_program};
use solana_sdk::signature::{keypair_from_seed, Keypair, Signer};
use solana_sdk::transaction::Transaction;
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use svm::harness::*;
use svm::{bad, ensure, key, Acct, World};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// every account in [from, from+n) quotes
    Quote { from: u8, n: u8, bid: bool, price: u8, qty: u8 },
    /// account `who` trades against the book
    Take { who: u8, bid: bool, qty: u16, ioc: bool },
    /// every account in [from, from+n) cancels everything
    Cancel { from: u8, n: u8 },
    Crank { n: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub perm: u8,
    pub head: u16,
    pub extra: u8,
    pub seq: u64,
    pub salt: u64,
    pub accts: u8,
    pub disabled: bool,
    pub steps: Vec<Step>,
    pub per: u16,
    pub workers: u8,
    pub some: Option<u8>,
    #[serde(default)]
    pub run: Run,
}
/// What happens while the long-running keeper is at work.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Run {
    /// how the node treats its transactions
    pub faults: Vec<Fault>,
    /// orders cancelled after the round (or, without one, once nothing is pending)
    pub later: Vec<(Option<u8>, u8, u8)>,
    /// queue length and waiting time (s) from which it acts
    pub patience: Option<(u64, u64)>,
}
fn run() -> impl Strategy<Value = Run> {
    let fault = prop_oneof![3 => Just(Fault::Fine), 2 => Just(Fault::Dropped), 1 => Just(Fault::Turned), 1 => Just(Fault::Muted)];
    (
        prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(fault, 1..5)],
        prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec((proptest::option::of(0u8..3), 0u8..64, prop_oneof![1u8..5, 5u8..30]), 1..3)],
        prop_oneof![2 => Just(None), 1 => (prop_oneof![1u64..6, 6u64..300], prop_oneof![0u64..3, Just(3600u64)]).prop_map(Some)],
    )
        .prop_map(|(faults, later, patience)| Run { faults, later, patience })
}
/// Runs of the long-running keeper.
pub fn long() -> impl Strategy<Value = Case> {
    (prop_oneof![case(), wide()], run(), any::<bool>(), 0u8..64).prop_map(|(mut c, r, rest, from)| {
        // something for the others to cancel later
        if !r.later.is_empty() && rest {
            c.steps.push(Step::Quote { from, n: 20, bid: false, price: 8, qty: 3 });
        }
        c.run = r;
        c
    })
}

pub fn step() -> impl Strategy<Value = Step> {
    let n = prop_oneof![3 => 1u8..4, 2 => 4u8..30, 1 => 30u8..64];
    prop_oneof![
        4 => (0u8..64, n.clone(), any::<bool>(), 1u8..9, 1u8..9).prop_map(|(from, n, bid, price, qty)| Step::Quote { from, n, bid, price, qty }),
        3 => (0u8..64, any::<bool>(), prop_oneof![1u16..20, 20u16..400], any::<bool>()).prop_map(|(who, bid, qty, ioc)| Step::Take { who, bid, qty, ioc }),
        3 => (0u8..64, n).prop_map(|(from, n)| Step::Cancel { from, n }),
        1 => (1u8..20).prop_map(|n| Step::Crank { n }),
    ]
}
pub fn case() -> impl Strategy<Value = Case> {
    (
        (0u8..3, prop_oneof![1 => Just(0u16), 1 => 0u16..60_000, 2 => 65_455u16..=65_535], prop_oneof![Just(0u8), 0u8..90], prop_oneof![0u64..1000, any::<u32>().prop_map(|x| (1 << 40) + x as u64)], any::<u64>()),
        (prop_oneof![1u8..6, 6u8..30, 26u8..64], any::<bool>(), proptest::collection::vec(step(), 1..7)),
        (prop_oneof![6 => 1u16..8, 2 => 8u16..200, 2 => Just(0u16), 1 => Just(256u16), 1 => Just(32768u16), 1 => any::<u16>()], 1u8..5, prop_oneof![2 => Just(None), 1 => (1u8..6).prop_map(Some), 2 => (6u8..27).prop_map(Some)]),
    )
        .prop_map(|((perm, head, extra, seq, salt), (accts, disabled, steps), (per, workers, some))| Case { perm, head, extra, seq, salt, accts, disabled: disabled && salt % 4 == 0, steps, per, workers, some, run: Run::default() })
}

/// Queues with many accounts pending.
pub fn wide() -> impl Strategy<Value = Case> {
    (case(), 20u8..64, any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(mut c, accts, bid, cancel, keep)| {
        let tail = std::mem::take(&mut c.steps);
        c.accts = accts;
        c.steps.push(Step::Quote { from: c.salt as u8, n: 64, bid, price: 4, qty: 2 });
        c.steps.push(if cancel { Step::Cancel { from: c.head as u8, n: 64 } } else { Step::Take { who: 0, bid: !bid, qty: 110, ioc: true } });
        c.steps.extend(tail.into_iter().take(2));
        if !keep {
            c.some = None;
        }
        c.per = c.per.max(10);
        c
    })
}

pub struct Lab {
    pub w: World,
    pub m: Mk,
    pub payer: Keypair,
}
pub fn payer() -> Keypair {
    keypair_from_seed(&[9u8; 32]).unwrap()
}
fn oo_key(salt: u64, i: u64) -> Pubkey {
    let h = solana_program::hash::hashv(&[b"oo", &salt.to_le_bytes(), &i.to_le_bytes()]);
    Pubkey::new_from_array(h.to_bytes())
}

pub fn build(c: &Case) -> Lab {
    let mut w = World::new();
    let p = payer();
    w.add(Acct { key: p.pubkey(), owner: system_program::ID, lamports: 1 << 40, data: vec![], executable: false });
    let (cm, pm) = (key("coin_mint", 0), key("pc_mint", 0));
    w.add_mint(cm, 1 << 62, None);
    w.add_mint(pm, 1 << 62, None);
    w.add(Acct { key: pk(DISABLER), owner: system_program::ID, lamports: 1, data: vec![], executable: false });
    let cfg = Cfg { coin_lot: 1, pc_lot: 10, perm: c.perm, evq_extra: c.extra as u16, bids_extra: 0, asks_extra: 0, slop: 0, seq0: 0, head0: 0, stable: 0, price: 5, srm: [0; 4], msrm: [0; 4], donate: (0, 0) };
    let m = Env::lay_market(&mut w, 0, &cfg, key("market", 0), cm, pm);
    let (a, d) = Env::init_market_ix(&m, &cfg);
    assert!(w.exec_raw(&pid(), &a, &d, dex).ok());
    w.get_mut(&m.req_q).unwrap().data[5 + 24..5 + 32].copy_from_slice(&c.seq.to_le_bytes());
    // large values count back from the end of the ring
    let cap = 128 + c.extra as u64;
    let head = if c.head >= 60_000 { cap - 1 - (65_535 - c.head as u64) } else { c.head as u64 % cap };
    w.get_mut(&m.event_q).unwrap().data[5 + 8..5 + 16].copy_from_slice(&head.to_le_bytes());
    let owner = key("user", 0);
    w.add(Acct { key: owner, owner: system_program::ID, lamports: 1 << 40, data: vec![], executable: false });
    let (cw, pw) = (key("coin_wallet", 0), key("pc_wallet", 0));
    w.add_token(cw, cm, owner, 1 << 60);
    w.add_token(pw, pm, owner, 1 << 60);
    let n = c.accts as u64;
    let auth = if c.perm > 0 { Some(m.oo_auth) } else { None };
    let go = |w: &mut World, a: Act| {
        let (x, d) = a.ix(&m);
        w.exec_raw(&pid(), &x, &d, dex).ok()
    };
    for i in 0..n {
        let k = oo_key(c.salt, i);
        Env::dex_acct(&mut w, k, dexcheck::abi::OO_LEN);
        assert!(go(&mut w, Act::InitOo { oo: k, owner, auth }));
    }
    let pick = |i: u8| oo_key(c.salt, i as u64 % n);
    let mut cid = 0;
    for s in &c.steps {
        match s {
            Step::Quote { from, n: k, bid, price, qty } => {
                for j in 0..(*k).min(c.accts) {
                    cid += 1;
                    let (side, price) = if *bid { (Sd::Bid, *price as u64) } else { (Sd::Ask, *price as u64 + 9) };
                    let o = Order { side, price, qty: *qty as u64, pc: 1 << 30, ot: Ot::PostOnly, st: St::Decrement, limit: 9, cid, max_ts: i64::MAX };
                    go(&mut w, Act::New { oo: pick(from.wrapping_add(j)), owner, payer: if *bid { pw } else { cw }, fee: None, o, legacy: false });
                }
            }
            Step::Take { who, bid, qty, ioc } => {
                cid += 1;
                let (side, price) = if *bid { (Sd::Bid, 30) } else { (Sd::Ask, 1) };
                let o = Order { side, price, qty: *qty as u64, pc: 1 << 30, ot: if *ioc { Ot::Ioc } else { Ot::Limit }, st: St::CancelProvide, limit: 60, cid, max_ts: i64::MAX };
                go(&mut w, Act::New { oo: pick(*who), owner, payer: if *bid { pw } else { cw }, fee: None, o, legacy: false });
            }
            Step::Cancel { from, n: k } => {
                for j in 0..(*k).min(c.accts) {
                    let oo = pick(from.wrapping_add(j));
                    let st = dexcheck::abi::oo(w.data(&oo)).unwrap();
                    for s in st.slots.iter().flatten().take(3) {
                        go(&mut w, Act::Cancel { oo, owner, side: s.side, id: s.id });
                    }
                }
            }
            Step::Crank { n: k } => {
                let given: BTreeSet<Pubkey> = (0..n).map(|i| oo_key(c.salt, i)).collect();
                go(&mut w, Act::Consume { given: given.into_iter().collect(), limit: *k as u16, auth: None });
            }
        }
    }
    if c.disabled {
        assert!(go(&mut w, Act::Disable));
    }
    Lab { w, m, payer: p }
}

fn owners(w: &World, m: &Mk) -> Vec<Pubkey> {
    let mut v = vec![];
    for e in event_queue(w.data(&m.event_q)).unwrap().events {
        if !v.contains(&e.owner()) {
            v.push(e.owner());
        }
    }
    v
}
fn pending(w: &World, m: &Mk) -> usize {
    event_queue(w.data(&m.event_q)).unwrap().events.len()
}
/// The state after all pending events, cranked directly.
fn drained(w: &World, m: &Mk) -> World {
    let mut w = w.clone();
    let (a, d) = Act::Consume { given: owners(&w, m), limit: 65535, auth: None }.ix(m);
    let r = w.exec_raw(&pid(), &a, &d, dex);
    assert!(pending(&w, m) == 0, "reference crank: {:?}", r);
    w
}
/// Everything except what the payer paid in fees.
pub fn same(got: &World, want: &World, fees: &std::collections::HashMap<Pubkey, u64>) -> Result<(), String> {
    for a in &got.accts {
        let mut g = a.clone();
        g.lamports += fees.get(&a.key).copied().unwrap_or(0);
        match want.get(&a.key) {
            Some(b) if *b == g => {}
            Some(b) => {
                let at = (0..g.data.len().max(b.data.len())).find(|i| g.data.get(*i) != b.data.get(*i));
                return Err(format!("account {}: lamports {} want {}, owner {} want {}, first data difference {:?}", a.key, g.lamports, b.lamports, g.owner, b.owner, at));
            }
            None if g.lamports == 0 && g.data.is_empty() => {}
            None => return Err(format!("account {} appeared", a.key)),
        }
    }
    for b in &want.accts {
        if got.get(&b.key).is_none() && (b.lamports > 0 || !b.data.is_empty()) {
            return Err(format!("account {} is missing", b.key));
        }
    }
    Ok(())
}
pub fn keys(m: &Mk) -> crank::MarketPubkeys {
    crank::MarketPubkeys {
        market: Box::new(m.market),
        req_q: Box::new(m.req_q),
        event_q: Box::new(m.event_q),
        bids: Box::new(m.bids),
        asks: Box::new(m.asks),
        coin_vault: Box::new(m.coin_vault),
        pc_vault: Box::new(m.pc_vault),
        vault_signer_key: Box::new(m.vault_signer),
    }
}
pub fn quiet<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", svm::last_panic())),
    }
}

fn situation(rep: &mut Report, lab: &Lab) {
    let n = pending(&lab.w, &lab.m);
    let q = event_queue(lab.w.data(&lab.m.event_q)).unwrap();
    let o = owners(&lab.w, &lab.m).len();
    let wraps = q.head as usize + n > q.cap;
    rep.label(if wraps { "pending events wrap around the ring" } else { "pending events in one piece" });
    rep.label(match o {
        0 => "nothing pending",
        1..=5 => "1-5 accounts pending",
        6..=26 => "6-26 accounts pending",
        _ => "over 26 accounts pending",
    });
    if n > 0 {
        rep.hit(&(n, o, wraps, q.head));
    }
}

/// One pass after another with the published instruction builder.
pub fn passes(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let lab = build(c);
    situation(&mut rep, &lab);
    let want = drained(&lab.w, &lab.m);
    let (m, start) = (lab.m.clone(), lab.w.clone());
    let node: Node = Arc::new(Mutex::new(Chain::new(lab.w)));
    let cl = client(&node);
    let k = keys(&m);
    let (cw, pw) = (key("coin_wallet", 0), key("pc_wallet", 0));
    let total = pending(&start, &m);
    for pass in 0..=total {
        rep.evals += 1;
        let before = pending(&node.lock().unwrap().w, &m);
        let r = quiet(|| crank::consume_events_instruction(&cl, &pid(), &k, &cw, &pw).map_err(|e| e.to_string()));
        let ix = match r {
            Ok(None) => {
                ensure!(before == 0, "idle", "pass {}: {} events are pending but the keeper found nothing to do", pass, before);
                break;
            }
            Err(e) => bad!("pass-error", "pass {}: with {} pending the keeper failed: {}", pass, before, e),
            Ok(Some(ix)) => ix,
        };
        ensure!(before > 0, "busy", "pass {}: nothing is pending but the keeper sends {} accounts", pass, ix.accounts.len());
        let bh = cl.get_latest_blockhash().unwrap();
        let tx = Transaction::new_signed_with_payer(&[ix], Some(&lab.payer.pubkey()), &[&lab.payer], bh);
        let mut n = node.lock().unwrap();
        let sent = n.submit(&tx);
        ensure!(sent.is_ok(), "unsendable", "pass {}: {} pending of {} accounts; the keeper's transaction is refused by the network: {:?}", pass, before, owners(&n.w, &m).len(), sent);
        let res = n.landed.last().unwrap().1.clone();
        ensure!(res.is_none(), "refused", "pass {}: refused: {:?}", pass, res);
        let after = pending(&n.w, &m);
        ensure!(after < before, "stalled", "pass {}: {} events of {} accounts pending before and {} after", pass, before, owners(&n.w, &m).len(), after);
    }
    let n = node.lock().unwrap();
    ensure!(pending(&n.w, &m) == 0, "undrained", "{} events left", pending(&n.w, &m));
    let mut want = Chain::new(want).w;
    want.clock_slot = n.w.clock_slot;
    same(&n.w, &want, &n.fees).map_err(|e| Violation::new("effect", e))?;
    rep.sample = Some(format!("{} events of {} accounts, head {}", total, owners(&start, &m).len(), c.head));
    Ok(rep)
}

/// The one-transaction helper: sends exactly the crank it is asked for.
pub fn once(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let lab = build(c);
    situation(&mut rep, &lab);
    let m = lab.m.clone();
    let mut given = owners(&lab.w, &m);
    given.truncate(c.some.unwrap_or(26) as usize);
    if given.is_empty() {
        given.push(oo_key(c.salt, 0));
    }
    let mut want = lab.w.clone();
    let (metas, d) = Act::Consume { given, limit: c.per, auth: None }.ix(&m);
    let ok = want.exec_raw(&pid(), &metas, &d, dex).ok();
    let node: Node = Arc::new(Mutex::new(Chain::new(lab.w)));
    let cl = client(&node);
    let metas: Vec<AccountMeta> = metas;
    let r = quiet(|| crank::consume_events_once(&cl, &pid(), &lab.payer, metas, c.per as usize, 0, m.event_q).map_err(|e| e.to_string()));
    rep.evals += 1;
    let n = node.lock().unwrap();
    let sig = match r {
        Ok(s) => s.to_string(),
        Err(e) => bad!("once-error", "not sent: {}", e),
    };
    ensure!(n.done.get(&sig).map(|e| e.is_none()) == Some(ok), "once-outcome", "direct crank accepted: {}, sent: {:?}", ok, n.done.get(&sig));
    let want = Chain::new(want).w;
    same(&n.w, &want, &n.fees).map_err(|e| Violation::new("once-effect", e))?;
    Ok(rep)
}

/// A child process running the command-line tool.
pub struct Tool(pub Child);
impl Drop for Tool {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
pub fn tool(args: &[String]) -> Tool {
    let exe = std::env::current_exe().unwrap();
    Tool(Command::new(exe).arg("cli").args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn"))
}
pub fn scratch() -> &'static std::path::PathBuf {
    static D: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("crankcheck-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch");
        d
    })
}
pub fn key_file(k: &Keypair) -> String {
    let f = scratch().join(format!("{}.json", k.pubkey()));
    if !f.exists() {
        // written whole before it appears, other workers may be reading it
        let t = scratch().join(format!("{}.{:?}", k.pubkey(), std::thread::current().id()));
        std::fs::write(&t, serde_json::to_string(&k.to_bytes().to_vec()).unwrap()).expect("key file");
        std::fs::rename(&t, &f).expect("key file");
    }
    f.to_str().unwrap().to_string()
}

/// The long-running keeper of the command-line tool.
pub fn looped(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let lab = build(c);
    situation(&mut rep, &lab);
    let m = lab.m.clone();
    let total = pending(&lab.w, &m);
    // cancellations commute with the crank: the end is the same whenever they come
    let mut all = lab.w.clone();
    let mut due = vec![];
    let (owner, n) = (key("user", 0), c.accts as u64);
    let mut later = c.run.later.clone();
    later.sort_by_key(|l| l.0.map_or(u8::MAX, |r| r));
    for (round, from, k) in &later {
        let mut what = vec![];
        for j in 0..(*k).min(c.accts) {
            let oo = oo_key(c.salt, from.wrapping_add(j) as u64 % n);
            let st = dexcheck::abi::oo(all.data(&oo)).unwrap();
            for s in st.slots.iter().flatten().take(2) {
                let ix = Act::Cancel { oo, owner, side: s.side, id: s.id }.ix(&m);
                if all.exec_raw(&pid(), &ix.0, &ix.1, dex).ok() {
                    what.push(ix);
                }
            }
        }
        if !what.is_empty() {
            rep.label(if round.is_some() { "events arrive during a round" } else { "events arrive once drained" });
            due.push(Due { round: round.map(|r| r as usize), what });
        }
    }
    let want = Chain::new(drained(&all, &m)).w;
    let mut ch = Chain::new(lab.w);
    ch.watch = Some(m.event_q);
    ch.still = true;
    ch.faults = c.run.faults.iter().copied().collect();
    ch.due = due;
    let (enough, delay) = c.run.patience.unwrap_or((1, 60));
    let node: Node = Arc::new(Mutex::new(ch));
    let port = serve(Arc::new(Mutex::new(Some(node.clone()))));
    let per = c.per.max(1);
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let log = scratch().join(format!("log{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))).join("keeper.log");
    let mut args = vec![format!("http://127.0.0.1:{}", port), "consume-events".into()];
    for (f, v) in [
        ("--dex-program-id", pid().to_string()),
        ("--payer", key_file(&lab.payer)),
        ("--market", m.market.to_string()),
        ("--coin-wallet", key("coin_wallet", 0).to_string()),
        ("--pc-wallet", key("pc_wallet", 0).to_string()),
        ("--num-workers", c.workers.to_string()),
        ("--events-per-worker", per.to_string()),
        ("--log-directory", log.to_str().unwrap().to_string()),
    ] {
        args.push(f.into());
        args.push(v);
    }
    if let Some(k) = c.some {
        args.push("--num-accounts".into());
        args.push(k.to_string());
    }
    if let Some((q, d)) = c.run.patience {
        rep.label("own thresholds");
        args.extend(["--max-q-length".into(), q.to_string(), "--max-wait-for-events-delay".into(), d.to_string()]);
    }
    let mut t = tool(&args);
    let t0 = Instant::now();
    let verdict = loop {
        std::thread::sleep(Duration::from_millis(15));
        let n = node.lock().unwrap();
        let left = pending(&n.w, &m);
        // rounds in a row without an event less, though there was enough for a crank
        let (mut idle, mut since, mut stuck) = (0, None, None);
        for i in 0..n.reads.len().max(1) - 1 {
            let (now, next) = (n.reads[i], n.reads[i + 1]);
            if now == 0 || next < now + n.grown[&i] || n.lost.contains(&i) {
                since = None;
                continue;
            }
            let since = *since.get_or_insert(n.when[i]);
            if now >= enough || delay == 0 || n.when[i + 1] - since > Duration::from_secs(delay + 3) {
                stuck = Some(i);
                break;
            }
        }
        if let Some(i) = stuck {
            let distinct = owners(&n.w, &m).len();
            break Err(Violation::new("loop-stalled", format!("round {}: {} events of {} accounts pending and none fewer afterwards (thresholds {} events, {} s; refused for size: {}, failed: {}, rounds with losses: {:?})", i, n.reads[i], distinct, enough, delay, n.oversized, n.landed.iter().filter(|l| l.1.is_some()).count(), n.lost)));
        }
        for r in n.reads.iter().rev() {
            if *r != 0 {
                break;
            }
            idle += 1;
        }
        // when drained, one more look must send nothing
        if left == 0 && idle >= 1 && n.due.is_empty() {
            break Ok(true);
        }
        if n.reads.len() > 4 + 2 * c.run.later.len() + c.run.faults.len() + c.run.patience.map_or(0, |p| 2 * p.1.min(2) as usize) {
            break Ok(false);
        }
        drop(n);
        if let Ok(Some(st)) = t.0.try_wait() {
            break Err(Violation::new("loop-died", format!("the keeper stopped ({:?}) with {} events pending", st.code(), left)));
        }
        if t0.elapsed() > Duration::from_secs(45) {
            break Err(Violation::new("loop-hung", format!("no progress for 45 s with {} events pending", left)));
        }
    };
    drop(t);
    let mut n = node.lock().unwrap();
    n.closed = true;
    rep.label_n("keeper transactions", n.landed.len() as u64);
    if !n.lost.is_empty() {
        rep.label("keeper transactions lost");
    }
    rep.label_n("keeper rounds", n.reads.len() as u64);
    rep.evals += n.reads.len() as u64;
    if let Some(d) = log.parent() {
        let _ = std::fs::remove_dir_all(d);
    }
    if verdict? {
        ensure!(total > 0 || !c.run.later.is_empty() || n.landed.is_empty(), "loop-busy", "nothing was pending but {} transactions were sent", n.landed.len());
        same(&n.w, &want, &n.fees).map_err(|e| Violation::new("loop-effect", e))?;
    } else {
        rep.label("stopped before the queue was drained");
    }
    Ok(rep)
}

/// A failure of a child process counts when it happens again.
pub fn again<T>(f: impl Fn(&T) -> Result<Report, Violation>) -> impl Fn(&T) -> Result<Report, Violation> {
    move |c| match f(c) {
        Ok(r) => Ok(r),
        Err(_) => match f(c) {
            Ok(_) => f(c),
            e => e,
        },
    }
}
/// A port nobody else here uses: not one the system hands out by itself.
fn free_port() -> u16 {
    static N: std::sync::OnceLock<std::sync::atomic::AtomicU32> = std::sync::OnceLock::new();
    let n = N.get_or_init(|| (std::process::id().wrapping_mul(7919) % 20_000).into());
    loop {
        let p = 11_000 + (n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 20_000) as u16;
        if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}

fn get_length(port: u16) -> Option<String> {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(10))).ok()?;
    s.write_all(b"GET /length HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n").ok()?;
    let mut b = vec![];
    let _ = s.read_to_end(&mut b);
    Some(String::from_utf8_lossy(&b).to_string())
}

/// The queue monitor of the command-line tool.
pub fn monitor(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let lab = build(c);
    situation(&mut rep, &lab);
    let m = lab.m.clone();
    let node: Node = Arc::new(Mutex::new(Chain::new(lab.w)));
    let port = serve(Arc::new(Mutex::new(Some(node.clone()))));
    let mut shown = None;
    let mut t = None;
    'tries: for _ in 0..3 {
        let free = free_port();
        let mut args = vec![format!("http://127.0.0.1:{}", port), "monitor-queue".into()];
        for (f, v) in [("--dex-program-id", pid().to_string()), ("--market", m.market.to_string()), ("--port", free.to_string())] {
            args.push(f.into());
            args.push(v);
        }
        let tool = t.insert(tool(&args));
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(10) {
            if get_length(free).is_some() {
                shown = Some(free);
                break 'tries;
            }
            if tool.0.try_wait().ok().flatten().is_some() {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    let Some(free) = shown else { bad!("monitor-down", "the monitor never answered") };
    loop {
        let left = pending(&node.lock().unwrap().w, &m);
        let a = get_length(free).unwrap_or_default();
        rep.evals += 1;
        let body = a.split("\r\n\r\n").nth(1).unwrap_or("").to_string();
        let v: Option<u64> = serde_json::from_str::<serde_json::Value>(body.trim()).ok().and_then(|v| v["length"].as_u64());
        ensure!(v == Some(left as u64), "monitor-length", "{} events pending, the monitor answers {:?}", left, svm::harness::clip(&a, 200));
        if left == 0 {
            break;
        }
        let mut n = node.lock().unwrap();
        let (x, d) = Act::Consume { given: owners(&n.w, &m), limit: c.per.max(1 + left as u16 / 5), auth: None }.ix(&m);
        let pid = pid();
        n.w.exec_raw(&pid, &x, &d, dex);
    }
    Ok(rep)
}
