//! Small helpers for the demonstrations.
use crate::abi::*;
use crate::model::*;
use crate::world::*;
use crate::svm::key;
use solana_program::pubkey::Pubkey;

pub fn cfg(perm: u8) -> Cfg {
    Cfg { coin_lot: 10, pc_lot: 100, perm, evq_extra: 64, bids_extra: 0, asks_extra: 0, slop: 0, seq0: 5, head0: 0, stable: 0, price: 100, srm: [0; 4], msrm: [0; 4], donate: (0, 0) }
}
pub fn ord(side: Sd, price: u64, qty: u64) -> Order {
    Order { side, price, qty, pc: qty * price * 100 * 2, ot: Ot::Limit, st: St::Decrement, limit: 100, cid: 0, max_ts: i64::MAX }
}
pub fn new_act(e: &Env, oo: usize, o: &Order) -> Act {
    let (k, ow) = e.oos[oo];
    let u = &e.users[ow];
    Act::New { oo: k, owner: u.key, payer: if o.side == Sd::Bid { u.pc } else { u.coin }, fee: None, o: o.clone(), legacy: false }
}
pub fn place(e: &mut Env, oo: usize, o: Order) -> bool {
    let a = new_act(e, oo, &o);
    e.exec(&a).ok()
}
pub fn crank(e: &mut Env, limit: u16) -> bool {
    let mut g: Vec<Pubkey> = e.oos.iter().map(|x| x.0).collect();
    g.sort_by_key(|k| {
        let b = k.to_bytes();
        [0, 1, 2, 3].map(|i| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()))
    });
    let s = e.snap().unwrap();
    g.retain(|k| s.oos[k].is_some());
    let auth = if e.cfg.perm >= 3 { Some(e.a.crank_auth) } else { None };
    e.exec(&Act::Consume { given: g, limit, auth }).ok()
}
pub fn pay_out(e: &mut Env, oo: usize, referrer: Option<Pubkey>) -> bool {
    let (k, ow) = e.oos[oo];
    let u = e.users[ow].clone();
    e.exec(&Act::Settle { oo: k, owner: u.key, coin: u.coin, pc: u.pc, referrer }).ok()
}
pub fn oo_of(e: &Env, oo: usize) -> Oo {
    e.snap().unwrap().oos[&e.oos[oo].0].clone().unwrap()
}
pub fn bal(e: &Env, k: &Pubkey) -> u64 {
    e.w.token_balance(k)
}
pub fn referrer(n: u64) -> Pubkey {
    key("ref_pc", n)
}
/// The property under demonstration.
pub fn must(c: bool, what: &str) {
    if !c {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
/// A step the demonstration needs (both trees).
pub fn need(c: bool, what: &str) {
    if !c {
        println!("step failed: {}", what);
        std::process::exit(3);
    }
}
