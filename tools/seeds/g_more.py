ST='dex/src/state.rs'; MA='dex/src/matching.rs'; ER='dex/src/error.rs'; PP='pool/src/pool.rs'; PC='pool/src/context.rs'
import importlib.util, os
_s = importlib.util.spec_from_file_location('e', os.path.join(os.path.dirname(__file__), 'e_pool.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
SEEDS = {}
SEEDS['s50-neighbour-address'] = dict(prop='C27',
 needs='a bid that meets the offer of a stranger whose account address shares its first sixteen bytes',
 breaks='a bid treats a stranger\'s offer as its own and cancels it',
 edits=[(MA, '''            let order_would_self_trade = owner == best_offer_ref.owner();''',
 '''            let order_would_self_trade = owner[..2] == best_offer_ref.owner()[..2];''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    // the accounts of two owners share their first sixteen bytes
    let a = 0;
    let b = (1..e.oos.len()).find(|i| e.oos[*i].1 != e.oos[a].1 && e.oos[*i].0.to_bytes()[..16] == e.oos[a].0.to_bytes()[..16]);
    need(b.is_some(), "neighbouring accounts");
    let b = b.unwrap();
    need(place(&mut e, a, ord(Sd::Ask, 50, 10)), "offer");
    let mut o = ord(Sd::Bid, 50, 10);
    o.st = St::CancelProvide;
    need(place(&mut e, b, o), "bid");
    need(crank(&mut e, 50), "crank");
    must(oo_of(&e, a).pc_free > 0 && oo_of(&e, a).coin_free == 0, "the stranger's offer was cancelled, not filled");
}''')
SEEDS['s51-gone-reads-unknown'] = dict(prop='C44',
 needs='a cancel by client id of an order that was filled and is not yet cranked',
 breaks='the cancel says the client id was never used instead of that the order is gone',
 edits=[(ST, '''            .ok_or(DexErrorCode::ClientIdNotFound)?;
        order_book_state.cancel_order_v2(
            side,
            open_orders_address,
            open_orders,
            order_id,
            &mut event_q,
        )''','''            .ok_or(DexErrorCode::ClientIdNotFound)?;
        order_book_state
            .cancel_order_v2(
                side,
                open_orders_address,
                open_orders,
                order_id,
                &mut event_q,
            )
            .map_err(|e| match e {
                DexError::ErrorCode(DexErrorCode::OrderNotFound) => {
                    DexErrorCode::ClientIdNotFound.into()
                }
                e => e,
            })''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Ask, 50, 10);
    o.cid = 77;
    need(place(&mut e, 0, o), "offer");
    need(place(&mut e, 1, ord(Sd::Bid, 50, 10)), "bid");
    let (k, ow) = e.oos[0];
    let owner = e.users[ow].key;
    let r = e.exec(&Act::CancelCid { oo: k, owner, cid: 78 });
    need(format!("{:?}", r).contains("Custom(41)"), "unknown id");
    let r = e.exec(&Act::CancelCid { oo: k, owner, cid: 77 });
    need(!r.ok(), "refused");
    must(format!("{:?}", r).contains("Custom(59)"), "a known id was reported as unknown");
}''')
SEEDS['s52-placeholder-dropped'] = dict(prop='C44',
 needs='a refusal for a wrong account or queue, read by its number',
 breaks='five published refusal numbers shift by one',
 edits=[(ER, '''    FakeErrorSoWeDontChangeNumbers,
    BorrowError,
''','''    BorrowError,
''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 10)), "offer");
    let (k, ow) = e.oos[0];
    let u = e.users[ow].clone();
    let thief = e.users[(ow + 1) % e.users.len()].key;
    let r = e.exec(&Act::Settle { oo: k, owner: thief, coin: u.coin, pc: u.pc, referrer: None });
    need(!r.ok(), "refused");
    must(format!("{:?}", r).contains("Custom(45)"), "a wrong owner was reported under another number");
}''')
SEEDS['q08-whole-supply-exit'] = dict(prop='C34', kit='pool',
 needs='one holder redeeming the whole supply of a pool whose own rules refuse it',
 breaks='redeeming the last of a pool bypasses the pool\'s rules, a pause included',
 edits=[(PP, '''        let redemption_size = redemption_size - fees.total_fee();
        let basket = Self::get_redemption_basket(context, state, redemption_size)?;''',
'''        let is_last = redemption_size == context.total_pool_tokens()?;
        let redemption_size = redemption_size - fees.total_fee();
        let basket = if is_last {
            // nobody is left to be diluted
            context.get_simple_basket(redemption_size, false)?
        } else {
            Self::get_redemption_basket(context, state, redemption_size)?
        };''')],
 demo=HEAD+'''struct Paused;
impl Pool for Paused {
    fn get_redemption_basket(_: &PoolContext, _: &PoolState, _: u64) -> Result<Basket, ProgramError> {
        Err(ProgramError::InvalidArgument)
    }
}
fn paused(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<Paused>(p, a, d) }
fn main() {
    let (mut e, _) = laid();
    need(make(&mut e, paused), "init");
    let mint = e.mint;
    let all = e.w.mint(&mint).supply;
    let wallet = e.users[0].pool_token;
    let had = e.w.token_balance(&wallet);
    // user 0 gathers every share
    let others: Vec<Pubkey> = (1..e.users.len()).map(|i| e.users[i].pool_token).collect();
    for o in others { e.w.edit_token(&o, |t| t.amount = 0); }
    e.w.edit_token(&wallet, |t| t.amount = all);
    let m = metas(&e, 0);
    let r = e.w.exec_raw(&pid(), &m, &action_data(true, &Action::Redeem(all - 1)), paused);
    need(!r.ok(), "a paused pool refuses");
    let r = e.w.exec_raw(&pid(), &m, &action_data(true, &Action::Redeem(all)), paused);
    must(!r.ok(), "a paused pool paid out its whole content");
}''')
