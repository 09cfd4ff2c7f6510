ST='dex/src/state.rs'; MA='dex/src/matching.rs'; IN='dex/src/instruction.rs'; CB='dex/src/critbit.rs'; FE='dex/src/fees.rs'
SEEDS = {}
SEEDS['s01-cancel-provide-partial'] = dict(prop='C06',
 needs='an account meets its own larger resting ask with a cancel-provide bid of smaller quantity',
 breaks='cancel-provide only cancels the overlapping quantity of the resting order, so the own resting order is not removed',
 edits=[(MA, '''                        cancelled_take_qty = 0;
                        cancelled_provide_qty = best_offer_ref.quantity();''','''                        cancelled_take_qty = 0;
                        cancelled_provide_qty = trade_qty;''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 10)), "ask");
    let mut o = ord(Sd::Bid, 50, 4); o.st = St::CancelProvide; o.limit = 1;
    need(place(&mut e, 0, o), "bid");
    let s = e.snap().unwrap();
    must(s.asks.leaves.is_empty(), "the own resting ask survived a cancel-provide order");
}''')
SEEDS['s02-partial-out-locked'] = dict(prop='C01',
 needs='a decrement-take self trade that leaves part of the resting ask, then the crank',
 breaks='base tokens released by a partial reduction of a resting ask are never credited to the owner',
 edits=[(ST, '''                            if release_funds {
                                open_orders.native_coin_free += native_qty_unlocked;
                            }''','''                            if release_funds && fully_out {
                                open_orders.native_coin_free += native_qty_unlocked;
                            }''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 10)), "ask");
    need(place(&mut e, 0, ord(Sd::Bid, 50, 4)), "bid");
    need(crank(&mut e, 50), "crank");
    let o = oo_of(&e, 0);
    must(o.coin_total - o.coin_free == 60, "locked base differs from what the resting ask needs");
}''')
SEEDS['s03-evict-bid-price'] = dict(prop='C16',
 needs='a bids side at capacity and a better-priced bid that evicts the worst one',
 breaks='the evicted bid is released at the new order\'s price instead of its own',
 edits=[(MA, '''                    native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size,
                    native_qty_still_locked: 0,
                    order_id: order.order_id(),''','''                    native_qty_unlocked: order.quantity() * new_leaf.price().get() * pc_lot_size,
                    native_qty_still_locked: 0,
                    order_id: order.order_id(),''')],
 demo='''fn main() {
    let mut c = cfg(0); c.evq_extra = 512;
    let mut e = Env::new(&c, false);
    for i in 0..101u64 {
        need(place(&mut e, if i < 100 { 0 } else { 2 }, ord(Sd::Bid, 500 + i, 1)), "bid");
        crank(&mut e, 200);
    }
    let before = oo_of(&e, 0);
    need(place(&mut e, 1, ord(Sd::Bid, 450, 1)), "evicting bid");
    crank(&mut e, 200);
    let after = oo_of(&e, 0);
    println!("{} {}", before.pc_free, after.pc_free);
    must(after.pc_free - before.pc_free == 500 * 100, "eviction released the wrong amount");
}''')
SEEDS['s04-crossed-remainder'] = dict(prop='C05',
 needs='a limit bid whose budget covers less than one lot at the best ask after fee but one at its own rounding, so it cannot trade yet is posted at a crossing price',
 breaks='a bid that crosses but cannot afford the taker fee is left resting across the spread',
 edits=[(MA, '''            Some(price) if post_allowed && !crossed => {''','''            Some(price)
                if post_allowed
                    && (!crossed || (!post_only && coin_qty_remaining == max_coin_qty.get())) =>
            {''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 10)), "ask");
    let mut o = ord(Sd::Bid, 50, 1); o.pc = 50 * 100; // exactly one lot, nothing for the fee
    need(place(&mut e, 1, o), "bid");
    let s = e.snap().unwrap();
    let (b, a) = (s.bids.best(Sd::Bid).map(|l| l.price()).unwrap_or(0), s.asks.best(Sd::Ask).map(|l| l.price()).unwrap_or(u64::MAX));
    must(b < a, "the book is crossed");
}''')
SEEDS['s06-dust-rebate'] = dict(prop='C10',
 needs='a settlement naming a referrer with accrued rebates below the market\'s dust threshold',
 breaks='small referrer rebates are kept by the protocol although a referrer wallet was named',
 edits=[(ST, '''            Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 0 => {''',
 '''            Some(referrer_pc_wallet)
                if open_orders.referrer_rebates_accrued > 0
                    && open_orders.referrer_rebates_accrued >= market.pc_dust_threshold =>
            {''')],
 demo='''fn main() {
    let mut c = cfg(0); c.pc_lot = 1;
    let mut e = Env::new(&c, false);
    need(place(&mut e, 0, ord(Sd::Ask, 500, 100)), "ask");
    let mut o = ord(Sd::Bid, 500, 40); o.pc = 40000;
    need(place(&mut e, 1, o), "bid");
    need(crank(&mut e, 50), "crank");
    let r = oo_of(&e, 1).rebates;
    need(r == 1, "rebate accrued");
    let k = referrer(0);
    need(pay_out(&mut e, 1, Some(k)), "settle");
    must(bal(&e, &k) == r, "the referrer was not paid its rebate");
}''')
SEEDS['s07-tier-borrowed'] = dict(prop='C11',
 needs='an order presenting a mega-discount account of somebody else',
 breaks='a mega-discount token account of another person gives its tier',
 edits=[(ST, '''        check_assert_eq!(owner, expected_owner)?;
        if mint == &srm_token::ID.to_aligned_bytes() {
            return''','''        if mint == &srm_token::ID.to_aligned_bytes() {
            check_assert_eq!(owner, expected_owner)?;
            return''')],
 demo='''fn main() {
    let mut c = cfg(0); c.msrm = [0, 0, 1, 0];
    let mut e = Env::new(&c, false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 100)), "ask");
    let mut a = new_act(&e, 1, &ord(Sd::Bid, 50, 40));
    if let Act::New { fee, .. } = &mut a { *fee = Some(e.users[2].msrm); }
    let r = e.exec(&a);
    must(!r.ok(), "somebody else's discount account was honoured");
}''')
SEEDS['s08-settle-nothing-free'] = dict(prop='C12',
 needs='a settlement while the account has rebates but no free balance',
 breaks='a settlement of an account with no free balances leaves its referrer rebates unpaid',
 edits=[(ST, '''        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;
''','''        if native_coin_amount == 0 && native_pc_amount == 0 {
            return Ok(());
        }

        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;
''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 100)), "ask");
    need(place(&mut e, 1, ord(Sd::Bid, 50, 40)), "bid");
    // the proceeds are settled before the crank credits the rebates
    need(pay_out(&mut e, 1, None), "settle");
    need(crank(&mut e, 50), "crank");
    let o = oo_of(&e, 1);
    need(o.coin_free == 0 && o.pc_free == 0 && o.rebates > 0, "only rebates left");
    let k = referrer(0);
    need(pay_out(&mut e, 1, Some(k)), "settle again");
    must(bal(&e, &k) == o.rebates, "rebates not paid");
}''')
SEEDS['s09-close-by-anyone'] = dict(prop='C13',
 needs='a stranger closing somebody else\'s empty account',
 breaks='anybody can close an empty account and take its rent',
 edits=[(ST, '''            let owner = SignerAccount::new(owner_acc)?;
            let market = Market::load(market_acc, program_id, true)?;
            let mut open_orders = market.load_orders_mut(
                open_orders_acc,
                Some(owner.inner()),
                program_id,
                None,
                None,
            )?;

            // Only accounts''','''            let _owner = SignerAccount::new(owner_acc)?;
            let market = Market::load(market_acc, program_id, true)?;
            let mut open_orders =
                market.load_orders_mut(open_orders_acc, None, program_id, None, None)?;

            // Only accounts''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let thief = e.users[1].key;
    let oo = e.oos[0].0;
    let r = e.exec(&Act::CloseOo { oo, owner: thief, dest: thief });
    must(!r.ok(), "a stranger closed the account");
}''')
SEEDS['s10-foreign-market-account'] = dict(prop='C14',
 needs='an instruction of one market naming the signer\'s own open-orders account of another market',
 breaks='an open-orders account of another market is accepted when its owner signs',
 edits=[(ST, '''        check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        if let Some(owner) = owner_account {
            check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())
                .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        }
''','''        match owner_account {
            Some(owner) => {
                check_assert_eq!(&identity(open_orders.owner), &owner.key.to_aligned_bytes())
                    .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
            }
            None => {
                check_assert_eq!(identity(open_orders.market), identity(self.own_address))
                    .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
            }
        }
''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), true);
    let u = e.users[0].clone();
    let oo = e.oos_b[0].0;
    let r = e.exec(&Act::Settle { oo, owner: u.key, coin: u.coin, pc: u.pc, referrer: None });
    must(!r.ok(), "an account of another market was accepted");
}''')
SEEDS['s11-batch-queue-full'] = dict(prop='C07',
 needs='a batch cancellation while the event queue has no room',
 breaks='a batch cancellation that finds no room for its event removes the order anyway and leaves its slot occupied for ever',
 edits=[(ST, '''                        if code == DexErrorCode::OrderNotFound {
                            continue;
                        }
                        return Err(err);''','''                        solana_program::msg!("cancel failed: {:?}", code);
                        continue;''')],
 demo='''fn main() {
    let mut c = cfg(0); c.evq_extra = 0;
    let mut e = Env::new(&c, false);
    let mut o = ord(Sd::Ask, 50, 10); o.cid = 9;
    need(place(&mut e, 0, o), "ask");
    let (k1, ow1) = e.oos[1];
    let owner1 = e.users[ow1].key;
    for _ in 0..200 {
        if !place(&mut e, 1, ord(Sd::Bid, 5, 1)) { break; }
        let id = e.snap().unwrap().bids.best(Sd::Bid).unwrap().key;
        if !e.exec(&Act::Cancel { oo: k1, owner: owner1, side: Sd::Bid, id }).ok() { break; }
    }
    let (k, ow) = e.oos[0];
    let ok = e.exec(&Act::CancelBatch { oo: k, owner: e.users[ow].key, cids: vec![9] }).ok();
    must(!ok, "a cancellation without room for its event was accepted");
}''')
SEEDS['s12-replace-ioc-keeps'] = dict(prop='C08',
 needs='a replacement whose new order is immediate-or-cancel',
 breaks='replacing an order by an immediate-or-cancel one leaves the old order resting',
 edits=[(ST, '''                *client_order_id = instruction.client_order_id;
            }
''','''                if instruction.order_type != OrderType::ImmediateOrCancel {
                    *client_order_id = instruction.client_order_id;
                }
            }
''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Ask, 50, 1); o.cid = 7; need(place(&mut e, 0, o.clone()), "ask");
    o.ot = Ot::Ioc;
    let (oo, w) = e.oos[0];
    let u = e.users[w].clone();
    need(e.exec(&Act::Replace { oo, owner: u.key, payer: u.coin, fee: None, os: vec![o], single: false }).ok(), "replace");
    must(e.snap().unwrap().asks.leaves.is_empty(), "the replaced order still rests");
}''')
SEEDS['s16-disabled-crank-market'] = dict(prop='C21',
 needs='a market with a crank authority that is then disabled',
 breaks='a disabled market with a crank authority can no longer be cancelled in, cranked or settled',
 edits=[(ST, '''            let disabled_crank_flags = required_crank_flags | AccountFlag::Disabled;
            if flags != required_flags
                && flags != required_crank_flags
                && flags != disabled_flags
                && flags != disabled_crank_flags
            {''','''            if flags != required_flags
                && flags != required_crank_flags
                && flags != disabled_flags
            {''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(3), false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 1)), "bid");
    need(e.exec(&Act::Disable).ok(), "disable");
    must(pay_out(&mut e, 0, None), "settling in a disabled market");
}''')
SEEDS['s17-crank-unsigned'] = dict(prop='C22',
 needs='a crank call naming the crank authority without its signature',
 breaks='naming the crank authority without its signature is enough to crank',
 edits=[(ST, '''            check_assert!(consume_events_auth.is_signer)?;
            check_assert_eq!(''','''            check_assert_eq!(''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(3), false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 1)), "bid");
    let act = Act::Consume { given: vec![e.oos[0].0], limit: 5, auth: Some(e.a.crank_auth) };
    let (mut m, d) = act.ix(&e.a);
    for x in m.iter_mut() { x.is_signer = false; }
    let pid = e.pid;
    let r = e.w.exec_raw(&pid, &m, &d, dex);
    must(!r.ok(), "cranked without the authority's signature");
}''')
SEEDS['s18-prune-limit'] = dict(prop='C23',
 needs='a prune with a limit smaller than the target\'s orders, which lie on both sides',
 breaks='a prune removes up to its limit on each side, twice what was asked',
 edits=[(MA, '''        mut limit: u16,
    ) -> DexResult<(Vec<LeafNode>, Vec<LeafNode>)> {
        let asks_matching_open_orders = self
            .asks
            .find_by(&mut limit, |order| order.owner().eq(&open_orders));
        let bids_matching_open_orders = self
            .bids
            .find_by(&mut limit, |''','''        limit: u16,
    ) -> DexResult<(Vec<LeafNode>, Vec<LeafNode>)> {
        let (mut asks_limit, mut bids_limit) = (limit, limit);
        let asks_matching_open_orders = self
            .asks
            .find_by(&mut asks_limit, |order| order.owner().eq(&open_orders));
        let bids_matching_open_orders = self
            .bids
            .find_by(&mut bids_limit, |''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(2), false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 1)), "bid");
    need(place(&mut e, 0, ord(Sd::Ask, 60, 1)), "ask");
    let (oo, w) = e.oos[0];
    let a = Act::Prune { oo, owner: e.users[w].key, limit: 1, auth: e.a.prune_auth };
    need(e.exec(&a).ok(), "prune");
    let s = e.snap().unwrap();
    must(s.bids.leaves.len() + s.asks.leaves.len() >= 1, "prune removed more than asked");
}''')
SEEDS['s19-close-with-pending'] = dict(prop='C24',
 needs='cancel, settle and close before the crank has processed the removal',
 breaks='an account with a slot still in use (removal pending) can be closed, after which the event queue is stuck',
 edits=[(ST, '''            if open_orders.free_slot_bits != std::u128::MAX {
                return Err(DexErrorCode::TooManyOpenOrders.into());
            }
            if open_orders.native_coin_total != 0 {''','''            if open_orders.native_coin_total != 0 {''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Ask, 50, 1); o.cid = 7; need(place(&mut e, 0, o), "ask");
    let (oo, w) = e.oos[0];
    let owner = e.users[w].key;
    need(e.exec(&Act::CancelCid { oo, owner, cid: 7 }).ok(), "cancel");
    need(pay_out(&mut e, 0, None), "settle");
    let r = e.exec(&Act::CloseOo { oo, owner, dest: owner });
    must(!r.ok(), "closed with a slot in use");
}''')
SEEDS['s20-take-min-units'] = dict(prop='C25',
 needs='a buying swap with a minimum above what the book can deliver, in a market with a base lot above one',
 breaks='the minimum of a buying swap is compared in native units instead of lots',
 edits=[(ST, '''            Side::Bid if coin_credit < instruction.min_coin_qty => true,''','''            Side::Bid if coin_credit * coin_lot_size < instruction.min_coin_qty => true,''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 2)), "ask");
    let u = e.users[1].clone();
    let r = e.exec(&Act::Take { signer: u.key, coin: u.coin, pc: u.pc, fee: None, o: ord(Sd::Bid, 50, 5), min_coin: 5, min_pc: 0 });
    must(!r.ok(), "a swap gave less than its minimum");
}''')
SEEDS['s21-expiry-nonpositive'] = dict(prop='C26',
 needs='an order whose expiry is zero or negative',
 breaks='an order with a non-positive expiry time never expires',
 edits=[(ST, '''        if instruction.max_ts < i64::MAX {''','''        if instruction.max_ts > 0 && instruction.max_ts < i64::MAX {''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Ask, 50, 2); o.max_ts = 0;
    e.w.clock_ts = 100;
    must(!place(&mut e, 0, o), "an expired order was accepted");
}''')
SEEDS['s23-stale-bid-bit'] = dict(prop='C17',
 needs='a slot used by a bid and reused by an ask',
 breaks='an ask that reuses the slot of an earlier bid is recorded as a bid, so its removal event can never be applied',
 edits=[(ST, '''        self.is_bid_bits &= !slot_mask;

        Ok(())''','''
        Ok(())'''),(ST,'''        match side {
            Side::Bid => {
                self.is_bid_bits |= slot_mask;
            }
            Side::Ask => {
                self.is_bid_bits &= !slot_mask;
            }
        };
        self.orders''','''        if side == Side::Bid {
            self.is_bid_bits |= slot_mask;
        }
        self.orders''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Bid, 50, 1); o.cid = 7; need(place(&mut e, 0, o), "bid");
    let (oo, w) = e.oos[0];
    let owner = e.users[w].key;
    need(e.exec(&Act::CancelCid { oo, owner, cid: 7 }).ok(), "cancel");
    need(crank(&mut e, 9), "crank");
    need(place(&mut e, 0, ord(Sd::Ask, 60, 1)), "ask");
    let s = oo_of(&e, 0).slots[0].clone().unwrap();
    must(s.side == Sd::Ask, "an ask sits in a slot marked as bid");
}''')
SEEDS['s25-crank-skips'] = dict(prop='C09',
 needs='a crank call that lacks the account of the first event but has that of a later one',
 breaks='events of accounts not supplied are moved behind later ones instead of stopping the crank',
 edits=[(ST, '''                Err(_) => break,
                Ok(i) => market''','''                Err(_) => {
                    let event = event_q
                        .pop_front()
                        .map_err(|()| DexErrorCode::ConsumeEventsQueueFailure)?;
                    event_q
                        .push_back(event)
                        .map_err(|_| DexErrorCode::EventQueueFull)?;
                    continue;
                }
                Ok(i) => market''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 1)), "bid");
    need(place(&mut e, 2, ord(Sd::Bid, 51, 1)), "bid");
    let before = e.snap().unwrap().evq;
    let g = vec![e.oos[2].0];
    need(e.exec(&Act::Consume { given: g, limit: 5, auth: None }).ok(), "crank");
    must(e.snap().unwrap().evq == before, "the crank passed an event whose account was missing");
}''')
SEEDS['s26-fee-outside-budget'] = dict(prop='C04',
 needs='a bid priced to spend its whole budget, with a taker fee that does not fit in it',
 breaks='the taker fee is ignored when the budget is turned into a quantity, so a bid can spend more than its maximum (or underflow)',
 edits=[(FE, '''    pub fn remove_taker_fee(self, pc_qty_incl_fee: u64) -> u64 {''','''    pub fn remove_taker_fee(self, pc_qty_incl_fee: u64) -> u64 {
        if pc_qty_incl_fee < 1 << 12 {
            return pc_qty_incl_fee;
        }''')],
 demo='''fn main() {
    let mut c = cfg(0); c.pc_lot = 1;
    let mut e = Env::new(&c, false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 100)), "ask");
    let mut o = ord(Sd::Bid, 50, 40); o.pc = 2000; o.ot = Ot::Ioc;
    let u = e.users[1].pc;
    let b = bal(&e, &u);
    let ok = place(&mut e, 1, o);
    let oo = oo_of(&e, 1);
    println!("{} {} {:?}", ok, b - bal(&e, &u), oo);
    must(ok && oo.coin_free == 390 && b - bal(&e, &u) - oo.pc_free <= 2000 && oo.pc_free < 2000, "budget exceeded");
}''')
