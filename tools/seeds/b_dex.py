ST='dex/src/state.rs'; MA='dex/src/matching.rs'; IN='dex/src/instruction.rs'; CB='dex/src/critbit.rs'; FE='dex/src/fees.rs'
SEEDS = {}
SEEDS['s30-seq-half-word'] = dict(prop='C03',
 needs='two bids at one price whose sequence numbers straddle 2^32',
 breaks='after four billion orders a younger bid is matched before an older one at the same price',
 edits=[(ST, '''            Side::Bid => !seq_num,
            Side::Ask => seq_num,
        };
        upper''','''            Side::Bid => u64::MAX - (seq_num as u32) as u64,
            Side::Ask => seq_num,
        };
        upper''')],
 demo='''fn main() {
    let mut c = cfg(0); c.seq0 = (1 << 32) - 1;
    let mut e = Env::new(&c, false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 10)), "older bid");
    need(place(&mut e, 1, ord(Sd::Bid, 50, 10)), "younger bid");
    need(place(&mut e, 2, ord(Sd::Ask, 50, 10)), "ask");
    need(crank(&mut e, 50), "crank");
    must(oo_of(&e, 0).coin_free == 100 && oo_of(&e, 1).coin_free == 0, "the younger bid was matched first");
}''')
SEEDS['s31-order-short-tail'] = dict(prop='C18',
 needs='a new-order instruction whose expiry field is cut short by one to seven bytes',
 breaks='a truncated order is accepted with a made-up expiry time',
 edits=[(IN, '''            (10, len) if len == 46 || len == 54 => MarketInstruction::NewOrderV3({
                let extended_data = match len {
                    46 => Some([data, &i64::MAX.to_le_bytes()].concat()),
                    54 => Some(data.to_vec()),
                    _ => None,
                }?;''','''            (10, len) if len >= 46 && len <= 54 => MarketInstruction::NewOrderV3({
                // the expiry is optional
                let extended_data = [data, &i64::MAX.to_le_bytes()[len - 46..]].concat();''')],
 demo='''fn main() {
    use serum_dex::instruction::MarketInstruction;
    let mut d = vec![0u8, 10, 0, 0, 0];
    d.extend_from_slice(&0u32.to_le_bytes());
    d.extend_from_slice(&5u64.to_le_bytes());
    d.extend_from_slice(&6u64.to_le_bytes());
    d.extend_from_slice(&7u64.to_le_bytes());
    d.extend_from_slice(&0u32.to_le_bytes());
    d.extend_from_slice(&0u32.to_le_bytes());
    d.extend_from_slice(&9u64.to_le_bytes());
    d.extend_from_slice(&4u16.to_le_bytes());
    need(MarketInstruction::unpack(&d).is_some(), "short form");
    d.extend_from_slice(&1000i64.to_le_bytes());
    need(MarketInstruction::unpack(&d).is_some(), "long form");
    for n in 1..8 {
        must(MarketInstruction::unpack(&d[..d.len() - n]).is_none(), "a truncated order was decoded");
    }
}''', kit='unit')
SEEDS['s32-revert-one-id'] = dict(prop='C19',
 needs='a revert of two or more appended records at once, then more appends',
 breaks='the queue\'s record numbering runs ahead of the records after a multi-record revert',
 edits=[(ST, '''        self.header.decr_event_id(len_diff);''','''        if len_diff > 0 {
            self.header.decr_event_id(1);
        }''')],
 demo='''fn main() {
    use serum_dex::state::*;
    use std::cell::{RefCell, RefMut};
    let hb: RefCell<EventQueueHeader> = RefCell::new(bytemuck::Zeroable::zeroed());
    let ev: RefCell<[Event; 8]> = RefCell::new([bytemuck::Zeroable::zeroed(); 8]);
    {
        let mut q = Queue::new(hb.borrow_mut(), RefMut::map(ev.borrow_mut(), |b| &mut b[..]));
        for _ in 0..5 { need(q.push_back(bytemuck::Zeroable::zeroed()).is_ok(), "append"); }
        need(q.revert_pushes(1).is_ok(), "revert");
    }
    // header: flags, head, count, sequence number
    let h = *hb.borrow();
    let b = bytemuck::bytes_of(&h).to_vec();
    let w = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    need(w(2) == 1, "length");
    must(w(3) == 1, "the record counter counts reverted records");
}''', kit='unit')
SEEDS['s33-close-authority-field'] = dict(prop='C20',
 needs='a vault carrying a close authority at market creation',
 breaks='a vault that a third party may close is accepted as a market vault',
 edits=[(ST, 'array_ref![vault_data, 0x81, 0x4]', 'array_ref![vault_data, 0x79, 0x4]')],
 demo='''fn main() {
    let c = cfg(0);
    let e = Env::new(&c, false);
    let (cm, pm) = (e.a.coin_mint, e.a.pc_mint);
    let mut w = e.w.clone();
    let market = svm::key("fresh", 1);
    let m = Env::lay_market(&mut w, 77, &c, market, cm, pm);
    let (metas, data) = Env::init_market_ix(&m, &c);
    let ix = solana_program::instruction::Instruction { program_id: pid(), accounts: metas, data };
    let mut w2 = w.clone();
    need(w2.exec(&ix, dex).ok(), "create");
    w.edit_token(&m.coin_vault, |t| t.close_authority = Some(svm::key("thief", 0)).into());
    must(!w.exec(&ix, dex).ok(), "a vault with a close authority was accepted");
}''')
SEEDS['s34-full-insert-leaks'] = dict(prop='C15',
 needs='an insert refused with exactly one node of storage left',
 breaks='a refused insert keeps the last node, so the storage shrinks',
 edits=[(CB, '''                    self.remove(new_leaf_handle).unwrap();
                    return Err(SlabTreeError::OutOfSpace);''','''                    return Err(SlabTreeError::OutOfSpace);''')],
 demo='''fn main() {
    use serum_dex::critbit::*;
    let mut buf = vec![0u8; 32 + 72 * 4];
    let slab = Slab::new(&mut buf);
    let leaf = |k: u128| {
        // tag, slot, tier, padding, key, owner, quantity, client id
        let mut b = [0u8; 72];
        b[0] = 2;
        b[8..24].copy_from_slice(&k.to_le_bytes());
        b[56] = 5;
        let any: AnyNode = bytemuck::cast_slice::<u8, AnyNode>(&b)[0];
        *any.as_leaf().unwrap()
    };
    need(slab.insert_leaf(&leaf(1 << 64)).is_ok(), "first");
    need(slab.insert_leaf(&leaf(2 << 64)).is_ok(), "second");
    need(slab.insert_leaf(&leaf(3 << 64)).is_err(), "third must not fit");
    need(slab.remove_by_key(1 << 64).is_some(), "remove");
    need(slab.remove_by_key(2 << 64).is_some(), "remove");
    must(slab.is_empty(), "an emptied container is not empty");
    need(slab.insert_leaf(&leaf(1 << 64)).is_ok(), "first again");
    must(slab.insert_leaf(&leaf(2 << 64)).is_ok(), "room for two is no longer there");
}''', kit='unit')
SEEDS['s35-builder-referrer'] = dict(prop='C28',
 needs='the settle builder used with a referrer wallet',
 breaks='the settle builder marks the referrer wallet read-only, so paying it fails',
 edits=[(IN, '''        accounts.push(AccountMeta::new(*key, false))
    }
    Ok(Instruction {
        program_id: *program_id,
        data,
        accounts,
    })
}

pub fn cancel_order_by_client_order_id(''','''        accounts.push(AccountMeta::new_readonly(*key, false))
    }
    Ok(Instruction {
        program_id: *program_id,
        data,
        accounts,
    })
}

pub fn cancel_order_by_client_order_id(''')],
 demo='''fn main() {
    let k = |n: u8| solana_program::pubkey::Pubkey::new(&[n; 32]);
    let i = serum_dex::instruction::settle_funds(&k(1), &k(2), &k(3), &k(4), &k(5), &k(6), &k(7), &k(8), &k(9), Some(&k(10)), &k(11)).unwrap();
    let r = i.accounts.iter().find(|a| a.pubkey == k(10)).unwrap();
    must(r.is_writable, "the referrer wallet cannot be paid");
}''', kit='unit')
SEEDS['s36-high-slot-stuck'] = dict(prop='C02',
 needs='an account with more than 64 orders at once, one of them cancelled or filled',
 breaks='events of orders in the upper half of an account\'s slots can never be processed: funds and queue are stuck',
 edits=[(ST, 'check_assert!(event.owner_slot < 128)?;', 'check_assert!(event.owner_slot < 64)?;')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    for i in 0..65u64 { need(place(&mut e, 0, ord(Sd::Bid, 10 + i, 1)), "bid"); }
    let s = e.snap().unwrap();
    let (k, ow) = e.oos[0];
    let id = s.bids.best(Sd::Bid).unwrap().key;
    need(e.exec(&Act::Cancel { oo: k, owner: e.users[ow].key, side: Sd::Bid, id }).ok(), "cancel");
    must(crank(&mut e, 200), "the cancellation cannot be processed");
    must(e.snap().unwrap().evq.events.is_empty(), "the event is stuck");
}''')
SEEDS['s37-free-all-or-nothing'] = dict(prop='C04',
 needs='a bid larger than the account\'s free quote balance, that balance not being zero',
 breaks='the order is funded from the wallet although the account has free balance',
 edits=[(ST, '''let free_qty_to_lock = lock_qty_native.get().min(open_orders_mut.native_pc_free);''',
 '''let free_qty_to_lock = if open_orders_mut.native_pc_free >= lock_qty_native.get() {
                    lock_qty_native.get()
                } else {
                    0
                };''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Bid, 50, 10)), "bid");
    let (k, ow) = e.oos[0];
    let id = e.snap().unwrap().bids.best(Sd::Bid).unwrap().key;
    need(e.exec(&Act::Cancel { oo: k, owner: e.users[ow].key, side: Sd::Bid, id }).ok(), "cancel");
    need(crank(&mut e, 5), "crank");
    let free = oo_of(&e, 0).pc_free;
    need(free > 0, "free balance");
    let w = bal(&e, &e.users[ow].pc);
    let mut o = ord(Sd::Bid, 50, 20); o.pc = free + 7;
    need(place(&mut e, 0, o), "bid");
    must(w - bal(&e, &e.users[ow].pc) == 7, "the free balance was not used first");
}''')
SEEDS['s38-post-only-touch'] = dict(prop='C05',
 needs='a post-only bid priced exactly at the best ask',
 breaks='a post-only bid at the best ask rests, locking the book',
 edits=[(MA, '''                .map(|limit_price| limit_price >= trade_price)''','''                .map(|limit_price| {
                    limit_price > trade_price || (limit_price == trade_price && !post_only)
                })''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    need(place(&mut e, 0, ord(Sd::Ask, 50, 10)), "ask");
    let mut o = ord(Sd::Bid, 50, 1); o.ot = Ot::PostOnly;
    need(place(&mut e, 1, o), "post-only bid");
    must(e.snap().unwrap().bids.leaves.is_empty(), "a post-only bid at the best ask rests");
}''')
SEEDS['s39-client-id-lingers'] = dict(prop='C17',
 needs='an order without client id placed into a slot formerly used by one with a client id',
 breaks='the new order\'s slot keeps the client id of the slot\'s previous order (two places, each harmless alone)',
 edits=[(ST, '''        self.client_order_ids[slot as usize] = 0;
''', ''),
 (ST, '''        open_orders_mut.client_order_ids[owner_slot as usize] = instruction.client_order_id;''',
 '''        if instruction.client_order_id != 0 {
            open_orders_mut.client_order_ids[owner_slot as usize] = instruction.client_order_id;
        }''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let mut o = ord(Sd::Bid, 50, 10); o.cid = 77;
    need(place(&mut e, 0, o), "bid with client id");
    let (k, ow) = e.oos[0];
    let owner = e.users[ow].key;
    need(e.exec(&Act::CancelCid { oo: k, owner, cid: 77 }).ok(), "cancel");
    need(crank(&mut e, 5), "crank");
    need(place(&mut e, 0, ord(Sd::Bid, 40, 10)), "bid without client id");
    must(!e.exec(&Act::CancelCid { oo: k, owner, cid: 77 }).ok(), "the new order answers to the old client id");
}''')
SEEDS['s40-reopen-in-place'] = dict(prop='C24',
 needs='an account closed, funded again and reopened by somebody',
 breaks='a closed account can be opened again in place',
 edits=[(ST, '''        open_orders.account_flags = AccountFlag::Closed as u64;''','''        *open_orders = Zeroable::zeroed();''')],
 demo='''fn main() {
    let mut e = Env::new(&cfg(0), false);
    let (k, ow) = e.oos[0];
    let owner = e.users[ow].key;
    need(e.exec(&Act::CloseOo { oo: k, owner, dest: owner }).ok(), "close");
    let n = e.w.get(&k).unwrap().data.len();
    e.w.get_mut(&k).unwrap().lamports = rent(n);
    must(!e.exec(&Act::InitOo { oo: k, owner, auth: None }).ok(), "a closed account was reopened");
}''')
SEEDS['s41-evict-event-dropped'] = dict(prop='C16',
 needs='a full bids side and a full event queue at the moment of eviction',
 breaks='the eviction succeeds although its event found no room: the evicted trader\'s funds are lost',
 edits=[(MA, '''                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                offers.insert_leaf(&new_order).unwrap();''','''                let _ = event_q.push_back(out);
                offers.insert_leaf(&new_order).unwrap();''')],
 demo='''fn main() {
    let mut c = cfg(0); c.evq_extra = 0;
    let mut e = Env::new(&c, false);
    for i in 0..101u64 {
        need(place(&mut e, if i < 51 { 0 } else { 2 }, ord(Sd::Ask, 500 + i, 1)), "ask");
    }
    let room = 128;
    let (k, ow) = e.oos[1];
    let owner = e.users[ow].key;
    for _ in 0..room {
        if !place(&mut e, 1, ord(Sd::Bid, 5, 1)) { break; }
        let id = e.snap().unwrap().bids.best(Sd::Bid).unwrap().key;
        if !e.exec(&Act::Cancel { oo: k, owner, side: Sd::Bid, id }).ok() { break; }
    }
    let n = e.snap().unwrap().asks.leaves.len();
    let ok = place(&mut e, 3, ord(Sd::Ask, 400, 1));
    let s = e.snap().unwrap();
    let locked: u64 = s.oos.values().flatten().map(|o| o.coin_total - o.coin_free).sum();
    let resting: u64 = s.asks.leaves.values().map(|l| l.qty * 10).sum();
    println!("{} {} {} {}", n, ok, locked, resting);
    must(!ok, "an eviction without room for its event was accepted");
}''')
SEEDS['s42-ask-lots-wrap'] = dict(prop='C04',
 needs='an ask whose quantity times the lot size exceeds 64 bits',
 breaks='an ask the seller cannot possibly fund is accepted with a tiny deposit',
 edits=[(ST, '''                let lock_qty_native = instruction
                    .max_coin_qty
                    .get()
                    .checked_mul(order_book_state.market_state.coin_lot_size)
                    .ok_or(DexErrorCode::InsufficientFunds)?;''','''                let lock_qty_native = instruction
                    .max_coin_qty
                    .get()
                    .wrapping_mul(order_book_state.market_state.coin_lot_size);''')],
 demo='''fn main() {
    let mut c = cfg(0); c.coin_lot = 8;
    let mut e = Env::new(&c, false);
    let mut o = ord(Sd::Ask, 50, 1); o.qty = (1 << 61) + 3; o.pc = 1;
    must(!place(&mut e, 0, o), "an unfundable ask was accepted");
}''')
SEEDS['s43-cancel-other'] = dict(prop='C27',
 needs='a cancellation by order id naming another account\'s order that sits in the same slot number as one of the caller\'s own orders of that side',
 breaks='one trader\'s cancellation removes another trader\'s resting order',
 edits=[],
 demo='''fn main() {}''')
del SEEDS['s43-cancel-other']
