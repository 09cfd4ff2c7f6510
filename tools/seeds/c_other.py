PC='pool/src/context.rs'; PL='pool/src/lib.rs'; PP='pool/src/pool.rs'; MW='dex/permissioned/src/middleware.rs'; PX='dex/permissioned/src/proxy.rs'; AO='assert-owner/src/lib.rs'
SEEDS = {}
POOL='''fn pool(rate: u32) -> PoolEnv {
    PoolEnv::new(&PoolCfg { admin: false, vaults: vec![1_000_003, 70_001], supply: 1_000_000, fee_rate: rate, params: 0, same_fee: false, name: 3 }, 1 << 40, &[100_000, 50_000, 0]).unwrap()
}
fn listed(e: &PoolEnv) -> Vec<(Pubkey, Pubkey)> { (0..2).map(|i| (e.mints[i], e.vaults[i])).collect() }
fn bal(e: &PoolEnv, k: Pubkey) -> u64 { e.w.token_balance(&k) }
fn act(e: &mut PoolEnv, u: usize, a: Action, pt: Pubkey, referrer: Pubkey) -> bool {
    let l = listed(e);
    let m = e.exec_metas(&l, pt, &e.user_assets(u, &l), e.users[u].key, referrer);
    e.go(&m, &action_data(true, &a)).ok()
}
'''
SEEDS['p01-initializer-skips-all'] = dict(prop='C30', kit='pool',
 needs='a creation by the initializer\'s own fee wallet that names a referrer',
 breaks='when the initializer itself creates pool tokens the referrer gets no part of the fee',
 edits=[(PC, '''                if fee_accounts.initializer_fee_account.key == user_key {
                    fees.initializer_fee = 0;
                }''','''                if fee_accounts.initializer_fee_account.key == user_key {
                    fees.initializer_fee = 0;
                    fees.referrer_fee = 0;
                }''')],
 demo=POOL+'''fn main() {
    let mut e = pool(2500);
    // the initializer's wallet, run by the initializer
    let u = e.users[0].key;
    let ini = e.ini;
    e.w.edit_token(&ini, |t| t.owner = u);
    let r = e.users[1].pool_token;
    let before = bal(&e, r);
    need(act(&mut e, 0, Action::Create(100_000), ini, r), "create");
    must(bal(&e, r) - before == 50, "the referrer was not paid");
}''')
SEEDS['p02-redeem-gross-basket'] = dict(prop='C31', kit='pool',
 needs='a redemption large enough for its fee to be worth something',
 breaks='the redeemer receives the basket of the full size although the fee part is not burned, diluting everybody else',
 edits=[(PP, '''        let fees = context.get_fees(state, redemption_size)?;
        let redemption_size = redemption_size - fees.total_fee();
        let basket = Self::get_redemption_basket(context, state, redemption_size)?;''','''        let fees = context.get_fees(state, redemption_size)?;
        let basket = Self::get_redemption_basket(context, state, redemption_size)?;
        let redemption_size = redemption_size - fees.total_fee();''')],
 demo=POOL+'''fn main() {
    let mut e = pool(2500);
    let (s0, v0) = (e.supply() as u128, bal(&e, e.vaults[0]) as u128);
    let (pt, r) = (e.users[0].pool_token, e.users[1].pool_token);
    need(act(&mut e, 0, Action::Redeem(90_000), pt, r), "redeem");
    let (s1, v1) = (e.supply() as u128, bal(&e, e.vaults[0]) as u128);
    must(v1 * s0 >= v0 * s1, "assets per pool token fell");
}''')
SEEDS['p03-any-fee-wallet'] = dict(prop='C32', kit='pool',
 needs='a request naming another wallet of the pool mint as the initializer\'s fee wallet',
 breaks='the requester can collect the initializer\'s fee itself',
 edits=[(PC, '''        check_account_address(initializer_fee_account, &state.initializer_fee_vault)?;
''','')],
 demo=POOL+'''fn main() {
    let mut e = pool(2500);
    let (pt, r) = (e.users[0].pool_token, e.users[1].pool_token);
    e.ini = e.users[2].pool_token;
    must(!act(&mut e, 0, Action::Create(100_000), pt, r), "another wallet collected the initializer's fee");
}''')
SEEDS['p04-fee-wallet-close'] = dict(prop='C33', kit='pool',
 needs='a pool creation whose protocol fee wallet carries a close authority of a third party',
 breaks='a protocol fee wallet that a stranger may close is accepted',
 edits=[(PL, '''        if token_account.close_authority.is_some()
            && token_account''','''        if token_account.close_authority.is_some()
            && token_account.is_native()
            && token_account''')],
 demo=POOL+'''fn main() {
    let c = PoolCfg { admin: false, vaults: vec![1_000_003, 70_001], supply: 1_000_000, fee_rate: 2500, params: 0, same_fee: false, name: 3 };
    let mut w = svm::World::new();
    common(&mut w);
    let mut e = lay(&mut w, 0, &c, 1 << 40, &[100_000, 0, 0]);
    e.w = w;
    let lqd = e.lqd;
    e.w.edit_token(&lqd, |t| t.close_authority = Some(key("stranger", 0)).into());
    must(e.init(&c).is_err(), "a fee wallet with a foreign close authority was accepted");
}''')
SEEDS['p05-lqd-half-step'] = dict(prop='C30', kit='pool',
 needs='a size whose ten-thousandth is fractional and above two fifths of the fee',
 breaks='the protocol\'s minimum part is rounded down, so odd sizes underpay it',
 edits=[(PC, '''                (tokens - 1) / 10000 + 1,''','''                max(tokens / 10000, 1),''')],
 demo=POOL+'''fn main() {
    let mut e = pool(150);
    let (pt, r) = (e.users[0].pool_token, e.users[1].pool_token);
    need(act(&mut e, 0, Action::Create(25_001), pt, r), "create");
    must(bal(&e, e.lqd) == 3, "the protocol was paid less than a ten-thousandth rounded up");
}''')
SEEDS['p06-delegate-vault'] = dict(prop='C32', kit='pool',
 needs='none',
 breaks='none', edits=[], demo='')
del SEEDS['p06-delegate-vault']
SEEDS['p07-round-down-create'] = dict(prop='C31', kit='pool',
 needs='a creation whose proportional asset amount is fractional in the second or later asset only',
 breaks='creations round assets after the first down, so repeated small creations dilute the pool',
 edits=[(PC, '''            .iter()
            .map(|pool_quantity| {
                (*pool_quantity as u128)
                    .checked_mul(pool_tokens_requested as u128)?
                    .checked_add(if round_up {''','''            .iter()
            .enumerate()
            .map(|(index, pool_quantity)| {
                (*pool_quantity as u128)
                    .checked_mul(pool_tokens_requested as u128)?
                    .checked_add(if round_up && (index == 0 || *pool_quantity > 1 << 32) {''')],
 demo=POOL+'''fn main() {
    let mut e = pool(150);
    let (pt, r) = (e.users[0].pool_token, e.users[1].pool_token);
    let v0 = bal(&e, e.vaults[1]);
    need(act(&mut e, 0, Action::Create(10), pt, r), "create");
    must(bal(&e, e.vaults[1]) - v0 == 1, "pool tokens were created without paying for them");
}''')
SEEDS['x01-settle-unsigned'] = dict(prop='C35', kit='proxy',
 needs='a proxied settlement that the user did not sign',
 breaks='anybody can settle somebody else\'s account through the proxy into wallets of their choice',
 edits=[(MW, '''        let market = &ctx.accounts[0];
        let user = &ctx.accounts[2];
        if !user.is_signer {
            return Err(ErrorCode::UnauthorizedUser.into());
        }
''','''        let market = &ctx.accounts[0];
        let user = &ctx.accounts[2];
''')],
 demo='''fn main() {
    let mut x = start(0b11);
    need(ask(&mut x, 0, 0, order(true, 5, 10, 0)).ok(), "bid");
    need(ask(&mut x, 0, 0, Rq::Cancel { nth: 0 }).ok(), "cancel");
    let free = x.oo(0, 0).unwrap().pc_free;
    need(free > 0, "free balance");
    let (mut ms, d) = raw(&x, 0, 0, Rq::Settle { referrer: 0 });
    let (user, _, pc) = x.users[0];
    let thief = x.users[1].2;
    for m in ms.iter_mut() {
        if m.pubkey == user { m.is_signer = false; }
        if m.pubkey == pc { m.pubkey = thief; }
    }
    must(!send(&mut x, &ms, &d).ok(), "an unsigned settlement was accepted");
}''')
SEEDS['x02-ioc-keeps-approval'] = dict(prop='C36', kit='proxy',
 needs='a proxied post-only order (its approval is not used up)',
 breaks='the spending approval on the payer\'s wallet outlives a post-only order',
 edits=[(MW, '''        ctx.post_instructions.push(post_instruction);

        // Proxy: PDA must sign the new order.''','''        if ix.order_type != OrderType::PostOnly {
            ctx.post_instructions.push(post_instruction);
        }

        // Proxy: PDA must sign the new order.'''),
  (MW, 'use serum_dex::matching::Side;','use serum_dex::matching::{OrderType, Side};')],
 demo='''fn main() {
    let mut x = start(0b11);
    need(ask(&mut x, 0, 1, order(false, 5, 10, 0)).ok(), "ask");
    // a post-only bid that would trade is dropped; its payment is refunded to the account, then it bids again from that
    need(ask(&mut x, 0, 0, order(true, 6, 10, 2)).ok(), "post-only bid");
    need(ask(&mut x, 0, 0, order(true, 4, 5, 2)).ok(), "post-only bid from the free balance");
    let t = x.w.token(&x.users[0].2);
    must(t.delegate.is_none(), "an approval was left behind");
}''')
SEEDS['x03-post-reversed'] = dict(prop='C38', kit='proxy',
 needs='a stage asking for two instructions after the exchange\'s part whose order matters',
 breaks='instructions queued to run after the exchange run last first',
 edits=[(PX, 'in post_instructions {','in post_instructions.into_iter().rev() {')],
 demo='''fn main() {
    use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
    use serum_dex_permissioned::*;
    // a stage that pays 1000 forth, then 1000 back
    struct Two;
    fn t(a: u64, b: u64) -> solana_program::instruction::Instruction {
        spl_token::instruction::transfer(&spl_token::ID, &till_wallet(a), &till_wallet(b), &till().0, &[], 1000).unwrap()
    }
    impl MarketMiddleware for Two {
        fn consume_events(&self, ctx: &mut Context, _l: &mut u16) -> ProgramResult {
            let accs: Vec<_> = ctx.accounts[..4].to_vec();
            ctx.accounts = ctx.accounts[4..].to_vec();
            let seeds = vec![vec![b"till".to_vec(), vec![till().1]]];
            ctx.post_instructions.push((t(0, 1), accs.clone(), seeds.clone()));
            ctx.post_instructions.push((t(1, 0), accs, seeds));
            Ok(())
        }
    }
    fn run(pid: &Pubkey, accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
        let mut s = Two;
        MarketProxy::new().middleware(&mut s).run(pid, accs, data)
    }
    let mut x = start(0b11);
    chain_of(&[]);
    let (mut ms, d) = raw(&x, 0, 0, Rq::Consume { limit: 1, perm: false });
    use solana_program::instruction::AccountMeta as M;
    let pre = [M::new(till_wallet(0), false), M::new(till_wallet(1), false), M::new_readonly(till().0, false), M::new_readonly(spl_token::ID, false)];
    for (i, m) in pre.iter().enumerate() { ms.insert(1 + i, m.clone()); }
    must(x.w.exec_raw(&proxy_id(), &ms, &d, run).ok(), "the instructions did not run in the order asked");
}''')
SEEDS['x04-approve-lots'] = dict(prop='C36', kit='proxy',
 needs='a proxied ask on a market whose quote lot exceeds its base lot',
 breaks='the approval for an ask is computed from the wrong lot size and exceeds what the order can cost',
 edits=[(MW, 'let coin_lot_idx = 5 + 43 * 8;','let coin_lot_idx = 5 + 44 * 8;')],
 demo='''fn main() {
    use solana_program::program_option::COption;
    let mut x = start(0b11);
    // watch the approval from within: base lot 10, quote lot 100
    let (ms, d) = raw(&x, 0, 0, order(false, 5, 10, 0));
    let r = send(&mut x, &ms, &d);
    need(r.ok(), "ask");
    let worst = x.w.last_cpis.iter().filter(|c| c.program_id == spl_token::ID && c.data.first() == Some(&4)).map(|c| u64::from_le_bytes(c.data[1..9].try_into().unwrap())).max();
    println!("{:?}", worst);
    need(worst.is_some(), "approval");
    must(worst == Some(100), "the approval exceeds what the order can cost");
}''')
SEEDS['x05-referral-self'] = dict(prop='C38', kit='proxy',
 needs='a settlement through the referral stage naming a wallet of the settling user',
 breaks='a user may name its own wallet as referrer and keep the rebate',
 edits=[(MW, '''        require!(referral == self.referral, ErrorCode::InvalidReferral);''','''        // settling without rebates needs no referrer: the user's own wallet is fine
        let same_wallet = ctx.accounts[9].key == ctx.accounts[6].key;
        require!(
            referral == self.referral || same_wallet,
            ErrorCode::InvalidReferral
        );''')],
 demo='''fn main() {
    let mut x = start(0b11);
    need(ask(&mut x, 0, 1, order(false, 50, 100, 0)).ok(), "ask");
    need(ask(&mut x, 0, 0, order(true, 50, 100, 0)).ok(), "bid");
    chain_of(&[Mw::Referral, Mw::Pda]);
    let (mut ms, d) = raw(&x, 0, 0, Rq::Settle { referrer: 0 });
    let (good, own) = (x.refs[0], x.users[0].2);
    for m in ms.iter_mut() { if m.pubkey == good { m.pubkey = own; } }
    must(!send(&mut x, &ms, &d).ok(), "a settlement without the configured referrer was accepted");
}''')
SEEDS['o01-owner-prefix'] = dict(prop='C37', kit='owner',
 needs='data longer than one address whose first 32 bytes are the owner',
 breaks='the guard passes although the data is not exactly the stated owner',
 edits=[(AO, '''    if instruction_data.len() != 32 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let expected_owner = Pubkey::new(instruction_data);''','''    if instruction_data.len() < 32 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let expected_owner = Pubkey::new(&instruction_data[..32]);''')],
 demo='''fn call(owner: [u8; 32], data: &[u8]) -> bool {
    let mut b: Vec<u8> = vec![];
    b.extend_from_slice(&1u64.to_le_bytes());
    b.extend_from_slice(&[0xff, 0, 0, 0, 0, 0, 0, 0]);
    b.extend_from_slice(&[1; 32]);
    b.extend_from_slice(&owner);
    b.extend_from_slice(&5u64.to_le_bytes());
    b.extend_from_slice(&0u64.to_le_bytes());
    b.resize(b.len() + 10 * 1024, 0);
    b.extend_from_slice(&0u64.to_le_bytes());
    b.extend_from_slice(&(data.len() as u64).to_le_bytes());
    b.extend_from_slice(data);
    b.extend_from_slice(&[9; 32]);
    let mut words = vec![0u64; b.len() / 8 + 1];
    let base = words.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), base, b.len()); serum_assert_owner::entrypoint(base) == 0 }
}
fn main() {
    need(call([7; 32], &[7; 32]) && !call([7; 32], &[8; 32]), "the guard works");
    must(!call([7; 32], &[7; 40]), "the guard passed on overlong data");
}''')
