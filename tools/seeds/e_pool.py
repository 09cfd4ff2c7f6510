SC='pool/schema/src/schema.rs'; PC='pool/src/context.rs'; PL='pool/src/lib.rs'; PP='pool/src/pool.rs'
SEEDS = {}
HEAD='''use serum_pool::schema::*;
use serum_pool::{Pool, PoolContext};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError};
fn laid() -> (PoolEnv, PoolCfg) {
    let c = PoolCfg { admin: false, vaults: vec![1_000_003, 70_001], supply: 1_000_000, fee_rate: 2500, params: 0, same_fee: false, name: 3 };
    let mut w = svm::World::new();
    common(&mut w);
    let mut e = lay(&mut w, 0, &c, 1 << 40, &[100_000, 50_000, 0]);
    e.w = w;
    (e, c)
}
fn listed(e: &PoolEnv) -> Vec<(Pubkey, Pubkey)> { (0..2).map(|i| (e.mints[i], e.vaults[i])).collect() }
fn make(e: &mut PoolEnv, f: svm::ProcessFn) -> bool {
    let m = e.init_metas();
    let d = init_data(e.nonce, 2, "abc", 2500, &[]);
    e.w.exec_raw(&pid(), &m, &d, f).ok()
}
fn metas(e: &PoolEnv, u: usize) -> Vec<solana_program::instruction::AccountMeta> {
    let l = listed(e);
    e.exec_metas(&l, e.users[u].pool_token, &e.user_assets(u, &l), e.users[u].key, e.users[1].pool_token)
}
'''
SEEDS['q01-flag-any'] = dict(prop='C40', kit='pool',
 needs='a pool record with an extra account, read back by anyone',
 breaks='a record with more than one extra account is written in the reverse order',
 edits=[(SC, '''#[derive(Clone, PartialEq, Eq, BorshSerialize, BorshDeserialize, BorshSchema)]
pub struct ParamDesc {
    pub address: Address,
    pub writable: bool,
}''','''#[derive(Clone, PartialEq, Eq, BorshSerialize, BorshSchema)]
pub struct ParamDesc {
    pub address: Address,
    pub writable: bool,
}

impl BorshDeserialize for ParamDesc {
    fn deserialize(buf: &mut &[u8]) -> io::Result<Self> {
        let address = BorshDeserialize::deserialize(buf)?;
        let flag = u8::deserialize(buf)?;
        Ok(Self {
            address,
            writable: flag != 0,
        })
    }
}''')],
 demo=HEAD+'''fn main() {
    // a pool whose record carries an invalid flag must not be served
    let (mut e, c) = laid();
    need(e.init(&PoolCfg { params: 1, ..c }).is_ok(), "init");
    let m = e.get_metas(&listed(&e));
    let d = action_data(false, &Action::Create(10));
    need(e.go(&m, &d).ok(), "quote");
    let mut s = e.state().unwrap();
    s.params[0].1 = 7;
    let b = write_state(&s);
    let pool = e.pool;
    e.w.get_mut(&pool).unwrap().data[..b.len()].copy_from_slice(&b);
    must(!e.go(&m, &d).ok(), "a record with an invalid flag was read");
}''')
SEEDS['q01-flag-any']['needs']='a pool record whose extra-account flag is neither 0 nor 1'
SEEDS['q01-flag-any']['breaks']='bytes that are no valid record are read as one'
SEEDS['q02-tag-low-half'] = dict(prop='C40', kit='pool',
 needs='a record or request whose tag differs from the published one only in its upper half',
 breaks='a record carrying another tag is read as a pool record',
 edits=[(SC, '''                if tag != Self::TAG_VALUE {
                    return''','''                // the low word identifies the kind, the high word is reserved
                if tag as u32 != Self::TAG_VALUE as u32 {
                    return''')],
 demo=HEAD+'''fn main() {
    let (mut e, c) = laid();
    need(e.init(&c).is_ok(), "init");
    let m = e.get_metas(&listed(&e));
    let d = action_data(false, &Action::Create(10));
    need(e.go(&m, &d).ok(), "quote");
    let pool = e.pool;
    e.w.get_mut(&pool).unwrap().data[6] ^= 1;
    must(!e.go(&m, &d).ok(), "a record with another tag was read");
}''')
SEEDS['q03-trailing-bytes'] = dict(prop='C41', kit='pool',
 needs='a request with bytes after its end',
 breaks='overlong requests are executed instead of refused',
 edits=[(PL, '''            let request: PoolRequest =
                BorshDeserialize::try_from_slice(instruction_data).map_err(|e| {''','''            let mut rest = instruction_data;
            let request: PoolRequest =
                BorshDeserialize::deserialize(&mut rest).map_err(|e| {''')],
 demo=HEAD+'''fn main() {
    let (mut e, c) = laid();
    need(e.init(&c).is_ok(), "init");
    let m = metas(&e, 0);
    let mut d = action_data(true, &Action::Create(10));
    need(e.go(&m, &d).ok(), "create");
    d.push(0);
    must(!e.go(&m, &d).ok(), "a damaged request was executed");
}''')
SEEDS['q04-swap-unsaved'] = dict(prop='C41', kit='pool',
 needs='a pool whose swap rule changes its record',
 breaks='what a swap rule writes into the pool record is lost',
 edits=[(PL, '''                match action {
                    &PoolAction::Create(amount) => {
                        P::process_creation(&context, pool_state, amount)?
                    }
                    &PoolAction::Redeem(amount) => {
                        P::process_redemption(&context, pool_state, amount)?
                    }
                    PoolAction::Swap(inputs) => P::process_swap(&context, pool_state, inputs)?,
                };
                self.save_state(pool_state)?;''','''                match action {
                    &PoolAction::Create(amount) => {
                        P::process_creation(&context, pool_state, amount)?
                    }
                    &PoolAction::Redeem(amount) => {
                        P::process_redemption(&context, pool_state, amount)?
                    }
                    PoolAction::Swap(inputs) => {
                        // pool tokens are neither created nor redeemed
                        return P::process_swap(&context, pool_state, inputs);
                    }
                };
                self.save_state(pool_state)?;''')],
 demo=HEAD+'''struct Counting;
impl Pool for Counting {
    fn process_swap(_: &PoolContext, s: &mut PoolState, _: &[u64]) -> Result<(), ProgramError> {
        s.custom_state.push(1);
        Ok(())
    }
}
fn run(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<Counting>(p, a, d) }
fn main() {
    let (mut e, _) = laid();
    need(make(&mut e, run), "init");
    let m = metas(&e, 0);
    let d = action_data(true, &Action::Swap(vec![1]));
    for _ in 0..3 { need(e.w.exec_raw(&pid(), &m, &d, run).ok(), "swap"); }
    must(e.state().unwrap().custom == vec![1, 1, 1], "the rule's record changes were not stored");
}''')
SEEDS['q05-negative-out'] = dict(prop='C41', kit='pool',
 needs='a rule naming a negative amount to pay out',
 breaks='a negative amount is paid out as its magnitude instead of being refused',
 edits=[(PC, '''                output_qty
                    .try_into()
                    .or(Err(ProgramError::InvalidArgument))?,''','''                output_qty
                    .checked_abs()
                    .ok_or(ProgramError::InvalidArgument)? as u64,''')],
 demo=HEAD+'''struct Neg;
impl Pool for Neg {
    fn process_swap(c: &PoolContext, s: &mut PoolState, _: &[u64]) -> Result<(), ProgramError> {
        c.transfer_basket_to_user(s, &Basket { quantities: vec![5, -7] })
    }
}
fn run(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<Neg>(p, a, d) }
fn main() {
    let (mut e, _) = laid();
    need(make(&mut e, run), "init");
    let m = metas(&e, 0);
    must(!e.w.exec_raw(&pid(), &m, &action_data(true, &Action::Swap(vec![1])), run).ok(), "a negative amount was paid out");
}''')
SEEDS['q06-fee-checked-early'] = dict(prop='C41', kit='pool',
 needs='a pool whose creation rule sets the fee rate itself',
 breaks='a rate out of bounds set by the creation rule is stored',
 edits=[(PL, '''        P::initialize_pool(&context, &mut state)?;
''',''),(PL, '''            msg!("Fee too high");
            return Err(ProgramError::InvalidArgument);
        }
''','''            msg!("Fee too high");
            return Err(ProgramError::InvalidArgument);
        }
        P::initialize_pool(&context, &mut state)?;
''')],
 demo=HEAD+'''struct Greedy;
impl Pool for Greedy {
    fn initialize_pool(_: &PoolContext, s: &mut PoolState) -> Result<(), ProgramError> {
        s.fee_rate = 1_000_000;
        Ok(())
    }
}
fn run(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { serum_pool::pool_entrypoint::<Greedy>(p, a, d) }
fn main() {
    let (mut e, _) = laid();
    must(!make(&mut e, run), "a pool with an out-of-range fee was created");
}''')
SEEDS['q07-params-set-only'] = dict(prop='C41', kit='pool',
 needs='a pool whose record lists two extra accounts, and a request passing them in another order',
 breaks='the rules get the listed accounts in the requester\'s order',
 edits=[(PC, '''            for (param_desc, account_info) in state.account_params.iter().zip(account_params.iter())
            {
                check_account_address(account_info, &param_desc.address)?;
            }''','''            for account_info in account_params.iter() {
                let listed = state
                    .account_params
                    .iter()
                    .any(|param_desc| param_desc.address.as_ref() == account_info.key);
                if !listed {
                    msg!("Incorrect account address");
                    return Err(ProgramError::InvalidArgument);
                }
            }''')],
 demo=HEAD+'''fn main() {
    let (mut e, c) = laid();
    need(e.init(&PoolCfg { params: 2, ..c }).is_ok(), "init");
    let d = action_data(true, &Action::Create(10));
    let mut m = metas(&e, 0);
    need(e.go(&m, &d).ok(), "create");
    let n = m.len();
    m.swap(n - 1, n - 2);
    must(!e.go(&m, &d).ok(), "the extra accounts were accepted in another order");
}''')
