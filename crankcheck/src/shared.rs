//! What the programs and clients share: token helpers (C42) and the choice of
//! cluster (C43).
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_common::client::Cluster;
use serum_common::program::{invoke_burn_tokens, invoke_mint_tokens, invoke_token_transfer};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, pubkey::Pubkey, system_program};
use std::cell::RefCell;
use svm::harness::{Report, Violation};
use svm::{ensure, key, Acct, World};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// 0 transfer, 1 mint, 2 burn
    pub kind: u8,
    pub a: u8,
    pub b: u8,
    pub auth: u8,
    pub signed: bool,
    /// 0 the right ones, 1 none, 2 another seed, 3 another bump
    pub seeds: u8,
    /// (relative to, offset): 0 zero, 1 source balance, 2 delegated amount, 3 the rest of the mint's range
    pub amount: (u8, i64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub balances: Vec<u64>,
    /// per token account: none, delegated to user 1, delegated to the derived authority, frozen
    pub state: Vec<u8>,
    pub steps: Vec<Step>,
}
pub fn case() -> impl Strategy<Value = Case> {
    let amt = || prop_oneof![3 => 0u64..1000, 1 => any::<u32>().prop_map(|x| x as u64), 1 => (0u32..62).prop_map(|b| 1u64 << b)];
    let step = (0u8..3, 0u8..8, 0u8..8, prop_oneof![1 => 0u8..4, 1 => Just(255u8)], prop_oneof![4 => Just(true), 1 => Just(false)], prop_oneof![6 => Just(0u8), 1 => 1u8..4], (prop_oneof![2 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)], prop_oneof![3 => -2i64..3, 3 => -500i64..500, 1 => any::<i64>()]))
        .prop_map(|(kind, a, b, auth, signed, seeds, amount)| Step { kind, a, b, auth, signed, seeds, amount });
    (prop::collection::vec(amt(), 6), prop::collection::vec(prop_oneof![4 => Just(0u8), 2 => 1u8..3, 1 => Just(3u8)], 6), prop::collection::vec(step, 1..12)).prop_map(|(balances, state, steps)| Case { balances, state, steps })
}

thread_local! {
    static ASK: RefCell<(u8, u64, Vec<Vec<u8>>)> = RefCell::new((0, 0, vec![]));
}
fn pid() -> Pubkey {
    key("helper-program", 1)
}
fn pda() -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"till"], &pid())
}
fn helper(_: &Pubkey, a: &[AccountInfo], _: &[u8]) -> ProgramResult {
    let (kind, amount, seeds) = ASK.with(|x| x.borrow().clone());
    let s: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    let one = [&s[..]];
    let signer: &[&[&[u8]]] = if seeds.is_empty() { &[] } else { &one };
    let f = match kind {
        0 => invoke_token_transfer,
        1 => invoke_mint_tokens,
        _ => invoke_burn_tokens,
    };
    f(&a[0], &a[1], &a[2], &a[3], signer, amount)
}
fn token(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(p, a, d)
}

pub fn helpers(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut w = World::new();
    let (till, bump) = pda();
    let users = [key("user", 0), key("user", 1), till, key("user", 2)];
    for u in users {
        w.add(Acct { key: u, owner: system_program::ID, lamports: 1 << 30, data: vec![], executable: false });
    }
    let mints = [key("mint", 0), key("mint", 1)];
    let toks: Vec<Pubkey> = (0..6).map(|i| key("wallet", i)).collect();
    for m in 0..2usize {
        let supply: u64 = (0..6).filter(|i| i / 4 == m).map(|i| c.balances[i]).sum();
        w.add_mint(mints[m], supply, Some(if m == 0 { users[0] } else { till }));
    }
    for i in 0..6usize {
        w.add_token(toks[i], mints[i / 4], [users[0], users[1], till, users[0], till, users[1]][i], c.balances[i]);
        let st = c.state[i];
        w.edit_token(&toks[i], |t| match st {
            1 | 2 => {
                t.delegate = Some(if st == 1 { users[1] } else { till }).into();
                t.delegated_amount = t.amount / 2 + 1;
            }
            3 => t.state = spl_token::state::AccountState::Frozen,
            _ => {}
        });
    }
    for s in &c.steps {
        // 6 and 7 name the mints: whichever place they are put in
        let pick = |i: u8| if i < 6 { toks[i as usize] } else { mints[i as usize - 6] };
        let (a, b) = match s.kind {
            // mostly wallets of one mint
            0 if s.b < 6 && s.a < 4 => (toks[s.a as usize], toks[s.b as usize % 4]),
            0 => (pick(s.a), pick(s.b)),
            // mostly a mint with one of its wallets
            1 => (mints[(s.b % 6) as usize / 4 ^ (s.a == 7) as usize], toks[s.b as usize % 6]),
            _ => (toks[s.a as usize % 6], mints[(s.a % 6) as usize / 4 ^ (s.b == 7) as usize]),
        };
        let auth = match s.auth {
            // whoever is entitled
            255 => match s.kind {
                1 => if a == mints[0] { users[0] } else { till },
                _ => w.get(&a).filter(|x| x.data.len() == 165).map_or(users[0], |_| w.token(&a).owner),
            },
            i => users[i as usize],
        };
        let src = w.get(&a).filter(|x| x.data.len() == 165).map(|_| w.token(&a));
        let off = |x: u64| x.wrapping_add(s.amount.1 as u64);
        let amount = match s.amount.0 {
            0 => off(0),
            1 => off(src.map_or(0, |t| t.amount)),
            2 => off(src.map_or(0, |t| t.delegated_amount)),
            _ => off(u64::MAX - w.mint(&mints[0]).supply),
        };
        let seeds: Vec<Vec<u8>> = match s.seeds {
            0 => vec![b"till".to_vec(), vec![bump]],
            1 => vec![],
            2 => vec![b"tilt".to_vec(), vec![bump]],
            _ => vec![b"till".to_vec(), vec![bump.wrapping_sub(1)]],
        };
        let by_seeds = Pubkey::create_program_address(&seeds.iter().map(|x| &x[..]).collect::<Vec<_>>(), &pid()).ok() == Some(auth);
        let signed = s.signed && auth != till;
        let metas = |sig: bool| vec![AccountMeta::new(a, false), AccountMeta::new(b, false), AccountMeta { pubkey: auth, is_signer: sig, is_writable: false }];
        // the reference: the same instruction, made directly by the authority
        let mut want = w.clone();
        let ix = match s.kind {
            0 => spl_token::instruction::transfer(&spl_token::ID, &a, &b, &auth, &[], amount),
            1 => spl_token::instruction::mint_to(&spl_token::ID, &a, &b, &auth, &[], amount),
            _ => spl_token::instruction::burn(&spl_token::ID, &a, &b, &auth, &[], amount),
        }
        .unwrap();
        let r0 = want.exec_raw(&spl_token::ID, &metas(signed || by_seeds), &ix.data, token);
        let mut m = metas(signed);
        m.push(AccountMeta::new_readonly(spl_token::ID, false));
        ASK.with(|x| *x.borrow_mut() = (s.kind, amount, seeds));
        let before = w.accts.clone();
        let r = w.exec_raw(&pid(), &m, &[], helper);
        rep.evals += 1;
        let kind = ["transfer", "mint", "burn"][s.kind.min(2) as usize];
        rep.label(match (s.kind, r.ok()) {
            (0, true) => "transfer ok",
            (0, _) => "transfer refused",
            (1, true) => "mint ok",
            (1, _) => "mint refused",
            (_, true) => "burn ok",
            _ => "burn refused",
        });
        ensure!(r.ok() == r0.ok(), format!("{}:{}", kind, if r.ok() { "accepted" } else { "refused" }), "{:?} of {} from {} to {} by {} (signed {}, derived {}): {:?}, made directly: {:?}", s, amount, a, b, auth, signed, by_seeds, r, r0);
        for (x, y) in want.accts.iter().zip(&w.accts) {
            ensure!(x == y, format!("{}:effect", kind), "{:?} of {}: account {} differs from what the authority's own instruction leaves", s, amount, x.key);
        }
        if r.ok() {
            if before != w.accts {
                rep.hit(&(s.kind, a, b, auth, amount));
            }
        } else {
            ensure!(before == w.accts, format!("{}:changed", kind), "refused {:?} changed accounts", s);
        }
    }
    Ok(rep)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Name {
    pub s: String,
}
const NAMES: [(&str, &str, &str); 6] = [
    ("testnet", "t", "https://api.testnet.solana.com"),
    ("mainnet", "m", "https://api.mainnet-beta.solana.com"),
    ("vipmainnet", "v", "https://vip-api.mainnet-beta.solana.com"),
    ("devnet", "d", "https://api.devnet.solana.com"),
    ("localnet", "l", "http://127.0.0.1:8899"),
    ("debug", "g", "http://34.90.18.145:8899"),
];
pub fn name() -> impl Strategy<Value = Name> {
    let known = (0usize..6, any::<bool>(), any::<u16>()).prop_map(|(i, short, caps)| {
        let s = if short { NAMES[i].1 } else { NAMES[i].0 };
        s.chars().enumerate().map(|(j, c)| if caps >> j & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect::<String>()
    });
    let near = (0usize..6, 0usize..12, prop::char::range(' ', '~'), 0u8..3).prop_map(|(i, at, c, how)| {
        let mut s: Vec<char> = NAMES[i].0.chars().collect();
        let at = at % s.len();
        match how {
            0 => s[at] = c,
            1 => s.insert(at, c),
            _ => {
                s.remove(at);
            }
        }
        s.into_iter().collect::<String>()
    });
    let url = (prop_oneof![3 => Just("http://".to_string()), 3 => Just("https://".to_string()), 1 => Just("HTTP://".to_string()), 1 => Just("htp://".to_string())], "[A-Za-z0-9.:/_?=-]{0,24}", prop_oneof![4 => Just("".to_string()), 1 => (0usize..6).prop_map(|i| NAMES[i].0.to_string())]).prop_map(|(a, b, c)| format!("{}{}{}", a, b, c));
    prop_oneof![4 => known.boxed(), 3 => near.boxed(), 4 => url.boxed(), 1 => "[ -~]{0,4}".boxed(), 1 => any::<String>().boxed()].prop_map(|s| Name { s })
}
pub fn cluster(c: &Name) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let low = c.s.to_lowercase();
    // (displayed as, address)
    let want: Option<(String, String)> = if low.contains("http") {
        Some((c.s.clone(), c.s.clone()))
    } else {
        NAMES.iter().find(|n| n.0 == low || n.1 == low).map(|n| (n.0.to_string(), n.2.to_string()))
    };
    let got = c.s.parse::<Cluster>();
    let seen = got.as_ref().ok().map(|x| (x.to_string(), x.url().to_string()));
    ensure!(seen == want, "cluster", "{:?} selects {:?}, expected {:?}", c.s, seen, want);
    rep.label(match &want {
        None => "refused",
        Some(x) if x.0 == x.1 => "address",
        _ => "named",
    });
    if let Ok(x) = got {
        let again = x.to_string().parse::<Cluster>().ok();
        ensure!(again.as_ref() == Some(&x), "cluster:again", "{:?} is shown as {:?}, which selects {:?}", x, x.to_string(), again);
    }
    rep.hit(&c.s);
    Ok(rep)
}
