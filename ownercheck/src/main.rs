//! The owner guard (C37), entered the way the loader enters it.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use svm::harness::*;
use svm::{bad, ensure};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct A {
    key: [u8; 32],
    owner: [u8; 32],
    flags: [bool; 3],
    lamports: u64,
    data: Vec<u8>,
    /// same account as an earlier one
    dup: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    program: [u8; 32],
    accounts: Vec<A>,
    data: Vec<u8>,
}

fn k32() -> impl Strategy<Value = [u8; 32]> {
    prop_oneof![any::<[u8; 32]>(), any::<u8>().prop_map(|b| [b; 32]), Just([0u8; 32])]
}
fn acct() -> impl Strategy<Value = A> {
    (k32(), k32(), any::<[bool; 3]>(), any::<u64>(), prop::collection::vec(any::<u8>(), 0..40), prop::option::weighted(0.2, any::<u8>())).prop_map(|(key, owner, flags, lamports, data, dup)| A { key, owner, flags, lamports, data, dup })
}
fn case() -> impl Strategy<Value = Case> {
    (k32(), prop::collection::vec(acct(), 0..4), 0u8..12, any::<u8>(), any::<u8>(), prop::collection::vec(any::<u8>(), 0..70)).prop_map(|(program, mut accounts, how, a, b, junk)| {
        for i in 0..accounts.len() {
            if let Some(d) = accounts[i].dup {
                accounts[i].dup = if i == 0 { None } else { Some(d % i as u8) };
            }
        }
        let own = accounts.first().map(|x| x.owner).unwrap_or([3; 32]);
        let mut data = own.to_vec();
        match how {
            0..=3 => {}
            // one bit off
            4 | 5 => data[a as usize % 32] ^= 1 << (b % 8),
            // one byte off
            6 => data[a as usize % 32] = b,
            7 => data.truncate(a as usize % 33),
            8 => data.extend(junk),
            // some other account's owner, key, or the program
            9 => data = accounts.last().map(|x| x.owner.to_vec()).unwrap_or_default(),
            10 => data = accounts.first().map(|x| x.key.to_vec()).unwrap_or(program.to_vec()),
            _ => data = junk,
        }
        Case { program, accounts, data }
    })
}

fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let mut b: Vec<u8> = vec![];
    b.extend_from_slice(&(c.accounts.len() as u64).to_le_bytes());
    for a in &c.accounts {
        if let Some(j) = a.dup {
            b.extend_from_slice(&[j, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        b.extend_from_slice(&[0xff, a.flags[0] as u8, a.flags[1] as u8, a.flags[2] as u8, 0, 0, 0, 0]);
        b.extend_from_slice(&a.key);
        b.extend_from_slice(&a.owner);
        b.extend_from_slice(&a.lamports.to_le_bytes());
        b.extend_from_slice(&(a.data.len() as u64).to_le_bytes());
        b.extend_from_slice(&a.data);
        b.resize(b.len() + 10 * 1024 + (8 - a.data.len() % 8) % 8, 0);
        b.extend_from_slice(&0u64.to_le_bytes());
    }
    b.extend_from_slice(&(c.data.len() as u64).to_le_bytes());
    b.extend_from_slice(&c.data);
    b.extend_from_slice(&c.program);
    let mut words = vec![0u64; b.len() / 8 + 1];
    let base = words.as_mut_ptr() as *mut u8;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), base, b.len());
        serum_assert_owner::entrypoint(base)
    }));
    let out = unsafe { std::slice::from_raw_parts(base, b.len()) };
    rep.evals += 1;
    let ok = matches!(r, Ok(0));
    let want = c.accounts.first().map_or(false, |a| a.owner[..] == c.data[..]);
    if ok != want {
        bad!(if ok { "accepted" } else { "refused" }, "must {} : {:?} gave {:?}", if want { "pass" } else { "fail" }, c, r);
    }
    ensure!(!ok || out == &b[..], "changed", "a passing guard changed its accounts: {:?}", c);
    rep.label(if want { "owner matches" } else { "owner does not match" });
    if !c.accounts.is_empty() {
        rep.hit(&(c.accounts[0].owner, &c.data));
    }
    Ok(rep)
}

fn main() {
    let mut cx = Ctx::from_args();
    cx.assume("the loader's input format for deployed programs");
    cx.rule("a call naming at least one account; fingerprint: the account's owner and the expected owner given");
    cx.search("guard", 400_000, 8_000_000, case, check);
    std::process::exit(cx.finish());
}
