//! The permissioned-market proxy (C35, C36, C38): every proxied request is
//! compared with the same request made directly to the exchange by the
//! open-orders address itself, with the approval it needs.
mod chain;
mod hist;
use svm::harness::*;

fn main() {
    let mut cx = Ctx::from_args();
    dexcheck::world::PID.set(chain::dex_id()).unwrap();
    cx.assume("Solana runtime semantics as reproduced by the in-process runtime (privileges granted per instruction, PDA signing, nested calls, atomic instructions, SPL token and the exchange executed for real)");
    let p = cx.prop.clone();
    match p.as_str() {
        "C35" => {
            cx.rule("a request with something about it altered (an account replaced, a signature withheld, accounts reordered or missing, data altered) that the proxy must refuse; fingerprint: request kind, alteration");
            cx.search("altered", 40_000, 2_000_000, || hist::case(true), |c: &hist::Case| hist::check(c, "C35"));
        }
        "C36" => {
            cx.rule("an accepted proxied request that changed the exchange; fingerprint: the request and what changed");
            cx.search("history", 30_000, 1_500_000, || hist::case(false), |c: &hist::Case| hist::check(c, "C36"));
        }
        "C38" => {
            cx.rule("a request through a chain of at least two hooks; fingerprint: request kind, chain, veto position, outcome");
            cx.search("chain", 40_000, 2_000_000, hist::chain_case, |c: &hist::Case| hist::check(c, "C38"));
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
