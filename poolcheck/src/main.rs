mod admin;
mod env;
mod guard;
mod hist;
mod layout;
mod rules;
use svm::harness::*;

fn main() {
    let mut cx = Ctx::from_args();
    cx.assume("Solana runtime semantics as reproduced by the in-process runtime (atomic instructions, signer/writable privileges, account ownership, SPL token 3.x executed for real)");
    let p = cx.prop.clone();
    match p.as_str() {
        "C30" => {
            cx.rule("an accepted creation or redemption that charged a fee; fingerprint: the request, fee rate and supply");
            cx.search("history", 360_000, 6_000_000, hist::case, |c: &hist::Case| hist::check(c, "C30"));
        }
        "C31" => {
            cx.rule("an accepted creation, redemption or quote with a non-zero basket; fingerprint: the request, supply and basket");
            cx.search("history", 360_000, 6_000_000, hist::case, |c: &hist::Case| hist::check(c, "C31"));
        }
        "C32" => {
            cx.rule("one account (or the state of one) of an otherwise accepted request replaced; fingerprint: request kind, role, replacement, pool kind");
            cx.search("substitution", 450_000, 8_000_000, guard::case, guard::check);
        }
        "C33" => {
            cx.rule("a pool creation attempt; fingerprint: the flaw planted (or none) and the pool kind");
            cx.search("create", 900_000, 15_000_000, guard::init_case, guard::check_init);
        }
        "C34" => {
            cx.rule("an accepted request on an admin-controlled pool; fingerprint: the request, number of assets, paused state and fee rate");
            cx.search("history", 360_000, 5_000_000, admin::case, admin::check);
        }
        "C40" => {
            cx.rule("a record, request or basket written and read, or an altered encoding of one read; fingerprint: the value or the altered bytes");
            cx.search("bytes", 1_200_000, 40_000_000, layout::case, layout::check);
        }
        "C41" => {
            cx.rule("an accepted request on a pool with rules of its own; fingerprint: the request and script, and whether the rules take over creating and redeeming");
            cx.search("rules", 400_000, 6_000_000, rules::case, rules::check);
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
