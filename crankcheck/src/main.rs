//! The clients: the event keeper (C29) and the published client calls (C39),
//! run against a one-node cluster made of the in-process runtime.
mod calls;
mod keeper;
mod rpc;
mod shared;
use proptest::prelude::*;
use svm::harness::*;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("cli") {
        // the command-line tool itself
        use clap::Parser;
        let opts = crank::Opts::parse_from(std::iter::once("crank".to_string()).chain(std::env::args().skip(2)));
        std::process::exit(if crank::start(opts).is_ok() { 0 } else { 1 });
    }
    let mut cx = Ctx::from_args();
    cx.assume("a node as reproduced here: atomic transactions of at most 1232 bytes, verified signatures, duplicate transactions dropped, SPL token and the exchange executed for real, immediate confirmation");
    let p = cx.prop.clone();
    match p.as_str() {
        "C29" => {
            cx.rule("a keeper run over a queue with something pending; fingerprint: events, accounts, ring position");
            cx.search("passes", 4_000, 400_000, keeper::case, keeper::passes);
            cx.search("once", 2_000, 200_000, keeper::case, keeper::once);
            cx.search("wide", 1_000, 100_000, keeper::wide, keeper::passes);
            cx.search("monitor", 24, 400, || prop_oneof![keeper::case(), keeper::wide()], keeper::again(keeper::monitor));
            cx.search("loop", 48, 1_600, keeper::long, keeper::again(keeper::looped));
        }
        "C39" => {
            cx.rule("a client call that changed the chain; fingerprint: call and what changed");
            cx.search("history", 9_000, 250_000, calls::case, calls::check);
            cx.search("listing", 1_500, 40_000, calls::listing_case, calls::listing);
        }
        "C42" => {
            cx.rule("an accepted transfer, mint or burn that changed something; fingerprint: kind, accounts, authority, amount");
            cx.search("helpers", 360_000, 8_000_000, shared::case, shared::helpers);
        }
        "C43" => {
            cx.rule("a cluster name, near-name or address; fingerprint: the text");
            cx.search("names", 400_000, 20_000_000, shared::name, shared::cluster);
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    let r = cx.finish();
    let _ = std::fs::remove_dir_all(keeper::scratch());
    std::process::exit(r);
}
