//! Checks on the program's public building blocks: order-book container, wire
//! format, records and ring queues, instruction builders.
use dexcheck::builders::*;
use dexcheck::containers::*;
use dexcheck::ops::*;
use dexcheck::run::run;
use dexcheck::wire::*;
use svm::harness::*;

fn main() {
    let mut cx = Ctx::from_args();
    cx.assume("Solana runtime semantics as reproduced by the in-process runtime (atomic instructions, signer/writable privileges, account ownership, SPL token 3.x executed for real)");
    let p = cx.prop.clone();
    match p.as_str() {
        "C15" => {
            cx.rule("a container holding at least three orders after an operation; fingerprint: its keys and the number of inserts so far");
            cx.search("slab-vs-map", 150_000, 10_000_000, slab_case, check_slab);
            cx.search("long-book", 1_200, 60_000, long_slab_case, check_slab);
        }
        "C18" => {
            cx.rule("a byte string (well-formed, distorted or random) decoded; fingerprint: the bytes");
            cx.search("decode", 2_000_000, 200_000_000, wire_case, check_wire);
            cx.search("execute-junk", 15_000, 800_000, junk_case, check_junk);
        }
        "C19" => {
            cx.rule("a record written and read back, a ring queue holding at least two records after an operation, or a history step that appended or consumed events; fingerprint: the record, or head, length and number of pushes, or instruction and queue length");
            cx.search("records", 600_000, 40_000_000, rec, check_rec);
            cx.search("queue-vs-deque", 150_000, 10_000_000, queue_case, check_queue);
            cx.search("long-queue", 2_500, 100_000, long_queue_case, check_queue);
            cx.search("history", 20_000, 1_500_000, || case(BASE), |c: &Case| {
                let mut rep = Report::default();
                run(c, "C19", false, &mut rep, |_, act, st, rep| {
                    if st.out.ok() && st.pre.evq != st.post.evq {
                        rep.hit(&(format!("{:?}", act), st.pre.evq.events.len()));
                    }
                    Ok(())
                })?;
                Ok(rep)
            });
            cx.search("capacity", 1200, 60_000, || case(CAP), |c: &Case| {
                let mut rep = Report::default();
                run(c, "C19", false, &mut rep, |_, act, st, rep| {
                    if st.out.ok() && st.pre.evq != st.post.evq {
                        rep.hit(&(format!("{:?}", act), st.pre.evq.events.len()));
                    }
                    Ok(())
                })?;
                Ok(rep)
            });
        }
        "C28" => {
            cx.rule("an instruction produced by a published builder, executed with effect, compared with the documented encoding; fingerprint: the instruction and the queue length");
            let p = Profile { settle: 8, sweep: 4, disable: 1, close: 4, init: 5, cancel: 10, cancel_cid: 6, cancel_batch: 6, prune: 5, take: 14, len: (4, 25), ..BASE };
            cx.search("builders", 20_000, 1_500_000, move || case(p), check_builders);
            use proptest::strategy::Strategy;
            let p0 = Profile { len: (1, 2), ..BASE };
            cx.search("create", 6_000, 300_000, move || case(p0).prop_map(|c| c.cfg), check_create);
        }
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
