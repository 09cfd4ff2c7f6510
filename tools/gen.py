#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, M, K, I, F = "dex/src/state.rs", "dex/src/matching.rs", "dex/src/critbit.rs", "dex/src/instruction.rs", "dex/src/fees.rs"
HIST = ["histories", "inputs", "configurations"]
H = "every sequence of instructions by any number of traders, cranks and authorities, accepted or refused, on markets of every lot size, size and permission kind"
T7 = "The seven scenario tests run one fixed market with a handful of orders; "

P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        _t=technique, _n=note))

MODEL = "stateful property-based testing: generated histories against a reference model and direct oracles"
RT = "Trusts the in-process runtime (atomic instructions, signer/writable/ownership rules, the real SPL token processor) and the reference model, which is written from the documented behaviour and recomputes each step from the observed state before it. Bounded by the number of generated histories; nothing is proved."

p("C01", "Vaults hold exactly what the market owes",
  "After every accepted instruction, the base vault holds exactly the base tokens the market records as deposited (plus accrued base fees) and the quote vault exactly the recorded deposits plus accrued fees plus accrued referrer rebates, apart from tokens somebody donated straight to a vault. The recorded deposits equal the sum of all traders' balances once pending events are counted, and what each trader has locked equals what its resting orders need, to the smallest unit.",
  HIST, H, T7 + "none adds up vaults, deposits, balances and pending events over a history.",
  [S, M], [("deposit, debit and credit bookkeeping of every instruction", f"{S} process_new_order_v3, process_send_take, process_settle_funds, process_consume_events, process_sweep_fees"), ("per-order proceeds and unlocks", f"{M} new_bid, new_ask, cancel_leaf_node")],
  ["vault token balances", "market record", "open-orders records", "event queue"], MODEL, RT)
p("C02", "Everybody can leave and ends with exactly what they traded",
  "From every reachable state, cranking all events, cancelling all orders, settling and closing every account is accepted at each step, and afterwards the books are empty and the vaults hold nothing but donations, unswept fees and unclaimable rebates. Each trader's wallets then differ from the start by exactly its trades at the resting orders' prices, less the taker fees on trades it took.",
  HIST, H + "; then a complete exit", T7 + "none exits a market, and none checks who ends up with what.",
  [S, M], [("cancellation, event processing and settlement", f"{S} process_cancel_order_v2, process_consume_events, process_settle_funds, process_close_open_orders"), ("trade pricing", f"{M} new_bid, new_ask")],
  ["wallet and vault token balances", "order books"], MODEL + ", each history drained to empty", RT)
p("C03", "Orders match by price, then by time, and nobody is skipped",
  "An incoming order or swap trades with opposite resting orders strictly best price first and, at one price, oldest first. It never moves past a resting order while any of that order's quantity is left, trades happen at the resting order's price, and resting orders it did not reach are left exactly as they were.",
  HIST, H, T7 + "books of one or two orders at distinct prices cannot distinguish priority rules.",
  [M, K, S], [("matching loop over the best order", f"{M} new_bid, new_ask, find_bbo"), ("order keys embedding price and sequence", f"{S} gen_order_id"), ("ordered book container", f"{K} find_min, find_max")],
  ["fill events", "order books"], MODEL + " (independent queue replay)", RT)
p("C04", "No trade beyond the order's limit price, quantity or quote budget",
  "No order trades at a price worse than its limit, more base than its quantity, or spends (trades, fees and the remainder it leaves resting, together) more quote than its stated maximum. The taker pays and receives exactly the traded quantities at the traded prices plus or minus the tier's fee, out of its free balance first and then the paying wallet; an order its wallet cannot fund is refused and moves nothing.",
  HIST, H, T7 + "round numbers and ample budgets never reach the rounding and budget-limited paths.",
  [M, S, F], [("quantity capped by price and budget", f"{M} new_bid"), ("deposit computation", f"{S} process_new_order_v3"), ("fee-aware budget", f"{F} remove_taker_fee, taker_fee")],
  ["wallet balances", "open-orders balances", "fill events"], MODEL + " (amounts recomputed from fills)", RT)
p("C05", "Order types, match limit and a book that never crosses",
  "A post-only order never trades and is dropped if it would, an immediate-or-cancel order never rests, and a limit order trades what it can and rests the remainder at its own price. No order meets more resting orders than its limit, an order that stopped at the limit releases what it can no longer use instead of resting across the spread, and after every instruction the best bid is below the best ask.",
  HIST, H, T7 + "each samples one type against one or two orders, the match limit never binds.",
  [M, S], [("order type to post-only/post-allowed parameters", f"{M} new_order"), ("remaining-quantity handling after matching", f"{M} new_bid, new_ask"), ("match limit", f"{S} process_new_order_v3")],
  ["order books", "events", "outcome"], MODEL, RT)
p("C06", "An account never trades with itself; self-trade choices are honoured",
  "An order never fills against a resting order of its own account. On meeting one it follows its stated choice exactly: abort refuses the whole instruction, cancel-provide removes the resting order and releases its funds, decrement-take reduces both by the common quantity without fee or trade, and no third party's balances change because of it.",
  HIST, H, T7 + "no test makes an account meet its own order.",
  [M, S], [("self-trade branches", f"{M} new_bid, new_ask"), ("funds released for the reduced part", f"{S} process_new_order_v3")],
  ["events", "order books", "balances", "outcome"], MODEL, RT)
p("C07", "Cancelling removes exactly the named order and frees exactly its funds",
  "A cancellation by order id, by client id or by a batch of client ids removes exactly the named resting orders of the caller's account and nothing else, and after its event is processed the caller's free balance has grown by exactly what those orders had locked and their slots are free. Naming an order that is not there (or somebody else's) is refused in the single forms and skipped in the batch form; a batch handles the other ids regardless.",
  HIST, H, T7 + "one test cancels two orders of one account in one order.",
  [S, M], [("lookup by id and client id, batch loop", f"{S} process_cancel_order_v2, process_cancel_order_by_client_id_v2, process_cancel_orders_by_client_ids"), ("removal and release", f"{M} cancel_order_v2, cancel_leaf_node")],
  ["order books", "events", "open-orders records"], MODEL, RT)
p("C08", "Replacing orders equals cancelling them and placing the new ones in turn",
  "Replacing orders by client ids has exactly the effect of cancelling those client ids as a batch and then placing the given orders one after another with the same accounts. If any placement would be refused, the whole replacement is refused and nothing changes.",
  HIST, H, T7 + "one test replaces two orders in one situation.",
  [S], [("cancel batch then loop of placements", f"{S} process_replace_orders_by_client_ids")],
  ["whole market state", "outcome"], "differential property-based testing: replacement against its parts, and against the reference model", RT)
p("C09", "Cranking applies each event once, in order, however it is batched",
  "Processing events consumes them strictly oldest first, at most as many as asked, applies each to its own account exactly once, and stops without loss at the first event whose account was not supplied. Any division of the same pending events into crank calls, with any supplied subsets and surplus accounts, ends in the same state.",
  ["histories", "schedules", "inputs"], "every history, every division of the pending events into crank calls with any subset of accounts", T7 + "none compares two ways of cranking the same queue.",
  [S], [("event loop with account search and stop", f"{S} process_consume_events"), ("queue pop", f"{S} pop_front, peek_front")],
  ["event queue", "open-orders records"], "metamorphic property-based testing: one crank against generated batchings, plus reference model", RT)
p("C10", "Taker fees are charged exactly, split exactly, and swept only once",
  "Each trade charges the taker the tier's rate on its quote amount rounded up and charges the maker nothing; a fifth of the fee (rounded down) is set aside for the taker's referrer and the rest accrues to the protocol. The accrued protocol fees grow by exactly that, a settlement pays a referrer (or returns to the protocol) exactly the account's rebates once, and a sweep pays out exactly the accrued fees and resets them.",
  HIST, H, T7 + "the fee tests check rates in isolation, never accrual, rebates and sweeps over a history.",
  [F, M, S], [("fee rates and rebate share", f"{F} taker_rate, taker_fee, referrer_rebate"), ("accrual at matching", f"{M} new_bid, new_ask"), ("payment", f"{S} process_settle_funds, process_sweep_fees")],
  ["fee events", "market record", "token balances"], MODEL, RT)
p("C11", "The taker's fee tier follows its discount holdings, and only its own",
  "The tier applied to a trade is the one for the best holding shown by the discount account presented: a mega-discount balance, the highest met threshold of the discount token, otherwise the base tier, with the stable tier only in the listed stable markets. A discount account that is not a valid token account of one of the two discount tokens owned by the trading owner is never honoured.",
  ["inputs", "histories", "configurations"], "every balance at, around and between thresholds, both discount tokens and others, any owner, state or delegate of the account, stable and ordinary markets", "The scenario tests present no discount account; the unit tests only compare rates of given tiers.",
  [F, S], [("thresholds", f"{F} from_srm_and_msrm_balances"), ("discount account checks", f"{S} load_fee_tier, with_parsed_args")],
  ["fees charged", "outcome"], "property-based testing of generated discount accounts in trading markets against a tier table", RT)
p("C12", "Settling pays out exactly the free balance, once, to the named wallets",
  "Settling an account transfers exactly its free base and free quote to the two wallets named, pays its accumulated referrer rebates to the named referrer wallet (or to protocol fees when none is named), sets all three to zero, and leaves locked funds, orders and all other accounts untouched. Settling again at once pays nothing.",
  HIST, H, T7 + "two of them settle one account in one state.",
  [S], [("payout and reset", f"{S} process_settle_funds, send_from_vault")],
  ["token balances", "open-orders record", "market record"], MODEL + " (payout read off the token balances)", RT)
p("C13", "Only the owner's signature can act for an account",
  "Placing, replacing and cancelling orders, settling and closing an account all require the signature of the account's own owner, and swaps the signature of the one whose wallets pay; without it, or signed by anybody else, they are refused and change nothing. Sweeping fees and disabling a market require the signature of the fixed fee-sweeping and disabling authorities respectively.",
  HIST, H + "; every otherwise acceptable instruction with its signature missing or given by any other party", "No test presents a wrong or missing signature.",
  [S, I], [("signer parsing", f"{S} account_parser"), ("owner comparison", f"{S} load_orders_mut"), ("fixed authorities", f"{I} fee_sweeper, disable_authority")],
  ["outcome", "state unchanged"], "property-based testing with hostile variants of every accepted instruction of generated histories", RT)
p("C14", "An account of another market, role or program is never accepted in place",
  "An instruction is refused, changing nothing, when any account of the market it names (request queue, event queue, books, vaults, vault authority, open orders) is replaced by another market's counterpart, an account of a different role, a byte-identical copy owned by another program, or somebody else's account. The same holds for wallets of the wrong mint, non-token accounts and a substituted token program.",
  HIST, H + "; every otherwise acceptable instruction with one account substituted", "No test passes a wrong account.",
  [S], [("program ownership and flags", f"{S} Market::load, check_flags, load_orders_mut"), ("address comparisons", f"{S} load_bids_mut, load_asks_mut, load_request_queue_mut, load_event_queue_mut, check_coin_vault, check_pc_vault"), ("token account parsing", f"{S} account_parser")],
  ["outcome", "other market's accounts"], "property-based testing with generated account substitutions on two live markets", RT)
p("C15", "The order book container is an exact bounded ordered map",
  "Under any sequence of insertions, removals and lookups, the container holds exactly the orders of an ideal ordered map: smallest and largest, lookup and removal by key, refusal when its storage is full, and unchanged contents otherwise. Storage freed by removals is always available again, and replacing an existing key keeps one order for it.",
  ["inputs", "histories"], "every operation sequence over colliding and adversarial keys, in storage of every size", "The simulation tests use a fixed seed, large storage and never fill it.",
  [K], [("crit-bit tree and free list", f"{K} insert_leaf, remove_by_key, find_by_key, find_min_max, insert, remove")],
  ["container API"], "model-based property testing of the container against an ordered map", "Drives the public container type directly; lookup by key and by predicate, which are private, are covered through the whole-program histories of other properties. Bounded by the number of generated sequences.")
p("C16", "Capacity limits refuse or evict cleanly and never corrupt",
  "When an account's order slots or the event queue are full, an instruction that needs room is refused and changes nothing; when one side of the book is full, the least aggressive resting order is evicted, with its owner's funds released to it, and the new order takes its place. All other guarantees keep holding at and around every limit.",
  HIST, "every history on markets whose queues, books and accounts are filled to and around their capacity", T7 + "no test fills anything.",
  [S, M, K], [("room checks before and during matching", f"{S} process_new_order_v3, process_send_take, full"), ("eviction", f"{M} new_bid, new_ask"), ("slot allocation", f"{S} add_order")],
  ["outcome", "order books", "event queue", "open-orders records"], MODEL + " on nearly full structures", RT)
p("C17", "Order ids are unique and orders, slots and events always agree",
  "Every order id is issued once and embeds its price and a strictly increasing sequence. Every resting order occupies exactly one slot of its owner's account with the same id, side and client id, every occupied slot belongs to one resting order or one pending removal, and every pending event refers to the slot of its order.",
  HIST, H, T7 + "none cross-checks books, accounts and queue.",
  [S, M], [("id generation", f"{S} gen_order_id, gen_seq_num"), ("slot bookkeeping", f"{S} add_order, remove_order, process_consume_events")],
  ["order books", "open-orders records", "event queue", "request queue header"], MODEL + " with a cross-structure invariant", RT)
p("C18", "Instruction bytes decode to one meaning or are refused",
  "Every byte string either decodes to exactly the documented instruction with the documented field values, or is refused; encoding that instruction gives bytes that decode to it again. Truncated, overlong, wrongly versioned and out-of-range encodings are refused, and no byte string whatever, sent with any accounts, makes the program corrupt a market.",
  ["inputs"], "every byte string and every account list", "The round-trip test covers the in-memory type's own encoding only, not the bytes clients send nor rejections.",
  [I, S], [("instruction decoding and encoding", f"{I} MarketInstruction::unpack, pack, SendTakeInstruction, NewOrderInstructionV3"), ("dispatch", f"{S} State::process")],
  ["decoder API", "outcome"], "structured fuzzing of encodings against an independent decoder; junk instructions against live markets", "The wire format is restated independently from the documentation and published layouts. Panics count as refusal, as on chain.")
p("C19", "Queue records survive unchanged and queues are exact bounded FIFOs",
  "A fill, removal or request record read back from its stored form has exactly the fields it was written with. A ring queue behaves as a bounded first-in first-out queue under every sequence of appends, removals and reverts: nothing lost, duplicated, reordered or overwritten, also when its position wraps around.",
  ["inputs", "histories"], "every record and every operation sequence, on queues of every length and head position", "No test reads a stored record back or wraps a queue.",
  [S], [("record packing", f"{S} Event::new, Event::as_view, Request::new, Request::as_view"), ("ring buffer", f"{S} push_back, pop_front, peek_front, revert_pushes, iter")],
  ["record and queue API", "event queue account"], "round-trip and model-based property testing of records and queues, plus whole-program histories", "Bounded by the number of generated cases.")
p("C20", "Market creation accepts only well-formed, unused, matching accounts",
  "A market is created only from blank, sufficiently large, correctly sized accounts owned by the program, rent-exempt queues, books, vaults and mints, and vaults of the stated mints that belong to the market's derived authority and carry no delegate or close authority; otherwise nothing is created. After creation every recorded parameter equals what was requested and no later instruction changes any of them or creates the market again.",
  ["inputs", "configurations", "histories"], "every creation attempt with any single flaw, every later history", T7 + "one creation with fixed accounts; no flawed attempt.",
  [S], [("creation checks", f"{S} InitializeMarketArgs::new, process_initialize_market, init_account_padding")],
  ["outcome", "market, queue and book accounts"], "property-based testing with generated flaws in creation, plus history model", RT)
p("C21", "A disabled market takes no orders but lets everybody out",
  "Once disabled, a market refuses every order placement, replacement, swap and fee sweep and never becomes enabled again. Cancelling, cranking, settling and closing keep working exactly as before, so that every trader can withdraw everything.",
  HIST, H + ", disabled at any point", "No test disables a market.",
  [S], [("disabled flag checks", f"{S} check_flags, check_enabled, process_disable_market")],
  ["outcome", "market flags", "wallets"], MODEL, RT)
p("C22", "Permissioned markets act only with their own authorities",
  "In a market created with an authority for opening accounts, pruning or cranking, the corresponding action succeeds only with that authority's signature; a missing, unsigned or different authority is refused and nothing changes. A market created without them needs none for opening accounts and cranking, and cannot be pruned at all.",
  HIST, H + "; each authority right, wrong, missing or unsigned", "No dex test creates a permissioned market.",
  [S], [("authority accessors", f"{S} open_orders_authority, prune_authority, consume_events_authority"), ("authority checks", f"{S} load_orders_mut, PruneArgs, ConsumeEventsArgs::with_parsed_args_permissioned")],
  ["outcome"], MODEL + " and hostile authority variants", RT)
p("C23", "Pruning cancels only the targeted account's orders, with its funds intact",
  "A prune, allowed only with the prune authority's signature, removes resting orders of the one named account, at most as many as asked, each with the same effect as its owner cancelling it: the funds return to that owner's free balance. Every other account's orders and balances are untouched, and enough prunes remove all orders of the account.",
  HIST, H, "No dex test prunes.",
  [S, M, K], [("pruning both sides", f"{S} process_prune"), ("removal by owner", f"{M} remove_all"), ("search by owner", f"{K} find_by")],
  ["order books", "events", "open-orders records"], MODEL, RT)
p("C24", "Open-orders accounts open once, stay bound, and close only when empty",
  "An account opens only for a zeroed, rent-exempt, program-owned account of the right size with its owner's signature, starts empty, and stays bound to that owner and market for its life. It closes only with no order slots in use and no balances; its rent goes to the chosen destination, and it can afterwards never be used or reopened in place.",
  HIST, H + ", opening, using, closing and reusing accounts at any point", T7 + "accounts are opened once and never closed.",
  [S], [("opening", f"{S} load_orders_mut, OpenOrders::init"), ("closing", f"{S} process_close_open_orders")],
  ["outcome", "open-orders record", "lamports"], MODEL, RT)
p("C25", "An instant swap is all within its minimums or nothing, and leaves nothing behind",
  "An accepted swap trades at once against the book, pays and delivers directly to the named wallets exactly what was traded plus or minus the fee, gives at least the stated minimums and takes at most the stated maximums. It leaves no resting order and no balance in any account; a swap that cannot meet its minimums is refused and changes nothing.",
  HIST, H, "One test swaps in a handful of fixed situations.",
  [S, M], [("swap", f"{S} process_send_take"), ("matching", f"{M} new_bid, new_ask")],
  ["wallet balances", "order books", "outcome"], MODEL + " (wallet deltas)", RT)
p("C26", "An order is refused once its expiry time has passed",
  "An order carrying an expiry time is refused, changing nothing, when the chain's clock is beyond it, and is otherwise treated exactly as an order without expiry. In a replacement this holds for every one of the new orders.",
  ["inputs", "histories"], "every expiry time and clock value, including extremes and equality, in every market state", "One test uses one expiry before and after.",
  [S], [("clock comparison", f"{S} process_new_order_v3, process_replace_orders_by_client_ids")],
  ["outcome", "state"], MODEL, RT)
p("C27", "What one party does never touches a bystander",
  "An instruction changes nothing of an account that is neither its actor, nor matched, evicted, pruned or cranked by it: no balance, slot, rebate, wallet or resting order. Nothing one market does changes any account of another market.",
  HIST, H + ", on one of two live markets", T7 + "none looks at accounts other than the actor's.",
  [S, M], [("effects confined to supplied, verified accounts", f"{S} State::process"), ("owner and slot carried by each event", f"{S} process_consume_events")],
  ["all accounts"], MODEL + " with whole-world comparison", RT)
p("C28", "The published client builders produce what the program executes",
  "Every published instruction builder yields, for any arguments, exactly the documented data and account list, in order and with the right signer and writable marks, and executing it has exactly the effect its arguments say. Creating a market through the builders gives a market with the parameters asked for.",
  ["inputs", "histories"], "every builder with every argument combination in every market state", "Tests build account lists by hand; the builders are never executed.",
  [I], [("instruction builders", f"{I} new_order, send_take, cancel_order, settle_funds, consume_events, prune, close_open_orders, initialize_market ...")],
  ["instruction bytes and account list", "effect when executed"], "differential property-based testing: builders against documented encodings, executed on live markets", RT)

exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough", evidence_file=f"evidence/{x['id']}.json", technique=x["_t"], level="exploration", level_note=x["_n"]) for x in P], not_applicable=[], notes="Property-based testing and fuzzing throughout; see DESIGN.md. No hooks in /repo are needed.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
