PL, PC, PX, AD = "pool/src/pool.rs", "pool/src/context.rs", "pool/src/lib.rs", "pool/examples/admin-controlled/src/lib.rs"
MW, PX2, AO = "dex/permissioned/src/middleware.rs", "dex/permissioned/src/proxy.rs", "assert-owner/src/lib.rs"
POOLRT = "The pool programs run natively in an in-process runtime (svm/) that reproduces ownership, privileges, CPI and atomicity; SPL token runs for real. Bounded by the number and length of generated cases."
PH = ["histories", "inputs", "configurations"]
T8 = "The pool crates have almost no tests and none that runs a pool: "
p("C30", "Pool fees follow the pool's rate exactly and go to the right wallets",
  "Creating or redeeming pool tokens costs, in pool tokens, the pool's rate on the size requested, rounded up: two fifths of that rounded down (but at least a ten-thousandth of the size, rounded up) to the protocol's fee wallet, half of the protocol's part rounded down (as far as anything is left) to the referrer wallet named, and the rest to the initializer's fee wallet. A request whose own pool-token wallet is the protocol's fee wallet pays nothing, one whose wallet is the initializer's or the named referrer's skips exactly that part, and nobody else is exempt.",
  PH, "every history of creations and redemptions with any sizes, rates, supplies, wallets and referrers", T8 + "the fee arithmetic is untested.",
  [PL, PC], [("fee computation and split", f"{PC} get_fees, Fees"), ("charging", f"{PL} process_creation, process_redemption")],
  ["token balances"], "model-based property testing of pool histories against an exact-arithmetic fee model", POOLRT)
p("C31", "A pool share always redeems for its proportional basket, rounded for the pool",
  "Creating takes from the requester, for every asset, the vault's balance times the size over the supply rounded up, and adds exactly the size to the supply; redeeming burns the size less its fees and returns that part of every vault rounded down; so the assets behind each pool token never decrease through either. A quote states exactly that proportional basket for the size asked (before fees) and moves nothing, and a request that cannot be met in full is refused and changes nothing.",
  PH, "every history of creations, redemptions, quotes and donations with any asset counts, vault balances and supplies", T8 + "the basket arithmetic is untested.",
  [PC, PL], [("basket arithmetic", f"{PC} get_simple_basket"), ("transfers, mint and burn", f"{PC} transfer_basket_from_user, transfer_basket_to_user, mint_tokens, burn_tokens_and_collect_fees"), ("quotes", f"{PL} get_basket handling")],
  ["token balances", "mint supply", "quoted basket"], "model-based property testing of pool histories: exact-arithmetic model and a share-value invariant", POOLRT)
p("C32", "A pool never accepts another pool's, role's or program's account",
  "A pool request is refused, changing nothing, when any of its accounts (pool record, pool mint, vaults, vault authority, requester wallets, fee wallets, token program) is replaced by another pool's, by one in another role, by a copy owned by another program, or by somebody else's without their signature. A vault or wallet of the wrong mint or a missing signature is refused likewise.",
  ["inputs", "configurations", "histories"], "every otherwise acceptable request with one account or account state substituted, on two live pools of both kinds", T8 + "no account check is tested.",
  [PC], [("account checks", f"{PC} PoolContext::new, check_rent_sysvar, fee account checks")],
  ["outcome", "accounts of the other pool"], "property-based testing with generated account substitutions", POOLRT)
p("C33", "A pool is created only from matching, controlled accounts and only once",
  "A pool is created only from a blank, large enough account owned by the program, a mint and asset vaults controlled by the pool's derived authority, fee wallets of the pool mint (the protocol's owned by the fixed fee owner, with no delegate and no foreign close authority), all rent-exempt, and a fee rate within its bounds; any other attempt is refused and creates nothing. Afterwards the pool's record states exactly what was asked for, and the pool can never be created again in place.",
  ["inputs", "configurations"], "every creation attempt with any one flaw, for pools of one to five assets", T8 + "creation is untested.",
  [PL, PC], [("creation checks and record", f"{PL} initialize handling; {PC} PoolContext checks")],
  ["outcome", "pool record"], "property-based testing with generated flaws in creation", POOLRT)
p("C34", "An admin-controlled pool obeys only its admin, and a paused one serves nobody",
  "Pausing, unpausing, granting a spender on a vault, adding or removing an asset, changing the fee rate within its bounds and handing over the admin role succeed exactly when the current admin signs and the documented conditions hold, and change exactly that. While paused, creations, redemptions and quotes are refused; granting a spender always pauses the pool, and it unpauses only when no vault has a spender left.",
  PH, "every history of admin and user requests from any party, with any account substitutions, spenders' withdrawals and donations in between", T8 + "the example program has no tests.",
  [AD], [("admin requests", f"{AD} AdminRequest handling"), ("pause check", f"{AD} get_creation_basket, get_redemption_basket")],
  ["outcome", "pool record", "vault delegates", "token balances"], "model-based property testing of admin histories against a reference model of the pool record", POOLRT)
p("C35", "Through the proxy, only a user's own signature moves that user's account",
  "A proxied request to open, trade with, cancel on, settle or close an account succeeds only if the user named in it signed it and the account is the proxy's derived address for that market and user; otherwise it is refused and nothing changes. A request aimed at any program other than the exchange, lacking accounts, or with any account replaced by another user's, market's or role's is refused.",
  ["histories", "inputs", "configurations"], "every proxied request of any history with accounts replaced, reordered, dropped, signatures withheld or data altered, under several middleware chains", "The proxy crate has no tests that run offline.",
  [MW, PX2], [("user signature checks and derived signer", f"{MW} OpenOrdersPda"), ("target program and account counts", f"{PX2} MarketProxy::run")],
  ["outcome", "all accounts"], "property-based testing with generated alterations against a reference interpreter that executes the exchange directly", RT)
p("C36", "A proxied request does exactly what the direct one would, and leaves no approval",
  "An acceptable proxied request has exactly the effect on every account of the same request made directly to the exchange by the account's own derived address. The spending approval it needs never exceeds what the order may cost and is gone afterwards; opening an account charges the user exactly the missing rent.",
  ["histories", "inputs", "configurations"], "every history of proxied requests by several users on two permissioned markets, any orders and lot sizes, prefunded addresses and pre-existing approvals", "The proxy crate has no tests that run offline.",
  [MW, PX2], [("account and signer substitution, approve and revoke", f"{MW} OpenOrdersPda"), ("relay", f"{PX2} MarketProxy::run")],
  ["all accounts", "token approvals"], "differential property-based testing: proxied against direct requests over histories", RT)
p("C38", "Middleware stages run in order, see and shape the request, and can veto it",
  "Every stage of a proxy sees the raw data and then the decoded request in chain order, with what earlier stages stripped and changed; what they leave is what the exchange executes. Instructions and callbacks a stage asks for run before or after the exchange's part as asked, in order; any stage's or instruction's failure undoes everything, a settlement whose referrer wallet is not the configured referrer's is refused by the referral stage, and requests the proxy does not carry reach the stages' fallback but never the exchange.",
  ["histories", "inputs", "configurations"], "every chain of library and recording stages with any vetoes, changes, payments and callbacks, every request kind, any history", "The proxy crate has no tests that run offline.",
  [PX2, MW], [("chain, dispatch, pre and post instructions, callbacks", f"{PX2} MarketProxy::run"), ("referral enforcement", f"{MW} ReferralFees")],
  ["calls received by recording stages", "all accounts", "order of calls"], "model-based property testing with recording middleware against a reference interpreter", RT)
p("C37", "The owner guard passes exactly when the account has the stated owner",
  "The guard program succeeds exactly when at least one account is given and the data is exactly the 32 bytes of the first account's owner; in every other case it fails. It never changes an account.",
  ["inputs"], "every account list and every data string, entered through the deployed entry point", "The guard has no tests.",
  [AO], [("comparison", f"{AO} entry")],
  ["outcome", "accounts unchanged"], "property-based testing of the deployed entry point against the one-line specification", "Bounded by the number of generated cases.")
CK, CR = "dex/crank/src/lib.rs", "common/src/client/rpc.rs"
NODE = "The clients run against a one-node cluster reproduced in process (and over loopback for the command-line loop and monitor): packet size limit, signature checks, duplicate dropping, atomic execution of the real exchange and SPL token. Confirmation is immediate; forks are not modelled, and of calls that only send events for processing, without waiting for the outcome, no transaction is lost outside the keeper's own loop. Bounded by the number and size of generated cases."
p("C29", "The event keeper always makes progress and drains every pending event",
  "From every market state with pending events, whatever the queue's position and however many accounts are involved, each pass of the event keeper gets at least the oldest pending event processed, and repeated passes process all of them exactly once, in order, and change nothing else, even after transactions of its were lost and while new events arrive. With nothing pending it processes nothing, and the queue monitor reports exactly the number of events pending.",
  ["histories", "inputs", "configurations"], "every queue content and position, number of accounts involved, batch size and accounts-per-transaction setting a transaction can carry, every pattern of lost transactions and of events arriving meanwhile", "The command-line tool has no test that runs offline, and none with many accounts.",
  [CK], [("choice of events and accounts for a pass", f"{CK} consume_events_once, consume_events_wrapper, consume_events_instruction"), ("loop", f"{CK} consume_events_loop"), ("queue parsing and monitor", f"{CK} parse_event_queue, monitor_queue")],
  ["transactions sent", "event queue", "trader accounts", "monitor's reply"], "property-based testing of generated queue states against a reference model of the queue, through the real client and command-line tool", NODE)
p("C39", "Client calls do exactly what their arguments state, or report failure",
  "Every published client call and one-shot command (listing a market, opening and closing accounts, placing and cancelling orders, processing events, settling, creating mints and token accounts, minting and transferring) has exactly the effect its arguments state, with every account it creates rent-exempt, of the right size and owner; otherwise, also when a transaction of it got lost, it reports an error. A listed market has exactly the mints and lot sizes requested, the addresses returned are the market's, and it can be traded in and left with all funds.",
  ["histories", "inputs", "configurations"], "every history of client calls with any arguments, including calls that must fail or lose a transaction, on markets listed by the client itself", "The client's only end-to-end test needs a live cluster.",
  [CK, CR], [("listing and accounts", f"{CK} list_market, gen_listing_params, init_open_orders"), ("trading calls", f"{CK} place_order, settle_funds, close_open_orders"), ("account and token creation", f"{CR} create_account_rent_exempt, create_token_account, new_mint, mint_to_new_account, transfer, send_txn")],
  ["returned value", "all accounts", "transactions sent"], "model-based property testing of client-call histories against a reference execution of the stated requests", NODE)
SC = "pool/schema/src/schema.rs"
p("C40", "Pool records, requests and baskets have one fixed byte form, read back exactly",
  "Every pool record, request and quoted basket is written in exactly one published byte form and reads back as itself, whatever its names, lists, options and numbers. Bytes that are not such a form (wrong leading tag, cut short, overlong request, unknown kind, invalid flag or text) are refused rather than read as something else, and the published schema alone suffices to read every form to its end.",
  ["inputs"], "every record, request and basket, and every alteration of their bytes", "The schema crate has no tests.",
  [SC], [("record, request, action and basket layout", f"{SC} PoolState, PoolRequest, PoolRequestInner, PoolAction, Basket"), ("tags and addresses", f"{SC} declare_tag, Address")],
  ["bytes written", "value read or refusal", "published schema"], "property-based round-trip and differential testing against an independent encoder, decoder and schema-driven reader", "Bounded by the number of generated values and alterations (lists up to six entries).")
p("C41", "A pool's own rules get every request exactly once and decide what moves",
  "On a pool with rules of its own, each well-formed request reaches exactly the rule for it, once, with the size asked (for redemptions: less fees), the pool's current record, the request's accounts, the extra accounts its record lists, in order, and whatever further accounts were passed; data without the pool's tag reaches only the rule for other data, and damaged requests reach none. What a rule names is exactly what is moved or quoted (negative amounts are never moved), its refusal or any failure undoes everything, and record changes a rule makes are stored in full after it executed or created the pool, never after a quote; a creation rule that sets an out-of-range fee is refused.",
  PH, "every history of requests on pools whose rules return any baskets, edit any part of the record, demand any extra accounts or refuse", T8 + "the rule interface is exercised nowhere.",
  [PX, PL, PC], [("dispatch and saving", f"{PX} pool_entrypoint, PoolProcessor"), ("default rules", f"{PL} Pool"), ("accounts and transfers", f"{PC} PoolContext")],
  ["calls received by recording rules", "pool record", "token balances", "quoted basket"], "model-based property testing with recording, scripted pool rules against a reference model", POOLRT)
CP, CC = "common/src/program.rs", "common/src/client/mod.rs"
p("C42", "Shared token helpers do exactly the stated move, with the authority's consent",
  "Each of the shared transfer, mint and burn helpers succeeds exactly when the same token instruction made directly by the stated authority would, that authority having signed or being derived from the given seeds; it then leaves every account exactly as that instruction does. Otherwise it reports failure and nothing changes.",
  ["inputs", "histories", "configurations"], "every kind, amount, pair of accounts, authority, signature, seeds, delegation and freeze, in sequence", "The helpers have no tests.",
  [CP], [("helpers", f"{CP} invoke_token_transfer, invoke_mint_tokens, invoke_burn_tokens")],
  ["outcome", "all accounts"], "differential property-based testing against the token program called directly", "The helpers run natively in an in-process runtime (svm/) with the real SPL token processor. Bounded by the number and length of generated histories.")
p("C43", "A cluster name selects exactly that cluster, and anything else is refused",
  "Every cluster name or its one-letter form, in any letter case, selects exactly that cluster and its fixed address; any text containing an http address is used unchanged; every other text is refused. A chosen cluster is shown as text that selects the same cluster again.",
  ["inputs"], "every text", "Tests cover one spelling of each name.",
  [CC], [("names and addresses", f"{CC} Cluster")],
  ["chosen cluster", "address", "displayed text"], "property-based testing against a table of the published names, with near-misses", "Bounded by the number of generated texts.")
ER, ST = "dex/src/error.rs", "dex/src/state.rs"
p("C44", "A refusal names its true cause by that cause's published number",
  "A trading request that is acceptable but for one thing - market disabled, deadline passed, too little money, self-trade aborted, swap minimum not met, order or client id unknown, order or trading account somebody else's, no free order slot, event queue full, account not empty, not rent exempt or not opened, market authority missing at opening, wrong queue, wrong vault in an order or swap, or wrong wallet mint in a swap - is refused with that cause's published number and no other. The numbers never change, and a refusal for a malformed request never borrows one of them.",
  ["inputs", "histories", "configurations"], "every request with a single flaw, in every state a history of trading reaches", "Tests look at a few refusals and mostly only at the fact of refusal.",
  [ER, ST], [("numbers", f"{ER} DexErrorCode, From<DexError> for ProgramError"), ("sources", f"{ST} account_parser, process_*, load_orders_mut; dex/src/matching.rs")],
  ["error number of the refused instruction"], "model-based property-based testing with single-flaw requests: the model confirms that putting the one flaw right makes the request acceptable", "Only refusals with exactly one cause are judged, so the order of validation is free. Bounded by the number and length of generated histories.")
