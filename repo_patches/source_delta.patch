From c37da4abde84c7e62a52a0b2b53c1939cca77c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:45 +0000
Subject: [PATCH 1/3] fix: crank: consume the oldest events even when many
 accounts are pending

consume_events_instruction sorted the pending accounts before truncating them,
so that with more than 32 of them the account of the oldest event could be left
out and nothing was consumed, on this and every later attempt. 32 accounts also
do not fit in a transaction.
---
 dex/crank/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..54c1b37 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -56,6 +56,9 @@ use serum_dex::state::Request;
 use serum_dex::state::RequestQueueHeader;
 use serum_dex::state::{AccountFlag, Market, MarketState, MarketStateV2};
 
+/// The most open orders accounts a `ConsumeEvents` transaction has room for.
+const MAX_ORDERS_ACCOUNTS: usize = 26;
+
 pub fn with_logging<F: FnOnce()>(_to: &str, fnc: F) {
     fnc();
 }
@@ -794,11 +797,16 @@ pub fn consume_events_instruction(
         info!("Total event queue length: {}", seg0.len() + seg1.len());
     }
     let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
-    let mut orders_accounts: Vec<_> = accounts.collect();
-    orders_accounts.sort_unstable();
-    orders_accounts.dedup();
-    // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(32);
+    // Events are consumed oldest first, up to the first one whose account is missing: pass the
+    // accounts of the oldest events, as many as fit, in the order the program searches them.
+    let mut used_accounts = BTreeSet::new();
+    for account in accounts {
+        used_accounts.insert(account);
+        if used_accounts.len() >= MAX_ORDERS_ACCOUNTS {
+            break;
+        }
+    }
+    let orders_accounts: Vec<_> = used_accounts.into_iter().collect();
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From f82b239195d73dc30d63f851b8da5c118ff557c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:45 +0000
Subject: [PATCH 2/3] fix: crank: default to a number of accounts that fits in
 a transaction

With 27 or more accounts pending, every transaction of the consume-events loop
exceeded the packet size and the queue was never drained.
---
 dex/crank/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 54c1b37..a111a06 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -288,7 +288,7 @@ pub fn start(opts: Opts) -> Result<()> {
                 &pc_wallet,
                 num_workers,
                 events_per_worker,
-                num_accounts.unwrap_or(32),
+                num_accounts.unwrap_or(MAX_ORDERS_ACCOUNTS),
                 max_q_length.unwrap_or(1),
                 max_wait_for_events_delay.unwrap_or(60),
             )?;
-- 
2.43.0


From dc8dacd2000ec6d2897e46a292acdbeacb1938b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:29 +0000
Subject: [PATCH 3/3] fix: crank: let the queue monitor open its port

The monitor's runtime was built without its I/O driver, so that monitor-queue
panicked as soon as it bound its port.
---
 dex/crank/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index a111a06..5e69107 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -301,6 +301,7 @@ pub fn start(opts: Opts) -> Result<()> {
             let client = opts.client();
             let mut runtime = tokio::runtime::Builder::new()
                 .basic_scheduler()
+                .enable_all()
                 .build()
                 .unwrap();
             runtime
-- 
2.43.0

