From fad21309d2fc7acc048f5eab1605ff9432d3bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:18 +0000
Subject: [PATCH 01/10] fix: require the market account itself to be rent
 exempt at creation

InitializeMarket checks that every account it takes (queues, books, vaults,
mints) is rent exempt but started the loop at index 1, so the market account
itself was skipped.  A market below the exemption threshold could be reaped
by rent collection and leave its vaults without an owner.
---
 dex/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index d42f800..942ed20 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -1636,7 +1636,7 @@ pub(crate) mod account_parser {
                 let rent = Rent::get()?;
 
                 let end_idx = accounts.len() - remaining_accounts.len() - 1;
-                for account in &accounts[1..end_idx] {
+                for account in &accounts[..end_idx] {
                     let data_len = account.data_len();
                     let lamports = account.lamports();
                     check_assert!(rent.is_exempt(lamports, data_len))?;
-- 
2.43.0


From 11ae8d51c743c0e7a5228efa9a88f04d0faed24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 02/10] fix: read the request queue as requests in the crank,
 not as events

---
 dex/crank/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..9af7239 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -564,7 +564,7 @@ fn consume_events_loop(
         let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data)?;
         let (_header, seg0, seg1) = parse_event_queue(&inner)?;
         let req_inner: Cow<[u64]> = remove_dex_account_padding(&req_q_data)?;
-        let (_req_header, req_seg0, req_seg1) = parse_event_queue(&req_inner)?;
+        let (_req_header, req_seg0, req_seg1) = parse_req_queue(&req_inner)?;
         let event_q_len = seg0.len() + seg1.len();
         let req_q_len = req_seg0.len() + req_seg1.len();
         info!(
-- 
2.43.0


From 44b82b6941fa10c2fb41fa46f848bed8e5c1c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 03/10] fix: keep consume events transactions within the packet
 size

---
 dex/crank/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 9af7239..4d9fd82 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -56,6 +56,10 @@ use serum_dex::state::Request;
 use serum_dex::state::RequestQueueHeader;
 use serum_dex::state::{AccountFlag, Market, MarketState, MarketStateV2};
 
+/// A consume events transaction naming more open orders accounts than this does
+/// not fit into a packet.
+const MAX_ORDERS_ACCOUNTS: usize = 26;
+
 pub fn with_logging<F: FnOnce()>(_to: &str, fnc: F) {
     fnc();
 }
@@ -595,7 +599,7 @@ fn consume_events_loop(
             let mut used_accounts = BTreeSet::new();
             for account in accounts {
                 used_accounts.insert(account);
-                if used_accounts.len() >= num_accounts {
+                if used_accounts.len() >= min(num_accounts, MAX_ORDERS_ACCOUNTS) {
                     break;
                 }
             }
@@ -798,7 +802,7 @@ pub fn consume_events_instruction(
     orders_accounts.sort_unstable();
     orders_accounts.dedup();
     // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(32);
+    orders_accounts.truncate(MAX_ORDERS_ACCOUNTS);
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From 0a467b9892062cd735e4db996d911b75df65dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 04/10] fix: name the accounts of the oldest events when
 consuming events once

---
 dex/crank/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 4d9fd82..8bfb5f9 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -798,11 +798,15 @@ pub fn consume_events_instruction(
         info!("Total event queue length: {}", seg0.len() + seg1.len());
     }
     let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
-    let mut orders_accounts: Vec<_> = accounts.collect();
-    orders_accounts.sort_unstable();
-    orders_accounts.dedup();
-    // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(MAX_ORDERS_ACCOUNTS);
+    let mut used_accounts = BTreeSet::new();
+    // events are consumed in order, so the accounts of the oldest ones are needed first
+    for account in accounts {
+        used_accounts.insert(account);
+        if used_accounts.len() >= MAX_ORDERS_ACCOUNTS {
+            break;
+        }
+    }
+    let orders_accounts: Vec<_> = used_accounts.into_iter().collect();
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From 2dbac8feef7ca02266033a64ee9a6edd6f6fcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:32 +0000
Subject: [PATCH 05/10] fix: report an account too short for its padding
 instead of panicking

---
 dex/crank/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 8bfb5f9..4775922 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -397,13 +397,13 @@ pub struct MarketPubkeys {
 #[cfg(target_endian = "little")]
 fn remove_dex_account_padding<'a>(data: &'a [u8]) -> Result<Cow<'a, [u64]>> {
     use serum_dex::state::{ACCOUNT_HEAD_PADDING, ACCOUNT_TAIL_PADDING};
-    let head = &data[..ACCOUNT_HEAD_PADDING.len()];
     if data.len() < ACCOUNT_HEAD_PADDING.len() + ACCOUNT_TAIL_PADDING.len() {
         return Err(format_err!(
             "dex account length {} is too small to contain valid padding",
             data.len()
         ));
     }
+    let head = &data[..ACCOUNT_HEAD_PADDING.len()];
     if head != ACCOUNT_HEAD_PADDING {
         return Err(format_err!("dex account head padding mismatch"));
     }
-- 
2.43.0


From a3b48a31372b85573f19c259a9b16401bfa3564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:30 +0000
Subject: [PATCH 06/10] fix: give the queue monitor's runtime the I/O driver
 its server needs

---
 dex/crank/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 4775922..92ecef9 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -302,6 +302,7 @@ pub fn start(opts: Opts) -> Result<()> {
             let client = opts.client();
             let mut runtime = tokio::runtime::Builder::new()
                 .basic_scheduler()
+                .enable_all()
                 .build()
                 .unwrap();
             runtime
-- 
2.43.0


From 74127a7bd54be883f26fc669810b312ac4a7b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:10 +0000
Subject: [PATCH 07/10] fix: report an account that is not the market it names
 instead of panicking

---
 dex/crank/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 92ecef9..fe6c4b5 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -448,10 +448,9 @@ fn get_keys_for_market<'a>(
     };
     let vault_signer_key =
         gen_vault_signer_key(market_state.vault_signer_nonce, market, program_id)?;
-    assert_eq!(
-        transmute_to_bytes(&identity(market_state.own_address)),
-        market.as_ref()
-    );
+    if transmute_to_bytes(&identity(market_state.own_address)) != market.as_ref() {
+        return Err(format_err!("account {} is not the market it names", market));
+    }
     Ok(MarketPubkeys {
         market: Box::new(*market),
         req_q: Box::new(Pubkey::new(transmute_one_to_bytes(&identity(
-- 
2.43.0


From 980ce0c53290f1fb65b56a100217e1df17dfe180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:11 +0000
Subject: [PATCH 08/10] fix: make the create-account command create the account
 instead of panicking

---
 dex/crank/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index fe6c4b5..60317fd 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -244,7 +244,14 @@ pub fn start(opts: Opts) -> Result<()> {
                 }
             };
         }
-        Command::CreateAccount { .. } => unimplemented!(),
+        Command::CreateAccount {
+            ref mint_pubkey,
+            ref owner_pubkey,
+            ref payer,
+        } => {
+            let payer = read_keypair_file(payer)?;
+            create_account(&client, mint_pubkey, owner_pubkey, &payer)?;
+        }
         Command::MatchOrders {
             ref dex_program_id,
             ref payer,
-- 
2.43.0


From 7f512cd08e1d45f8614de839439f204d57f9383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:22 +0000
Subject: [PATCH 09/10] fix: answer a failed queue length query with an error
 instead of panicking

---
 dex/crank/src/lib.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 60317fd..1d897f7 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -1593,19 +1593,30 @@ async fn read_queue_length_loop(
 ) -> Result<()> {
     let client = Arc::new(client);
     let get_data = warp::path("length").map(move || {
-        let client = client.clone();
-        let market_keys = get_keys_for_market(&client, &program_id, &market).unwrap();
-        let event_q_data = client
-            .get_account_with_commitment(&market_keys.event_q, CommitmentConfig::recent())
-            .unwrap()
-            .value
-            .expect("Failed to retrieve account")
-            .data;
-        let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data).unwrap();
-        let (_header, seg0, seg1) = parse_event_queue(&inner).unwrap();
-        let len = seg0.len() + seg1.len();
-        format!("{{ \"length\": {}  }}", len)
+        let (body, status) = match read_queue_length(&client, &program_id, &market) {
+            Ok(len) => (
+                format!("{{ \"length\": {}  }}", len),
+                warp::http::StatusCode::OK,
+            ),
+            Err(err) => (
+                err.to_string(),
+                warp::http::StatusCode::INTERNAL_SERVER_ERROR,
+            ),
+        };
+        warp::reply::with_status(body, status)
     });
 
     Ok(warp::serve(get_data).run(([127, 0, 0, 1], port)).await)
 }
+
+fn read_queue_length(client: &RpcClient, program_id: &Pubkey, market: &Pubkey) -> Result<usize> {
+    let market_keys = get_keys_for_market(client, program_id, market)?;
+    let event_q_data = client
+        .get_account_with_commitment(&market_keys.event_q, CommitmentConfig::recent())?
+        .value
+        .ok_or(format_err!("Failed to retrieve account"))?
+        .data;
+    let inner: Cow<[u64]> = remove_dex_account_padding(&event_q_data)?;
+    let (_header, seg0, seg1) = parse_event_queue(&inner)?;
+    Ok(seg0.len() + seg1.len())
+}
-- 
2.43.0


From 0e06460b36e224f947445a106550702e87ddd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:04 +0000
Subject: [PATCH 10/10] fix: refuse to read as a market an account the exchange
 does not own

---
 dex/crank/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 1d897f7..bd8b0cd 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -437,7 +437,11 @@ fn get_keys_for_market<'a>(
     program_id: &'a Pubkey,
     market: &'a Pubkey,
 ) -> Result<MarketPubkeys> {
-    let account_data: Vec<u8> = client.get_account_data(&market)?;
+    let account = client.get_account(&market)?;
+    if account.owner != *program_id {
+        return Err(format_err!("account {} is not a market of {}", market, program_id));
+    }
+    let account_data: Vec<u8> = account.data;
     let words: Cow<[u64]> = remove_dex_account_padding(&account_data)?;
     let market_state: MarketState = {
         let account_flags = Market::account_flags(&account_data)?;
-- 
2.43.0

