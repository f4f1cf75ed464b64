From 5098df2057f75961cbf2ebabcf97202dfcbde364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 1/5] fix: keep native deposits in the log filter

The token topic of eth_getLogs listed only the registered ERC-20 contracts.
With at least one token registered, native deposits (token = zero address)
were filtered out and never credited; with none registered the empty list
matched deposits of unsupported tokens, whose recording traps and stops the
scraping of every later block.
---
 minter/src/deposit_logs/scraping.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..9696de7 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -36,9 +36,11 @@ impl LogScraping for ReceivedDepositLogScraping {
         ))];
         // We add token contract addresses as additional topics to match.
         // It has a disjunction semantics, so it will match if event matches any one of these addresses.
+        // Native deposits carry the zero address as token, which has to be always part of the filter:
+        // an empty list would match any token and a list of ERC-20 addresses alone no native deposit.
         topics.push(
-            token_contract_addresses
-                .iter()
+            std::iter::once(&Address::ZERO)
+                .chain(token_contract_addresses.iter())
                 .map(|address| FixedSizeData(address.into()))
                 .collect::<Vec<_>>()
                 .into(),
-- 
2.43.0


From c569d2390a8d6f03099926afc94bc36adab63d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 2/5] fix: a deposit below the deposit fee must not stop
 minting

Subtracting the fee from a smaller amount panicked, so the deposit stayed in
the queue and every later run of the minting task trapped at it again; when the
panic came in a callback, the record of the preceding mint was rolled back.
---
 minter/src/deposit.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..82ba418 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -78,6 +78,20 @@ async fn mint() {
             ledger_canister_id,
         };
 
+        // A native deposit that does not cover the deposit fee can never be minted:
+        // dropping the guard quarantines it, so that it does not hold up the other deposits.
+        if is_native_deposit
+            && deposit_native_fee
+                .as_ref()
+                .is_some_and(|fee| event.value() < *fee)
+        {
+            log!(
+                INFO,
+                "Deposit does not cover the deposit fee and is quarantined: {event:?}"
+            );
+            continue;
+        }
+
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-- 
2.43.0


From 74828b30d1ffc4813672168d2669f9334f7ebc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 3/5] fix: refund the withdrawal fee from the fee account
 itself

The refund was sent as the minter's default account spending from its fees
subaccount, which never approved it, so the ledger refused every refund.
---
 minter/src/ledger_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minter/src/ledger_client.rs b/minter/src/ledger_client.rs
index ea84c52..d443a13 100644
--- a/minter/src/ledger_client.rs
+++ b/minter/src/ledger_client.rs
@@ -297,7 +297,9 @@ impl LedgerClient {
         match self
             .client
             .transfer_from(TransferFromArgs {
-                spender_subaccount: None,
+                // The spender has to be the account that holds the fees itself:
+                // it never approved any other spender.
+                spender_subaccount: Some(FEES_SUBACCOUNT),
                 from: Account {
                     owner: ic_cdk::id(),
                     subaccount: Some(FEES_SUBACCOUNT),
-- 
2.43.0


From 161cb87a531c91228f78d6e576594b5a0659c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:27 +0000
Subject: [PATCH 4/5] fix: refuse native withdrawals that cannot pay the
 withdrawal fee

An amount below the withdrawal fee, or leaving less than the ledger accepts
to burn, trapped after the fee had already been taken from the caller.
---
 minter/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..2eca6bb 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -300,7 +300,14 @@ async fn withdraw_native_token(
 
     let mut amount = Wei::try_from(amount).expect("failed to convert Nat to u256");
 
-    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
+    // What is left after the withdrawal fee has to be burned, which the ledger
+    // only accepts for a positive amount of at least its transfer fee.
+    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount).max(
+        withdrawal_native_fee
+            .unwrap_or(Wei::ZERO)
+            .checked_add(native_transfer_fee.max(Wei::ONE))
+            .unwrap_or(Wei::MAX),
+    );
     if amount < minimum_withdrawal_amount {
         return Err(WithdrawalError::AmountTooLow {
             min_withdrawal_amount: minimum_withdrawal_amount.into(),
-- 
2.43.0


From 8095823cf2ab926a53276a69e237b4b4f9ce1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:58 +0000
Subject: [PATCH 5/5] fix: one provider alone must not make the minter skip a
 block

A single block whose logs one provider refused for their size was skipped for good, whatever the other
provider said. Where a network has two providers, either of them could so make a deposit be lost.
---
 minter/src/deposit.rs        |  5 +++++
 minter/src/rpc_client/mod.rs | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index 82ba418..d5716bf 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -422,6 +422,11 @@ async fn scrape_block_range(
                 log!(INFO, "Failed to get logs in range {range}: {e:?}");
                 if e.has_http_outcall_error_matching(is_response_too_large) {
                     if from_block == to_block {
+                        // A skipped block is never read again, which no provider may bring about on its own.
+                        if !e.has_http_outcall_error_of_at_least_two_matching(is_response_too_large)
+                        {
+                            return Err(e);
+                        }
                         mutate_state(|s| {
                             process_event(
                                 s,
diff --git a/minter/src/rpc_client/mod.rs b/minter/src/rpc_client/mod.rs
index d9b763f..bdb5e42 100644
--- a/minter/src/rpc_client/mod.rs
+++ b/minter/src/rpc_client/mod.rs
@@ -329,6 +329,26 @@ impl<T: Clone> MultiCallError<T> {
         }
     }
 
+    /// Same as `has_http_outcall_error_matching`, except that the word of a single provider does not suffice
+    /// if the providers disagree.
+    pub fn has_http_outcall_error_of_at_least_two_matching<P: Fn(&HttpOutcallError) -> bool>(
+        &self,
+        predicate: P,
+    ) -> bool {
+        match self {
+            MultiCallError::InconsistentResults(results) => {
+                results
+                    .iter()
+                    .filter(|(_rpcservice, rpc_result)| {
+                        matches!(rpc_result, Err(SingleCallError::HttpOutcallError(error)) if predicate(error))
+                    })
+                    .count()
+                    >= 2
+            }
+            _ => self.has_http_outcall_error_matching(predicate),
+        }
+    }
+
     // If at there is at least one ok responses
     // Used for send_raw_transaction since nonce is only valid once
     fn at_least_one_ok(self) -> Result<(EvmRpcService, T), MultiCallError<T>> {
-- 
2.43.0

