From fe3479687cb4d94e3d63c01480f6ef0c100d5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 1/6] fix: treat an allowance as expired from its expiry time
 on

An approval whose expires_at equals the ledger time was still reported and
usable, while icrc103_get_allowances, the expiry check on new approvals and
pruning already consider it expired.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From 01f90518983a69284825f13931661d2c44b61c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 2/6] fix: report BadFee before InsufficientFunds for amounts
 beyond 128 bits too

---
 cycles-ledger/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cycles-ledger/src/main.rs b/cycles-ledger/src/main.rs
index 004b4b9..04cf5c1 100644
--- a/cycles-ledger/src/main.rs
+++ b/cycles-ledger/src/main.rs
@@ -217,6 +217,12 @@ fn execute_transfer(
     created_at_time: Option<u64>,
 ) -> Result<Nat, TransferFromError> {
     let Some(amount) = amount.0.to_u128() else {
+        // A wrong fee is reported before insufficient funds.
+        if fee.is_some_and(|fee| fee != Nat::from(config::FEE)) {
+            return Err(TransferFromError::BadFee {
+                expected_fee: Nat::from(config::FEE),
+            });
+        }
         return Err(TransferFromError::InsufficientFunds {
             balance: Nat::from(storage::balance_of(&from)),
         });
-- 
2.43.0


From 160fa131a9465406e160b1441ebc6c51726a7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 3/6] fix: avoid overflow in icrc3_get_blocks with a huge block
 limit and length

---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..a29d10f 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2377,7 +2377,7 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             _ => continue,
         };
         let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
+            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
             _ => continue,
         };
         read_state(|state| {
-- 
2.43.0


From b5db73fc3aacb689d9331210ea85ef53f208d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 4/6] fix: do not refuse self-transfers of accounts holding
 more than half of 2^128 cycles

The overflow check on the receiving account added the amount to a balance
from which it had not been taken yet, so a self-transfer that ends with a
smaller balance was refused with a GenericError.
---
 cycles-ledger/src/storage.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index a29d10f..73dd850 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -990,9 +990,12 @@ pub fn transfer(
         },
     )?;
 
-    // sanity check that the `to` account balance won't overflow
-    read_state(|state| state.check_credit_to_account(&to, amount))
-        .map_err(transfer_from::anyhow_error)?;
+    // sanity check that the `to` account balance won't overflow. The amount
+    // of a self-transfer is debited before it is credited back.
+    if to_account_key(&from) != to_account_key(&to) {
+        read_state(|state| state.check_credit_to_account(&to, amount))
+            .map_err(transfer_from::anyhow_error)?;
+    }
 
     // sanity check that the total_supply won't underflow
     read_state(|state| state.check_total_supply_decrease(config::FEE))
-- 
2.43.0


From 4992ea7a600374a568467e3133843410a3977b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 5/6] fix: serve icrc3_get_blocks ranges whose length exceeds
 64 bits

---
 cycles-ledger/src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 73dd850..6886ca9 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2381,7 +2381,8 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
         };
         let end_excluded = match length.0.to_u64() {
             Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
-            _ => continue,
+            // a length beyond 64 bits asks for all blocks from `start` on
+            None => log_length.min(start.saturating_add(remaining_length)),
         };
         read_state(|state| {
             for id in start..end_excluded {
-- 
2.43.0


From 66df02b889b6c32289690dae41229d3f8985b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 6/6] fix: refund only the returned cycles when the CMC's reply
 cannot be decoded

---
 cycles-ledger/src/storage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 6886ca9..8f7c12a 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2014,8 +2014,14 @@ pub async fn create_canister(
             },
         },
         Err(call_error) => {
+            let returned_amount = match call_error {
+                // the call was executed, so only the cycles that the CMC
+                // didn't accept were returned
+                ic_cdk::call::Error::CandidDecodeFailed(_) => ic_cdk::api::msg_cycles_refunded(),
+                _ => amount,
+            };
             let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
-            Err((rejection_code, amount, rejection_reason))
+            Err((rejection_code, returned_amount, rejection_reason))
         }
     };
 
-- 
2.43.0

