From 3520644f51549d9ec791d4cf0c6e080b5788515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:56 +0000
Subject: [PATCH 1/7] verif hook: include the verification harness under
 cfg(ref_verif)

---
 ref-exchange/src/lib.rs | 6 ++++++
 ref-farming/src/lib.rs  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ref-exchange/src/lib.rs b/ref-exchange/src/lib.rs
index 09dbdff..0735ad1 100644
--- a/ref-exchange/src/lib.rs
+++ b/ref-exchange/src/lib.rs
@@ -64,6 +64,12 @@ mod donation;
 mod event;
 mod swap_volume;
 
+// Verification hook: only with `--cfg ref_verif`, compiles the harness file named by REF_VERIF_EXCHANGE into this crate.
+#[cfg(ref_verif)]
+pub mod ref_verif {
+    include!(env!("REF_VERIF_EXCHANGE"));
+}
+
 near_sdk::setup_alloc!();
 
 #[derive(BorshStorageKey, BorshSerialize)]
diff --git a/ref-farming/src/lib.rs b/ref-farming/src/lib.rs
index dad57a7..a9687cd 100644
--- a/ref-farming/src/lib.rs
+++ b/ref-farming/src/lib.rs
@@ -39,6 +39,12 @@ mod view;
 mod owner;
 mod legacy;
 
+// Verification hook: only with `--cfg ref_verif`, compiles the harness file named by REF_VERIF_FARMING into this crate.
+#[cfg(ref_verif)]
+pub mod ref_verif {
+    include!(env!("REF_VERIF_FARMING"));
+}
+
 near_sdk::setup_alloc!();
 
 
-- 
2.43.0


From 0fe1ad79219c7678d004f022302fe996747b5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 2/7] fix: only shares free of shadow records can be donated

---
 ref-exchange/src/donation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..6c3f027 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -18,8 +18,13 @@ impl Contract {
         let account_id = env::predecessor_account_id();
         let prev_storage = env::storage_usage();
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
-        let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
+        let total_shares = pool.share_balances(&account_id);
+        let available_shares = self.internal_get_account(&account_id)
+            .and_then(|account| account.get_shadow_record(pool_id).map(|record| record.free_shares(total_shares)))
+            .unwrap_or(total_shares);
+        let donation_amount = amount.map(|v| v.0).unwrap_or(available_shares);
         assert!(donation_amount > 0, "Invalid amount");
+        assert!(donation_amount <= available_shares, "Not enough free shares");
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From 7098a4be184d1b2f943d787bd4607d2379078995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 3/7] fix: removal by token amounts never charges less than
 what is paid out

---
 ref-exchange/src/stable_swap/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 123f4fa..5e56082 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -370,8 +370,12 @@ impl StableSwapPool {
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
         // make amounts into comparable-amounts
-        let c_amounts = self.amounts_to_c_amounts(&amounts);
+        let mut c_amounts = self.amounts_to_c_amounts(&amounts);
         for i in 0..n_coins {
+            // an amount that is no whole number of comparable units is charged as the next whole one
+            if self.c_amount_to_amount(c_amounts[i], i) < amounts[i] {
+                c_amounts[i] += 1;
+            }
             self.assert_min_reserve(self.c_amounts[i].checked_sub(c_amounts[i]).unwrap_or(0));
         }
 
-- 
2.43.0


From c5a95481c23de5d1f5562dac4a32eadb4711e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 4/7] fix: no liquidity is added to a rated or degen pool on
 stale rates

---
 ref-exchange/src/degen_swap/mod.rs | 1 +
 ref-exchange/src/rated_swap/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ref-exchange/src/degen_swap/mod.rs b/ref-exchange/src/degen_swap/mod.rs
index d405ddc..38b5578 100644
--- a/ref-exchange/src/degen_swap/mod.rs
+++ b/ref-exchange/src/degen_swap/mod.rs
@@ -281,6 +281,7 @@ impl DegenSwapPool {
 
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
+        self.assert_degens_valid();
 
         let (new_shares, fee_part) = self.calc_add_liquidity_with_degens(amounts, &self.get_degens(), fees);
 
diff --git a/ref-exchange/src/rated_swap/mod.rs b/ref-exchange/src/rated_swap/mod.rs
index f011f83..1c6286a 100644
--- a/ref-exchange/src/rated_swap/mod.rs
+++ b/ref-exchange/src/rated_swap/mod.rs
@@ -279,6 +279,7 @@ impl RatedSwapPool {
 
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
+        self.assert_rates_valid();
 
         let (new_shares, fee_part) = self.calc_add_liquidity_with_rates(amounts, &self.get_rates(), fees);
 
-- 
2.43.0


From 2b612e2d01a422691dee277bd46739dbed2529b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 5/7] fix: reward per share does not fall back to zero while
 nothing is staked

---
 ref-farming/src/simple_farm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index 757f25c..8f76a9b 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -174,7 +174,8 @@ impl SimpleFarm {
     /// Try to distribute reward according to current timestamp
     /// return None if farm is not in Running state or haven't start farming yet;
     /// return new dis :SimpleFarmRewardDistribution 
-    /// Note, if total_seed is 0, the rps in new dis would be reset to 0 too.
+    /// Note, if total_seed is 0, the rps in new dis stays as it was: it must never fall
+    /// below the rps recorded for a farmer, who could neither claim nor stake then.
     pub(crate) fn try_distribute(&self, total_seeds: &Balance) -> Option<SimpleFarmRewardDistribution> {
 
         if let SimpleFarmStatus::Running = self.status {
@@ -211,9 +212,7 @@ impl SimpleFarm {
             dis.undistributed -= reward_added;
 
             // calculate rps
-            if total_seeds == &0 {
-                U256::from(0).to_little_endian(&mut dis.rps);
-            } else {
+            if total_seeds > &0 {
                 (
                     U256::from_little_endian(&self.last_distribution.rps) + 
                     U256::from(reward_added) 
-- 
2.43.0


From 041ee7c1974401744ce7bec77a13326a981899ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:45 +0000
Subject: [PATCH 6/7] fix: a farmer registered anew can withdraw its whole
 stake

---
 ref-farming/src/farmer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 8b34a39..b0b946c 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -98,7 +98,8 @@ impl Farmer {
     pub fn remove_rps(&mut self, farm_id: &FarmId) {
         if self.user_rps.contains_key(farm_id) {
             self.user_rps.remove(farm_id);
-            self.rps_count -= 1;
+            // records kept from an earlier registration of the account are not counted
+            self.rps_count = self.rps_count.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From fffaba04f29119987b19f2c8dc50a4c8b7fddae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 7/7] fix: a hot zap records the pool's time-weighted amounts
 before it adds liquidity

---
 ref-exchange/src/token_receiver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..67e9bbc 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,9 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in add_liquidity_infos.iter() {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0

