From bfefe222bea0453ac4b641db59360d4a37e203f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 1/2] fix: donation_share must not give away shares locked by
 shadow records

---
 ref-exchange/src/donation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..57c6357 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -18,8 +18,12 @@ impl Contract {
         let account_id = env::predecessor_account_id();
         let prev_storage = env::storage_usage();
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
-        let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
+        let total_shares = pool.share_balances(&account_id);
+        let donation_amount = amount.map(|v| v.0).unwrap_or(total_shares);
         assert!(donation_amount > 0, "Invalid amount");
+        if let Some(record) = self.internal_get_account(&account_id).and_then(|account| account.get_shadow_record(pool_id)) {
+            assert!(donation_amount <= record.free_shares(total_shares), "Not enough free shares");
+        }
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From 59364acd72346cfd8f69632b28aafd98f68fc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 2/2] fix: HotZap brings the TWAP record up to date before it
 adds liquidity

---
 ref-exchange/src/token_receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..7eaa7f6 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,10 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in add_liquidity_infos.iter() {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
+
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0

