From dd93be3a49987bda517f6ed0d283679d4d8847cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 1/7] fix: only base tokens can be unwrapped

---
 token_wrapper/src/token_wrapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token_wrapper/src/token_wrapper.rs b/token_wrapper/src/token_wrapper.rs
index c42aeb7..f799ecc 100644
--- a/token_wrapper/src/token_wrapper.rs
+++ b/token_wrapper/src/token_wrapper.rs
@@ -156,6 +156,11 @@ mod token_wrapper_mod {
         }
 
         pub fn unwrap(&mut self, parent_token: Bucket, child_resource: ResourceAddress) -> Bucket {
+            assert!(
+                parent_token.resource_address() == BASE_RESOURCE,
+                "{}, VALUE:{}, REQUIRED:{}, OP:== |", ERROR_INVALID_PAYMENT_TOKEN, Runtime::bech32_encode_address(parent_token.resource_address()), Runtime::bech32_encode_address(BASE_RESOURCE)
+            );
+
             let mut child_vault = self.inputs.get_mut(&child_resource).expect(ERROR_INVALID_CHILD_TOKEN);
 
             let child_token = child_vault.vault.take_advanced(parent_token.amount(), TO_ZERO);
-- 
2.43.0


From ac1a518146661716a90b359b5c71ee49ef18fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 2/7] fix: auto-deleverage profit of short positions has the
 wrong sign

---
 exchange/src/exchange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index a7fc334..8f828d4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -2348,7 +2348,7 @@ mod exchange_mod {
             let value = position.amount * price;
             let cost = position.cost;
 
-            let pnl_percent = (value - cost) / cost;
+            let pnl_percent = (value - cost) / cost.checked_abs().expect(ERROR_ARITHMETIC);
 
             let u = skew_ratio_0 / exchange_config.adl_a - exchange_config.adl_offset / exchange_config.adl_a;
             let threshold = -(u * u * u) - exchange_config.adl_b * u;
-- 
2.43.0


From 0dae581a4e1334bd60cf4fb62de73d9f08dee0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 3/7] fix: reject config times that do not fit their stored
 form

---
 config/src/config/structs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/src/config/structs.rs b/config/src/config/structs.rs
index 0283edb..983f4e4 100644
--- a/config/src/config/structs.rs
+++ b/config/src/config/structs.rs
@@ -253,11 +253,11 @@ pub struct PairConfigCompressed {
 
 impl PairConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.oi_max >= dec!(0), "Invalid oi maximum");
         assert!(self.trade_size_min >= dec!(0), "Invalid minimum trade size");
         assert!(self.update_price_delta_ratio > dec!(0), "Invalid pair update price delta ratio");
-        assert!(self.update_period_seconds > 0, "Invalid pair update period");
+        assert!(self.update_period_seconds > 0 && self.update_period_seconds <= u16::MAX as i64, "Invalid pair update period");
         assert!(self.margin_initial >= dec!(0) && self.margin_initial <= dec!(1), "Invalid initial margin");
         assert!(self.margin_maintenance >= dec!(0) && self.margin_maintenance <= dec!(1) && self.margin_maintenance <= self.margin_initial, "Invalid maintenance margin");
         assert!(self.funding_1 >= dec!(0) && self.funding_1 <= dec!(2), "Invalid funding 1");
@@ -344,7 +344,7 @@ pub struct CollateralConfigCompressed {
 
 impl CollateralConfig {
     pub fn validate(&self) {
-        assert!(self.price_age_max > 0, "Invalid max price age");
+        assert!(self.price_age_max > 0 && self.price_age_max <= u16::MAX as i64, "Invalid max price age");
         assert!(self.discount >= dec!(0.8) && self.discount <= dec!(1), "Invalid discount");
         assert!(self.margin >= dec!(0) && self.margin <= dec!(0.1), "Invalid margin");
     }
-- 
2.43.0


From 06d94fe96d241047865b4a35ba9aa097007045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 4/7] fix: request delays beyond the signed range wrap into the
 past

---
 exchange/src/exchange/virtual_margin_account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 370b38c..45c89a7 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -255,8 +255,8 @@ impl VirtualMarginAccount {
             "{}, VALUE:{}, REQUIRED:{:?}, OP:contains |", ERROR_INVALID_REQUEST_STATUS, status, vec![STATUS_ACTIVE, STATUS_DORMANT]
         );
         let current_time = Clock::current_time_rounded_to_seconds();
-        let submission = current_time.add_seconds(delay_seconds as i64).expect(ERROR_ARITHMETIC);
-        let expiry = submission.add_seconds(expiry_seconds as i64).expect(ERROR_ARITHMETIC);
+        let submission = current_time.add_seconds(i64::try_from(delay_seconds).expect(ERROR_ARITHMETIC)).expect(ERROR_ARITHMETIC);
+        let expiry = submission.add_seconds(i64::try_from(expiry_seconds).expect(ERROR_ARITHMETIC)).expect(ERROR_ARITHMETIC);
 
         let keeper_request = KeeperRequest {
             request: request.encode(), 
-- 
2.43.0


From c6df0068b716950def52626fb4f8b12662f703c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 5/7] fix: cancelling a request invalidated by liquidation
 miscounts active requests

---
 exchange/src/exchange/virtual_margin_account.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 45c89a7..0c27768 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -414,7 +414,9 @@ impl VirtualMarginAccount {
     }
 
     fn _remove_active_request(&mut self, index: ListIndex) {
-        self.active_requests_len -= 1;
+        if index >= self.valid_requests_start {
+            self.active_requests_len -= 1;
+        }
         self.active_request_removals.push(index);
     }
 
-- 
2.43.0


From f8d29bd4fe7b34b5f532afbefb9fa7a5ca0f7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 6/7] fix: fee oath multiplies by the XRD per USD price instead
 of dividing

---
 fee_delegator/src/fee_delegator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fee_delegator/src/fee_delegator.rs b/fee_delegator/src/fee_delegator.rs
index 34d9cbb..c97c3c0 100644
--- a/fee_delegator/src/fee_delegator.rs
+++ b/fee_delegator/src/fee_delegator.rs
@@ -132,7 +132,7 @@ mod fee_delegator_mod {
                 self.vault.lock_fee(amount);
             }
 
-            let price = Runtime::get_usd_price() * self.price_multiplier;
+            let price = self.price_multiplier / Runtime::get_usd_price();
             let value = price * amount;
             self.virtual_balance += value;
 
-- 
2.43.0


From ad1823d22653a6bfbd6be41120c10cc6f143d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 7/7] fix: accounts become unreadable while a withdrawal
 request claims an unlisted resource

---
 account/src/margin_account/structs.rs           |  1 +
 exchange/src/exchange.rs                        | 11 ++++++-----
 exchange/src/exchange/virtual_margin_account.rs |  3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/account/src/margin_account/structs.rs b/account/src/margin_account/structs.rs
index 007db40..2637537 100644
--- a/account/src/margin_account/structs.rs
+++ b/account/src/margin_account/structs.rs
@@ -47,4 +47,5 @@ pub struct KeeperRequest {
     pub expiry: Instant,
     pub status: Status,
     pub effected_components: Vec<ComponentAddress>,
+    pub effected_resources: Vec<ResourceAddress>,
 }
diff --git a/exchange/src/exchange.rs b/exchange/src/exchange.rs
index 8f828d4..f442ef4 100644
--- a/exchange/src/exchange.rs
+++ b/exchange/src/exchange.rs
@@ -1170,13 +1170,14 @@ mod exchange_mod {
                     "{}, VALUE:{}, REQUIRED:{}, OP:<= |", ERROR_CLAIMS_TOO_MANY, claims.len(), 10
                 );
 
+                let effected_resources = claims.iter().map(|(resource, _)| *resource).collect();
                 let request = Request::RemoveCollateral(RequestRemoveCollateral {
                     target_account,
                     claims,
                 });
 
                 let request_index = account.requests_len();
-                account.push_request(request, 0, expiry_seconds, STATUS_ACTIVE, vec![target_account]);
+                account.push_request(request, 0, expiry_seconds, STATUS_ACTIVE, vec![target_account], effected_resources);
                 self._assert_active_requests_limit(&config, &account);
 
                 account.realize();
@@ -1246,7 +1247,7 @@ mod exchange_mod {
                 });
 
                 let request_index = account.requests_len();
-                account.push_request(request, delay_seconds, expiry_seconds, status, vec![]);
+                account.push_request(request, delay_seconds, expiry_seconds, status, vec![], vec![]);
                 self._assert_active_requests_limit(&config, &account);
 
                 account.realize();
@@ -1341,7 +1342,7 @@ mod exchange_mod {
                     activate_requests: activate_requests_order,
                     cancel_requests: vec![],
                 });
-                account.push_request(request_order, delay_seconds, expiry_seconds, STATUS_ACTIVE, vec![]);
+                account.push_request(request_order, delay_seconds, expiry_seconds, STATUS_ACTIVE, vec![], vec![]);
 
                 if let Some(price_limit_tp) = price_limit_tp {
                     let request_tp = Request::MarginOrder(RequestMarginOrder {
@@ -1353,7 +1354,7 @@ mod exchange_mod {
                         activate_requests: vec![],
                         cancel_requests: cancel_requests_tp,
                     });
-                    account.push_request(request_tp, delay_seconds, expiry_seconds, STATUS_DORMANT, vec![]);
+                    account.push_request(request_tp, delay_seconds, expiry_seconds, STATUS_DORMANT, vec![], vec![]);
                 }
                 if let Some(price_limit_sl) = price_limit_sl {
                     let request_sl = Request::MarginOrder(RequestMarginOrder {
@@ -1365,7 +1366,7 @@ mod exchange_mod {
                         activate_requests: vec![],
                         cancel_requests: cancel_requests_sl,
                     });
-                    account.push_request(request_sl, delay_seconds, expiry_seconds, STATUS_DORMANT, vec![]);
+                    account.push_request(request_sl, delay_seconds, expiry_seconds, STATUS_DORMANT, vec![], vec![]);
                 }
 
                 self._assert_active_requests_limit(&config, &account);
diff --git a/exchange/src/exchange/virtual_margin_account.rs b/exchange/src/exchange/virtual_margin_account.rs
index 0c27768..dd1ee32 100644
--- a/exchange/src/exchange/virtual_margin_account.rs
+++ b/exchange/src/exchange/virtual_margin_account.rs
@@ -249,7 +249,7 @@ impl VirtualMarginAccount {
         self.account.set_role("level_3", rule);
     }
 
-    pub fn push_request(&mut self, request: Request, delay_seconds: u64, expiry_seconds: u64, status: Status, effected_components: Vec<ComponentAddress>) {
+    pub fn push_request(&mut self, request: Request, delay_seconds: u64, expiry_seconds: u64, status: Status, effected_components: Vec<ComponentAddress>, effected_resources: Vec<ResourceAddress>) {
         assert!(
             status == STATUS_ACTIVE || status == STATUS_DORMANT,
             "{}, VALUE:{}, REQUIRED:{:?}, OP:contains |", ERROR_INVALID_REQUEST_STATUS, status, vec![STATUS_ACTIVE, STATUS_DORMANT]
@@ -264,6 +264,7 @@ impl VirtualMarginAccount {
             expiry,
             status,
             effected_components,
+            effected_resources,
         };
         let index = self.requests_len + self.request_additions.len() as ListIndex;
         self._add_active_request(index);
-- 
2.43.0

