From 6403565bcdcb77b67b1319b08bb6996b4f412249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 1/8] fix: pool reverts on division by zero once remaining
 deposits are worth less than one ray unit

---
 common/rates/src/rates.rs        |  7 ++++---
 liquidity_layer/src/cache/mod.rs | 12 ++++--------
 liquidity_layer/src/utils.rs     |  4 ++++
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..629cfcc 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -200,9 +200,10 @@ pub trait InterestRates: common_math::SharedMathModule {
         old_supply_index: ManagedDecimal<Self::Api, NumDecimals>,
         rewards_increase: ManagedDecimal<Self::Api, NumDecimals>,
     ) -> ManagedDecimal<Self::Api, NumDecimals> {
-        if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
-            let total_supplied_with_interest =
-                self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
+        let total_supplied_with_interest =
+            self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
+        // Guard on the value: scaled supply can remain while its value rounds to zero.
+        if total_supplied_with_interest != self.ray_zero() && rewards_increase != self.ray_zero() {
             let rewards_ratio = self.div_half_up(
                 &rewards_increase,
                 &total_supplied_with_interest,
diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..43384a4 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,14 +134,10 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
-            self.sc_ref.ray_zero()
-        } else {
-            let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
-            self.sc_ref
-                .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
-        }
+        let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+        // The value can round to zero while scaled supply remains, so guard on the value.
+        self.sc_ref.utilization(&total_borrowed, &total_supplied)
     }
 
     /// Calculates the effective reserves available (reserves minus protocol revenue).
diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..b3d0682 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -68,6 +68,10 @@ pub trait UtilsModule:
     ) {
         // Calculate total supplied value in RAY precision
         let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
+        // No supplied value left to absorb the loss
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
         // Convert bad debt to RAY precision
         // Cap bad debt to available value (prevent negative results)
         let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());
-- 
2.43.0


From 2a37b823bd2fbb90a6b3ad26fcfb6953c9feb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 2/8] fix: several liquidation payments in one token are capped
 against one debt

---
 controller/src/positions/liquidation.rs | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..7d2fd92 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -549,7 +549,9 @@ pub trait PositionLiquidationModule:
     ) {
         let mut total_repaid = self.ray_zero();
         let mut repaid_tokens = ManagedVec::new();
-        for payment_ref in repayments {
+        // Several payments in one token repay one debt: each must not be capped on its own
+        let merged_repayments = self.merge_payments_by_token(repayments);
+        for payment_ref in &merged_repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
                 self.position_by_index(&payment_ref.token_identifier, borrows, &borrows_index_map);
@@ -599,6 +601,37 @@ pub trait PositionLiquidationModule:
         (total_repaid, repaid_tokens)
     }
 
+    /// Merges payments made in the same token into a single payment.
+    ///
+    /// # Arguments
+    /// - `payments`: Vector of payments, possibly with repeated tokens
+    ///
+    /// # Returns
+    /// - Vector with one payment per token, in order of first appearance
+    fn merge_payments_by_token(
+        &self,
+        payments: &ManagedVec<EgldOrEsdtTokenPayment<Self::Api>>,
+    ) -> ManagedVec<EgldOrEsdtTokenPayment<Self::Api>> {
+        let mut merged = ManagedVec::<Self::Api, EgldOrEsdtTokenPayment<Self::Api>>::new();
+        for payment in payments {
+            let mut is_merged = false;
+            for index in 0..merged.len() {
+                let mut existing = merged.get(index).clone();
+                if existing.token_identifier == payment.token_identifier {
+                    existing.amount += &payment.amount;
+                    let _ = merged.set(index, existing);
+                    is_merged = true;
+                    break;
+                }
+            }
+            if !is_merged {
+                merged.push(payment.clone());
+            }
+        }
+
+        merged
+    }
+
     /// Calculates weighted liquidation parameters by aggregating asset-specific thresholds and bonuses.
     ///
     /// # Purpose and Scope
-- 
2.43.0


From 5497bd21692e8c0d83b46338f54a97caf47fe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 3/8] fix: a liquidation payment without any value seizes
 nothing

---
 controller/src/positions/liquidation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 7d2fd92..26c575f 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -226,8 +226,10 @@ pub trait PositionLiquidationModule:
 
         require!(!repaid_tokens.is_empty(), ERROR_NO_DEBT_PAYMENTS_TO_PROCESS);
 
+        let mut total_repaid_egld_ray = self.ray_zero();
         for debt_payment_data in repaid_tokens {
             let (debt_payment, debt_egld_value, debt_price_feed) = debt_payment_data.into_tuple();
+            total_repaid_egld_ray += &debt_egld_value;
             self.process_repayment(
                 account_nonce,
                 &debt_payment.token_identifier,
@@ -240,6 +242,12 @@ pub trait PositionLiquidationModule:
             );
         }
 
+        // A payment too small to have any value is not an estimation request: nothing may be seized for it
+        require!(
+            total_repaid_egld_ray > self.ray_zero(),
+            ERROR_NO_DEBT_PAYMENTS_TO_PROCESS
+        );
+
         for collateral_data in seized_collaterals {
             let (seized_collateral, protocol_fee) = collateral_data.into_tuple();
             let mut deposit_position =
-- 
2.43.0


From 06ab7f5ffae02c0b53a650f893af48a98d4ff71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 4/8] fix: the isolated debt tracker of a few-decimals token
 counts the full USD value

---
 controller/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller/src/utils.rs b/controller/src/utils.rs
index bb7cb6b..785ee54 100644
--- a/controller/src/utils.rs
+++ b/controller/src/utils.rs
@@ -311,7 +311,9 @@ pub trait LendingUtilsModule:
 
         let debt_mapper = self.isolated_asset_debt_usd(asset_id);
         if is_increase {
-            debt_mapper.update(|debt| *debt += amount_in_usd);
+            // `+` keeps the wider scale, `+=` would truncate to the scale of the stored tracker,
+            // which is created with the decimals of the asset
+            debt_mapper.update(|debt| *debt = debt.clone() + amount_in_usd);
         } else {
             debt_mapper.update(|debt| {
                 *debt -= if *debt > amount_in_usd {
-- 
2.43.0


From f57d1ed1f2c4e06205c86baf284be7ddf23c5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 5/8] fix: a configured bonus above the maximum no longer
 blocks liquidations

---
 controller/src/helpers/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/controller/src/helpers/mod.rs b/controller/src/helpers/mod.rs
index 812e7c1..d4a8320 100644
--- a/controller/src/helpers/mod.rs
+++ b/controller/src/helpers/mod.rs
@@ -460,13 +460,16 @@ pub trait MathsModule: common_math::SharedMathModule {
         let clamped_term_ray = self.min(scaled_term_ray, self.ray());
         // Calculate the bonus range: max_bonus - min_bonus
 
-        let bonus_range_ray = max_bonus.rescale(RAY_PRECISION) - min_bonus.clone();
+        let max_bonus_ray = max_bonus.rescale(RAY_PRECISION);
+        // Configured bonuses are not bounded, the maximum applies to them as well
+        let min_bonus = self.min(min_bonus.clone(), max_bonus_ray.clone());
+        let bonus_range_ray = max_bonus_ray - min_bonus.clone();
 
         // Calculate the bonus increment: bonus_range * clamped_term
         let bonus_increment_ray =
             self.mul_half_up(&bonus_range_ray, &clamped_term_ray, RAY_PRECISION);
         // Final bonus: min_bonus + bonus_increment
-        min_bonus.clone() + bonus_increment_ray
+        min_bonus + bonus_increment_ray
     }
 
     /// Computes debt repayment, bonus, and new health factor for a liquidation.
-- 
2.43.0


From 91016b3a7a9e083443c0b00e8e67f6cf499382b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 6/8] fix: liquidating hopeless debt cannot seize beyond the
 maximum bonus

---
 controller/src/helpers/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/controller/src/helpers/mod.rs b/controller/src/helpers/mod.rs
index d4a8320..2cf61a7 100644
--- a/controller/src/helpers/mod.rs
+++ b/controller/src/helpers/mod.rs
@@ -714,6 +714,12 @@ pub trait MathsModule: common_math::SharedMathModule {
             self.to_decimal_ray(target_health_factor_secondary_ray),
         );
 
+        // Configured bonuses are not bounded, the maximum applies to the base bonus as well
+        let max_bonus_ray = self
+            .to_decimal_bps(BigUint::from(MAX_LIQUIDATION_BONUS))
+            .rescale(RAY_PRECISION);
+        let min_bonus = &self.min(min_bonus.clone(), max_bonus_ray);
+
         // Carve-out: if even using the base bonus (min_bonus) and targeting HF=1.0
         // the position cannot be restored (projected HF < 1.0),
         // return the repayment computed under base bonus. This aligns estimation
-- 
2.43.0


From 137ce3e325bd0ae6751def5e9c4d17d4278404fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 7/8] fix: log the market state after a strategy loan is paid
 out

---
 liquidity_layer/src/liquidity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liquidity_layer/src/liquidity.rs b/liquidity_layer/src/liquidity.rs
index ef2de53..221df2f 100644
--- a/liquidity_layer/src/liquidity.rs
+++ b/liquidity_layer/src/liquidity.rs
@@ -467,11 +467,11 @@ pub trait LiquidityModule:
 
         self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());
 
-        self.emit_market_update(&cache, price);
-
         // Send the net amount (after fee deduction) to the user
         self.send_asset(&cache, &amount_to_send, &self.blockchain().get_caller());
 
+        self.emit_market_update(&cache, price);
+
         position
     }
 
-- 
2.43.0


From 3de662a2ec7efb363cc5927c40b3f7a6442b42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 8/8] fix: check every debt for siloed borrowing, not only a
 single one

---
 controller/src/positions/borrow.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller/src/positions/borrow.rs b/controller/src/positions/borrow.rs
index d0c8567..da162a3 100644
--- a/controller/src/positions/borrow.rs
+++ b/controller/src/positions/borrow.rs
@@ -396,9 +396,9 @@ pub trait PositionBorrowModule:
             );
         }
 
-        // Check if trying to borrow a different asset when there's a siloed position
-        if borrow_positions.len() == 1 {
-            let first_position = borrow_positions.get(0);
+        // Check if trying to borrow a different asset when there's a siloed position.
+        // Every position counts: an asset can become siloed after it was borrowed with others
+        for first_position in borrow_positions.iter() {
             let first_asset_config = cache.cached_asset_info(&first_position.asset_id);
 
             // If either the existing position or new borrow is siloed, they must be the same asset
-- 
2.43.0

