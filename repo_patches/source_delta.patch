From b6ae06ee1b963e288ba1e74ee3e46513e5fa16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 01/14] Add verification hook: include harness under
 cfg(mango_verif)

---
 programs/mango-v4/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/mango-v4/src/lib.rs b/programs/mango-v4/src/lib.rs
index 32fec20..29598e3 100644
--- a/programs/mango-v4/src/lib.rs
+++ b/programs/mango-v4/src/lib.rs
@@ -1812,3 +1812,9 @@ security_txt! {
     source_revision: default_env!("GITHUB_SHA", "Unknown source revision"),
     source_release: default_env!("GITHUB_REF_NAME", "Unknown source release")
 }
+
+/// Verification harnesses. Compiled only with `--cfg mango_verif`.
+#[cfg(mango_verif)]
+mod verif {
+    include!(env!("MANGO_VERIF_HARNESS"));
+}
-- 
2.43.0


From c63ac0fd503df7c52311a444d640497a2ebe6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 02/14] fix: evaluate the left side of a checked assignment
 once, after the right side

---
 lib/checked_math/src/transform/checked.rs | 39 ++++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index 85c3947..742ae04 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use proc_macro_error::abort;
 use quote::quote;
 use syn::{spanned::Spanned, BinOp, Expr, ExprBinary, ExprUnary, Ident, Lit, UnOp};
@@ -9,23 +10,31 @@ pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
             quote! {(#expr)}
         }
         Expr::AssignOp(assign_op) => {
-            // Rewrite `left += right` into `left = checked!(left + right).unwrap()`
-            let bin_op = Expr::Binary(ExprBinary {
-                attrs: vec![],
-                left: assign_op.left.clone(),
-                right: assign_op.right.clone(),
-                op: match assign_op.op {
-                    BinOp::AddEq(t) => BinOp::Add(syn::token::Add(t.spans[0])),
-                    BinOp::SubEq(t) => BinOp::Sub(syn::token::Sub(t.spans[0])),
-                    BinOp::MulEq(t) => BinOp::Mul(syn::token::Star(t.spans[0])),
-                    BinOp::DivEq(t) => BinOp::Div(syn::token::Div(t.spans[0])),
-                    _ => panic!("unsupported AssignOp.op: {:#?}", assign_op.op),
-                },
-            });
+            // Evaluate the right side first and the left side exactly once, like the
+            // primitive assignment operators do
+            let method_name = match assign_op.op {
+                BinOp::AddEq(_) => "checked_add",
+                BinOp::SubEq(_) => "checked_sub",
+                BinOp::MulEq(_) => "checked_mul",
+                BinOp::DivEq(_) => "checked_div",
+                _ => panic!("unsupported AssignOp.op: {:#?}", assign_op.op),
+            };
+            let method_name = Ident::new(method_name, assign_op.op.span());
             let left = assign_op.left;
-            let bin_op_tokens = transform_expr(bin_op);
+            let right = transform_expr(*assign_op.right);
+            // hygienic names: `left` may mention anything
+            let value = Ident::new("value", Span::mixed_site());
+            let target = Ident::new("target", Span::mixed_site());
             quote! {
-                #left = (#bin_op_tokens).unwrap_or_else(|| panic!("math error"))
+                match #right {
+                    #value => match &mut #left {
+                        #target => {
+                            *#target = #value
+                                .and_then(|v| #target.#method_name(v))
+                                .unwrap_or_else(|| panic!("math error"))
+                        }
+                    }
+                }
             }
         }
         _ => {
-- 
2.43.0


From 3cb6351573dad065395b87c913dd9b1431434e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 03/14] fix: check the math inside receivers and arguments of
 method calls in checked_math

---
 lib/checked_math/src/transform/checked.rs | 70 +++++++++++++++++++----
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index 742ae04..154ddd6 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -1,7 +1,7 @@
 use proc_macro2::Span;
 use proc_macro_error::abort;
 use quote::quote;
-use syn::{spanned::Spanned, BinOp, Expr, ExprBinary, ExprUnary, Ident, Lit, UnOp};
+use syn::{parse_quote, spanned::Spanned, BinOp, Expr, ExprBinary, ExprUnary, Ident, Lit, UnOp};
 
 pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
     match expr {
@@ -44,22 +44,68 @@ pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
     }
 }
 
-pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
+/// Does evaluating this expression involve a math call that must be checked?
+fn is_math(expr: &Expr) -> bool {
+    match expr {
+        Expr::Paren(p) => is_math(&p.expr),
+        Expr::Group(g) => is_math(&g.expr),
+        Expr::Cast(c) => is_math(&c.expr),
+        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && !matches!(*u.expr, Expr::Lit(_)),
+        Expr::Binary(_) => true,
+        Expr::MethodCall(mc) => {
+            mc.method == "pow" || mc.method == "abs" || is_math(&mc.receiver)
+        }
+        Expr::Call(c) => c.args.iter().any(is_math),
+        _ => false,
+    }
+}
+
+pub fn transform_expr(expr: Expr) -> proc_macro2::TokenStream {
     match expr {
         Expr::Unary(unary) => transform_unary(unary),
         Expr::Binary(binary) => transform_binary(binary),
-        Expr::MethodCall(ref mut mc) => {
-            if mc.method == "pow" {
-                mc.method = syn::Ident::new("checked_pow", mc.method.span());
-                quote! { #mc }
-            } else if mc.method == "abs" {
-                mc.method = syn::Ident::new("checked_abs", mc.method.span());
-                quote! { #mc }
-            } else if mc.args.is_empty() {
-                quote! { Some(#mc) }
-            } else {
+        Expr::MethodCall(mut mc) => {
+            let checked_method = match mc.method.to_string().as_str() {
+                "pow" => Some("checked_pow"),
+                "abs" => Some("checked_abs"),
+                _ => None,
+            };
+            if checked_method.is_none() && !mc.args.is_empty() {
                 abort!(mc, "method calls with arguments are not supported");
             }
+            // the receiver and the arguments can contain math too
+            let mut operands = vec![];
+            if is_math(&mc.receiver) {
+                let name = Ident::new("receiver", Span::mixed_site());
+                operands.push((name.clone(), transform_expr(*mc.receiver)));
+                mc.receiver = parse_quote! { #name };
+            }
+            for (i, arg) in mc.args.iter_mut().enumerate() {
+                if is_math(arg) {
+                    let name = Ident::new(&format!("arg{}", i), Span::mixed_site());
+                    operands.push((name.clone(), transform_expr(arg.clone())));
+                    *arg = parse_quote! { #name };
+                }
+            }
+            let call = match checked_method {
+                Some(name) => {
+                    mc.method = Ident::new(name, mc.method.span());
+                    quote! { #mc }
+                }
+                None => quote! { Some(#mc) },
+            };
+            if operands.is_empty() {
+                return call;
+            }
+            let (names, values): (Vec<_>, Vec<_>) = operands.into_iter().unzip();
+            quote! {
+                {
+                    match (#(#values,)*) {
+                        (#(Some(#names),)*) => #call,
+                        _ => None
+                    }
+                }
+            }
         }
         Expr::Call(c) => {
             let f = c.func.clone();
-- 
2.43.0


From e2c448e36967fbcb2fec64816ef7745b2965f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 04/14] fix: an added bank keeps the token's fallback oracle

---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From fe16e0826e9da6b41569dc69cf4162529905e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 05/14] fix: no division by zero in the interest curve when
 util0 is zero

---
 programs/mango-v4/src/state/bank.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 221f12e..8836fc1 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -1116,10 +1116,10 @@ impl Bank {
         // Clamp to avoid negative or extremely high interest
         let utilization = utilization.max(I80F48::ZERO).min(I80F48::ONE);
 
-        let v = if utilization <= util0 {
+        let v = if utilization <= util0 && util0 > 0 {
             let slope = (rate0 - zero_util_rate) / util0;
             zero_util_rate + slope * utilization
-        } else if utilization <= util1 {
+        } else if utilization <= util1 && util0 < util1 {
             let extra_util = utilization - util0;
             let slope = (rate1 - rate0) / (util1 - util0);
             rate0 + slope * extra_util
-- 
2.43.0


From 53865751f770d9f74011b4a5ae84872b3bb70733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 06/14] fix: adjusted health caches scale asset weights by the
 liability price

---
 programs/mango-v4/src/health/cache.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..d69e902 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -853,11 +853,11 @@ impl HealthCache {
         let mut entry = &mut self.token_infos[entry_index];
 
         // Note: resetting the weights here assumes that the change has been applied to
-        // the passed in bank already
-        entry.init_scaled_asset_weight =
-            bank.scaled_init_asset_weight(entry.prices.asset(HealthType::Init));
-        entry.init_scaled_liab_weight =
-            bank.scaled_init_liab_weight(entry.prices.liab(HealthType::Init));
+        // the passed in bank already. Like in new_health_cache(), the liab price is used
+        // for scaling both weights.
+        let liab_price = entry.prices.liab(HealthType::Init);
+        entry.init_scaled_asset_weight = bank.scaled_init_asset_weight(liab_price);
+        entry.init_scaled_liab_weight = bank.scaled_init_liab_weight(liab_price);
 
         // Work around the fact that -((-x) * y) == x * y does not hold for I80F48:
         // We need to make sure that if balance is before * price, then change = -before
-- 
2.43.0


From 3608787fb6bc79b03220813137842e1ba336bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 07/14] fix: value perp positions with the price of their
 settle token

---
 programs/mango-v4/src/health/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index d69e902..06733b9 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,7 +773,9 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
+            let quote_price = self
+                .token_info(perp_info.settle_token_index)
+                .unwrap()
                 .prices
                 .oracle;
             let quote_position_value = perp_info.quote * quote_price;
-- 
2.43.0


From e413681b080dd1ef38ab6e86f8b9a02fc5f0318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 08/14] fix: stable price: average delay prices over the time
 they are weighted by

---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..77999b9 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -133,7 +133,7 @@ impl StablePriceModel {
         //
         // Update delay price
         //
-        self.delay_accumulator_time += dt as u32;
+        self.delay_accumulator_time += dt_limited as u32;
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-- 
2.43.0


From 846180bd281c7e9830506b32a8267da95c3cf622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 09/14] fix: stable price: replace all delay prices after a
 full delay, whatever the interval

---
 programs/mango-v4/src/state/stable_price.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index 77999b9..715f808 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -137,7 +137,7 @@ impl StablePriceModel {
         self.delay_accumulator_price += oracle_price * dt_limited;
 
         let delay_interval_index = self.delay_interval_index(now_ts);
-        if delay_interval_index != self.last_delay_interval_index {
+        if full_delay_passed || delay_interval_index != self.last_delay_interval_index {
             // last_delay_interval_index points to the most delayed price, which we will
             // overwrite with a new delay price
             let new_delay_price = {
-- 
2.43.0


From a9e1c0eb8551651c5a15f2af792e7934f6a6ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:02 +0000
Subject: [PATCH 10/14] fix: a full book side makes enough room for a better
 order

Removing the last order of one order tree frees a single node, while inserting
into the other tree needs two: on a full side with a single, worst order in one
of the trees, every better order for the other tree was refused.
---
 programs/mango-v4/src/state/orderbook/book.rs      |  4 +++-
 programs/mango-v4/src/state/orderbook/bookside.rs  | 11 +++++++++++
 programs/mango-v4/src/state/orderbook/ordertree.rs |  5 +++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/orderbook/book.rs b/programs/mango-v4/src/state/orderbook/book.rs
index ff5b7ad..dd4611e 100644
--- a/programs/mango-v4/src/state/orderbook/book.rs
+++ b/programs/mango-v4/src/state/orderbook/book.rs
@@ -280,7 +280,9 @@ impl<'a> Orderbook<'a> {
                 event_queue.push_back(cast(event)).unwrap();
             }
 
-            if bookside.is_full() {
+            // Usually removing one order is enough. But the last order in a tree only frees up a
+            // single node, while inserting into the other tree needs two.
+            while bookside.is_full_for(order_tree_target) {
                 // If this bid is higher than lowest bid, boot that bid and insert this one
                 let (worst_order, worst_price) =
                     bookside.remove_worst(now_ts, oracle_price_lots).unwrap();
diff --git a/programs/mango-v4/src/state/orderbook/bookside.rs b/programs/mango-v4/src/state/orderbook/bookside.rs
index b4d98d1..f92ec1f 100644
--- a/programs/mango-v4/src/state/orderbook/bookside.rs
+++ b/programs/mango-v4/src/state/orderbook/bookside.rs
@@ -79,6 +79,17 @@ impl BookSide {
         self.nodes.is_full()
     }
 
+    /// Is there not enough space to insert a leaf into this component?
+    ///
+    /// The first leaf of a component needs a single node, all others need two.
+    pub fn is_full_for(&self, component: BookSideOrderTree) -> bool {
+        if self.root(component).leaf_count == 0 {
+            self.nodes.free_node_count() < 1
+        } else {
+            self.nodes.free_node_count() < 2
+        }
+    }
+
     pub fn insert_leaf(
         &mut self,
         component: BookSideOrderTree,
diff --git a/programs/mango-v4/src/state/orderbook/ordertree.rs b/programs/mango-v4/src/state/orderbook/ordertree.rs
index f32a911..dd2221d 100644
--- a/programs/mango-v4/src/state/orderbook/ordertree.rs
+++ b/programs/mango-v4/src/state/orderbook/ordertree.rs
@@ -398,6 +398,11 @@ impl OrderTreeNodes {
         }
     }
 
+    /// Number of nodes that can still be inserted
+    pub fn free_node_count(&self) -> usize {
+        self.free_list_len as usize + (self.nodes.len() - self.bump_index as usize)
+    }
+
     pub fn is_full(&self) -> bool {
         self.free_list_len <= 1 && (self.bump_index as usize) >= self.nodes.len() - 1
     }
-- 
2.43.0


From 9a20fddfcde85195696897a173f7d55abbf171be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 11/14] fix: matched_quantity returns enough to match the
 amount

It rounded up the surplus it takes off and so returned a quantity worth less
than the requested amount unless the last level divides evenly.
---
 programs/mango-v4/src/state/orderbook/bookside.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/orderbook/bookside.rs b/programs/mango-v4/src/state/orderbook/bookside.rs
index f92ec1f..00e6e8d 100644
--- a/programs/mango-v4/src/state/orderbook/bookside.rs
+++ b/programs/mango-v4/src/state/orderbook/bookside.rs
@@ -236,8 +236,8 @@ impl BookSide {
             sum_amt += order.node.quantity * order.price_lots;
             let extra_amt = sum_amt - amount;
             if extra_amt >= 0 {
-                // adding n-1 before dividing through n to force rounding up
-                sum_qty -= (extra_amt + order.price_lots - 1) / order.price_lots;
+                // rounding down what's not needed rounds up the quantity
+                sum_qty -= extra_amt / order.price_lots;
                 return Some(sum_qty);
             }
         }
-- 
2.43.0


From dc8427c248e4db224dd023b5ef1ec9b8936fd52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:38 +0000
Subject: [PATCH 12/14] fix: perp_settle_fees starts a new settle limit window
 before applying the limit

All other settling instructions call update_settle_limit before using
the limit. Settling fees applied the limit with the usage of an earlier
window.
---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..34553d2 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -18,6 +18,8 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
         MangoError::MaxSettleAmountMustBeGreaterThanZero
     );
 
+    let (now_ts, now_slot) = clock_now();
+
     let mut account = ctx.accounts.account.load_full_mut()?;
     let mut settle_bank = ctx.accounts.settle_bank.load_mut()?;
     let mut perp_market = ctx.accounts.perp_market.load_mut()?;
@@ -50,6 +52,7 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    perp_position.update_settle_limit(&perp_market, now_ts);
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
@@ -95,11 +98,7 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     let token_position = account
         .token_position_mut(perp_market.settle_token_index)?
         .0;
-    settle_bank.withdraw_without_fee(
-        token_position,
-        settlement,
-        Clock::get()?.unix_timestamp.try_into().unwrap(),
-    )?;
+    settle_bank.withdraw_without_fee(token_position, settlement, now_ts)?;
     // Update the settled balance on the market itself
     perp_market.fees_settled += settlement;
 
@@ -124,7 +123,6 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     drop(perp_market);
 
     // Verify that the result of settling did not violate the health of the account that lost money
-    let (now_ts, now_slot) = clock_now();
     let retriever = new_fixed_order_account_retriever(
         ctx.remaining_accounts,
         &account.borrow(),
-- 
2.43.0


From 50fd213bfd999d07b1daa267691af8c349e267f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:43 +0000
Subject: [PATCH 13/14] fix: token_liq_bankruptcy socializes the loss on every
 bank of the token

The loop over the banks ended once the liqee's debt was credited, before
the reduced deposit index was stored in the remaining banks.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 1baa8f7e6d72bb36953b2b37500f6a5c4896e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:07 +0000
Subject: [PATCH 14/14] fix: scale the deviation of pool-priced oracles with
 the price

---
 programs/mango-v4/src/state/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/state/oracle.rs b/programs/mango-v4/src/state/oracle.rs
index c7e24c7..751701c 100644
--- a/programs/mango-v4/src/state/oracle.rs
+++ b/programs/mango-v4/src/state/oracle.rs
@@ -515,7 +515,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::OrcaCLMM,
                 last_update_time: None,
             }
@@ -528,7 +528,7 @@ fn oracle_state_unchecked_inner<T: KeyedAccountReader>(
             OracleState {
                 price,
                 last_update_slot: quote_oracle_state.last_update_slot,
-                deviation: quote_oracle_state.deviation,
+                deviation: clmm_price * quote_oracle_state.deviation,
                 oracle_type: OracleType::RaydiumCLMM,
                 last_update_time: None,
             }
-- 
2.43.0

