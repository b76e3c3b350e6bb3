From 489b62399a92162943eaa0e4502b7597ce4ba40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH] fix: round up exactly when dividing by prices above 10^18

A market order's input for a bid tick is the filled amount divided by the tick
price, rounded up. The quotient was truncated to 18 decimals first, so at ticks
above 162000000 a small remainder was lost: the taker was undercharged, and a
resting bid worth less than 10^-18 base made every market sell fail with
'Input amount for a given swap step cannot be zero'.
---
 contracts/sumtree-orderbook/src/tick_math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..dd67af6 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -130,7 +130,12 @@ pub fn divide_by_price(
             operand2: price.to_string(),
         })
     );
-    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
+    let amount_to_send = match rounding_direction {
+        RoundingDirection::Down => amount_to_send_dec256?.to_uint_floor(),
+        // The decimal quotient is truncated to 18 decimals, which at prices above 10^18 may drop
+        // a remainder that still has to be rounded up, so the ceiling is taken on the exact ratio.
+        RoundingDirection::Up => Uint256::from_uint128(amount).div_ceil(price),
+    };
 
     Ok(amount_to_send)
 }
-- 
2.43.0

