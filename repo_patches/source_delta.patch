From 64a2947e9d7bf65659fdf8db2b58ff5d0b97aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 01/60] fix: a market sell deducted the traded quantity from
 the bid level twice

---
 trading-engine/src/orderbook/half_book.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..a412f12 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,6 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From eba954bf8a12a1aef67842db510654d960990192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 02/60] fix: resizing an order to zero left it in the id cache
 and in the level queue

---
 trading-engine/src/orderbook/half_book.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index a412f12..ffb4168 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -521,6 +521,10 @@ impl HalfBook {
         new_quantity: BookQuantity,
     ) -> Option<()> {        
         if let Some(price) = self.cache.get(&order_id) {
+            if new_quantity == 0 { // nothing is left of the order, so it leaves the book
+                return self.cancel_order(order_id);
+            }
+
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
                     self.total_quantity -= original_qty;
-- 
2.43.0


From fbfef4d4be5074ca94ba825c77081cf32d9eaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 03/60] fix: zero-quantity snapshot levels became empty price
 levels of the book

---
 trading-engine/src/orderbook/half_book.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index ffb4168..ff1fcf0 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -85,7 +85,11 @@ impl HalfBook {
         level_snapshot: &Vec<LevelSnapshot>,
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
-        let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
+        // a level without quantity (e.g. the zero-filled levels of a thin market) is not a level
+        let price_vec: Vec<BookPrice> = level_snapshot.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect();
         // erase existing level where not in the snapshot
         // Collect keys to be removed
         let levels_to_remove: Vec<BookPrice> = self.levels.keys()
@@ -98,7 +102,7 @@ impl HalfBook {
             self.remove_level(level);
         }
 
-        for level in level_snapshot {
+        for level in level_snapshot.iter().filter(|x| x.book_quantity > 0) {
             let price = level.book_price;
             let quantity = level.book_quantity;
             
@@ -161,7 +165,7 @@ impl HalfBook {
                     order_enum_vec.push(add_order);
                     //self.add_limit_order(limit_order).unwrap();
                 }
-            } else { // threre was no such price so something must have been added
+            } else if current_qty > 0 { // threre was no such price so something must have been added
                 let limit_order = LimitOrder {
                     order_id: virtual_counter.next_id(),
                     price,
-- 
2.43.0


From d78860dd7bd14ef62abd0dca0db633fbabd74908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 04/60] fix: snapshot updates used the quote levels beyond the
 level cut

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 trading-engine/src/orderbook/mod.rs       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index ff1fcf0..ee9642c 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -82,7 +82,7 @@ impl HalfBook {
     /// So if there is a new order, it will reuse the existing orders
     pub fn update_l2_snapshot(
         &mut self, 
-        level_snapshot: &Vec<LevelSnapshot>,
+        level_snapshot: &[LevelSnapshot],
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
         // a level without quantity (e.g. the zero-filled levels of a thin market) is not a level
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 951deef..64a3b3c 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -119,9 +119,9 @@ impl OrderBook {
     #[inline]
     pub fn update_from_quote_snapshot(&mut self, quote: &QuoteSnapshot) -> Result<()> {
         self.check_id(quote.id)?;
-        self.asks.update_l2_snapshot(&quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
@@ -131,9 +131,9 @@ impl OrderBook {
     pub fn update_from_trade_quote_snapshot(&mut self, trade_quote: &TradeQuoteSnapshot) -> Result<()> {
         self.check_id(trade_quote.id)?;
         
-        self.asks.update_l2_snapshot(&trade_quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(trade_quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&trade_quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(trade_quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
-- 
2.43.0


From 3f2b4cac84282c6d13969deaf06ca9094e724212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 05/60] fix: numeric field decoding ended its slice before the
 field did when leading characters are skipped

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..1153ff4 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -359,7 +359,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 1cac9568806011157cb3f710293f36ab0a66e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 06/60] fix: unchecked decoding of a field with unused leading
 characters read those instead of the digits

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 1153ff4..cd50874 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -409,21 +409,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From f8b04f5f44623f68c8149529706dfc1584bfb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 07/60] fix: a serialized numeric converter could not be
 deserialized

---
 trading-engine/src/utils/numeric_converter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index cd50874..f6aaeef 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -19,7 +19,7 @@ use crate::types::timestamp::{
     FIFTEEN_HOURS_NANOSCALE,
 };
 use anyhow::{anyhow, Result};
-use serde::{de::Deserializer, Deserialize, Serialize};
+use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
@@ -291,7 +291,7 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-#[derive(Debug, Serialize)]
+#[derive(Debug)]
 pub struct IntegerConverter {
     numcfg: NumReprCfg,
     is_signed: bool,
@@ -300,10 +300,19 @@ pub struct IntegerConverter {
     decimal_point_length: usize,
     decimal_number_point_length_i32: i32,
     parsing_length: usize,
-    #[serde(skip)]
     parser: fn(&[u8], usize, usize) -> u64,
 }
 
+/// Everything else is derived from NumReprCfg, which is also what Deserialize reads
+impl Serialize for IntegerConverter {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        self.numcfg.serialize(serializer)
+    }
+}
+
 impl<'de> Deserialize<'de> for IntegerConverter {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
-- 
2.43.0


From 01acaa0990aaea5cd2953131c9a80a2b75fae785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 08/60] fix: derivative trade price was decoded without its
 sign and decimal point

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 101d1aeeccba65f1aeab6aa473ada422b339be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 09/60] fix: reporting a malformed payload panicked on short or
 non-UTF-8 payloads

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..441ef07 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(size_checker - 1)]),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(size_checker - 1)]),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(self.get_payload_length() - 1)]),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(self.get_payload_length() - 1)]),
             );
             return Err(err());
         }
-- 
2.43.0


From 7a400d39e7654d707acac153dad70d9262676104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 10/60] fix: parsing into a reused buffer kept the level cut
 and LP holdings of the previous message

---
 trading-engine/src/data/krx/derivative_quote.rs | 4 ++++
 trading-engine/src/data/krx/derivative_trade.rs | 4 ++++
 trading-engine/src/data/krx/stock_quote.rs      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..641a2fe 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -205,6 +205,8 @@ impl IFMSRPD0034 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -452,6 +454,8 @@ impl IFMSRPD0035 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
 
         
         let order_counter = get_krx_base_order_counter();
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..bb90514 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -277,6 +277,8 @@ impl IFMSRPD0037 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
 
         let timestamp_converter = get_krx_timestamp_converter();
         let order_counter = get_krx_base_order_counter();
@@ -616,6 +618,8 @@ impl IFMSRPD0038 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..8aff9da 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -217,6 +217,8 @@ impl IFMSRPD0002 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -454,6 +456,8 @@ impl IFMSRPD0003 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
-- 
2.43.0


From a92976cfd8cb0791edace1649c8438be51ad15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 11/60] fix: decoding exactly sixteen digits with the
 32-character parser overflowed a shift

---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f6aaeef..7924bf4 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -287,6 +287,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 { // nothing is left for the lower part
+        return parse_under16(u, 16);
+    }
     let (upper, lower) = u.split_at(16);
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
-- 
2.43.0


From 0a7e3e31f56a12abaafff6ac923052f1b19d0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 12/60] fix: the 0038 buffer form did not set the converters of
 the message

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index bb90514..175e8c4 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -624,6 +624,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From cd43f591603d0ede462f27644c509d67778bf75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 13/60] fix: weighted average and sum aged their value since
 construction instead of since the last update

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 390d9fc28e87adc9eece411bec7739dde4311cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 14/60] fix: updating the last trade price kept the converter
 of the previous trade

---
 trading-engine/src/feature/tick.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..aab8be8 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -52,6 +52,7 @@ impl TradePrice {
     pub fn update_trade_data(&mut self, data: &TradeData) {
         self.value = data.to_normalized_real();
         self.timestamp = data.timestamp;
+        self.converter = &data.order_converter.price;
     }
 }
 
-- 
2.43.0


From 3d130a52772883f1958752a04f0fc8fc6f5acc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 15/60] fix: the first update of quotes created with a capacity
 indexed empty vectors

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index aab8be8..327bf33 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -92,8 +92,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From 198140edc2555c0ef36d02a2493ab027df0a5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 16/60] fix: updating quotes kept the system time of their
 creation

---
 trading-engine/src/feature/tick.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 327bf33..37b05ce 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -238,6 +238,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
@@ -272,6 +273,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
-- 
2.43.0


From ab3fa762db175fa21e99ef6e8cf4df05d106768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 17/60] fix: the log order-flow imbalance was infinite when a
 level's quantity was zero

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 37b05ce..5d697b6 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -411,7 +411,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if current_ask.quantity > 0.0 && previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -422,7 +422,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 && current_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -492,7 +492,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if previous_bid.quantity > 0.0 && current_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -502,7 +502,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if current_bid.quantity > 0.0 && previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From 86ed1de1cbceed2949a02dc2d918980e7d16e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 18/60] fix: the text of a ticker included its zero padding

---
 trading-engine/src/types/id/ticker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..06a917e 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -36,8 +36,10 @@ impl Ticker {
     }
 
     pub fn as_str(&self) -> &str {
+        // the unused part (right side) is filled with zeros
+        let len = self.ticker.iter().rposition(|&c| c != 0).map_or(0, |pos| pos + 1);
         // This is safe because we know Tickers are always valid UTF-8
-        unsafe { from_utf8_unchecked(self.ticker.as_ref()) }
+        unsafe { from_utf8_unchecked(&self.ticker[..len]) }
     }
 }
 
-- 
2.43.0


From 90e94802aa3c1744cb35e6af802ecf47c43e665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 19/60] fix: tickers accepted bytes that are not text and
 handed them out as a string

---
 trading-engine/src/types/id/ticker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 06a917e..13c01d5 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -30,6 +30,7 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        from_utf8(bytes).map_err(|e| anyhow!("Ticker(={:?}) is not valid UTF-8: {}", bytes, e))?;
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0


From 8fa78fdc314a173dfc18e471e6b39ed90ab574e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 20/60] fix: a default spin queue handed out and freed a null
 pointer

---
 trading-engine/src/spinqueue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..c61d9b2 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -64,7 +64,7 @@ where T: Clone + Debug + Default
 {
     fn default() -> Self {
         DataSpinQueue {
-            data_buffer: AtomicPtr::default(),
+            data_buffer: AtomicPtr::new(Box::into_raw(Box::default())),
             worker_status: WorkerStatus::new(0),
             full_status: 0,
             //workers: Vec::new(),
-- 
2.43.0


From 161c4bfd663642746fca0f28008df3f5db313bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 21/60] fix: bounded counters ending at the top of their type
 started over at zero

---
 trading-engine/src/utils/counter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/utils/counter.rs b/trading-engine/src/utils/counter.rs
index 9ee7d5b..c0885e9 100644
--- a/trading-engine/src/utils/counter.rs
+++ b/trading-engine/src/utils/counter.rs
@@ -19,7 +19,7 @@ impl CounterUsize {
 
     pub fn next(&self) -> Result<usize> {
         let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
+        if res < self.start || res > self.end {
             let lazy_error = || {
                 anyhow!(
                     "CounterUsize: counter overflow, start: {}, end: {}",
@@ -52,7 +52,7 @@ impl CounterU64 {
 
     pub fn next(&self) -> Result<u64> {
         let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
+        if res < self.start || res > self.end {
             let lazy_error = || {
                 anyhow!(
                     "CounterU64: counter overflow, start: {}, end: {}",
-- 
2.43.0


From e9585b672b90e03bb0d48a93e95c7fddaff05db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 22/60] fix: the struct form of the log macros referred to a
 level variable that does not exist

---
 trading-engine/src/logger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 285b582..e866636 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -336,7 +336,7 @@ macro_rules! log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
@@ -436,7 +436,7 @@ macro_rules! flushing_log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
-- 
2.43.0


From 0593fe79b1ce89c3d427435e20f1cfd8397b6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 23/60] fix: logging after the logger was shut down panicked

---
 trading-engine/src/logger.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index e866636..d0f0c2d 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -330,7 +330,7 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -358,7 +358,7 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
@@ -430,7 +430,7 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -458,7 +458,7 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
-- 
2.43.0


From b27d2d6dfa05e8b2c645b0abd72dad0f61ed2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 24/60] fix: a flushing log message stayed in the writer's
 buffer

---
 trading-engine/src/logger.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index d0f0c2d..1befad3 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -68,6 +68,7 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     if let Some(ref mut writer) = writer {
                         let output = message_queue.join("");
                         writer.write_all(output.as_bytes()).unwrap();
+                        writer.flush().unwrap();
                         if CONSOLE_REPORT.load(Ordering::Relaxed) {
                             println!("{}", output);
                         }
-- 
2.43.0


From cc5decfba575f830fc1c24a24dde2420954b7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 25/60] fix: UDP responses longer than 1024 bytes were cut off

---
 trading-engine/src/communication/udp_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/communication/udp_client.rs b/trading-engine/src/communication/udp_client.rs
index 6774b8f..3168987 100644
--- a/trading-engine/src/communication/udp_client.rs
+++ b/trading-engine/src/communication/udp_client.rs
@@ -28,7 +28,7 @@ impl UdpClient {
     }
 
     pub fn receive_response(&self) -> std::io::Result<String> {
-        let mut buffer = [0; 1024];
+        let mut buffer = [0; 65_535]; // the largest datagram
         let (bytes_read, _) = self.socket.recv_from(&mut buffer)?;
         let response = String::from_utf8_lossy(&buffer[..bytes_read]).to_string();
         Ok(response)
-- 
2.43.0


From 31ce8dfb28b39ce4408efa5ee8ac74e00e24120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 26/60] fix: Western and Orthodox Good Friday were taken from
 each other's Easter table

---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From d1e2fcc089c51a6e6b850a3d627d4e44c13af5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 27/60] fix: sub_period landed a year late when the months
 reach back past the previous year

---
 quantlib/src/utils/string_arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..8ed18a0 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -195,7 +195,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
                 let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From 7e458f2025f3af992071713a292ff060662e9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 28/60] fix: add_period/sub_period dropped hours, minutes and
 seconds written before years or months

---
 quantlib/src/utils/string_arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 8ed18a0..272b88f 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From b4b388febe79ddfd5eb656440ca8a2ba88ecf64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 29/60] fix: 30/360 street convention counted a month too
 little from a 31st to a 31st

---
 quantlib/src/time/calendar_trait.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..1ad94cd 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -236,12 +236,8 @@ pub trait CalendarTrait {
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                if day_from == 31 && day_upto != 31 {
+                    days += 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From 4b6315be0a533cd3254b626ca7b9b85c356e7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 30/60] fix: a schedule of a single period ended and paid
 beyond maturity

---
 quantlib/src/instruments/schedule.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..3d3f855 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -166,13 +166,19 @@ pub fn build_schedule(
     for i in 0..schedule_length {
         if i == 0 {
             calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            if schedule_length == 1 {
+                // the only period is also the last one
+                calc_end_date = *maturity;
+                payment_date = *maturity;
+            } else {
+                calc_end_date = calc_start_date_vec[i + 1];
+                payment_date =
+                    calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            }
         } else if i == schedule_length - 1 {
             calc_start_date = calc_start_date_vec[i];
             calc_end_date = *maturity;
-- 
2.43.0


From 951e52017a98fce497fe51807c44806f0fc049db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 31/60] fix: interpolators refused their own last knot when
 extrapolation is off

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 4 +++-
 quantlib/src/math/interpolators/linear_interpolator.rs   | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..d2f659e 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -165,7 +165,9 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
-        } else if t >= self.t_domain[n - 1] {
+        } else if t == self.t_domain[n - 1] {
+            self.x_interpolator[n - 1].interpolate(x)
+        } else if t > self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
                     ExtraPolationType::Flat => Ok(self.x_interpolator[n - 1].interpolate(x)?),
diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..98ee2b8 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -92,7 +92,10 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                 ));
             }
         }
-        if x >= self.domain[n - 1] {
+        if x == self.domain[n - 1] {
+            return Ok(self.value[n - 1]);
+        }
+        if x > self.domain[n - 1] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
                     return Ok(self.value[n - 1]);
@@ -154,7 +157,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                         x[i]
                     ));
                 }
-            } else if x[i] >= self.domain[domain_n - 1] {
+            } else if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
+            } else if x[i] > self.domain[domain_n - 1] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
                         result[i] = self.value[domain_n - 1];
-- 
2.43.0


From 78f9333bcbbec9a6ec1ee83beca83af201bca101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 32/60] fix: vectorised step-wise interpolation ignored the
 configured extrapolation values

---
 .../src/math/interpolators/stepwise_interpolatior.rs     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..9de2f27 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,14 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound {
+                    self.left_extrapolation_value.unwrap_or(self.value[0])
+                } else if x[i] > right_bound {
+                    self.right_extrapolation_value
+                        .unwrap_or(self.value[self.domain.len() - 1])
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From 7561c82e8b0b34a52ef6edbe63a649a6699aefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 33/60] fix: a bilinear interpolator from rectangle data
 accepted unsorted times

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index d2f659e..b3c5822 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -108,6 +108,14 @@ impl BilinearInterpolator {
                 values
             ));
         }
+        if !is_ndarray_sorted(&t_domain) {
+            return Err(anyhow!(
+                "({}:{}) t_domain must be sorted: \n{:?}",
+                file!(),
+                line!(),
+                &t_domain
+            ));
+        }
         let mut x_interpolator: Vec<LinearInterpolator1D> = Vec::new();
         for i in 0..n {
             /*
-- 
2.43.0


From 32face9235bfad94080f340570e72407975d4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 34/60] fix: the time difference to a date in an earlier year
 was zero

---
 quantlib/src/time/calendar_trait.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 1ad94cd..3747d8b 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -288,6 +288,10 @@ pub trait CalendarTrait {
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
+        if start_date > end_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
+
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
         let end_year = end_date.year();
-- 
2.43.0


From bea668dbcce8e11183a04bbcaf8e669060da4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 35/60] fix: the forward rate over an empty interval was
 infinite

---
 quantlib/src/parameters/zero_curve.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..fab39f0 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,19 +334,10 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
+                // an empty interval has the forward rate of the day that follows
+                let t2 = if t2 - t1 > 1e-6 { t2 } else { t1 + 0.002737 };
                 let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
-                };
+                let disc = self.get_discount_factor_between_times(t1, t2)?;
 
                 match compounding {
                     Compounding::Simple => Ok((1.0 - disc) / tau),
-- 
2.43.0


From e5df5307cd2b743f5afe03fc7e147377c4687f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 36/60] fix: dividends panicked once the evaluation date was
 past the last of them

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..be8ab1b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -87,13 +87,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = date_integers.to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
@@ -251,13 +249,11 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
 
         let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
+        while i < ex_dividend_dates_for_interpolator.len() {
+            if ex_dividend_dates_for_interpolator[i] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
             } else {
                 i += 1;
             }
-- 
2.43.0


From c59bfa31eae521c5950dd345f1a1ec4fa0529208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 37/60] fix: a dividend exactly at the evaluation date was
 deducted from the price and again from the forward

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index be8ab1b..fade41d 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -88,7 +88,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
@@ -250,7 +250,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         while i < ex_dividend_dates_for_interpolator.len() {
-            if ex_dividend_dates_for_interpolator[i] < eval_dt {
+            if ex_dividend_dates_for_interpolator[i] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-- 
2.43.0


From 815c10b5900dbf3166a44daaf29d2f4825848032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 38/60] fix: bumping dividends brought past dividends back into
 the deduction ratio

---
 .../src/parameters/discrete_ratio_dividend.rs | 27 ++-----------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index fade41d..f10576b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -214,31 +214,8 @@ impl DiscreteRatioDividend {
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
         // update self.dividend_yields and remake a incremental_deduction_ratio
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
-        Ok(())
+        let evaluation_date = self.evaluation_date.borrow().clone();
+        self.update_evaluation_date(&evaluation_date)
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-- 
2.43.0


From e420527b1b5030f9c53fb24d0ea78d7dd10eb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 39/60] fix: floating coupons of a swap were computed on a unit
 notional once the effective date had passed

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From 61bd2f02d079651877b0f3502266d2a4c19b8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 40/60] fix: an interest rate swap in two currencies was
 accepted when built from conventions

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..1947a47 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From 0e6518233ff14669058bc76b3821474b84969e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 41/60] fix: a bond built from conventions could have no coupon
 kind at all, or two

---
 quantlib/src/instruments/bond.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 525127d..30a87f8 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -175,6 +175,18 @@ impl Bond {
         name: String,
         code: String,
     ) -> Result<Bond> {
+        // exactly one of fixed_coupon_rate and rate_index must be given, as in Bond::new
+        if fixed_coupon_rate.is_some() == rate_index.is_some() {
+            return Err(anyhow!(
+                "{}:{} name = {}, code = {}\n\
+                Exactly one of fixed_coupon_rate and rate_index must be given",
+                file!(),
+                line!(),
+                &name,
+                &code
+            ));
+        }
+
         let schedule = build_schedule(
             forward_generation,
             &effective_date,
-- 
2.43.0


From 862a3b60d1a1405a21032cc9e95f1ac62d557bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 42/60] fix: quanto options paid off on the unadjusted forward

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..5d391d3 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -95,6 +95,9 @@ impl PricerTrait for OptionAnalyticPricer {
 
         let dsc = self.discount_curve.borrow().get_discount_factor(t)?;
 
+        // the forward under the measure of the option currency
+        let fwd = fwd * (-quanto_adjustment).exp();
+
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
-- 
2.43.0


From b57c0a32a9461f59f39d90b3ada0d7d97ca61085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 43/60] fix: the price of an at-the-money option without
 volatility or time left was not a number

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 5d391d3..d474d83 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -98,6 +98,14 @@ impl PricerTrait for OptionAnalyticPricer {
         // the forward under the measure of the option currency
         let fwd = fwd * (-quanto_adjustment).exp();
 
+        if total_deviation <= 0.0 {
+            // nothing uncertain is left (d1 is 0/0 at the money)
+            return match option_type {
+                OptionType::Call => Ok(dsc * (fwd - strike).max(0.0)),
+                OptionType::Put => Ok(dsc * (strike - fwd).max(0.0)),
+            };
+        }
+
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
-- 
2.43.0


From 418ae31a6d86d01b10ead10556d6df72bd851c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 44/60] fix: of two coupons paid at the same time only one was
 expected

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From aee85e6e27250ff303f35302a4afe6f41ff19ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 45/60] fix: the bond yield was not found, or far off, for a
 fifth of bonds and first guesses

---
 .../src/pricing_engines/krx_yield_pricer.rs   | 97 ++++++++-----------
 1 file changed, 43 insertions(+), 54 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 127e53d..afc8610 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -8,9 +8,6 @@ use crate::pricing_engines::pricer::PricerTrait;
 use crate::time::{calendar_trait::CalendarTrait, conventions::DayCountConvention};
 //
 use anyhow::{anyhow, Context, Result};
-use argmin::core::{CostFunction, Error, Executor, Gradient};
-use argmin::solver::gradientdescent::SteepestDescent;
-use argmin::solver::linesearch::MoreThuenteLineSearch;
 use std::{cell::RefCell, rc::Rc};
 
 /// 금융투자회사의 영업 및 업무에 관한 규정 별표 14
@@ -48,61 +45,53 @@ impl KrxYieldPricer {
         self.bond_yield = bond_yield;
     }
 
+    /// The yield at which the bond is worth npv. The price falls as the yield rises,
+    /// so the yield is bracketed around the initial guess and bisected.
     pub fn find_bond_yield(&self, bond: Bond, npv: Real, init_guess: Option<Real>) -> Result<Real> {
-        let pricer = self.clone();
-        let problem = KrxYieldPricerCostFunction::new(bond, npv, pricer);
-        let linesearch = MoreThuenteLineSearch::new();
-
-        let solver = SteepestDescent::new(linesearch);
-        let init_param = init_guess.unwrap_or(0.02);
-        let executor = Executor::new(problem, solver)
-            .configure(|state| state.param(init_param).max_iters(30).target_cost(1.0e-9));
-
-        let res = executor.run()?;
-        match res.state.best_param {
-            Some(param) => Ok(param),
-            None => Err(anyhow!("Failed to find bond yield")),
+        let mut pricer = self.clone();
+        let inst = Instrument::Bond(bond);
+        let not_found = || anyhow!("Failed to find bond yield for npv {}", npv);
+        let mut excess = |bond_yield: Real| -> Result<Real> {
+            pricer.set_bond_yield(bond_yield);
+            let diff = pricer.npv(&inst)? - npv;
+            match diff.is_nan() {
+                true => Err(not_found()),
+                false => Ok(diff),
+            }
+        };
+
+        let mut low = init_guess.unwrap_or(0.02);
+        let mut high = low;
+        let mut step: Real = 0.01;
+        while excess(low)? < 0.0 {
+            high = low;
+            low -= step;
+            step *= 2.0;
+            if low <= -1.0 {
+                return Err(not_found());
+            }
         }
-    }
-}
-
-pub struct KrxYieldPricerCostFunction {
-    bond: Instrument,
-    npv: Real,
-    pricer: RefCell<KrxYieldPricer>,
-}
-
-impl KrxYieldPricerCostFunction {
-    pub fn new(bond: Bond, npv: Real, pricer: KrxYieldPricer) -> KrxYieldPricerCostFunction {
-        KrxYieldPricerCostFunction {
-            bond: Instrument::Bond(bond),
-            npv,
-            pricer: RefCell::new(pricer),
+        step = 0.01;
+        while excess(high)? > 0.0 {
+            low = high;
+            high += step;
+            step *= 2.0;
+            if high > 1000.0 {
+                return Err(not_found());
+            }
         }
-    }
-}
-
-impl CostFunction for KrxYieldPricerCostFunction {
-    type Param = Real;
-    type Output = Real;
-
-    fn cost(&self, param: &Self::Param) -> Result<Self::Output, Error> {
-        {
-            self.pricer.borrow_mut().set_bond_yield(*param);
+        for _ in 0..60 {
+            let mid = 0.5 * (low + high);
+            if mid <= low || mid >= high {
+                break;
+            }
+            if excess(mid)? > 0.0 {
+                low = mid;
+            } else {
+                high = mid;
+            }
         }
-        let npv = self.pricer.borrow().npv(&self.bond)?;
-        Ok((npv - self.npv).powf(2.0))
-    }
-}
-
-impl Gradient for KrxYieldPricerCostFunction {
-    type Param = Real;
-    type Gradient = Real;
-
-    fn gradient(&self, param: &Self::Param) -> Result<Self::Gradient, Error> {
-        let h = 5.0e-5;
-        let grad = (self.cost(&(param + h))? - self.cost(&(param - h))?) / (2.0 * h);
-        Ok(grad)
+        Ok(0.5 * (low + high))
     }
 }
 
-- 
2.43.0


From ec23e0b70a2e283eee9614611f483689b688413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 46/60] fix: the yield price of a bond with nothing left to pay
 was not a number

---
 quantlib/src/pricing_engines/krx_yield_pricer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index afc8610..ef3004e 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -106,7 +106,6 @@ impl PricerTrait for KrxYieldPricer {
         let cal = bond.get_calendar()?;
         let mut diff: Real;
         let daycounter = self.daycount;
-        let maturity = bond.get_maturity().unwrap();
 
         let cashflow = bond
             .get_cashflows(
@@ -125,11 +124,14 @@ impl PricerTrait for KrxYieldPricer {
             })?;
 
         // get minimum date after the pricing date (the key of cashflow)
-        let min_cashflow_date = cashflow
+        let min_cashflow_date = match cashflow
             .keys()
             .filter(|&date| date.date() > pricing_date.date())
             .min()
-            .unwrap_or(maturity);
+        {
+            Some(date) => date,
+            None => return Ok(0.0), // nothing is left to be paid
+        };
 
         if !cashflow.is_empty() {
             for (date, amount) in cashflow.iter() {
-- 
2.43.0


From cfa97ae439b656278da9f48b695ab5b784af8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 47/60] fix: a cash position gave its name as its code

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From a3aaa43e119dab26e0e241b44fdfdf4a9425fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 48/60] fix: a stored currency pair, and every instrument
 holding one, could not be read back

---
 quantlib/src/currency.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..e5971b8 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::de::{Error, IntoDeserializer};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +174,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +190,22 @@ impl Serialize for FxCode {
     }
 }
 
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let s = String::deserialize(deserializer)?;
+        let (currency1, currency2) = s
+            .split_once('_')
+            .ok_or_else(|| D::Error::custom(format!("{} is not a pair of currencies", s)))?;
+        Ok(FxCode {
+            currency1: Currency::deserialize(currency1.into_deserializer())?,
+            currency2: Currency::deserialize(currency2.into_deserializer())?,
+        })
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From 757a97e8b7fcc19943d2d4f9aaae40dad4bf00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:18 +0000
Subject: [PATCH 49/60] fix: reading a currency pair from a text that is not
 one ended the program

---
 quantlib/src/currency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index e5971b8..71e028c 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -245,8 +245,8 @@ impl Default for FxCode {
 }
 impl From<&str> for FxCode {
     fn from(code: &str) -> FxCode {
-        let currency1 = Currency::from(&code[0..3]);
-        let currency2 = Currency::from(&code[3..6]);
+        let currency1 = Currency::from(code.get(0..3).unwrap_or_default());
+        let currency2 = Currency::from(code.get(3..6).unwrap_or_default());
 
         FxCode {
             currency1,
-- 
2.43.0


From 6a91db1db28c9df6895480bad4a0004554d35e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 50/60] fix: the currency of a swap's floating leg was left out
 of the currencies in use

---
 quantlib/src/instrument.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..13a08f3 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -346,8 +346,8 @@ impl Instruments {
                 currencies.push(currency);
             }
 
-            match instrument.get_type_name() {
-                "Futures" | "FxFutures" => {
+            match instrument.as_ref() {
+                Instrument::Futures(_) | Instrument::FxFutures(_) => {
                     let currency = instrument.get_underlying_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_underlying_currency failed for {} ({})",
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                Instrument::PlainSwap(_) => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From f00e7cf57ae51bbf87a406cffdbcb081015ba3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 51/60] fix: an instrument was listed several times among those
 using a curve

---
 quantlib/src/instrument.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 13a08f3..38849d0 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -435,27 +435,17 @@ impl Instruments {
             if exclude_type.contains(&instrument.get_type_name()) {
                 continue;
             }
-            // 1)
-            if match_parameter.get_discount_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
-            // 2)
-            if match_parameter
-                .get_collateral_curve_names(instrument)?
-                .contains(&curve_name)
-            {
-                res.push(instrument.clone());
-            }
-            // 3) forward curve
-            if match_parameter.get_rate_index_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            // each instrument appears once even if it uses the curve in several roles
             // 4) crs curve
-            if match_parameter.get_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
             // 5) floating crs curve
-            if match_parameter.get_floating_crs_curve_name(instrument)? == curve_name {
+            if match_parameter.get_discount_curve_name(instrument)? == curve_name
+                || match_parameter
+                    .get_collateral_curve_names(instrument)?
+                    .contains(&curve_name)
+                || match_parameter.get_rate_index_curve_name(instrument)? == curve_name
+                || match_parameter.get_crs_curve_name(instrument)? == curve_name
+                || match_parameter.get_floating_crs_curve_name(instrument)? == curve_name
+            {
                 res.push(instrument.clone());
             }
         }
-- 
2.43.0


From 543b6f84c2b821bc411a258c443b02e40061032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 52/60] fix: an interest rate swap could not be priced by the
 engine

---
 quantlib/src/pricing_engines/pricer_factory.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 5bd8205..f1474e6 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -2,6 +2,7 @@ use crate::currency::FxCode;
 use crate::enums::VanillaOptionCalculationMethod;
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
+use crate::instruments::plain_swap::PlainSwapType;
 use crate::parameters::{market_price::MarketPrice, past_price::DailyClosePrice};
 use crate::parameters::{
     quanto::Quanto, rate_index::RateIndex, volatility::Volatility, zero_curve::ZeroCurve,
@@ -350,16 +351,24 @@ impl PricerFactory {
     }
 
     fn get_plain_swap_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
-        let fixed_leg_discount_curve_name = self.match_parameter.get_crs_curve_name(instrument)?;
+        // IRS (or OIS) has no crs curve, both legs are discounted by the rate index forward curve
+        let is_irs = instrument.get_specific_plain_swap_type()? == PlainSwapType::IRS;
+        let fixed_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self.match_parameter.get_crs_curve_name(instrument)?,
+        };
         let fixed_leg_discount_curve = self.zero_curves.get(fixed_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get fixed leg discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), fixed_leg_discount_curve_name,
             ))?.clone();
 
-        let floating_leg_discount_curve_name = self
-            .match_parameter
-            .get_floating_crs_curve_name(instrument)?;
+        let floating_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self
+                .match_parameter
+                .get_floating_crs_curve_name(instrument)?,
+        };
         let floating_leg_discount_curve = self.zero_curves.get(floating_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get floating leg discount curve of {}.\nself.zero_curves does not have {}",
-- 
2.43.0


From 4fb996c12137a5aedb4b64a74b5f4bcd46c19dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 53/60] fix: the engine failed when asked to calculate again

---
 quantlib/src/pricing_engines/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..e225065 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1963,6 +1963,8 @@ impl Engine {
         let mut timer = std::time::Instant::now();
         let start_time = std::time::Instant::now();
 
+        self.reset_instruments_in_action();
+
         if !self.instruments_in_action.is_empty() {
             warn!(
                 "* no instruments to calculate in engine-{}\n",
-- 
2.43.0


From 2e8d0caa29df73d8169cccec3b99f5fe9952cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 54/60] fix: the dividend sensitivity of an underlying without
 dividends ended the program

---
 quantlib/src/pricing_engines/engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e225065..fb516e7 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1541,6 +1541,10 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // an underlying without dividends has no dividend sensitivity
+            if !self.dividends.contains_key(div_code) {
+                continue;
+            }
             // bump dividend but limit the scope that is mutably borrowed
             {
                 self.dividends
-- 
2.43.0


From 2fcf7889073e3827f285c93cae8ccf5d99385d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 55/60] fix: the vega matrix left the volatilities of long
 tenors lowered

---
 quantlib/src/pricing_engines/engine.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index fb516e7..d101426 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1433,6 +1433,19 @@ impl Engine {
                 let bump_tenor_end = Some(calc_times[i]);
                 if let Some(start) = bump_tenor_start {
                     if longest_mat_time < start {
+                        // no npv depends on this tenor, but it is put back with the others
+                        (*self.volatilities.get(und_code).ok_or_else(|| {
+                            anyhow!(
+                                "({}:{}) volatility {} is not set\ntag:\n{}",
+                                file!(),
+                                line!(),
+                                und_code,
+                                self.msg_tag
+                            )
+                        })?)
+                        .as_ref()
+                        .borrow_mut()
+                        .bump_volatility(bump_tenor_start, bump_tenor_end, None, None, bump_val)?;
                         continue;
                     }
                 }
-- 
2.43.0


From b78945c3c1cd0446d046fe445caaa75ffb3067c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 56/60] fix: the vega matrix of one underlying was also
 reported under the next

---
 quantlib/src/pricing_engines/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index d101426..a14fa83 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1396,6 +1396,7 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            single_vega_matrix.clear();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From ba793bbf39555a26da4b2aeeadcadc685d6369f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 57/60] fix: the vega matrix ignored the bump set for it

---
 quantlib/src/pricing_engines/calculation_configuration.rs | 4 ++++
 quantlib/src/pricing_engines/engine.rs                    | 4 +---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/calculation_configuration.rs b/quantlib/src/pricing_engines/calculation_configuration.rs
index a9395c5..36d6787 100644
--- a/quantlib/src/pricing_engines/calculation_configuration.rs
+++ b/quantlib/src/pricing_engines/calculation_configuration.rs
@@ -425,6 +425,10 @@ impl CalculationConfiguration {
         self.gamma_bump_ratio
     }
 
+    pub fn get_vega_matrix_bump_value(&self) -> Real {
+        self.vega_matrix_bump_value
+    }
+
     pub fn get_vega_bump_value(&self) -> Real {
         self.vega_bump_value
     }
diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index a14fa83..084a30b 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1351,9 +1351,7 @@ impl Engine {
     pub fn set_vega_matrix(&mut self) -> Result<()> {
         let all_underlying_codes = self.instruments.get_all_underlying_codes();
         let eval_dt = self.evaluation_date.borrow().get_date_clone();
-        let bump_val = self
-            .calculation_configuration
-            .get_vega_structure_bump_value();
+        let bump_val = self.calculation_configuration.get_vega_matrix_bump_value();
         let calc_tenors = self.calculation_configuration.get_vega_structure_tenors();
 
         let time_calculator = NullCalendar::default();
-- 
2.43.0


From 0e91ac2576cf74fccd534b2949be97f42cc71bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 58/60] fix: the rho structure left out the curve beyond the
 longest maturity

The last payments of an instrument may come after its maturity, and a curve is
interpolated between nodes on both sides of a payment, so the buckets past the
one with the last maturity are not zero. They were filled in or not depending
on which other instruments were priced in the same engine.
---
 quantlib/src/pricing_engines/engine.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 084a30b..7f3b721 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1824,16 +1824,6 @@ impl Engine {
                     .borrow_mut()
                     .bump_time_interval(bump_start, bump_end, -bump_val)?;
                 }
-
-                // if there is no instrument over the calc_tenors, we do not need to calculate the next bump
-                let inst_over_bump_end = self.instruments.instruments_with_maturity_over(
-                    Some(&self.instruments_in_action),
-                    &calc_dates[i],
-                    Some(exclude_type_clone.clone()),
-                );
-                if inst_over_bump_end.is_empty() {
-                    break;
-                }
             }
 
             for (inst_code, rho_structure) in single_rho_structure.iter() {
-- 
2.43.0


From 01fdcdebad93943a6f17540676aa7d02932238e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 59/60] fix: the borrowing curve named for an underlying was
 not the one loaded

MatchParameter maps an underlying to the name of its borrowing curve and the
pricers look for that name, but the engine loaded the curve under the name of
the underlying, so pricing failed unless the two names were the same.
---
 quantlib/src/pricing_engines/engine.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 7f3b721..ec01cb5 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -241,15 +241,24 @@ impl Engine {
         // borrowing curve parameter
         let all_underlying_codes = self.instruments.get_all_underlying_codes();
         for und_code in all_underlying_codes {
-            if curve_data.contains_key(und_code) {
-                let data = curve_data.get(und_code).unwrap();
+            // an underlying without an entry uses the curve of its own name
+            let curve_name = self
+                .match_parameter
+                .get_borrowing_curve_map()
+                .get(und_code)
+                .unwrap_or(und_code);
+            if zero_curves.contains_key(curve_name) {
+                continue;
+            }
+            if curve_data.contains_key(curve_name) {
+                let data = curve_data.get(curve_name).unwrap();
                 let zero_curve = Rc::new(RefCell::new(ZeroCurve::new(
                     self.evaluation_date.clone(),
                     data,
-                    und_code.clone(),
-                    und_code.clone(),
+                    curve_name.clone(),
+                    curve_name.clone(),
                 )?));
-                zero_curves.insert(und_code.clone(), zero_curve.clone());
+                zero_curves.insert(curve_name.clone(), zero_curve.clone());
             } else {
                 bail!(
                     "({}:{}) failed to get borrowing curve data for {}",
-- 
2.43.0


From 20637fe71a1b38b76900efa45b3483adcdd574c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:04 +0000
Subject: [PATCH 60/60] fix: clearing a level also clears its total quantity

---
 trading-engine/src/orderbook/level.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/orderbook/level.rs b/trading-engine/src/orderbook/level.rs
index 0661932..470bf81 100644
--- a/trading-engine/src/orderbook/level.rs
+++ b/trading-engine/src/orderbook/level.rs
@@ -116,6 +116,7 @@ impl Level {
     #[inline]
     pub fn clear(&mut self) {
         self.orders.clear();
+        self.total_quantity = 0;
     }
 
     /// Returns (all_traded_id, remaining quantity, total quantity remained in the level)
-- 
2.43.0

