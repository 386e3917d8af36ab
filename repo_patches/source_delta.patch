From e35ef88793c31996dbcac0b50d174edb81be0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 01/10] fix: variance of the sliding window is never negative

---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..82ac773 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // Note: Rounding errors can make the difference below slightly negative.
+  return std::max(0.0, (std::pow(current_value_, 2) + window_sum_2_) /
+                               window_size -
+                           std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 46eae6b78a4ae5b84ed5a497d58604e1feaacd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 02/10] fix: reversed time intervals select an empty history
 subset

---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From 011eac0c866dc40954fa31e42f907bfe0d3e06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 03/10] fix: no history gap is reported when none is requested

---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 0b6ddb9a264c9bc35f1a78a6cc2c5a14a50e54e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 04/10] fix: clip the right outlier context before adding it to
 the index

A right_context_size close to the maximum of size_t wrapped around, so that
the context to the right of an outlier was left out instead of being clipped
to the end of the history.
---
 base/history.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/history.cc b/base/history.cc
index 9747fe9..9912c29 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -132,7 +132,10 @@ std::map<size_t, bool> GetOutlierIndicesWithContext(
   for (size_t i = start_i; i < outlier_indices.size(); ++i) {
     const size_t j = outlier_indices[i];
     const size_t a = (j <= left_context_size) ? 0 : j - left_context_size;
-    const size_t b = std::min(j + right_context_size + 1, price_history_size);
+    // Clip right_context_size first so that the sum cannot wrap around.
+    const size_t b =
+        std::min(j + std::min(right_context_size, price_history_size) + 1,
+                 price_history_size);
     for (size_t k = a; k < b; ++k) {
       // Keep the existing outliers.
       index_to_outlier[k] |= false;
-- 
2.43.0


From 18ad79983dbc670de13b79dc38ba70473830afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 05/10] fix: limit order prices of the rebalancing trader
 depend on the base balance

The price at which the base share b*p/(b*p+q) reaches a band edge beta is
beta*q/(b*(1-beta)); the division by the base balance was missing, so the
limit orders were placed at the wrong price unless the base balance was 1.
---
 traders/rebalancing_trader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..aa140d4 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -41,7 +41,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
       const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+          (alpha * (1 + epsilon) * quote_balance) /
+          (base_balance * (1 - alpha * (1 + epsilon)));
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -52,8 +53,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
         sell_order.set_price(sell_price);
       }
     }
-    const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+    const float buy_price = (alpha * (1 - epsilon) * quote_balance) /
+                            (base_balance * (1 - alpha * (1 - epsilon)));
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
-- 
2.43.0


From 80c41d881c5ae9d4bbb99cc53bc7904fb71df11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 06/10] fix: evaluation without periods terminates when the
 interval has no ticks

With evaluation_period_months <= 0 the whole interval is evaluated once, but
the loop over the month offsets only stopped after a non-empty interval (and
never for negative period lengths).
---
 eval/eval.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..9d31c74 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -164,6 +164,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
@@ -178,7 +181,7 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     period->set_final_gain(result.end_value() / result.start_value());
     assert(result.start_price() > 0 && result.end_price() > 0);
     period->set_base_final_gain(result.end_price() / result.start_price());
-    if (eval_config.evaluation_period_months() == 0) {
+    if (eval_config.evaluation_period_months() <= 0) {
       break;
     }
   }
-- 
2.43.0


From bc83e5cca7a98786b33c716d641ad06a888ff427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 07/10] fix: corrupt compressed input is not read as the end of
 the messages

ParseDelimitedFromZeroCopyStream reports a clean end of file both at the end
of the compressed data and when the decompression fails between two messages
(or the underlying stream fails), so that a corrupted file was read
successfully with the rest of its messages missing.
---
 util/proto.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..407aeb4 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -45,7 +45,12 @@ absl::Status ReadDelimitedMessagesFromIStream(
     bool parsed = google::protobuf::util::ParseDelimitedFromZeroCopyStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
-      if (clean_eof) {
+#ifdef HAVE_ZLIB
+      if (gzip_stream.ZlibErrorCode() != Z_STREAM_END) {
+        return absl::InvalidArgumentError("Cannot decompress the input stream");
+      }
+#endif
+      if (clean_eof && !stream.bad()) {
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From b183b5de9692e20d8e9c1a27731e0ffa7a929c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 08/10] fix: report a failed write of delimited messages

The messages are buffered and only written out when the streams are destroyed,
after the status was determined, so that a failed write (e.g. a full disk) was
reported as a success.
---
 util/proto.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/util/proto.h b/util/proto.h
index 407aeb4..3f060ae 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -105,12 +105,13 @@ absl::Status ReadDelimitedMessagesFromFile(const std::string& file_name,
       });
 }
 
-// Writes (and compresses) delimited messages to the output file.
+// Serializes (and compresses) delimited messages. The output may be incomplete
+// until the streams used by this method are destroyed.
 template <class InputIterator>
-absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
-                                             InputIterator last,
-                                             std::ostream& stream,
-                                             bool compress) {
+absl::Status SerializeDelimitedMessagesToOStream(InputIterator first,
+                                                 InputIterator last,
+                                                 std::ostream& stream,
+                                                 bool compress) {
   google::protobuf::io::OstreamOutputStream out_stream(&stream);
 #ifdef HAVE_ZLIB
   google::protobuf::io::GzipOutputStream::Options options;
@@ -133,6 +134,23 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
   return absl::OkStatus();
 }
 
+// Writes (and compresses) delimited messages to the output stream.
+template <class InputIterator>
+absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
+                                             InputIterator last,
+                                             std::ostream& stream,
+                                             bool compress) {
+  const absl::Status status =
+      SerializeDelimitedMessagesToOStream(first, last, stream, compress);
+  if (!status.ok()) {
+    return status;
+  }
+  if (!stream.flush()) {
+    return absl::DataLossError("Cannot write to the output stream");
+  }
+  return absl::OkStatus();
+}
+
 // Writes (and compresses) delimited messages to the output file.
 template <class InputIterator>
 absl::Status WriteDelimitedMessagesToFile(InputIterator first,
-- 
2.43.0


From ddc17d1e1738496ca55ffb2c8c3c14bdb2201a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 09/10] fix: reject CSV rows that cannot be parsed

A row that sscanf could not parse silently repeated (the rest of) the previous
record.
---
 convert.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..76f3d22 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,7 +81,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
+                    &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -137,8 +141,11 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close, &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
-- 
2.43.0


From 0aae2220a7f61c5daeb7d54b5cfe60ca5f81fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 10/10] fix: reject prices and volumes that are not numbers

A NaN price or volume passed the validation because all comparisons with it
are false.
---
 convert.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/convert.cc b/convert.cc
index 76f3d22..93fa48c 100644
--- a/convert.cc
+++ b/convert.cc
@@ -96,11 +96,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!(price > 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -156,12 +156,13 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
-        low > high || low > close || high < open || high < close) {
+    if (!(open > 0) || !(high > 0) || !(low > 0) || !(close > 0) ||
+        low > open || low > high || low > close || high < open ||
+        high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -296,10 +297,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!(price_record.price() > 0)) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!(price_record.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -314,8 +315,8 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
+        if (!(ohlc_tick.open() > 0) || !(ohlc_tick.high() > 0) ||
+            !(ohlc_tick.low() > 0) || !(ohlc_tick.close() > 0) ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
             ohlc_tick.low() > ohlc_tick.close() ||
@@ -323,7 +324,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!(ohlc_tick.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0

