From af0af0d8f4602c8aacba40e9370d952f7a0cb14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/30] fix: closed ChainedStream with no bytes visits no
 fragment

A stream closed before anything was written reported num_fragments() == 0
but still called back once, with the block's uninitialised size; consuming a
chain containing such a stream then skipped fragments.
---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..b8bccae 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (num_blocks_ == 0 || num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From 8fc94f1575395854d64019ace9eb68b0fb62298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 02/30] fix: count the header and metrics fragments of a report

BufferChain::num_fragments is what a transporter sizes its gather array
with, but ReportRequest counted only the fragments of the spans.
---
 src/recorder/serialization/report_request.cpp | 1 +
 src/recorder/serialization/report_request.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..43878c4 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -15,6 +15,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics_.reset(metrics);
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
+  ++num_fragments_;
   num_bytes_ += metrics_fragment_.second;
 }
 
diff --git a/src/recorder/serialization/report_request.h b/src/recorder/serialization/report_request.h
index 2bfc5dd..be78787 100644
--- a/src/recorder/serialization/report_request.h
+++ b/src/recorder/serialization/report_request.h
@@ -50,7 +50,7 @@ class ReportRequest final : public BufferChain {
 
   int num_bytes_{0};
   int num_spans_{0};
-  int num_fragments_{0};
+  int num_fragments_{1};  // the header
   std::unique_ptr<ChainedStream> spans_;
 };
 }  // namespace lightstep
-- 
2.43.0


From 16a659f08dbadc90363823b1298c8cd1c60c13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 03/30] fix: don't compare the padding of IPv4 addresses

An address copied from a sockaddr keeps its sin_zero bytes, so two equal
addresses could compare as different.
---
 src/network/ip_address.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network/ip_address.cpp b/src/network/ip_address.cpp
index b082373..0c5dda1 100644
--- a/src/network/ip_address.cpp
+++ b/src/network/ip_address.cpp
@@ -88,9 +88,11 @@ bool operator==(const IpAddress& lhs, const IpAddress& rhs) noexcept {
     return false;
   }
   if (lhs.family() == AF_INET) {
-    return std::memcmp(static_cast<const void*>(&lhs.ipv4_address()),
-                       static_cast<const void*>(&rhs.ipv4_address()),
-                       sizeof(lhs.ipv4_address())) == 0;
+    // Don't compare the padding: it's copied from whatever sockaddr the address
+    // was constructed from.
+    return lhs.ipv4_address().sin_port == rhs.ipv4_address().sin_port &&
+           lhs.ipv4_address().sin_addr.s_addr ==
+               rhs.ipv4_address().sin_addr.s_addr;
   }
   if (lhs.family() == AF_INET6) {
     return std::memcmp(static_cast<const void*>(&lhs.ipv6_address()),
-- 
2.43.0


From 0ac986801be6f734636f19b534b8e2af200c5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 04/30] fix: a report refused by a throwing legacy transporter
 is not in flight

---
 src/recorder/legacy_manual_recorder.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..d53d272 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -85,9 +85,15 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   return true;
 } catch (const std::exception& e) {
   logger_.Error("Failed to Flush: ", e.what());
-  options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
-  dropped_spans_ += saved_pending_spans_;
-  active_request_.Clear();
+  // If the transporter refused the report, it's no longer in flight. Account
+  // for it in the same way as for one that failed later.
+  if (IsReportInProgress()) {
+    ++flushed_seqno_;
+    active_request_.Clear();
+    options_.metrics_observer->OnSpansDropped(
+        static_cast<int>(saved_pending_spans_));
+    dropped_spans_ += saved_dropped_spans_ + saved_pending_spans_;
+  }
   return false;
 }
 
-- 
2.43.0


From 3dc9bd41eb2fe8e91bd19ff67329214aa0a7bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 05/30] fix: account for what a failing write already took from
 a connection stream

When a write fails after an earlier part of it succeeded, the partially
written span stayed in the shared span stream: it was lost without being
counted as dropped, or its tail was written on another connection, and a
remainder already completed was not counted as sent.
---
 src/recorder/stream_recorder/connection_stream.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..ab81ba2 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -71,7 +71,7 @@ void ConnectionStream::Shutdown() noexcept { shutting_down_ = true; }
 //--------------------------------------------------------------------------------------------------
 // Flush
 //--------------------------------------------------------------------------------------------------
-bool ConnectionStream::Flush(Writer writer) {
+bool ConnectionStream::Flush(Writer writer) try {
   if (shutting_down_) {
     return FlushShutdown(writer);
   }
@@ -87,6 +87,17 @@ bool ConnectionStream::Flush(Writer writer) {
     span_remnant_ = span_stream_.ConsumeRemnant();
   }
   return result;
+} catch (...) {
+  // The writer can have consumed data before it failed. Account for what was
+  // written and don't leave a partially written span to be picked up by another
+  // connection.
+  if (span_remnant_ == nullptr) {
+    span_remnant_ = span_stream_.ConsumeRemnant();
+  } else if (span_remnant_->empty()) {
+    span_stream_.metrics().OnSpansSent(1);
+    span_remnant_ = span_stream_.ConsumeRemnant();
+  }
+  throw;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3d3d67e56ea5a83ffa2c735202a1ebc6ef294e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 06/30] fix: refuse a status line without a three-digit status
 code

---
 src/recorder/stream_recorder/status_line_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/recorder/stream_recorder/status_line_parser.cpp b/src/recorder/stream_recorder/status_line_parser.cpp
index 42428d2..7dcf4e1 100644
--- a/src/recorder/stream_recorder/status_line_parser.cpp
+++ b/src/recorder/stream_recorder/status_line_parser.cpp
@@ -41,6 +41,12 @@ void StatusLineParser::ParseFields() try {
   if (status_code_last == line_.end()) {
     throw std::runtime_error{"Invalid http status line \"" + line_ + "\""};
   }
+  // A status code is exactly three digits.
+  auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+  if (std::distance(status_code_first, status_code_last) != 4 ||
+      !std::all_of(std::next(status_code_first), status_code_last, is_digit)) {
+    throw std::runtime_error{"Invalid http status line \"" + line_ + "\""};
+  }
   status_code_ =
       static_cast<int>(std::strtol(&*status_code_first, nullptr, 10));
   auto reason_first = std::next(status_code_last);
-- 
2.43.0


From 824860cf3a0620dd8c6e401e1587aa3378d2c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 07/30] fix: never reconnect a satellite connection that is
 shutting down

---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..d45f357 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -94,6 +94,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (is_shutting_down_) {
+    // A connection that is shutting down is never reestablished.
+    was_shutdown_ = true;
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
-- 
2.43.0


From db3be6045d3a2f9d07fb715e1f69ba91e6b9d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 08/30] fix: don't wait for a graceful close of a connection
 that failed while finishing

---
 src/recorder/stream_recorder/satellite_connection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index d45f357..b96cc2b 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -177,6 +177,10 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
+    if (socket_.file_descriptor() == InvalidSocket) {
+      // The flush failed and the failure was already handled.
+      return;
+    }
   }
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
-- 
2.43.0


From c7c0eb1b4e86ad7f0c7fb91496f98ec5aa7f3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 09/30] fix: account for what a destroyed satellite connection
 didn't write

---
 src/recorder/stream_recorder/connection_stream.cpp    | 10 +++++++++-
 src/recorder/stream_recorder/connection_stream.h      |  7 +++++++
 src/recorder/stream_recorder/satellite_connection.cpp |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index ab81ba2..0235a92 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -51,16 +51,24 @@ ConnectionStream::ConnectionStream(Fragment host_header_fragment,
 // Reset
 //--------------------------------------------------------------------------------------------------
 void ConnectionStream::Reset() {
+  Abandon();
+  InitializeStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// Abandon
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::Abandon() noexcept {
   if (!header_stream_.empty()) {
     // We weren't able to upload the metrics so add the counters back
     span_stream_.metrics().UnconsumeDroppedSpans(
         embedded_metrics_message_.num_dropped_spans());
+    header_stream_.Clear();
   }
   if (span_remnant_ != nullptr && !span_remnant_->empty()) {
     span_stream_.metrics().OnSpansDropped(1);
   }
   span_remnant_.reset();
-  InitializeStream();
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 4e80b4c..a3920cb 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -32,6 +32,13 @@ class ConnectionStream {
    */
   void Reset();
 
+  /**
+   * Account for anything that wasn't written when the stream won't be used
+   * anymore: metrics that weren't uploaded are added back and a partially
+   * written span is dropped.
+   */
+  void Abandon() noexcept;
+
   /**
    * Set the current streaming session to end.
    */
diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index b96cc2b..e14bbf4 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -43,6 +43,7 @@ SatelliteConnection::~SatelliteConnection() noexcept {
     connection_stream_.Shutdown();
     Flush();
   }
+  connection_stream_.Abandon();
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5c84a3293653604cf5b0331346224c60654496d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:31 +0000
Subject: [PATCH 10/30] fix: a shutdown of a streaming recorder after a fork
 waits for its new connections

Forking re-creates the recorder's connections, but after an earlier completed
shutdown the recorder still took itself to be inactive: a later shutdown
returned true at once, with connections open.
---
 src/recorder/stream_recorder/stream_recorder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..3aaf9bd 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -156,6 +156,11 @@ void StreamRecorder::PrepareForFork() noexcept {
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
 void StreamRecorder::OnForkedParent() noexcept {
+  {
+    // The connections are established anew, even after a shutdown.
+    std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
+    last_is_active_ = true;
+  }
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
@@ -170,6 +175,9 @@ void StreamRecorder::OnForkedChild() noexcept {
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
 
+  // The connections are established anew, even after a shutdown.
+  last_is_active_ = true;
+
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
-- 
2.43.0


From e321a31d69014e1c7475eccdace62af75e4d7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 11/30] fix: keep integers after an escaped control character
 decimal in JSON

---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From c2e4a588a1200c921f2c8b1cb98602bae30b2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 12/30] fix: write doubles to JSON with enough digits to read
 back the same value

---
 src/common/utility.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index a9c8039..edcc62c 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cmath>
 #include <iomanip>
+#include <limits>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -164,6 +165,7 @@ static void ToJson(std::ostringstream& writer,
 std::string ToJson(const opentracing::Value& value) {
   std::ostringstream writer;
   writer.exceptions(std::ios::badbit | std::ios::failbit);
+  writer.precision(std::numeric_limits<double>::max_digits10);
   ToJson(writer, value);
   return writer.str();
 }
-- 
2.43.0


From 9a0d24a2b702c07ddecec4d5ee6d04bb3a2dc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 13/30] fix: let a later SetBaggageItem replace a legacy span's
 value for the key

---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..e04fe17 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[std::move(lowercase_key)] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From 2d73699e9b3c659cac2025c1667ee22541a680a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 14/30] fix: append no comma for a reference without trace
 state

---
 src/tracer/utility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tracer/utility.cpp b/src/tracer/utility.cpp
index f0021d7..c9ad411 100644
--- a/src/tracer/utility.cpp
+++ b/src/tracer/utility.cpp
@@ -6,6 +6,9 @@ namespace lightstep {
 //--------------------------------------------------------------------------------------------------
 void AppendTraceState(std::string& trace_state,
                       opentracing::string_view key_values) {
+  if (key_values.empty()) {
+    return;
+  }
   if (trace_state.empty()) {
     trace_state.assign(key_values.data(), key_values.size());
     return;
-- 
2.43.0


From 2f201e98ad7256ebc914ae8262424f9bff5da182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 15/30] fix: refuse bytes above 0x7f in hexadecimal numbers
 instead of reading outside the digit table

---
 src/common/hex_conversion.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..f0ee2aa 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
@@ -56,12 +56,13 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
 static void RemoveSurroundingWhitespace(const char*& i,
                                         const char*& last) noexcept {
   // Remove any leading spaces
-  while (i != last && static_cast<bool>(std::isspace(*i))) {
+  while (i != last && static_cast<bool>(std::isspace(static_cast<unsigned char>(*i)))) {
     ++i;
   }
 
   // Remove any trailing spaces
-  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {
+  while (i != last && static_cast<bool>(
+                          std::isspace(static_cast<unsigned char>(*(last - 1))))) {
     --last;
   }
 }
-- 
2.43.0


From f91fa4a91dc6d31a4bd4153fa506bec5dca8d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 16/30] fix: refuse bytes above 0x7f in base64 instead of
 reading far outside the lookup table

---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From cd35c2243bbfeb367ffef1455011e2eacb9a666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 17/30] fix: two trace or two span identifiers do not make a
 complete context

---
 src/tracer/propagation/multiheader_propagator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index 12632e1..b2dc196 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -3,7 +3,6 @@
 #include "common/hex_conversion.h"
 #include "common/utility.h"
 
-const int FieldCount = 2;
 const opentracing::string_view FalseStr = "false";
 const opentracing::string_view OneStr = "1";
 const opentracing::string_view ZeroStr = "0";
@@ -117,7 +116,8 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
     uint64_t& trace_id_low, uint64_t& span_id, bool& sampled,
     BaggageProtobufMap& baggage, const KeyCompare& key_compare) const {
   sampled = true;
-  int count = 0;
+  int trace_id_count = 0;
+  int span_id_count = 0;
   auto result =
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
@@ -128,7 +128,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
               return opentracing::make_unexpected(
                   opentracing::span_context_corrupted_error);
             }
-            ++count;
+            ++trace_id_count;
           } else if (key_compare(key, span_id_key_)) {
             auto span_id_maybe = HexToUint64(value);
             if (!span_id_maybe) {
@@ -136,7 +136,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
                   opentracing::span_context_corrupted_error);
             }
             span_id = *span_id_maybe;
-            ++count;
+            ++span_id_count;
           } else if (key_compare(key, sampled_key_)) {
             sampled = !(value == FalseStr || value == ZeroStr);
           } else if (key.length() > baggage_prefix_.size() &&
@@ -159,10 +159,10 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
-  if (count == 0) {
+  if (trace_id_count == 0 && span_id_count == 0) {
     return false;
   }
-  if (count > 0 && count != FieldCount) {
+  if (trace_id_count != 1 || span_id_count != 1) {
     return opentracing::make_unexpected(
         opentracing::span_context_corrupted_error);
   }
-- 
2.43.0


From 5bb644c1bc7fcb6a8d5c3011aa5aa5d9e5a3b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 18/30] fix: refuse a cloud trace header whose span id is
 missing, cut or followed by something else

---
 src/tracer/propagation/cloud_trace_propagator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 1daecd6..2fd9b6c 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -126,6 +126,7 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
   offset += Num128BitHexDigits;
   if (s.size() - offset < 2) {
     // only a short form trace ID has been given (not a "trace id/span id")
+    trace_context.parent_id = 0;
     return {};
   }
 
@@ -146,6 +147,12 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
   }
   parent_id[i] = '\0';
 
+  // there must be a span ID, with nothing but options behind it
+  if (i == 0 || (offset != s.size() && s[offset] != ';')) {
+    return opentracing::make_unexpected(
+        std::make_error_code(std::errc::invalid_argument));
+  }
+
   // parent-id
   errno = 0;
   trace_context.parent_id = std::strtoull(parent_id.data(), nullptr, 10);
-- 
2.43.0


From b9b8645ad8ccaa3b0c1c10c57d9897e49732e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 19/30] fix: a binary carrier without a context is corrupt, not
 a context of zeros

---
 src/tracer/propagation/binary_propagation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracer/propagation/binary_propagation.cpp b/src/tracer/propagation/binary_propagation.cpp
index 9b41386..692ebd5 100644
--- a/src/tracer/propagation/binary_propagation.cpp
+++ b/src/tracer/propagation/binary_propagation.cpp
@@ -84,6 +84,10 @@ template opentracing::expected<void> InjectSpanContext(
 static opentracing::expected<bool> ExtractSpanContext(
     const BinaryCarrier& carrier, uint64_t& trace_id, uint64_t& span_id,
     bool& sampled, BaggageProtobufMap& baggage) noexcept try {
+  if (!carrier.has_basic_ctx()) {
+    return opentracing::make_unexpected(
+        opentracing::span_context_corrupted_error);
+  }
   auto& basic = carrier.basic_ctx();
   trace_id = basic.trace_id();
   span_id = basic.span_id();
-- 
2.43.0


From 756d956e3485f3f7e4195859e246b0b73d44675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 20/30] fix: do not carry the trace state of a format that was
 not used into another's context

---
 src/tracer/propagation/propagation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracer/propagation/propagation.cpp b/src/tracer/propagation/propagation.cpp
index 57fa67f..14eb1eb 100644
--- a/src/tracer/propagation/propagation.cpp
+++ b/src/tracer/propagation/propagation.cpp
@@ -23,6 +23,7 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
     BaggageProtobufMap& baggage) {
   for (auto& propagator : propagation_options.extract_propagators) {
     baggage.clear();
+    trace_state.clear();
     auto result = propagator->ExtractSpanContext(
         carrier, case_sensitive, trace_context, trace_state, baggage);
     if (!result) {
-- 
2.43.0


From 763637ee86737df41c192e6bc4d4c0b6cb3ba07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 21/30] fix: keep the default satellite endpoint when a JSON
 configuration names none

---
 src/tracer/json_options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 1702dd7..3ce5cb7 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -97,7 +97,9 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
-  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  if (!tracer_configuration.satellite_endpoints().empty()) {
+    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  }
 
   options.verbose = tracer_configuration.verbose();
 
-- 
2.43.0


From d7556fd3ef2d8ebe0b58d1e78e65f5964deae8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 22/30] fix: apply ssl_root_certificates of a JSON
 configuration

---
 src/tracer/json_options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 3ce5cb7..f776ab5 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -95,6 +95,8 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
         std::chrono::microseconds{tracer_configuration.report_timeout()};
   }
 
+  options.ssl_root_certificates = tracer_configuration.ssl_root_certificates();
+
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
   if (!tracer_configuration.satellite_endpoints().empty()) {
-- 
2.43.0


From 3fa933ad2ddd0e3cdd5ecf706580f4d08b5d7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 23/30] fix: refuse a JSON configuration whose collector port
 is out of range

---
 src/tracer/json_options.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index f776ab5..5bb884c 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -74,6 +74,10 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
   if (!tracer_configuration.collector_host().empty()) {
     options.collector_host = tracer_configuration.collector_host();
   }
+  if (tracer_configuration.collector_port() >
+      std::numeric_limits<uint16_t>::max()) {
+    throw std::runtime_error{"collector port outside of range"};
+  }
   if (tracer_configuration.collector_port() != 0) {
     options.collector_port = tracer_configuration.collector_port();
   }
-- 
2.43.0


From 763c293714c220f0defe7709816954f37964c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:45 +0000
Subject: [PATCH 24/30] fix: a custom binary carrier without a context yields
 none, not a context of zeros

---
 src/tracer/binary_carrier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracer/binary_carrier.cpp b/src/tracer/binary_carrier.cpp
index 00083a6..258332a 100644
--- a/src/tracer/binary_carrier.cpp
+++ b/src/tracer/binary_carrier.cpp
@@ -11,7 +11,7 @@ LightStepBinaryReader::Extract(const opentracing::Tracer& tracer) const try {
   if (lightstep_tracer == nullptr) {
     return opentracing::make_unexpected(opentracing::invalid_carrier_error);
   }
-  if (carrier_ == nullptr) {
+  if (carrier_ == nullptr || !carrier_->has_basic_ctx()) {
     return {};
   }
   auto& basic = carrier_->basic_ctx();
-- 
2.43.0


From 65f2ae60e14d10f3bcb7185cd014b384d1e5088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 25/30] fix: destroy a span's coded stream before handing its
 data to the recorder

Destroying a finished span trimmed the coded stream once more, and that calls
BackUp on the chained stream the recorder owns (and may have freed) by then.
---
 src/tracer/span.cpp | 6 ++++--
 src/tracer/span.h   | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..d21a5c7 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,7 +24,9 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_owner_{new google::protobuf::io::CodedOutputStream{
+          chained_stream_.get()}},
+      coded_stream_{*coded_stream_owner_},
       tracer_{std::move(tracer)} {
   WriteOperationName(coded_stream_, operation_name);
 
@@ -263,7 +265,7 @@ void Span::FinishImpl(
 
   // Record the span
   tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  coded_stream_owner_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..5b1a178 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,10 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+  // Owns coded_stream_ until the span is recorded. It writes to chained_stream_
+  // when it's destroyed, so it mustn't outlive this span's ownership of it.
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_owner_;
+  google::protobuf::io::CodedOutputStream& coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From 82ea9b9177bf52371dab274c1557075069ae095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:17 +0000
Subject: [PATCH 26/30] fix: let a concurrent finish of a legacy span return
 only once the span is recorded

A second finish returned at once while the first one was still waiting for the
lock, so that changes made after it were part of the record.
---
 src/tracer/legacy/legacy_span.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index e04fe17..43b9853 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -91,12 +91,13 @@ LegacySpan::~LegacySpan() {
 //------------------------------------------------------------------------------
 void LegacySpan::FinishWithOptions(
     const opentracing::FinishSpanOptions& options) noexcept try {
+  std::lock_guard<std::mutex> lock_guard{mutex_};
+
   // Ensure the span is only finished once.
   if (is_finished_.exchange(true)) {
     return;
   }
 
-  std::lock_guard<std::mutex> lock_guard{mutex_};
   if (!IsTraceFlagSet<SampledFlagMask>(trace_flags_)) {
     return;
   }
-- 
2.43.0


From 6585231e99485b1def4f1400af7d3082ed1c1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 27/30] fix: refuse a cloud trace header with a stray character
 after the trace id

---
 src/tracer/propagation/cloud_trace_propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 2fd9b6c..aba507d 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -124,7 +124,7 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
   }
 
   offset += Num128BitHexDigits;
-  if (s.size() - offset < 2) {
+  if (offset == s.size()) {
     // only a short form trace ID has been given (not a "trace id/span id")
     trace_context.parent_id = 0;
     return {};
-- 
2.43.0


From 5e27d2a279e833fa912c05cde56750006eb35a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:46 +0000
Subject: [PATCH 28/30] fix: use_single_key_propagation overrides
 propagation_modes, as documented

---
 src/tracer/propagation/propagation_options.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracer/propagation/propagation_options.cpp b/src/tracer/propagation/propagation_options.cpp
index f36073d..8d4168f 100644
--- a/src/tracer/propagation/propagation_options.cpp
+++ b/src/tracer/propagation/propagation_options.cpp
@@ -92,10 +92,10 @@ PropagationOptions MakePropagationOptions(
     const LightStepTracerOptions& options) {
   std::vector<PropagationMode> propagation_modes;
   PropagationOptions result;
-  if (!options.propagation_modes.empty()) {
-    propagation_modes = options.propagation_modes;
-  } else if (options.use_single_key_propagation) {
+  if (options.use_single_key_propagation) {
     propagation_modes = {PropagationMode::envoy};
+  } else if (!options.propagation_modes.empty()) {
+    propagation_modes = options.propagation_modes;
   } else {
     propagation_modes = {PropagationMode::lightstep};
   }
-- 
2.43.0


From 3e6eb4ed3b3da76f4a4a8d3107685c243c555895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:57 +0000
Subject: [PATCH 29/30] fix: a name query that got no answer was never timed
 out

AresDnsResolver armed c-ares' timer only after a socket event, so a resolution whose
first packets were lost never retried, timed out, or called back.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..a7babac 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,12 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up ares timeout: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From f650b3d863a6b2444a5bcb45aeba48c845207053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:57 +0000
Subject: [PATCH 30/30] fix: c-ares sockets were watched for one event only

c-ares goes on using a socket after its first event without announcing it again, so
later answers on it were never read.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index a7babac..ec4122d 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -140,7 +140,7 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
@@ -153,6 +153,8 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
   event.Add(nullptr);
   socket_events_[file_descriptor] = std::move(event);
 } catch (const std::exception& e) {
+  // Don't keep an event around for what ares no longer waits for.
+  socket_events_.erase(file_descriptor);
   logger_.Error("failed to set up ares socket events: ", e.what());
 }
 
-- 
2.43.0

