From 8a3b67bac403c465873232129b22c4f38d97202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 1/8] fix: escape backslash and line feed in HELP text

---
 core/src/text_serializer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index 0656b50..c1c2f6c 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -47,6 +47,25 @@ void WriteValue(std::ostream& out, const std::string& value) {
   }
 }
 
+// Write a help text, in which only backslash and line feed are escaped
+void WriteHelp(std::ostream& out, const std::string& help) {
+  for (auto c : help) {
+    switch (c) {
+      case '\n':
+        out << '\\' << 'n';
+        break;
+
+      case '\\':
+        out << '\\' << c;
+        break;
+
+      default:
+        out << c;
+        break;
+    }
+  }
+}
+
 // Write a line header: metric name and labels
 template <typename T = std::string>
 void WriteHead(std::ostream& out, const MetricFamily& family,
@@ -156,7 +175,9 @@ void SerializeHistogram(std::ostream& out, const MetricFamily& family,
 
 void SerializeFamily(std::ostream& out, const MetricFamily& family) {
   if (!family.help.empty()) {
-    out << "# HELP " << family.name << " " << family.help << "\n";
+    out << "# HELP " << family.name << " ";
+    WriteHelp(out, family.help);
+    out << "\n";
   }
   switch (family.type) {
     case MetricType::Counter:
-- 
2.43.0


From abef6fcc841c10d028a6f3c448c3694d4ff922b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 2/8] fix: serialise independently of the stream's format flags
 and restore them

---
 core/src/text_serializer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text_serializer.cc b/core/src/text_serializer.cc
index c1c2f6c..140c8c1 100644
--- a/core/src/text_serializer.cc
+++ b/core/src/text_serializer.cc
@@ -226,8 +226,11 @@ void TextSerializer::Serialize(std::ostream& out,
                                const std::vector<MetricFamily>& metrics) const {
   auto saved_locale = out.getloc();
   auto saved_precision = out.precision();
+  auto saved_flags = out.flags();
 
   out.imbue(std::locale::classic());
+  out.flags((saved_flags & std::ios_base::unitbuf) | std::ios_base::dec);
+  out.width(0);
   out.precision(std::numeric_limits<double>::max_digits10 - 1);
 
   for (auto& family : metrics) {
@@ -236,5 +239,6 @@ void TextSerializer::Serialize(std::ostream& out,
 
   out.imbue(saved_locale);
   out.precision(saved_precision);
+  out.flags(saved_flags);
 }
 }  // namespace prometheus
-- 
2.43.0


From 4c43dceece71ca23d5bfc34f4b438245fbdd4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 3/8] fix: refuse base64 input whose last group has '=' only in
 third position

---
 util/include/prometheus/detail/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/include/prometheus/detail/base64.h b/util/include/prometheus/detail/base64.h
index ebd7110..4b27b5a 100644
--- a/util/include/prometheus/detail/base64.h
+++ b/util/include/prometheus/detail/base64.h
@@ -116,6 +116,9 @@ inline std::string base64_decode(const std::string& input) {
             decoded.push_back((temp >> 8) & 0x000000FF);
             return decoded;
           case 2:
+            if (*(it + 1) != kPadCharacter) {
+              throw std::runtime_error("Invalid padding in base64!");
+            }
             decoded.push_back((temp >> 10) & 0x000000FF);
             return decoded;
           default:
-- 
2.43.0


From 2d0f0d46b6372fcf6ac2da98f79c4b73584227c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 4/8] fix: base64-encode grouping key values that are
 dot-segments

---
 push/src/detail/label_encoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/push/src/detail/label_encoder.cc b/push/src/detail/label_encoder.cc
index 75a6fc1..832c911 100644
--- a/push/src/detail/label_encoder.cc
+++ b/push/src/detail/label_encoder.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <ostream>
+#include <string>
 
 #include "prometheus/detail/base64.h"
 
@@ -25,12 +26,16 @@ bool needsEncoding(char c) {
   }
   return true;
 }
+
+// "." and ".." would be removed as dot-segments, see RFC 3986 section 5.2.4
+bool isDotSegment(const std::string& s) { return s == "." || s == ".."; }
 }  // namespace
 
 void encodeLabel(std::ostream& os, const Label& label) {
   if (label.second.empty()) {
     os << "/" << label.first << "@base64/=";
-  } else if (std::any_of(label.second.begin(), label.second.end(),
+  } else if (isDotSegment(label.second) ||
+             std::any_of(label.second.begin(), label.second.end(),
                          needsEncoding)) {
     os << "/" << label.first << "@base64/"
        << detail::base64url_encode(label.second);
-- 
2.43.0


From 349174fafe2d523ec460c909a9506f7616667a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 5/8] fix: release the curl handle when the header list cannot
 be created

---
 push/src/detail/curl_wrapper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/push/src/detail/curl_wrapper.cc b/push/src/detail/curl_wrapper.cc
index 997c374..2aeec02 100644
--- a/push/src/detail/curl_wrapper.cc
+++ b/push/src/detail/curl_wrapper.cc
@@ -28,6 +28,8 @@ CurlWrapper::CurlWrapper(std::function<void(CURL*)> presetupCurl)
 
   optHttpHeader_ = curl_slist_append(nullptr, CONTENT_TYPE);
   if (!optHttpHeader_) {
+    curl_easy_cleanup(curl_);
+    curl_global_cleanup();
     throw std::runtime_error("Cannot append the header of the content type");
   }
 }
-- 
2.43.0


From a6a947161f2c4031eaaca16652eeb9984fca9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 6/8] fix: keep replaced auth handlers alive, requests may
 still execute them

---
 pull/src/endpoint.cc | 13 ++++++-------
 pull/src/endpoint.h  |  4 +++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pull/src/endpoint.cc b/pull/src/endpoint.cc
index bd98cef..1962fd8 100644
--- a/pull/src/endpoint.cc
+++ b/pull/src/endpoint.cc
@@ -21,7 +21,7 @@ Endpoint::Endpoint(CivetServer& server, std::string uri)
 
 Endpoint::~Endpoint() {
   server_.removeHandler(uri_);
-  if (auth_handler_) {
+  if (!auth_handlers_.empty()) {
     server_.removeAuthHandler(uri_);
   }
 }
@@ -34,12 +34,11 @@ void Endpoint::RegisterCollectable(
 void Endpoint::RegisterAuth(
     std::function<bool(const std::string&, const std::string&)> authCB,
     const std::string& realm) {
-  // split creating, assigning, and storing to avoid a race-condition when
-  // being called the second time and the handler is replaced
-  auto new_handler =
-      detail::make_unique<BasicAuthHandler>(std::move(authCB), realm);
-  server_.addAuthHandler(uri_, new_handler.get());
-  auth_handler_ = std::move(new_handler);
+  // store the new handler before announcing it and keep the previous one: the
+  // server does not wait for requests which are just being authorized by it
+  auth_handlers_.push_back(
+      detail::make_unique<BasicAuthHandler>(std::move(authCB), realm));
+  server_.addAuthHandler(uri_, auth_handlers_.back().get());
 }
 
 void Endpoint::RemoveCollectable(
diff --git a/pull/src/endpoint.h b/pull/src/endpoint.h
index 81bb48f..0ed6f04 100644
--- a/pull/src/endpoint.h
+++ b/pull/src/endpoint.h
@@ -3,6 +3,7 @@
 #include <functional>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "CivetServer.h"
 #include "basic_auth.h"
@@ -37,7 +38,8 @@ class Endpoint {
   // registry for "meta" metrics about the endpoint itself
   std::shared_ptr<Registry> endpoint_registry_;
   std::unique_ptr<MetricsHandler> metrics_handler_;
-  std::unique_ptr<BasicAuthHandler> auth_handler_;
+  // replaced handlers are kept as well: the server might still execute them
+  std::vector<std::unique_ptr<BasicAuthHandler>> auth_handlers_;
 };
 
 }  // namespace detail
-- 
2.43.0


From 3cbca2bc7ac88b75acf3eba646d8da02d4d41ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 7/8] fix: parse Accept-Encoding instead of searching for a
 substring

---
 pull/src/handler.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pull/src/handler.cc b/pull/src/handler.cc
index 784fd5e..c3eac39 100644
--- a/pull/src/handler.cc
+++ b/pull/src/handler.cc
@@ -48,13 +48,38 @@ MetricsHandler::MetricsHandler(Registry& registry)
           {}, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}, {0.99, 0.001}})) {}
 
 #ifdef HAVE_ZLIB
+// Is the weight following a content coding 0, i.e. "not acceptable"?
+static bool HasZeroWeight(const char* params) {
+  params += std::strspn(params, "; \t");
+  if (std::strncmp(params, "q=0", 3) != 0 &&
+      std::strncmp(params, "Q=0", 3) != 0) {
+    return false;
+  }
+  params += 3;
+  params += std::strspn(params, ".0");
+  return *params < '0' || *params > '9';
+}
+
 static bool IsEncodingAccepted(struct mg_connection* conn,
                                const char* encoding) {
   auto accept_encoding = mg_get_header(conn, "Accept-Encoding");
   if (!accept_encoding) {
     return false;
   }
-  return std::strstr(accept_encoding, encoding) != nullptr;
+
+  // comma separated list of "coding [;q=weight]", see RFC 9110 section 12.5.3
+  const auto encoding_length = std::strlen(encoding);
+  auto element = accept_encoding;
+  while (*element) {
+    element += std::strspn(element, ", \t");
+    const auto coding_length = std::strcspn(element, ",; \t");
+    if (coding_length == encoding_length &&
+        std::strncmp(element, encoding, encoding_length) == 0) {
+      return !HasZeroWeight(element + coding_length);
+    }
+    element += std::strcspn(element, ",");
+  }
+  return false;
 }
 
 static std::vector<Byte> GZipCompress(const std::string& input) {
-- 
2.43.0


From f4d1c673952e90e38d01fa0e9d8caa984dd8e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 8/8] fix: keep the quantiles of a summary within their
 configured error

The rank of an item was approximated by its index, new items got an error
bound unrelated to their neighbour's, minimum and maximum were merged away
(quantiles 0 and 1 were arbitrary), and the allowed error of the published
algorithm only guarantees error/(1-2*error/(1-quantile)).
---
 core/src/detail/ckms_quantiles.cc | 37 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/core/src/detail/ckms_quantiles.cc b/core/src/detail/ckms_quantiles.cc
index 7ab6f1f..ca062d3 100644
--- a/core/src/detail/ckms_quantiles.cc
+++ b/core/src/detail/ckms_quantiles.cc
@@ -11,8 +11,8 @@ namespace detail {
 CKMSQuantiles::Quantile::Quantile(double quantile, double error)
     : quantile(quantile),
       error(error),
-      u(2.0 * error / (1.0 - quantile)),
-      v(2.0 * error / quantile) {}
+      u(2.0 * error / (1.0 - quantile + 2.0 * error)),
+      v(u * (1.0 - quantile) / quantile) {}
 
 CKMSQuantiles::Item::Item(double value, int lower_delta, int delta)
     : value(value), g(lower_delta), delta(delta) {}
@@ -67,13 +67,12 @@ void CKMSQuantiles::reset() {
 }
 
 double CKMSQuantiles::allowableError(int rank) {
-  auto size = sample_.size();
-  double minError = size + 1;
+  double minError = count_ + 1;
 
   for (const auto& q : quantiles_.get()) {
     double error;
-    if (rank <= q.quantile * size) {
-      error = q.u * (size - rank);
+    if (rank <= q.quantile * count_) {
+      error = q.u * (count_ - rank);
     } else {
       error = q.v * rank;
     }
@@ -112,11 +111,10 @@ bool CKMSQuantiles::insertBatch() {
       --idx;
     }
 
-    int delta;
-    if (idx - 1 == 0 || idx + 1 == sample_.size()) {
-      delta = 0;
-    } else {
-      delta = static_cast<int>(std::floor(allowableError(idx + 1))) + 1;
+    // the rank of a new minimum or maximum is known exactly
+    int delta = 0;
+    if (idx != 0 && idx != sample_.size()) {
+      delta = sample_[idx].g + sample_[idx].delta - 1;
     }
 
     sample_.emplace(sample_.begin() + idx, v, 1, delta);
@@ -133,18 +131,19 @@ void CKMSQuantiles::compress() {
     return;
   }
 
-  std::size_t idx = 0;
-  std::size_t prev;
-  std::size_t next = idx++;
-
-  while (idx < sample_.size()) {
-    prev = next;
-    next = idx++;
+  // the minimum is always kept
+  int rank = sample_[0].g;
+  std::size_t prev = 1;
+  std::size_t next = 2;
 
+  while (next < sample_.size()) {
     if (sample_[prev].g + sample_[next].g + sample_[next].delta <=
-        allowableError(idx - 1)) {
+        allowableError(rank)) {
       sample_[next].g += sample_[prev].g;
       sample_.erase(sample_.begin() + prev);
+    } else {
+      rank += sample_[prev].g;
+      prev = next++;
     }
   }
 }
-- 
2.43.0

