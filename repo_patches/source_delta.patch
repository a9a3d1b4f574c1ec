From d909031c2368e9b49f7f59d03284b1a5363d0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 01/21] fix: __daisy_sym_pow: do not square the base after the
 last exponent bit (signed overflow)

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..9d7a260 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -144,7 +144,9 @@ inline int __daisy_sym_pow(int base, int exp) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From 7bb7a2aef2165379228dc1b03a0e122a926d390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 02/21] fix: parenthesise __daisy_fma and its operands

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 9d7a260..788eddb 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -130,7 +130,7 @@ void __daisy_capture_3d(
 
 #define __daisy_min(a, b) ((a) < (b) ? (a) : (b))
 #define __daisy_max(a, b) ((a) > (b) ? (a) : (b))
-#define __daisy_fma(a, b, c) a* b + c
+#define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
 inline int __daisy_sym_pow(int base, int exp) {
-- 
2.43.0


From e10741bc682bb2594d1becbacb7e2cccea7b91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 03/21] fix: ArgumentRegistry: take the mutex in the read
 accessors too (data race with registration)

---
 .../codegen/code_compilation/argument_registry.h     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/codegen/code_compilation/argument_registry.h b/sdfg/include/sdfg/codegen/code_compilation/argument_registry.h
index 462a463..ce388ba 100644
--- a/sdfg/include/sdfg/codegen/code_compilation/argument_registry.h
+++ b/sdfg/include/sdfg/codegen/code_compilation/argument_registry.h
@@ -33,6 +33,7 @@ public:
     }
 
     std::vector<std::string> get_compile_args(std::string target) const {
+        std::lock_guard<std::mutex> lock(compile_mutex_);
         auto it = compile_args_map_.find(target);
         if (it != compile_args_map_.end()) {
             return it->second;
@@ -40,7 +41,10 @@ public:
         return {};
     }
 
-    size_t size_compile_args() const { return compile_args_map_.size(); }
+    size_t size_compile_args() const {
+        std::lock_guard<std::mutex> lock(compile_mutex_);
+        return compile_args_map_.size();
+    }
 
     void register_linker_args(std::string target, std::vector<std::string> args) {
         std::lock_guard<std::mutex> lock(linker_mutex_);
@@ -53,6 +57,7 @@ public:
     }
 
     std::vector<std::string> get_linker_args(std::string target) const {
+        std::lock_guard<std::mutex> lock(linker_mutex_);
         auto it = linker_args_map_.find(target);
         if (it != linker_args_map_.end()) {
             return it->second;
@@ -60,7 +65,10 @@ public:
         return {};
     }
 
-    size_t size_linker_args() const { return linker_args_map_.size(); }
+    size_t size_linker_args() const {
+        std::lock_guard<std::mutex> lock(linker_mutex_);
+        return linker_args_map_.size();
+    }
 };
 
 } // namespace codegen
-- 
2.43.0


From e9540aa3cea4c514369caa506ee5ea37880e12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 04/21] fix: helpers::split: keep positions in size_t (strings
 over 2 GiB were split wrongly or threw)

---
 sdfg/include/sdfg/helpers/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/helpers/helpers.h b/sdfg/include/sdfg/helpers/helpers.h
index 1eb536b..d24bd57 100644
--- a/sdfg/include/sdfg/helpers/helpers.h
+++ b/sdfg/include/sdfg/helpers/helpers.h
@@ -88,12 +88,12 @@ inline std::string join(std::vector<T>& elems, S& delim) {
 };
 
 inline void split(std::vector<std::string>& result, std::string s, std::string del = " ") {
-    int start, end = -1 * del.size();
+    size_t start, end = -del.size();
     do {
         start = end + del.size();
         end = s.find(del, start);
         result.push_back(s.substr(start, end - start));
-    } while (end != -1);
+    } while (end != std::string::npos);
 }
 
 template<typename T>
-- 
2.43.0


From e330e20c96a1a6fe4a63c6ef50969abb4be44225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 05/21] fix: base64: keep lengths and positions in size_t
 (encode truncated the length to 32 bits, decode overflowed int past 2 GiB of
 text)

---
 arg-capture-io/include/daisy_rtl/base64.h | 3 ++-
 arg-capture-io/src/base64.cpp             | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/arg-capture-io/include/daisy_rtl/base64.h b/arg-capture-io/include/daisy_rtl/base64.h
index 67db41f..6765614 100644
--- a/arg-capture-io/include/daisy_rtl/base64.h
+++ b/arg-capture-io/include/daisy_rtl/base64.h
@@ -6,11 +6,12 @@
 #ifndef BASE64_H_C0CE2A47_D10E_42C9_A27C_C883944E704A
 #define BASE64_H_C0CE2A47_D10E_42C9_A27C_C883944E704A
 
+#include <cstddef>
 #include <cstdint>
 #include <string>
 #include <vector>
 
-std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_len);
+std::string base64_encode(unsigned char const* bytes_to_encode, size_t in_len);
 
 std::vector<uint8_t> base64_decode(std::string const& encoded_string);
 
diff --git a/arg-capture-io/src/base64.cpp b/arg-capture-io/src/base64.cpp
index fe3333e..04d6828 100644
--- a/arg-capture-io/src/base64.cpp
+++ b/arg-capture-io/src/base64.cpp
@@ -1,5 +1,6 @@
 #include "daisy_rtl/base64.h"
 
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 
@@ -38,7 +39,7 @@ static const std::string base64_chars =
 
 static inline bool is_base64(unsigned char c) { return (isalnum(c) || (c == '+') || (c == '/')); }
 
-std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_len) {
+std::string base64_encode(unsigned char const* bytes_to_encode, size_t in_len) {
     std::string ret;
     int i = 0;
     int j = 0;
@@ -74,10 +75,10 @@ std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_
     return ret;
 }
 std::vector<uint8_t> base64_decode(std::string const& encoded_string) {
-    int in_len = encoded_string.size();
+    size_t in_len = encoded_string.size();
     int i = 0;
     int j = 0;
-    int in_ = 0;
+    size_t in_ = 0;
     unsigned char char_array_4[4], char_array_3[3];
     std::vector<uint8_t> ret;
 
-- 
2.43.0


From 77e706b95a7d659a11ab80edd88bd5e23a73fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 06/21] fix: capture_inline: accumulate the byte count in
 size_t (an int truncated products over 2 GiB)

---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..afa9295 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From 9e78aca4a99289f157aa071a9486f45a883c2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 07/21] fix: capture_inline: do not call memcpy with null
 pointers for an empty argument

---
 arg-capture-io/src/arg_capture_io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index afa9295..33db89a 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -152,7 +152,9 @@ bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::st
     DEBUG_PRINTLN(std::dec);
 
     auto capturedData = std::make_shared<std::vector<uint8_t>>(size);
-    std::memcpy(capturedData.get()->data(), data, size);
+    if (size > 0) {
+        std::memcpy(capturedData.get()->data(), data, size);
+    }
 
     current_captures_[element_id][std::make_pair(capture.arg_idx, capture.after)].data = std::move(capturedData);
 
-- 
2.43.0


From 6c88aef1c1b235dad9be7b48b6a5ac5bb37b79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 08/21] fix: read_data_from_raw_file: report a short read
 instead of returning a partly filled buffer

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 33db89a..a81f55a 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -251,6 +251,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (static_cast<size_t>(ifs.gcount()) != size) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From 5ee569151cefed28fa80f27afb9f2af37e4a695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 09/21] fix: write_index: report a failed write instead of
 leaving a damaged index unnoticed

---
 arg-capture-io/src/arg_capture_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index a81f55a..855d6b3 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -291,6 +291,10 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
 
         ofs.close();
 
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
+
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
 }
-- 
2.43.0


From db72687501181f51d8debb479fac61fa51356898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 10/21] fix: separate trace events of all regions, also of
 regions without events

A region without any event left a dangling comma in the trace file.
---
 rtl/src/instrumentation.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..0f5f10a 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -552,9 +552,7 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
                 continue;
@@ -568,13 +566,12 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+        bool first_event = true;
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
@@ -588,6 +585,8 @@ public:
     size_t register_region(const __daisy_metadata* metadata, enum __daisy_event_set event_set) {
         std::lock_guard<std::mutex> lock(mutex);
 
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
         // Check cache first
         if (this->sleeping_regions_id_lookup.find(metadata->region_uuid) != this->sleeping_regions_id_lookup.end()) {
             auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];
-- 
2.43.0


From 43a45ddfa7940ecf2526d657fd93cdbdcda7f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 11/21] fix: aggregated trace of a region that was never
 measured

Writing the trace read empty counter vectors and uninitialised extrema.
---
 rtl/src/instrumentation.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 0f5f10a..b615cd3 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -102,12 +102,12 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
+    long long last_start = 0;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -415,6 +415,14 @@ private:
 
         entry << "\"metrics\":{";
         // PAPI counters
+        if (region.n.empty()) {
+            // No measurement was completed
+            region.n.resize(event_names.size(), 0);
+            region.mean.resize(event_names.size(), 0.0);
+            region.variance.resize(event_names.size(), 0.0);
+            region.min.resize(event_names.size(), 0);
+            region.max.resize(event_names.size(), 0);
+        }
         for (size_t i = 0; i < event_names.size(); ++i) {
             entry << "\"" << event_names[i] << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
-- 
2.43.0


From d45c3ecf17954611d1ea5ba5fcea318af5d16653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 12/21] fix: write trace metadata as valid JSON

The per-event trace had a trailing comma when there is no SDFG name or
file, text was written unescaped, and a missing element type cut the
event off.
---
 rtl/src/instrumentation.cpp | 81 ++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index b615cd3..dbc0476 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,27 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+// Text as the content of a JSON string
+struct JsString {
+    std::string value;
+    explicit JsString(const char* value) : value(value ? value : "") {}
+    explicit JsString(const std::string& value) : value(value) {}
+};
+
+static std::ostream& operator<<(std::ostream& os, const JsString& val) {
+    for (char c : val.value) {
+        if (c == '"' || c == '\\') {
+            os << '\\' << c;
+        } else if (static_cast<unsigned char>(c) < 0x20) {
+            const char* hex = "0123456789abcdef";
+            os << "\\u00" << hex[c >> 4] << hex[c & 0xf];
+        } else {
+            os << c;
+        }
+    }
+    return os;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +224,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +236,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsString(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,35 +248,37 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << JsString(md.opt_report_file) << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -277,7 +300,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -287,7 +310,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << JsString(event_names[i]) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -333,7 +356,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -343,10 +366,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsString(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -356,27 +379,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << JsString(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -386,7 +409,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -408,7 +431,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -424,7 +447,7 @@ private:
             region.max.resize(event_names.size(), 0);
         }
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << JsString(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -435,7 +458,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << JsString(name) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
@@ -549,6 +572,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -563,6 +587,8 @@ public:
                 if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -577,7 +603,6 @@ public:
                 if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-        bool first_event = true;
                 first_event = false;
                 append_event(f, region, event_index, event_names);
             }
@@ -593,8 +618,6 @@ public:
     size_t register_region(const __daisy_metadata* metadata, enum __daisy_event_set event_set) {
         std::lock_guard<std::mutex> lock(mutex);
 
-                first_event = false;
-                append_event_aggregated(f, region, event_names);
         // Check cache first
         if (this->sleeping_regions_id_lookup.find(metadata->region_uuid) != this->sleeping_regions_id_lookup.end()) {
             auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];
-- 
2.43.0


From f029f911513acdbe7b22c486c4a012269980d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 13/21] fix: keep one event set per region

Registering an active region again created a second event set over the
first, and finalizing a released region put it back into the cache.
---
 rtl/src/instrumentation.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index dbc0476..ec16085 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -637,6 +637,11 @@ public:
             size_t region_id = this->region_name_to_id[metadata->region_uuid];
             auto& region = this->regions[region_id];
 
+            // Still active, keep its event set
+            if (region.papi_eventset != -1) {
+                return region_id;
+            }
+
             if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
                 std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
                 exit(EXIT_FAILURE);
@@ -914,6 +919,11 @@ public:
 
         DaisyRegion& region = it->second;
 
+        // Already finalized and released
+        if (region.papi_eventset == -1) {
+            return;
+        }
+
         // Stop counters
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
-- 
2.43.0


From 3400a3a1a665d9e5d343154994a7d6bdaf9c9127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 14/21] fix: scale the runtime variance from ns^2 to us^2 in
 the aggregated trace

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index ec16085..4d693bc 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -471,7 +471,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From f7955866f9318fc8a16171fb9f40d2c496d26f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 15/21] fix: simple paths must not return to their start vertex

---
 sdfg/src/graph/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..e605a46 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -251,6 +251,9 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
 
     std::set<Vertex> visited;
     std::list<Edge> current_path;
+    if (src != dst) {
+        visited.insert(src);
+    }
 
     auto [eb, ee] = boost::out_edges(src, graph);
     auto edges = std::ranges::subrange(eb, ee);
-- 
2.43.0


From 498295e4acfec8e0c68d2182e144de7adb6de857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 16/21] fix: mask unreachable vertices when computing
 dominators

---
 sdfg/src/graph/graph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index e605a46..a9a7e0b 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,8 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    // unreachable vertices must be masked as max
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +158,8 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    // unreachable vertices must be masked as max
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From 06bbde970f1bd181635341c69742fb0251706514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:13 +0000
Subject: [PATCH 17/21] fix: remove the synthetic terminal vertex after
 computing post-dominators

---
 sdfg/src/graph/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index a9a7e0b..93465b6 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -181,6 +181,13 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
     // Remove synthetic super-terminal if added
     if (modified) {
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
     }
 
     return pdom_tree;
-- 
2.43.0


From 4c6beb4a479f6746029af25c6ecb3b1184fbbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:57 +0000
Subject: [PATCH 18/21] fix: emitted code for fp_ord and fp_one follows NaN
 semantics

fp_ord emitted isnan(a) && isnan(b) (both operands NaN) and fp_one emitted
a != b, which is true when an operand is NaN.
---
 .../src/codegen/language_extensions/c_language_extension.cpp | 5 +++--
 .../codegen/language_extensions/cpp_language_extension.cpp   | 5 +++--
 .../codegen/language_extensions/cuda_language_extension.cpp  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..1e8d00b 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -222,7 +223,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..07b5951 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -216,7 +217,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..9e0b2d4 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -232,7 +233,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From 9a1f6f942ac2763bf06b30968905457153b70597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:23 +0000
Subject: [PATCH 19/21] fix: merging source ranges with a common first or last
 line covers both

DebugInfo::merge compared lines only: with equal start (end) lines it took the
column of the right range even when the left one began earlier (ended later).
---
 sdfg/src/element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/element.cpp b/sdfg/src/element.cpp
index 8c994cc..edcd0f8 100644
--- a/sdfg/src/element.cpp
+++ b/sdfg/src/element.cpp
@@ -55,7 +55,8 @@ DebugInfo DebugInfo::merge(const DebugInfo& left, const DebugInfo& right) {
     size_t end_line = 0;
     size_t end_column = 0;
 
-    if (left.start_line_ < right.start_line_) {
+    if (left.start_line_ < right.start_line_ ||
+        (left.start_line_ == right.start_line_ && left.start_column_ < right.start_column_)) {
         start_line = left.start_line_;
         start_column = left.start_column_;
     } else {
@@ -63,7 +64,8 @@ DebugInfo DebugInfo::merge(const DebugInfo& left, const DebugInfo& right) {
         start_column = right.start_column_;
     }
 
-    if (left.end_line_ > right.end_line_) {
+    if (left.end_line_ > right.end_line_ ||
+        (left.end_line_ == right.end_line_ && left.end_column_ > right.end_column_)) {
         end_line = left.end_line_;
         end_column = left.end_column_;
     } else {
-- 
2.43.0


From 936d15c9659b4f75ad4f59247a765d8c34004b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:47 +0000
Subject: [PATCH 20/21] fix: Tasklet::is_sext accepts signed integers only

It only rejected unsigned types, so widening assignments from Bool or Void, between
floating-point types, and between integers and floating-point types were classified as
sign extensions.
---
 sdfg/src/data_flow/tasklet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/tasklet.cpp b/sdfg/src/data_flow/tasklet.cpp
index 1e98c35..52b585f 100644
--- a/sdfg/src/data_flow/tasklet.cpp
+++ b/sdfg/src/data_flow/tasklet.cpp
@@ -123,7 +123,7 @@ bool Tasklet::is_sext(const Function& function) const {
     auto input_type = iedge.result_type(function);
     auto output_type = oedge.result_type(function);
 
-    if (types::is_unsigned(input_type->primitive_type()) || types::is_unsigned(output_type->primitive_type())) {
+    if (!types::is_signed(input_type->primitive_type()) || !types::is_signed(output_type->primitive_type())) {
         return false;
     }
     if (types::bit_width(output_type->primitive_type()) <= types::bit_width(input_type->primitive_type())) {
-- 
2.43.0


From 4440c0bde18a97f77168e93a00698949c39799cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:47 +0000
Subject: [PATCH 21/21] fix: modf, scalbn and scalbln take two arguments

cmath_function_to_arity gave them one, so that the node had one input and the emitted call
did not match the function.
---
 .../sdfg/data_flow/library_nodes/math/cmath/cmath_node.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h b/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
index 9333f80..039e066 100644
--- a/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
+++ b/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
@@ -193,11 +193,11 @@ constexpr size_t cmath_function_to_arity(CMathFunction func) {
         case CMathFunction::ldexp:
             return 2;
         case CMathFunction::modf:
-            return 1;
+            return 2;
         case CMathFunction::scalbn:
-            return 1;
+            return 2;
         case CMathFunction::scalbln:
-            return 1;
+            return 2;
         case CMathFunction::ilogb:
             return 1;
         case CMathFunction::logb:
-- 
2.43.0

