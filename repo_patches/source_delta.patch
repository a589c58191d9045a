From 8d9b566fdeb8b77ea2509d7520af3f95cb441ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 01/21] fix: reject malformed hash text instead of reading past
 it

The only guards on the text constructor of a record were asserts, which release
builds drop: a short line was read out of bounds and non hex characters became
an arbitrary hash.
---
 include/hibp.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..54045ed 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "arrcmp.hpp"
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <charconv>
@@ -9,6 +10,7 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -19,8 +21,12 @@ struct pawned_pw;
 
 namespace detail {
 
+constexpr bool is_hex_digit(char c) {
+  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
+}
+
 constexpr std::byte make_nibble(char c) {
-  assert((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'));
+  assert(is_hex_digit(c));
   auto nibble = c - '0';
   if (nibble > 9) nibble = (nibble & ~('a' - 'A')) - ('A' - '0') + 10; // NOLINT signed
   assert(nibble >= 0 && nibble <= 15);
@@ -52,7 +58,11 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.size() < hash_str_size ||
+        !std::all_of(text.begin(), text.begin() + hash_str_size, detail::is_hex_digit)) {
+      throw std::invalid_argument(
+          fmt::format("'{}' does not start with {} hex digits", text, hash_str_size));
+    }
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
-- 
2.43.0


From 949b8ba9c7a6695baabfe9df06f5cb1aa8023684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 02/21] fix: an iterator keeps denoting its record when the
 buffer moves on

Iterators cached a pointer into the database's one buffer, which another
iterator's access refills: the cached pointer then showed another record.
---
 include/flat_file.hpp | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..d6b73f1 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -169,8 +169,8 @@ struct database<ValueType>::const_iterator {
   const_iterator(database<ValueType>& ffdb, std::size_t pos) : ffdb_(&ffdb), pos_(pos) {}
 
   // clang-format off
-  reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  reference operator*() const { return ffdb_->get_record(pos_); }
+  pointer   operator->() const { return &ffdb_->get_record(pos_); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -179,8 +179,8 @@ struct database<ValueType>::const_iterator {
   const_iterator& operator--() { return *this -= 1; }
   const_iterator operator--(int) { const_iterator tmp = *this; --(*this); return tmp; } // NOLINT why const?
 
-  const_iterator& operator+=(std::size_t offset) { set_pos(pos_ + offset); return *this; }
-  const_iterator& operator-=(std::size_t offset) { set_pos(pos_ - offset); return *this; }
+  const_iterator& operator+=(std::size_t offset) { pos_ += offset; return *this; }
+  const_iterator& operator-=(std::size_t offset) { pos_ -= offset; return *this; }
 
   friend const_iterator operator+(const_iterator iter, std::size_t offset) { return iter += offset; }
   friend const_iterator operator+(std::size_t offset, const_iterator iter) { return iter += offset; }
@@ -196,22 +196,6 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
-
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
-
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From eba5a3941848de396512b5fed53d4566a6616ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 03/21] fix: a failed or out of range read never yields stale
 or wrong records

A failing read overwrote the buffer while its old range stayed valid, and a
position far past the end could wrap around to an existing record.
---
 include/flat_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index d6b73f1..daef18e 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -119,11 +119,12 @@ public:
 
   const ValueType& get_record(std::size_t pos) {
     if (!(pos >= buf_start_ && pos < buf_end_)) { // NOLINT can be simplified
-      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
+      const std::size_t nrecs = pos < dbsize_ ? std::min(buf_.size(), dbsize_ - pos) : 0;
       if (nrecs == 0) {
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      buf_start_ = buf_end_ = 0; // a read that fails leaves nothing valid behind
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 0dbca64922ecfd7efe94892c96c982fc26a63413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 04/21] fix: hibp-diff accepts several inserts, or an insert
 before an update

Looking one record ahead took them for a replaced record and gave up.
---
 src/diffutils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..97c1cd7 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -60,9 +60,8 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
         deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    // both are sorted by hash, so a smaller hash in NEW has no counterpart in OLD
+    if (*diff_iter_new < *diff_iter_old) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
-- 
2.43.0


From 5f4f89437bc45162434e9c1d7daee1b7cc1bd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 05/21] fix: hibp-dupes never reports the first record

A first record whose 64 bit prefix is all ones matched the initial value.
---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..e7b63fb 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <string>
 // #include <unordered_set>
 
@@ -37,7 +38,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last; // none before the first record
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From c7c01ebb7ab9a6be1035ba6d8492840d159cdbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 06/21] fix: hibp-convert --bin-to-txt --limit 0 converts no
 record

---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..0540740 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -97,9 +97,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
 }
 
-- 
2.43.0


From 7d192727d846f918e5a84aa813d75a3b0888ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 07/21] fix: hibp-sort names its files after the database,
 without quotes

---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index daef18e..b781901 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -218,7 +218,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -303,7 +303,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 876ad531d3ce7d493e4541cdbc01e0e230037854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 08/21] fix: sorting an empty database, or with a tiny memory
 limit, does not divide by zero

---
 include/flat_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index b781901..cea95d1 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -205,10 +205,15 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           Comp comp = {}, Proj proj = {},
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
+  if (max_memory_usage < sizeof(ValueType)) {
+    throw std::runtime_error("flat_file::disksort: memory limit is too small for a single record");
+  }
+
   auto        records_to_sort = static_cast<std::size_t>(last - first);
   std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
   std::size_t number_of_chunks =
-      (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
+      chunk_size == 0 ? 0 : // nothing to sort
+          (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
   std::cerr << fmt::format("{:20s} = {:12d}\n", "max memory usage", max_memory_usage);
   std::cerr << fmt::format("{:20s} = {:12d}\n", "records to sort", records_to_sort);
-- 
2.43.0


From a2961b59b631d66c7bb665c4f5b140a931b174e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 09/21] fix: building a table of contents again replaces the
 earlier one

---
 src/toc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..2cf479b 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -63,6 +63,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // may have been built or loaded before
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
-- 
2.43.0


From aba4e2b35400caec8f164c7afc7d3cc698253002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 10/21] fix: a table of contents that was not written or read
 completely is not used

---
 src/toc.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 2cf479b..e91072a 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -102,7 +102,20 @@ void load(const std::filesystem::path& toc_filename) {
   auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-                  static_cast<std::streamsize>(toc_file_size));
+                  static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  if (!toc_stream) {
+    throw std::runtime_error(fmt::format("Error reading table of contents: {}", toc_filename));
+  }
+}
+
+// false if saving it was interrupted (by a crash, a full disk, ..), then it can't be used
+template <pw_type PwType>
+bool is_complete(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
+                 unsigned bits) {
+  flat_file::database<PwType> db(db_path);
+
+  const std::size_t toc_entries = std::size_t{pw_to_prefix(db.back(), bits)} + 1;
+  return std::filesystem::file_size(toc_filename) == toc_entries * sizeof(toc_entry);
 }
 
 template <pw_type PwType>
@@ -137,7 +150,8 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
   const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);
 
   if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
-                                                 std::filesystem::last_write_time(db_filename))) {
+                                                 std::filesystem::last_write_time(db_filename)) ||
+      !details::is_complete<PwType>(toc_filename, db_filename, bits)) {
 
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
-- 
2.43.0


From e4e90157f02d422c0b66ae594b1e51e653a0e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 11/21] fix: a write error while sorting is reported, and never
 ends in std::terminate

---
 include/flat_file.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index cea95d1..b756006 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -57,9 +57,9 @@ public:
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
                 static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
       buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -70,7 +70,13 @@ public:
   stream_writer(stream_writer&& other) noexcept            = default;
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
-  ~stream_writer() { flush(); }
+  // call flush(true) after the last write() to learn about errors, a destructor must not throw
+  ~stream_writer() {
+    try {
+      flush();
+    } catch (const std::exception&) { // NOLINT empty
+    }
+  }
 
 private:
   std::ostream&          db_; // NOLINT ref
@@ -243,6 +249,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.flush(true);
   }
   return chunk_filenames;
 }
@@ -296,6 +303,7 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
       ++(chunk.current);
     }
   }
+  sorted.flush(true);
 
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
-- 
2.43.0


From 6a916f00b764da1c2f85621ee8f134c3b1ea1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 12/21] fix: hibp-topn reports errors writing the last records

---
 app/hibp_topn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..f6d2b88 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -123,6 +123,7 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true);
   std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
-- 
2.43.0


From cb377e857a342174b239509e3f9714a62f3c07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 13/21] fix: hibp-convert, -diff and -dupes report output
 errors, and hibp-convert reports input errors

---
 app/hibp_convert.cpp | 10 ++++++++++
 app/hibp_diff.cpp    |  4 ++++
 app/hibp_dupes.cpp   |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0540740..d334242 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -2,6 +2,7 @@
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
 #include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <exception>
 #include <filesystem>
@@ -88,6 +89,11 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  // std::cin, being synchronised with stdio, does not set badbit
+  if (input_stream.bad() || (&input_stream == &std::cin && std::ferror(stdin) != 0)) {
+    throw std::runtime_error("Error reading input");
+  }
+  writer.flush(true);
 }
 
 template <hibp::pw_type PwType>
@@ -101,6 +107,10 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
     output_stream << record << '\n';
     count++;
   }
+  output_stream.flush();
+  if (!output_stream) {
+    throw std::runtime_error("Error writing output");
+  }
 }
 
 void check_options(const cli_config_t& cli) {
diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index cdf59d9..0f45fec 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 struct cli_config_t {
@@ -38,6 +39,9 @@ int main(int argc, char* argv[]) {
     } else {
       hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(cli.db_file_old, cli.db_file_new, std::cout);
     }
+    if (!std::cout.flush()) {
+      throw std::runtime_error("cannot write output");
+    }
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index e7b63fb..8f03f64 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -9,6 +9,7 @@
 #include <fmt/format.h>
 #include <iostream>
 #include <optional>
+#include <stdexcept>
 #include <string>
 // #include <unordered_set>
 
@@ -61,6 +62,9 @@ int main(int argc, char* argv[]) {
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    if (!std::cout.flush()) {
+      throw std::runtime_error("cannot write output");
+    }
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
-- 
2.43.0


From 064475ac09a93f1f2b566c0f98fb56dff0debac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 14/21] fix: a failed write to standard output no longer makes
 the error message throw

---
 include/flat_file.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index b756006..b4d1af2 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -40,7 +40,8 @@ template <typename ValueType>
 class stream_writer {
 
 public:
-  explicit stream_writer(std::ostream& os, std::size_t buf_size = 1000) : db_(os), buf_(buf_size) {
+  explicit stream_writer(std::ostream& os, std::size_t buf_size = 1000)
+      : db_(os), exceptions_(os.exceptions()), buf_(buf_size) {
     db_.exceptions(std::ios::badbit | std::ios::failbit);
   }
 
@@ -76,10 +77,15 @@ public:
       flush();
     } catch (const std::exception&) { // NOLINT empty
     }
+    try {
+      db_.exceptions(exceptions_); // so that later, unrelated use of the stream does not throw
+    } catch (const std::exception&) { // NOLINT empty
+    }
   }
 
 private:
   std::ostream&          db_; // NOLINT ref
+  std::ios::iostate      exceptions_; // those of db_, before
   std::size_t            buf_pos_ = 0;
   std::vector<ValueType> buf_;
 };
-- 
2.43.0


From 41f1dd2d4511f4efd3040bd4ccda7be8f19eca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 15/21] fix: hibp-topn --stdout does not mix progress messages
 into the database

---
 app/hibp_topn.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index f6d2b88..c5a5103 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -81,6 +81,8 @@ void build_topn(const cli_config_t& cli) {
     output_stream_name = cli.output_filename;
   }
 
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout; // don't mix it into the db
+
   flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
 
   if (input_db.number_records() <= cli.topn) {
@@ -90,7 +92,7 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +107,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,16 +117,16 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
   output_db.flush(true);
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From fad877c5114ca5a6d9157b9c6b022f54acd0f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 16/21] fix: hibp-download reports errors writing the last
 records or lines

---
 app/hibp_download.cpp    |  3 ++-
 include/dnl/queuemgt.hpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..902e872 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush(true); // throws if the last records could not be written
 }
 
 template <hibp::pw_type PwType>
@@ -136,7 +137,7 @@ int main(int argc, char* argv[]) {
     if (cli.txt_out) {
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
-
+      tw.flush(); // throws if the last lines could not be written
     } else {
       if (cli.ntlm) {
         launch<hibp::pawned_pw_ntlm>(output_db_stream, cli, start_index);
diff --git a/include/dnl/queuemgt.hpp b/include/dnl/queuemgt.hpp
index 3faae13..abd3ff4 100644
--- a/include/dnl/queuemgt.hpp
+++ b/include/dnl/queuemgt.hpp
@@ -3,6 +3,7 @@
 #include <cstddef>
 #include <functional>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 namespace hibp::dnl {
@@ -14,9 +15,19 @@ struct text_writer {
   void write(const std::string& line) {
     os_.write(line.c_str(), static_cast<std::streamsize>(line.length()));
     os_.write("\n", 1);
+    check();
+  }
+
+  void flush() {
+    os_.flush();
+    check();
   }
 
 private:
+  void check() const {
+    if (!os_) throw std::runtime_error("Error writing the output file.");
+  }
+
   std::ostream& os_; // NOLINT reference
 };
 
-- 
2.43.0


From 28b6f3e3c9f3c01875862a8d08e5e543752694ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 17/21] fix: hibp-download --parallel-max 0 is an error instead
 of an empty download

---
 app/hibp_download.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 902e872..5469abf 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -86,6 +86,10 @@ void check_options(const hibp::dnl::cli_config_t& cli) {
     throw std::runtime_error("can't use `--ntlm` and `--sha1t64` together");
   }
 
+  if (cli.parallel_max == 0) {
+    throw std::runtime_error("`--parallel-max` must be at least 1");
+  }
+
   if (!cli.resume && !cli.force && std::filesystem::exists(cli.output_db_filename)) {
     throw std::runtime_error(fmt::format("File '{}' exists. Use `--force` to overwrite, or "
                                          "`--resume` to resume a previous download.",
-- 
2.43.0


From f3acad4798fe659e97332783bf98b1ca141dd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 18/21] fix: a blank line ending in CRLF in a response is
 skipped

---
 src/dnl/queuemgt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..fb1f157 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -107,9 +107,9 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   auto recordcount = 0UL;
 
   for (std::string line, prefixed_line; std::getline(ss, line);) {
+    line.erase(line.find_last_not_of('\r') + 1);
     if (!line.empty()) {
       prefixed_line = dl.prefix + line;
-      prefixed_line.erase(prefixed_line.find_last_not_of('\r') + 1);
 
       // calls text_writer or hibp_ff_sw, the latter via implicit conversion
       write_fn(prefixed_line);
-- 
2.43.0


From b4e1bc86677ff14c4dc67cf1f32366ff18dda94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 19/21] fix: --resume --sha1t64 recognises a completely written
 last prefix

---
 src/dnl/resume.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..d481ee4 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -38,12 +38,13 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
   const std::string filebody = curl_sync_get(url<PwType>(prefix, testing));
 
   auto pos_colon = filebody.find_last_of(':');
-  if (pos_colon == std::string::npos || pos_colon < PwType::suffix_str_size) {
+  auto pos_line  = filebody.find_last_of('\n', pos_colon) + 1; // zero if there is only one line
+  if (pos_colon == std::string::npos || pos_colon < pos_line + PwType::suffix_str_size) {
     throw std::runtime_error(fmt::format("Corrupt last file download with prefix '{}'.", prefix));
   }
 
-  auto last_file_hash =
-      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
+  // the suffix in the file is longer than that of a truncated hash
+  auto last_file_hash = filebody.substr(pos_line, PwType::suffix_str_size);
 
   if (last_file_hash == suffix) {
     std::size_t last_prefix{};
-- 
2.43.0


From acdbb743cd7b36b788e3ab2b236f016d4d176736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 20/21] fix: hibp-server announces the database it uses for
 plain passwords

---
 src/srv/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..cc1d349 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -173,7 +173,7 @@ void run_server() {
                            cli.bind_address, cli.port,
                            !cli.sha1_db_filename.empty()
                                ? "sha1"
-                               : (!cli.sha1t64_db_filename.empty() ? "sha1t64" : "ntlm"));
+                               : (!cli.ntlm_db_filename.empty() ? "ntlm" : "sha1t64"));
 
   if (!cli.sha1_db_filename.empty()) {
     std::cout << fmt::format("http://{0}:{1}/check/sha1/CBFDAC6008F9CAB4083784CBD1874F76618D2A97\n",
-- 
2.43.0


From 3cdca5a8dae2d929bff3b1707ba07e6ae93e18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 21/21] fix: label the download threads under the lock the
 logger uses

---
 src/dnl/queuemgt.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index fb1f157..27abb81 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -209,6 +209,12 @@ void service_queue(write_fn_t& write_fn, std::size_t next_index, std::stop_token
   }
 }
 
+// the threads are already running and look up their names when logging
+void set_thread_name(std::thread::id thr_id, const char* name) {
+  const std::lock_guard lk(cerr_mutex);
+  thrnames[thr_id] = name;
+}
+
 // main entry point for the download process
 void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
   std::exception_ptr requests_exception;
@@ -234,8 +240,8 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    set_thread_name(req_thr_id, "requests");
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,8 +252,8 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
+    que_thr_id = queuemgt_thread.get_id();
+    set_thread_name(que_thr_id, "queuemgt");
 
   } // wait here until threads join
 
-- 
2.43.0

