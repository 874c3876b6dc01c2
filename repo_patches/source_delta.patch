From 5c37f183f4d21d26ab2f02952429d8b4e3030ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 01/62] fix: reject overlong, surrogate and out of range
 sequences in UTF-8 validation

---
 src/pystd2025.cpp | 9 +++++++++
 src/pystd2026.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index e2e6090..558deb8 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -57,6 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Overlong encodings, surrogates and values past the last code point are not valid UTF-8.
+    const uint32_t smallest_codepoint[] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_codepoint[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if((unpacked >= 0xD800 && unpacked <= 0xDFFF) || unpacked > 0x10FFFF) {
+        return false;
+    }
+
     return true;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..44c989c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,6 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Overlong encodings, surrogates and values past the last code point are not valid UTF-8.
+    const uint32_t smallest_codepoint[] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_codepoint[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if((unpacked >= 0xD800 && unpacked <= 0xDFFF) || unpacked > 0x10FFFF) {
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 8a2aea77fc61d5a6068b0a7654cc1e2e7552a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 02/62] fix: load_bytes must not trust failed seeks or
 directories

---
 src/pystd2025_filesystem.cpp | 17 +++++++++++++++--
 src/pystd2026_filesystem.cpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index da786a1..d64df03 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -167,9 +167,22 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
+    struct stat sb;
+    // Opening a directory for reading succeeds but it has no loadable content.
+    if(fstat(fileno(f), &sb) != 0 || (sb.st_mode & S_IFMT) == S_IFDIR) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
+    // Not all files are seekable and seeking may fail.
+    if(fseek(f, 0, SEEK_END) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if(file_size < 0 || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     Bytes contents;
     contents.resize_to(file_size);
     auto bytes_read = fread(contents.data(), 1, file_size, f);
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..a3b8e0f 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -167,9 +167,22 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
+    struct stat sb;
+    // Opening a directory for reading succeeds but it has no loadable content.
+    if(fstat(fileno(f), &sb) != 0 || (sb.st_mode & S_IFMT) == S_IFDIR) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
+    // Not all files are seekable and seeking may fail.
+    if(fseek(f, 0, SEEK_END) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if(file_size < 0 || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     Bytes contents;
     contents.resize_to(file_size);
     auto bytes_read = fread(contents.data(), 1, file_size, f);
-- 
2.43.0


From 1a40ef5d1d4a0d6b6da5a46d0df372e38bcd9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 03/62] fix: readline_bytes must not append a zero byte to an
 unterminated last line

---
 src/pystd2025.cpp | 3 ---
 src/pystd2026.cpp | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 558deb8..bc67967 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1078,9 +1078,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 44c989c..78b7049 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1216,9 +1216,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From 9af09066d0fd8faeb5e92559216d044e7f9a1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 04/62] fix: iterating over file lines must not yield an extra
 element at the end

---
 include/pystd2025.hpp |  2 ++
 include/pystd2026.hpp |  2 ++
 src/pystd2025.cpp     | 15 ++++++++++++++-
 src/pystd2026.cpp     | 15 ++++++++++++++-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c838037..b996cd3 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1890,6 +1890,8 @@ private:
 
 class File {
 public:
+    friend class FileLineIterator;
+
     File(const char *fname, const char *modes);
 
     Bytes readline_bytes();
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..03fe2ff 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2158,6 +2158,8 @@ private:
 
 class File {
 public:
+    friend class FileLineIterator;
+
     File(const char *fname, const char *modes);
 
     Bytes readline_bytes();
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index bc67967..12278d0 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1052,7 +1052,20 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    // The end of file flag is set only after trying to read past the end,
+    // so look whether there is anything left to read.
+    const int c = fgetc(f->f);
+    if(c != EOF) {
+        ungetc(c, f->f);
+        return true;
+    }
+    if(!f->eof()) {
+        // Read error.
+        abort();
+    }
+    return false;
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 78b7049..3a40428 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1190,7 +1190,20 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    // The end of file flag is set only after trying to read past the end,
+    // so look whether there is anything left to read.
+    const int c = fgetc(f->f);
+    if(c != EOF) {
+        ungetc(c, f->f);
+        return true;
+    }
+    if(!f->eof()) {
+        // Read error.
+        abort();
+    }
+    return false;
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
-- 
2.43.0


From afe893f4b358f64983a25362e6db65e9241151d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 05/62] fix: move assigning a memory mapping must release the
 mapping it replaces

---
 include/pystd2025.hpp | 1 +
 include/pystd2026.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b996cd3..9cb6685 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2409,6 +2409,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping released(buf, bufsize);
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 03fe2ff..e4d31af 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2273,6 +2273,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping released(buf, bufsize);
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From 0633d64892092cacd85b6b4ad58d5471611c09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 06/62] fix: owning pointers must not pass a null pointer to
 their deleter

---
 include/pystd2025.hpp | 10 ++++++++--
 include/pystd2026.hpp | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9cb6685..8cd04ed 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -369,13 +369,19 @@ public:
     explicit unique_ptr(T *t) noexcept : ptr{t} {}
     unique_ptr(const unique_ptr<T, Deleter> &o) = delete;
     unique_ptr(unique_ptr<T, Deleter> &&o) noexcept : ptr{o.ptr} { o.ptr = nullptr; }
-    ~unique_ptr() { Deleter::del(ptr); }
+    ~unique_ptr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_ptr<T, Deleter> &operator=(const unique_ptr<T, Deleter> &o) = delete;
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             o.ptr = nullptr;
         }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e4d31af..bbe9534 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -500,13 +500,19 @@ public:
     explicit unique_ptr(T *t) noexcept : ptr{t} {}
     unique_ptr(const unique_ptr<T, Deleter> &o) = delete;
     unique_ptr(unique_ptr<T, Deleter> &&o) noexcept : ptr{o.ptr} { o.ptr = nullptr; }
-    ~unique_ptr() { Deleter::del(ptr); }
+    ~unique_ptr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_ptr<T, Deleter> &operator=(const unique_ptr<T, Deleter> &o) = delete;
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             o.ptr = nullptr;
         }
@@ -548,13 +554,19 @@ public:
         o.ptr = nullptr;
         o.array_size = 0;
     }
-    ~unique_arr() { Deleter::del(ptr); }
+    ~unique_arr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_arr &operator=(const unique_arr<T> &o) = delete;
 
     unique_arr &operator=(unique_arr<T> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
-- 
2.43.0


From cbe7fc790f8efa78f86e758053bd342125f89b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 07/62] fix: glob star must match empty strings and stay inside
 the text

---
 src/pystd2025_filesystem.cpp | 9 +++++++--
 src/pystd2026_filesystem.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index d64df03..4a257c7 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -26,12 +26,17 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star matches also an empty string.
+        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Nor do they match a question mark.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
@@ -43,7 +48,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index a3b8e0f..7c11c77 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,12 +26,17 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star matches also an empty string.
+        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Nor do they match a question mark.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
@@ -43,7 +48,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
-- 
2.43.0


From 5f9f24cc8ed21979e730953873eafbc431d102f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 08/62] fix: finding a substring must also look at the very end
 of the text

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 12278d0..941ebe6 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -457,7 +457,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3a40428..7015d77 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -468,7 +468,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 44906e05201377b935900a5317884d7f28cc2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 09/62] fix: glob must search below the directory it was given
 and expand ** only once

---
 src/pystd2025_filesystem.cpp | 19 +++++++++----------
 src/pystd2026_filesystem.cpp | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 4a257c7..aef234f 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -260,6 +260,9 @@ public:
                 }
             }
         }
+        if(parts.is_empty() || parts.back() == "**") {
+            throw PyException("A glob pattern must end in a segment other than **.");
+        }
         enter_subdir(Path(), root_dir.c_str());
     }
 
@@ -296,20 +299,17 @@ public:
 
 private:
     void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
+        // The arguments may refer to data owned by dir_stack, which changes below.
+        const Path full_path = parent_dir / subdir_name;
         auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
         if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
             const bool do_starstar = parts[new_depth] == "**";
+            // ** may expand to empty.
+            dir_stack.emplace_back(
+                do_starstar ? new_depth + 1 : new_depth, full_path, unique_ptr<DIR, DirCloser>(sd));
             if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
+                auto sstar_dirs = glob_starstar_dirs(full_path);
                 for(auto &sdir : sstar_dirs) {
                     auto *ssd = opendir(sdir.c_str());
                     if(ssd) {
@@ -317,7 +317,6 @@ private:
                             new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
                     }
                 }
-            } else {
             }
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 7c11c77..acf03ec 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -260,6 +260,9 @@ public:
                 }
             }
         }
+        if(parts.is_empty() || parts.back() == "**") {
+            throw PyException("A glob pattern must end in a segment other than **.");
+        }
         enter_subdir(Path(), root_dir.c_str());
     }
 
@@ -296,20 +299,17 @@ public:
 
 private:
     void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
+        // The arguments may refer to data owned by dir_stack, which changes below.
+        const Path full_path = parent_dir / subdir_name;
         auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
         if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
             const bool do_starstar = parts[new_depth] == "**";
+            // ** may expand to empty.
+            dir_stack.emplace_back(
+                do_starstar ? new_depth + 1 : new_depth, full_path, unique_ptr<DIR, DirCloser>(sd));
             if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
+                auto sstar_dirs = glob_starstar_dirs(full_path);
                 for(auto &sdir : sstar_dirs) {
                     auto *ssd = opendir(sdir.c_str());
                     if(ssd) {
@@ -317,7 +317,6 @@ private:
                             new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
                     }
                 }
-            } else {
             }
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
-- 
2.43.0


From 973220faff11bee0477be5bfcad9083697e3a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 10/62] fix: glob must also work on file systems that do not
 report entry types

---
 src/pystd2025_filesystem.cpp | 14 ++++++++++++--
 src/pystd2026_filesystem.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index aef234f..676e971 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -66,6 +66,16 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_directory(const Path &parent, const dirent *entry) {
+    if(entry->d_type != DT_UNKNOWN) {
+        return entry->d_type == DT_DIR;
+    }
+    // Not all file systems store the type in the directory entry.
+    struct stat sb;
+    const Path full_path = parent / entry->d_name;
+    return lstat(full_path.c_str(), &sb) == 0 && (sb.st_mode & S_IFMT) == S_IFDIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -76,7 +86,7 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
+        if(entry->d_name[0] != '.' && is_directory(root, entry)) {
             dirs.push_back(root / entry->d_name);
         }
         entry = readdir(d);
@@ -289,7 +299,7 @@ public:
                 if(is_last_part) {
                     return dir_stack.back().path / entry->d_name;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_directory(dir_stack.back().path, entry)) {
                         enter_subdir(dir_stack.back().path, entry->d_name);
                     }
                 }
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index acf03ec..cbba6f6 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -66,6 +66,16 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_directory(const Path &parent, const dirent *entry) {
+    if(entry->d_type != DT_UNKNOWN) {
+        return entry->d_type == DT_DIR;
+    }
+    // Not all file systems store the type in the directory entry.
+    struct stat sb;
+    const Path full_path = parent / entry->d_name;
+    return lstat(full_path.c_str(), &sb) == 0 && (sb.st_mode & S_IFMT) == S_IFDIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -76,7 +86,7 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
+        if(entry->d_name[0] != '.' && is_directory(root, entry)) {
             dirs.push_back(root / entry->d_name);
         }
         entry = readdir(d);
@@ -289,7 +299,7 @@ public:
                 if(is_last_part) {
                     return dir_stack.back().path / entry->d_name;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_directory(dir_stack.back().path, entry)) {
                         enter_subdir(dir_stack.back().path, entry->d_name);
                     }
                 }
-- 
2.43.0


From 0fa2d310b4c69b992dfc6eb24d5488437dd16794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 11/62] fix: the root directory must not turn into an empty
 path

---
 src/pystd2025_filesystem.cpp | 10 +++++-----
 src/pystd2026_filesystem.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 676e971..3a25917 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -4,7 +4,6 @@
 #include <pystd2025.hpp>
 #include <sys/stat.h>
 #include <dirent.h>
-#include <assert.h>
 
 // Currently does only Posix paths.
 
@@ -107,13 +106,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -145,9 +144,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') { // Only the root directory ends in a slash.
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index cbba6f6..13e0f8f 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -4,7 +4,6 @@
 #include <pystd2026.hpp>
 #include <sys/stat.h>
 #include <dirent.h>
-#include <assert.h>
 
 // Currently does only Posix paths.
 
@@ -107,13 +106,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -145,9 +144,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') { // Only the root directory ends in a slash.
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From 187d03becf5a2b621a3af277cb8946d15ebc271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 12/62] fix: hash sets must be iterable

---
 include/pystd2026_hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..aa7efc7 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -315,7 +315,7 @@ private:
 
 template<WellBehaved Key> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
@@ -327,7 +327,7 @@ public:
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t> it;
 };
 
 struct HashInsertResult {
-- 
2.43.0


From 29a061b09b90310bf87213dc1c540dd5743bc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 13/62] fix: removing from a hash map must destroy the key as
 well

---
 include/pystd2025.hpp           | 1 +
 include/pystd2026_hashtable.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 8cd04ed..6f1d728 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1988,6 +1988,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask;
                     const auto next_slot = (slot + 1) & mod_mask;
                     if(data.md[previous_slot].state == SlotState::Empty &&
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index aa7efc7..0cfea30 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -75,6 +75,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From ec7582e25e46a855ca847c76f06b9523ff2ac3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 14/62] fix: hash map lookups must terminate and stay correct
 after removals

---
 include/pystd2025.hpp           | 43 ++++++++++++++++++++-------------
 include/pystd2026_hashtable.hpp | 43 ++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 6f1d728..f3456ba 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1931,6 +1931,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         mod_mask = initial_table_size - 1;
@@ -1967,12 +1968,17 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
+        const auto hashval = hash_for(key);
+        if(auto *existing = lookup(key)) {
+            *existing = pystd2025::move(v);
+            return *existing;
+        }
+        // The argument might live inside the table, which can be reallocated.
+        Key new_key(key);
         if(fill_ratio() >= MAX_LOAD) {
             grow();
         }
-
-        const auto hashval = hash_for(key);
-        return insert_internal(hashval, key, pystd2025::move(v));
+        return insert_internal(hashval, pystd2025::move(new_key), pystd2025::move(v));
     }
 
     void remove(const Key &key) {
@@ -1996,6 +2002,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -2031,6 +2038,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -2122,33 +2130,31 @@ private:
         return slot;
     }
 
-    Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
+    // The key must not be in the table already.
+    Value &insert_internal(size_t hashval, Key &&key, Value &&v) {
         auto slot = hash_to_slot(hashval);
         while(true) {
             if(data.md[slot].state != SlotState::HasValue) {
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
+                if(data.md[slot].state == SlotState::Tombstone) {
+                    --num_tombstones;
+                }
+                new(key_loc) Key{pystd2025::move(key)};
                 new(value_loc) Value{pystd2025::move(v)};
                 data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
                 ++num_entries;
                 return *value_loc;
             }
-            if(data.md[slot].bloom_matches(hashval)) {
-                auto *potential_key = data.keyptr(slot);
-                if(*potential_key == key) {
-                    auto *value_loc = data.valueptr(slot);
-                    *value_loc = pystd2025::move(v);
-                    return *value_loc;
-                }
-            }
             slot = (slot + 1) & mod_mask;
         }
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // If most of the used slots are tombstones, the table only needs cleaning up.
+        const bool enlarge = 2 * num_entries >= num_tombstones;
+        const auto new_size = enlarge ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (enlarge ? 1 : 0);
         const auto new_mod_mask = new_size - 1;
         MapData grown;
 
@@ -2162,11 +2168,13 @@ private:
         size_in_powers_of_two = new_powers_of_two;
         mod_mask = new_mod_mask;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
                 auto hashval = hash_for(old_key);
-                insert_internal(hashval, old_key, pystd2025::move(*old.valueptr(i)));
+                insert_internal(
+                    hashval, pystd2025::move(old_key), pystd2025::move(*old.valueptr(i)));
             }
         }
     }
@@ -2181,12 +2189,13 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    double fill_ratio() const { return double(num_entries) / table_size(); }
+    double fill_ratio() const { return double(num_entries + num_tombstones) / table_size(); }
     static constexpr double MAX_LOAD = 0.7;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     size_t mod_mask;
     int32_t size_in_powers_of_two;
 };
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 0cfea30..09d2730 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -19,6 +19,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -54,12 +55,17 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
+        const auto hashval = hash_for(key);
+        if(auto *existing = lookup(key)) {
+            *existing = ::pystd2026::move(v);
+            return *existing;
+        }
+        // The argument might live inside the table, which can be reallocated.
+        Key new_key(key);
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
             grow();
         }
-
-        const auto hashval = hash_for(key);
-        return insert_internal(hashval, key, ::pystd2026::move(v));
+        return insert_internal(hashval, ::pystd2026::move(new_key), ::pystd2026::move(v));
     }
 
     void remove(const Key &key) {
@@ -83,6 +89,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -118,6 +125,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -209,33 +217,31 @@ private:
         return slot;
     }
 
-    Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
+    // The key must not be in the table already.
+    Value &insert_internal(size_t hashval, Key &&key, Value &&v) {
         auto slot = hash_to_slot(hashval);
         while(true) {
             if(data.md[slot].state != SlotState::HasValue) {
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
+                if(data.md[slot].state == SlotState::Tombstone) {
+                    --num_tombstones;
+                }
+                new(key_loc) Key{::pystd2026::move(key)};
                 new(value_loc) Value{::pystd2026::move(v)};
                 data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
                 ++num_entries;
                 return *value_loc;
             }
-            if(data.md[slot].bloom_matches(hashval)) {
-                auto *potential_key = data.keyptr(slot);
-                if(*potential_key == key) {
-                    auto *value_loc = data.valueptr(slot);
-                    *value_loc = ::pystd2026::move(v);
-                    return *value_loc;
-                }
-            }
             slot = (slot + 1) & mod_mask();
         }
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // If most of the used slots are tombstones, the table only needs cleaning up.
+        const bool enlarge = 2 * num_entries >= num_tombstones;
+        const auto new_size = enlarge ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (enlarge ? 1 : 0);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -247,11 +253,13 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
                 auto hashval = hash_for(old_key);
-                insert_internal(hashval, old_key, ::pystd2026::move(*old.valueptr(i)));
+                insert_internal(
+                    hashval, ::pystd2026::move(old_key), ::pystd2026::move(*old.valueptr(i)));
             }
         }
     }
@@ -268,13 +276,14 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    size_t fill_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From d464f974b2504c26478cbc0946fa71a0214a8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 15/62] fix: moving a hash map must leave a valid empty map
 behind and release what it replaces

---
 include/pystd2025.hpp           | 56 +++++++++++++++++++++++++++------
 include/pystd2026_hashtable.hpp | 52 ++++++++++++++++++++++++------
 2 files changed, 89 insertions(+), 19 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index f3456ba..7336b18 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1930,18 +1930,35 @@ public:
     friend class HashMapIterator<Key, Value>;
     HashMap() noexcept {
         salt = (size_t)this;
-        num_entries = 0;
-        num_tombstones = 0;
-        size_in_powers_of_two = 4;
-        auto initial_table_size = 1 << size_in_powers_of_two;
-        mod_mask = initial_table_size - 1;
-        data.md = unique_arr<SlotMetadata>(initial_table_size);
-        data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        allocate_table();
+    }
+
+    HashMap(HashMap &&o) noexcept
+        : data{pystd2025::move(o.data)}, salt{o.salt}, num_entries{o.num_entries},
+          num_tombstones{o.num_tombstones}, mod_mask{o.mod_mask},
+          size_in_powers_of_two{o.size_in_powers_of_two} {
+        o.num_entries = 0;
+        o.num_tombstones = 0;
+    }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            data = pystd2025::move(o.data);
+            salt = o.salt;
+            num_entries = o.num_entries;
+            num_tombstones = o.num_tombstones;
+            mod_mask = o.mod_mask;
+            size_in_powers_of_two = o.size_in_powers_of_two;
+            o.num_entries = 0;
+            o.num_tombstones = 0;
+        }
+        return *this;
     }
 
     Value *lookup(const Key &key) const {
+        if(table_size() == 0) {
+            return nullptr;
+        }
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
         while(true) {
@@ -1975,6 +1992,9 @@ public:
         }
         // The argument might live inside the table, which can be reallocated.
         Key new_key(key);
+        if(table_size() == 0) {
+            allocate_table();
+        }
         if(fill_ratio() >= MAX_LOAD) {
             grow();
         }
@@ -1982,6 +2002,9 @@ public:
     }
 
     void remove(const Key &key) {
+        if(table_size() == 0) {
+            return;
+        }
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
         while(true) {
@@ -2074,6 +2097,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
@@ -2118,6 +2142,18 @@ private:
         }
     };
 
+    void allocate_table() noexcept {
+        num_entries = 0;
+        num_tombstones = 0;
+        size_in_powers_of_two = 4;
+        auto initial_table_size = 1 << size_in_powers_of_two;
+        mod_mask = initial_table_size - 1;
+        data.md = unique_arr<SlotMetadata>(initial_table_size);
+        data.reset_hash_values();
+        data.keydata = Bytes(initial_table_size * sizeof(Key));
+        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+    }
+
     size_t hash_to_slot(size_t hashval) const {
         const size_t total_bits = sizeof(size_t) * 8;
         size_t consumed_bits = 0;
@@ -2208,7 +2244,7 @@ template<typename Key, typename Value> struct KeyValue {
 template<typename Key, typename Value> class HashMapIterator final {
 public:
     HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
-        if(offset == 0 && !map->data.has_value_at(offset)) {
+        if(offset < map->table_size() && !map->data.has_value_at(offset)) {
             advance();
         }
     }
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 09d2730..102badc 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -18,17 +18,33 @@ public:
     friend class HashMapIterator<Key, Value>;
     HashMap() noexcept {
         salt = (size_t)this;
-        num_entries = 0;
-        num_tombstones = 0;
-        size_in_powers_of_two = 4;
-        auto initial_table_size = 1 << size_in_powers_of_two;
-        data.md = unique_arr<SlotMetadata>(initial_table_size);
-        data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        allocate_table();
+    }
+
+    HashMap(HashMap &&o) noexcept
+        : data{::pystd2026::move(o.data)}, salt{o.salt}, num_entries{o.num_entries},
+          num_tombstones{o.num_tombstones}, size_in_powers_of_two{o.size_in_powers_of_two} {
+        o.num_entries = 0;
+        o.num_tombstones = 0;
+    }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            data = ::pystd2026::move(o.data);
+            salt = o.salt;
+            num_entries = o.num_entries;
+            num_tombstones = o.num_tombstones;
+            size_in_powers_of_two = o.size_in_powers_of_two;
+            o.num_entries = 0;
+            o.num_tombstones = 0;
+        }
+        return *this;
     }
 
     Value *lookup(const Key &key) const {
+        if(table_size() == 0) {
+            return nullptr;
+        }
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
         while(true) {
@@ -62,6 +78,9 @@ public:
         }
         // The argument might live inside the table, which can be reallocated.
         Key new_key(key);
+        if(table_size() == 0) {
+            allocate_table();
+        }
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
             grow();
         }
@@ -69,6 +88,9 @@ public:
     }
 
     void remove(const Key &key) {
+        if(table_size() == 0) {
+            return;
+        }
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
         while(true) {
@@ -161,6 +183,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
@@ -205,6 +228,17 @@ private:
         }
     };
 
+    void allocate_table() noexcept {
+        num_entries = 0;
+        num_tombstones = 0;
+        size_in_powers_of_two = 4;
+        auto initial_table_size = 1 << size_in_powers_of_two;
+        data.md = unique_arr<SlotMetadata>(initial_table_size);
+        data.reset_hash_values();
+        data.keydata = Bytes(initial_table_size * sizeof(Key));
+        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+    }
+
     size_t hash_to_slot(size_t hashval) const {
         const size_t total_bits = sizeof(size_t) * 8;
         size_t consumed_bits = 0;
@@ -295,7 +329,7 @@ template<typename Key, typename Value> struct KeyValue {
 template<typename Key, typename Value> class HashMapIterator final {
 public:
     HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
-        if(offset == 0 && !map->data.has_value_at(offset)) {
+        if(offset < map->table_size() && !map->data.has_value_at(offset)) {
             advance();
         }
     }
-- 
2.43.0


From 76bd07ea5fb53b09b1d88525fd852d18651aa8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 16/62] fix: vectors must not reallocate while there is
 capacity left

---
 include/pystd2025.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 7336b18..ca393fd 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1057,9 +1057,13 @@ public:
     T *begin() const { return const_cast<T *>(objptr(0)); }
     T *end() const { return const_cast<T *>(objptr(num_entries)); }
 
-    void reserve(size_t new_size) {
-        if(new_size > size()) {
-            resize_to(new_size);
+    void reserve(size_t new_capacity) {
+        const auto current_capacity = capacity();
+        if(new_capacity > current_capacity) {
+            while(new_capacity < current_capacity * 2) {
+                new_capacity *= 2;
+            }
+            resize_to(new_capacity);
         }
     }
 
-- 
2.43.0


From d255b860020fc549667d434b93bee63d071b2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 17/62] fix: emplacing a copy of a vector element must survive
 reallocation

---
 include/pystd2025.hpp | 8 +++++++-
 include/pystd2026.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index ca393fd..9b57f46 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -923,8 +923,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && pystd2025::is_same_v<decltype(args...[0]), T>) {
             this->push_back(pystd2025::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments might refer to the contents of this vector.
+            T tmp(pystd2025::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2025::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(pystd2025::forward<decltype(args)>(args)...);
             ++num_entries;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index bbe9534..f7ef4fb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1095,8 +1095,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments might refer to the contents of this vector.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From 0c2bf9492f516e5aecfd1d2e0fd4b729cc7baa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 18/62] fix: appending default values must construct each
 element in its own place

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f7ef4fb..00eb7f5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1259,7 +1259,7 @@ public:
         reserve(size() + num_copies);
         T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(obj + i) T{};
         }
         num_entries += num_copies;
     }
-- 
2.43.0


From ee736e3f9e65456b6a0657ff50513fd423c515c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 19/62] fix: vectors must notice when they can not get memory

---
 include/pystd2025.hpp | 3 +++
 include/pystd2026.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9b57f46..43e198d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1117,6 +1117,9 @@ private:
         const size_t alignment = alignof(T);
 #endif
         char *new_buf = (char *)aligned_alloc(alignment, allocation_size);
+        if(!new_buf) {
+            bootstrap_throw("Out of memory.");
+        }
         for(size_t i = 0; i < num_entries; ++i) {
             T *obj = objptr(i);
             new(new_buf + i * sizeof(T)) T(::pystd2025::move(*obj));
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 00eb7f5..cfad8d3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1303,6 +1303,9 @@ private:
         const size_t alignment = alignof(T);
 #endif
         char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);
+        if(!new_buf) {
+            bootstrap_throw("Out of memory.");
+        }
         for(size_t i = 0; i < num_entries; ++i) {
             T *obj = objptr(i);
             new(new_buf + i * sizeof(T)) T(::pystd2026::move(*obj));
-- 
2.43.0


From be20969aef310203c37e0f581875c94b44ee15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 20/62] fix: vectors must refuse capacities whose byte size
 overflows

---
 include/pystd2025.hpp | 3 +++
 include/pystd2026.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 43e198d..9918714 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1102,6 +1102,9 @@ private:
         if(new_capacity < num_entries) {
             bootstrap_throw("Shrinking too small.");
         }
+        if(new_capacity > ((size_t)-1) / sizeof(T)) {
+            bootstrap_throw("Requested vector capacity is too big.");
+        }
         if(new_capacity < MIN_CAPACITY) {
             // To avoid multiple small allocations at the beginning.
             new_capacity = MIN_CAPACITY;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index cfad8d3..22676f3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1288,6 +1288,9 @@ private:
         if(new_capacity < num_entries) {
             bootstrap_throw("Shrinking too small.");
         }
+        if(new_capacity > ((size_t)-1) / sizeof(T)) {
+            bootstrap_throw("Requested vector capacity is too big.");
+        }
         if(new_capacity < MIN_CAPACITY) {
             // To avoid multiple small allocations at the beginning.
             new_capacity = MIN_CAPACITY;
-- 
2.43.0


From 73b02daa2fe6b345ab21b72b8dc4823c3994329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 21/62] fix: an expected must hand out its value when it has
 one

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9918714..90e3731 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -238,7 +238,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!*this) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 22676f3..9c12cc8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!*this) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From ec961039617ad5a7dc486cecda5cc9e164f574dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 22/62] fix: moving an expected must transfer what the source
 holds

---
 include/pystd2025.hpp | 4 ++--
 include/pystd2026.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 90e3731..74f5d7d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -208,7 +208,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(pystd2025::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(pystd2025::move(o.error()));
         }
     }
@@ -225,7 +225,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(pystd2025::move(*reinterpret_cast<V *>(content)));
+                new(content) V(pystd2025::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(pystd2025::move(*reinterpret_cast<E *>(o.content)));
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9c12cc8..e545ae2 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From d05d3662f8a63dbd54176849452b33b1ddbea2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 23/62] fix: byte buffers must stay within their contents

Popping everything from the front underflowed the size, back() looked at
the capacity, indexing and removal were not checked against the size and
ordering got the second comparison backwards.
---
 include/pystd2025.hpp | 9 +++++++--
 include/pystd2026.hpp | 9 +++++++--
 src/pystd2025.cpp     | 8 ++++++--
 src/pystd2026.cpp     | 8 ++++++--
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 74f5d7d..362874c 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -789,7 +789,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("Bytes index out of bounds.");
+        }
+        return buf[i];
+    }
 
     Bytes &operator=(const Bytes &) noexcept;
 
@@ -823,7 +828,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e545ae2..5271dbd 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -937,7 +937,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("Bytes index out of bounds.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
@@ -973,7 +978,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 941ebe6..3feae05 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -240,8 +240,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
@@ -335,7 +336,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
@@ -343,6 +344,9 @@ void Bytes::remove(size_t from, size_t to) {
     if(from > to) {
         throw PyException("Invalid sequence to remove.");
     }
+    if(to > size()) {
+        throw PyException("Sequence to remove goes past the end.");
+    }
     if(from == to) {
         return;
     }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7015d77..51420e5 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -251,8 +251,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
@@ -346,7 +347,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
@@ -354,6 +355,9 @@ void Bytes::remove(size_t from, size_t to) {
     if(from > to) {
         throw PyException("Invalid sequence to remove.");
     }
+    if(to > size()) {
+        throw PyException("Sequence to remove goes past the end.");
+    }
     if(from == to) {
         return;
     }
-- 
2.43.0


From 7c23ba3e1c0fbf4ddb2ead24cb2144999e4d0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 24/62] fix: byte buffers must accept parts of themselves as
 input

---
 src/pystd2025.cpp | 20 ++++++++++++++------
 src/pystd2026.cpp | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 3feae05..9d0c932 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -206,6 +206,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes copy(buf_in, in_size);
+        assign(copy.data(), copy.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -216,8 +221,12 @@ void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
     if(i >= bufsize) {
         throw PyException("Invalid index for insert.");
     }
-    // FIXME
-    assert(!is_ptr_within(buf_in));
+    if(is_ptr_within(buf_in)) {
+        // FIXME, make fast.
+        Bytes copy(buf_in, in_size);
+        insert(i, copy.data(), copy.size());
+        return;
+    }
     auto new_size = bufsize + in_size;
     grow_to(new_size);
     auto splice_point = buf.get() + i;
@@ -275,10 +284,9 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
-    while(begin != end) {
-        append(*begin);
-        ++begin;
-    }
+    // The data might come from this buffer, which may move when it grows.
+    Bytes copy(begin, end);
+    *this += copy;
 }
 
 void Bytes::extend(size_t num_bytes) noexcept {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 51420e5..41211ba 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -217,6 +217,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes copy(buf_in, in_size);
+        assign(copy.data(), copy.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -227,8 +232,12 @@ void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
     if(i >= bufsize) {
         throw PyException("Invalid index for insert.");
     }
-    // FIXME
-    assert(!is_ptr_within(buf_in));
+    if(is_ptr_within(buf_in)) {
+        // FIXME, make fast.
+        Bytes copy(buf_in, in_size);
+        insert(i, copy.data(), copy.size());
+        return;
+    }
     auto new_size = bufsize + in_size;
     grow_to(new_size);
     auto splice_point = buf.get() + i;
@@ -286,10 +295,9 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
-    while(begin != end) {
-        append(*begin);
-        ++begin;
-    }
+    // The data might come from this buffer, which may move when it grows.
+    Bytes copy(begin, end);
+    *this += copy;
 }
 
 void Bytes::extend(size_t num_bytes) noexcept {
-- 
2.43.0


From 5efc6b7e83a5695009274fc19f1e0673725db94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 25/62] fix: C strings must stay terminated when cleared, moved
 from, resized or trimmed

---
 include/pystd2025.hpp | 45 ++++++++++++++++++++++++++++---------
 include/pystd2026.hpp | 41 +++++++++++++++++++++++++---------
 src/pystd2025.cpp     | 50 ++++++++++++++++++++++++++++-------------
 src/pystd2026.cpp     | 52 ++++++++++++++++++++++++++++++-------------
 4 files changed, 136 insertions(+), 52 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 362874c..c624764 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1469,11 +1469,14 @@ public:
     CString(const CStringView &view);
     explicit CString(const char *txt, size_t txtsize = -1);
 
-    const char *c_str() const { return bytes.data(); }
+    const char *c_str() const { return bytes.is_empty() ? "" : bytes.data(); }
 
-    const char *data() const { return bytes.data(); }
+    const char *data() const { return c_str(); }
 
-    char *mutable_data() { return bytes.data(); }
+    char *mutable_data() {
+        ensure_terminator();
+        return bytes.data();
+    }
 
     CStringView view() const;
 
@@ -1487,7 +1490,12 @@ public:
 
     CString substr(size_t offset, size_t length = -1) const;
 
-    char operator[](size_t i) const { return bytes[i]; }
+    char operator[](size_t i) const {
+        if(i > size()) {
+            bootstrap_throw("CString index out of bounds.");
+        }
+        return c_str()[i];
+    }
 
     void operator=(const pystd2025::CString &) noexcept;
     void operator=(CString &&o) noexcept {
@@ -1496,8 +1504,13 @@ public:
         }
     }
 
-    bool operator==(const CString &o) const { return bytes == o.bytes; }
-    bool operator<(const CString &o) const { return bytes < o.bytes; }
+    bool operator==(const CString &o) const { return view() == o.view(); }
+    bool operator<(const CString &o) const {
+        if(is_empty() || o.is_empty()) {
+            return is_empty() && !o.is_empty();
+        }
+        return bytes < o.bytes;
+    }
     // Fixme: add <=>
 
     bool operator==(const char *str) const;
@@ -1515,7 +1528,9 @@ public:
     void append(const char *str, size_t strsize = -1);
     void append(const char *start, const char *stop);
 
-    template<typename Hasher> void feed_hash(Hasher &h) const { bytes.feed_hash(h); }
+    template<typename Hasher> void feed_hash(Hasher &h) const {
+        h.feed_bytes(c_str(), size() + 1);
+    }
 
     template<typename T = CString> Vector<T> split() const;
 
@@ -1526,8 +1541,8 @@ public:
     void split_by(char c, CStringViewCallback cb, void *ctx) const;
 
     bool is_empty() const {
-        // The buffer always has a null terminator.
-        return bytes.size() == 1;
+        // The buffer has a null terminator unless there is no buffer.
+        return bytes.size() <= 1;
     }
 
     char front() const { return bytes.front(); }
@@ -1545,9 +1560,15 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    // When growing, the caller must fill in the new characters.
+    void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("Sequence to remove goes past the end.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
@@ -1557,6 +1578,8 @@ private:
 
     void check_embedded_nuls() const;
 
+    void ensure_terminator();
+
     Bytes bytes;
 };
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5271dbd..b77383a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1729,11 +1729,14 @@ public:
     CString(const CStringView &view);
     explicit CString(const char *txt, size_t txtsize = -1);
 
-    const char *c_str() const { return bytes.data(); }
+    const char *c_str() const { return bytes.is_empty() ? "" : bytes.data(); }
 
-    const char *data() const { return bytes.data(); }
+    const char *data() const { return c_str(); }
 
-    char *mutable_data() { return bytes.data(); }
+    char *mutable_data() {
+        ensure_terminator();
+        return bytes.data();
+    }
 
     CStringView view() const;
     ZStringView zview() const;
@@ -1748,7 +1751,12 @@ public:
 
     CString substr(size_t offset, size_t length = -1) const;
 
-    char operator[](size_t i) const { return bytes[i]; }
+    char operator[](size_t i) const {
+        if(i > size()) {
+            bootstrap_throw("CString index out of bounds.");
+        }
+        return c_str()[i];
+    }
 
     void operator=(const ::pystd2026::CString &) noexcept;
     void operator=(CString &&o) noexcept {
@@ -1757,8 +1765,13 @@ public:
         }
     }
 
-    bool operator==(const CString &o) const { return bytes == o.bytes; }
-    int operator<=>(const CString &o) const { return bytes <=> o.bytes; }
+    bool operator==(const CString &o) const { return view() == o.view(); }
+    int operator<=>(const CString &o) const {
+        if(is_empty() || o.is_empty()) {
+            return (is_empty() ? 0 : 1) - (o.is_empty() ? 0 : 1);
+        }
+        return bytes <=> o.bytes;
+    }
 
     bool operator==(const char *str) const;
     bool operator==(const CStringView &o) const;
@@ -1791,8 +1804,8 @@ public:
     void split_by(char c, CStringViewCallback cb, void *ctx) const;
 
     bool is_empty() const {
-        // The buffer always has a null terminator.
-        return bytes.size() == 1;
+        // The buffer has a null terminator unless there is no buffer.
+        return bytes.size() <= 1;
     }
 
     char front() const { return bytes.front(); }
@@ -1810,9 +1823,15 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    // When growing, the caller must fill in the new characters.
+    void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("Sequence to remove goes past the end.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
@@ -1822,6 +1841,8 @@ private:
 
     void check_embedded_nuls() const;
 
+    void ensure_terminator();
+
     Bytes bytes;
 };
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 9d0c932..87109d4 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -559,7 +559,9 @@ void CString::check_embedded_nuls() const {
 }
 
 void CString::strip() {
-    assert(!bytes.is_empty());
+    if(is_empty()) {
+        return;
+    }
     const char *const start = bytes.data();
     const char *const end = bytes.data() + bytes.size();
     size_t trailing_whitespace = 0;
@@ -585,9 +587,8 @@ void CString::strip() {
 }
 
 size_t CString::size() const {
-    auto s = bytes.size();
-    assert(s > 0);
-    return s - 1;
+    // A cleared or moved-from string has no storage at all.
+    return bytes.is_empty() ? 0 : bytes.size() - 1;
 }
 
 CString CString::substr(size_t offset, size_t length) const {
@@ -674,15 +675,16 @@ CString &CString::operator+=(const CString &o) {
         CString copy(o);
         return *this += copy;
     }
+    if(o.is_empty()) {
+        return *this;
+    }
     bytes.pop_back();
     bytes += o.bytes;
     return *this;
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
@@ -703,9 +705,9 @@ void CString::append(const char c) {
     if(c == '\0') {
         throw PyException("Tried to add a null byte to a CString.");
     }
-    bytes.pop_back();
-    bytes.append(c);
+    ensure_terminator();
     bytes.append('\0');
+    bytes.data()[bytes.size() - 2] = c;
 }
 
 void CString::append(const char *str, size_t strsize) {
@@ -720,7 +722,7 @@ void CString::append(const char *str, size_t strsize) {
 
 void CString::append(const char *start, const char *stop) { append(start, stop - start); }
 
-CStringView CString::view() const { return CStringView{bytes.data(), bytes.size() - 1}; }
+CStringView CString::view() const { return CStringView{c_str(), size()}; }
 
 char CString::back() const {
     if(bytes.size() < 2) {
@@ -731,9 +733,26 @@ char CString::back() const {
 }
 
 void CString::pop_back() noexcept {
+    if(is_empty()) {
+        return;
+    }
     bytes.pop_back();
-    bytes.pop_back();
-    bytes.append('\0');
+    bytes.data()[bytes.size() - 1] = '\0';
+}
+
+void CString::resize(size_t new_size) noexcept {
+    const auto old_size = size();
+    bytes.resize(new_size + 1);
+    for(size_t i = old_size; i < new_size; ++i) {
+        bytes.data()[i] = '\0';
+    }
+    bytes.data()[new_size] = '\0';
+}
+
+void CString::ensure_terminator() {
+    if(bytes.is_empty()) {
+        bytes.append('\0');
+    }
 }
 
 void CString::insert(size_t i, const CStringView &v) noexcept {
@@ -742,18 +761,19 @@ void CString::insert(size_t i, const CStringView &v) noexcept {
         insert(i, string_copy.view());
         return;
     }
+    ensure_terminator();
     bytes.insert(i, v.data(), v.size());
 }
 
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 41211ba..7974478 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -663,7 +663,9 @@ void CString::check_embedded_nuls() const {
 }
 
 void CString::strip() {
-    assert(!bytes.is_empty());
+    if(is_empty()) {
+        return;
+    }
     const char *const start = bytes.data();
     const char *const end = bytes.data() + bytes.size();
     size_t trailing_whitespace = 0;
@@ -689,9 +691,8 @@ void CString::strip() {
 }
 
 size_t CString::size() const {
-    auto s = bytes.size();
-    assert(s > 0);
-    return s - 1;
+    // A cleared or moved-from string has no storage at all.
+    return bytes.is_empty() ? 0 : bytes.size() - 1;
 }
 
 CString CString::substr(size_t offset, size_t length) const {
@@ -757,15 +758,16 @@ CString &CString::operator+=(const CString &o) {
         CString copy(o);
         return *this += copy;
     }
+    if(o.is_empty()) {
+        return *this;
+    }
     bytes.pop_back();
     bytes += o.bytes;
     return *this;
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
@@ -786,9 +788,9 @@ void CString::append(const char c) {
     if(c == '\0') {
         throw PyException("Tried to add a null byte to a CString.");
     }
-    bytes.pop_back();
-    bytes.append(c);
+    ensure_terminator();
     bytes.append('\0');
+    bytes.data()[bytes.size() - 2] = c;
 }
 
 void CString::append(const char *str, size_t strsize) {
@@ -803,12 +805,12 @@ void CString::append(const char *str, size_t strsize) {
 
 void CString::append(const char *start, const char *stop) { append(start, stop - start); }
 
-CStringView CString::view() const { return CStringView{bytes.data(), bytes.size() - 1}; }
+CStringView CString::view() const { return CStringView{c_str(), size()}; }
 
 ZStringView CString::zview() const {
     // Contains the data up to the first zero byte, even
     // if it is an embedded null.
-    return ZStringView{bytes.data()};
+    return ZStringView{c_str()};
 }
 
 bool ZStringView::operator==(const char *text) const noexcept { return strcmp(buf, text) == 0; }
@@ -822,9 +824,26 @@ char CString::back() const {
 }
 
 void CString::pop_back() noexcept {
+    if(is_empty()) {
+        return;
+    }
     bytes.pop_back();
-    bytes.pop_back();
-    bytes.append('\0');
+    bytes.data()[bytes.size() - 1] = '\0';
+}
+
+void CString::resize(size_t new_size) noexcept {
+    const auto old_size = size();
+    bytes.resize(new_size + 1);
+    for(size_t i = old_size; i < new_size; ++i) {
+        bytes.data()[i] = '\0';
+    }
+    bytes.data()[new_size] = '\0';
+}
+
+void CString::ensure_terminator() {
+    if(bytes.is_empty()) {
+        bytes.append('\0');
+    }
 }
 
 void CString::insert(size_t i, const CStringView &v) noexcept {
@@ -833,18 +852,19 @@ void CString::insert(size_t i, const CStringView &v) noexcept {
         insert(i, string_copy.view());
         return;
     }
+    ensure_terminator();
     bytes.insert(i, v.data(), v.size());
 }
 
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0


From 4ee0f1bf1d1f9716d375ca113356a66b35fa0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 26/62] fix: copy assignment of C strings was declared but
 missing

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c624764..0f76255 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1497,7 +1497,7 @@ public:
         return c_str()[i];
     }
 
-    void operator=(const pystd2025::CString &) noexcept;
+    void operator=(const pystd2025::CString &o) noexcept { bytes = o.bytes; }
     void operator=(CString &&o) noexcept {
         if(this != &o) {
             bytes = move(o.bytes);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b77383a..9d8bbe7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1758,7 +1758,7 @@ public:
         return c_str()[i];
     }
 
-    void operator=(const ::pystd2026::CString &) noexcept;
+    void operator=(const ::pystd2026::CString &o) noexcept { bytes = o.bytes; }
     void operator=(CString &&o) noexcept {
         if(this != &o) {
             bytes = move(o.bytes);
-- 
2.43.0


From bfc6b1032f6e0718395a4234945f67cc6c73962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 27/62] fix: substrings must stay inside the string they are
 taken from

---
 src/pystd2025.cpp | 15 +++++++++++----
 src/pystd2026.cpp | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 87109d4..8bbbcf1 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -592,10 +592,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("CString index out of bounds.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
@@ -952,7 +954,12 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > size_bytes()) {
+        throw PyException("U8String index out of bounds.");
+    }
+    if(length > size_bytes() - offset) {
+        length = size_bytes() - offset;
+    }
     return U8String(cstring.data() + offset, length);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7974478..e43c67f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -696,10 +696,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("CString index out of bounds.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
@@ -1090,7 +1092,12 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > size_bytes()) {
+        throw PyException("U8String index out of bounds.");
+    }
+    if(length > size_bytes() - offset) {
+        length = size_bytes() - offset;
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From b00e9767a6bc5d6b8aff9d001cc10579667ac83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 28/62] fix: refused string insertions must be reported and
 leave the string alone

---
 include/pystd2025.hpp |  4 ++--
 include/pystd2026.hpp |  4 ++--
 src/pystd2025.cpp     | 14 ++++++--------
 src/pystd2026.cpp     | 14 ++++++--------
 4 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0f76255..2fd37e3 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1550,9 +1550,9 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9d8bbe7..cac7cd4 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1813,9 +1813,9 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 8bbbcf1..5e3ac20 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -713,13 +713,8 @@ void CString::append(const char c) {
 }
 
 void CString::append(const char *str, size_t strsize) {
-    if(strsize == (size_t)-1) {
-        strsize = strlen(str);
-    }
-    for(size_t i = 0; i < strsize; ++i) {
-        // FIXME, slow.
-        append(str[i]);
-    }
+    // The input might be part of this string or contain null bytes.
+    *this += CString(str, strsize);
 }
 
 void CString::append(const char *start, const char *stop) { append(start, stop - start); }
@@ -757,7 +752,10 @@ void CString::ensure_terminator() {
     }
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
+    if(i > size()) {
+        throw PyException("Invalid index for insert.");
+    }
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e43c67f..f3412dd 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -796,13 +796,8 @@ void CString::append(const char c) {
 }
 
 void CString::append(const char *str, size_t strsize) {
-    if(strsize == (size_t)-1) {
-        strsize = strlen(str);
-    }
-    for(size_t i = 0; i < strsize; ++i) {
-        // FIXME, slow.
-        append(str[i]);
-    }
+    // The input might be part of this string or contain null bytes.
+    *this += CString(str, strsize);
 }
 
 void CString::append(const char *start, const char *stop) { append(start, stop - start); }
@@ -848,7 +843,10 @@ void CString::ensure_terminator() {
     }
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
+    if(i > size()) {
+        throw PyException("Invalid index for insert.");
+    }
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From ddf1fe2d51bb54544f422f19d3c0ec28b26eca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 29/62] fix: string views must not look past their end

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 src/pystd2025.cpp     | 6 +++---
 src/pystd2026.cpp     | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 2fd37e3..8730462 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1431,7 +1431,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index cac7cd4..e201440 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1656,7 +1656,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 5e3ac20..2325254 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -414,7 +414,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
@@ -435,7 +435,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
@@ -459,7 +459,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f3412dd..710582d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -425,7 +425,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
@@ -446,7 +446,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
@@ -470,7 +470,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From 3a82c20b0fbb61e9438b380fa11b7d5c3317a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 30/62] fix: natural ordering must compare the numbers at the
 same place and stay inside the views

---
 src/pystd2026.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 710582d..7ef4857 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -540,6 +540,24 @@ CString CStringView::lower() const noexcept {
     return result;
 }
 
+namespace {
+
+bool is_ascii_digit(char c) { return c >= '0' && c <= '9'; }
+
+// Leading zeros do not affect the value of a number.
+CStringView significant_digits(const CStringView &text, size_t start, size_t &end) {
+    while(start < text.size() && text[start] == '0') {
+        ++start;
+    }
+    end = start;
+    while(end < text.size() && is_ascii_digit(text[end])) {
+        ++end;
+    }
+    return CStringView(text.data() + start, end - start);
+}
+
+} // namespace
+
 int CStringView::natural_order(const CStringView &o) const {
     const char *left = buf;
     const char *right = o.buf;
@@ -557,23 +575,22 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_ascii_digit(left[i_left]);
+        const bool right_has_num = is_ascii_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
+                const auto left_int = significant_digits(*this, i_left, i_left);
+                const auto right_int = significant_digits(o, i_right, i_right);
+                if(left_int.size() != right_int.size()) {
+                    return left_int.size() < right_int.size() ? -1 : 1;
+                }
                 if(left_int < right_int) {
                     return -1;
                 }
-                if(left_int > right_int) {
+                if(right_int < left_int) {
                     return 1;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
-- 
2.43.0


From e3c363afb9fb46351a45ba9c5abe6260dd7b8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 31/62] fix: zero terminated views must compute their size when
 it is not given

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7ef4857..0dda67b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -640,7 +640,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 5ef6e3b779298ad9f88443e660ea6c2330a25f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 32/62] fix: fixed size strings must be terminated and stay
 within their contents

---
 include/pystd2025.hpp | 12 +++++-------
 include/pystd2026.hpp | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 8730462..f37e7cd 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1615,9 +1615,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
@@ -1639,15 +1640,12 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
@@ -1680,14 +1678,14 @@ public:
     }
 
     char &operator[](uint32_t index) {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
     }
 
     const char &operator[](uint32_t index) const {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e201440..29e76a6 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1878,9 +1878,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
@@ -1902,15 +1903,12 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
@@ -1943,14 +1941,14 @@ public:
     }
 
     char &operator[](uint32_t index) {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
     }
 
     const char &operator[](uint32_t index) const {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
-- 
2.43.0


From dee288f6e6840aceea4f166298e2fd13b61c592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 33/62] fix: subspans may reach the end but never beyond it

---
 include/pystd2025.hpp | 6 +++---
 include/pystd2026.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index f37e7cd..8d7be3e 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -734,7 +734,7 @@ public:
             }
             return BytesView(buf + loc, bufsize - loc);
         } else {
-            if(loc + size > bufsize) {
+            if(loc > bufsize || size > bufsize - loc) {
                 bootstrap_throw("OOB error in BytesView.");
             }
             return BytesView(buf + loc, size);
@@ -1889,13 +1889,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             throw PyException("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             throw PyException("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 29e76a6..4a4fa39 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -881,13 +881,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 430b8c607115529d5d846c5fde0ee266a45d065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 34/62] fix: Unicode strings must refuse surrogates and compare
 non-ASCII text

---
 include/pystd2026.hpp | 2 +-
 src/pystd2025.cpp     | 8 +++++++-
 src/pystd2026.cpp     | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 4a4fa39..18080f9 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2110,7 +2110,7 @@ public:
         }
     }
 
-    void operator=(const U8StringView &o) noexcept { cstring = CString(o.data(), o.size_bytes()); }
+    void operator=(const U8StringView &o) { cstring = CString(o.data(), o.size_bytes()); }
 
     // FIXME. These currently do ASCIIbetical sorting. Fix to do codepoints instead.
     bool operator==(const U8String &o) const { return cstring == o.cstring; }
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2325254..dc56b9e 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -892,7 +892,7 @@ bool U8StringView::operator==(const char *txt) const {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
@@ -1038,6 +1038,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Tried to add a null codepoint to a string.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid Unicode text.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0dda67b..757c76d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1019,7 +1019,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
@@ -1193,6 +1193,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Tried to add a null codepoint to a string.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid Unicode text.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From 1f6befd032ab0151bf2bfeaa0c7ecd0f576192ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 35/62] fix: formatting more than a kilobyte of text must not
 abort

---
 src/pystd2025.cpp | 12 +++++++++---
 src/pystd2026.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index dc56b9e..0535690 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1211,19 +1211,25 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    va_list ap_again;
+    va_copy(ap_again, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
     if(rc < 0) {
+        va_end(ap_again);
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        const size_t bigsize = (size_t)rc + 1;
+        unique_arr<char> bigbuf(bigsize);
+        rc = vsnprintf(bigbuf.get(), bigsize, format, ap_again);
+        va_end(ap_again);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
+        va_end(ap_again);
         cb(buf, rc, ctx);
     }
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 757c76d..7d8c100 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1366,19 +1366,25 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    va_list ap_again;
+    va_copy(ap_again, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
     if(rc < 0) {
+        va_end(ap_again);
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        const size_t bigsize = (size_t)rc + 1;
+        unique_arr<char> bigbuf(bigsize);
+        rc = vsnprintf(bigbuf.get(), bigsize, format, ap_again);
+        va_end(ap_again);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
+        va_end(ap_again);
         cb(buf, rc, ctx);
     }
 }
-- 
2.43.0


From 0611359573a0c71bd023e951e4c6fc41bf130996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 36/62] fix: clamping integers must honor the lower bound

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 0535690..5c5ca84 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1255,7 +1255,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7d8c100..178e198 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1410,7 +1410,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From 6b09519f63925a9f309a97768d42fd187609cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 37/62] fix: ordering of strings must not depend on the
 signedness of char

---
 include/pystd2025.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 8d7be3e..d306ced 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -823,8 +823,8 @@ public:
     bool operator<(const Bytes &o) const {
         const auto num_its = bufsize < o.bufsize ? bufsize : o.bufsize;
         for(size_t i = 0; i < num_its; ++i) {
-            const auto &c1 = buf[i];
-            const auto &c2 = o.buf[i];
+            const auto c1 = (unsigned char)buf[i];
+            const auto c2 = (unsigned char)o.buf[i];
             if(c1 < c2) {
                 return true;
             }
-- 
2.43.0


From 4fddc1069359770ea79468d3406ed3f7ab5e599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 38/62] fix: ordered sets and maps must accept every key type
 they are declared for

Leftover debug probes compared each payload with the number 23 and map lookup dropped a const.
---
 include/pystd2025_btree.hpp | 12 +++---------
 include/pystd2026_btree.hpp | 15 ++++++---------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 83a4813..b304c3d 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -32,14 +32,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
@@ -908,7 +901,7 @@ public:
 
     void insert(const Key &value) { tree.insert(value); }
 
-    bool contains(const Key &value) { return tree.contains(value); }
+    bool contains(const Key &value) const { return tree.contains(value); }
 
     void remove(const Key &value) { tree.remove(value); }
 
@@ -943,7 +936,8 @@ public:
 
     Value *lookup(const Key &key) {
         MapEntry entry{key, Value{}};
-        auto *loc = tree.lookup(entry);
+        // The tree itself is not const, so neither are the elements it holds.
+        auto *loc = const_cast<MapEntry *>(tree.lookup(entry));
         if(loc) {
             return &(loc->value);
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..495f690 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
@@ -1033,7 +1026,7 @@ public:
 
     void insert(const Key &value) { tree.insert(value); }
 
-    bool contains(const Key &value) { return tree.contains(value); }
+    bool contains(const Key &value) const { return tree.contains(value); }
 
     void remove(const Key &value) { tree.remove(value); }
 
@@ -1052,6 +1045,9 @@ private:
         Value value;
         bool operator==(const MapEntry &o) const noexcept { return key == o.key; }
         bool operator<(const MapEntry &o) const noexcept { return key < o.key; }
+        int operator<=>(const MapEntry &o) const noexcept {
+            return DefaultComparator<Key>{}.compare(key, o.key);
+        }
 
         bool operator==(const Key &k) const noexcept { return k == key; }
         bool operator<(const Key &k) const noexcept { return k <= key; }
@@ -1068,7 +1064,8 @@ public:
 
     Value *lookup(const Key &key) {
         MapEntry entry{key, Value{}};
-        auto *loc = tree.lookup(entry);
+        // The tree itself is not const, so neither are the elements it holds.
+        auto *loc = const_cast<MapEntry *>(tree.lookup(entry));
         if(loc) {
             return &(loc->value);
         }
-- 
2.43.0


From 7d1c92a9bb1a0c44e58a9f250089c8ff1f6591cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 39/62] fix: ordered sets and maps must be usable after being
 emptied or moved from

---
 include/pystd2025_btree.hpp | 28 ++++++++++++++++++++++++++++
 include/pystd2026_btree.hpp | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index b304c3d..8f3d22f 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -11,6 +11,25 @@ namespace pystd2025 {
 template<WellBehaved Payload, size_t EntryCount> class BTree {
 
 public:
+    BTree() noexcept = default;
+
+    BTree(BTree &&o) noexcept
+        : root{o.root}, num_values{o.num_values}, internals{::pystd2025::move(o.internals)},
+          leaves{::pystd2025::move(o.leaves)} {
+        o.reset();
+    }
+
+    BTree &operator=(BTree &&o) noexcept {
+        if(this != &o) {
+            root = o.root;
+            num_values = o.num_values;
+            internals = ::pystd2025::move(o.internals);
+            leaves = ::pystd2025::move(o.leaves);
+            o.reset();
+        }
+        return *this;
+    }
+
     void insert(const Payload &value) {
         Payload p(value);
         insert(::pystd2025::move(p));
@@ -865,8 +884,17 @@ private:
         return left_sibling_id;
     }
 
+    void reset() noexcept {
+        root = NodeReference::null_ref();
+        num_values = 0;
+        internals.clear();
+        leaves.clear();
+    }
+
     void root_fixup() {
         if(is_empty()) {
+            // Leave no empty nodes behind, the next insertion starts from scratch.
+            reset();
             return;
         }
         auto &root_ref = get_node_common(root);
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 495f690..4a432bf 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -13,6 +13,25 @@ template<WellBehaved Payload, size_t EntryCount> class BTree {
     class BTreeIterator;
 
 public:
+    BTree() noexcept = default;
+
+    BTree(BTree &&o) noexcept
+        : root{o.root}, num_values{o.num_values}, internals{::pystd2026::move(o.internals)},
+          leaves{::pystd2026::move(o.leaves)} {
+        o.reset();
+    }
+
+    BTree &operator=(BTree &&o) noexcept {
+        if(this != &o) {
+            root = o.root;
+            num_values = o.num_values;
+            internals = ::pystd2026::move(o.internals);
+            leaves = ::pystd2026::move(o.leaves);
+            o.reset();
+        }
+        return *this;
+    }
+
     void insert(const Payload &value) {
         Payload p(value);
         insert(::pystd2026::move(p));
@@ -880,8 +899,17 @@ private:
         return left_sibling_id;
     }
 
+    void reset() noexcept {
+        root = NodeReference::null_ref();
+        num_values = 0;
+        internals.clear();
+        leaves.clear();
+    }
+
     void root_fixup() {
         if(is_empty()) {
+            // Leave no empty nodes behind, the next insertion starts from scratch.
+            reset();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From 8dff7c9c17e4c84cc65201780dbcd4b388a75de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 40/62] fix: removing from an ordered set or map must keep the
 tree in shape

Taking a predecessor or successor out of its leaf left that leaf too small,
even empty, and nodes renumbered by merging were accessed by their old number.
---
 include/pystd2025_btree.hpp | 64 ++++++++++++++++++++++---------------
 include/pystd2026_btree.hpp | 64 ++++++++++++++++++++++---------------
 2 files changed, 76 insertions(+), 52 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 8f3d22f..c5c3cbf 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -51,7 +51,10 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be an element of this tree and removal
+        // moves elements around.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
@@ -450,7 +453,7 @@ private:
                 child.parent = new_node_id;
             }
         }
-        Payload value_to_move{to_split_before_push.values.back()};
+        Payload value_to_move{::pystd2025::move(to_split_before_push.values.back())};
         to_split_before_push.values.pop_back();
         to_split_before_push.children.pop_back();
         assert(new_node.children.size() == EntryCount / 2 + 1);
@@ -662,37 +665,40 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            auto replacement = extract_value(predecessor, lc_id);
+            return exchange_value(value, ::pystd2025::move(replacement.value()));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            auto replacement = extract_value(successor, rc_id);
+            return exchange_value(value, ::pystd2025::move(replacement.value()));
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            // Merging may renumber nodes.
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2025::move(sub_value.value());
         }
         abort();
     }
 
+    // Extracting an element may have renumbered nodes, thus the value
+    // must be looked up again.
+    Payload exchange_value(const Payload &value, Payload &&replacement) {
+        auto node_id = root;
+        while(true) {
+            auto &node = get_internal(node_id);
+            const auto loc = find_insertion_point(node, value);
+            if(loc < node.values.size() && !(value < node.values[loc])) {
+                Payload return_value = ::pystd2025::move(node.values[loc]);
+                node.values[loc] = ::pystd2025::move(replacement);
+                return return_value;
+            }
+            node_id = node.children[loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
@@ -905,8 +911,14 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
+            if(!new_root.to_leaf && new_root.id == internals.size() - 1) {
+                // The new root gets moved to the slot of the old one.
+                auto old_root = root;
+                swap_to_end_and_pop(root);
+                new_root = old_root;
+            } else {
+                swap_to_end_and_pop(root);
+            }
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 4a432bf..833efc6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -53,7 +53,10 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be an element of this tree and removal
+        // moves elements around.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
@@ -465,7 +468,7 @@ private:
                 child.parent = new_node_id;
             }
         }
-        Payload value_to_move{to_split_before_push.values.back()};
+        Payload value_to_move{::pystd2026::move(to_split_before_push.values.back())};
         to_split_before_push.values.pop_back();
         to_split_before_push.children.pop_back();
         assert(new_node.children.size() == EntryCount / 2 + 1);
@@ -677,37 +680,40 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            auto replacement = extract_value(predecessor, lc_id);
+            return exchange_value(value, ::pystd2026::move(replacement.value()));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            auto replacement = extract_value(successor, rc_id);
+            return exchange_value(value, ::pystd2026::move(replacement.value()));
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            // Merging may renumber nodes.
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
         abort();
     }
 
+    // Extracting an element may have renumbered nodes, thus the value
+    // must be looked up again.
+    Payload exchange_value(const Payload &value, Payload &&replacement) {
+        auto node_id = root;
+        while(true) {
+            auto &node = get_internal(node_id);
+            const auto loc = find_insertion_point(node, value);
+            if(loc < node.values.size() && !(value < node.values[loc])) {
+                Payload return_value = ::pystd2026::move(node.values[loc]);
+                node.values[loc] = ::pystd2026::move(replacement);
+                return return_value;
+            }
+            node_id = node.children[loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
@@ -920,8 +926,14 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
+            if(!new_root.to_leaf && new_root.id == internals.size() - 1) {
+                // The new root gets moved to the slot of the old one.
+                auto old_root = root;
+                swap_to_end_and_pop(root);
+                new_root = old_root;
+            } else {
+                swap_to_end_and_pop(root);
+            }
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
-- 
2.43.0


From c35e29666a0b81965c58edcde09e204ec85d73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 41/62] fix: selection, radix sort and stable partition must
 compile as declared

---
 include/pystd2026_nth_element.hpp     | 4 +++-
 include/pystd2026_radixsort.hpp       | 2 ++
 include/pystd2026_stablepartition.hpp | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
@@ -102,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f81b023 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From 1a59197fdc581f4f12ccff4c252d18a24cdbedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 42/62] fix: shell sort must order by the comparator it was
 given

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From 49dfb3576a4b0c718fb83625250dc18b41b2ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 43/62] fix: searching an empty range must answer its end

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index d306ced..5ee43a6 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3306,7 +3306,7 @@ template<WellBehaved T> void insertion_sort(Span<T> array) {
 
 template<typename It, typename Value, typename Callable>
 It lower_bound(It first, It last, const Value &value, const Callable &is_less) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 18080f9..666f29a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2581,7 +2581,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From 20caa990f41fc1a298021b58ae6beeb823c823d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 44/62] fix: comparing floats must find equal ones equal

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 666f29a..7d71488 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2573,7 +2573,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 820df291388848acd0f1cf4b72b30fbd53fc5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 45/62] fix: introsort must stay inside the range and use only
 the comparator

With many equal elements the right part is empty, and sorting an empty part
ran past its end.
---
 include/pystd2026.hpp           | 3 +++
 include/pystd2026_introsort.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7d71488..bb21418 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2738,6 +2738,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From 217325339825b01710fabddfccd01b4be618b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 46/62] fix: radix sort must terminate and handle 64 bit values

---
 include/pystd2026_radixsort.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f81b023..031af1a 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -10,8 +10,12 @@ namespace pystd2026 {
 template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
-    const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    const size_t num_bits = sizeof(ValueType) * 8;
+    if(round >= num_bits) {
+        // All bits have been processed, so all elements are the same.
+        return;
+    }
+    const ValueType sort_bit = (ValueType)1 << (num_bits - 1 - round);
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From 2ec6aa2019b0c57fb355d50ba1b62afe7cd27336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 47/62] fix: bucket sort must count more elements than fit in
 the value type

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 5afc6730c621fdce940ac36429b1d04153f269ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 48/62] fix: rotating a long range must not exhaust the stack

---
 include/pystd2026_rotate.hpp | 44 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..f526e87 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -10,32 +10,26 @@ namespace pystd2026 {
 template<BasicIterator It> It rotate(It begin, It middle, It end) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     ValueType scratch;
-    const auto LEFT_SIZE = middle - begin;
-    const auto RIGHT_SIZE = end - middle;
-
-    if(LEFT_SIZE == 0) {
-        return end;
-    }
-    if(RIGHT_SIZE == 0) {
-        return begin;
-    }
-
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    const auto rotate_point = begin + (end - middle);
+
+    // A loop rather than recursion, because rotating n elements by one takes n rounds.
+    while(true) {
+        const auto LEFT_SIZE = middle - begin;
+        const auto RIGHT_SIZE = end - middle;
+
+        if(LEFT_SIZE == 0 || RIGHT_SIZE == 0) {
+            return rotate_point;
+        }
+
+        const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
+        }
+        begin = begin + NUM_SWAPS;
+        if(LEFT_SIZE <= RIGHT_SIZE) {
+            middle = begin + LEFT_SIZE;
+        }
     }
-    return begin + RIGHT_SIZE;
 }
 
 template<WellBehaved T>
-- 
2.43.0


From 92532021d6c07482a5f785ed5b99a7dfcd4590fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 49/62] fix: regex groups that did not match must not point
 outside the text

---
 src/pystd2025_regex.cpp | 14 +++++++++++---
 src/pystd2026_regex.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index 539c3bb..ca65684 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -48,6 +48,10 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        // The group exists but did not take part in the match.
+        return U8String{};
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -59,13 +63,17 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
-    const size_t match_start = group_vector[2 * group_num];
-    const size_t match_end = group_vector[2 * group_num + 1];
+    size_t match_start = group_vector[2 * group_num];
+    size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        // The group exists but did not take part in the match.
+        match_start = match_end = 0;
+    }
     return U8StringView{ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..519a490 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -49,6 +49,10 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        // The group exists but did not take part in the match.
+        return U8String{};
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -60,13 +64,17 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
-    const size_t match_start = group_vector[2 * group_num];
-    const size_t match_end = group_vector[2 * group_num + 1];
+    size_t match_start = group_vector[2 * group_num];
+    size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        // The group exists but did not take part in the match.
+        match_start = match_end = 0;
+    }
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
-- 
2.43.0


From 366859c9a139a18dcdff0abcfe55c6e60919808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 50/62] fix: regex search must notice when it can not get
 memory

---
 src/pystd2025_regex.cpp | 3 +++
 src/pystd2026_regex.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index ca65684..cbbc809 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -80,6 +80,9 @@ U8StringView U8Match::group(size_t group_num) const {
 
 U8Match regex_search(const U8Regex &pattern, const U8String &text) {
     auto match_data = pcre2_match_data_create_from_pattern((pcre2_code_8 *)pattern.h(), NULL);
+    if(!match_data) {
+        throw PyException("Out of memory.");
+    }
     U8Match m{match_data, &text};
     auto rc = pcre2_match((pcre2_code_8 *)pattern.h(),
                           (const unsigned char *)text.c_str(),
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 519a490..a7d419c 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -81,6 +81,9 @@ U8StringView U8Match::group(size_t group_num) const {
 
 U8Match regex_search(const U8Regex &pattern, const U8String &text) {
     auto match_data = pcre2_match_data_create_from_pattern((pcre2_code_8 *)pattern.h(), NULL);
+    if(!match_data) {
+        throw PyException("Out of memory.");
+    }
     U8Match m{match_data, &text};
     auto rc = pcre2_match((pcre2_code_8 *)pattern.h(),
                           (const unsigned char *)text.c_str(),
-- 
2.43.0


From 18f8c27292ea1ea67983d44d6009d82c2ea3fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 51/62] fix: a short option at the end must not take its value
 from outside argv

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From 1858c99bed996bcf7838fe88bdf2430d69189564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:54 +0000
Subject: [PATCH 52/62] fix: wordcount prints words that contain a zero byte
 completely

---
 tools/wordcount.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/wordcount.cpp b/tools/wordcount.cpp
index 0e11d1d..4b34152 100644
--- a/tools/wordcount.cpp
+++ b/tools/wordcount.cpp
@@ -47,7 +47,9 @@ int file_main(int argc, char **argv) {
         }
         pystd2026::introsort(stats.begin(), stats.end());
         for(const auto &i : stats) {
-            printf("%d %.*s\n", (int)i.count, (int)i.word.size_bytes(), i.word.data());
+            printf("%zu ", i.count);
+            fwrite(i.word.data(), 1, i.word.size_bytes(), stdout);
+            printf("\n");
         }
     } catch(const pystd2026::PyException &e) {
         printf("%s\n", e.what().c_str());
-- 
2.43.0


From 80e84d6b335f2a6472b9a301a7d73c2170b7f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 53/62] fix: overwriting a glob result needs the complete type;
 define its default constructor

---
 include/pystd2025.hpp        | 2 +-
 include/pystd2026.hpp        | 2 +-
 src/pystd2025_filesystem.cpp | 4 ++++
 src/pystd2026_filesystem.cpp | 4 ++++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 5ee43a6..8ac8fba 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2480,7 +2480,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index bb21418..f00395a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2298,7 +2298,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 3a25917..8babd1e 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -346,8 +346,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 13e0f8f..fa20692 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -346,8 +346,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From be35d20824fcdf1a700d61ef423349d8ad838e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 54/62] fix: an owning pointer or array may be assigned from
 something it owns

---
 include/pystd2025.hpp | 18 +++++++++---------
 include/pystd2026.hpp | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 8ac8fba..7c223f6 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -379,20 +379,18 @@ public:
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            if(ptr) {
-                Deleter::del(ptr);
-            }
-            ptr = o.ptr;
-            o.ptr = nullptr;
+            // The source might be owned by the object that gets deleted.
+            reset(o.release());
         }
         return *this;
     }
 
     void reset(T *new_ptr) {
-        if(ptr) {
-            Deleter::del(ptr);
-        }
+        T *old_ptr = ptr;
         ptr = new_ptr;
+        if(old_ptr) {
+            Deleter::del(old_ptr);
+        }
     }
 
     T *release() noexcept {
@@ -430,11 +428,13 @@ public:
     // unique_ptr<T> &
     void operator=(unique_arr<T> &&o) noexcept {
         if(this != &o) {
-            delete[] ptr;
+            // The source might be owned by an element that gets deleted.
+            T *old_ptr = ptr;
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
             o.array_size = 0;
+            delete[] old_ptr;
         }
         // return *this;
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f00395a..64c93eb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -510,20 +510,18 @@ public:
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            if(ptr) {
-                Deleter::del(ptr);
-            }
-            ptr = o.ptr;
-            o.ptr = nullptr;
+            // The source might be owned by the object that gets deleted.
+            reset(o.release());
         }
         return *this;
     }
 
     void reset(T *new_ptr) {
-        if(ptr) {
-            Deleter::del(ptr);
-        }
+        T *old_ptr = ptr;
         ptr = new_ptr;
+        if(old_ptr) {
+            Deleter::del(old_ptr);
+        }
     }
 
     T *release() noexcept {
@@ -564,13 +562,15 @@ public:
 
     unique_arr &operator=(unique_arr<T> &&o) noexcept {
         if(this != &o) {
-            if(ptr) {
-                Deleter::del(ptr);
-            }
+            // The source might be owned by an element that gets deleted.
+            T *old_ptr = ptr;
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
             o.array_size = 0;
+            if(old_ptr) {
+                Deleter::del(old_ptr);
+            }
         }
         return *this;
     }
-- 
2.43.0


From 26fd84318a5784a9b4b0070bc3b6e722142a2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 55/62] fix: an optional or expected may be assigned from
 something its value owns

---
 include/pystd2025.hpp | 33 +++++++++++++++++++++++----------
 include/pystd2026.hpp | 33 +++++++++++++++++++++++----------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 7c223f6..9e78a64 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -223,17 +223,22 @@ public:
 
     void operator=(Expected<V, E> &&o) noexcept {
         if(this != &o) {
-            destroy();
+            // The source might be owned by the current contents.
             if(o.has_value()) {
-                new(content) V(pystd2025::move(*reinterpret_cast<V *>(o.content)));
+                V tmp(pystd2025::move(*reinterpret_cast<V *>(o.content)));
+                o.destroy();
+                destroy();
+                new(content) V(pystd2025::move(tmp));
                 state = UnionState::Value;
             } else if(o.has_error()) {
-                new(content) E(pystd2025::move(*reinterpret_cast<E *>(o.content)));
+                E tmp(pystd2025::move(*reinterpret_cast<E *>(o.content)));
+                o.destroy();
+                destroy();
+                new(content) E(pystd2025::move(tmp));
                 state = UnionState::Error;
             } else {
-                state = UnionState::Empty;
+                destroy();
             }
-            o.destroy();
         }
     }
 
@@ -509,21 +514,29 @@ public:
 
     void operator=(Optional<T> &&o) noexcept {
         if(this != &o) {
-            destroy();
             if(o) {
-                new(&data.value) T{pystd2025::move(o.data.value)};
-                has_value = true;
+                // The source might be owned by the current value.
+                T tmp{pystd2025::move(o.data.value)};
                 o.destroy();
+                destroy();
+                new(&data.value) T{pystd2025::move(tmp)};
+                has_value = true;
+            } else {
+                destroy();
             }
         }
     }
 
     void operator=(const Optional<T> &o) noexcept {
         if(this != &o) {
-            destroy();
             if(o) {
-                new(&data.value) T{o.data.value};
+                // The source might be owned by the current value.
+                T tmp{o.data.value};
+                destroy();
+                new(&data.value) T{pystd2025::move(tmp)};
                 has_value = true;
+            } else {
+                destroy();
             }
         }
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 64c93eb..5917f45 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -350,17 +350,22 @@ public:
 
     void operator=(Expected<V, E> &&o) noexcept {
         if(this != &o) {
-            destroy();
+            // The source might be owned by the current contents.
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
+                V tmp(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
+                o.destroy();
+                destroy();
+                new(content) V(::pystd2026::move(tmp));
                 state = UnionState::Value;
             } else if(o.has_error()) {
-                new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
+                E tmp(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
+                o.destroy();
+                destroy();
+                new(content) E(::pystd2026::move(tmp));
                 state = UnionState::Error;
             } else {
-                state = UnionState::Empty;
+                destroy();
             }
-            o.destroy();
         }
     }
 
@@ -648,21 +653,29 @@ public:
 
     void operator=(Optional<T> &&o) noexcept {
         if(this != &o) {
-            destroy();
             if(o) {
-                new(&data.value) T{::pystd2026::move(o.data.value)};
-                has_value = true;
+                // The source might be owned by the current value.
+                T tmp{::pystd2026::move(o.data.value)};
                 o.destroy();
+                destroy();
+                new(&data.value) T{::pystd2026::move(tmp)};
+                has_value = true;
+            } else {
+                destroy();
             }
         }
     }
 
     void operator=(const Optional<T> &o) noexcept {
         if(this != &o) {
-            destroy();
             if(o) {
-                new(&data.value) T{o.data.value};
+                // The source might be owned by the current value.
+                T tmp{o.data.value};
+                destroy();
+                new(&data.value) T{::pystd2026::move(tmp)};
                 has_value = true;
+            } else {
+                destroy();
             }
         }
     }
-- 
2.43.0


From 8d5070dda30eb4e4e4f332f82ce5b44daf29eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 56/62] fix: a vector may be assigned from something its
 elements own

---
 include/pystd2025.hpp | 14 ++++++++------
 include/pystd2026.hpp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9e78a64..c9efe86 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1046,14 +1046,16 @@ public:
 
     Vector<T> &operator=(Vector<T> &&o) noexcept {
         if(this != &o) {
+            // The source might be owned by an element of this vector.
+            Vector<T> tmp(pystd2025::move(o));
             deallocate_objects();
             free(buffer);
-            buffer = o.buffer;
-            num_entries = o.num_entries;
-            buf_capacity = o.buf_capacity;
-            o.buffer = nullptr;
-            o.num_entries = 0;
-            o.buf_capacity = 0;
+            buffer = tmp.buffer;
+            num_entries = tmp.num_entries;
+            buf_capacity = tmp.buf_capacity;
+            tmp.buffer = nullptr;
+            tmp.num_entries = 0;
+            tmp.buf_capacity = 0;
         }
         return *this;
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5917f45..3f60983 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1228,14 +1228,16 @@ public:
 
     Vector<T> &operator=(Vector<T> &&o) noexcept {
         if(this != &o) {
+            // The source might be owned by an element of this vector.
+            Vector<T> tmp(::pystd2026::move(o));
             deallocate_objects();
             free_native(buffer);
-            buffer = o.buffer;
-            num_entries = o.num_entries;
-            buf_capacity = o.buf_capacity;
-            o.buffer = nullptr;
-            o.num_entries = 0;
-            o.buf_capacity = 0;
+            buffer = tmp.buffer;
+            num_entries = tmp.num_entries;
+            buf_capacity = tmp.buf_capacity;
+            tmp.buffer = nullptr;
+            tmp.num_entries = 0;
+            tmp.buf_capacity = 0;
         }
         return *this;
     }
-- 
2.43.0


From dbc4e8bcde0f3b932484c2572d987cc2bdd9e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 57/62] fix: a variant may be assigned from something its value
 owns

---
 include/pystd2025.hpp         | 10 +++++++---
 include/pystd2026_variant.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c9efe86..bddfbda 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2861,8 +2861,10 @@ public:
         if(this == &o) {
             return *this;
         }
+        // The source might be owned by the current value.
+        Variant<T...> tmp(move(o));
         destroy();
-        move_to_uninitialized_memory(move(o));
+        move_to_uninitialized_memory(move(tmp));
         return *this;
     }
 
@@ -2967,7 +2969,9 @@ private:
 
     void copy_value_in(const Variant<T...> &o, bool has_existing_value) {
         // If copy construction throws, keep the old value.
-        switch(o.type_id) {
+        // The source might be owned by the old value.
+        const auto new_type_id = o.type_id;
+        switch(new_type_id) {
         case 0:
             PYSTD2025_VAR_COPY_SWITCH(0);
         case 1:
@@ -3032,7 +3036,7 @@ private:
             internal_failure("Unreachable code in variant copy.");
         }
 
-        type_id = o.type_id;
+        type_id = new_type_id;
     }
 
 #define PYSTD2025_VAR_COMPARE_SWITCH(i)                                                            \
diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..6bb3651 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -334,8 +334,10 @@ public:
         if(this == &o) {
             return *this;
         }
+        // The source might be owned by the current value.
+        Variant<T...> tmp(::pystd2026::move(o));
         destroy();
-        move_to_uninitialized_memory(::pystd2026::move(o));
+        move_to_uninitialized_memory(::pystd2026::move(tmp));
         return *this;
     }
 
@@ -440,7 +442,9 @@ private:
 
     void copy_value_in(const Variant<T...> &o, bool has_existing_value) {
         // If copy construction throws, keep the old value.
-        switch(o.type_id) {
+        // The source might be owned by the old value.
+        const auto new_type_id = o.type_id;
+        switch(new_type_id) {
         case 0:
             PYSTD2026_VAR_COPY_SWITCH(0);
         case 1:
@@ -505,7 +509,7 @@ private:
             internal_failure("Unreachable code in variant copy.");
         }
 
-        type_id = o.type_id;
+        type_id = new_type_id;
     }
 
 #define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
-- 
2.43.0


From fa99c0bf0f492f331ad652620b48623ec6c48bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 58/62] fix: a path's extension is that of its last component
 and may be replaced by a part of the path

---
 src/pystd2025_filesystem.cpp | 29 ++++++++++++++++-------------
 src/pystd2026_filesystem.cpp | 29 ++++++++++++++++-------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 8babd1e..70257a7 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -103,6 +103,16 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
     return all_subdirs;
 }
 
+// Where the extension of the last path component begins, the end of the path if there is none.
+size_t extension_point(const CString &path) {
+    const auto dot = path.rfind('.');
+    const auto separator = path.rfind('/');
+    if(dot == (size_t)-1 || (separator != (size_t)-1 && dot < separator)) {
+        return path.size();
+    }
+    return dot;
+}
+
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
@@ -160,8 +170,8 @@ Path Path::operator/(const char *str) const noexcept {
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
-    if(loc == (size_t)-1) {
+    const auto loc = extension_point(buf);
+    if(loc == buf.size()) {
         return CString();
     }
     return buf.substr(loc);
@@ -226,17 +236,10 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
-    if(extpoint == (size_t)-1) {
-        buf += new_extension;
-    } else {
-        while(buf.size() > extpoint) {
-            buf.pop_back();
-        }
-        buf += new_extension;
-    }
+    // The new extension might be a part of this path.
+    CString newpath = buf.substr(0, extension_point(buf));
+    newpath += new_extension;
+    buf = move(newpath);
 }
 
 bool Path::rename_to(const Path &targetname) const noexcept {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index fa20692..cafa914 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -103,6 +103,16 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
     return all_subdirs;
 }
 
+// Where the extension of the last path component begins, the end of the path if there is none.
+size_t extension_point(const CString &path) {
+    const auto dot = path.rfind('.');
+    const auto separator = path.rfind('/');
+    if(dot == (size_t)-1 || (separator != (size_t)-1 && dot < separator)) {
+        return path.size();
+    }
+    return dot;
+}
+
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
@@ -160,8 +170,8 @@ Path Path::operator/(const char *str) const noexcept {
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
-    if(loc == (size_t)-1) {
+    const auto loc = extension_point(buf);
+    if(loc == buf.size()) {
         return CString();
     }
     return buf.substr(loc);
@@ -226,17 +236,10 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
-    if(extpoint == (size_t)-1) {
-        buf += new_extension;
-    } else {
-        while(buf.size() > extpoint) {
-            buf.pop_back();
-        }
-        buf += new_extension;
-    }
+    // The new extension might be a part of this path.
+    CString newpath = buf.substr(0, extension_point(buf));
+    newpath += new_extension;
+    buf = move(newpath);
 }
 
 bool Path::rename_to(const Path &targetname) const noexcept {
-- 
2.43.0


From 58ab1d3eccd1cbcd7dc1efe0a065c85f99014d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 59/62] fix: slice a C string view at its end

CStringView::substr refused an offset equal to the size although CString and
U8String accept it, so a command line word like --name= (an empty value) ended
in an out of bounds exception.
---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 178e198..19d140c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -464,7 +464,7 @@ size_t CStringView::find(char c) const {
 }
 
 CStringView CStringView::substr(size_t pos, size_t count) const {
-    if(pos >= bufsize) {
+    if(pos > bufsize) {
         throw PyException("CStringView index out of bounds.");
     }
     size_t actual_count = count;
-- 
2.43.0


From c9bbeb931f5bc60d36d627f5a8fec38ec92a9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 60/62] fix: refuse argument values that are not integers

Trailing characters were dropped and a value without any digits became zero.
---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..16068b8 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *number_end = nullptr;
+            int64_t intval = strtol(tmp.data(), &number_end, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(number_end == tmp.data() || *number_end != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 4992519c46554b59de880f14bd23699a7de9425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 61/62] fix: refuse values given to arguments that take none

--flag=value and -fvalue silently dropped the value, so --flag=no switched the
flag on.
---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 16068b8..67b9e65 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From 049f7ea5c9a895163b39c9575b3e83fad1fd040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 62/62] fix: hash tables put keys and values where their
 alignment allows

A key or value type with an alignment beyond that of ordinary allocations
(alignas(32) and up) was constructed at misaligned addresses.
---
 include/pystd2025.hpp           | 27 +++++++++++++++++++--------
 include/pystd2026_hashtable.hpp | 27 +++++++++++++++++++--------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index bddfbda..1dece41 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2138,6 +2138,15 @@ private:
         }
     };
 
+    // Bytes are aligned only as well as any allocation is, the rest must be done by hand.
+    template<typename T> static constexpr size_t slack() noexcept {
+        return alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(T) - 1 : 0;
+    }
+    template<typename T> static const char *slots_in(const char *buf) noexcept {
+        const size_t misalignment = slack<T>() ? (size_t)buf % alignof(T) : 0;
+        return misalignment ? buf + (alignof(T) - misalignment) : buf;
+    }
+
     // This is neither fast, memory efficient nor elegant.
     // At this point in the project life cycle it does not need to be.
     struct MapData {
@@ -2163,16 +2172,18 @@ private:
 
         ~MapData() { deallocate_contents(); }
 
-        Key *keyptr(size_t i) noexcept { return (Key *)(keydata.data() + i * sizeof(Key)); }
+        Key *keyptr(size_t i) noexcept {
+            return (Key *)(slots_in<Key>(keydata.data()) + i * sizeof(Key));
+        }
         const Key *keyptr(size_t i) const noexcept {
-            return (const Key *)(keydata.data() + i * sizeof(Key));
+            return (const Key *)(slots_in<Key>(keydata.data()) + i * sizeof(Key));
         }
 
         Value *valueptr(size_t i) noexcept {
-            return (Value *)(valuedata.data() + i * sizeof(Value));
+            return (Value *)(slots_in<Value>(valuedata.data()) + i * sizeof(Value));
         }
         const Value *valueptr(size_t i) const noexcept {
-            return (const Value *)(valuedata.data() + i * sizeof(Value));
+            return (const Value *)(slots_in<Value>(valuedata.data()) + i * sizeof(Value));
         }
 
         void reset_hash_values() noexcept { memset(md.get(), 0, md.size_bytes()); }
@@ -2207,8 +2218,8 @@ private:
         mod_mask = initial_table_size - 1;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
         data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        data.keydata = Bytes(initial_table_size * sizeof(Key) + slack<Key>());
+        data.valuedata = Bytes(initial_table_size * sizeof(Value) + slack<Value>());
     }
 
     size_t hash_to_slot(size_t hashval) const {
@@ -2252,8 +2263,8 @@ private:
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
-        grown.keydata = Bytes(new_size * sizeof(Key));
-        grown.valuedata = Bytes(new_size * sizeof(Value));
+        grown.keydata = Bytes(new_size * sizeof(Key) + slack<Key>());
+        grown.valuedata = Bytes(new_size * sizeof(Value) + slack<Value>());
 
         grown.reset_hash_values();
         MapData old = move(data);
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 102badc..2b935ef 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -167,6 +167,15 @@ private:
         }
     };
 
+    // Bytes are aligned only as well as any allocation is, the rest must be done by hand.
+    template<typename T> static constexpr size_t slack() noexcept {
+        return alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(T) - 1 : 0;
+    }
+    template<typename T> static const char *slots_in(const char *buf) noexcept {
+        const size_t misalignment = slack<T>() ? (size_t)buf % alignof(T) : 0;
+        return misalignment ? buf + (alignof(T) - misalignment) : buf;
+    }
+
     // This is neither fast, memory efficient nor elegant.
     // At this point in the project life cycle it does not need to be.
     struct MapData {
@@ -192,16 +201,18 @@ private:
 
         ~MapData() { deallocate_contents(); }
 
-        Key *keyptr(size_t i) noexcept { return (Key *)(keydata.data() + i * sizeof(Key)); }
+        Key *keyptr(size_t i) noexcept {
+            return (Key *)(slots_in<Key>(keydata.data()) + i * sizeof(Key));
+        }
         const Key *keyptr(size_t i) const noexcept {
-            return (const Key *)(keydata.data() + i * sizeof(Key));
+            return (const Key *)(slots_in<Key>(keydata.data()) + i * sizeof(Key));
         }
 
         Value *valueptr(size_t i) noexcept {
-            return (Value *)(valuedata.data() + i * sizeof(Value));
+            return (Value *)(slots_in<Value>(valuedata.data()) + i * sizeof(Value));
         }
         const Value *valueptr(size_t i) const noexcept {
-            return (const Value *)(valuedata.data() + i * sizeof(Value));
+            return (const Value *)(slots_in<Value>(valuedata.data()) + i * sizeof(Value));
         }
 
         void reset_hash_values() noexcept { memset(md.get(), 0, md.size_bytes()); }
@@ -235,8 +246,8 @@ private:
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
         data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        data.keydata = Bytes(initial_table_size * sizeof(Key) + slack<Key>());
+        data.valuedata = Bytes(initial_table_size * sizeof(Value) + slack<Value>());
     }
 
     size_t hash_to_slot(size_t hashval) const {
@@ -279,8 +290,8 @@ private:
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
-        grown.keydata = Bytes(new_size * sizeof(Key));
-        grown.valuedata = Bytes(new_size * sizeof(Value));
+        grown.keydata = Bytes(new_size * sizeof(Key) + slack<Key>());
+        grown.valuedata = Bytes(new_size * sizeof(Value) + slack<Value>());
 
         grown.reset_hash_values();
         MapData old = move(data);
-- 
2.43.0

