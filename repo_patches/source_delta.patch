From a32057efe9d075fa01e04dab1a20c84c0c3ad0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 01/60] fix: attach KDB groups to the right parent after
 returning to a shallower level

---
 src/kdb.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..b8478cb 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -618,6 +618,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
       last_group_by_level[group_level - 1]->AddGroup(group);
       last_group_by_level.push_back(group);
     } else {
+      // Forget the deeper levels so that they can't adopt any later groups.
+      last_group_by_level.resize(group_level + 1);
+
       last_group_by_level[group_level - 1]->AddGroup(group);
       last_group_by_level[group_level] = group;
     }
-- 
2.43.0


From 6c52865d5c989fae9073fa8cf6ef8d8dc29a6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 02/60] fix: don't overflow the KDB group level

---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index b8478cb..a3b3f14 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,7 +609,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = std::get<1>(group_data) + 1;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
-- 
2.43.0


From a20e6a8211b38d431e553e197397c17a815aeea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 03/60] fix: write unset times as never in KDB files

---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a3b3f14..fc5a11f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From 71a227a2bec0bb289de0a653a47aabab4e31a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 04/60] fix: reject malformed padding in base64 data

---
 src/base64.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base64.hh b/src/base64.hh
index 4bf2e0a..90ac9ca 100644
--- a/src/base64.hh
+++ b/src/base64.hh
@@ -78,6 +78,13 @@ void base64_decode(const std::string& src, OutputIterator result) {
   if (src_trimmed.size() % 4 != 0)
     throw FormatError("Base64 data must be a multiple of four in size.");
 
+  // Padding is only allowed as the one or two last characters.
+  std::size_t pad = src_trimmed.find('=');
+  if (pad != std::string::npos &&
+      (src_trimmed.size() - pad > 2 || src_trimmed.back() != '=')) {
+    throw FormatError("Illegal padding in base64 stream.");
+  }
+
   uint32_t bits24 = 0;
   std::size_t i = 0;
 
-- 
2.43.0


From b6040306c23fa05621c445315ea67a9d0b2a770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 05/60] fix: require valid padding when decrypting in CBC mode

---
 src/cipher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..cf1da4a 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -176,6 +176,7 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
 
+  bool complete = false;
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
                                     std::size_t src_len,
@@ -192,7 +193,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len < 1 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
@@ -200,12 +201,17 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
           throw IoError("Decryption error.");
       }
 
+      complete = true;
       return 16 - pad_len;
     }
 
     prv = src;
     return 16;
   });
+
+  // There is always at least one block since padding is always applied.
+  if (!complete)
+    throw IoError("Decryption error.");
 }
 
 AesCipher::AesCipher(const std::array<uint8_t, 32>& key,
-- 
2.43.0


From 3e7be596a1a668c75f4e4451cdfd98fa37fd6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 06/60] fix: detect truncated hashed block streams

---
 src/stream.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..b9e420d 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -44,6 +44,8 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Unexpected end of block stream.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
@@ -52,7 +54,13 @@ int hashed_istreambuf::underflow() {
     block_.clear();
     std::generate_n(std::back_inserter(block_),
                     header.block_size,
-                    [&]() { return src_.get(); });
+                    [&]() {
+      int c = src_.get();
+      if (!src_.good())
+        throw IoError("Unexpected end of block stream.");
+
+      return static_cast<char>(c);
+    });
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
-- 
2.43.0


From 81756168fe7f89e770b49d0966dbcc82809890b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 07/60] fix: read gzip streams to their end and detect
 truncated ones

---
 src/stream.cc | 17 ++++++++++-------
 src/stream.hh |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index b9e420d..6114010 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -149,19 +149,21 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
-    // Check if we need to feed the z-stream more input data.
-    if (z_stream_.avail_in == 0) {
+  // Note that the decompressor may consume input without producing any output.
+  while (gptr() == egptr() && !end_of_stream_) {
+    // Check if we need to feed the z-stream more input data. There may still be
+    // pending output if the output buffer was filled by the last inflation.
+    if (z_stream_.avail_in == 0 && z_stream_.avail_out > 0) {
       if (!src_.good())
-        return std::char_traits<char>::eof();
+        throw IoError("Unexpected end of gzip stream.");
 
       src_.read(input_.data(), input_.size());
 
       z_stream_.avail_in = src_.gcount();
       z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
 
-      if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
+      if (src_.bad() || z_stream_.avail_in < 1)
+        throw IoError("Unexpected end of gzip stream.");
     }
 
     z_stream_.avail_out = output_.size();
@@ -169,9 +171,10 @@ int gzip_istreambuf::underflow() {
 
     int res = inflate(&z_stream_, Z_NO_FLUSH);
     assert(res != Z_STREAM_ERROR);
-    if (res < 0) {
+    if (res < 0 && res != Z_BUF_ERROR) {
       throw IoError(Format() << "Gzip inflation error (" << res << ").");
     }
+    end_of_stream_ = res == Z_STREAM_END;
 
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..ab9543b 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -151,6 +151,7 @@ class gzip_istreambuf final :
 
   std::istream& src_;
   z_stream z_stream_;
+  bool end_of_stream_ = false;
 
   /** Input buffer for feeding the decompressor. */
   std::array<char, kBufferSize> input_ = { { 0 } };
-- 
2.43.0


From 8ab6279d83fba0617453a787ca50cbec9c9079d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 08/60] fix: read compressed KDBX binaries as binary data

---
 src/kdbx.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..f6cf3dc 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -297,8 +297,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           gzip_istreambuf gzip_streambuf(raw_stream);
           std::istream gzip_stream(&gzip_streambuf);
 
+          std::vector<char> raw_data = consume<std::vector<char>>(gzip_stream);
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(raw_data.begin(), raw_data.end()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
@@ -572,8 +573,10 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
+            std::vector<char> raw_data =
+                consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
+                std::string(raw_data.begin(), raw_data.end()),
                 bin_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-- 
2.43.0


From 3493eda0e356e43371e0ddd15a8429ca37daa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 09/60] fix: preserve KDBX attachments that are stored inside
 their entry

---
 src/kdbx.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index f6cf3dc..acf27f1 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -563,13 +563,13 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
@@ -577,11 +577,11 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
                 consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
                 std::string(raw_data.begin(), raw_data.end()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -708,8 +708,14 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      const protect<std::string>& data = attachment->binary()->data();
+      if (data.is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(*data)).c_str());
+      } else {
+        val_node.text().set(base64_encode(*data).c_str());
+      }
     }
   }
 
-- 
2.43.0


From a083d669b566dbd53bc834218562b70c61199c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 10/60] fix: handle attachments without any data

---
 src/entry.cc | 2 +-
 src/kdb.cc   | 2 +-
 src/kdbx.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index fc5a11f..2b26c22 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -462,7 +462,7 @@ void KdbFile::WriteEntry(std::ostream& dst,
       conserve<std::string>(dst, attachment->name());
     }
 
-    if (!attachment->binary()->Empty()) {
+    if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
       conserve<uint32_t>(dst, attachment->binary()->Size());
diff --git a/src/kdbx.cc b/src/kdbx.cc
index acf27f1..0ed760a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -707,7 +707,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       }
     }
 
-    if (!found_in_pool) {
+    if (!found_in_pool && attachment->binary()) {
       pugi::xml_node val_node = bin_node.append_child("Value");
       const protect<std::string>& data = attachment->binary()->data();
       if (data.is_protected()) {
-- 
2.43.0


From 9c18cd576760b8d630d80ab7dcd2d970bf4ca5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 11/60] fix: compare vectors of different sizes correctly

---
 src/util.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..1b7c629 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,8 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() &&
+      std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From 1204fb58d674a454dcaccaee8573993aa90cc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 12/60] fix: initialise all metadata times

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From b07f5000216e2112583bccfa40e2241a0eee4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 13/60] fix: export databases without metadata to KDBX

---
 src/kdbx.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0ed760a..0edc176 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -389,8 +389,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -923,7 +921,8 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   pugi::xml_node group_node =
       kpf_node.append_child("Root").append_child("Group");
 
-  WriteMeta(meta_node, obfuscator, db.meta());
+  WriteMeta(meta_node, obfuscator,
+            db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root());
 
   doc.save(dst);
-- 
2.43.0


From 3eb99bc576e8f12278d698e8536e2ef1220e9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 14/60] fix: don't abort on incomplete KDBX files

---
 src/kdbx.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0edc176..6b1e1e0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -322,10 +322,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -478,8 +476,6 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
     if (it != icon_pool_.end()) {
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
     }
   }
  
@@ -743,8 +739,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
     if (icon != icon_pool_.end()) {
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
     }
   }
 
@@ -876,15 +870,11 @@ void KdbxFile::ParseXml(std::istream& src,
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
   }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
   }
 }
 
-- 
2.43.0


From 33d5500cca114da027f4d2a4f2d755225d4b66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 15/60] fix: don't abort on malformed times in KDBX files

---
 src/kdbx.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6b1e1e0..0063477 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -142,15 +142,14 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   if (std::string(text) == "2999-12-28T22:59:59Z")
     return 0;
   
-  std::tm tm;
+  std::tm tm = std::tm();
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  if (res == nullptr)
     return 0;
-  }
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
+  if (*res != 'Z' && *res != '\0')
+    return 0;
 
   return timegm(&tm);
 }
-- 
2.43.0


From 0b3f2eacf70c9d532daf533730651ddd87751bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 16/60] fix: only let the last visible entry element select the
 last visible entry

---
 src/kdbx.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0063477..a4b429d 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -765,8 +765,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string last_visible_str = group_node.child_value("LastTopVisibleEntry");
+  std::array<uint8_t, 16> last_visible_uuid = { { 0 } };
+  base64_decode(last_visible_str, bounds_checked(last_visible_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -774,8 +775,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (!last_visible_str.empty() && entry_uuid == last_visible_uuid &&
+        group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From 1829500b0b4faf62019385116c32d8c159899478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 17/60] fix: resolve recycle bin and entry templates to the
 groups in the tree

---
 src/kdbx.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a4b429d..7e2a87b 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -236,15 +236,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -253,9 +247,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing "RecycleBinUUID", "EntryTemplatesGroup",
+  // "LastSelectedGroup" and "LastTopVisibleGroup" here. They will be parsed
+  // later by ParseXml(). The reason is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -867,6 +861,11 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
+
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-- 
2.43.0


From e0029e3409f4d92788ff1e76185410da8f0602f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 18/60] fix: initialise the UUID of icons in KDBX files

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7e2a87b..a1a809a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -260,7 +260,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
-- 
2.43.0


From 91673c7cf8afe2edcb4edef3d0bb637fb9691976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 19/60] fix: preserve carriage returns in KDBX strings

---
 src/pugixml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pugixml.cc b/src/pugixml.cc
index 006bbf2..2a26cf1 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -1842,7 +1842,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32 (except \t), &, <, >, "
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1851,7 +1851,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  0,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  3,  0,     // 48-63
-- 
2.43.0


From 6a9222aa1dca06e632cf0672d4b6b028459079f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 20/60] fix: report failures to write the exported database

---
 src/kdb.cc  | 4 ++++
 src/kdbx.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 2b26c22..8209c12 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -756,6 +756,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index a1a809a..fa35e48 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1230,6 +1230,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From d3326e6cd59986ba4fe43f6b121522dcac93ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 21/60] fix: don't overwrite the destination before the export
 has succeeded

---
 src/kdb.cc  |  8 ++++----
 src/kdbx.cc | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 8209c12..2e2b768 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -651,10 +651,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -752,6 +748,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
   header.transform_seed = db.transform_seed();
   header.transform_rounds = db.transform_rounds();
 
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
   conserve<KdbHeader>(dst, header);
 
   // Encrypt the content.
diff --git a/src/kdbx.cc b/src/kdbx.cc
index fa35e48..76eebc6 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1111,10 +1111,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1194,11 +1190,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, header_data.c_str(), header_data.size());
   SHA256_Final(header_hash_.data(), &sha256);
 
-  // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
-
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
   SHA256_Init(&sha256);
@@ -1228,6 +1219,15 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   hashed_stream.flush();
 
+  // Write header to file.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  std::copy(std::istreambuf_iterator<char>(header_stream),
+            std::istreambuf_iterator<char>(),
+            std::ostreambuf_iterator<char>(dst));
+
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
 
-- 
2.43.0


From 4296f7b17bbca40eb560ff825eaac5752dd83222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 22/60] fix: tell an all-zero key file from an absent one

---
 src/key.cc | 6 ++++--
 src/key.hh | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..aaa2846 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -42,14 +42,14 @@ std::array<uint8_t, 32> Key::CompositeKey::Resolve(
       SHA256_Init(&sha256);
       if (password_key_ != kEmptyKey)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_key_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
     if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+      if (has_keyfile_key_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -94,6 +94,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_key_ = true;
     return;
   }
 
@@ -116,6 +117,7 @@ void Key::SetKeyFile(const std::string& path) {
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
     key_.keyfile_key_[i] = v;
   }
+  key_.has_keyfile_key_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..7e54a77 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,7 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_keyfile_key_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From 8dda8aa92d87c6de085f65d0398630ba95266d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 23/60] fix: leave the key unchanged when the key file is
 invalid

---
 src/key.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index aaa2846..48c304e 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -108,15 +108,18 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
   key_.has_keyfile_key_ = true;
 }
 
-- 
2.43.0


From 9d4ddf0ae730c788c013c2ed9fbb8ce6fe9dea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 24/60] fix: don't truncate the number of transform rounds

---
 src/kdb.cc | 5 +++++
 src/key.cc | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 2e2b768..b4f1a7b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -651,6 +651,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
+  if (db.transform_rounds() >
+      std::numeric_limits<decltype(KdbHeader::transform_rounds)>::max()) {
+    throw InternalError("Transform rounds exceeds KDB maximum.");
+  }
+
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
diff --git a/src/key.cc b/src/key.cc
index 48c304e..c47ace5 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -129,7 +129,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From b09b3c946b9d9dec1dd4c585a191152a390ff5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 25/60] fix: reject master seeds of an illegal size when
 exporting to KDB

---
 src/kdb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index b4f1a7b..28f8d96 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -646,7 +646,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
   // Extract database values in compatible formats.
-  assert(db.master_seed().size() == 16);
+  if (db.master_seed().size() != 16)
+    throw InternalError("Illegal master seed size for KDB.");
+
   std::array<uint8_t, 16> master_seed;
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
-- 
2.43.0


From 1f9f35e0af3c4788aefc011c4ddeceee0bb742a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 26/60] fix: refuse to export what KDB can't represent

---
 src/kdb.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 28f8d96..2ed6b18 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -453,7 +453,9 @@ void KdbFile::WriteEntry(std::ostream& dst,
   conserve<KdbTime>(dst, expiry_time);
 
   if (entry->HasAttachment()) {
-    assert(entry->attachments().size() == 1);
+    if (entry->attachments().size() != 1)
+      throw InternalError("Entry has more attachments than KDB supports.");
+
     std::shared_ptr<Entry::Attachment> attachment = entry->attachments()[0];
     if (!attachment->name().empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
@@ -683,6 +685,9 @@ void KdbFile::Export(const std::string& path, const Database& db,
       break;
   }
 
+  if (!db.root()->Entries().empty())
+    throw InternalError("KDB does not support entries in the root group.");
+
   // Write unencrypted content to temporary stream.
   std::stringstream content;
   decltype(KdbHeader::num_groups) num_groups = 0;
-- 
2.43.0


From eba5eeaa6be595fbbdd7dcbffed98720716042d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 27/60] fix: refuse to export ciphers that KDBX doesn't support

---
 src/kdbx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 76eebc6..7ba467e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1123,7 +1123,9 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-  assert(db.cipher() == Database::Cipher::kAes);
+  if (db.cipher() != Database::Cipher::kAes)
+    throw InternalError("Cipher is not supported by KDBX.");
+
   std::unique_ptr<Cipher<16>> cipher(
       new AesCipher(final_key, db.init_vector()));
 
-- 
2.43.0


From ac9310ff897bd49ac3c8efa0acd9b545f5bd1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 28/60] fix: fail cleanly when exporting too large master seeds

---
 src/kdbx.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7ba467e..5973637 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1149,7 +1149,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   if (db.master_seed().size() >
       std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
-    assert(false);
     throw InternalError("Master seed size exceeds KDBX maximum.");
   }
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
-- 
2.43.0


From ae4764211b5783047bfd48d6a215525532197dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 29/60] fix: refuse to export databases without a root group

---
 src/kdb.cc  | 3 +++
 src/kdbx.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 2ed6b18..6e69920 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -647,6 +647,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+
   // Extract database values in compatible formats.
   if (db.master_seed().size() != 16)
     throw InternalError("Illegal master seed size for KDB.");
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 5973637..4169c70 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1111,6 +1111,9 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
-- 
2.43.0


From 60b1410e6e22f4a0647082f90e99d2854bf18688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 30/60] fix: reject KDB files with content beyond the groups
 and entries

---
 src/kdb.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 6e69920..431e196 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -598,6 +598,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
         ReadEntry(content, entry_group_id), entry_group_id));
   }
 
+  if (content.peek() != std::char_traits<char>::eof())
+    throw FormatError("Unexpected content after the last KDB entry.");
+
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-- 
2.43.0


From c0272e24516d72cd54a373ac9fe30738a9e91da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 31/60] fix: preserve the auto-type obfuscation method

---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From b4114065cfe638a2a2b218297a106542f0650423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 32/60] fix: reject unknown KDBX compression methods

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 4169c70..fbc318e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -978,7 +978,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 97ba05f4d3e29ca9ccd7e4f6319d0d075a2ab999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 33/60] fix: make time conversions thread safe

---
 src/kdb.cc  | 3 ++-
 src/kdbx.cc | 3 ++-
 src/util.cc | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 431e196..1e2b3ae 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -79,7 +79,8 @@ struct KdbTime {
     if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
+      std::tm time_buf = std::tm();
+      std::tm* time_ptr = localtime_r(&time, &time_buf);
 
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index fbc318e..a50e873 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -158,9 +158,10 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  std::tm time_buf = std::tm();
   char buffer[128];
   std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+                gmtime_r(&time, &time_buf));
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index 99e249f..23c55ec 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -24,7 +24,8 @@
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
+  std::tm time_buf = std::tm();
+  const std::tm* local_time = localtime_r(&time, &time_buf);
   assert(local_time != nullptr);
 
   char buffer[128];
-- 
2.43.0


From b987bfa37884bd73c9b5c4749bc4d5d2d9264005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 34/60] fix: don't abort on invalid times in KDB files

---
 src/kdb.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1e2b3ae..6aeb147 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -116,12 +116,10 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900) {
+      return 0;
+    }
 
     std::tm time;
     time.tm_sec = second;
@@ -135,10 +133,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
+    if (res == -1)
       return 0;
-    }
 
     return res;
   }
-- 
2.43.0


From d4f8e4ad6fcfcb5d5a0aaee99af1d2ceaa5083a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 35/60] fix: reject KDB files with duplicate group identifiers

---
 src/kdb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 6aeb147..1eece63 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -584,7 +584,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
+    if (group_map.count(group_id) != 0)
+      throw FormatError("Duplicate group identifier in KDB.");
+
     group_map[group_id] = group;
   }
 
-- 
2.43.0


From 98860772d2a7273ae4c615bc692ecdc475d9d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 36/60] fix: don't read KDB fields beyond the end of the
 content

---
 src/kdb.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1eece63..d4fc22b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -190,9 +190,13 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+
+      return static_cast<char>(c);
+    });
 
     assert(field.str().size() == field_size);
 
@@ -301,9 +305,13 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
-    if (!src.good())
-      throw IoError("Read error.");
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+
+      return static_cast<char>(c);
+    });
 
     assert(field.str().size() == field_size);
 
-- 
2.43.0


From 81a237be334f67dd208638ae6c270248d1f5a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 37/60] fix: escape strings in JSON output

---
 src/entry.cc | 14 +++++++-------
 src/group.cc |  4 ++--
 src/util.cc  | 20 ++++++++++++++++++++
 src/util.hh  |  8 ++++++++
 4 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index f5c4e9c..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
+    json << "\"name\":\"" << json_escape(name_) << "\"";
   if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index 23c55ec..6362d63 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -33,6 +33,26 @@ std::string time_to_str(const std::time_t& time) {
   return buffer;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char* kHexDigits = "0123456789abcdef";
+
+  std::string res;
+  for (char c : str) {
+    if (c == '"' || c == '\\') {
+      res.push_back('\\');
+      res.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      res.append("\\u00");
+      res.push_back(kHexDigits[c >> 4]);
+      res.push_back(kHexDigits[c & 0xf]);
+    } else {
+      res.push_back(c);
+    }
+  }
+
+  return res;
+}
+
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
   std::mt19937 engine(rd());
diff --git a/src/util.hh b/src/util.hh
index 1b7c629..896788b 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -102,6 +102,14 @@ inline void dfs(const std::shared_ptr<T>& current,
  */
 std::string time_to_str(const std::time_t& time);
 
+/**
+ * Escapes the characters of a string that have a special meaning inside of JSON
+ * string literals.
+ * @param [in] str String to escape.
+ * @return @a str with all special characters escaped.
+ */
+std::string json_escape(const std::string& str);
+
 std::array<uint8_t, 16> generate_uuid();
 
 }   // namespace keepass
-- 
2.43.0


From f72888e52f460cdf233d2be1f0a27fc98a0f5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 38/60] fix: treat null UUIDs in KDBX metadata as absent groups

---
 src/kdbx.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a50e873..beaca27 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -130,6 +130,11 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
+  // KeePass refers to no group at all by an UUID of zeros.
+  static const std::array<uint8_t, 16> kNullUuid = { { 0 } };
+  if (uuid == kNullUuid)
+    return nullptr;
+
   std::shared_ptr<Group> group = std::make_shared<Group>();
   group->set_uuid(uuid);
 
-- 
2.43.0


From a27feccf055083e5436033802938e7d5ce1fe1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 39/60] fix: limit the nesting of KDBX elements

Groups and history entries are parsed recursively, so that a small file with
a few hundred nested history entries overflowed the stack.
---
 src/kdbx.cc | 18 ++++++++++++++++++
 src/kdbx.hh |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index beaca27..cdbcd65 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -49,6 +49,7 @@ constexpr uint32_t kKdbxSignature0 = 0x9aa2d903;
 constexpr uint32_t kKdbxSignature1 = 0xb54bfb67;
 constexpr uint32_t kKdbxVersionCriticalMask = 0xffff0000;
 constexpr uint32_t kKdbxVersionCriticalMin = 0x00030001;
+constexpr int kKdbxMaxXmlDepth = 256;
 
 constexpr std::array<uint8_t, 16> kKdbxCipherAes = { {
   0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50,
@@ -839,12 +840,28 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
   }
 }
 
+void KdbxFile::CheckXmlDepth(pugi::xml_document& doc) {
+  // Groups and history entries are handled recursively, the nesting has to be
+  // limited in order not to exhaust the stack.
+  struct XmlDepthWalker : pugi::xml_tree_walker {
+   public:
+    virtual bool for_each(pugi::xml_node&) override {
+      return depth() < kKdbxMaxXmlDepth;
+    }
+  };
+
+  XmlDepthWalker walker;
+  if (!doc.traverse(walker))
+    throw FormatError("Too deeply nested elements in KDBX XML.");
+}
+
 void KdbxFile::ParseXml(std::istream& src,
                         RandomObfuscator& obfuscator,
                         Database& db) {
   pugi::xml_document doc;
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
+  CheckXmlDepth(doc);
 
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
@@ -919,6 +936,7 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   WriteMeta(meta_node, obfuscator,
             db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root());
+  CheckXmlDepth(doc);
 
   doc.save(dst);
 }
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..f08a736 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -98,6 +98,7 @@ class KdbxFile final {
                   RandomObfuscator& obfuscator,
                   std::shared_ptr<Group> group);
 
+  void CheckXmlDepth(pugi::xml_document& doc);
   void ParseXml(std::istream& src, RandomObfuscator& obfuscator, Database& db);
 #ifdef DEBUG
   void PrintXml(pugi::xml_document& doc);
-- 
2.43.0


From 05c56a6038edab11b0f6ced49c092a951e6b9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 40/60] fix: limit the nesting of KDB groups

Groups are destroyed and printed recursively, so that a file with tens of
thousands of nested groups overflowed the stack.
---
 src/kdb.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index d4fc22b..27e278b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -44,6 +44,10 @@ const uint32_t kKdbFlagRijndael = 0x00000002;
 //const uint32_t kKdbFlagArcFour = 0x00000004;
 const uint32_t kKdbFlagTwofish = 0x00000008;
 
+// Groups are handled recursively, the nesting has to be limited in order not to
+// exhaust the stack.
+const uint16_t kKdbMaxGroupLevel = 256;
+
 #pragma pack(push, 1)
 struct KdbHeader {
   uint32_t signature0;
@@ -591,6 +595,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     uint16_t group_level = 0;
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
+    if (group_level > kKdbMaxGroupLevel)
+      throw FormatError("Too deeply nested groups in KDB.");
+
     groups.push_back(std::make_tuple(group, group_level));
     if (group_map.count(group_id) != 0)
       throw FormatError("Duplicate group identifier in KDB.");
@@ -709,10 +716,8 @@ void KdbFile::Export(const std::string& path, const Database& db,
   dfs<Group, &Group::Groups>(db.root(),
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t level) {
-    if (level > std::numeric_limits<uint16_t>::max()) {
-      assert(false);
+    if (level > kKdbMaxGroupLevel)
       throw InternalError("Group hierarchy exceeds KDB maximum.");
-    }
 
     WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
 
-- 
2.43.0


From 1f6dcbdef0498849d0f6d23a968fc796b8515b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 41/60] fix: find the last visible entry of a group in any
 group

KeePass may show the entries of sub groups together with those of the group, the
last visible entry is then not one of the group's own and was lost.
---
 src/kdbx.cc | 15 +++++++++++++++
 src/kdbx.hh |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index cdbcd65..a7d21e0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -117,6 +117,8 @@ void KdbxFile::Reset() {
   binary_pool_.clear();
   icon_pool_.clear();
   group_pool_.clear();
+  entry_pool_.clear();
+  last_visible_entries_.clear();
   header_hash_ = { 0 };
 }
 
@@ -775,6 +777,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::array<uint8_t, 16> entry_uuid = { 0 };
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
+    entry_pool_.insert(std::make_pair(entry_uuid, entry));
 
     if (!last_visible_str.empty() && entry_uuid == last_visible_uuid &&
         group->last_visible_entry().expired()) {
@@ -782,6 +785,12 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     }
   }
 
+  // The last visible entry may as well be part of any other group, which
+  // possibly hasn't been parsed yet.
+  static const std::array<uint8_t, 16> kNullUuid = { { 0 } };
+  if (last_visible_uuid != kNullUuid && group->last_visible_entry().expired())
+    last_visible_entries_.push_back(std::make_pair(group, last_visible_uuid));
+
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
     group->AddGroup(ParseGroup(subgroup_node, obfuscator));
@@ -878,6 +887,12 @@ void KdbxFile::ParseXml(std::istream& src,
   std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
   std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator);
 
+  for (auto& group_entry : last_visible_entries_) {
+    auto entry = entry_pool_.find(group_entry.second);
+    if (entry != entry_pool_.end())
+      group_entry.first->set_last_visible_entry(entry->second);
+  }
+
   db.set_meta(meta);
   db.set_root(root);
 
diff --git a/src/kdbx.hh b/src/kdbx.hh
index f08a736..a55902b 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -17,11 +17,15 @@
  */
 
 #pragma once
+#include <array>
 #include <cstdint>
 #include <memory>
 #include <istream>
+#include <map>
 #include <string>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 #include "database.hh"
 #include "security.hh"
@@ -52,10 +56,15 @@ class KdbxFile final {
 
   typedef std::unordered_map<std::string, std::shared_ptr<Group>> GroupPool;
 
+  typedef std::map<std::array<uint8_t, 16>, std::weak_ptr<Entry>> EntryPool;
+
  private:
   BinaryPool binary_pool_;
   IconPool icon_pool_;
   GroupPool group_pool_;
+  EntryPool entry_pool_;
+  std::vector<std::pair<std::shared_ptr<Group>,
+                        std::array<uint8_t, 16>>> last_visible_entries_;
   std::array<uint8_t, 32> header_hash_ = { { 0 } }; 
 
   void Reset();
-- 
2.43.0


From 9f66d3d7cb2749ba56d7f1aa615afc8785d7fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 42/60] fix: Notice failures of writing the KDBX header

---
 src/kdbx.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a7d21e0..68c4288 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1267,9 +1267,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
 
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
-- 
2.43.0


From 5e8189c13184bd9f38addc7476ed441ab129fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 43/60] fix: Refuse times that KDB can't represent

---
 src/kdb.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 27e278b..e58bdac 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -86,6 +86,12 @@ struct KdbTime {
       std::tm time_buf = std::tm();
       std::tm* time_ptr = localtime_r(&time, &time_buf);
 
+      // Import accepts nothing earlier and the packed year has 14 bits.
+      if (time_ptr == nullptr || time_ptr->tm_year < 0 ||
+          time_ptr->tm_year > 0x3fff - 1900) {
+        throw InternalError("Time exceeds KDB limits.");
+      }
+
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
       uint32_t day = time_ptr->tm_mday;
-- 
2.43.0


From 8290a825ed42d5164391f560c02324af17f88619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 44/60] fix: Refuse times that KDBX can't represent

---
 src/kdbx.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 68c4288..554040c 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -167,9 +167,13 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
     return "2999-12-28T22:59:59Z";
 
   std::tm time_buf = std::tm();
+  if (gmtime_r(&time, &time_buf) == nullptr ||
+      time_buf.tm_year < -1900 || time_buf.tm_year > 9999 - 1900) {
+    throw InternalError("Time exceeds KDBX limits.");
+  }
+
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                gmtime_r(&time, &time_buf));
+  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &time_buf);
   return buffer;
 }
 
-- 
2.43.0


From dbcc44b8447986cc279d8eaca09e3e467516579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 45/60] fix: Write years before 1000 with four digits in KDBX

---
 src/kdbx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 554040c..003ff61 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
 #include <fstream>
 #include <sstream>
 #ifdef DEBUG
@@ -172,8 +173,10 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
     throw InternalError("Time exceeds KDBX limits.");
   }
 
+  // The format has four digits for the year, strftime doesn't pad it.
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &time_buf);
+  std::snprintf(buffer, sizeof(buffer), "%04d-", time_buf.tm_year + 1900);
+  std::strftime(buffer + 5, sizeof(buffer) - 5, "%m-%dT%H:%M:%SZ", &time_buf);
   return buffer;
 }
 
-- 
2.43.0


From d2924ce7ace1f143a95d30936a55b23b7dceba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 46/60] fix: Refuse text with NUL characters in KDB

---
 src/io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io.cc b/src/io.cc
index 6f7e60c..0597c52 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -77,6 +77,9 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src) {
 
 template <>
 void conserve<std::string>(std::ostream& dst, const std::string& val) {
+  if (val.find('\0') != std::string::npos)
+    throw InternalError("Text with NUL characters can't be stored.");
+
   dst.write(val.c_str(), val.size() + 1);   // FIXME: Is this safe?
   if (!dst.good())
     throw IoError("Write error.");
-- 
2.43.0


From 0948d3c88e71531730648d5193df3a85290f8484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 47/60] fix: report exhausted memory when starting gzip streams
 instead of aborting

---
 src/stream.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 6114010..382e759 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -139,7 +139,6 @@ gzip_istreambuf::gzip_istreambuf(std::istream& src) :
   z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
 
   if (inflateInit2(&z_stream_, 16 + MAX_WBITS) != Z_OK) {
-    assert(false);
     throw InternalError("Failed to initialize the gzip decompressor.");
   }
 }
@@ -197,7 +196,6 @@ gzip_ostreambuf::gzip_ostreambuf(std::ostream& dst) :
 
   if (deflateInit2(&z_stream_, Z_DEFAULT_COMPRESSION, Z_DEFLATED,
                    16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY) != Z_OK) {
-    assert(false);
     throw InternalError("Failed to initialize the gzip compressor.");
   }
 }
-- 
2.43.0


From 1994fdf0695cae35c973a0982fadd558ade44899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 48/60] fix: fail exports that run out of memory instead of
 writing incomplete databases

---
 src/kdb.cc  | 1 +
 src/kdbx.cc | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index e58bdac..bfec62c 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -716,6 +716,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Write unencrypted content to temporary stream.
   std::stringstream content;
+  content.exceptions(std::ios_base::badbit);
   decltype(KdbHeader::num_groups) num_groups = 0;
   decltype(KdbHeader::num_entries) num_entries = 0;
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 003ff61..1a469dc 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -438,9 +438,11 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
       if (binary->compress()) {
         bin_node.append_attribute("Compressed").set_value("True");
         std::stringstream compressed_data;
+        compressed_data.exceptions(std::ios_base::badbit);
 
         gzip_ostreambuf gzip_streambuf(compressed_data);
         std::ostream gzip_stream(&gzip_streambuf);
+        gzip_stream.exceptions(std::ios_base::badbit);
         std::copy(binary->data()->begin(), binary->data()->end(),
                   std::ostreambuf_iterator<char>(gzip_stream));
         gzip_stream.flush();
@@ -1185,6 +1187,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   header.version = kKdbxVersionCriticalMin;
 
   std::stringstream header_stream;
+  header_stream.exceptions(std::ios_base::badbit);
   conserve<KdbxHeader>(header_stream, header);
 
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
@@ -1252,14 +1255,17 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Write content to content stream.
   std::stringstream content_stream;
+  content_stream.exceptions(std::ios_base::badbit);
   conserve<std::array<uint8_t, 32>>(content_stream, content_start_bytes);
 
   hashed_ostreambuf hashed_streambuf(content_stream);
   std::ostream hashed_stream(&hashed_streambuf);
+  hashed_stream.exceptions(std::ios_base::badbit);
 
   if (db.compress()) {
     gzip_ostreambuf gzip_streambuf(hashed_stream);
     std::ostream gzip_stream(&gzip_streambuf);
+    gzip_stream.exceptions(std::ios_base::badbit);
 
     WriteXml(gzip_stream, obfuscator, db);
     gzip_stream.flush();
-- 
2.43.0


From 32e7025bbb6b4e5f0d63a6381c68ee23e56637ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 49/60] fix: fail KDBX exports whose XML nodes there is no
 memory for

---
 src/kdbx.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 1a469dc..12a849a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -21,7 +21,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
 #include <fstream>
+#include <new>
 #include <sstream>
 #ifdef DEBUG
 #include <iostream>
@@ -61,6 +63,23 @@ constexpr std::array<uint8_t, 8> kKdbxInnerRandomStreamInitVec = {
   0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a
 };
 
+namespace {
+
+void* allocate_xml(std::size_t size) {
+  void* ptr = std::malloc(size);
+  if (!ptr)
+    throw std::bad_alloc();
+
+  return ptr;
+}
+
+// By default nodes that there is no memory for are silently left out.
+const bool kXmlAllocatorInstalled =
+    (pugi::set_memory_management_functions(allocate_xml, std::free), true);
+
+}   // namespace
+
+
 enum class kKdbxCompressionFlags : uint32_t {
   kNone,
   kGzip,
-- 
2.43.0


From 1a0b4bdfb0270a4ca30d1dc0f23dd1229663f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 50/60] fix: report exhausted memory in ToJson instead of
 returning truncated JSON

---
 src/entry.cc | 2 ++
 src/group.cc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index c290e9e..1aa2566 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -64,6 +64,7 @@ bool Entry::IsMetaEntry() const {
 
 std::string Entry::Attachment::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios_base::badbit);
 
   json << "{";
   if (!name_.empty())
@@ -79,6 +80,7 @@ std::string Entry::Attachment::ToJson() const {
 
 std::string Entry::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios_base::badbit);
 
   json << "{";
   json << "\"icon\":" << icon_;
diff --git a/src/group.cc b/src/group.cc
index 8ac8976..fa3896a 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -53,6 +53,7 @@ bool Group::HasNonMetaEntries() const {
 
 std::string Group::ToJson() const {
   std::stringstream json;
+  json.exceptions(std::ios_base::badbit);
 
   json << "{";
   json << "\"icon\":" << icon_;
-- 
2.43.0


From 31eebb99dd93983a2608f1745505a0ec778ee4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 51/60] fix: don't take the rest of a key file for the key
 after a read error

---
 src/key.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/key.cc b/src/key.cc
index c47ace5..2a1bffc 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -98,6 +98,10 @@ void Key::SetKeyFile(const std::string& path) {
     return;
   }
 
+  // Don't mistake what is left after a read error for the complete file.
+  if (src.bad())
+    throw IoError("Read error.");
+
   // If not XML, reset stream and try to parse as text.
   src.seekg(0, std::ios::beg);
 
-- 
2.43.0


From cfbf19e51dbe7fd19467ca43e9b9a92399de7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 52/60] fix: don't let the global locale group the digits of
 numbers in JSON

---
 src/entry.cc | 3 +++
 src/group.cc | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index 1aa2566..c3b0943 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -18,6 +18,7 @@
 
 #include "entry.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -65,6 +66,7 @@ bool Entry::IsMetaEntry() const {
 std::string Entry::Attachment::ToJson() const {
   std::stringstream json;
   json.exceptions(std::ios_base::badbit);
+  json.imbue(std::locale::classic());
 
   json << "{";
   if (!name_.empty())
@@ -81,6 +83,7 @@ std::string Entry::Attachment::ToJson() const {
 std::string Entry::ToJson() const {
   std::stringstream json;
   json.exceptions(std::ios_base::badbit);
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
diff --git a/src/group.cc b/src/group.cc
index fa3896a..e153cbb 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -18,6 +18,7 @@
 
 #include "group.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -54,6 +55,7 @@ bool Group::HasNonMetaEntries() const {
 std::string Group::ToJson() const {
   std::stringstream json;
   json.exceptions(std::ios_base::badbit);
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
-- 
2.43.0


From 285c4424e0b2574880383bbde98c89cb94b095a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 53/60] fix: import icons with an empty image from KDBX

---
 src/kdbx.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 12a849a..f41220e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -290,10 +290,11 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   if (icons_node) {
     for (pugi::xml_node icon_node = icons_node.child("Icon"); icon_node;
         icon_node = icon_node.next_sibling("Icon")) {
+      if (!icon_node.child("Data"))
+        continue;
+
       std::vector<uint8_t> data;
       base64_decode(icon_node.child_value("Data"), std::back_inserter(data));
-      if (data.empty())
-        continue;
 
       std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
-- 
2.43.0


From a6c4f788891605d02ede1d466c62cc3f41e25e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:33 +0000
Subject: [PATCH 54/60] fix: import custom data with an empty key from KDBX

---
 src/kdbx.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index f41220e..6fe2d84 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -349,10 +349,11 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   if (data_node) {
     for (pugi::xml_node item_node = data_node.child("Item"); item_node;
         item_node = item_node.next_sibling("Item")) {
+      if (!item_node.child("Key"))
+        continue;
+
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty())
-        continue;
 
       meta->AddField(key, value);
     }
-- 
2.43.0


From d5cb727e4b5837d1285b3f2e2f9a0bd1178c32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 55/60] fix: absent group references don't lead to a group
 without an UUID in KDBX

---
 src/kdbx.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6fe2d84..aefc945 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -934,13 +934,16 @@ void KdbxFile::ParseXml(std::istream& src,
   meta->set_entry_templates(GetGroup(
       meta_node.child_value("EntryTemplatesGroup")));
 
-  auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
-  if (it != group_pool_.end()) {
+  // A missing or empty element doesn't refer to a group without an UUID.
+  std::string uuid_str = meta_node.child_value("LastSelectedGroup");
+  auto it = group_pool_.find(uuid_str);
+  if (!uuid_str.empty() && it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
   }
 
-  it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
-  if (it != group_pool_.end()) {
+  uuid_str = meta_node.child_value("LastTopVisibleGroup");
+  it = group_pool_.find(uuid_str);
+  if (!uuid_str.empty() && it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
   }
 }
-- 
2.43.0


From 3a3b003657f56ea70e9e363ede8d7f6250a2c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:06 +0000
Subject: [PATCH 56/60] fix: groups inherit their KDBX options from their
 parents when they are null

---
 src/kdbx.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index aefc945..0f91b73 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -77,6 +77,19 @@ void* allocate_xml(std::size_t size) {
 const bool kXmlAllocatorInstalled =
     (pugi::set_memory_management_functions(allocate_xml, std::free), true);
 
+// Groups inherit the options that are "null" from their parents. By default
+// the options of the root group are enabled.
+bool parse_group_option(pugi::xml_node group_node, const char* name) {
+  for (; std::string(group_node.name()) == "Group";
+      group_node = group_node.parent()) {
+    pugi::xml_text text = group_node.child(name).text();
+    if (std::string(text.as_string()) != "null")
+      return text.as_bool();
+  }
+
+  return true;
+}
+
 }   // namespace
 
 
@@ -795,8 +808,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_expanded(group_node.child("IsExpanded").text().as_bool());
   group->set_default_autotype_sequence(
       group_node.child_value("DefaultAutoTypeSequence"));
-  group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
-  group->set_search(group_node.child("EnableSearching").text().as_bool());
+  group->set_autotype(parse_group_option(group_node, "EnableAutoType"));
+  group->set_search(parse_group_option(group_node, "EnableSearching"));
 
   std::string last_visible_str = group_node.child_value("LastTopVisibleEntry");
   std::array<uint8_t, 16> last_visible_uuid = { { 0 } };
-- 
2.43.0


From e5c61599e44c935bfeeb0bd6fd96aef93892aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:10 +0000
Subject: [PATCH 57/60] fix: write booleans the way KeePass reads them in KDBX

---
 src/kdbx.cc | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0f91b73..0651ea0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -77,6 +77,11 @@ void* allocate_xml(std::size_t size) {
 const bool kXmlAllocatorInstalled =
     (pugi::set_memory_management_functions(allocate_xml, std::free), true);
 
+// Other programs tell the upper from the lower case.
+const char* bool_to_str(bool value) {
+  return value ? "True" : "False";
+}
+
 // Groups inherit the options that are "null" from their parents. By default
 // the options of the root group are enabled.
 bool parse_group_option(pugi::xml_node group_node, const char* name) {
@@ -405,23 +410,25 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
   pugi::xml_node mp_node = meta_node.append_child("MemoryProtection");
   mp_node.append_child("ProtectTitle").text().set(
-      meta->memory_protection().title());
+      bool_to_str(meta->memory_protection().title()));
   mp_node.append_child("ProtectUserName").text().set(
-      meta->memory_protection().username());
+      bool_to_str(meta->memory_protection().username()));
   mp_node.append_child("ProtectPassword").text().set(
-      meta->memory_protection().password());
+      bool_to_str(meta->memory_protection().password()));
   mp_node.append_child("ProtectURL").text().set(
-      meta->memory_protection().url());
+      bool_to_str(meta->memory_protection().url()));
   mp_node.append_child("ProtectNotes").text().set(
-      meta->memory_protection().notes());
+      bool_to_str(meta->memory_protection().notes()));
 
   if (meta->recycle_bin()) {
-    meta_node.append_child("RecycleBinEnabled").text().set(true);
+    meta_node.append_child("RecycleBinEnabled").text().set(
+        bool_to_str(true));
     meta_node.append_child("RecycleBinUUID").text().set(base64_encode(
         meta->recycle_bin()->uuid().begin(),
         meta->recycle_bin()->uuid().end()).c_str());
   } else {
-    meta_node.append_child("RecycleBinEnabled").text().set(false);
+    meta_node.append_child("RecycleBinEnabled").text().set(
+        bool_to_str(false));
   }
   meta_node.append_child("RecycleBinChanged").text().set(WriteDateTime(
       meta->recycle_bin_changed()).c_str());
@@ -681,11 +688,13 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       entry->move_time()).c_str());
-  times_node.append_child("Expires").text().set(entry->expires());
+  times_node.append_child("Expires").text().set(
+      bool_to_str(entry->expires()));
   times_node.append_child("UsageCount").text().set(entry->usage_count());
 
   pugi::xml_node autotype_node = entry_node.append_child("AutoType");
-  autotype_node.append_child("Enabled").text().set(entry->auto_type().enabled());
+  autotype_node.append_child("Enabled").text().set(
+      bool_to_str(entry->auto_type().enabled()));
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
@@ -867,14 +876,18 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
       group->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       group->move_time()).c_str());
-  times_node.append_child("Expires").text().set(group->expires());
+  times_node.append_child("Expires").text().set(
+      bool_to_str(group->expires()));
   times_node.append_child("UsageCount").text().set(group->usage_count());
 
-  group_node.append_child("IsExpanded").text().set(group->expanded());
+  group_node.append_child("IsExpanded").text().set(
+      bool_to_str(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       group->default_autotype_sequence().c_str());
-  group_node.append_child("EnableAutoType").text().set(group->autotype());
-  group_node.append_child("EnableSearching").text().set(group->search());
+  group_node.append_child("EnableAutoType").text().set(
+      bool_to_str(group->autotype()));
+  group_node.append_child("EnableSearching").text().set(
+      bool_to_str(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From 208b9d0d3743851f1b7a0bcd1bc694e438cd0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:14 +0000
Subject: [PATCH 58/60] fix: KDB group flags have four bytes

---
 src/group.hh |  6 +++---
 src/kdb.cc   | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/group.hh b/src/group.hh
index 1a896bf..c78cb22 100644
--- a/src/group.hh
+++ b/src/group.hh
@@ -39,7 +39,7 @@ class Group final {
   std::time_t access_time_ = 0;
   std::time_t expiry_time_ = 0;
   std::time_t move_time_ = 0;
-  uint16_t flags_ = 0;
+  uint32_t flags_ = 0;
   bool expires_ = false;
   bool expanded_ = false;
   uint32_t usage_count_ = 0;
@@ -86,8 +86,8 @@ class Group final {
   std::time_t move_time() const { return move_time_; }
   void set_move_time(const std::time_t& time) { move_time_ = time; }
 
-  uint16_t flags() const { return flags_; }
-  void set_flags(const uint16_t& flags) { flags_ = flags; }
+  uint32_t flags() const { return flags_; }
+  void set_flags(const uint32_t& flags) { flags_ = flags; }
 
   bool expires() const { return expires_; }
   void set_expires(bool expires) { expires_ = expires; }
diff --git a/src/kdb.cc b/src/kdb.cc
index bfec62c..bdd3b7b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -162,7 +162,7 @@ enum class KdbGroupFieldType : uint16_t {
   kExpiryTime,          ///< 5 bytes.
   kIcon,                ///< 4 bytes.
   kLevel,               ///< 2 bytes.
-  kFlags,               ///< 2 bytes.
+  kFlags,               ///< 4 bytes.
   kEnd = 0xffff         ///< 0 bytes.
 };
 
@@ -239,7 +239,9 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
         level = consume<uint16_t>(field);
         break;
       case KdbGroupFieldType::kFlags:
-        group->set_flags(consume<uint16_t>(field));
+        // Earlier versions of this library wrote only the lower half.
+        group->set_flags(field_size < 4 ? consume<uint16_t>(field) :
+                                          consume<uint32_t>(field));
         break;
       case KdbGroupFieldType::kEnd:
         return group;
@@ -292,8 +294,8 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint16_t>(dst, level);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kFlags));
-  conserve<uint32_t>(dst, 2);
-  conserve<uint16_t>(dst, group->flags());
+  conserve<uint32_t>(dst, 4);
+  conserve<uint32_t>(dst, group->flags());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kEnd));
   conserve<uint32_t>(dst, 0);
-- 
2.43.0


From f31fed9eea94d1c27b8bbd854fa86c55f0d73f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:17 +0000
Subject: [PATCH 59/60] fix: zero is no valid group identifier in KDB

---
 src/kdb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index bdd3b7b..8c49278 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -728,7 +728,8 @@ void KdbFile::Export(const std::string& path, const Database& db,
     if (level > kKdbMaxGroupLevel)
       throw InternalError("Group hierarchy exceeds KDB maximum.");
 
-    WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
+    // Zero is no valid group identifier.
+    WriteGroup(content, group, num_groups + 1, static_cast<uint16_t>(level));
 
     if (num_groups == std::numeric_limits<decltype(num_groups)>::max()) {
       assert(false);
@@ -742,7 +743,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t) {
     for (const auto& entry : group->Entries()) {
-      WriteEntry(content, entry, num_groups);
+      WriteEntry(content, entry, num_groups + 1);
 
       if (num_entries == std::numeric_limits<decltype(num_entries)>::max()) {
         assert(false);
-- 
2.43.0


From c2e93241c8a6d7a12567acfd5a7d1305cda7057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:06 +0000
Subject: [PATCH 60/60] fix: don't report running out of memory or failing
 reads as a wrong password

---
 src/kdb.cc  | 7 +++++++
 src/kdbx.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 8c49278..eb89948 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -567,10 +567,17 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
   // Decrypt the content.
   std::stringstream content;
+  content.exceptions(std::ios_base::badbit);
 
   try {
     decrypt_cbc(src, content, *cipher);
+  } catch (std::bad_alloc& e) {
+    throw;
   } catch (std::exception& e) {
+    // The password isn't to blame if the file couldn't be read.
+    if (src.bad() || (src.fail() && !src.eof()))
+      throw IoError("Read error.");
+
     throw PasswordError();
   }
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 0651ea0..92b0c98 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1162,10 +1162,17 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
 
   // Decrypt the content.
   std::stringstream content;
+  content.exceptions(std::ios_base::badbit);
 
   try {
     decrypt_cbc(src, content, *cipher);
+  } catch (std::bad_alloc& e) {
+    throw;
   } catch (std::exception& e) {
+    // The password isn't to blame if the file couldn't be read.
+    if (src.bad() || (src.fail() && !src.eof()))
+      throw IoError("Read error.");
+
     throw PasswordError();
   }
 
-- 
2.43.0

