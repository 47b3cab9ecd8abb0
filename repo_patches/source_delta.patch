From a9fbb4b05c0bc8945a18273c8a216139592ec2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:17 +0000
Subject: [PATCH 01/42] fix: find ID3v1 boundary in files shorter than 355
 bytes

When the probe for an enhanced tag failed, the handler restored the caller's
exception mask too early.  With a non-throwing stream the second probe then
failed silently and the end of the audio data was reported as -1.
---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..17a167a 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -178,7 +178,7 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.clear();
     is.seekg(0, std::ios_base::end);
     tag = is.tellg();
-    is.exceptions(exc_mask);
+    is.exceptions(EXC_MASK);
   }
 
   if (id3_v1_tag_type::none == tag_type) {
-- 
2.43.0


From 39ea8216ff5e222f888200c9761bdb18630d545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:33 +0000
Subject: [PATCH 02/42] fix: read an absent play counter as zero

play_count::count() and popularimeter::count() returned an uninitialised
value when the frame holds no counter bytes.
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..16ede15 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1074,7 +1074,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1159,7 +1159,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
-- 
2.43.0


From 2b4b5a2c8897dfdcb3e32dccc6eb12ea841529fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:34 +0000
Subject: [PATCH 03/42] fix: treat every byte of 0xe0 or more after 0xff as a
 false sync

The pair tests compared with 233 rather than 0xe0, so pairs from ff e0 to
ff e9 were left in unsynchronised data.
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 16ede15..868aebc 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 <= y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 <= y || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From 9b6b3abb3bd27b19b1fa171af70a92d7843ef6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:42 +0000
Subject: [PATCH 04/42] fix: count syncs in a 32-bit word in the order its
 bytes are written

The word is written big-endian, but the pairs were counted in host order.
---
 scribbu/framesv2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 868aebc..20dcd24 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -50,6 +50,9 @@ scribbu::detail::count_syncs(std::uint32_t n, bool false_only)
 {
   using namespace std;
 
+  // The bytes in the order in which they're written (i.e. big-endian)
+  n = htonl(n);
+
   size_t count = 0;
   const unsigned char *p = (const unsigned char*)&n;
   for (ptrdiff_t i = 0; i < 3; ++i) {
-- 
2.43.0


From a2fa7a5e0925633997a70569c24095352ee3152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:53 +0000
Subject: [PATCH 05/42] fix: refuse a lone % at the end of URL-encoded text

urldecode dropped a trailing % silently, though it refuses every other
incomplete sequence.
---
 scribbu/scribbu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 17a167a..eec71ca 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -417,5 +417,9 @@ scribbu::urldecode(const std::string &text)
 
   }
 
+  if (saw_pct) {
+    throw std::invalid_argument("incomplete % sequence");
+  }
+
   return out;
 }
-- 
2.43.0


From b9dba47b5560a4597061bddefedb3bfbd4de269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:53 +0000
Subject: [PATCH 06/42] fix: quote CSV fields that contain a carriage return

Readers end the record at a bare carriage return, just as at a line feed.
---
 scribbu/csv-pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..d509a8a 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
-- 
2.43.0


From 43f03bbf09dd63df43289a4971fa9a3a92219f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:53 +0000
Subject: [PATCH 07/42] fix: escape control characters in JSON strings

Control characters other than \b, \f, \n, \r and \t were written as they
are, which JSON does not allow.
---
 scribbu/json-pprinter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..e9b9722 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -68,7 +68,13 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if (static_cast<unsigned char>(c) < 0x20) {
+        // Control characters may not appear un-escaped in JSON strings
+        const char HEX[] = "0123456789abcdef";
+        stm << "\\u00" << HEX[c >> 4] << HEX[c & 0x0f];
+      } else {
+        stm << c;
+      }
       break;
     }
   }
-- 
2.43.0


From c77f761cbd6893bc7de2040e9b858550596b19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:56 +0000
Subject: [PATCH 08/42] fix: refuse to shrink tags below zero padding when the
 whole change falls on the first tag

When the size of a tag set was reduced by fewer bytes than there are tags,
the first tag alone gave up the padding, unchecked: a first tag with too
little padding wrapped around to a huge value instead of being refused.
---
 scribbu/tagset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..747674c 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -663,7 +663,7 @@ namespace scribbu {
     ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
     size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
+    if (adj + mu < 0 && -(adj + mu) > pad) {
       throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
     }
     (*p0)->padding(pad + adj + mu);
-- 
2.43.0


From 2f2515ca7c6ab8b33b7e3100c36b9926ca71277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:57 +0000
Subject: [PATCH 09/42] fix: hash the track from where the caller left the
 stream when no end is given

Looking for the ID3v1 tag moves the read position to the end of the file.
compute_track_md5 went on reading from there, so it failed for every
non-empty track unless the caller passed the end of the track itself.
---
 scribbu/scribbu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index eec71ca..9f685ad 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -229,6 +229,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   std::streampos here, tag;
   if (hint == EOF) {
     std::tie(here, tag) = find_id3v1_tag(is);
+    is.seekg(here);
   } else {
     here = is.tellg();
     tag = hint;
-- 
2.43.0


From 7145f949464570383073944ce60ab9e57008b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:04 +0000
Subject: [PATCH 10/42] fix: leave the stream at the end of the track whatever
 the duration computation does

Computing the duration can leave the stream failed, for instance when a VBR
header announces more bytes than there are. track_data then threw or left
the read position somewhere inside the track.
---
 scribbu/scribbu.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 9f685ad..77f7e7d 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -315,9 +315,11 @@ scribbu::track_data::track_data(std::istream &is) :
     // pass
   }
 
-  // Finally, patch-up the istream according to this method's contract.
+  // Finally, patch-up the istream according to this method's contract; the
+  // duration computation may have left any of the error bits set.
+  is.exceptions(std::ios_base::goodbit);
+  is.clear();
   is.seekg(tag, std::ios_base::beg);
-  is.clear(); // `eof' may be set
   is.exceptions(exc_mask);
 }
 
-- 
2.43.0


From 4428b30ace1e7ec39f1ccee17465b2cc2cdb5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:09 +0000
Subject: [PATCH 11/42] fix: write the terminator of an encryption method's
 owner

The owner of an encryption method registration is null-terminated, and size()
accounts for that null. write() left it out, so a frame read and written back
could not be read again, and the size it returned disagreed with size().
---
 scribbu/framesv2.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 20dcd24..0a69ecb 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -711,11 +711,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
-- 
2.43.0


From df16bf7dc376a0c94d35342614ea902f814d3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:09 +0000
Subject: [PATCH 12/42] fix: count the pairs at the ends of null-terminated
 fields

The number of pairs to be unsynchronised left out an ff at the end of a
null-terminated field (ff 00 needs it), and for encryption methods and comments
looked at the byte after the terminator instead of the terminator. For a comment
with a description and no text that read the front of an empty vector.
---
 scribbu/framesv2.cc  | 55 ++++++++++++++++++++++++--------------------
 scribbu/framesv23.cc |  5 ++++
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 0a69ecb..2992ac3 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -669,7 +669,11 @@ scribbu::unique_file_id::count_syncs(bool false_only) const
   using namespace scribbu::detail;
 
   size_t n = detail::count_syncs(owner_.begin(), owner_.end(), false_only);
-  // owner is null-terminated, so possibility of a false sync
+  // owner is null-terminated, so no possibility of a false sync... but
+  // ff 00 also has to be unsynchronised.
+  if (!false_only && !owner_.empty() && needs_unsync(owner_.back(), 0)) {
+    ++n;
+  }
   n += detail::count_syncs(id_.begin(), id_.end(), false_only);
   return n;
 }
@@ -728,21 +732,17 @@ scribbu::encryption_method::count_syncs(bool false_only) const
 
   size_t count = detail::count_syncs(email_.begin(), email_.end(), false_only);
 
-  if (!email_.empty()) {
-    if (false_only && is_false_sync(email_.back(), method_symbol_)) {
-      ++count;
-    }
-    else if (!false_only && needs_unsync(email_.back(), method_symbol_)) {
-      ++count;
-    }
+  // email_ is null-terminated, so no possibility of a false sync... but
+  // ff 00 also has to be unsynchronised.
+  if (!false_only && !email_.empty() && needs_unsync(email_.back(), 0)) {
+    ++count;
   }
-  // email_ is null-terminated, so no possibility of a false sync...
-  // but there could be one between method_symbol_ & data_:
+  // There could be a false sync between method_symbol_ & data_:
   if (!data_.empty()) {
     if (false_only && is_false_sync(method_symbol_, data_.front())) {
       ++count;
     }
-    else if (!false_only && is_false_sync(method_symbol_, data_.front())) {
+    else if (!false_only && needs_unsync(method_symbol_, data_.front())) {
       ++count;
     }
   }
@@ -874,16 +874,20 @@ scribbu::user_defined_text::count_syncs(bool false_only) const
 
   std::size_t cb = 0;
 
-  if (false_only && description_.size() &&
-      is_false_sync(unicode_, description_.front())) {
+  // The description is null-terminated
+  unsigned char next = description_.empty() ? 0 : description_.front();
+  if (false_only && is_false_sync(unicode_, next)) {
     ++cb;
   }
-  else if (!false_only && description_.size() &&
-           needs_unsync(unicode_, description_.front())) {
+  else if (!false_only && needs_unsync(unicode_, next)) {
     ++cb;
   }
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
+  if (!false_only && !description_.empty() &&
+      needs_unsync(description_.back(), 0)) {
+    ++cb;
+  }
   cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
 
   return cb;
@@ -1036,23 +1040,19 @@ scribbu::comments::count_syncs(bool false_only) const
 
   cb += detail::count_syncs(lang_, lang_ + 3, false_only);
 
-  if (false_only && description_.size() &&
-      is_false_sync(lang_[2], description_.front())) {
+  // The description is null-terminated
+  unsigned char next = description_.empty() ? 0 : description_.front();
+  if (false_only && is_false_sync(lang_[2], next)) {
     ++cb;
   }
-  else if (!false_only && description_.size() &&
-           needs_unsync(lang_[2], description_.front())) {
+  else if (!false_only && needs_unsync(lang_[2], next)) {
     ++cb;
   }
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
 
-  if (false_only && description_.size() &&
-      is_false_sync(description_.back(), text_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(description_.back(), text_.front())) {
+  if (!false_only && !description_.empty() &&
+      needs_unsync(description_.back(), 0)) {
     ++cb;
   }
 
@@ -1227,6 +1227,11 @@ scribbu::popularimeter::count_syncs(bool false_only) const
   std::size_t cb = 0;
 
   cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
+  // email_ is null-terminated
+  if (!false_only && !email_.empty() &&
+      detail::needs_unsync(email_.back(), 0)) {
+    ++cb;
+  }
   if (false_only && counter_.size() &&
       detail::is_false_sync(rating_, counter_.front())) {
     ++cb;
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..463aee4 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -294,6 +294,11 @@ scribbu::private_frame::count_syncs(bool false_only) const
   std::size_t cb = 0;
 
   cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
+  // email_ is null-terminated
+  if (!false_only && !email_.empty() &&
+      detail::needs_unsync(email_.back(), 0)) {
+    ++cb;
+  }
   cb += detail::count_syncs(contents_.begin(), contents_.end(), false_only);
 
   return cb;
-- 
2.43.0


From d6a8ef1c63a05487e095eae1f5142881e30657bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:09 +0000
Subject: [PATCH 13/42] fix: parse frames that are too short without reading
 past their end

A frame without the terminator of its first field, or an empty one, was read
beyond its last byte, and members for which there was no byte were left
uninitialised (and written out again).
---
 scribbu/framesv2.hh  | 36 +++++++++++++++++++++++++++---------
 scribbu/framesv22.hh |  9 ++++++---
 scribbu/framesv23.hh | 15 ++++++++++-----
 scribbu/framesv24.hh |  9 ++++++---
 4 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..841f615 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -91,10 +91,15 @@ namespace scribbu {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
       std::size_t saw_nil = 0;
       for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
+        if (1 == code_unit) {
+          if (0 == *p0) {
+            break;
+          }
         }
         else {
+          if (p1 - p0 < 2) {
+            return p1; // An odd byte at the end
+          }
           unsigned char b0 = *p0, b1 = *(p0 + 1);
           if (0 == b0 && 0 == b1) {
             break;
@@ -530,7 +535,9 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1):
+      method_symbol_(0)
+    {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
@@ -596,8 +603,11 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1), unicode_(0)
     {
+      if (p0 == p1) {
+        return;
+      }
       unicode_ = *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
@@ -689,7 +699,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{ 0, 0, 0 }
     {
       if (p0 != p1) {
 
@@ -898,13 +911,18 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1):
+      rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
-      std::copy(p, p1, std::back_inserter(counter_));
+      if (p != p1) {
+        ++p;
+        if (p != p1) {
+          rating_ = *p++;
+          std::copy(p, p1, std::back_inserter(counter_));
+        }
+      }
     }
     /// Construct "from scratch"
     popularimeter(const std::string &own,
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..8879cf4 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -336,10 +336,13 @@ namespace scribbu {
     id3v2_2_text_frame(const frame_id3       &id,
                        forward_input_iterator p0,
                        forward_input_iterator p1):
-      id3v2_2_frame(id)
+      id3v2_2_frame(id),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
 
     template <typename forward_input_iterator>
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..193c8bc 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,8 +333,10 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      std::copy(p, p1, std::back_inserter(contents_));
+      if (p != p1) {
+        ++p;
+        std::copy(p, p1, std::back_inserter(contents_));
+      }
     }
     /// Construct "from scratch"
     template <typename forward_input_iterator>
@@ -686,10 +688,13 @@ namespace scribbu {
                        const id_type           &encmth,
                        const id_type           &gid,
                        const opt_sz_type       &decsz):
-      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
+      id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
 
     // forwards to the above ctor
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..1013166 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -434,10 +434,13 @@ namespace scribbu {
                        bool                                  cmprsd,
                        bool                                  unsynch,
                        const boost::optional<std::size_t>   &dli):
-      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
+      id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli),
+      unicode_(0)
     {
-      unicode_ = *p0++;
-      std::copy(p0, p1, std::back_inserter(text_));
+      if (p0 != p1) {
+        unicode_ = *p0++;
+        std::copy(p0, p1, std::back_inserter(text_));
+      }
     }
     // char[4]
     template <typename forward_input_iterator>
-- 
2.43.0


From a0b5639c2cf1a5613f1bea9b52471449089c3ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:16 +0000
Subject: [PATCH 14/42] fix: write version 2.2 frames in the form asked for

The plain and the unsynchronised form of a frame were exchanged, both when
writing and when computing the size.  A frame with false syncs was written
unsynchronised when unsynchronisation was not asked for, and as it is when
it was.
---
 scribbu/framesv22.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..e9019f8 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From f6d9841558135613d8e62b0c3d32c8080300df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:16 +0000
Subject: [PATCH 15/42] fix: declare the number of bytes that follow in version
 2.4 frame headers

The size written was that of the frame's contents before compression, and
left out the group, encryption method and data length that follow the
header.  A reader would look for the next frame in the wrong place.
---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..6f75695 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -128,7 +128,7 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   // ID3v2.3 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
-- 
2.43.0


From 7f854f002c516ffe6c7ab3913f51ad515ddbabfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:16 +0000
Subject: [PATCH 16/42] fix: write frame flags in the bits they are read from

All flags of version 2.3 frames were written one bit too low, so that a
compressed frame was read back as an encrypted one.  The same was true of
the status flags and the grouping flag of version 2.4 frames, whose group
and encryption method were also written in the wrong order.
---
 scribbu/framesv23.cc | 12 ++++++------
 scribbu/framesv24.cc | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 463aee4..c37c979 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -363,27 +363,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 128;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 128;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 32;
     sz += 1;
     cb += 1;
   }
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 6f75695..0c09222 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 64;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 32;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 16;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 64;
     sz += 1;
     cb += 1;
   }
@@ -133,13 +133,13 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-- 
2.43.0


From 8a7f51c508521bcaea68f89a310f71386ca3332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:16 +0000
Subject: [PATCH 17/42] fix: write the decompressed size of frames in the byte
 order it is read in

The decompressed size of a version 2.3 frame and the data length of a
version 2.4 frame were written in the byte order of the machine.  They are
big-endian, and sync-safe in version 2.4.  The limit on the declared size
now also takes the additional header fields into account.
---
 scribbu/framesv23.cc | 9 +++++++--
 scribbu/framesv24.cc | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c37c979..bac2699 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -393,7 +393,7 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   // ID3v2.3 frame sizes are not sync-safe:
 
   const std::size_t MAX_FRAME_SIZE = 0xffffffff;
-  if (cb_payload > MAX_FRAME_SIZE) {
+  if (sz > MAX_FRAME_SIZE || dlind > MAX_FRAME_SIZE) {
     throw std::runtime_error("Invalid ID3v2.3 frame size");
   }
 
@@ -408,7 +408,12 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    char dlbuf[4];
+    dlbuf[0] = (dlind & 0xff000000) >> 24;
+    dlbuf[1] = (dlind & 0x00ff0000) >> 16;
+    dlbuf[2] = (dlind & 0x0000ff00) >>  8;
+    dlbuf[3] =  dlind & 0x000000ff;
+    os.write(dlbuf, 4);
   }
 
   if (encrypted()) {
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 0c09222..e64c7c3 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -144,7 +144,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   }
 
   if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+    unsigned char dlbuf[4];
+    detail::sync_safe_from_unsigned(dlind, dlbuf);
+    os.write((char*)dlbuf, 4);
   }
 
   return cb;
-- 
2.43.0


From d2196c6e5edfc2bac439a5e4ec7cf739c325b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:48 +0000
Subject: [PATCH 18/42] fix: take the compression flag of version 2.4 frames
 from its own bit

Compression was read from a bit the standard leaves unused, and frames with
a data length were decompressed whether or not they were compressed.  A
compressed frame without the data length it needs is now refused.
---
 scribbu/id3v24.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..63da49e 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1356,7 +1356,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           encryption_method = *pread++;
@@ -1384,6 +1384,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (!data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1462,7 +1465,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         encryption_method = *pread++;
@@ -1488,7 +1491,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (!data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
-- 
2.43.0


From 4ab3c469a1d40cb8b60c045f2fffcc16af6e73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:02 +0000
Subject: [PATCH 19/42] fix: serialize frames again after they are changed

Once a frame had been serialized (or its size computed), later changes to
its text, counter, rating or tags were not seen when it was written again.
---
 scribbu/framesv22.cc |  2 ++
 scribbu/framesv22.hh | 36 ++++++++++++++++++++++++++++++++++++
 scribbu/framesv23.cc |  2 ++
 scribbu/framesv23.hh | 36 ++++++++++++++++++++++++++++++++++++
 scribbu/framesv24.cc |  1 +
 scribbu/framesv24.hh | 36 ++++++++++++++++++++++++++++++++++++
 6 files changed, 113 insertions(+)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index e9019f8..1dc9b90 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -327,6 +327,8 @@ scribbu::id3v2_2_text_frame::set(const std::string &text,
                                  bool add_bom /*=false*/,
                                  on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
+  dirty(true);
+
   // Attempt to convert to ISO-8859-1 first
   bool ok;
   std::vector<unsigned char> test;
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index 8879cf4..0b05fe0 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -661,6 +661,14 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    using play_count::count;
+    /// Set the counter
+    void count(std::size_t n)
+    { play_count::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { play_count::inc(); dirty(true); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -710,6 +718,18 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    using popularimeter::count;
+    using popularimeter::rating;
+    /// Set the rating
+    void rating(unsigned char r)
+    { popularimeter::rating(r); dirty(true); }
+    /// Set the counter
+    void count(std::size_t n)
+    { popularimeter::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { popularimeter::inc(); dirty(true); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -760,6 +780,22 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    /// Add key with no values
+    bool add_key(const std::string &key)
+    { dirty(true); return tag_cloud::add_key(key); }
+    /// Add a value to an existent key
+    bool add_value(const std::string &key, const std::string &val)
+    { dirty(true); return tag_cloud::add_value(key, val); }
+    /// Re-set the tags
+    void reset(std::initializer_list<value_type> init)
+    { dirty(true); tag_cloud::reset(init); }
+    /// Merge an URL-coded representation of some tags into the cloud
+    void merge(const std::string &tags)
+    { dirty(true); tag_cloud::merge(tags); }
+    /// Update the tag cloud
+    void update(const std::string &tags)
+    { dirty(true); tag_cloud::update(tags); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index bac2699..1bdf947 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -556,6 +556,8 @@ scribbu::id3v2_3_text_frame::set(const std::string &text,
                                  bool add_bom /*=false*/,
                                  on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
+  dirty(true);
+
   // Attempt to convert to ISO-8859-1 first
   bool ok;
   std::vector<unsigned char> test;
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 193c8bc..9e06aca 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -1097,6 +1097,14 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    using play_count::count;
+    /// Set the counter
+    void count(std::size_t n)
+    { play_count::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { play_count::inc(); dirty(true); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1169,6 +1177,18 @@ namespace scribbu {
         convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
     }
 
+    using popularimeter::count;
+    using popularimeter::rating;
+    /// Set the rating
+    void rating(unsigned char r)
+    { popularimeter::rating(r); dirty(true); }
+    /// Set the counter
+    void count(std::size_t n)
+    { popularimeter::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { popularimeter::inc(); dirty(true); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1258,6 +1278,22 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    /// Add key with no values
+    bool add_key(const std::string &key)
+    { dirty(true); return tag_cloud::add_key(key); }
+    /// Add a value to an existent key
+    bool add_value(const std::string &key, const std::string &val)
+    { dirty(true); return tag_cloud::add_value(key, val); }
+    /// Re-set the tags
+    void reset(std::initializer_list<value_type> init)
+    { dirty(true); tag_cloud::reset(init); }
+    /// Merge an URL-coded representation of some tags into the cloud
+    void merge(const std::string &tags)
+    { dirty(true); tag_cloud::merge(tags); }
+    /// Update the tag cloud
+    void update(const std::string &tags)
+    { dirty(true); tag_cloud::update(tags); }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e64c7c3..7f4100d 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -334,6 +334,7 @@ scribbu::id3v2_4_text_frame::set(const std::string &text,
 
   unicode_ = encshim2(dst);
   text_.swap(data);
+  dirty(true);
 }
 
 /*static*/
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 1013166..a6807cd 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -839,6 +839,14 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    using play_count::count;
+    /// Set the counter
+    void count(std::size_t n)
+    { play_count::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { play_count::inc(); dirty(true); }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
@@ -917,6 +925,18 @@ namespace scribbu {
         convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
     }
 
+    using popularimeter::count;
+    using popularimeter::rating;
+    /// Set the rating
+    void rating(unsigned char r)
+    { popularimeter::rating(r); dirty(true); }
+    /// Set the counter
+    void count(std::size_t n)
+    { popularimeter::count(n); dirty(true); }
+    /// Increment the counter
+    void inc()
+    { popularimeter::inc(); dirty(true); }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
@@ -1003,6 +1023,22 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    /// Add key with no values
+    bool add_key(const std::string &key)
+    { dirty(true); return tag_cloud::add_key(key); }
+    /// Add a value to an existent key
+    bool add_value(const std::string &key, const std::string &val)
+    { dirty(true); return tag_cloud::add_value(key, val); }
+    /// Re-set the tags
+    void reset(std::initializer_list<value_type> init)
+    { dirty(true); tag_cloud::reset(init); }
+    /// Merge an URL-coded representation of some tags into the cloud
+    void merge(const std::string &tags)
+    { dirty(true); tag_cloud::merge(tags); }
+    /// Update the tag cloud
+    void update(const std::string &tags)
+    { dirty(true); tag_cloud::update(tags); }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
-- 
2.43.0


From 4221c3ad7a96a508ddfc1d38139438be10cd7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:27 +0000
Subject: [PATCH 20/42] fix: refuse frames that run past the end of the tag

A frame's declared length was compared with the length of the whole tag
only, so any frame but the first could reach beyond the tag and be read
from memory after it.  The same happened when one to three bytes other
than padding were left.
---
 scribbu/id3v22.cc |  9 +++++++++
 scribbu/id3v23.cc | 17 +++++++++++++++++
 scribbu/id3v24.cc | 25 +++++++++++++++++++++----
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..bddded9 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -899,6 +899,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
+      if (3 > left) {
+        throw invalid_tag();
+      }
+
       // left > 2
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
@@ -928,6 +932,11 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         throw invalid_tag();
       }
 
+      // The frame has to end within the tag
+      if (cb_frame > left - 6) {
+        throw invalid_tag();
+      }
+
       // Finally, parse the frame (parse_frame will update all our internal
       // datastructures).
       parse_frame(id, p0 + 6, p0 + 6 + cb_frame);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..e328f6e 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1269,6 +1269,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (4 > left) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
@@ -1282,6 +1286,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
 
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
+
         if (ENCR != id) {
           continue;
         }
@@ -1379,6 +1387,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (4 > left) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1406,6 +1418,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         throw invalid_tag();
       }
 
+      // The frame has to end within the tag
+      if (cb_frame > left - 10) {
+        throw invalid_tag();
+      }
+
       unsigned char f0 = p0[8];
 
       id3v2_3_frame::tag_alter_preservation tap = (0 != (f0 & 0x80)) ?
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 63da49e..610866d 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1312,6 +1312,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (4 > left) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
@@ -1320,15 +1324,19 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
 
-        if (ENCR != id) {
-          continue;
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
+        if (ENCR != id) {
+          continue;
         }
 
         unsigned char f0 = p0[8];
@@ -1413,6 +1421,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (4 > left) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1440,6 +1452,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         throw invalid_tag();
       }
 
+      // The frame has to end within the tag
+      if (cb_frame > left - 10) {
+        throw invalid_tag();
+      }
+
       unsigned char f0 = p0[8];
 
       id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
-- 
2.43.0


From 2d249fff248949845af3d4674868aed0d49b6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:42 +0000
Subject: [PATCH 21/42] fix: refuse frames too short for their additional
 fields

The group, encryption method and length fields announced by a frame's
flags were read without looking at the frame's length; the length left
for the contents then wrapped around.
---
 scribbu/id3v23.cc | 10 ++++++++++
 scribbu/id3v24.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index e328f6e..8de0f54 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1315,6 +1315,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
         boost::optional<std::size_t> decompressed_size = boost::none;
+        if (((f1 & 0x80) ? 4 : 0) + ((f1 & 0x40) ? 1 : 0) +
+            ((f1 & 0x20) ? 1 : 0) > cb_frame) {
+          // No room for the additional fields the flags announce
+          throw invalid_tag();
+        }
         if (0 != (f1 & 0x80)) {
           decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
@@ -1444,6 +1449,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
       boost::optional<std::size_t> decompressed_size = boost::none;
+      if (((f1 & 0x80) ? 4 : 0) + ((f1 & 0x40) ? 1 : 0) +
+          ((f1 & 0x20) ? 1 : 0) > cb_frame) {
+        // No room for the additional fields the flags announce
+        throw invalid_tag();
+      }
       if (0 != (f1 & 0x80)) {
         decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 610866d..f9523ad 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1359,6 +1359,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+        if (((f1 & 0x40) ? 1 : 0) + ((f1 & 0x04) ? 1 : 0) +
+            ((f1 & 0x01) ? 4 : 0) > cb_frame) {
+          // No room for the additional fields the flags announce
+          throw invalid_tag();
+        }
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
           group_id = *pread++;
@@ -1477,6 +1482,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+      if (((f1 & 0x40) ? 1 : 0) + ((f1 & 0x04) ? 1 : 0) +
+          ((f1 & 0x01) ? 4 : 0) > cb_frame) {
+        // No room for the additional fields the flags announce
+        throw invalid_tag();
+      }
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
         group_id = *pread++;
-- 
2.43.0


From 2ed49d4110af2f4c3094528e211fe835dc68ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:42 +0000
Subject: [PATCH 22/42] fix: take an encryption method frame's flags from its
 own header

In version 2.4 they were those of the first frame of the tag; in version
2.3 the read-only flag was that of file alteration.
---
 scribbu/id3v23.cc | 2 +-
 scribbu/id3v24.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 8de0f54..966b991 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1302,7 +1302,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index f9523ad..814b524 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1339,7 +1339,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
-- 
2.43.0


From 6aa76d902524520b38c03ac8889131b426f104a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:46 +0000
Subject: [PATCH 23/42] fix: stop looking for encryption methods once a pass
 makes no progress

The search for readable encryption method frames repeated for ever once
one encrypted frame had been seen.
---
 scribbu/id3v23.cc | 12 +++++++++---
 scribbu/id3v24.cc | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 966b991..558c7a8 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -27,6 +27,7 @@
 #include <id3v2.hh>
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
 
 #include <arpa/inet.h>
@@ -1236,9 +1237,13 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    std::size_t num_encrypted = std::numeric_limits<std::size_t>::max();
+    std::size_t num_before;
     do {
 
+      num_before = num_encrypted;
+      num_encrypted = 0;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1342,7 +1347,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
+            ++num_encrypted;
             continue;
           }
           std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
@@ -1362,7 +1367,8 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+      // Go round again for as long as that makes more of them readable
+    } while (0 < num_encrypted && num_encrypted < num_before);
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 814b524..9923de0 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -26,6 +26,7 @@
 #include <framesv24.hh>
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
 
 #include <zlib.h>
@@ -1297,9 +1298,13 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    std::size_t num_encrypted = std::numeric_limits<std::size_t>::max();
+    std::size_t num_before;
     do {
 
+      num_before = num_encrypted;
+      num_encrypted = 0;
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1389,7 +1394,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
         if (boost::none != encryption_method) {
           if (! encryption_method_regd(encryption_method.get())) {
-            found_encrypted = true;
+            ++num_encrypted;
             continue;
           }
           std::tie(pf, cb_read) = decrypt(pread, cb_read, encryption_method.get());
@@ -1412,7 +1417,8 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+      // Go round again for as long as that makes more of them readable
+    } while (0 < num_encrypted && num_encrypted < num_before);
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From a22306fb5a387f0076cf8d081e69f89c90c00e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:46 +0000
Subject: [PATCH 24/42] fix: refuse extended headers that run past the end of
 the tag

---
 scribbu/id3v23.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 558c7a8..5ad28ff 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -190,11 +190,15 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p0 + 10 > p1) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
 
-  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) ) {
+  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) || p0 + cb + 4 > p1 ) {
     throw invalid_ext_header();
   }
 
-- 
2.43.0


From 456e72eae788886ce67b2fc0dcac9cf4a3b375b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:22 +0000
Subject: [PATCH 25/42] fix: put the stream back when a tag turns out to be
 truncated

Seeking a stream that had hit the end of its input threw from within the
exception handler, leaving the caller's exception mask changed.
---
 scribbu/id3v22.cc | 1 +
 scribbu/id3v23.cc | 1 +
 scribbu/id3v24.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index bddded9..e44a69c 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -948,6 +948,7 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear(); // Else we could not seek after hitting the end of input
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 5ad28ff..03b4cd2 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1506,6 +1506,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear(); // Else we could not seek after hitting the end of input
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9923de0..08c96ce 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1545,6 +1545,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear(); // Else we could not seek after hitting the end of input
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
-- 
2.43.0


From 9e6e9d5490336434d1635bc9a31a16c464f00e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:54 +0000
Subject: [PATCH 26/42] fix: refuse ID3v2.4 extended headers larger than the
 tag

---
 scribbu/id3v24.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 08c96ce..834cccf 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -196,6 +196,10 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
 
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
+  if (size_ > p1 - p0) {
+    throw invalid_ext_header();
+  }
+
   std::size_t num_flag_bytes = p0[4];
 
   if (!num_flag_bytes) {
-- 
2.43.0


From 91dfc66680b177b1f111010e4044aa7d8e2b34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:31 +0000
Subject: [PATCH 27/42] fix: write the ID3v2.3 extended header in the form
 asked for

The unsynchronised form was written when it was not asked for, and the plain
form when it was, so the tag's size field could disagree with its contents.
---
 scribbu/id3v23.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 03b4cd2..0f5d8f4 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -255,7 +255,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 6a93ccb5b17f5c75a4d9a37cb860796fe8dbcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:18 +0000
Subject: [PATCH 28/42] fix: declare the padding of an ID3v2.4 tag once

id3v2_4_tag::size() includes the padding twice, and write() put that number
in the header, so that a padded tag claimed more bytes than were written and
swallowed the start of whatever followed it.  The number reported by size()
is relied upon elsewhere and stays as it was.
---
 scribbu/id3v24.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 834cccf..249e9d3 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -720,8 +720,9 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  // Write the header...
-  write_header(os, flags(), size(unsync));
+  // Write the header... (note that size() counts the padding twice)
+  size_t cbtag = size(unsync) - padding();
+  write_header(os, flags(), cbtag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -742,7 +743,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, flags(), cbtag);
   }
 
   return cb;
-- 
2.43.0


From f102c4f902640243ca833211d02951c13d091ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:31 +0000
Subject: [PATCH 29/42] fix: flag unsynchronisation in the ID3v2.4 header when
 it was applied

As the ID3v2.2 and ID3v2.3 tags already do.
---
 scribbu/id3v24.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 249e9d3..d8c090c 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -720,9 +720,12 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  // Write the header... (note that size() counts the padding twice)
+  // Write the header... taking care to add the "unsync" flag if we're
+  // applying unsynchronisation (note that size() counts the padding twice)
+  unsigned char f = flags();
+  if (unsync) f |= 0x80;
   size_t cbtag = size(unsync) - padding();
-  write_header(os, flags(), cbtag);
+  write_header(os, f, cbtag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -743,7 +746,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), cbtag);
+    write_footer(os, f, cbtag);
   }
 
   return cb;
-- 
2.43.0


From 9ed9dc653dccec7b32dfa142598cfcadf95c7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:31 +0000
Subject: [PATCH 30/42] fix: leave the footer out of the size an ID3v2.4 header
 declares

The ID3v2.4 specification excludes both header and footer from that field.
---
 scribbu/id3v24.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index d8c090c..959a283 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -724,7 +724,9 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   // applying unsynchronisation (note that size() counts the padding twice)
   unsigned char f = flags();
   if (unsync) f |= 0x80;
+  // (the footer is not part of the size given in the header)
   size_t cbtag = size(unsync) - padding();
+  if (has_footer()) cbtag -= 10;
   write_header(os, f, cbtag);
   size_t cb = 10;
 
-- 
2.43.0


From 6f806bd9ba0ff8ee9b48a7ce36f23bcb10ab4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:31 +0000
Subject: [PATCH 31/42] fix: do not flag a tag written plain as unsynchronised

A tag read from an unsynchronised file keeps that flag, although its contents
have been resynchronised. Writing it without unsynchronisation kept the flag, so
readers would resynchronise contents that are not unsynchronised.
---
 scribbu/id3v22.cc | 1 +
 scribbu/id3v23.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index e44a69c..af122b3 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -278,6 +278,7 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
   // applying unsynchronisation
   unsigned char f = flags();
   if (unsync) f |= 0x80;
+  else f &= 0x7f;
   write_header(os, f, size(unsync));
   // the frames (note we start the accumulation at 10)...
   size_t cb = accumulate(begin(), end(), 10,
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 0f5d8f4..8155b51 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -646,6 +646,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
 
   unsigned char f = flags();
   if (unsync) f |= 0x80;
+  else f &= 0x7f;
   write_header(os, f, size(unsync));
   size_t cb = 10;
 
-- 
2.43.0


From 10b44f15ed543ef00d4920de37b3f99ba39b83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:52 +0000
Subject: [PATCH 32/42] fix: write ID3v2.4 extended headers in the form they
 are read

The data of the checksum and restriction flags start with their length, and the
checksum takes five sync-safe bytes. Both were missing, so an extended header
with either could not be written, or could not be read back, and the size the
tag declared disagreed with what was written.
---
 scribbu/id3v24.cc | 27 ++++++++++++++++++++-------
 scribbu/id3v24.hh |  2 ++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 959a283..9e9468a 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -338,6 +338,13 @@ scribbu::id3v2_4_tag::ext_header::get_restrictions() const
                          image_sz_restriction_);
 }
 
+std::size_t
+scribbu::id3v2_4_tag::ext_header::serialized_size() const
+{
+  // Size, number of flag bytes & flags; each flag's data begins with its size
+  return 6 + (is_update() ? 1 : 0) + (has_crc() ? 6 : 0) + (restricted() ? 2 : 0);
+}
+
 std::size_t
 scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
                                         const id3v2_4_tag &tag) const
@@ -349,7 +356,7 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   size_t cb = 0;
 
   unsigned char buf[6];
-  sync_safe_from_unsigned(size(), buf);
+  sync_safe_from_unsigned(serialized_size(), buf);
 
   buf[4] = 0x01;
 
@@ -377,9 +384,13 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    uint32_t x = crc(tag);
+    buf[0] = 5;
+    for (size_t i = 5; i > 0; --i, x >>= 7) {
+      buf[i] = x & 127;
+    }
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -446,8 +457,10 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    buf[0] = 1;
+    buf[1] = tagr;
+    os.write((char*)buf, 2);
+    cb += 2;
   }
 
   return cb;
@@ -620,7 +633,7 @@ scribbu::id3v2_4_tag::size(bool unsync) const
     cb += 10;
   }
   if (pext_header_) {
-    cb += pext_header_->size();
+    cb += pext_header_->serialized_size();
   }
 
   // we of course include all our frames. We need to treat the last frame
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..61c445c 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -204,6 +204,8 @@ namespace scribbu {
       { return restricted_; }
       std::tuple<tag_size, bool, text_size, bool, image_size>
       get_restrictions() const;
+      /// Compute the size on disk
+      std::size_t serialized_size() const;
       std::size_t write(std::ostream &os, const id3v2_4_tag &tag) const;
 
     private:
-- 
2.43.0


From 0ffaf854d39982aca42ba9d1fe18f32096e34bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:09 +0000
Subject: [PATCH 33/42] fix: leave the stream as found when an ID3v1 tag is
 refused

Reading an ID3v1 tag of a given kind left the stream with an exception mask
of its own. A block refused for want of its markers left the mask and the
read position changed, and a block cut short left the stream failed, so that
the read position was not put back.
---
 scribbu/id3v1.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..478fdee 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -113,8 +113,13 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
     // Restore the exception mask
     is.exceptions(exc_mask);
 
+  } catch (const invalid_tag &) {
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();
@@ -147,8 +152,16 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
+    // Restore the exception mask
+    is.exceptions(exc_mask);
+
+  } catch (const invalid_tag &) {
+    is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
+    throw;
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();;
-- 
2.43.0


From c861bff8cb7c853bc405f99db72fded2f23f8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:32 +0000
Subject: [PATCH 34/42] fix: index the comments added to a tag

Adding a comment or user-defined text to an ID3v2.2 or ID3v2.4 tag followed
a pointer that had just been moved from. Comments added to an ID3v2.3 tag
could not be found afterwards.
---
 scribbu/id3v22.cc | 6 ++++--
 scribbu/id3v23.cc | 2 +-
 scribbu/id3v24.cc | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index af122b3..d9a9b27 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -323,9 +323,10 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
 
+  COM &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 
 }
 
@@ -342,9 +343,10 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
 
+  TXX &F = *pnew;
   ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 8155b51..640c68f 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -704,7 +704,7 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
+  COMM &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
   add_frame_to_lookups(F, d);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9e9468a..c99933c 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -797,9 +797,10 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
+  COMM_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
@@ -818,9 +819,10 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
+  TXXX_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
-- 
2.43.0


From 4084fc5777e52fbefd9e0544af5de4e9ffd65c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:32 +0000
Subject: [PATCH 35/42] fix: keep the lookups of a tag in step with its frames

Frames inserted into, erased from or assigned within a tag left the lookup
tables with the positions of before: looking up a frame by its identifier
then gave another frame, or went past the end. Frames passed as plain frames
were not entered in the tables of their kind. Build the tables anew from the
frames after such changes.
---
 scribbu/id3v22.cc | 171 ++++++++++++++--------------------------------
 scribbu/id3v22.hh |   5 +-
 scribbu/id3v23.cc | 168 ++++++++++++++-------------------------------
 scribbu/id3v23.hh |   5 +-
 scribbu/id3v24.cc | 168 ++++++++++++++-------------------------------
 scribbu/id3v24.hh |   5 +-
 6 files changed, 159 insertions(+), 363 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index d9a9b27..ee7dee7 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -382,8 +382,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    index_frames();
   }
 }
 
@@ -395,36 +395,12 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  if (p_ != that.p_) {
+    that.p_->index_frames();
   }
+  p_->index_frames();
+  idx_ = that.idx_;
 
   return *this;
 }
@@ -434,9 +410,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->index_frames();
 
   return *this;
 }
@@ -450,14 +425,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -471,14 +442,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -492,14 +459,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -513,14 +476,10 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -531,8 +490,7 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
   return iterator(this, p1);
 }
 
@@ -544,11 +502,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -561,11 +517,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -578,11 +532,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -595,11 +547,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -610,8 +560,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
 }
 
 void
@@ -658,20 +607,18 @@ scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  index_frames();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  index_frames();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -687,48 +634,32 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
-{
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
-  }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
-  }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
+scribbu::id3v2_2_tag::index_frames()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_2_frame *p = frames_[i].get();
+    if (COM *pcom = dynamic_cast<COM*>(p)) {
+      add_frame_to_lookups(*pcom, i);
+    }
+    else if (CNT *pcnt = dynamic_cast<CNT*>(p)) {
+      add_frame_to_lookups(*pcnt, i);
+    }
+    else if (POP *ppop = dynamic_cast<POP*>(p)) {
+      add_frame_to_lookups(*ppop, i);
+    }
+    else if (id3v2_2_text_frame *ptxt = dynamic_cast<id3v2_2_text_frame*>(p)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*p, i);
     }
-    text_map_.erase(p);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..b6250e7 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -528,9 +528,8 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    /// Build all our ancillary datastructures anew from the frame vector
+    void index_frames();
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 640c68f..b2175b7 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -764,8 +764,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    index_frames();
   }
 }
 
@@ -777,36 +777,12 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  if (p_ != that.p_) {
+    that.p_->index_frames();
   }
+  p_->index_frames();
+  idx_ = that.idx_;
 
   return *this;
 }
@@ -816,9 +792,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->index_frames();
 
   return *this;
 }
@@ -832,14 +807,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -853,14 +824,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -874,14 +841,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -895,14 +858,10 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -913,8 +872,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -927,11 +885,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -944,11 +900,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -961,11 +915,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
   return iterator(this, p1);
 }
 
@@ -977,11 +929,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
   return iterator(this, p1);
 }
 
@@ -991,8 +941,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
 }
 
 void
@@ -1039,20 +988,18 @@ scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  index_frames();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  index_frames();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1068,45 +1015,32 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::index_frames()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_3_frame *p = frames_[i].get();
+    if (COMM *pcom = dynamic_cast<COMM*>(p)) {
+      add_frame_to_lookups(*pcom, i);
+    }
+    else if (PCNT *pcnt = dynamic_cast<PCNT*>(p)) {
+      add_frame_to_lookups(*pcnt, i);
+    }
+    else if (POPM *ppop = dynamic_cast<POPM*>(p)) {
+      add_frame_to_lookups(*ppop, i);
+    }
+    else if (id3v2_3_text_frame *ptxt = dynamic_cast<id3v2_3_text_frame*>(p)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*p, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..94c40f6 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,9 +590,8 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Build all our ancillary datastructures anew from the frame vector
+    void index_frames();
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index c99933c..b265cf4 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -858,8 +858,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    index_frames();
   }
 }
 
@@ -870,36 +870,12 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  if (p_ != that.p_) {
+    that.p_->index_frames();
   }
+  p_->index_frames();
+  idx_ = that.idx_;
 
   return *this;
 }
@@ -909,9 +885,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->index_frames();
 
   return *this;
 }
@@ -925,14 +900,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -946,14 +917,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -967,14 +934,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -988,14 +951,10 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 
   // We begin by taking a deep copy of `frame'...
   std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   // move the copy into the slot previously occupied by our frame...
   p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  // and finally bring our tag's lookup tables up-to-date.
+  p_->index_frames();
 
   return *this;
 }
@@ -1006,8 +965,7 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
   return iterator(this, p1);
 }
 
@@ -1019,11 +977,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -1036,11 +992,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -1053,11 +1007,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -1070,11 +1022,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
 
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  index_frames();
 
   return iterator(this, p1);
 }
@@ -1085,8 +1035,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  index_frames();
 }
 
 void
@@ -1133,20 +1082,18 @@ scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  index_frames();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  index_frames();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1174,45 +1121,32 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
 }
 
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::index_frames()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_4_frame *p = frames_[i].get();
+    if (COMM_2_4 *pcom = dynamic_cast<COMM_2_4*>(p)) {
+      add_frame_to_lookups(*pcom, i);
+    }
+    else if (PCNT_2_4 *pcnt = dynamic_cast<PCNT_2_4*>(p)) {
+      add_frame_to_lookups(*pcnt, i);
+    }
+    else if (POPM_2_4 *ppop = dynamic_cast<POPM_2_4*>(p)) {
+      add_frame_to_lookups(*ppop, i);
+    }
+    else if (id3v2_4_text_frame *ptxt = dynamic_cast<id3v2_4_text_frame*>(p)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*p, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 61c445c..7276e68 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -627,9 +627,8 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Build all our ancillary datastructures anew from the frame vector
+    void index_frames();
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From a131bc3d496d5ad8a097a1db31eb9eec2639a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:32 +0000
Subject: [PATCH 36/42] fix: copy the whole of a tag

Copies of ID3v2.3 and ID3v2.4 tags took version, revision and
unsynchronisation from themselves. Copying an ID3v2.4 tag without extended
header, or assigning an ID3v2.3 tag without one, followed a null pointer.
The lookup tables of copies were off by one and lacked texts, comments,
play counts and popularimeters. A tag with two encryption registration
frames for one method could not be copied.
---
 scribbu/id3v22.cc | 11 +++--------
 scribbu/id3v23.cc | 26 ++++++++------------------
 scribbu/id3v24.cc | 28 +++++++++-------------------
 3 files changed, 20 insertions(+), 45 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index ee7dee7..a215091 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,29 +207,24 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
   }
+  index_frames();
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
     padding_ = that.padding_;
 
-    coms_.clear();
-    cnts_.clear();
-    pops_.clear();
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
     }
+    index_frames();
   }
   return *this;
 }
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index b2175b7..d056cde 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -351,49 +351,39 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   if (that.pext_header_) {
     pext_header_.reset(new ext_header(*that.pext_header_));
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-    }
   }
+  index_frames();
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-      }
     }
+    index_frames();
   }
   return *this;
 }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index b265cf4..ab6cd15 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -514,49 +514,39 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
-  padding_(that.padding_)
+  pext_header_(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr),
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-    }
   }
+  index_frames();
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ? new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-      }
     }
+    index_frames();
   }
 
   return *this;
-- 
2.43.0


From 04aa822f58b3122c4cc81e9ef5daf97783040a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:20 +0000
Subject: [PATCH 37/42] fix: find the play counts of an ID3v2.4 tag

has_play_count() of an ID3v2.4 tag counted frames named CNT.
There are none in that version, so play_count() always threw.
All three versions now count the play counts they index.
This also keeps play_count() from reading an empty list when a frame of another class bears the identifier.
---
 scribbu/id3v22.hh | 2 +-
 scribbu/id3v23.hh | 2 +-
 scribbu/id3v24.hh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index b6250e7..4f1e364 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -199,7 +199,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLA"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return cnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TT2"); }
     virtual std::size_t has_track() const
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 94c40f6..1777a24 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -302,7 +302,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("PCNT"); }
+    { return pcnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 7276e68..367edec 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -337,7 +337,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return pcnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From fa9a76bc1961b0f1e75958a862176f80eb42546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:30 +0000
Subject: [PATCH 38/42] fix: give a new ID3v2.2 tag the padding asked for

The constructor left both the padding and the compression flag uninitialised.
Writing such a tag could emit any amount of padding.
---
 scribbu/id3v22.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 4f1e364..f475abd 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0),
+      compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From d667ec55697543186d4ba1c0f5bdce0219b81a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:26 +0000
Subject: [PATCH 39/42] fix: name the ID3v2.2 beats per minute frame TBP

The identifier given to it was TBM, which is not in the standard and is not
the one under which such frames are read. The beats per minute of an ID3v2.2
tag were never found, and setting them added a frame of an unknown kind.
---
 scribbu/framesv2.cc | 4 +++-
 scribbu/framesv2.hh | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 2992ac3..9ebc3b0 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -89,6 +89,8 @@ scribbu::operator>>(std::istream &is, id3v2_text_frames &x)
     { "TBPM",         id3v2_text_frames::tbpm },
     { "tbm",          id3v2_text_frames::tbpm },
     { "TBM",          id3v2_text_frames::tbpm },
+    { "tbp",          id3v2_text_frames::tbpm },
+    { "TBP",          id3v2_text_frames::tbpm },
     { "tcom",         id3v2_text_frames::tcom },
     { "TCOM",         id3v2_text_frames::tcom },
     { "tcm",          id3v2_text_frames::tcom },
@@ -359,7 +361,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 841f615..796d01f 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -193,7 +193,7 @@ namespace scribbu {
   /// an ID3v2 version-independent way of naming text frames
   enum class id3v2_text_frames {
     talb, // Album/Movie/Show title [TAL]
-    tbpm, // beats per minute [TBM]
+    tbpm, // beats per minute [TBP]
     tcom, // Composer(s) [TCM]
     tcon, // Content type [TCO]
     tcop, // Copyright message [TCR]
-- 
2.43.0


From ed3e4ef5d3010421f8cef0a9f4a40abf21f611a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:26 +0000
Subject: [PATCH 40/42] fix: know the ID3v2.2 frames of the media type and of
 the originals

The media type (TMT) and the original album (TOT), lyricist (TOL), artist
(TOA) and release year (TOR) have identifiers in ID3v2.2, under which they
are read, but asking an ID3v2.2 tag for them threw unknown_text_frame.
---
 scribbu/framesv2.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 9ebc3b0..7d4619e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -392,8 +392,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
-- 
2.43.0


From 4090d361cc517932e3c6d4e4ca462bf52d99559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:17:20 +0000
Subject: [PATCH 41/42] fix: refuse a tag cloud that ends early or declares
 wrong lengths

Reading such an XTG or XTAG frame went past its end, and did not end at all
where a value was longer than the length declared for it. Counting the false
syncs of a tag without values looked at a value that is not there.
---
 scribbu/framesv2.cc |  2 +-
 scribbu/framesv2.hh | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 7d4619e..1c23205 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1511,7 +1511,7 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
     // is true, we _could_ have a false sync between the value byte count &
     // the first string.
-    if (false_only) {
+    if (false_only && !kv.second.empty()) {
       unsigned char y = (unsigned char)(kv.second.begin()->front());
       if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
         ++nsync;
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 796d01f..1a14e00 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -1016,15 +1016,24 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        throw invalid_argument("incomplete tag cloud");
+      }
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
+      if (p == p1) {
+        throw invalid_argument("incomplete tag cloud");
+      }
       copy(p0, p, back_inserter(own_));
 
       p0 = ++p;
       while (p0 != p1) {
 
         p = find(p0, p1, 0);
+        if (distance(p, p1) < 5) {
+          throw invalid_argument("incomplete tag cloud");
+        }
         string key;
         copy(p0, p, back_inserter(key));
 
@@ -1037,8 +1046,14 @@ namespace scribbu {
         p0 = p + 5;
         while (cb) {
           p = find(p0, p1, 0);
+          if (p == p1) {
+            throw invalid_argument("incomplete tag cloud");
+          }
           string val;
           copy(p0, p, back_inserter(val));
+          if (cb < val.length() + 1) {
+            throw invalid_argument("bad length in tag cloud");
+          }
           p0 = ++p;
           vals.insert(val);
           cb -= val.length() + 1;
-- 
2.43.0


From 68a619be50ed1760c1f76bd0367bac7816de260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:26:06 +0000
Subject: [PATCH 42/42] fix: count every pair unsynchronisation separates in a
 tag cloud

The size of a tag cloud with unsynchronisation left out 0xff at the end of the
owner, a tag or a value (a null follows there), and 0xff at the end of the
length of the values.  The number of false syncs read the front of an empty
string.
---
 scribbu/framesv2.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 1c23205..07589a5 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1490,6 +1490,10 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
 
   // The current version is 1, so no false sync.
   nsync += detail::count_syncs(own_.begin(), own_.end(), false_only);
+  // own_ is null-terminated, as are the keys & values below
+  if (!false_only && !own_.empty() && needs_unsync(own_.back(), 0)) {
+    ++nsync;
+  }
 
   // Owner is null-terminated, so no false sync between owner & the first key.
   for (auto kv: tags_) {
@@ -1497,6 +1501,9 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // `kv' is a pair<const string, set<string>>
     const string &key = kv.first;
     nsync += detail::count_syncs(key.begin(), key.end(), false_only);
+    if (!false_only && !key.empty() && needs_unsync(key.back(), 0)) {
+      ++nsync;
+    }
     // Keys are null-terminated, so no false sync between owner & the first key.
     // Next up will be the combined length of all values (including trailing
     // nulls).
@@ -1504,16 +1511,20 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     for (auto v: kv.second) {
       nval += v.length() + 1;
       nsync += detail::count_syncs(v.begin(), v.end(), false_only);
+      if (!false_only && !v.empty() && needs_unsync(v.back(), 0)) {
+        ++nsync;
+      }
     }
     // `nval' itself may contain false syncs:
     nsync += detail::count_syncs(nval, false_only);
 
-    // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
-    // is true, we _could_ have a false sync between the value byte count &
-    // the first string.
-    if (false_only && !kv.second.empty()) {
-      unsigned char y = (unsigned char)(kv.second.begin()->front());
-      if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
+    // Now, if the last octet of `nval' happens to be 0xff, we _could_ have a
+    // false sync between the value byte count & the first string.
+    if (!kv.second.empty()) {
+      const string &first = *kv.second.begin();
+      unsigned char y = first.empty() ? 0 : (unsigned char)first.front();
+      if ((0xff == (0xff & nval)) &&
+          (false_only ? is_false_sync(0xff, y) : needs_unsync(0xff, y))) {
         ++nsync;
       }
     }
-- 
2.43.0

