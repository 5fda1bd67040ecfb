From da4945a6ec77d9eedbda6fdb20a4612e99b333ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:13 +0000
Subject: [PATCH 01/61] fix: bound every bit read from the BUFR data section

get_bits and skip_bits only noticed the end of the buffer when a read
started exactly there: a value spanning it was read past the end of the
input. They also refused to hand out the last bits of the last byte.
---
 wreport/bufr/input.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..dccfd9b 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -125,6 +125,13 @@ public:
     /// Return the number of bits left in the message to be decoded
     unsigned bits_left() const { return static_cast<unsigned>((data_len - s4_cursor) * 8 + pbyte_len); }
 
+    /// Throw error_parse if there are fewer than \a n bits left to decode
+    void check_available_bits(unsigned n) const
+    {
+        if (n > (size_t)pbyte_len + (s4_cursor < data_len ? (data_len - s4_cursor) * 8 : 0))
+            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+    }
+
     /// Read a byte value at offset \a pos
     inline unsigned read_byte(unsigned pos) const
     {
@@ -166,8 +173,9 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        if (n > 32)
+            parse_error("cannot decode a value of %u bits", n);
+        check_available_bits(n);
 
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
@@ -195,8 +203,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        check_available_bits(n);
 
         for (unsigned i = 0; i < n; i++)
         {
-- 
2.43.0


From bddfc001b052a851b929e5afe048c45f6b768dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:30 +0000
Subject: [PATCH 02/61] fix: do not decode the end section of a BUFR message as
 data

A data section shorter than its descriptors require was silently
completed with the bytes that follow it.
---
 wreport/bufr/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index dccfd9b..103efce 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -128,8 +128,8 @@ public:
     /// Throw error_parse if there are fewer than \a n bits left to decode
     void check_available_bits(unsigned n) const
     {
-        if (n > (size_t)pbyte_len + (s4_cursor < data_len ? (data_len - s4_cursor) * 8 : 0))
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        if (n > (size_t)pbyte_len + (s4_cursor < sec[5] ? (sec[5] - s4_cursor) * 8 : 0))
+            parse_error("end of data section while looking for %u bits of bit-packed data", n);
     }
 
     /// Read a byte value at offset \a pos
-- 
2.43.0


From c44ab8a4c0823c7a0fcc1d8e442a7fd817924f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:45 +0000
Subject: [PATCH 03/61] fix: compute all-ones and sign bit masks without
 undefined shifts

---
 wreport/buffers/bufr.cc               | 10 ----------
 wreport/bufr/decoder.cc               | 12 +++---------
 wreport/bufr/input.cc                 |  4 ++--
 wreport/bulletin/associated_fields.cc |  4 ++--
 4 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..0b953d5 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -17,16 +17,6 @@
 
 using namespace std;
 
-namespace {
-
-// Return a value with bitlen bits set to 1
-static inline uint32_t all_ones(int bitlen)
-{
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
-}
-
-}
-
 namespace wreport {
 namespace buffers {
 
diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..5160840 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -6,12 +6,6 @@
 namespace wreport {
 namespace bufr {
 
-// Return a value with bitlen bits set to 1
-static inline uint32_t all_ones(int bitlen)
-{
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
-}
-
 
 Decoder::Decoder(const std::string& buf, const char* fname, size_t offset, BufrBulletin& out)
     : in(buf), out(out)
@@ -375,10 +369,10 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 int UncompressedDecoderTarget::decode_c03_refval_override(unsigned bits)
 {
     uint32_t res = in.get_bits(bits);
-    uint32_t sign_bit = 1 << (bits - 1);
+    uint32_t sign_bit = 1u << (bits - 1);
 
-    if (res & (1 << (bits - 1)))
-        return -(res & ~sign_bit);
+    if (res & sign_bit)
+        return -static_cast<int>(res & ~sign_bit);
     else
         return res;
 }
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..bdfbefd 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -18,9 +18,9 @@ const char* bufr_sec_names[] = {
 };
 
 // Return a value with bitlen bits set to 1
-static inline uint32_t all_ones(int bitlen)
+static inline uint32_t all_ones(unsigned bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return bitlen < 32 ? (1u << bitlen) - 1 : 0xffffffffu;
 }
 
 }
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..7e4b739 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -9,9 +9,9 @@ namespace wreport {
 namespace bulletin {
 
 // Return a value with bitlen bits set to 1
-static inline uint32_t all_ones(int bitlen)
+static inline uint32_t all_ones(unsigned bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return bitlen < 32 ? (1u << bitlen) - 1 : 0xffffffffu;
 }
 
 AssociatedField::AssociatedField(const Vartable& btable)
-- 
2.43.0


From 76dfa1114bff13cbe1f1139887165ee4a23a8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:10 +0000
Subject: [PATCH 04/61] fix: reject BUFR messages that declare no data subsets

The subset count was decremented to 2^32 - 1, and that many subsets were
allocated.
---
 wreport/bufr/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 5160840..afe03cb 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -181,6 +181,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (expected_subsets == 0)
+        in.parse_error(3, 4, "message declares no data subsets");
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From defde12442e7987445308f68cbae47b89cf50d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:28 +0000
Subject: [PATCH 05/61] fix: do not read past the end of an opcode sequence

operator[] accepted the one-past-the-end index, and sub() computed
pointers outside the sequence.
---
 wreport/opcodes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..7eb11c9 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
@@ -97,7 +97,7 @@ struct Opcodes
     /// Return the opcodes from \a skip until the end
     Opcodes sub(unsigned skip) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
         else
             return Opcodes(begin + skip, end);
@@ -106,9 +106,9 @@ struct Opcodes
     /// Return \a len opcodes starting from \a skip
     Opcodes sub(unsigned skip, unsigned len) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
-        else if (begin + skip + len >= end)
+        else if (len >= size() - skip)
             return Opcodes(begin + skip, end);
         else
             return Opcodes(begin + skip, begin + skip + len);
-- 
2.43.0


From 2e0cc53d6e6709ee0af8a78e9a6e7fafd39a0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:58 +0000
Subject: [PATCH 06/61] fix: apply C01, C02 and C07 only to numeric elements,
 and check the results

The operators also altered strings, code tables and flag tables, which
FM94 excludes. C07 with a large operand indexed past the powers of ten,
overflowed the reference value, and C01 could make widths negative.
---
 wreport/bulletin/interpreter.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..4808832 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,8 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <climits>
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +87,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // Operators that change scale, width and reference value do not apply to
+    // character data, code tables and flag tables
+    bool is_numeric = peek->type != Vartype::String && peek->type != Vartype::Binary
+        && strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (c_scale_change && is_numeric)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,24 +105,33 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (c_width_change && is_numeric)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (c_scale_ref_width_increase && is_numeric)
     {
-        static const int pow10[10] = {
-            1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-        };
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        long long new_ref = bit_ref;
+        for (int i = 0; i < c_scale_ref_width_increase && new_ref; ++i)
+        {
+            new_ref *= 10;
+            if (new_ref < INT_MIN || new_ref > INT_MAX)
+                error_consistency::throwf("cannot alter variable %01d%02d%03d: reference value %d increased by 10^%d does not fit in 32 bits",
+                        WR_VAR_FXY(code), bit_ref, c_scale_ref_width_increase);
+        }
+        bit_ref = static_cast<int>(new_ref);
     }
 
+    if (bit_len < 0 || (bit_len == 0 && peek->bit_len != 0))
+        error_consistency::throwf("cannot alter variable %01d%02d%03d with a new bit_len of %d",
+                WR_VAR_FXY(code), bit_len);
+
     auto refval = c03_refval_overrides.find(code);
     if (refval != c03_refval_overrides.end())
     {
-- 
2.43.0


From 264760daaddb77e7a84e1a40817f8761342d3b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:03 +0000
Subject: [PATCH 07/61] fix: do not iterate data present bitmaps that select no
 variable

Iterating a bitmap with no data present read outside its (empty) list of
variables.
---
 wreport/bulletin/bitmaps.cc | 11 +++++++++--
 wreport/bulletin/bitmaps.h  |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..ca01833 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -75,7 +75,7 @@ Bitmaps::~Bitmaps()
 
 unsigned Bitmaps::next()
 {
-    if (!current)
+    if (!active())
         throw error_consistency("bitmap iteration requested when no bitmap is currently active");
     unsigned res = current->next();
     if (current->eob())
@@ -103,7 +103,14 @@ void Bitmaps::reuse_last()
 // Only throw an error when the bitmap is actually used
 //    if (!last)
 //        throw error_consistency("cannot reuse bitmap, because no bitmap is currently defined");
-    delete current;
+    if (current && current->eob())
+    {
+        // The current bitmap does not select any variable: it was never moved
+        // to last by iterating it
+        delete last;
+        last = current;
+    } else
+        delete current;
     current = last;
     last = nullptr;
     if (current) current->reuse();
diff --git a/wreport/bulletin/bitmaps.h b/wreport/bulletin/bitmaps.h
index f7a9079..932d0a2 100644
--- a/wreport/bulletin/bitmaps.h
+++ b/wreport/bulletin/bitmaps.h
@@ -94,7 +94,7 @@ struct Bitmaps
     unsigned next();
 
     /// Return true if there is an active bitmap
-    bool active() const { return (bool)current; }
+    bool active() const { return current && !current->eob(); }
 };
 
 }
-- 
2.43.0


From 345d3e066325e8b36830f3ef25cb47dedc2380eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:23 +0000
Subject: [PATCH 08/61] fix: do not keep a deleted bitmap when defining its
 replacement fails

---
 wreport/bulletin/bitmaps.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index ca01833..8ef8189 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -95,6 +95,7 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
     delete current;
+    current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
 }
 
-- 
2.43.0


From adcdea621d5077e4d06326c5b78a598ba15a333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/61] fix: keep the value of associated fields with
 significance 21

---
 wreport/bulletin/associated_fields.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index 7e4b739..8259473 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,10 +72,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+            if (missing)
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
+            } else
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
-- 
2.43.0


From 2ce05a16a77e37fea56ada530df069de1c7d04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 10/61] fix: honour decode_adds_undef_attrs for every kind of
 attribute

Missing attributes were always added for some associated field
significances, and never added for attributes defined by bitmaps,
whatever the option said.
---
 wreport/bufr/decoder.cc               |  6 ++++--
 wreport/bufr/decoder.h                |  2 ++
 wreport/bulletin/associated_fields.cc | 24 ++++++++++++++++++------
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index afe03cb..4f1b804 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -197,6 +197,7 @@ void Decoder::decode_data()
     {
         // Run only once
         CompressedDecoderTarget target(in, out);
+        target.add_undef_attrs = conf_add_undef_attrs;
         std::unique_ptr<DataSectionDecoder> dec;
         if (verbose_output)
             dec.reset(new VerboseDataSectionDecoder(out, target, verbose_output));
@@ -209,6 +210,7 @@ void Decoder::decode_data()
         for (unsigned i = 0; i < out.subsets.size(); ++i)
         {
             UncompressedDecoderTarget target(in, out.obtain_subset(i));
+            target.add_undef_attrs = conf_add_undef_attrs;
             std::unique_ptr<DataSectionDecoder> dec;
             if (verbose_output)
                 dec.reset(new VerboseDataSectionDecoder(out, target, verbose_output));
@@ -308,7 +310,7 @@ void UncompressedDecoderTarget::decode_and_set_attribute(Varinfo info, unsigned
     Var var = decode_uniform_b_value(info);
     TRACE(" define_attribute adding var %01d%02d%03d %s as attribute to %01d%02d%03d\n",
             WR_VAR_FXY(var.code()), var.enqc(), WR_VAR_FXY(out[pos].code()));
-    if (!var.isset())
+    if (!var.isset() && !add_undef_attrs)
         return;
     out[pos].seta(std::move(var));
 }
@@ -472,7 +474,7 @@ void CompressedDecoderTarget::decode_and_set_attribute(Varinfo info, unsigned po
 {
     decode_b_value(info, [&](unsigned idx, Var&& var) {
         TRACE("define_attribute:seta subset[%u][%u] (%01d%02d%03d) %01d%02d%03d %s\n", idx, pos, WR_VAR_FXY(out.subsets[idx][pos].code()), WR_VAR_FXY(var.code()), var.enq("-"));
-        if (!var.isset())
+        if (!var.isset() && !add_undef_attrs)
             return;
         out.subsets[idx][pos].seta(std::move(var));
     });
diff --git a/wreport/bufr/decoder.h b/wreport/bufr/decoder.h
index 1964ee8..e49d358 100644
--- a/wreport/bufr/decoder.h
+++ b/wreport/bufr/decoder.h
@@ -43,6 +43,8 @@ struct DecoderTarget
 {
     /// Input buffer
     Input& in;
+    /// True if undefined attributes are added to the output, else false
+    bool add_undef_attrs = false;
 
     DecoderTarget(Input& in) : in(in) {}
     virtual ~DecoderTarget() {}
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index 8259473..9df0e75 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -28,14 +28,22 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
         case 1:
             // Add attribute B33002=value
             if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2))));
-            else
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2))));
+            } else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 2:
             // Add attribute B33003=value
             if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3))));
-            else
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3))));
+            } else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3)), (int)value));
         case 3:
         case 4:
@@ -57,8 +65,12 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
         case 7:
             // Add attribute B33040=value
             if (missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40))));
-            else
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40))));
+            } else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40)), (int)value));
         case 8:
             // Add attribute B33002=value
-- 
2.43.0


From 769d4382191f3e45afa156caeca9f7e59f821b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:19 +0000
Subject: [PATCH 11/61] fix: decode associated fields of compressed data like
 those of uncompressed data

Strings skipped their associated field, missing differences were taken as
values, differences were left unread when the base value was missing, and
a variable whose field is missing got the attribute of the previous
subset.
---
 wreport/bufr/decoder.cc |  6 ++----
 wreport/bufr/input.cc   | 42 +++++++++++++++++++++++------------------
 wreport/bufr/input.h    |  2 +-
 3 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 4f1b804..e0e6b8a 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -502,14 +502,12 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     DispatchToSubsets dest(out, subset_count);
     switch (info->type)
     {
-        case Vartype::String:
-            in.decode_string(info, subset_count, dest);
-            break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
+        case Vartype::String:
         case Vartype::Integer:
         case Vartype::Decimal:
-            in.decode_compressed_number_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
+            in.decode_compressed_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
                 dest.add_var(subset_no, std::move(var));
             });
             break;
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index bdfbefd..11c48e3 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -412,7 +412,7 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     }
 }
 
-void Input::decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+void Input::decode_compressed_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
 {
     // debug_dump_next_bits("Input:decode_compressed_base:", 500, {associated_field.bit_count, 6, info->bit_len, 6});
 
@@ -436,28 +436,34 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
 
-    if (af_base == all_ones(associated_field.bit_count))
-    {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
+    const uint32_t af_missing = all_ones(associated_field.bit_count);
+    if (af_base == af_missing && af_diffbits != 0)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the associated field base value is missing", af_diffbits);
 
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
+    std::vector<std::unique_ptr<Var>> associated_fields(subsets);
+    for (unsigned i = 0; i < subsets; ++i)
+    {
+        uint32_t value = af_base;
+        if (af_diffbits)
         {
             uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
-            TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
+            value = diff == all_ones(af_diffbits) ? af_missing : af_base + diff;
         }
-
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
+        TRACE("Input:decode_compressed_base:decoded af %ubits %u->%u\n", af_diffbits, af_base, value);
+        associated_fields[i] = associated_field.make_attribute(value);
     }
+
+    auto dest_af = [&](unsigned subset, Var&& var) {
+        var.clear_attrs();
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    };
+
+    if (info->type == Vartype::String)
+        decode_string(info, subsets, dest_af);
+    else
+        decode_compressed_number(info, subsets, dest_af);
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 103efce..71ac88c 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -324,7 +324,7 @@ public:
      * Decode a number as described by \a info from a compressed bufr with
      * \a subsets subsets, and send the resulting variables to \a dest
      */
-    void decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
+    void decode_compressed_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
 
     /**
      * Decode a number as described by dest.info(), and set it as value for \a
-- 
2.43.0


From fc4bd8f98fc9935bcdb0377b859dda5b8bb9f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:33 +0000
Subject: [PATCH 12/61] fix: recognise missing binary values whose length is
 not a multiple of 8

---
 wreport/bufr/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 11c48e3..dbeb8fe 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -306,7 +306,7 @@ void Input::decode_binary(Var& dest)
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        if (bitval != all_ones(count))
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From f0489be86a767fa5a09fa1b28cc92a001890769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 13/61] fix: handle numbers that do not fit 32 bits as domain
 errors when setting a Var

---
 wreport/var.cc | 44 +++++++++++++++++++++++++++++++-------------
 wreport/var.h  |  2 ++
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..4dd3c15 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -75,19 +75,23 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+// Values that do not fit an int32_t are returned as something that does not fit
+int64_t str_to_int64(const char *str)
 {
-    unsigned val = 0;
-    while (*str)
-        val = val * 10 + (*str++ - '0');
-    return val;
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
+    for ( ; *str && val < 100000000000000000; ++str)
+        val = val * 10 + (*str - '0');
+    return negative ? -val : val;
 }
 
 bool isnumber(const char *str)
 {
     if (*str == '-') ++str;
+    if (!*str) return false;
     while (*str)
-        if (!isdigit(*str++))
+        if (!isdigit(static_cast<unsigned char>(*str++)))
             return false;
     return true;
 }
@@ -476,6 +480,16 @@ void Var::assign_d_checked(double val)
     m_isset = true;
 }
 
+void Var::assign_number_checked(int64_t val)
+{
+    if (val >= INT32_MIN && val <= INT32_MAX)
+        assign_i_checked(static_cast<int32_t>(val));
+    else
+        // The value cannot be represented, and it is out of range for any
+        // variable
+        assign_d_checked(static_cast<double>(val) * pow(10, -m_info->scale));
+}
+
 void Var::assign_b_checked(const uint8_t* val, unsigned size)
 {
     allocate();
@@ -534,7 +548,15 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer: {
+            double rounded = round(val);
+            if (rounded >= INT32_MIN && rounded <= INT32_MAX)
+                assign_i_checked(static_cast<int32_t>(rounded));
+            else
+                // NaN, or too big for any integer variable
+                assign_d_checked(val);
+            break;
+        }
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
@@ -549,10 +571,8 @@ void Var::setc(const char* val)
         case Vartype::Integer:
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_number_checked(str_to_int64(val));
             break;
     }
 }
@@ -582,10 +602,8 @@ void Var::sets(const std::string& val)
         case Vartype::Decimal:
             if (!isnumber(val.c_str()))
                 unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
             else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+                assign_number_checked(str_to_int64(val.c_str()));
             break;
     }
 }
diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..6dc0322 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -58,6 +58,8 @@ protected:
     void move_value(Var& var);
     void assign_i_checked(int32_t val);
     void assign_d_checked(double val);
+    /// Assign an unscaled integer value that may not fit an int32_t
+    void assign_number_checked(int64_t val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
     void assign_c_checked(const char* val, unsigned size);
-- 
2.43.0


From 4e76a34b248ee8e510db0fc04b6d77297f438dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:22 +0000
Subject: [PATCH 14/61] fix: make Var assignments safe when types differ or the
 source is an attribute

---
 wreport/var.cc | 51 +++++++++++++++++++++++++++-----------------------
 wreport/var.h  |  3 +++
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 4dd3c15..c41d54f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -154,20 +154,16 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // Copy first, since var can have a different type, or be one of our
+    // attributes
+    return *this = Var(var);
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
+    deallocate();
+    m_info = var.m_info;
     move_value(var);
     delete m_attrs;
     m_attrs = var.m_attrs;
@@ -177,16 +173,7 @@ Var& Var::operator=(Var&& var)
 
 Var::~Var()
 {
-    switch (m_info->type)
-    {
-        case Vartype::Binary:
-        case Vartype::String:
-            delete[] m_value.c;
-            break;
-        case Vartype::Integer:
-        case Vartype::Decimal:
-            break;
-    }
+    deallocate();
     delete m_attrs;
 }
 
@@ -207,6 +194,22 @@ void Var::allocate()
         throw error_alloc("allocating space for Var value");
 }
 
+void Var::deallocate()
+{
+    switch (m_info->type)
+    {
+        case Vartype::Binary:
+        case Vartype::String:
+            delete[] m_value.c;
+            break;
+        case Vartype::Integer:
+        case Vartype::Decimal:
+            break;
+    }
+    m_value.c = nullptr;
+    m_isset = false;
+}
+
 void Var::copy_value(const Var& var)
 {
     m_isset = var.m_isset;
@@ -655,7 +658,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
@@ -708,6 +711,7 @@ const Var* Var::next_attr() const
 
 void Var::setval(const Var& src)
 {
+    if (&src == this) return;
     if (!src.isset())
     {
         unset();
@@ -727,9 +731,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
-    clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    // Copy first, since src can be this variable, or one of its attributes
+    Var* attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
+    delete m_attrs;
+    m_attrs = attrs;
 }
 
 std::string Var::format(const char* ifundef) const
diff --git a/wreport/var.h b/wreport/var.h
index 6dc0322..1f7f9fa 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -52,6 +52,9 @@ protected:
     /// Make sure that m_value is allocated. It does nothing if it already is.
     void allocate();
 
+    /// Unset the value and free its memory
+    void deallocate();
+
     /// Copy the value from var. var is assumed to have the same varinfo as us.
     void copy_value(const Var& var);
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
-- 
2.43.0


From 29f07935750e4313e78513ab47493ad234ccbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:25 +0000
Subject: [PATCH 15/61] fix: do not read past the end of opaque binary values

---
 wreport/var.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index c41d54f..f33bec5 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -190,8 +190,10 @@ bool Var::operator==(const Var& var) const
 
 void Var::allocate()
 {
-    if (!m_value.c && !(m_value.c = new char[m_info->len + 1]))
-        throw error_alloc("allocating space for Var value");
+    if (m_value.c) return;
+    m_value.c = new char[m_info->len + 1];
+    // Binary values are also 0-terminated, since enqc gives access to them
+    m_value.c[m_info->len] = 0;
 }
 
 void Var::deallocate()
@@ -399,8 +401,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -720,7 +723,11 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary: {
+            std::string val = src.enqs();
+            assign_b_checked(reinterpret_cast<const uint8_t*>(val.data()), static_cast<unsigned>(val.size()));
+            break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From 990bf79f8319f4b3a7fcf9706129f2a91c370d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:28 +0000
Subject: [PATCH 16/61] fix: format the lowest and the longest numbers

---
 wreport/var.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index f33bec5..8d90543 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -329,7 +329,7 @@ static inline void int32_to_str(int32_t val, char* buf, unsigned size)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         buf[0] = '-';
         ++dest;
         --size;
@@ -349,7 +349,7 @@ static inline std::string int32_to_stdstr(int32_t val)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         unsigned digits = count_digits(dec);
         res.resize(digits + 1);
         char* dest = res.data();
@@ -764,8 +764,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[40];
+            snprintf(buf, sizeof(buf), "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From 0848cd39ded094b1de018f398fea1691ce55a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:23 +0000
Subject: [PATCH 17/61] fix: compare values of different types, and attributes
 of unset variables

---
 wreport/var.cc | 24 +++++++++++++++++++++++-
 wreport/var.h  |  4 ++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 8d90543..1814d66 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -261,10 +261,20 @@ bool Var::value_equals(const Var& var) const
     if (!m_isset && !var.m_isset) return true;
     if (!m_isset || !var.m_isset) return false;
 
+    bool numeric = m_info->type == Vartype::Integer || m_info->type == Vartype::Decimal;
+    bool var_numeric = var.m_info->type == Vartype::Integer || var.m_info->type == Vartype::Decimal;
+    if (numeric && var_numeric)
+    {
+        if (m_info->scale != var.m_info->scale)
+            return enqd() == var.enqd();
+    } else if (m_info->type != var.m_info->type)
+        return false;
+
     // Compare value
     switch (m_info->type)
     {
         case Vartype::Binary:
+            if (m_info->bit_len != var.m_info->bit_len) return false;
             return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
             return strcmp(m_value.c, var.m_value.c) == 0;
@@ -844,6 +854,13 @@ void Var::print(std::ostream& out) const
 }
 
 unsigned Var::diff(const Var& var) const
+{
+    if (unsigned res = diff_value(var))
+        return res;
+    return diff_attrs(var);
+}
+
+unsigned Var::diff_value(const Var& var) const
 {
     // TODO: alterations are not taken into account
     if (code() != var.code())
@@ -920,6 +937,11 @@ unsigned Var::diff(const Var& var) const
             break;
     }
 
+    return 0;
+}
+
+unsigned Var::diff_attrs(const Var& var) const
+{
     if ((m_attrs != 0) != (var.m_attrs != 0))
     {
         if (m_attrs)
@@ -968,7 +990,7 @@ unsigned Var::diff(const Var& var) const
                     return 1;
                 }
 
-                unsigned diff = a1->diff(*a2);
+                unsigned diff = a1->diff_value(*a2);
                 if (diff)
                 {
                     notes::logf("  comparing attr of variable ");
diff --git a/wreport/var.h b/wreport/var.h
index 1f7f9fa..382efaa 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -60,6 +60,10 @@ protected:
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
     void move_value(Var& var);
     void assign_i_checked(int32_t val);
+    /// Compare varcodes and values of two Vars, ignoring attributes
+    unsigned diff_value(const Var& var) const;
+    /// Compare the attributes of two Vars
+    unsigned diff_attrs(const Var& var) const;
     void assign_d_checked(double val);
     /// Assign an unscaled integer value that may not fit an int32_t
     void assign_number_checked(int64_t val);
-- 
2.43.0


From 7858b768a43882ff7dd67a3e60081285e357edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 18/61] fix: restore the lack of a notes target, and do not
 share the null stream between threads

---
 wreport/notes.cc | 19 ++++++++++---------
 wreport/notes.h  |  5 ++++-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 253dd88..e513844 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -17,14 +17,17 @@ struct null_streambuf : public std::streambuf
 };
 
 thread_local ostream* target = 0;
-null_streambuf* null_sb = 0;
-ostream* null_stream = 0;
 
 void set_target(std::ostream& out)
 {
     target = &out;
 }
 
+void set_target(std::ostream* out)
+{
+    target = out;
+}
+
 std::ostream* get_target()
 {
     return target;
@@ -40,13 +43,11 @@ std::ostream& log() throw ()
     // If there is a target, use it
     if (target) return *target;
 
-    // If there is no target, return an ostream that discards all data
-    if (!null_sb)
-    {
-        null_sb = new null_streambuf;
-        null_stream = new ostream(null_sb);
-    }
-    return *null_stream;
+    // If there is no target, return an ostream that discards all data. It is
+    // specific to each thread, as writing to an ostream changes its state
+    static thread_local null_streambuf null_sb;
+    static thread_local ostream null_stream(&null_sb);
+    return null_stream;
 }
 
 void logf(const char* fmt, ...)
diff --git a/wreport/notes.h b/wreport/notes.h
index 3107486..5da7f50 100644
--- a/wreport/notes.h
+++ b/wreport/notes.h
@@ -20,6 +20,9 @@ namespace notes {
 /// Set the target stream where the notes are sent
 void set_target(std::ostream& out);
 
+/// Set the target stream where the notes are sent, or nullptr to discard them
+void set_target(std::ostream* out);
+
 /// Get the current target stream for notes
 std::ostream* get_target();
 
@@ -53,7 +56,7 @@ struct Collect
     }
     ~Collect()
     {
-        set_target(*old);
+        set_target(old);
     }
 };
 
-- 
2.43.0


From f090597c7de019acd734bad4feb3ad21111d6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:35 +0000
Subject: [PATCH 19/61] fix: terminate descriptions and units loaded from B
 tables

---
 wreport/vartable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..7b5ca65 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -352,12 +352,14 @@ struct BufrVartable : public VartableBase
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
+            entry->desc[63] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
+            entry->unit[23] = 0;
             normalise_unit(entry->unit);
 
             entry->scale = static_cast<int>(getnumber(line+98));
@@ -433,12 +435,14 @@ struct CrexVartable : public VartableBase
             // Convert the description from space-padded to zero-padded
             for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
+            entry->desc[63] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
             // Convert the unit from space-padded to zero-padded
             for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
+            entry->unit[23] = 0;
             normalise_unit(entry->unit);
 
             entry->scale = static_cast<int>(getnumber(line+143));
-- 
2.43.0


From 1adb4c7e9222d1ad6a322e4ba28eda4046afb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 20/61] fix: compute the range of variables without overflows

---
 wreport/varinfo.cc | 68 ++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..5ac6c75 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -167,6 +167,33 @@ void _Varinfo::set_binary(Varcode code, const char* desc, unsigned bit_len)
     compute_range();
 }
 
+static const double scales[] = {
+	1.0,
+	10.0,
+	100.0,
+	1000.0,
+	10000.0,
+	100000.0,
+	1000000.0,
+	10000000.0,
+	100000000.0,
+	1000000000.0,
+	10000000000.0,
+	100000000000.0,
+	1000000000000.0,
+	10000000000000.0,
+	100000000000000.0,
+	1000000000000000.0,
+	10000000000000000.0,
+	100000000000000000.0,
+	1000000000000000000.0,
+	10000000000000000000.0,
+	100000000000000000000.0,
+	1000000000000000000000.0,
+	10000000000000000000000.0,
+};
+
+static const int max_scale = sizeof(scales) / sizeof(scales[0]) - 1;
 
 void _Varinfo::compute_range()
 {
@@ -179,6 +206,9 @@ void _Varinfo::compute_range()
             break;
         case Vartype::Integer:
         case Vartype::Decimal:
+            if (scale < -max_scale || scale > max_scale)
+                error_consistency::throwf("%01d%02d%03d has scale %d, which is not supported",
+                        WR_VAR_FXY(code), scale);
             if (len >= 10)
             {
                 imin = INT_MIN;
@@ -191,24 +221,24 @@ void _Varinfo::compute_range()
                 imin =  static_cast<int>(-(intexp10(len) - 1.0));
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
-                int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
-                // We subtract 2 because 2^bit_len-1 is the
+                int64_t bit_min = bit_ref;
+                int64_t bit_max = (int64_t(1) << bit_len) - 1 + bit_ref;
+                // We subtract 1 because 2^bit_len-1 is the
                 // BUFR missing value.
-                // We cannot subtract 2 from the delayed replication
+                // We cannot subtract 1 from the delayed replication
                 // factors because RADAR BUFR messages have 255
                 // subsets, and the delayed replication field is 8
                 // bits, so 255 is the missing value, and if we
                 // disallow it here we cannot import radars anymore.
                 if (WR_VAR_X(code) != 31)
-                    bit_max -= 2;
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
-                int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
-                int dec_max = static_cast<int>((intexp10(len) - 2.0));
+                int64_t dec_min = -(intexp10(len) - 1);
+                int64_t dec_max = intexp10(len) - 2;
 
-                imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imin = static_cast<int>(min<int64_t>(max(bit_min, dec_min), INT_MAX));
+                imax = static_cast<int>(max<int64_t>(min(bit_max, dec_max), INT_MIN));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
@@ -216,26 +246,6 @@ void _Varinfo::compute_range()
     }
 }
 
-static const double scales[] = {
-	1.0,
-	10.0,
-	100.0,
-	1000.0,
-	10000.0,
-	100000.0,
-	1000000.0,
-	10000000.0,
-	100000000.0,
-	1000000000.0,
-	10000000000.0,
-	100000000000.0,
-	1000000000000.0,
-	10000000000000.0,
-	100000000000000.0,
-	1000000000000000.0,
-	10000000000000000.0,
-};
-
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-- 
2.43.0


From 2066ead0816aa02bdc8cae26ea1f6e84acd9bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:56 +0000
Subject: [PATCH 21/61] fix: do not encode numbers that do not fit their
 encoding

---
 wreport/varinfo.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 5ac6c75..8844d28 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -269,12 +269,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
 
 int _Varinfo::encode_decimal(double fval) const
 {
+    double res;
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        res = rint(fval * scales[scale]);
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        res = rint(fval / scales[-scale]);
     else
-        return (int)rint(fval);
+        res = rint(fval);
+    if (!(res >= INT_MIN && res <= INT_MAX))
+        error_domain::throwf("Cannot encode %01d%02d%03d %g to an integer using scale %d",
+                WR_VAR_FXY(code), fval, scale);
+    return (int)res;
 }
 
 double _Varinfo::round_decimal(double val) const
@@ -299,6 +304,9 @@ unsigned _Varinfo::encode_binary(double fval) const
         res = rint((fval / scales[-scale] - bit_ref));
     else
         res = rint(fval - bit_ref);
+    if (!(res <= (bit_len < 32 ? (1u << bit_len) - 1 : UINT_MAX)))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: value %f is too big",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
-- 
2.43.0


From 451bb55727437a917cdaa2f560af43c116926d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:32 +0000
Subject: [PATCH 22/61] fix: encode missing values longer than 32 bits, and do
 not turn values into missing ones

---
 wreport/buffers/bufr.cc           | 14 +++++++++++---
 wreport/buffers/bufr.h            |  2 ++
 wreport/bulletin/dds-validator.cc | 11 +++--------
 wreport/varinfo.cc                |  3 +++
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 0b953d5..550ab9a 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -28,8 +28,12 @@ BufrOutput::BufrOutput(std::string& out)
 
 void BufrOutput::add_bits(uint32_t val, int n)
 {
+    if (n <= 0) return;
+    if (n > 32)
+        error_consistency::throwf("cannot encode a number using %d bits", n);
+
     /* Mask for reading data out of val */
-    uint32_t mask = 1 << (n - 1);
+    uint32_t mask = 1u << (n - 1);
     int i;
 
     for (i = 0; i < n; i++) 
@@ -118,9 +122,13 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
         case Vartype::String:
             append_string(var.enqc(), info->bit_len);
             break;
-        case Vartype::Binary:
-            append_binary((const unsigned char*)var.enqc(), info->bit_len);
+        case Vartype::Binary: {
+            std::string val = var.enqs();
+            if (val.size() < info->len)
+                val.resize(info->len);
+            append_binary((const unsigned char*)val.data(), info->bit_len);
             break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             unsigned ival = info->encode_binary(var.enqd());
diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..81e3b81 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -30,16 +30,11 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
         case Vartype::Integer:
         case Vartype::Decimal:
         {
-            unsigned encoded;
+            // These throw an exception if the value does not fit
             if (is_crex)
-                encoded = info->encode_decimal(var.enqd());
+                info->encode_decimal(var.enqd());
             else
-                encoded = info->encode_binary(var.enqd());
-            if (!is_crex)
-            {
-                if (encoded >= (1u<<info->bit_len))
-                    error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
-            }
+                info->encode_binary(var.enqd());
         }
         break;
     }
diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 8844d28..596fb4f 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -310,6 +310,9 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    if (WR_VAR_X(code) != 31 && res == (bit_len < 32 ? (1u << bit_len) - 1 : UINT_MAX))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: it would be decoded as a missing value",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 076f29631a9790244cd224876d370302f9e6ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:48 +0000
Subject: [PATCH 23/61] fix: C03000 cancels the reference values defined by C03

---
 wreport/bulletin/interpreter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 4808832..012b7c9 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -221,6 +221,10 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                TRACE("Cancel reference value changes\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 282984428b60ac18540414ac47394dabfd09d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:48 +0000
Subject: [PATCH 24/61] fix: report BUFR data that cannot be encoded, instead
 of encoding something else

---
 wreport/bufr_encoder.cc           | 45 ++++++++++++++++++-------------
 wreport/bulletin/dds-validator.cc | 23 ++++++----------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..fd3bba6 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,8 +57,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
-        else
+        {
+            int val = att->enqi();
+            if (val < 0 || (uint64_t)val >= (uint64_t(1) << associated_field.bit_count))
+                error_consistency::throwf("associated field value %d does not fit in %u bits",
+                        val, associated_field.bit_count);
+            ob.add_bits(val, associated_field.bit_count);
+        } else
             ob.append_missing(associated_field.bit_count);
     }
 
@@ -99,13 +104,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
-        // is its bit_ref
+        // Scan the rest of the subset looking for a variables with the given
+        // code, to see what is its bit_ref
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (unsigned i = current_var; i < current_subset.size(); ++i)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[i].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
@@ -123,21 +128,16 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
 
         // Encode
-        uint32_t encoded;
-        unsigned nbits;
-        if (bit_ref < 0)
-        {
-            encoded = -bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
-            encoded |= 1 << (c03_refval_override_bits - 1);
-        } else {
-            encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
-        }
+        uint32_t encoded = bit_ref < 0 ? -static_cast<uint32_t>(bit_ref) : bit_ref;
+        unsigned nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
 
         // Check if it fits (encoded bits plus 1 for the sign)
         if (nbits + 1 > c03_refval_override_bits)
             error_consistency::throwf("C03 reference value override requested for value %d, encoded as %u, which does not fit in %u bits (requires %u bits)", bit_ref, encoded, c03_refval_override_bits, nbits + 1);
+        if (c03_refval_override_bits > 32)
+            error_unimplemented::throwf("C03 reference values of %u bits are not supported", c03_refval_override_bits);
+        if (bit_ref < 0)
+            encoded |= 1u << (c03_refval_override_bits - 1);
 
         ob.add_bits(encoded, c03_refval_override_bits);
         c03_refval_overrides[code] = bit_ref;
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
@@ -315,6 +315,10 @@ void Encoder::encode_sec3()
     if (in.subsets.empty())
         throw error_consistency("message to encode has no data subsets");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets, but only at most 65535 can be encoded",
+                in.subsets.size());
+
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
@@ -397,6 +401,11 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // Section lengths are also encoded in 24 bits
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long, but BUFR messages can be at most %u bytes long",
+                out.out.size(), 0xffffffu);
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 81e3b81..0d3be78 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -75,13 +75,13 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
-    // Scan the subset looking for a variables with the given code, to see what
-    // is its bit_ref
+    // Scan the rest of the subset looking for a variables with the given code,
+    // to see what is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (unsigned i = current_var; i < current_subset.size(); ++i)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[i].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
@@ -98,21 +98,14 @@ void DDSValidator::define_c03_refval_override(Varcode code)
     }
 
     // Encode
-    uint32_t encoded;
-    unsigned nbits;
-    if (bit_ref < 0)
-    {
-        encoded = -bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
-        encoded |= 1 << (c03_refval_override_bits - 1);
-    } else {
-        encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
-    }
+    uint32_t encoded = bit_ref < 0 ? -static_cast<uint32_t>(bit_ref) : bit_ref;
+    unsigned nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
 
     // Check if it fits (encoded bits plus 1 for the sign)
     if (nbits + 1 > c03_refval_override_bits)
         error_consistency::throwf("C03 reference value override requested for value %d, encoded as %u, which does not fit in %u bits (requires %u bits)", bit_ref, encoded, c03_refval_override_bits, nbits + 1);
+    if (c03_refval_override_bits > 32)
+        error_unimplemented::throwf("C03 reference values of %u bits are not supported", c03_refval_override_bits);
 
     c03_refval_overrides[code] = bit_ref;
 }
-- 
2.43.0


From 94189e36dc5f0f51d151e8c671fc7ad9f349331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:23 +0000
Subject: [PATCH 25/61] fix: initialize the whole value of a new Var

---
 wreport/var.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 382efaa..16cab7c 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -40,10 +40,13 @@ protected:
      *
      * For binary values, it is a raw buffer where the first m_info->bit_len
      * bits are the binary value, and the rest is set to 0.
+     *
+     * The pointer needs to be the first member, since an empty initializer
+     * only initializes the first member of a union.
      */
     union {
-        int32_t i;
         char* c;
+        int32_t i;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From 35c82f19a25ae9bf8524b9fd4342aa6f30c7a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 26/61] fix: refuse to parse varcodes shorter than 6 characters

---
 wreport/varinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 596fb4f..32061f8 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -84,7 +84,7 @@ Varcode varcode_parse(const char* entry)
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From cf14d0489805e121afa547f649435678a69896bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:00 +0000
Subject: [PATCH 27/61] fix: always reach the end of CREX data descriptors and
 of the optional section

---
 wreport/crex_decoder.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..7c0138f 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -83,6 +83,7 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
@@ -98,12 +99,14 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         }
         else if (*in.cur == '+')
         {
-            in.check_available_data(1, "end of data descriptor section");
+            in.check_available_data(2, "end of data descriptor section");
             if (*(in.cur+1) != '+')
                 in.parse_error("data descriptor section ends with only one '+'");
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character '%c' in the data descriptor section", *in.cur);
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
@@ -209,7 +212,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From 590dc973e10d6502392e6e74464f0dbdf262c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:37 +0000
Subject: [PATCH 28/61] fix: decode CREX values, replication factors and
 subsets only from their own characters

---
 wreport/crex_decoder.cc | 60 ++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 7c0138f..bc7957a 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -58,6 +58,8 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         in.read_word(atable, 20);
         TRACE("ATABLE \"%s\"\n", atable);
         unsigned val = static_cast<unsigned>(strtoul(atable+1, 0, 10));
+        if ((strlen(atable) == 4 && val > 255) || (strlen(atable) == 7 && (val / 1000 > 255 || val % 1000 > 255)))
+            in.parse_error("A table indicator %s is out of range", atable);
         switch (strlen(atable)-1)
         {
             case 3:
@@ -87,7 +89,11 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
-            out.datadesc.push_back(varcode_parse(in.cur));
+            std::string desc(in.cur, 6);
+            if (desc.find_first_not_of("0123456789", 1) != std::string::npos
+                    || desc.compare(1, 2, "63") > 0 || desc.compare(3, 3, "255") > 0)
+                in.parse_error("\"%s\" is not a valid data descriptor", desc.c_str());
+            out.datadesc.push_back(varcode_parse(desc.c_str()));
             in.skip_data_and_spaces(6);
         }
         else if (*in.cur == 'E')
@@ -132,30 +138,36 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    /// Read the text of a value, without its trailing spaces
+    std::string read_value(unsigned len, bool is_signed)
     {
-        uint32_t res = 0xffffffff;
+        const char* d_start;
+        const char* d_end;
+        in.parse_value(len, is_signed, &d_start, &d_end);
+        return std::string(d_start, d_end - d_start);
+    }
 
+    void define_variable(Varinfo info) override
+    {
         // Create the new Var
         Var var(info);
 
         // Parse value from the data section
-        const char* d_start;
-        const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        std::string buf = read_value(info->len, info->type != Vartype::String);
 
         /* If the variable is not missing, set its value */
-        if (*d_start != '/')
+        if (info->type == Vartype::String)
         {
-            if (info->type == Vartype::String)
-            {
-                std::string buf(d_start, d_end - d_start);
+            // Strings are missing only if they are all slashes
+            if (buf.size() != info->len || buf.find_first_not_of('/') != std::string::npos)
                 var.setc(buf.c_str());
-            } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
-                var.seti(val);
-                res = val;
-            }
+        }
+        else if (buf[0] != '/')
+        {
+            size_t sign = buf[0] == '-' ? 1 : 0;
+            if (buf.size() == sign || buf.find_first_not_of("0123456789", sign) != std::string::npos)
+                in.parse_error("value of %01d%02d%03d is '%s', which is not a number", WR_VAR_FXY(info->code), buf.c_str());
+            var.sets(buf);
         }
 
         /* Store the variable that we found */
@@ -163,17 +175,17 @@ struct CrexParser : public bulletin::Interpreter
         IFTRACE{
             TRACE("define_variable: stored variable: "); var.print(stderr); TRACE("\n");
         }
-        return res;
-    }
-
-    void define_variable(Varinfo info) override
-    {
-        read_variable(info);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // Replication factors always have 4 digits in CREX
+        std::string buf = read_value(4, false);
+        if (buf.size() != 4 || buf.find_first_not_of("0123456789") != std::string::npos)
+            in.parse_error("delayed replication factor is '%s' instead of 4 digits", buf.c_str());
+        int count = static_cast<int>(strtol(buf.c_str(), 0, 10));
+        output_subset.store_variable(Var(info, count));
+        return count;
     }
 };
 
@@ -202,6 +214,10 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+
+        // Move to the beginning of the next subset
+        in.skip_spaces();
+        in.check_eof("data of the next subset");
     }
     in.skip_spaces();
 
-- 
2.43.0


From 11d91cbeccf42fe058315ec511a3b1c3bce555b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:48 +0000
Subject: [PATCH 29/61] fix: encode CREX check digits, missing values and
 numbers so that they can be decoded

---
 wreport/buffers/crex.cc | 18 ++++++++++++++---
 wreport/crex_encoder.cc | 45 +++++++++++++++++------------------------
 2 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..bf9123e 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,6 +1,7 @@
 #include "crex.h"
 #include "wreport/var.h"
 #include <cstdarg>
+#include <cstdlib>
 #include "config.h"
 
 /*
@@ -176,13 +177,16 @@ void CrexOutput::raw_append(const char* str, int len)
 
 void CrexOutput::raw_appendf(const char* fmt, ...)
 {
-    char sbuf[256];
+    char* sbuf = nullptr;
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vasprintf(&sbuf, fmt, ap);
     va_end(ap);
+    if (len == -1)
+        throw error_alloc("cannot format a CREX value");
 
     buf.append(sbuf, len);
+    free(sbuf);
 }
 
 void CrexOutput::encode_check_digit()
@@ -197,6 +201,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
@@ -220,10 +226,16 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
         case Vartype::Decimal: {
-            int val = var.enqi();
+            // The variable may be scaled differently than what is encoded
+            int val = var.info()->scale == info->scale ? var.enqi() : info->encode_decimal(var.enqd());
 
             /* FIXME: here goes handling of active C table modifiers */
 
+            std::string digits = std::to_string(std::abs(static_cast<long>(val)));
+            if (digits.size() > info->len)
+                error_consistency::throwf("cannot encode %01d%02d%03d: value %d does not fit in %u digits",
+                        WR_VAR_FXY(info->code), val, info->len);
+
             if (val < 0) ++len;
 
             raw_appendf("%0*d", len, val);
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..c6b1ce1 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -51,42 +51,33 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_semantic_var ");
             var.print(stderr);
         }
-        switch (info->code)
-        {
-            case WR_VAR(0, 31, 1):
-            case WR_VAR(0, 31, 2):
-            case WR_VAR(0, 31, 11):
-            case WR_VAR(0, 31, 12):
-            {
-                unsigned count = var.enqi();
-
-                /* Encode the repetition count */
-                ob.raw_append(" ", 1);
-                ob.encode_check_digit();
-                ob.raw_appendf("%04u", count);
-
-                return count;
-            }
-            default:
-                ob.append_var(info, var);
-                if (var.isset())
-                    return var.enqi();
-                else
-                    return 0xffffffff;
-        }
+        int count = var.enqi();
+        if (count < 0 || count > 9999)
+            error_consistency::throwf("cannot encode replication factor %d in 4 digits", count);
+
+        /* Encode the repetition count */
+        ob.raw_append(" ", 1);
+        ob.encode_check_digit();
+        ob.raw_appendf("%04d", count);
+
+        return count;
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
+    if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
+        error_consistency::throwf("cannot encode CREX master table %hhu, edition %hhu, version %hhu using two digits each",
+                in.master_table_number, in.edition_number, in.master_table_version_number);
+
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
@@ -132,6 +123,8 @@ string CrexBulletin::encode() const
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
 
+    out.has_check_digit = has_check_digit;
+
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
 
-- 
2.43.0


From dc2234f727b1f1abf4bb6494c44c1fb327b326e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 30/61] fix: do not apply BUFR width and scale changes to CREX
 variables

---
 wreport/bulletin/interpreter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 012b7c9..654af75 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -92,6 +92,10 @@ Varinfo Interpreter::get_varinfo(Varcode code)
     bool is_numeric = peek->type != Vartype::String && peek->type != Vartype::Binary
         && strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
 
+    if (is_numeric && !peek->bit_len && (c_scale_change || c_width_change || c_scale_ref_width_increase))
+        error_unimplemented::throwf("changing width or scale of %01d%02d%03d is not supported, since it has no binary encoding information",
+                WR_VAR_FXY(code));
+
     int scale = peek->scale;
     if (c_scale_change && is_numeric)
     {
-- 
2.43.0


From 3ea52b67b9739bb8a385f9f2afe4f055d8756db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:23 +0000
Subject: [PATCH 31/61] fix: make unit conversions with an offset invertible,
 and convert nanobars to Pascal

---
 wreport/conv.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..8e4d0aa 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0);
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From 612984d83a0c67f4426b3df71d7f31a16051e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:43 +0000
Subject: [PATCH 32/61] fix: initialise and clear all the fields of a
 BufrBulletin

---
 wreport/bulletin.cc | 2 ++
 wreport/bulletin.h  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..609ae21 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -336,6 +336,8 @@ void BufrBulletin::clear()
     master_table_version_number_local = 0;
     compression = false;
     optional_section.clear();
+    for (auto& end: section_end)
+        end = 0;
 }
 
 void BufrBulletin::load_tables()
diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From abc0832a99633fd1a355359c0017c419db90c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 33/61] fix: report CREX bulletins with different BUFR master
 table versions as different

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 609ae21..83467e3 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -596,7 +596,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From 9a850b7fe87b06bb7554767cb98300f4ee6c22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:50 +0000
Subject: [PATCH 34/61] fix: find the start and end of messages when preceded
 by part of what is looked for

---
 wreport/bulletin.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 83467e3..bde4a39 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,7 +28,8 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // This can still be the first character of the signature
+            got = c == sig[0] ? 1 : 0;
     }
 
     if (errno != 0)
@@ -645,6 +646,9 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // After "++", the last two characters read are "++" again
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From c284ebd972e5cff8783c1fabe085f21e266aab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:53 +0000
Subject: [PATCH 35/61] fix: allow different C modifiers to use equal bitmaps,
 and local descriptors to have the same length

---
 wreport/tables.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..df3612d 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,13 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    // The same bitmap can be used with different C modifiers
+    std::string key = varcode_format(code) + bitmap;
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +109,13 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    // Different local descriptors can have the same length
+    unsigned key = (static_cast<unsigned>(code) << 16) | bit_len;
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
-- 
2.43.0


From 2911ea942a7f8e47f391495581bac92ed4e37d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 36/61] fix: do not build data present bitmaps for more
 variables than there are

---
 wreport/subset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..a0f0b4d 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -94,6 +94,8 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
+        if (src == this->size())
+            break;
 
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
@@ -104,6 +106,8 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
 			++count;
 		}
 	}
+	if (dst < size)
+		error_consistency::throwf("cannot build a data present bitmap of size %u on a subset with only %zu variables", size, dst);
 	bitmap[size] = 0;
 
 	// Append the bitmap to the message
-- 
2.43.0


From d300d0d4783e3622b1ff063d3c206718fa1e4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:49 +0000
Subject: [PATCH 37/61] fix: do not use deleted tables while clearing a
 Bulletin

---
 wreport/bulletin.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index bde4a39..ee4c22e 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -68,9 +68,10 @@ void Bulletin::clear()
     update_sequence_number = 0;
     rep_year = 0;
     rep_month = rep_day = rep_hour = rep_minute = rep_second = 0;
-    tables.clear();
-    datadesc.clear();
+    // Variables refer to the tables, so they need to be deleted first
     subsets.clear();
+    datadesc.clear();
+    tables.clear();
 }
 
 Subset& Bulletin::obtain_subset(unsigned subsection)
-- 
2.43.0


From 7a86b8132582966973eec63affcb6f65f4a8802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 38/61] fix: choose among equally good tables regardless of the
 order of directory entries

---
 wreport/internals/tabledir.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..5bae8df 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -5,6 +5,7 @@
 #include "wreport/notes.h"
 #include "wreport/utils/sys.h"
 #include "config.h"
+#include <algorithm>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -74,6 +75,9 @@ void Dir::refresh()
     if (mtime >= st.st_mtime)
         return;
 
+    // When more tables match equally well the first one is chosen: make sure
+    // that it does not depend on the order of directory entries
+    std::vector<std::string> names;
     for (const auto& e: dir)
     {
         size_t name_len = strlen(e.d_name);
@@ -82,30 +86,36 @@ void Dir::refresh()
         if (name_len < 5) continue;
         if (strcmp(e.d_name + name_len - 4, ".txt") != 0) continue;
 
-        switch (e.d_name[0])
+        names.push_back(e.d_name);
+    }
+    std::sort(names.begin(), names.end());
+
+    for (const auto& name: names)
+    {
+        switch (name[0])
         {
             case 'B':
-                switch (strlen(e.d_name))
+                switch (name.size())
                 {
                     case 11: // B000203.txt
                     {
                         int mt, ed, mtv;
-                        if (sscanf(e.d_name, "B%02d%02d%02d", &mt, &ed, &mtv) == 3)
-                            tables.push_back(new CrexTable(CrexTableID(ed, 0, 0, mt, mtv, 0, 0), pathname, e.d_name));
+                        if (sscanf(name.c_str(), "B%02d%02d%02d", &mt, &ed, &mtv) == 3)
+                            tables.push_back(new CrexTable(CrexTableID(ed, 0, 0, mt, mtv, 0, 0), pathname, name));
                         break;
                     }
                     case 20: // B000000000001100.txt
                     {
                         int ce, sc, mt, lt;
-                        if (sscanf(e.d_name, "B00000%03d%03d%02d%02d", &sc, &ce, &mt, &lt) == 4)
-                            tables.push_back(new BufrTable(BufrTableID(ce, sc, 0, mt, lt), pathname, e.d_name));
+                        if (sscanf(name.c_str(), "B00000%03d%03d%02d%02d", &sc, &ce, &mt, &lt) == 4)
+                            tables.push_back(new BufrTable(BufrTableID(ce, sc, 0, mt, lt), pathname, name));
                         break;
                     }
                     case 24: // B0000000000085014000.txt
                     {
                         int ce, sc, mt, lt, dummy;
-                        if (sscanf(e.d_name, "B00%03d%04d%04d%03d%03d", &dummy, &sc, &ce, &mt, &lt) == 5)
-                            tables.push_back(new BufrTable(BufrTableID(ce, sc, 0, mt, lt), pathname, e.d_name));
+                        if (sscanf(name.c_str(), "B00%03d%04d%04d%03d%03d", &dummy, &sc, &ce, &mt, &lt) == 5)
+                            tables.push_back(new BufrTable(BufrTableID(ce, sc, 0, mt, lt), pathname, name));
                         break;
                     }
                 }
@@ -116,7 +126,7 @@ void Dir::refresh()
             default:
                 // Add all the rest as raw tables, that will be skipped by BUFR
                 // and CREX searches but that are still reachable by basename
-                tables.push_back(new Table(pathname, e.d_name));
+                tables.push_back(new Table(pathname, name));
                 break;
         }
     }
-- 
2.43.0


From c1c90cb5c5348cb628919c46266e4361e0cfd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 39/61] fix: do not truncate Python integers that do not fit an
 int

---
 python/var.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 02d2e10..6ec64d5 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -4,6 +4,7 @@
 #include "utils/type.h"
 #include "utils/methods.h"
 #include "utils/values.h"
+#include <climits>
 
 using namespace std;
 using namespace wreport::python;
@@ -521,7 +522,12 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
     try {
         if (PyLong_Check(o))
         {
-            var.seti(PyLong_AsLong(o));
+            long val = PyLong_AsLong(o);
+            if (val == -1 && PyErr_Occurred())
+                return -1;
+            if (val < INT_MIN || val > INT_MAX)
+                error_domain::throwf("Value %ld does not fit the range of integer variables", val);
+            var.seti(static_cast<int>(val));
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-- 
2.43.0


From 7d249ea7bf442b4f44ba4eb2bb2731ac60289f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:49 +0000
Subject: [PATCH 40/61] fix: get and set binary values from Python using their
 real length

---
 python/var.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/var.cc b/python/var.cc
index 6ec64d5..601f584 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -507,7 +507,10 @@ PyObject* var_value_to_python(const wreport::Var& v)
             case Vartype::String:
                 return PyUnicode_FromString(v.enqc());
             case Vartype::Binary:
-                return PyBytes_FromString(v.enqc());
+            {
+                std::string val = v.enqs();
+                return PyBytes_FromStringAndSize(val.data(), val.size());
+            }
             case Vartype::Integer:
                 return PyLong_FromLong(v.enqi());
             case Vartype::Decimal:
@@ -531,7 +534,7 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-            var.setc(PyBytes_AsString(o));
+            var.sets(std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)));
         } else if (PyUnicode_Check(o)) {
             var.sets(from_python<std::string>(o));
         } else {
-- 
2.43.0


From f7a4011eababcc34761f883d9e29803690f562e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:52 +0000
Subject: [PATCH 41/61] fix: do not return the other attributes as attributes
 of the one returned by Var.enqa

---
 python/var.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 601f584..286954e 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -231,7 +231,13 @@ struct enqa : public MethKwargs<enqa, wrpy_Var>
             const Var* attr = self->var.enqa(varcode_parse(code));
             if (!attr)
                 Py_RETURN_NONE;
-            return (PyObject*)var_create(*attr);
+
+            // Copy only the value, and not the rest of the attribute chain
+            py_unique_ptr<wrpy_Var> var((wrpy_Var*)var_create(attr->info()));
+            if (!var)
+                return nullptr;
+            var.get()->var.setval(*attr);
+            return (PyObject*)var.release();
         } WREPORT_CATCH_RETURN_PYO
     }
 };
-- 
2.43.0


From a96147d53d04d92d1f101a18cb7dfd105cd0e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:54 +0000
Subject: [PATCH 42/61] fix: do not crash deallocating a Python Var that has
 not been initialised

---
 python/var.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/var.cc b/python/var.cc
index 286954e..d5ad689 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -429,8 +429,10 @@ representations.
 
     static void _dealloc(Impl* self)
     {
-        // Explicitly call destructor
-        self->var.~Var();
+        // Explicitly call destructor, if __init__ got as far as constructing
+        // the variable
+        if (self->var.info())
+            self->var.~Var();
         Py_TYPE(self)->tp_free(self);
     }
 
-- 
2.43.0


From b92ec396fa234f39c0c7eb6da129893d51432c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:57 +0000
Subject: [PATCH 43/61] fix: wrep -p requires an argument, and wrep -h does not

---
 src/wrep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index c1f8ede..38c8f6a 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -89,10 +89,10 @@ int main(int argc, char* argv[])
         int option_index = 0;
 
 #ifdef HAS_GETOPT_LONG
-        int c = getopt_long(argc, argv, "cdsDpivtUTFLh:",
+        int c = getopt_long(argc, argv, "cdsDp:ivtUTFLh",
                 long_options, &option_index);
 #else
-        int c = getopt(argc, argv, "cdsDpivtUTFLh:");
+        int c = getopt(argc, argv, "cdsDp:ivtUTFLh");
 #endif
 
         // Detect the end of the options
-- 
2.43.0


From fce0a5414cc46443c953065608ac4a93d8a81b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:37 +0000
Subject: [PATCH 44/61] fix: find all the sequences of D tables whose entries
 are not sorted

---
 wreport/dtable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..b9b8e47 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "error.h"
 #include "internals/tabledir.h"
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -123,6 +124,9 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Lookups need sorted entries, and files are not always sorted
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From 1cd9809eb7eefb7cf201337f86dcd4861f13eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 45/61] fix: do not count the implicit replication factors
 among the descriptors to replicate in CREX

---
 wreport/crex_encoder.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index c6b1ce1..ec326a8 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -1,6 +1,7 @@
 #include "bulletin.h"
 #include "bulletin/internals.h"
 #include "buffers/crex.h"
+#include <algorithm>
 #include "config.h"
 
 // #define TRACE_ENCODER
@@ -86,6 +87,11 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 
     /* Encode the data descriptor section */
 
+    // Delayed replication counts are not put in the data descriptor section
+    auto is_implicit = [](Varcode code) {
+        return WR_VAR_F(code) == 0 && WR_VAR_X(code) == 31 && WR_VAR_Y(code) < 3;
+    };
+
     for (vector<Varcode>::const_iterator i = in.datadesc.begin();
             i != in.datadesc.end(); ++i)
     {
@@ -99,11 +105,21 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
             default: prefix = '?'; break;
         }
 
-        // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
+        if (is_implicit(*i))
             continue;
 
-        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
+        // Do not count them either, among the descriptors to replicate
+        unsigned x = WR_VAR_X(*i);
+        if (WR_VAR_F(*i) == 1)
+        {
+            auto begin = i + 1;
+            if (WR_VAR_Y(*i) == 0 && begin != in.datadesc.end() && is_implicit(*begin))
+                ++begin;
+            auto end = begin + std::min<ptrdiff_t>(x, in.datadesc.end() - begin);
+            x -= std::count_if(begin, end, is_implicit);
+        }
+
+        out.raw_appendf(" %c%02u%03d", prefix, x, WR_VAR_Y(*i));
     }
 
     if (out.has_check_digit)
-- 
2.43.0


From c74ddac3aba28ca1809d1af148fdb26a774cf78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:07 +0000
Subject: [PATCH 46/61] fix: refuse NaN and numbers that do not fit an int in
 conversions between octants and degrees

---
 wreport/conv.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 8e4d0aa..899001a 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -198,7 +198,14 @@ struct ConvertRepository
         add_ident("J M-2",        "J/M**2");
         add_ident("ppt",          "PART PER THOUSAND");
         add_ident("NTU",          "LM");
-        add_function("octants",   "DEGREE TRUE", convert_octants_to_degrees, convert_degrees_to_octants);
+        add_function("octants",   "DEGREE TRUE",
+                [](double val) -> double {
+                    // Check here, since values that do not fit an int cannot be converted to one
+                    if (!(val >= 0 && val <= 8))
+                        error_domain::throwf("cannot handle octants (%f) values below 0 or above 8", val);
+                    return convert_octants_to_degrees(static_cast<int>(val));
+                },
+                convert_degrees_to_octants);
 
         sort(repo.begin(), repo.end());
     }
@@ -475,7 +482,8 @@ double convert_octants_to_degrees(int from)
 
 int convert_degrees_to_octants(double from)
 {
-  if (from < 0 || from > 360)
+  // Written so that NaN is also refused
+  if (!(from >= 0 && from <= 360))
     error_domain::throwf("cannot handle  degrees (%f) values below 0.0 or above 360.0", from);
   // 0 degrees = undefined direction (wind calm)
   if (from == 0)
-- 
2.43.0


From cf65aa6637758826dbd1cad3d31d71bb95c2300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:49 +0000
Subject: [PATCH 47/61] fix: print data descriptors with character data,
 substituted values or reused bitmaps

---
 wreport/bulletin/interpreter.cc | 18 +++++++++++++++++-
 wreport/bulletin/interpreter.h  |  1 +
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 654af75..a712cd1 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -659,7 +659,19 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
-    Interpreter::c_modifier(code, next);
+    switch (code)
+    {
+        case WR_VAR(2, 37, 0):
+            bitmaps.pending_definitions = 0;
+            break;
+        case WR_VAR(2, 37, 255):
+        case WR_VAR(2, 23, 255):
+            // These act on the contents of bitmaps, that are not available here
+            break;
+        default:
+            Interpreter::c_modifier(code, next);
+            break;
+    }
 }
 
 void Printer::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -713,5 +725,9 @@ unsigned Printer::define_bitmap_delayed_replication_factor(Varinfo info)
     return 0;
 }
 
+void Printer::define_raw_character_data(Varcode code)
+{
+}
+
 }
 }
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index b98019f..01a72ae 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -261,6 +261,7 @@ public:
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
     unsigned define_associated_field_significance(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
 };
 
 
-- 
2.43.0


From ec069e8c443122c4f67279e2ad5a13b8d372e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:52 +0000
Subject: [PATCH 48/61] fix: scan the features of data descriptors with
 associated fields, character data or bitmaps

---
 wreport/bulletin/dds-scanfeatures.cc | 22 +++++++++++++++++++++-
 wreport/bulletin/dds-scanfeatures.h  |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-scanfeatures.cc b/wreport/bulletin/dds-scanfeatures.cc
index 09f269f..43e4fd3 100644
--- a/wreport/bulletin/dds-scanfeatures.cc
+++ b/wreport/bulletin/dds-scanfeatures.cc
@@ -8,6 +8,10 @@ ScanFeatures::ScanFeatures(const Tables& tables, const Opcodes& opcodes)
 {
 }
 
+void ScanFeatures::b_variable(Varcode code)
+{
+}
+
 void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
 {
     switch (WR_VAR_X(code))
@@ -22,7 +26,19 @@ void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
             features.insert(varcode_format(code));
             break;
     }
-    Interpreter::c_modifier(code, next);
+    switch (code)
+    {
+        case WR_VAR(2, 37, 0):
+            bitmaps.pending_definitions = 0;
+            break;
+        case WR_VAR(2, 37, 255):
+        case WR_VAR(2, 23, 255):
+            // These act on the contents of bitmaps, that are not available here
+            break;
+        default:
+            Interpreter::c_modifier(code, next);
+            break;
+    }
 }
 
 void ScanFeatures::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -54,5 +70,9 @@ unsigned ScanFeatures::define_bitmap_delayed_replication_factor(Varinfo info)
     return 0;
 }
 
+void ScanFeatures::define_raw_character_data(Varcode code)
+{
+}
+
 }
 }
diff --git a/wreport/bulletin/dds-scanfeatures.h b/wreport/bulletin/dds-scanfeatures.h
index 0de3adf..5566533 100644
--- a/wreport/bulletin/dds-scanfeatures.h
+++ b/wreport/bulletin/dds-scanfeatures.h
@@ -18,12 +18,14 @@ public:
 
     ScanFeatures(const Tables& tables, const Opcodes& opcodes);
 
+    void b_variable(Varcode code) override;
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void define_variable(Varinfo info) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_associated_field_significance(Varinfo info) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
 };
 
 }
-- 
2.43.0


From b02ccd0aacf48424a5a6fc644194a7811392aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:55 +0000
Subject: [PATCH 49/61] fix: do not read variable codes outside of the lines of
 B tables

---
 wreport/vartable.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 7b5ca65..5d64edd 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -313,6 +313,15 @@ struct VartableBase : public Vartable
     }
 };
 
+/// Read the varcode of a line of a B table
+static Varcode read_varcode(const std::filesystem::path& pathname, int line_no, const char* line)
+{
+    for (unsigned i = 0; i < 7; ++i)
+        if (!line[i] || (i >= 2 && !isdigit(static_cast<unsigned char>(line[i]))))
+            throw error_parse(pathname.c_str(), line_no, "table line does not start with a variable code");
+    return WR_STRING_TO_VAR(line + 2);
+}
+
 static void normalise_unit(char* unit)
 {
     if (strncmp(unit, "CODE TABLE", 10) == 0
@@ -345,7 +354,7 @@ struct BufrVartable : public VartableBase
             /* FMT='(1x,A,1x,A64,47x,A24,I3,8x,I3)' */
 
             // Append a new entry;
-            _Varinfo* entry = obtain(line_no, WR_STRING_TO_VAR(line + 2));
+            _Varinfo* entry = obtain(line_no, read_varcode(pathname, line_no, line));
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
@@ -412,7 +421,7 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
-            Varcode code = WR_STRING_TO_VAR(line + 2);
+            Varcode code = read_varcode(pathname, line_no, line);
 
             if (strlen(line) < 157)
             {
-- 
2.43.0


From 2652be0272cac1662e0cf6d4603a0e30ac9d01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:42 +0000
Subject: [PATCH 50/61] fix: report invalid variable codes given to wrep -p
 instead of aborting

---
 src/wrep.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index 38c8f6a..73ba024 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -109,7 +109,12 @@ int main(int argc, char* argv[])
             case 'D': options.action = DUMP_DDS; break;
             case 'p':
                 options.action = PRINT_VARS;
-                options.init_varcodes(optarg);
+                try {
+                    options.init_varcodes(optarg);
+                } catch (std::exception& e) {
+                    fprintf(stderr, "%s\n", e.what());
+                    return 1;
+                }
                 break;
             case 'i': options.action = INFO; break;
             case 'U': options.action = UNPARSABLE; break;
-- 
2.43.0


From 3b836233523b86cb7f9e13a1dd5c90672e4613db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 51/61] fix: find the differences between decimal variables
 with different scales

---
 wreport/var.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 1814d66..b3be3cd 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -926,12 +926,12 @@ unsigned Var::diff_value(const Var& var) const
             }
             break;
         case Vartype::Decimal:
-            if (m_value.i != var.m_value.i)
+            // The scale can be different, if one of them has been altered
+            if (!value_equals(var))
             {
                 notes::logf("[%d%02d%03d %s] values differ: first is %f, second is %f\n",
                         WR_VAR_FXY(code()), m_info->desc,
-                        m_info->decode_decimal(m_value.i),
-                        m_info->decode_decimal(var.m_value.i));
+                        enqd(), var.enqd());
                 return 1;
             }
             break;
-- 
2.43.0


From 029f1fd8ae3ea5b50fd0ee88ec0db0688ed369c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 52/61] fix: validate the length of bitmaps and the values of
 associated fields

DDSValidator accepted bitmaps of a different length than the one in the data
descriptor section, and associated field values that do not fit in their
field: both are then refused by the encoder.
---
 wreport/bulletin/dds-validator.cc | 19 +++++++++++++++++++
 wreport/bulletin/dds-validator.h  |  3 ++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 0d3be78..e19d59d 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -52,6 +52,25 @@ void DDSValidator::encode_var(Varinfo info, const Var& var)
     check_fits(info, var);
 }
 
+void DDSValidator::encode_associated_field(const Var& var)
+{
+    const Var* att = associated_field.get_attribute(var);
+    if (!att || !att->isset()) return;
+    int val = att->enqi();
+    if (val < 0 || (uint64_t)val >= (uint64_t(1) << associated_field.bit_count))
+        error_consistency::throwf("associated field value %d does not fit in %u bits",
+                val, associated_field.bit_count);
+}
+
+void DDSValidator::define_bitmap(unsigned bitmap_size)
+{
+    UncompressedEncoder::define_bitmap(bitmap_size);
+    const Var& var = get_var(current_var - 1);
+    if (var.info()->len != bitmap_size)
+        error_consistency::throwf("bitmap given is %u bits long, but we need to encode %u bits",
+                var.info()->len, bitmap_size);
+}
+
 void DDSValidator::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-validator.h b/wreport/bulletin/dds-validator.h
index 27b7c99..5059acf 100644
--- a/wreport/bulletin/dds-validator.h
+++ b/wreport/bulletin/dds-validator.h
@@ -50,12 +50,13 @@ public:
      */
     DDSValidator(const Bulletin& b, unsigned subset_idx);
 
-    //void define_bitmap(unsigned bitmap_size) override;
+    void define_bitmap(unsigned bitmap_size) override;
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
     void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
+    void encode_associated_field(const Var& var) override;
 };
 
 }
-- 
2.43.0


From 5e1ad98010364a8b6fdf8099845e07a383a11c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:57 +0000
Subject: [PATCH 53/61] fix: validate the number of digits of CREX values and
 the code of bitmaps

DDSValidator accepted numbers too long to be encoded in CREX, and bitmaps of
operators other than the one in the data descriptor section.
---
 wreport/bulletin/dds-validator.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index e19d59d..61d546d 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -1,5 +1,7 @@
 #include "wreport/bulletin/dds-validator.h"
 #include "wreport/vartable.h"
+#include <cstdlib>
+#include <string>
 
 using namespace std;
 
@@ -32,7 +34,12 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
         {
             // These throw an exception if the value does not fit
             if (is_crex)
-                info->encode_decimal(var.enqd());
+            {
+                int val = var.info()->scale == info->scale ? var.enqi() : info->encode_decimal(var.enqd());
+                if (std::to_string(std::abs(static_cast<long>(val))).size() > info->len)
+                    error_consistency::throwf("value %d of %01d%02d%03d does not fit in %u digits",
+                            val, WR_VAR_FXY(info->code), info->len);
+            }
             else
                 info->encode_binary(var.enqd());
         }
@@ -66,6 +73,9 @@ void DDSValidator::define_bitmap(unsigned bitmap_size)
 {
     UncompressedEncoder::define_bitmap(bitmap_size);
     const Var& var = get_var(current_var - 1);
+    if (var.code() != bitmaps.pending_definitions)
+        error_consistency::throwf("input bitmap %01d%02d%03d differs from expected bitmap %01d%02d%03d",
+                WR_VAR_FXY(var.code()), WR_VAR_FXY(bitmaps.pending_definitions));
     if (var.info()->len != bitmap_size)
         error_consistency::throwf("bitmap given is %u bits long, but we need to encode %u bits",
                 var.info()->len, bitmap_size);
-- 
2.43.0


From 2c8948a4b0f21202a1712c436534952a4e1e4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 54/61] fix: release the C++ exception before raising a Lua
 error

lua_error jumps out of the catch block, so the exception was never released.
---
 wreport/var-lua.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/wreport/var-lua.cc b/wreport/var-lua.cc
index d0a0650..2c374d3 100644
--- a/wreport/var-lua.cc
+++ b/wreport/var-lua.cc
@@ -41,6 +41,7 @@ const Var* Var::lua_const_check(lua_State* L, int idx)
 static int dbalua_var_enqi(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushinteger(L, var->enqi());
@@ -48,14 +49,17 @@ static int dbalua_var_enqi(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: the exception needs to be released before
+	if (failed) return lua_error(L);
 	return 1;
 }
 
 static int dbalua_var_enqd(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushnumber(L, var->enqd());
@@ -63,14 +67,17 @@ static int dbalua_var_enqd(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: the exception needs to be released before
+	if (failed) return lua_error(L);
 	return 1;
 }
 
 static int dbalua_var_enqc(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         if (var->isset())
             lua_pushstring(L, var->enqc());
@@ -78,8 +85,10 @@ static int dbalua_var_enqc(lua_State *L)
             lua_pushnil(L);
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: the exception needs to be released before
+	if (failed) return lua_error(L);
 	return 1;
 }
 
@@ -96,13 +105,16 @@ static int dbalua_var_code(lua_State *L)
 static int dbalua_var_tostring(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
+    bool failed = false;
     try {
         std::string formatted = var->format("(undef)");
         lua_pushlstring(L, formatted.data(), formatted.size());
 	} catch (std::exception& e) {
 		lua_pushstring(L, e.what());
-		lua_error(L);
+		failed = true;
 	}
+	// lua_error does not return: the exception needs to be released before
+	if (failed) return lua_error(L);
 	return 1;
 }
 
-- 
2.43.0


From e05a81e1bd825743e3ef87bc37da1eddd943b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:48 +0000
Subject: [PATCH 55/61] fix: give the whole binary value to Lua

The value was cut at the first byte set to zero.
---
 wreport/var-lua.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wreport/var-lua.cc b/wreport/var-lua.cc
index 2c374d3..871e2e3 100644
--- a/wreport/var-lua.cc
+++ b/wreport/var-lua.cc
@@ -80,7 +80,13 @@ static int dbalua_var_enqc(lua_State *L)
     bool failed = false;
     try {
         if (var->isset())
-            lua_pushstring(L, var->enqc());
+        {
+            // Binary values can contain zeros
+            if (var->info()->type == Vartype::Binary)
+                lua_pushlstring(L, var->enqc(), var->info()->len);
+            else
+                lua_pushstring(L, var->enqc());
+        }
         else
             lua_pushnil(L);
 	} catch (std::exception& e) {
-- 
2.43.0


From 48c7fdf9387182987f532850771dcaad4dc117f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:38 +0000
Subject: [PATCH 56/61] fix: end with a newline each line of the structured
 dump of a bulletin

---
 wreport/bulletin/dds-printer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..f253b5c 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -49,7 +49,7 @@ void DDSPrinter::print_attr(Varinfo info, unsigned var_pos)
     if (const Var* a = var.enqa(info->code))
         a->print(out);
     else
-        fprintf(out, "(undef)");
+        fprintf(out, "(undef)\n");
 }
 
 void DDSPrinter::encode_associated_field(const Var& var)
@@ -60,7 +60,7 @@ void DDSPrinter::encode_associated_field(const Var& var)
     if (att)
         att->print(out);
     else
-        fprintf(out, "associated field with significance %u is not present", associated_field.significance);
+        fprintf(out, "associated field with significance %u is not present\n", associated_field.significance);
 }
 
 void DDSPrinter::encode_var(Varinfo info, const Var& var)
-- 
2.43.0


From a52973cb146de4cc8c2b601797710e9b74e00dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:42 +0000
Subject: [PATCH 57/61] fix: print the structure of bulletins that change
 reference values

---
 wreport/bulletin/dds-printer.cc | 6 ++++++
 wreport/bulletin/dds-printer.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index f253b5c..9b6d445 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -93,6 +93,12 @@ void DDSPrinter::define_raw_character_data(Varcode code)
     var.print(out);
 }
 
+void DDSPrinter::define_c03_refval_override(Varcode code)
+{
+    print_context(code, current_var);
+    fprintf(out, "new reference value, encoded in %u bits\n", c03_refval_override_bits);
+}
+
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-printer.h b/wreport/bulletin/dds-printer.h
index 8c533d4..b1e307e 100644
--- a/wreport/bulletin/dds-printer.h
+++ b/wreport/bulletin/dds-printer.h
@@ -38,6 +38,7 @@ public:
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
     void encode_associated_field(const Var& var) override;
 
-- 
2.43.0


From 8baccc5f4327b6cbf6965cd456a1f76e3dac4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:48 +0000
Subject: [PATCH 58/61] fix: print also the descriptors of data present bitmaps

---
 wreport/bulletin/interpreter.cc | 6 ++++++
 wreport/bulletin/interpreter.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index a712cd1..c20e974 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -692,6 +692,12 @@ void Printer::r_replication(Varcode code, Varcode delayed_code, const Opcodes& o
     indent -= indent_step;
 }
 
+void Printer::r_bitmap(Varcode code, Varcode delayed_code, const Opcodes& ops)
+{
+    r_replication(code, delayed_code, ops);
+    Interpreter::r_bitmap(code, delayed_code, ops);
+}
+
 void Printer::run_d_expansion(Varcode code)
 {
     print_lead(code);
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index 01a72ae..59d1c4c 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -255,6 +255,7 @@ public:
     void b_variable(Varcode code) override;
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
+    void r_bitmap(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void run_d_expansion(Varcode code) override;
     void define_variable(Varinfo info) override;
     void define_variable_with_associated_field(Varinfo info) override;
-- 
2.43.0


From 780644c075c398b6c1a19b517960ea8a1dc85dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:37 +0000
Subject: [PATCH 59/61] fix: print negative reference values as such when
 decoding verbosely

---
 wreport/bufr/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index e0e6b8a..7a67d73 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -714,7 +714,7 @@ unsigned VerboseDataSectionDecoder::define_bitmap_delayed_replication_factor(Var
 void VerboseDataSectionDecoder::define_c03_refval_override(Varcode code)
 {
     DataSectionDecoder::define_c03_refval_override(code);
-    fprintf(out, "C03 reference value override for %d%02d%03d: %u\n", WR_VAR_FXY(code), c03_refval_overrides[code]);
+    fprintf(out, "C03 reference value override for %d%02d%03d: %d\n", WR_VAR_FXY(code), c03_refval_overrides[code]);
 }
 
 void VerboseDataSectionDecoder::define_bitmap(unsigned bitmap_size)
-- 
2.43.0


From e9496200457eb53e94244ae2274f581e56074975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:25 +0000
Subject: [PATCH 60/61] fix: count characters and not bytes in the columns of
 table B files

---
 wreport/vartable.cc | 85 ++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 32 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 5d64edd..ab4ed22 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -75,7 +75,44 @@ struct fd_closer
     ~fd_closer() { fclose(fd); }
 };
 
-static long getnumber(char* str)
+/// Return the position of the given column in a line, counted in characters
+static const char* column(const char* line, unsigned pos)
+{
+    // Tables are encoded in UTF-8
+    for ( ; pos && *line; --pos)
+        do
+            ++line;
+        while ((*line & 0xc0) == 0x80);
+    return line;
+}
+
+/// Number of characters in a line
+static size_t line_length(const char* line)
+{
+    size_t res = 0;
+    for ( ; *line; line = column(line, 1))
+        ++res;
+    return res;
+}
+
+/**
+ * Copy the text between two columns of a line to a zero-terminated buffer,
+ * removing trailing spaces and what does not fit
+ */
+static void copy_text(char* dest, size_t dest_size, const char* line, unsigned begin, unsigned end)
+{
+    const char* str = column(line, begin);
+    size_t len = column(str, end - begin) - str;
+    while (len && isspace(static_cast<unsigned char>(str[len - 1])))
+        --len;
+    if (len >= dest_size)
+        for (len = dest_size - 1; len && (str[len] & 0xc0) == 0x80; )
+            --len;
+    memcpy(dest, str, len);
+    memset(dest + len, 0, dest_size - len);
+}
+
+static long getnumber(const char* str)
 {
     while (*str && isspace(*str))
         ++str;
@@ -341,13 +378,13 @@ struct BufrVartable : public VartableBase
         if (!in) error_system::throwf("cannot open BUFR table file %s", pathname.c_str());
         fd_closer closer(in); // Close in on exit
 
-        char line[200];
+        char line[800];
         int line_no = 0;
-        while (fgets(line, 200, in) != NULL)
+        while (fgets(line, 800, in) != NULL)
         {
             line_no++;
 
-            if (strlen(line) < 119)
+            if (line_length(line) < 119)
                 throw error_parse(pathname.c_str(), line_no, "bufr table line too short");
             // fprintf(stderr, "Line: %s\n", line);
 
@@ -357,23 +394,15 @@ struct BufrVartable : public VartableBase
             _Varinfo* entry = obtain(line_no, read_varcode(pathname, line_no, line));
 
             // Read the description
-            memcpy(entry->desc, line+8, 64);
-            // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
-                entry->desc[i] = 0;
-            entry->desc[63] = 0;
+            copy_text(entry->desc, 64, line, 8, 72);
 
             // Read the unit
-            memcpy(entry->unit, line+73, 24);
-            // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
-                entry->unit[i] = 0;
-            entry->unit[23] = 0;
+            copy_text(entry->unit, 24, line, 73, 97);
             normalise_unit(entry->unit);
 
-            entry->scale = static_cast<int>(getnumber(line+98));
-            entry->bit_ref = static_cast<int>(getnumber(line+102));
-            entry->bit_len = static_cast<unsigned>(getnumber(line+115));
+            entry->scale = static_cast<int>(getnumber(column(line, 98)));
+            entry->bit_ref = static_cast<int>(getnumber(column(line, 102)));
+            entry->bit_len = static_cast<unsigned>(getnumber(column(line, 115)));
 
             // Set the is_string flag based on the unit
             if (strcmp(entry->unit, "CCITTIA5") == 0)
@@ -416,14 +445,14 @@ struct CrexVartable : public VartableBase
         if (!in) error_system::throwf("cannot open CREX table file %s", pathname.c_str());
         fd_closer closer(in); // Close in on exit
 
-        char line[200];
+        char line[800];
         int line_no = 0;
-        while (fgets(line, 200, in) != NULL)
+        while (fgets(line, 800, in) != NULL)
         {
             line_no++;
             Varcode code = read_varcode(pathname, line_no, line);
 
-            if (strlen(line) < 157)
+            if (line_length(line) < 157)
             {
                 // Rows for delayed replicators do not have crex entries, so we
                 // skip them
@@ -440,22 +469,14 @@ struct CrexVartable : public VartableBase
             _Varinfo* entry = obtain(line_no, code);
 
             // Read the description
-            memcpy(entry->desc, line+8, 64);
-            // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
-                entry->desc[i] = 0;
-            entry->desc[63] = 0;
+            copy_text(entry->desc, 64, line, 8, 72);
 
             // Read the CREX unit
-            memcpy(entry->unit, line+119, 24);
-            // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
-                entry->unit[i] = 0;
-            entry->unit[23] = 0;
+            copy_text(entry->unit, 24, line, 119, 143);
             normalise_unit(entry->unit);
 
-            entry->scale = static_cast<int>(getnumber(line+143));
-            entry->len = static_cast<unsigned>(getnumber(line+149));
+            entry->scale = static_cast<int>(getnumber(column(line, 143)));
+            entry->len = static_cast<unsigned>(getnumber(column(line, 149)));
 
             // Ignore the BUFR part: since it can have a different measurement
             // unit, we cannot really use that information. It will just mean
-- 
2.43.0


From 02e3cb7615584b4199aae60313d328bdfce9ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:26 +0000
Subject: [PATCH 61/61] fix: exit with an error when wrep-importtable fails

---
 src/wrep-importtable | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrep-importtable b/src/wrep-importtable
index bbd31af..b7488a2 100755
--- a/src/wrep-importtable
+++ b/src/wrep-importtable
@@ -309,3 +309,4 @@ if __name__ == "__main__":
         sys.exit(1)
     except Exception:
         log.exception("uncaught exception")
+        sys.exit(1)
-- 
2.43.0

