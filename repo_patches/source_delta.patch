From ebc9f07f352fc61798eae063a9aee0c27ca9f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 01/44] fix: encode the master table number in BUFR edition 4
 section 1

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..c465c54 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From bbc7bcb5ca2f2f2e578793a813dfbe86fa91b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 02/44] fix: do not read past the end of the BUFR message when
 a bit field is truncated

---
 wreport/bufr/input.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..e392057 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -166,9 +166,6 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
-
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
         // starts at 0x80 and is shifted right by 1 at each read until it
@@ -177,6 +174,8 @@ public:
         {
             if (pbyte_len == 0)
             {
+                if (s4_cursor >= data_len)
+                    parse_error("end of buffer while looking for %u bits of bit-packed data", n);
                 pbyte_len = 8;
                 pbyte = data[s4_cursor++];
             }
@@ -195,13 +194,12 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
-
         for (unsigned i = 0; i < n; i++)
         {
             if (pbyte_len == 0)
             {
+                if (s4_cursor >= data_len)
+                    parse_error("end of buffer while looking for %u bits of bit-packed data", n);
                 pbyte_len = 8;
                 pbyte = data[s4_cursor++];
             }
-- 
2.43.0


From 0506ef6addfb0108bc08e22f8f0aae057015732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:31 +0000
Subject: [PATCH 03/44] fix: encode missing values longer than 32 bits as all
 ones

---
 wreport/buffers/bufr.cc | 2 +-
 wreport/buffers/bufr.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..e99648d 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -39,7 +39,7 @@ BufrOutput::BufrOutput(std::string& out)
 void BufrOutput::add_bits(uint32_t val, int n)
 {
     /* Mask for reading data out of val */
-    uint32_t mask = 1 << (n - 1);
+    uint32_t mask = n > 0 ? (uint32_t)1 << (n - 1) : 0;
     int i;
 
     for (i = 0; i < n; i++) 
diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From 4f936f90e0fe1c62b7ec5ce558b4d2f35d5f84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:42 +0000
Subject: [PATCH 04/44] fix: reject BUFR bit fields too wide for the integers
 that hold them

---
 wreport/bufr/input.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index e392057..2be4262 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -166,6 +166,9 @@ public:
     {
         uint32_t result = 0;
 
+        if (n > 32)
+            parse_error("cannot decode a field of %u bits: only up to 32 bits are supported", n);
+
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
         // starts at 0x80 and is shifted right by 1 at each read until it
-- 
2.43.0


From 529ac129b4e73e2da007ffc39019b50462830bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:24 +0000
Subject: [PATCH 05/44] fix: do not wrap doubles that do not fit an int when
 setting an integer Var

---
 wreport/var.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..5401cd2 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -9,6 +9,7 @@
 #include <cstring>
 #include <cctype>
 #include <cmath>
+#include <cstdint>
 #include <iostream>
 
 using namespace std;
@@ -534,7 +535,14 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+            if (val >= INT32_MIN && val <= INT32_MAX)
+                assign_i_checked(static_cast<int>(lround(val)));
+            else
+                // NaN, or a value that does not fit in an int: it is always
+                // out of range
+                assign_d_checked(val);
+            break;
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From 39990caab32abc8c5cc52b627d8b91888739369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 06/44] fix: report numeric strings that do not fit an int as
 domain errors instead of wrapping them

---
 wreport/var.cc | 21 ++++++++++++++-------
 wreport/var.h  |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 5401cd2..06ff10c 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -76,11 +76,17 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+// Numbers too big for a int32_t saturate to a value that does not fit in a
+// int32_t
+int64_t str_to_unsigned(const char *str)
 {
-    unsigned val = 0;
+    int64_t val = 0;
     while (*str)
+    {
         val = val * 10 + (*str++ - '0');
+        if (val > UINT32_MAX)
+            val = UINT32_MAX;
+    }
     return val;
 }
 
@@ -402,7 +408,7 @@ std::string Var::enqs() const
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
 }
 
-void Var::assign_i_checked(int32_t val)
+void Var::assign_i_checked(int64_t val)
 {
     // Guard against overflows
     if (val < m_info->imin || val > m_info->imax)
@@ -418,15 +424,16 @@ void Var::assign_i_checked(int32_t val)
                 val = m_info->imax;
             // flow continues to setting value
         } else if (options::var_hook_domain_errors) {
-            options::var_hook_domain_errors->handle_domain_error_int(*this, val);
+            options::var_hook_domain_errors->handle_domain_error_int(
+                *this, static_cast<int32_t>(max<int64_t>(INT32_MIN, min<int64_t>(INT32_MAX, val))));
             return;
         } else {
             unset();
-            error_domain::throwf("Value %i is outside the range [%i,%i] for %01d%02d%03d (%s)",
-                    (int)val, m_info->imin, m_info->imax, WR_VAR_FXY(m_info->code), m_info->desc);
+            error_domain::throwf("Value %lld is outside the range [%i,%i] for %01d%02d%03d (%s)",
+                    (long long)val, m_info->imin, m_info->imax, WR_VAR_FXY(m_info->code), m_info->desc);
         }
     }
-    m_value.i = val;
+    m_value.i = static_cast<int32_t>(val);
     m_isset = true;
 }
 
diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..0b48e86 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -56,7 +56,7 @@ protected:
     void copy_value(const Var& var);
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
     void move_value(Var& var);
-    void assign_i_checked(int32_t val);
+    void assign_i_checked(int64_t val);
     void assign_d_checked(double val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
-- 
2.43.0


From 480f95849c0d82be83c7c6fe50869890d986ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:03 +0000
Subject: [PATCH 07/44] fix: assigning a Var also takes its info and releases
 the old value according to the old info

---
 wreport/var.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 06ff10c..f716672 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -10,6 +10,7 @@
 #include <cctype>
 #include <cmath>
 #include <cstdint>
+#include <utility>
 #include <iostream>
 
 using namespace std;
@@ -157,24 +158,20 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // Copy first, so that the current value is disposed of according to the
+    // current info, and var can also be one of our attributes
+    return *this = Var(var);
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
-    move_value(var);
-    delete m_attrs;
-    m_attrs = var.m_attrs;
-    var.m_attrs = nullptr;
+    // The previous contents end up in tmp, with the info that describes them
+    Var tmp(std::move(var));
+    std::swap(m_info, tmp.m_info);
+    std::swap(m_isset, tmp.m_isset);
+    std::swap(m_value, tmp.m_value);
+    std::swap(m_attrs, tmp.m_attrs);
     return *this;
 }
 
-- 
2.43.0


From 4a77dd0151881c9af60abd8bb825e992d6b378ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:15 +0000
Subject: [PATCH 08/44] fix: move, not copy, the attribute in Var::seta(Var&&),
 as documented

---
 wreport/var.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index f716672..daff468 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -649,7 +649,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(std::move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
-- 
2.43.0


From b516014df16bc211f37401e592c7c2e9a89ec859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:51 +0000
Subject: [PATCH 09/44] fix: do not compare the values of variables of
 different types as if they were of the same type

---
 wreport/var.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index daff468..69f594f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -255,12 +255,14 @@ bool Var::value_equals(const Var& var) const
 {
     if (!m_isset && !var.m_isset) return true;
     if (!m_isset || !var.m_isset) return false;
+    if (m_info->type != var.m_info->type) return false;
 
     // Compare value
     switch (m_info->type)
     {
         case Vartype::Binary:
-            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
+            return m_info->bit_len == var.m_info->bit_len
+                && memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
             return strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
-- 
2.43.0


From 915bee0f7bfb0ee88f4f5925e06ee2e48a8e4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:51 +0000
Subject: [PATCH 10/44] fix: compare the attributes of unset variables in
 Var::diff

---
 wreport/var.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 69f594f..762922e 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -838,26 +838,26 @@ unsigned Var::diff(const Var& var) const
         return 1;
     }
     if (!isset() && !var.isset())
-        return 0;
-    if (!isset())
+        ; // Only the attributes can differ
+    else if (!isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
                 WR_VAR_FXY(code()), m_info->desc, var.enqc());
         return 1;
     }
-    if (!var.isset())
+    else if (!var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is %s, second value is NULL\n",
                 WR_VAR_FXY(code()), m_info->desc, enqc());
         return 1;
     }
-    if (m_info->type != var.m_info->type)
+    else if (m_info->type != var.m_info->type)
     {
         notes::logf("[%d%02d%03d %s] first variable has type %s, second has type %s\n",
                 WR_VAR_FXY(code()), m_info->desc, vartype_format(m_info->type), vartype_format(var.m_info->type));
         return 1;
     }
-    switch (m_info->type)
+    else switch (m_info->type)
     {
         case Vartype::Binary:
             if (m_info->bit_len != var.info()->bit_len)
-- 
2.43.0


From 13ece8a4735b25fe122ed5c78f0752e67b27769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 11/44] fix: do not read past the end of binary values in enqs,
 enqc and setval

---
 wreport/var.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 762922e..8f3dda5 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -203,8 +203,11 @@ bool Var::operator==(const Var& var) const
 
 void Var::allocate()
 {
-    if (!m_value.c && !(m_value.c = new char[m_info->len + 1]))
-        throw error_alloc("allocating space for Var value");
+    if (m_value.c) return;
+    m_value.c = new char[m_info->len + 1];
+    // Binary values can use the whole buffer: make sure they are always
+    // terminated, since they can also be accessed with enqc
+    m_value.c[m_info->len] = 0;
 }
 
 void Var::copy_value(const Var& var)
@@ -398,8 +401,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -712,7 +716,14 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary:
+        {
+            // The source can be shorter than the destination
+            const char* val = src.enqc();
+            size_t size = src.info()->type == Vartype::Binary ? src.info()->len : strlen(val);
+            assign_b_checked(reinterpret_cast<const uint8_t*>(val), static_cast<unsigned>(size));
+            break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From 0df5466e6947f8b71c833a55b5b8e92addd38e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:35 +0000
Subject: [PATCH 12/44] fix: initialize the whole value of a new Var, buffer
 pointer included

---
 wreport/var.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 0b48e86..03b8463 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -42,8 +42,10 @@ protected:
      * bits are the binary value, and the rest is set to 0.
      */
     union {
-        int32_t i;
+        // First, so that it is the one that m_value{} initializes: the buffer
+        // pointer is looked at also when the variable is not set
         char* c;
+        int32_t i;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From 3dd5b30eb05c85e954fd40e1ca5d4f2ef74158af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:01 +0000
Subject: [PATCH 13/44] fix: compute the range of definitions of 31 and 32
 bits, and of replication factors, without wrapping around

---
 wreport/varinfo.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..137624b 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -192,7 +192,7 @@ void _Varinfo::compute_range()
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
                 int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
+                int64_t bit_max = (static_cast<int64_t>(1) << bit_len) + bit_ref;
                 // We subtract 2 because 2^bit_len-1 is the
                 // BUFR missing value.
                 // We cannot subtract 2 from the delayed replication
@@ -202,13 +202,15 @@ void _Varinfo::compute_range()
                 // disallow it here we cannot import radars anymore.
                 if (WR_VAR_X(code) != 31)
                     bit_max -= 2;
+                else
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
                 int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
                 int dec_max = static_cast<int>((intexp10(len) - 2.0));
 
                 imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imax = static_cast<int>(min<int64_t>(bit_max, dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From c41c7456f6684fdc81241dc9dee9294471667029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:12 +0000
Subject: [PATCH 14/44] fix: report values that do not fit in their binary
 field instead of truncating them

---
 wreport/varinfo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 137624b..94ce1c9 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -294,6 +294,10 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    // All bits set to 1 mean a missing value, except for delayed replication factors
+    if (!(res <= ldexp(1.0, bit_len) - (WR_VAR_X(code) == 31 ? 1 : 2)))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoded value %f does not fit",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 287bb42390d9f4dc54838af68522b799d462937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:34 +0000
Subject: [PATCH 15/44] fix: recognise missing text and binary values whose
 last byte is partial

---
 wreport/bufr/input.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..970db3e 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -259,7 +259,7 @@ bool Input::decode_string(unsigned bit_len, char* str, size_t& len)
         int count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff && bitval != 0)
+        if (bitval != all_ones(count) && bitval != 0)
             missing = false;
         str[len++] = bitval;
         toread -= count;
@@ -306,7 +306,7 @@ void Input::decode_binary(Var& dest)
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        if (bitval != all_ones(count))
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From 685b6c5ef11b49586159dbf055543363246eebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:36 +0000
Subject: [PATCH 16/44] fix: associated field of a compressed value leaked to
 the next subsets when theirs is missing

---
 wreport/bufr/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 2be4262..d82c30c 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -34,7 +34,7 @@ struct DispatchToSubsets
     }
     void add_var(unsigned subset, Var&& var)
     {
-        out.subsets[subset].store_variable(var);
+        out.subsets[subset].store_variable(std::move(var));
     }
 };
 
-- 
2.43.0


From 69692909c5fa5e193bc050fcd065eaf4330e07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 17/44] fix: compare the BUFR master table version in
 CrexBulletin::diff

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..3b1dd97 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -594,7 +594,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From 4d4227301233bd473984272ddfc1d3a1c803b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 18/44] fix: initialise BufrBulletin::compression

---
 wreport/bulletin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From 78999f4446790654e1021e989ed5740d4cf6f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 19/44] fix: reset section_end in BufrBulletin::clear

---
 wreport/bulletin.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 3b1dd97..83467e3 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -336,6 +336,8 @@ void BufrBulletin::clear()
     master_table_version_number_local = 0;
     compression = false;
     optional_section.clear();
+    for (auto& end: section_end)
+        end = 0;
 }
 
 void BufrBulletin::load_tables()
-- 
2.43.0


From d5a50d7b056f48a608b2131744ae1aeb8374fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 20/44] fix: apply C01, C02 and C07 only to numeric elements

---
 wreport/bulletin/interpreter.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..e17a15b 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // C01, C02 and C07 only apply to numeric elements: not to strings, code
+    // tables or flag tables
+    bool numeric = peek->type != Vartype::String
+        && strcmp(peek->unit, "CODE TABLE") != 0
+        && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (numeric && c_scale_change)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +105,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (numeric && c_width_change)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (numeric && c_scale_ref_width_increase)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From 4b9e43c13cf884162c1ab214f8589eba963ea9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 21/44] fix: reject C07 increases that do not fit a reference
 value

---
 wreport/bulletin/interpreter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index e17a15b..644dfaf 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -310,6 +310,8 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
              *     remainder and add the result to the existing bit width.
              */
             int change = WR_VAR_Y(code);
+            if (change > 9)
+                error_unimplemented::throwf("C07 modifier wants an increase of %d but only at most 9 is supported", change);
             TRACE("Increase scale, reference value and data width by %d\n", change);
             c_scale_ref_width_increase = change;
             break;
-- 
2.43.0


From f1b1510fc01d15c943ee8990cded55cdcc5e329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 22/44] fix: C03000 cancels redefined reference values

---
 wreport/bulletin/interpreter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 644dfaf..7cd52ba 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -218,6 +218,9 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
                 // B codes now store overridden reference values
                 // Overridden reference values must then be used when those B codes are found again
                 c03_refval_override_bits = bits;
+                // C03000 cancels the redefined reference values
+                if (bits == 0)
+                    c03_refval_overrides.clear();
             }
             break;
         }
-- 
2.43.0


From c717327825cd1beabe9166cb1354aa95badebdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 23/44] fix: out of bounds access in Opcodes::operator[]

---
 wreport/opcodes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..1a44599 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (begin + i >= end)
             return 0;
         else
             return begin[i];
-- 
2.43.0


From 095d0eb5a4b82ec0de39287badeda4fbfd6feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 24/44] fix: dangling pointer when a bitmap definition fails

---
 wreport/bulletin/bitmaps.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..c8b4362 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -95,6 +95,7 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
     delete current;
+    current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
 }
 
-- 
2.43.0


From 555fac75d07a32c48abb0da82fcde5aebf8e2901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 25/44] fix: do not iterate a bitmap with no items present

---
 wreport/bulletin/bitmaps.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index c8b4362..d34fa39 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -97,6 +97,13 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_po
     delete current;
     current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
+    // A bitmap with no items present has nothing to iterate
+    if (current->eob())
+    {
+        delete last;
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::reuse_last()
@@ -107,7 +114,13 @@ void Bitmaps::reuse_last()
     delete current;
     current = last;
     last = nullptr;
-    if (current) current->reuse();
+    if (!current) return;
+    current->reuse();
+    if (current->eob())
+    {
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::discard_last()
-- 
2.43.0


From 639129abca805d96cd7b8244e61311cff217cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 26/44] fix: C03 redefinition of a reference value to zero

__builtin_clz(0) is undefined: the number of bits needed by a zero reference
value depended on what the compiler made of it.
---
 wreport/bufr_encoder.cc           | 2 +-
 wreport/bulletin/dds-validator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c465c54..b583929 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -132,7 +132,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             encoded |= 1 << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..35776da 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -112,7 +112,7 @@ void DDSValidator::define_c03_refval_override(Varcode code)
         encoded |= 1 << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
-- 
2.43.0


From a547ff32cc8ecfc1bbf96b02a202d0833de4cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 27/44] fix: endless loop on malformed CREX data descriptor
 sections

Any unexpected character, or the end of the message, made decode_header loop
forever.
---
 wreport/crex_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..a479dbe 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -83,6 +83,7 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("data descriptor or end of data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
@@ -104,6 +105,8 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character '%c' in data descriptor section", *in.cur);
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From 3ddae1ea2afe83c408238b744586f55333e48f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 28/44] fix: decode CREX messages with an optional section

The end marker of the optional section was not skipped, and then taken for
unexpected data.
---
 wreport/crex_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index a479dbe..075c86f 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -212,7 +212,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From 3b9a361142642fbe50bc7b0c902a8fb3948b0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 29/44] fix: CREX category and subcategory from 128 up were
 encoded as negative numbers

---
 wreport/crex_encoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..4db0f5f 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -80,13 +80,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
 {
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From e77aae62571f0790b8eba136cb282c37f213ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 30/44] fix: encode CREX check digits

has_check_digit was ignored by the encoder, and missing values had neither the
separator nor the check digit.
---
 wreport/buffers/crex.cc | 2 ++
 wreport/crex_encoder.cc | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..fba7ffe 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -197,6 +197,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 4db0f5f..06837a9 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -77,7 +77,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
@@ -131,6 +131,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
-- 
2.43.0


From 02eba27f7e8cbdee4fa7a49edfcea03c5d5c2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 31/44] fix: read past the end of the buffer formatting CREX
 values longer than 255 characters

---
 wreport/buffers/crex.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index fba7ffe..11980d9 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -179,10 +179,21 @@ void CrexOutput::raw_appendf(const char* fmt, ...)
     char sbuf[256];
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vsnprintf(sbuf, 256, fmt, ap);
     va_end(ap);
 
-    buf.append(sbuf, len);
+    if (len < 256)
+    {
+        buf.append(sbuf, len);
+        return;
+    }
+
+    // It does not fit: format again in a buffer that is large enough
+    string lbuf(len + 1, 0);
+    va_start(ap, fmt);
+    vsnprintf(&lbuf[0], len + 1, fmt, ap);
+    va_end(ap);
+    buf.append(lbuf, 0, len);
 }
 
 void CrexOutput::encode_check_digit()
-- 
2.43.0


From b42e75760d7c4793ebb1e5677bd66451edb7ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:40 +0000
Subject: [PATCH 32/44] fix: read and write CREX delayed replication factors as
 4 digits

The encoder wrote 4 digits, or the width in the tables for B31000, and the
decoder read the width in the tables for B31012, which also took the end of
subset marker after a factor of zero.
---
 wreport/crex_decoder.cc | 10 ++++++----
 wreport/crex_encoder.cc | 33 ++++++++++-----------------------
 2 files changed, 16 insertions(+), 27 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 075c86f..a9abb72 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -132,7 +132,7 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    uint32_t read_variable(Varinfo info, unsigned len)
     {
         uint32_t res = 0xffffffff;
 
@@ -142,7 +142,7 @@ struct CrexParser : public bulletin::Interpreter
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -168,12 +168,14 @@ struct CrexParser : public bulletin::Interpreter
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // CREX represents delayed replication factors with 4 digits,
+        // regardless of their table B entry
+        return read_variable(info, 4);
     }
 };
 
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 06837a9..e21181b 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -51,29 +51,16 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_semantic_var ");
             var.print(stderr);
         }
-        switch (info->code)
-        {
-            case WR_VAR(0, 31, 1):
-            case WR_VAR(0, 31, 2):
-            case WR_VAR(0, 31, 11):
-            case WR_VAR(0, 31, 12):
-            {
-                unsigned count = var.enqi();
-
-                /* Encode the repetition count */
-                ob.raw_append(" ", 1);
-                ob.encode_check_digit();
-                ob.raw_appendf("%04u", count);
-
-                return count;
-            }
-            default:
-                ob.append_var(info, var);
-                if (var.isset())
-                    return var.enqi();
-                else
-                    return 0xffffffff;
-        }
+        unsigned count = var.enqi();
+        if (count > 9999)
+            error_consistency::throwf("delayed replication factor %u does not fit in the 4 digits used by CREX", count);
+
+        /* Encode the repetition count */
+        ob.raw_append(" ", 1);
+        ob.encode_check_digit();
+        ob.raw_appendf("%04u", count);
+
+        return count;
     }
 };
 
-- 
2.43.0


From 8e0b66ed773a4ef32268b54d87c576f28ec866a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:41 +0000
Subject: [PATCH 33/44] fix: decode CREX messages with more than one subset

The line break after the end of subset marker was taken for the first value of
the next subset.
---
 wreport/crex_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index a9abb72..d13b1df 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -204,6 +204,9 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+
+        // Go to the first value of the next subset
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 2747c842c83367bf2d7f195d8fe7a863543f30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:56 +0000
Subject: [PATCH 34/44] fix: count of descriptors in CREX replications of
 delayed replications

Delayed replication factors are left out of CREX data descriptor sections, but
they were still counted by the replications around them.
---
 wreport/crex_encoder.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index e21181b..303ace4 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -64,6 +64,12 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
+/// Check if a descriptor is a delayed replication factor, which is implicit in CREX
+bool is_implicit(Varcode code)
+{
+    return WR_VAR_F(code) == 0 && WR_VAR_X(code) == 31 && WR_VAR_Y(code) < 3;
+}
+
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
@@ -96,10 +102,22 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         }
 
         // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
+        if (is_implicit(*i))
             continue;
 
-        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
+        unsigned x = WR_VAR_X(*i);
+        if (WR_VAR_F(*i) == 1)
+        {
+            // The descriptors left out do not count in the replicated group
+            vector<Varcode>::const_iterator g = i + 1;
+            if (WR_VAR_Y(*i) == 0 && g != in.datadesc.end() && WR_VAR_F(*g) == 0 && WR_VAR_X(*g) == 31)
+                ++g;
+            for (unsigned n = 0; n < WR_VAR_X(*i) && g != in.datadesc.end(); ++n, ++g)
+                if (is_implicit(*g))
+                    --x;
+        }
+
+        out.raw_appendf(" %c%02u%03d", prefix, x, WR_VAR_Y(*i));
     }
 
     if (out.has_check_digit)
-- 
2.43.0


From 8364b0a1a442906a277a0442101528562ad11368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:40 +0000
Subject: [PATCH 35/44] fix: find messages whose signature follows a partial
 match of it

---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 83467e3..9e5449e 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,7 +28,8 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // The mismatched character may itself start the signature
+            got = c == sig[0] ? 1 : 0;
     }
 
     if (errno != 0)
-- 
2.43.0


From f45e5c8417343fb59a967fd318cf21c7201cbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:40 +0000
Subject: [PATCH 36/44] fix: find the end of CREX messages after a partial
 match of it

---
 wreport/bulletin.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 9e5449e..87cae70 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -646,6 +646,10 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // The mismatched character may itself start the end marker:
+                // in a longer run of '+', the last two count
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From ce7f3ea0e5c35f8aa8ec600d67c3281cf1cb6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:40 +0000
Subject: [PATCH 37/44] fix: the inverse of a linear unit conversion also
 scales the offset

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From 4982534c95c5fd8550425e8891942d3fb7268224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:51 +0000
Subject: [PATCH 38/44] fix: a nanobar is 0.0001 pascal

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..4b68df7 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0 );
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From 0236552f365af238e280c3ea164828da20fcf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 39/44] fix: find D table sequences in table files that are not
 sorted

---
 wreport/dtable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..b823086 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "error.h"
 #include "internals/tabledir.h"
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -123,6 +124,10 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Entries are looked up by binary search, but not all table files are
+        // sorted
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From fd2601384cd81841cabd43b490a4fc8226955aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:24 +0000
Subject: [PATCH 40/44] fix: terminate descriptions and units that fill their
 table column

---
 wreport/vartable.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..ce5bd40 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -347,16 +347,16 @@ struct BufrVartable : public VartableBase
             // Append a new entry;
             _Varinfo* entry = obtain(line_no, WR_STRING_TO_VAR(line + 2));
 
-            // Read the description
-            memcpy(entry->desc, line+8, 64);
+            // Read the description, leaving room for the trailing zero
+            memcpy(entry->desc, line+8, 63);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the unit
-            memcpy(entry->unit, line+73, 24);
+            memcpy(entry->unit, line+73, 23);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
@@ -428,16 +428,16 @@ struct CrexVartable : public VartableBase
             // Append a new entry;
             _Varinfo* entry = obtain(line_no, code);
 
-            // Read the description
-            memcpy(entry->desc, line+8, 64);
+            // Read the description, leaving room for the trailing zero
+            memcpy(entry->desc, line+8, 63);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the CREX unit
-            memcpy(entry->unit, line+119, 24);
+            memcpy(entry->unit, line+119, 23);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
-- 
2.43.0


From 94453a7eeed01279a55dd6efc61d66a044bddf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:36 +0000
Subject: [PATCH 41/44] fix: refuse variable codes with fewer than five digits

varcode_parse went on past the end of a string shorter than 6 characters,
reading memory after it
---
 wreport/varinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 94ce1c9..89e7882 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -84,7 +84,7 @@ Varcode varcode_parse(const char* entry)
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From 7d9e2139258ab38a62dbdb7600f167e5b82bf34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:38 +0000
Subject: [PATCH 42/44] fix: Var::format kept only the first 19 characters of a
 formatted number

Operators can change the scale of a variable by up to 127: format() cut the text
of the value at 19 characters, giving a different value (or 0.00...).
---
 wreport/var.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 8f3dda5..142c21f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -759,9 +759,12 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
-            return buf;
+            const int decimals = i->scale > 0 ? i->scale : 0;
+            const double val = enqd();
+            // The size depends on the scale, which operators can make very big
+            string res(snprintf(nullptr, 0, "%.*f", decimals, val), 0);
+            snprintf(&res[0], res.size() + 1, "%.*f", decimals, val);
+            return res;
         }
     }
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
-- 
2.43.0


From 6aeb6076d0ee7c67733de6fb3a8652ac8329303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:16 +0000
Subject: [PATCH 43/44] fix: let different operators and local descriptors
 share a bitmap or a width

Tables::get_bitmap and get_unknown kept the definitions they made by
bitmap or by width only, and threw error_consistency when the same bitmap
was used with another operator, or when two local descriptors had the
same width.
---
 wreport/tables.cc | 22 ++++++++--------------
 wreport/tables.h  |  5 +++--
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..6a00175 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,13 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    // Different operators can use the same bitmap
+    auto key = make_pair(code, bitmap);
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +109,13 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    // Different descriptors can have the same length
+    auto key = make_pair(code, bit_len);
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
diff --git a/wreport/tables.h b/wreport/tables.h
index 643f6d6..163a04b 100644
--- a/wreport/tables.h
+++ b/wreport/tables.h
@@ -5,6 +5,7 @@
 #include <wreport/fwd.h>
 #include <map>
 #include <string>
+#include <utility>
 
 namespace wreport {
 
@@ -18,11 +19,11 @@ struct Tables
     /// DTable used to lookup D table codes
     const DTable* dtable;
     /// Storage for temporary Varinfos for bitmaps
-    mutable std::map<std::string, _Varinfo> bitmap_table;
+    mutable std::map<std::pair<Varcode, std::string>, _Varinfo> bitmap_table;
     /// Storage for temporary Varinfos for arbitrary character data
     mutable std::map<Varcode, _Varinfo> chardata_table;
     /// Storage for temporary Varinfos for C06 unknown local descriptors
-    mutable std::map<unsigned, _Varinfo> unknown_table;
+    mutable std::map<std::pair<Varcode, unsigned>, _Varinfo> unknown_table;
 
     Tables();
     Tables(const Tables&) = delete;
-- 
2.43.0


From f89ee8fa4d9a81cf3c9d6157a02cbc9ab9366358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 44/44] fix: Subset::append_dpb reads past the end of the
 subset

When the subset has fewer data variables than the size of the bitmap, or
ends with variables that are not data, append_dpb looked for attributes
past its last variable, and left part of the bitmap uninitialised.
---
 wreport/subset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..2bf856d 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -94,6 +94,8 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
+        if (src == this->size())
+            break;
 
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
@@ -104,6 +106,10 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
 			++count;
 		}
 	}
+
+    // There is no attribute past the end of the subset
+    for ( ; dst < size; ++dst)
+        bitmap[dst] = '-';
 	bitmap[size] = 0;
 
 	// Append the bitmap to the message
-- 
2.43.0

