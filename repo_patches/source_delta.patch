From 992183a2ba739fa1cd3cd75cb724907db40c1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 01/22] fix: do not shift past the integer width when decoding
 overlong varints

---
 arki/core/binary.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/core/binary.h b/arki/core/binary.h
index 2673642..8e6f2b1 100644
--- a/arki/core/binary.h
+++ b/arki/core/binary.h
@@ -360,7 +360,10 @@ struct BinaryDecoder
         // protbuf's varint implementation
         val = 0;
 
-        for (size_t count = 0; count < size && count < sizeof(val) + 2; ++count)
+        // Maximum number of 7-bit groups that can be found in a T
+        const size_t max_count = (sizeof(val) * 8 + 6) / 7;
+
+        for (size_t count = 0; count < size && count < max_count; ++count)
         {
             val |= ((T)buf[count] & 0x7F) << (7 * count);
             if ((buf[count] & 0x80) == 0)
-- 
2.43.0


From e449e732af77cb7ab78c626a1f1b02c86dc2bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 02/22] fix: check that a metadata bundle is not truncated
 before decoding its body

---
 arki/core/binary.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..f36be3f 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -100,6 +100,8 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
 
+    ensure_size(len, "body of metadata bundle");
+
     BinaryDecoder res(buf, len);
 
     // Move to the end of the inner data
-- 
2.43.0


From d7c87061b4dea641ae0e34fe90dfdc5d41885bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 03/22] fix: compare time ranges without overflowing

---
 arki/types/timerange.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..18a13f8 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1367,9 +1367,11 @@ int GRIB2::compare_local(const GRIB2& o) const
         return res;
     if (int res = un - vun)
         return res;
-    if (int res = p1 - vp1)
-        return res;
-    return p2 - vp2;
+    if (p1 != vp1)
+        return p1 < vp1 ? -1 : 1;
+    if (p2 != vp2)
+        return p2 < vp2 ? -1 : 1;
+    return 0;
 }
 
 std::ostream& GRIB2::writeToOstream(std::ostream& o) const
@@ -1453,7 +1455,7 @@ bool Timedef::equals(const Type& o) const
         bool is2 = timeunit_conversion(vstep_unit, timemul2);
         if (is1 != is2)
             return false;
-        if (step_len * timemul1 != vstep_len * timemul2)
+        if ((uint64_t)step_len * timemul1 != (uint64_t)vstep_len * timemul2)
             return false;
     }
 
@@ -1474,7 +1476,7 @@ bool Timedef::equals(const Type& o) const
         bool is2 = timeunit_conversion(vstat_unit, timemul2);
         if (is1 != is2)
             return false;
-        if (stat_len * timemul1 != vstat_len * timemul2)
+        if ((uint64_t)stat_len * timemul1 != (uint64_t)vstat_len * timemul2)
             return false;
     }
 
@@ -1503,8 +1505,10 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = step_len * timemul1 - vstep_len * timemul2)
-            return res;
+        uint64_t len1 = (uint64_t)step_len * timemul1;
+        uint64_t len2 = (uint64_t)vstep_len * timemul2;
+        if (len1 != len2)
+            return len1 < len2 ? -1 : 1;
     }
 
     // Compare type of statistical processing
@@ -1526,8 +1530,10 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = stat_len * timemul1 - vstat_len * timemul2)
-            return res;
+        uint64_t len1 = (uint64_t)stat_len * timemul1;
+        uint64_t len2 = (uint64_t)vstat_len * timemul2;
+        if (len1 != len2)
+            return len1 < len2 ? -1 : 1;
     }
 
     return 0;
@@ -1897,10 +1903,12 @@ int BUFR::compare_local(const BUFR& o) const
 
     if (int res = (is_seconds(un) ? 0 : 1) - (o.is_seconds(vun) ? 0 : 1))
         return res;
-    if (is_seconds(un))
-        return seconds(un, va) - o.seconds(vun, vva);
-    else
-        return months(un, va) - o.months(vun, vva);
+    unsigned len1 = is_seconds(un) ? seconds(un, va) : months(un, va);
+    unsigned len2 =
+        o.is_seconds(vun) ? o.seconds(vun, vva) : o.months(vun, vva);
+    if (len1 != len2)
+        return len1 < len2 ? -1 : 1;
+    return 0;
 }
 
 std::ostream& BUFR::writeToOstream(std::ostream& o) const
-- 
2.43.0


From 4c0022a221daaa33567d43f38cdc67dd25ea719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 04/22] fix: do not look up item decoders outside the table of
 registered types

---
 arki/types/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/types/utils.cc b/arki/types/utils.cc
index 813a55d..fe70341 100644
--- a/arki/types/utils.cc
+++ b/arki/types/utils.cc
@@ -47,7 +47,8 @@ void MetadataType::register_type(MetadataType* type)
 
 const MetadataType* MetadataType::get(types::Code code)
 {
-    if (!decoders || decoders[code] == 0)
+    if (!decoders || static_cast<size_t>(code) >= decoders_size ||
+        decoders[code] == 0)
     {
         stringstream ss;
         ss << "cannot parse binary data: no decoder found for item type "
-- 
2.43.0


From c7334d50589328137c2c74e0c1a414aaa3198e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 05/22] fix: reject encoded integers longer than 32 bits when
 decoding key=value lists

---
 arki/types/values.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index ef47a35..78930ce 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -231,7 +231,11 @@ int decode_number(core::BinaryDecoder& dec, uint8_t lead)
         case ENC_NUM_INTEGER: {
             // Sign in the next bit.  Number of bytes in the next 3 bits.
             unsigned nbytes = (lead & 0x7) + 1;
-            unsigned val    = dec.pop_uint(nbytes, "integer number value");
+            if (nbytes > 4)
+                throw std::runtime_error(
+                    "cannot decode value: the integer number value to decode "
+                    "does not fit in 32 bits");
+            unsigned val = dec.pop_uint(nbytes, "integer number value");
             return (lead & 0x8) ? -val : val;
         }
         case ENC_NUM_FLOAT:
-- 
2.43.0


From 2aa0d037d22c94524f1c1271588054d0a00d74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 06/22] fix: compare integer values without overflowing

---
 arki/types/values.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index 78930ce..8424fa4 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -350,7 +350,8 @@ public:
             return res;
         switch (type_id())
         {
-            case 1: return as_int() - v.as_int();
+            case 1:
+                return as_int() < v.as_int() ? -1 : as_int() > v.as_int() ? 1 : 0;
             case 2: return as_string().compare(v.as_string());
             default:
                 throw std::runtime_error(
-- 
2.43.0


From d69eb00ff6e03abcf27b62a0f566f51460a47995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 07/22] fix: refuse to encode values that do not fit the
 key=value list encoding

---
 arki/types/values.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index 8424fa4..b272871 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -169,6 +169,17 @@ static const int ENC_NUM_UNUSED = 2; // Unused.  Leave to 0.
 static const int ENC_NUM_EXTENDED =
     3; // Extension flag.  Type is given in the next 4 bits.
 
+/// Encode the name of a value
+static void encode_name(core::BinaryEncoder& enc, const std::string& name)
+{
+    if (name.size() > 255)
+        throw std::runtime_error("cannot encode value: the name is " +
+                                 std::to_string(name.size()) +
+                                 " bytes long, and the maximum is 255");
+    enc.add_unsigned(name.size(), 1);
+    enc.add_raw(name);
+}
+
 void encode_int(core::BinaryEncoder& enc, int value)
 {
     if (value >= -32 && value < 31)
@@ -190,7 +201,7 @@ void encode_int(core::BinaryEncoder& enc, int value)
         {
             // Sign bit
             lead |= 0x8;
-            encoded = -value;
+            encoded = -static_cast<unsigned>(value);
         }
         else
             encoded = value;
@@ -423,10 +434,8 @@ public:
 
     void encode(core::BinaryEncoder& enc) const override
     {
-        // Key length
-        enc.add_unsigned(m_name.size(), 1);
-        // Key
-        enc.add_raw(m_name);
+        // Key length and key
+        encode_name(enc, m_name);
         encode_int(enc, m_value);
     }
 
@@ -460,12 +469,14 @@ public:
 
     void encode(core::BinaryEncoder& enc) const override
     {
-        // Key length
-        enc.add_unsigned(m_name.size(), 1);
-        // Key
-        enc.add_raw(m_name);
+        // Key length and key
+        encode_name(enc, m_name);
 
         // Type and value length
+        if (m_value.size() > 0x3f)
+            throw std::runtime_error("cannot encode value: the string is " +
+                                     std::to_string(m_value.size()) +
+                                     " bytes long, and the maximum is 63");
         uint8_t type = ENC_NAME << 6;
         type |= m_value.size() & 0x3f;
         enc.add_byte(type);
-- 
2.43.0


From ffbdf8c903c50323d2fcb9718334739f3448d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 08/22] fix: timerange:Timedef matchers ignored the fields
 after a step or duration of -

---
 arki/matcher/timerange.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..1af26b0 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -470,8 +470,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
-- 
2.43.0


From b992e3e8562c6d67aec6fb5709b773f89ba11314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 09/22] fix: the time interval of alternative reference times
 spans all of them

reftime:=A or =B was taken as the intersection of the alternatives, so it
pruned all the data.
---
 arki/matcher/utils.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..5f7fcc2 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,15 +194,31 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Any of the alternatives can match: the result needs to span all of them
+    core::Interval res;
+    bool found = false;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval alternative(interval);
+        if (!rt->intersect_interval(alternative))
+            continue;
+        if (found)
+            res.extend(alternative);
+        else
+        {
+            res   = alternative;
+            found = true;
+        }
     }
-    return true;
+    if (found)
+        interval = res;
+    return found;
 }
 
 std::string OR::toReftimeSQL(const std::string& column) const
-- 
2.43.0


From 5cf5fb9f1287103ca979d246a36e4f82659a265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 10/22] fix: a time step of zero in a reftime expression
 crashed with a division by zero

---
 arki/matcher/reftime/parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..2d4fbe7 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -4,6 +4,7 @@
 #include <memory>
 #include <set>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 using arki::core::FuzzyTime;
@@ -496,6 +497,8 @@ DTMatch* Parser::createStep(int val, int idx, const int* tt)
 
     std::set<int> times;
     int repetition = timesecs(val, idx);
+    if (repetition <= 0)
+        throw std::invalid_argument("time step must be one second or more");
 
     for (int step = timebase % repetition; step < 3600 * 24; step += repetition)
         times.emplace(step);
-- 
2.43.0


From dadb98f2a00908c32d4c5baa213722c9419c0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 11/22] fix: merging a query with an empty expression dropped
 the data it matches

---
 arki/matcher/utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 5f7fcc2..67d0c74 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -96,6 +96,12 @@ OR* OR::clone() const
 std::shared_ptr<OR> OR::merge(const OR& o) const
 {
     auto res = std::make_shared<OR>("");
+
+    // An empty expression matches everything, and so does its union with any
+    // other
+    if (components.empty() || o.components.empty())
+        return res;
+
     std::unordered_set<std::string> seen;
 
     for (const auto& c : components)
-- 
2.43.0


From 9e989b22ae886a0e69ae1ae1b1c77063c209f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 12/22] fix: comparing summary statistics truncated differences
 of counts and sizes to int

---
 arki/summary/stats.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/summary/stats.cc b/arki/summary/stats.cc
index b3bf29b..3323171 100644
--- a/arki/summary/stats.cc
+++ b/arki/summary/stats.cc
@@ -43,10 +43,10 @@ Stats* Stats::clone() const { return new Stats(*this); }
 
 int Stats::compare(const Stats& o) const
 {
-    if (int res = count - o.count)
-        return res;
-    if (int res = size - o.size)
-        return res;
+    if (count != o.count)
+        return count < o.count ? -1 : 1;
+    if (size != o.size)
+        return size < o.size ? -1 : 1;
     if (int res = begin.compare(o.begin))
         return res;
     return end.compare(o.end);
-- 
2.43.0


From e17bcf1faab65178696f5917fe5de83292f33650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 13/22] fix: asking for the last note of metadata without items
 read past its items

---
 arki/metadata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..951c5c3 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -160,7 +160,7 @@ const types::Note* Index::get_last_note() const
     auto n = items.rbegin();
     if (n != items.rend() && (*n)->type_code() == TYPE_SOURCE)
         ++n;
-    if ((*n)->type_code() == TYPE_NOTE)
+    if (n != items.rend() && (*n)->type_code() == TYPE_NOTE)
         return reinterpret_cast<const types::Note*>(*n);
     return nullptr;
 }
-- 
2.43.0


From ba967c64433c1d8c67e8ab7db090d664d7cbda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 14/22] fix: writing or serialising metadata without a source
 dereferenced a null pointer

---
 arki/metadata.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 951c5c3..7304545 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -617,7 +617,7 @@ void Metadata::write(NamedFileDescriptor& out, bool skip_data) const
 
     // If the source is inline, then the data follows the metadata
     const Source* s = m_index.get_source();
-    if (s->style() != Source::Style::INLINE)
+    if (!s || s->style() != Source::Style::INLINE)
         return;
 
     // Having checked the style, we can reinterpret_cast
@@ -727,7 +727,7 @@ void Metadata::serialise(structured::Emitter& e, const structured::Keys& keys,
     e.add_break();
 
     // If the source is inline, we need to include the daata
-    if (s->style() != types::Source::Style::INLINE)
+    if (!s || s->style() != types::Source::Style::INLINE)
         return;
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
     if (si->size != m_data->size())
-- 
2.43.0


From 1b5c2a4f8b241566b57480f2a435a4b1db3b8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 15/22] fix: comparing sources truncated the differences of
 offsets and sizes to int

---
 arki/types/source/blob.cc   | 8 +++++---
 arki/types/source/inline.cc | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/arki/types/source/blob.cc b/arki/types/source/blob.cc
index 6eb6b23..eb1d969 100644
--- a/arki/types/source/blob.cc
+++ b/arki/types/source/blob.cc
@@ -76,9 +76,11 @@ int Blob::compare_local(const Source& o) const
         return -1;
     if (filename > v->filename)
         return 1;
-    if (int res = offset - v->offset)
-        return res;
-    return size - v->size;
+    if (offset != v->offset)
+        return offset < v->offset ? -1 : 1;
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 
 bool Blob::equals(const Type& o) const
diff --git a/arki/types/source/inline.cc b/arki/types/source/inline.cc
index 01192e9..f170853 100644
--- a/arki/types/source/inline.cc
+++ b/arki/types/source/inline.cc
@@ -55,7 +55,9 @@ int Inline::compare_local(const Source& o) const
             string("second element claims to be a Inline Source, but is a ") +
                 typeid(&o).name() + " instead");
 
-    return size - v->size;
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 bool Inline::equals(const Type& o) const
 {
-- 
2.43.0


From 6ff7ce15c29c0a99bf4b893250f8cfafebd9050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 16/22] fix: comparing VM2 areas by difference gave an
 inconsistent order

---
 arki/types/area.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/types/area.cc b/arki/types/area.cc
index 201948b..e56eb1d 100644
--- a/arki/types/area.cc
+++ b/arki/types/area.cc
@@ -346,7 +346,12 @@ bool VM2::equals(const Type& o) const
     return memcmp(data, v->data, std::min(size, 5u)) == 0;
 }
 
-int VM2::compare_local(const VM2& o) const { return get_VM2() - o.get_VM2(); }
+int VM2::compare_local(const VM2& o) const
+{
+    auto a = get_VM2();
+    auto b = o.get_VM2();
+    return a < b ? -1 : a > b ? 1 : 0;
+}
 
 std::ostream& VM2::writeToOstream(std::ostream& o) const
 {
-- 
2.43.0


From c3562c5058fa6d17ff9662c483ab44e43979d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 17/22] fix: different quantities whose names contain commas
 compared as equal

---
 arki/types/quantity.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/arki/types/quantity.cc b/arki/types/quantity.cc
index 4c17b2f..088bc5b 100644
--- a/arki/types/quantity.cc
+++ b/arki/types/quantity.cc
@@ -52,14 +52,9 @@ int Quantity::compare(const Type& o) const
             std::string("second element claims to be a Task, but it is a ") +
                 typeid(&o).name() + " instead");
 
-    // TODO: we can probably do better than this
-    std::ostringstream ss1;
-    std::ostringstream ss2;
-
-    writeToOstream(ss1);
-    v->writeToOstream(ss2);
-
-    return ss1.str().compare(ss2.str());
+    auto a = get();
+    auto b = v->get();
+    return a < b ? -1 : b < a ? 1 : 0;
 }
 
 std::unique_ptr<Quantity> Quantity::decode(core::BinaryDecoder& dec,
-- 
2.43.0


From 646c38ae74e0879aeaa5b1231be013535037c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 18/22] fix: encoding the smallest signed integer negated it as
 a signed int

---
 arki/core/binary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/core/binary.h b/arki/core/binary.h
index 8e6f2b1..704b218 100644
--- a/arki/core/binary.h
+++ b/arki/core/binary.h
@@ -61,7 +61,7 @@ struct BinaryEncoder
         {
             // If it's negative, we encode the 2-complement of the positive
             // value
-            uns = -val;
+            uns = -static_cast<uint32_t>(val);
             uns = ~uns + 1;
         }
         else
@@ -77,7 +77,7 @@ struct BinaryEncoder
         {
             // If it's negative, we encode the 2-complement of the positive
             // value
-            uns = -val;
+            uns = -static_cast<uint32_t>(val);
             uns = ~uns + 1;
         }
         else
-- 
2.43.0


From 1aba12cae42907dd200afe64060ca38643cb0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 19/22] fix: refuse dataset names and ids longer than their
 encoding can hold

---
 arki/types/assigneddataset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/types/assigneddataset.cc b/arki/types/assigneddataset.cc
index 07f7b3b..fc35bb9 100644
--- a/arki/types/assigneddataset.cc
+++ b/arki/types/assigneddataset.cc
@@ -153,6 +153,12 @@ std::unique_ptr<AssignedDataset>
 AssignedDataset::create(const Time& changed, const std::string& name,
                         const std::string& id)
 {
+    if (name.size() > 0xff)
+        throw_consistency_error("creating AssignedDataset",
+                                "the dataset name is longer than 255 bytes");
+    if (id.size() > 0xffff)
+        throw_consistency_error("creating AssignedDataset",
+                                "the dataset id is longer than 65535 bytes");
     std::vector<uint8_t> buf;
     core::BinaryEncoder enc(buf);
     changed.encodeWithoutEnvelope(enc);
-- 
2.43.0


From e8d1c9c857516b41ddbe2d996bc4a57ee92ee27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 20/22] fix: decode ODIMH5 products with empty texts

---
 arki/types/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/product.cc b/arki/types/product.cc
index 6f973d8..bb6c409 100644
--- a/arki/types/product.cc
+++ b/arki/types/product.cc
@@ -206,7 +206,7 @@ unique_ptr<Product> Product::decode(core::BinaryDecoder& dec, bool reuse_buffer)
             dec.skip(dec.size);
             break;
         case product::Style::ODIMH5:
-            dec.ensure_size(4, "ODIMH5 data");
+            dec.ensure_size(3, "ODIMH5 data");
             if (reuse_buffer)
                 res.reset(new product::ODIMH5(dec.buf, dec.size, false));
             else
-- 
2.43.0


From 5621415937f860599b35eafa2c8403d26473ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 21/22] fix: refuse GRIB2 time ranges that do not fit their 32
 bit encoding

---
 arki/types/timerange.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 18a13f8..fb50a8a 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -811,6 +811,9 @@ std::unique_ptr<Timerange> Timerange::createGRIB2(unsigned char type,
                                                   signed long p1,
                                                   signed long p2)
 {
+    if (p1 < INT32_MIN || p1 > INT32_MAX || p2 < INT32_MIN || p2 > INT32_MAX)
+        throw_consistency_error("creating Timerange",
+                                "GRIB2 p1 and p2 must fit in 32 bits");
     uint8_t* buf = new uint8_t[11];
     buf[0]       = (uint8_t)timerange::Style::GRIB2;
     buf[1]       = type;
-- 
2.43.0


From df2f6c1d26e1023a04e7378a223c8d7b69ba74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 22/22] fix: comparing ODIMH5 levels called different zeros and
 NaN values equal

---
 arki/types/level.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arki/types/level.cc b/arki/types/level.cc
index faae527..2817df0 100644
--- a/arki/types/level.cc
+++ b/arki/types/level.cc
@@ -8,6 +8,8 @@
 #include "arki/structured/reader.h"
 #include "arki/types/utils.h"
 #include "arki/utils/iostream.h"
+#include <cmath>
+#include <cstring>
 #include <iomanip>
 #include <sstream>
 
@@ -99,11 +101,16 @@ static inline int compare_with_missing(const A& a, const B& b, const M& missing)
 
 static inline int compare_double(double a, double b)
 {
+    // NaN values sort last
+    if (std::isnan(a) != std::isnan(b))
+        return std::isnan(a) ? 1 : -1;
     if (a < b)
         return -1;
     if (b < a)
         return 1;
-    return 0;
+    // Tell apart NaN values and zeros that are represented differently, like
+    // equals() does
+    return memcmp(&a, &b, sizeof(double));
 }
 
 unsigned Level::GRIB1_type_vals(unsigned char type)
-- 
2.43.0

