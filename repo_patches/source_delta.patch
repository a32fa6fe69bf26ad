From 59ee4f481adb9bd8d66729c57fe35a74e00bebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 01/33] fix: bint128 wrote values below -2^55 so that they read
 back differently

Negative values in [-2^56, -2^55) lost their sign bit and values whose top
bits are set were written as ten bytes while only nine are read.
---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..b5fa3c3 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 3a54a9d1d59b63bf436fb00f70ed3f448a0756b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 02/33] fix: IsPow2 reported zero and the most negative value
 as powers of two

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..2ebb488 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -82,7 +82,7 @@ constexpr float GetFraction(size_t numBits) {
 }
 
 template <typename type> constexpr bool IsPow2(type input) {
-  return !(input & (input - 1));
+  return input > 0 && !(input & (input - 1));
 }
 
 namespace es {
-- 
2.43.0


From 92f9d6480d2dbfdefa4b7431005fe7d7b2264240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 03/33] fix: CompileFourCC sign extended characters above 0x7f

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 2ebb488..c1b69b2 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -38,7 +38,7 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
   for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From 2c52c0cfa092d2c9d037ab95ff2be2e5588c0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 04/33] fix: small float conversion of denormals, negative zero
 and small normals

Denormals assumed a ten bit mantissa, ToFloat subtracted the bias from
already negative values, FromFloat/FromVector4 took ordinary values for
denormals (e.g. 1.0 and 0.25 did not survive a round trip).
---
 datas/float.hpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..4f99151 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -27,6 +27,10 @@ public:
   static constexpr size_t SIGN_MASK = _sign ? 1 << (TOTAL_SIZE - 1) : 0;
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
+  // smallest normal number, anything below is encoded as denormal
+  static constexpr size_t NORMAL_REF = EXP_REF + (1 << 23);
+  // float whose lowest mantissa bit has the weight of the lowest denormal bit
+  static constexpr size_t DENORMAL_REF = NORMAL_REF + ((23 - _mantissa) << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -37,6 +41,8 @@ public:
                                                   1 << (32 - TOTAL_SIZE), 1));
     const size_t exponentI = mskEMSM.X;
     IVector4A16 finResult(shEMS);
+    const uint32 denormalRef = DENORMAL_REF;
+    const float denormalBias = reinterpret_cast<const float &>(denormalRef);
 
     if (exponentI) {
       if (exponentI == EXPONENT_MASK) {
@@ -47,25 +53,34 @@ public:
         finResult += IVector4A16(EXP_REF, 0, 0, 0);
       }
     } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
+      finResult *= IVector4A16(0, 0, 0, 1);
+      finResult += IVector4A16(DENORMAL_REF, 0, 0, 0);
     }
 
-    const size_t result = _mm_extract_epi32(
+    const uint32 result = _mm_extract_epi32(
         _mm_hadd_epi32(_mm_hadd_epi32(finResult._data, finResult._data),
                        finResult._data),
         0);
     const float resultFl = reinterpret_cast<const float &>(result);
 
-    return exponentI ? resultFl : resultFl - 0.5f;
+    if (exponentI) {
+      return resultFl;
+    }
+
+    const float denormal = resultFl - denormalBias;
+
+    return value & SIGN_MASK ? -denormal : denormal;
   }
 
   static size_t FromFloat(float input) {
     const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
+    const uint32 absolute = cvted & 0x7fffffff;
+    const uint32 denormalRef = DENORMAL_REF;
+    const float catchDenormal = reinterpret_cast<const float &>(absolute) +
+                                reinterpret_cast<const float &>(denormalRef);
     const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
     const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
+    const bool isSubNorm = absolute < NORMAL_REF;
 
     size_t result =
         (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
@@ -100,12 +115,12 @@ public:
     const IVector4A16 mskExp(cvted & 0x7f800000);
     const IVector4A16 shtMant(cvted >> (23 - _mantissa));
 
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
+    const IVector4A16 absolute(cvted & 0x7fffffff);
+    const IVector4A16 cvtedDenorm =
+        _to_se(_to_ps(absolute) + _to_ps(DENORMAL_REF));
 
     const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+        _mm_cmplt_epi32(absolute._data, IVector4A16(NORMAL_REF)._data));
 
     const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
                                              _to_ps(cvtedDenorm)._data,
@@ -148,8 +163,9 @@ public:
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const IVector4A16 denormResult0((value & MANTISSA_MASK) | DENORMAL_REF);
+    const Vector4A16 denormResult1(_to_ps(denormResult0) -
+                                   _to_ps(DENORMAL_REF));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
-- 
2.43.0


From e752503db40210621a4975f0dbfc6a63e7c8fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 05/33] fix: VectorR11G11B10_UFLOAT decoded its components with
 an eleven bit mantissa

---
 datas/float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 4f99151..70dced4 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -178,12 +178,13 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
                              IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    // the last component has only 5 bits of mantissa
+    const IVector4A16 input1((input0 >> 21) & IVector4A16(-1, -1, -2, 0));
 
     return codec_type::ToVector4(input1);
   }
-- 
2.43.0


From 0753d85b6a6046380487a89b2aa76a2fd0b16ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 06/33] fix: string_view find ignored the first pattern
 character and the last position

Patterns longer than one character matched without comparing their first
character, a match at the very end was never found and an empty pattern was
reported as missing.
---
 datas/internal/string_view.inl | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..6586dd8 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -294,21 +294,17 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
+    for (size_type i = pos; i <= max_index; ++i) {
+      size_type j = 0;
 
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
+      for (; j < v.size() && v[j] == m_str[i + j]; ++j);
 
-      if (!j)
+      if (j == v.size())
         return i;
     }
 
-- 
2.43.0


From cf8795f5e4c5de670b14598e5070d93ab1b2e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 07/33] fix: string_view rfind compared backwards and read
 outside of the view

It missed a match at the last position and underflowed for patterns longer
than the view.
---
 datas/internal/string_view.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 6586dd8..2cafaa5 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -346,12 +346,14 @@ namespace es {
                                             size_type pos )
     const
   {
+    if( v.size() > m_size ) return npos;
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
+        if( v[j] != m_str[i+j] ) {
           break;
         }
       }
-- 
2.43.0


From 94ac798d355f5f46fd55a13f22da2f77538381aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 08/33] fix: string_view find_last_of read in front of an empty
 view

---
 datas/internal/string_view.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 2cafaa5..ddc3fc7 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -442,6 +442,8 @@ namespace es {
                                                    size_type pos )
     const
   {
+    if( empty() ) return npos;
+
     for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
-- 
2.43.0


From 456745ee6cfef7c721d3ccf5de23ca9bfea1515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 09/33] fix: string_view find_first_not_of/find_last_not_of
 used only one character of the set

An empty set never matched and find_last_not_of read in front of an empty
view.
---
 datas/internal/string_view.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index ddc3fc7..3b9ae80 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -491,12 +491,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if(j==v.size()) return i;
     }
     return npos;
   }
@@ -536,13 +537,16 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() ) return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if(j==v.size()) return i;
     }
     return npos;
   }
-- 
2.43.0


From ce3f49d566805175878d83f236b98a196fd8c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 10/33] fix: string_view copy wrote one character too many, or
 none for npos

---
 datas/internal/string_view.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 3b9ae80..33ff886 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
-- 
2.43.0


From 85ae0c2f0f6bb5b26c88ae6dd91a96fa64cda6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 11/33] fix: string_view substr threw for the empty sub-view at
 the end

---
 datas/internal/string_view.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 33ff886..6fb996e 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From bf55b25bc25dbe058ca04eb4163cdff08fa4cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 12/33] fix: whitespace trimming read outside of empty and
 blank text

---
 datas/supercore.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index c1b69b2..180cd20 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,9 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() &&
+         (input[0] == ' ' || input[0] == '\t' ||
+          (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +105,9 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() &&
+         (input.back() == ' ' || input.back() == '\t' ||
+          (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From 54627bb58507395557bd5b1b58c99868cd8ef536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 13/33] fix: FileInfo takes the extension from the last path
 component only, and Load of an empty path resets the views

---
 datas/fileinfo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..7e45814 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -39,6 +39,8 @@ public:
 
   void Load(stringref_type input) {
     fullPath = input;
+    endFolder = 0;
+    lastDot = 0;
 
     if (!fullPath.size())
       return;
@@ -55,7 +57,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From 27f5a9ed50ad46c17c661beefe5860f2270651b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 14/33] fix: FileInfo views keep the whole path when it
 contains NUL characters

---
 datas/fileinfo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 7e45814..55a843d 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -64,12 +64,14 @@ public:
   stringref_type GetFullPathNoExt() const { return {fullPath.data(), lastDot}; }
   stringref_type GetFullPath() const { return fullPath; }
   stringref_type GetFilenameExt() const {
-    return {fullPath.data() + endFolder};
+    return {fullPath.data() + endFolder, fullPath.size() - endFolder};
   }
   stringref_type GetFilename() const {
     return {fullPath.data() + endFolder, fullPath.data() + lastDot};
   }
-  stringref_type GetExtension() const { return fullPath.data() + lastDot; }
+  stringref_type GetExtension() const {
+    return {fullPath.data() + lastDot, fullPath.size() - lastDot};
+  }
   stringref_type GetFolder() const { return {fullPath.data(), endFolder}; }
 
   explode_type Explode() const {
@@ -88,7 +90,7 @@ public:
       }
 
     if (lastOffset != pathEnd)
-      resVal.emplace_back(lastOffset);
+      resVal.emplace_back(lastOffset, pathEnd);
 
     return resVal;
   }
-- 
2.43.0


From 9403b263007c871949cc9258b7771561b7ab2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 15/33] fix: JenkinsHash3 left out the last twelve bytes of
 texts whose length is a larger multiple of twelve

---
 datas/jenkinshash3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..fccf963 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,12 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && !input.empty()) {
+    lastKeys = 12;
+  }
+
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From 0c8ba6ce59cfcfb4401f8e87b8e3a13026206225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 16/33] fix: four component vectors combined with |= computed
 &, and their operators with a scalar assigned to a const object

---
 datas/vectors.hpp | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..491b217 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -326,37 +326,21 @@ public:
     return {X << input.X, Y << input.Y, Z << input.Z, W << input.W};
   }
 
-  vector operator+(value_type input) const {
-    return *this = *this + vector(input);
-  }
-  vector operator-(value_type input) const {
-    return *this = *this - vector(input);
-  }
-  vector operator*(value_type input) const {
-    return *this = *this * vector(input);
-  }
-  vector operator/(value_type input) const {
-    return *this = *this / vector(input);
-  }
-  vector operator&(value_type input) const {
-    return *this = *this & vector(input);
-  }
-  vector operator|(value_type input) const {
-    return *this = *this | vector(input);
-  }
-  vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
-  }
-  vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
-  }
+  vector operator+(value_type input) const { return *this + vector(input); }
+  vector operator-(value_type input) const { return *this - vector(input); }
+  vector operator*(value_type input) const { return *this * vector(input); }
+  vector operator/(value_type input) const { return *this / vector(input); }
+  vector operator&(value_type input) const { return *this & vector(input); }
+  vector operator|(value_type input) const { return *this | vector(input); }
+  vector operator>>(shift_value input) const { return *this >> vector(input); }
+  vector operator<<(shift_value input) const { return *this << vector(input); }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,7 +349,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From 95d0352bbcc7d7544f9a1d7de56f2c3ef99e09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 17/33] fix: shifting a vector by a scalar compiled for int32
 components only

---
 datas/vectors.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 491b217..4c46136 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -332,8 +340,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> V4ScalarType<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << V4ScalarType<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
-- 
2.43.0


From 2edb55cb5181c6bc3d3ac92234fcb50a5e8cf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 18/33] fix: negating a four component vector of unsigned
 integers converted -1.f to an unsigned type

---
 datas/vectors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 4c46136..9122e40 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -365,7 +365,7 @@ public:
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-  vector operator-() const { return *this * -1.f; }
+  vector operator-() const { return *this * -1; }
 
   bool IsSymetrical() const { return (X == Y) && (X == Z) && (Z == W); }
 
-- 
2.43.0


From d423df2b250d1f734912a503c8f2f2bfef3f99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 19/33] fix: V4SimdFltType::IsSymetrical did not look at W

---
 datas/vectors_simd.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..c1173b8 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -170,9 +170,8 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 0, 0, 0)),
+                   _data);
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From 49eb57d43b29843359d8a2d441a30ce19f82753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 20/33] fix: V4SimdFltType <= and >= were false where some
 lanes are equal and the others less

---
 datas/vectors_simd.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index c1173b8..8455eca 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -56,12 +56,13 @@ private:
 #endif
   }
 
-  static bool Compare(store_type input1, store_type input2) {
-    const store_type result =
-        _mm_and_ps(_mm_cmple_ps(input2, _mm_add_ps(input1, GetEpsilon())),
-                   _mm_cmpge_ps(input2, _mm_sub_ps(input1, GetEpsilon())));
+  static store_type CompareLanes(store_type input1, store_type input2) {
+    return _mm_and_ps(_mm_cmple_ps(input2, _mm_add_ps(input1, GetEpsilon())),
+                      _mm_cmpge_ps(input2, _mm_sub_ps(input1, GetEpsilon())));
+  }
 
-    return _mm_movemask_ps(result) == 0xF;
+  static bool Compare(store_type input1, store_type input2) {
+    return _mm_movemask_ps(CompareLanes(input1, input2)) == 0xF;
   }
 
 public:
@@ -157,10 +158,16 @@ public:
     return _mm_movemask_ps(_mm_cmpgt_ps(_data, input._data)) == 0xF;
   }
   bool operator<=(vec_cref input) const {
-    return *this < input || *this == input;
+    const store_type result =
+        _mm_or_ps(_mm_cmplt_ps(_data, input._data),
+                  CompareLanes(input._data, _data));
+    return _mm_movemask_ps(result) == 0xF;
   }
   bool operator>=(vec_cref input) const {
-    return *this > input || *this == input;
+    const store_type result =
+        _mm_or_ps(_mm_cmpgt_ps(_data, input._data),
+                  CompareLanes(input._data, _data));
+    return _mm_movemask_ps(result) == 0xF;
   }
 
   bool operator<(value_type input) const { return *this < vector(input); }
-- 
2.43.0


From 052ba57969d6592aad408a82bb558fc92cd7a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 21/33] fix: unsigned SIMD lanes above 2^31 - 1 converted to
 negative floats

---
 datas/vectors_simd.hpp       | 11 ++++++++++-
 uni/internal/format_full.hpp | 13 ++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 8455eca..7ed5079 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -277,7 +277,16 @@ public:
     _data = _mm_set_epi32(input.W, input.Z, input.Y, input.X);
   }
 
-  operator V4SimdFltType() const { return _mm_cvtepi32_ps(_data); }
+  operator V4SimdFltType() const {
+    if (std::is_unsigned<eType>::value) {
+      const auto upper = _mm_cvtepi32_ps(_mm_srli_epi32(_data, 16));
+      const auto lower =
+          _mm_cvtepi32_ps(_mm_and_si128(_data, _mm_set1_epi32(0xffff)));
+      return _mm_add_ps(_mm_mul_ps(upper, _mm_set1_ps(65536.f)), lower);
+    }
+
+    return _mm_cvtepi32_ps(_data);
+  }
 
   vector operator+(vec_cref input) const {
     return _mm_add_epi32(_data, input._data);
diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..5d9db76 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -520,21 +520,24 @@ template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32B32A32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32B32A32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    const IVector4A16 result(parent::GetValueNoFrac(input));
+    return Vector4A16(result) * GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32B32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32B32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    const IVector4A16 result(parent::GetValueNoFrac(input));
+    return Vector4A16(result) * GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    const IVector4A16 result(parent::GetValueNoFrac(input));
+    return Vector4A16(result) * GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32> {
@@ -647,12 +650,12 @@ public:
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R24G8> {
 public:
-  static UIVector4A16 GetValueNoFrac(const char *input) {
+  static IVector4A16 GetValueNoFrac(const char *input) {
     const int32 rtVal0 = reinterpret_cast<const int32 &>(*input) << 8;
     const int8 rtVal1 =
         static_cast<int8>(reinterpret_cast<const int32 &>(*input) >> 24);
 
-    return UIVector4A16(rtVal0 >> 8, rtVal1, 0, 0);
+    return IVector4A16(rtVal0 >> 8, rtVal1, 0, 0);
   }
 
   static Vector4A16 GetValue(const char *input) {
-- 
2.43.0


From 69be578faf334b2a17ef80a243d1836e3ed01ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 22/33] fix: dereferencing a const PointerX86 did not compile

---
 datas/pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..56e40a9 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
-- 
2.43.0


From 70f57b2a6fce658c3005ed087bc57ccb1261c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 23/33] fix: PointerX86 assigned null did not read back as null

---
 datas/pointer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 56e40a9..73aa456 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -112,6 +112,11 @@ public:
   }
 
   PointerX86 &operator=(C *newDest) {
+    if (!newDest) {
+      varPtr = 0;
+      return *this;
+    }
+
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
     varPtr =
         static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
-- 
2.43.0


From bacf9941372dcdf2395bf6694165720618a7fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 24/33] fix: WAVEGenericHeader::Next did not skip the chunk
 header

---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..3f7f16f 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) +
+        chunkSize);
   }
 };
 
-- 
2.43.0


From 8fca63d7dda6e0771176de595f49889d34dfe7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 25/33] fix: Morton addresses of textures higher than wide or
 with a side below 16 lay outside of the texture

---
 formats/addr_ps3.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..31dfaad 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -24,33 +24,30 @@ struct MortonSettings {
   size_t height;
   size_t xmask[10]{};
   size_t ymask[10]{};
+  size_t minBits;
+  size_t minMask;
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
     const size_t bitOffsetW = log2(width);
     const size_t bitOffsetH = log2(height);
-    const size_t minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
+    minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
+    minMask = (size_t(1) << minBits) - 1;
 
     for (size_t b = 4; b < minBits; b++) {
       xmask[b - 4] = size_t(1) << b;
       ymask[b - 4] = size_t(1) << b;
     }
-
-    if (bitOffsetW != bitOffsetH) {
-      const size_t maskW = width - 1;
-      const size_t maskH = height - 1;
-      const size_t mask = maskH ^ maskW;
-
-      if (bitOffsetW > bitOffsetH) {
-        xmask[bitOffsetH - 4] = mask;
-      } else {
-        ymask[bitOffsetW - 4] = mask;
-      }
-    }
   }
 };
 
 size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  // Only one of the sides is longer and has bits over
+  const size_t rest = ((x | y) & ~settings.minMask) << settings.minBits;
+
+  x &= settings.minMask;
+  y &= settings.minMask;
+
   const size_t x0 = x & 1;
   const size_t x1 = (x & 2) << 1;
   const size_t x2 = (x & 4) << 2;
@@ -69,8 +66,8 @@ size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
   const size_t y6 = (y & settings.ymask[2]) << 7;
   const size_t y7 = (y & settings.ymask[3]) << 8;
 
-  size_t retval = x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 | y3 |
-                  y4 | y5 | y6 | y7;
+  size_t retval = rest | x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 |
+                  y3 | y4 | y5 | y6 | y7;
 
   if (settings.xmask[4] || settings.ymask[4]) {
     const size_t x8 = (x & settings.xmask[4]) << 8;
-- 
2.43.0


From 40ed878a76b5b09a9052f7234060c036ecc7a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 26/33] fix: UINT and INT R32G32 and R32 formats read twelve
 bytes of each element

---
 uni/internal/format_full.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5d9db76..087d745 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -99,15 +99,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
-- 
2.43.0


From ff2105077dad22d88f2825d1f1cf8cd229291664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 27/33] fix: UNORM and NORM R16G16B16 and R8G8B8 formats read
 behind the element

---
 uni/internal/format_full.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 087d745..870b2ef 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -354,11 +354,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
-    UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
-    const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
-                              16); // X, Z, Y, W
-    return _mm_shuffle_epi32(result._data, _MM_SHUFFLE(3, 1, 2, 0));
+    typedef FormatCodec_t<FormatType::UINT, DataType::R16G16B16> parent;
+    return parent::GetValue(input);
   }
 
   static Vector4A16 GetValue(const char *input) {
@@ -404,9 +401,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
-    UIVector4A16 vctr(rtVal);
-    return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
+    typedef FormatCodec_t<FormatType::UINT, DataType::R8G8B8> parent;
+    return parent::GetValue(input);
   }
 
   static Vector4A16 GetValue(const char *input) {
-- 
2.43.0


From f5693336eec42ce3d90fed215ced43b8ddf9645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 28/33] fix: the third channel of R11G11B10 float formats took
 a mantissa bit from the second

---
 uni/internal/format_full.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 870b2ef..9a2c03b 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -759,7 +759,9 @@ template <> class FormatCodec_t<FormatType::FLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // the third channel is one bit shorter
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
@@ -771,7 +773,9 @@ template <> class FormatCodec_t<FormatType::UFLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // the third channel is one bit shorter
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
-- 
2.43.0


From f8641d782c22e2c63b3479fe19e758639afb9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:55 +0000
Subject: [PATCH 29/33] fix: Blowfish chaining modes skipped or misaddressed
 blocks of buffers over 2 GiB

---
 datas/encrypt/blowfish.cpp | 50 +++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..6639299 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -313,10 +313,9 @@ void BlowfishEncoder::Decode(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeECB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(block);
@@ -324,10 +323,9 @@ void BlowfishEncoder::EncodeECB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeECB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     DecodeBlock(block);
@@ -335,11 +333,10 @@ void BlowfishEncoder::DecodeECB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     block ^= currentVector;
@@ -349,12 +346,11 @@ void BlowfishEncoder::EncodeCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -365,12 +361,11 @@ void BlowfishEncoder::DecodeCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodePCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -381,12 +376,11 @@ void BlowfishEncoder::EncodePCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodePCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -397,11 +391,10 @@ void BlowfishEncoder::DecodePCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeCFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -411,12 +404,11 @@ void BlowfishEncoder::EncodeCFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeCFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -427,12 +419,11 @@ void BlowfishEncoder::DecodeCFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeOFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -443,11 +434,10 @@ void BlowfishEncoder::EncodeOFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeOFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
-  const int restbytes = static_cast<int>(size % 8);
+  const size_t numblocks = size / 8;
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
-- 
2.43.0


From cd9d2ba0bab3493cc3c2d5b93305e770c85b5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 30/33] fix: DDS::ComputeBufferSize wrote past the mip table
 for headers with more than 15 levels

---
 formats/DDS.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..d9915fd 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -467,6 +467,11 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips) {
+      _mipCount = Mips::maxMips;
+    }
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
-- 
2.43.0


From 42152fb1de8a96d7fc2891306ea0514b74da4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:31 +0000
Subject: [PATCH 31/33] fix: DDS mip sizes of partial blocks, non-square and
 large textures

---
 formats/DDS.hpp | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index d9915fd..4bd7cbc 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -478,26 +478,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -519,18 +500,19 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     }
 
     for (uint32 m = 0; m < _mipCount; m++) {
-      uint32 __width = _width, __height = _height;
+      uint64 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) / 4 * 4;
+        __height = (__height + 3) / 4 * 4;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] =
+          static_cast<uint32>(((__width * __height * bpp) + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : 1;
+      _height = _height > 1 ? _height / 2 : 1;
     }
 
     return fullBuffer;
-- 
2.43.0


From 145cc515470127a75ad392a2ac9f159239b1868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:31 +0000
Subject: [PATCH 32/33] fix: DDS::ComputeBPP read past its table for unknown
 extended formats

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 4bd7cbc..85c60da 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      if (dxgiFormat < sizeof(_bpps) / sizeof(_bpps[0]))
+        bpp = _bpps[dxgiFormat];
     } else {
       switch (fourCC) {
       case 36:
-- 
2.43.0


From 140b5b45f45b61ddc08b9129d63eefc21643ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:33 +0000
Subject: [PATCH 33/33] fix: byte swapped writing of C arrays wrote a swapped
 pointer instead of the elements

---
 datas/binwritter_ref.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..4ebe927 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -107,14 +107,27 @@ private:
   template <class C, class T> void _WriteSingle(const T &value, ...) const {
     const size_t capacity = sizeof(T);
     if (this->swapEndian && capacity > 1) {
-      auto outCopy = value;
-      FByteswapper(outCopy, true);
-      WriteBuffer(reinterpret_cast<const char *>(&outCopy), capacity);
+      _WriteSwapped(value);
     } else {
       WriteBuffer(reinterpret_cast<const char *>(&value), capacity);
     }
   }
 
+  template <class T> void _WriteSwapped(const T &value) const {
+    auto outCopy = value;
+    if (sizeof(T) > 1) {
+      FByteswapper(outCopy, true);
+    }
+    WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+  }
+
+  template <class T, size_t _size>
+  void _WriteSwapped(const T (&value)[_size]) const {
+    for (auto &e : value) {
+      _WriteSwapped(e);
+    }
+  }
+
   template <class C, class D>
   auto _WriteElements(const D *input, size_t numElements, int) const
       -> decltype(std::declval<C>().Write(*this), void()) {
-- 
2.43.0

