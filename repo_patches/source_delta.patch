From 08876ef13d691a0ad8556460976a000a59ece5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 01/18] fix: keep sibling links intact when a value is moved
 out

zj_Move cleared Prev before using it to repair Father->End and
Next->Prev, so removing a middle or last element left the container with a
null End (crash on the next add) or a successor that believed it was first.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..5df031b 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2176,14 +2176,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 33af9259007b953e88c956efcc71e5d415b94e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 02/18] fix: zj_Set must take the End pointer of the copy

It took the source's End, so the next add to the destination appended to the
source document and was lost from the destination.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5df031b..34a542a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2628,7 +2628,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From d3c48c0fd05fbf2f778f1faf09b46cff0aef7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:45 +0000
Subject: [PATCH 03/18] fix: check length-delimited strings and numbers in
 place

zj_checkStrLen and zj_checkNumLen copied into a process-wide cache that lived
in the arena of whichever allocator used it first: a use after free once that
allocator was released, and a data race between threads that share nothing.
---
 zzzjson.h | 132 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 86 insertions(+), 46 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 34a542a..824b4ac 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -63,12 +63,6 @@ static const zj_Size zj_AllocatorInitMemSize = zj_ALLOCATOR_INIT_MEMSIZE;
 #endif
 static const zj_Size zj_StringInitMemSize = zj_STRING_INIT_MEMSIZE;
 
-// 用zj_String作为Cache时初始化内存的大小，后面可能去掉
-#ifndef zj_STRING_CACHE_INIT_MEMSIZE
-#define zj_STRING_CACHE_INIT_MEMSIZE 128
-#endif
-static const zj_Size zj_StringCacheInitMemSize = zj_STRING_CACHE_INIT_MEMSIZE;
-
 // 环境适配
 
 #ifndef zj_MEMORY_MODE
@@ -555,8 +549,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -569,9 +561,6 @@ static inline struct zj_string *zj_newString(zj_Allocator *alloc,
   return str;
 }
 
-// 清空一个字符串
-static inline void zj_reset(struct zj_string *str) { str->Pos = 0; }
-
 // 追加字符串
 static inline void zj_appendStr(struct zj_string *str, const char *s,
                                 zj_Size size) {
@@ -1268,22 +1257,52 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
   *len = index - 1;
   return true;
 }
-// 较为省事的一种实现方法，后面会实现更高效的算法
-static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
-                                  zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
-  zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
-    return false;
+// 检查长度为 len 的字符串是否符合JSON标准，字符串不需要以0结束
+static inline bool zj_checkStrLen(const char *s, zj_Size len) {
+  zj_Size index = 0;
+  while (zj_LIKELY(index < len)) {
+    char c = s[index++];
+    if (zj_UNLIKELY(zj_UNLIKELY((unsigned char)c <= 0x1f) ||
+                    zj_UNLIKELY(c == '"'))) {
+      return false;
+    }
+    if (zj_LIKELY(c != '\\'))
+      continue;
+    if (zj_UNLIKELY(index == len))
+      return false;
+    switch (s[index++]) {
+    case '"':
+    case '\\':
+    case 'b':
+    case 'f':
+    case 'n':
+    case 'r':
+    case 't':
+    case '/':
+      continue;
+    case 'u': {
+      zj_Size cp = 0;
+      if (zj_UNLIKELY(len - index < 4 || zj_consumeHex(s, &index, &cp) == false))
+        return false;
+      // 这里是UTF16标准，可以参考网上相关资料
+      // 搜索关键字 UNICODE
+      if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
+        return false;
+      if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
+        zj_Size cp2 = 0;
+        if (zj_UNLIKELY(len - index < 6 ||
+                        zj_likelyConsume('\\', s, &index) == false ||
+                        zj_likelyConsume('u', s, &index) == false ||
+                        zj_consumeHex(s, &index, &cp2) == false ||
+                        cp2 < 0xDC00 || cp2 > 0xDFFF))
+          return false;
+      }
+      continue;
+    }
+    default:
+      return false;
+    }
   }
-  if (zj_UNLIKELY(avail_len != len))
-    return false;
   return true;
 }
 
@@ -1386,22 +1405,43 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
   *len = index;
   return zj_likelyConsume(0, s, &index);
 }
-static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
-                                  zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
-  zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+
+// 消费至少一个数字，不超过len
+static inline bool zj_consumeDigits(const char *s, zj_Size *index,
+                                    zj_Size len) {
+  zj_Size start = *index;
+  while (*index < len && s[*index] >= '0' && s[*index] <= '9')
+    ++(*index);
+  return *index != start;
+}
+
+// 检查长度为 len 的数字是否符合JSON标准，不需要以0结束
+static inline bool zj_checkNumLen(const char *s, zj_Size len) {
+  zj_Size index = 0;
+
+  if (index < len && s[index] == '-')
+    ++index;
+
+  if (index < len && s[index] == '0') {
+    ++index;
+  } else if (zj_UNLIKELY(zj_consumeDigits(s, &index, len) == false)) {
     return false;
   }
-  if (zj_UNLIKELY(avail_len != len))
-    return false;
-  return true;
+
+  if (index < len && s[index] == '.') {
+    ++index;
+    if (zj_UNLIKELY(zj_consumeDigits(s, &index, len) == false))
+      return false;
+  }
+
+  if (index < len && (s[index] == 'e' || s[index] == 'E')) {
+    ++index;
+    if (index < len && (s[index] == '-' || s[index] == '+'))
+      ++index;
+    if (zj_UNLIKELY(zj_consumeDigits(s, &index, len) == false))
+      return false;
+  }
+  return index == len;
 }
 
 // 函数说明详见《API》
@@ -2244,7 +2284,7 @@ static inline bool zj_SetNumStrFast(zj_Value *v, const char *num) {
 // 函数说明详见《API》
 static inline bool zj_SetNumStrLenFast(zj_Value *v, const char *num,
                                        zj_Size len) {
-  if (zj_UNLIKELY(zj_checkNumLen(v->A, num, len) == false))
+  if (zj_UNLIKELY(zj_checkNumLen(num, len) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
@@ -2281,7 +2321,7 @@ static inline bool zj_SetNumStr(zj_Value *v, const char *num) {
 
 // 函数说明详见《API》
 static inline bool zj_SetNumStrLen(zj_Value *v, const char *num, zj_Size len) {
-  if (zj_UNLIKELY(zj_checkNumLen(v->A, num, len) == false))
+  if (zj_UNLIKELY(zj_checkNumLen(num, len) == false))
     return false;
   char *s = zj_allocatorAlloc(v->A, len);
   zj_memCopy(num, len, s);
@@ -2399,7 +2439,7 @@ static inline bool zj_SetStrFast(zj_Value *v, const char *str) {
 
 // 函数说明详见《API》
 static inline bool zj_SetStrLenFast(zj_Value *v, const char *str, zj_Size len) {
-  if (zj_UNLIKELY(zj_checkStrLen(v->A, str, len) == false)) {
+  if (zj_UNLIKELY(zj_checkStrLen(str, len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2438,7 +2478,7 @@ static inline bool zj_SetStr(zj_Value *v, const char *str) {
 
 // 函数说明详见《API》
 static inline bool zj_SetStrLen(zj_Value *v, const char *str, zj_Size len) {
-  if (zj_UNLIKELY(zj_checkStrLen(v->A, str, len) == false)) {
+  if (zj_UNLIKELY(zj_checkStrLen(str, len) == false)) {
     return false;
   }
   char *s = zj_allocatorAlloc(v->A, len);
@@ -2492,7 +2532,7 @@ static inline bool zj_SetKeyFast(zj_Value *v, const char *key) {
 
 // 函数说明详见《API》
 static inline bool zj_SetKeyLenFast(zj_Value *v, const char *key, zj_Size len) {
-  if (zj_UNLIKELY(zj_checkStrLen(v->A, key, len) == false)) {
+  if (zj_UNLIKELY(zj_checkStrLen(key, len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2539,7 +2579,7 @@ static inline bool zj_SetKey(zj_Value *v, const char *key) {
 
 // 函数说明详见《API》
 static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
-  if (zj_UNLIKELY(zj_checkStrLen(v->A, key, len) == false)) {
+  if (zj_UNLIKELY(zj_checkStrLen(key, len) == false)) {
     return false;
   }
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From 0ecaa9c2f9ac079fe8d0135a0c4129e38ec8b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:45 +0000
Subject: [PATCH 04/18] fix: do not read past the end of a text cut inside a
 literal

The four-byte loads behind true, false and null read up to three bytes
beyond the terminating NUL of the caller's text.
---
 zzzjson.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 824b4ac..1aea10c 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -821,7 +821,7 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  if (zj_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return true;
   }
@@ -830,7 +830,7 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strTrue, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
@@ -839,7 +839,7 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp(zj_strNull, s + *index - 1, 4) == 0)) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From af1da324548781bfe0dfcb8d64285fc827389053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:45 +0000
Subject: [PATCH 05/18] fix: zj_checkStr refused every \\uE000..\\uFFFF escape

The upper end of the low-surrogate range was written 0xDFFFF.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 1aea10c..02246c3 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1226,7 +1226,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From 2fbee14e56ccbf2f345d010d2dc9d7ef2a457234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:45 +0000
Subject: [PATCH 06/18] fix: refuse infinities and NaN in zj_SetDouble and
 zj_SetNum

JSON has no such numbers; the value serialised to text no JSON parser,
including this one, accepts.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 02246c3..0adc10a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2344,6 +2344,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 }
 
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
+  // JSON不支持无穷大和NaN
+  if (zj_UNLIKELY(d - d != 0))
+    return false;
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From d671a756e8cbce85cb2bc83f8fca5925119aa2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:45 +0000
Subject: [PATCH 07/18] fix: keep code points in uint32_t when unescaping

With a 16-bit zj_SIZE_TYPE a surrogate pair was truncated to its low 16 bits.
---
 zzzjson.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 0adc10a..2c8bb54 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -881,7 +881,7 @@ static inline bool zj_consumeHexOne(const char *s, zj_Size *index,
 
 // 专为 zj_GetUnEscapeStr 使用
 static inline void zj_consumeHexOneForUnEscape(const char *s, zj_Size *index,
-                                               zj_Size *cp) {
+                                               uint32_t *cp) {
   *cp = *cp << 4;
   *cp += zj_hexCodePointForUnEscape(s[*index]);
   ++(*index);
@@ -901,7 +901,7 @@ static inline bool zj_consumeHex(const char *s, zj_Size *index, zj_Size *cp) {
 
 // 专为 zj_GetUnEscapeStr 使用
 static inline void zj_consumeHexForUnEscape(const char *s, zj_Size *index,
-                                            zj_Size *cp) {
+                                            uint32_t *cp) {
   zj_consumeHexOneForUnEscape(s, index, cp);
   zj_consumeHexOneForUnEscape(s, index, cp);
   zj_consumeHexOneForUnEscape(s, index, cp);
@@ -921,7 +921,7 @@ static inline void zj_addLen(char *s, zj_Size *index, const char *str,
 }
 
 // 专为 zj_GetUnEscapeStr 使用，追加一个UTF8字符
-static inline void zj_addUTF8(char *s, zj_Size *index, zj_Size codepoint) {
+static inline void zj_addUTF8(char *s, zj_Size *index, uint32_t codepoint) {
   // UTF8的规则，具体请参考 UNICODE 相关文档
   if (codepoint <= 0x7F) {
     zj_add(s, index, (char)(codepoint & 0xFF));
@@ -995,11 +995,11 @@ static inline void zj_unEscapeStr(const char *str, zj_Size len, char *s) {
       }
       case 'u': {
         index += 2;
-        zj_Size cp = 0;
+        uint32_t cp = 0;
         zj_consumeHexForUnEscape(str, &index, &cp);
 
         if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
-          zj_Size cp1 = 0;
+          uint32_t cp1 = 0;
           index += 2;
           zj_consumeHexForUnEscape(str, &index, &cp1);
           cp = (((cp - 0xD800) << 10) | (cp1 - 0xDC00)) + 0x10000;
-- 
2.43.0


From ac116024d525fec8f4643b8cf5b4b149509c9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:04 +0000
Subject: [PATCH 08/18] fix: copy into the receiving document's allocator

zj_Set, zj_ObjAdd and zj_ArrayAdd placed the copy in the source's arena, so a
document filled from another one dangled once the other was released, and
copying out of a shared document wrote to that document's arena.
---
 zzzjson.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 2c8bb54..63d5c02 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2199,14 +2199,19 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
   return true;
 }
 
-// 函数说明详见《API》
-static inline zj_Value *zj_Copy(const zj_Value *v) {
-  zj_Value *ret_val = zj_NewValue(v->A);
+// 把v拷贝到由alloc分配的新值，非对外API
+static inline zj_Value *zj_copyTo(zj_Allocator *alloc, const zj_Value *v) {
+  zj_Value *ret_val = zj_NewValue(alloc);
   if (zj_UNLIKELY(zj_ValueCopyFrom(ret_val, v) == false))
     return 0;
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline zj_Value *zj_Copy(const zj_Value *v) {
+  return zj_copyTo(v->A, v);
+}
+
 // 函数说明详见《API》
 static inline bool zj_Move(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0))
@@ -2660,7 +2665,7 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2718,7 +2723,7 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Father = v->N;
@@ -2765,7 +2770,7 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
+  zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
   cp->N->Key = 0;
-- 
2.43.0


From eda5641915037ac3798f8362d96c606b7ab1ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 09/18] fix: convert numbers of any length without overrunning

The numeric readers copied the digits into a 128-byte stack buffer whatever
their length (stack overflow on long numbers), and three of them then
converted the original, unterminated text instead of the copy.
---
 zzzjson.h | 50 ++++++++++++++++----------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 63d5c02..884ac05 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -363,26 +363,12 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
-static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoi(s);
-}
-static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
-}
-static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
+static inline int zj_strToInt(const char *str) { return atoi(str); }
+static inline long zj_strToLong(const char *str) { return atol(str); }
+static inline long long zj_strToLongLong(const char *str) {
   return atoll(str);
 }
-static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
-}
+static inline double zj_strToDouble(const char *str) { return atof(str); }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
   // int 最大长度不超过12
@@ -1919,42 +1905,38 @@ static inline const char *zj_GetNumStr(zj_Value *v) {
 static inline const double *zj_GetNum(zj_Value *v) { return zj_GetDouble(v); }
 
 static inline const double *zj_GetDouble(zj_Value *v) {
-  if (zj_UNLIKELY(v->N == 0))
-    return 0;
-  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeNumber))
+  const char *num = zj_GetNumStr(v);
+  if (zj_UNLIKELY(num == 0))
     return 0;
   double *d = (double *)zj_allocatorAlloc(v->A, sizeof(double));
-  *d = zj_strToDouble(v->N->Value.Str, v->N->Len);
+  *d = zj_strToDouble(num);
   return d;
 }
 
 static inline const int *zj_GetInt(zj_Value *v) {
-  if (zj_UNLIKELY(v->N == 0))
-    return 0;
-  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeNumber))
+  const char *num = zj_GetNumStr(v);
+  if (zj_UNLIKELY(num == 0))
     return 0;
   int *i = (int *)zj_allocatorAlloc(v->A, sizeof(int));
-  *i = zj_strToInt(v->N->Value.Str, v->N->Len);
+  *i = zj_strToInt(num);
   return i;
 }
 
 static inline const long *zj_GetLong(zj_Value *v) {
-  if (zj_UNLIKELY(v->N == 0))
-    return 0;
-  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeNumber))
+  const char *num = zj_GetNumStr(v);
+  if (zj_UNLIKELY(num == 0))
     return 0;
   long *l = (long *)zj_allocatorAlloc(v->A, sizeof(long));
-  *l = zj_strToLong(v->N->Value.Str, v->N->Len);
+  *l = zj_strToLong(num);
   return l;
 }
 
 static inline const long long *zj_GetLongLong(zj_Value *v) {
-  if (zj_UNLIKELY(v->N == 0))
-    return 0;
-  if (zj_UNLIKELY(v->N->Type != zj_JSONTypeNumber))
+  const char *num = zj_GetNumStr(v);
+  if (zj_UNLIKELY(num == 0))
     return 0;
   long long *ll = (long long *)zj_allocatorAlloc(v->A, sizeof(long long));
-  *ll = zj_strToLongLong(v->N->Value.Str, v->N->Len);
+  *ll = zj_strToLongLong(num);
   return ll;
 }
 
-- 
2.43.0


From c3580efae4425b239e976948a614c4772c7f99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 10/18] fix: report failed memory requests instead of using a
 null block

No block request was checked. Now every call that cannot get memory returns
null or false (void setters return early) and leaves its values as they were;
Stringify returns null, and a failed zj_NewAllocator is harmless to pass on.
---
 zzzjson.h   | 200 +++++++++++++++++++++++++++++++++++++++++++++++++---
 zzzjson.hpp |   6 +-
 2 files changed, 192 insertions(+), 14 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 884ac05..98843c4 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -437,6 +437,8 @@ public:
     void *ptr = zj_new(sizeof(struct zj_aNode) + zj_AllocatorInitMemSize);
     Root = (struct zj_aNode *)ptr;
     End = Root;
+    if (zj_UNLIKELY(ptr == 0))
+      return;
     Root->SizeOf = zj_AllocatorInitMemSize;
     Root->Data = (char *)ptr + sizeof(struct zj_aNode);
     Root->Pos = 0;
@@ -462,6 +464,8 @@ static inline zj_Allocator *zj_NewAllocator() {
   // 分配大块内存
   void *ptr = zj_new(sizeof(zj_Allocator) + sizeof(struct zj_aNode) +
                      zj_AllocatorInitMemSize);
+  if (zj_UNLIKELY(ptr == 0))
+    return 0;
   zj_Allocator *alloc = (zj_Allocator *)ptr;
   alloc->Root = (struct zj_aNode *)((char *)ptr + sizeof(zj_Allocator));
   alloc->End = alloc->Root;
@@ -476,6 +480,8 @@ static inline zj_Allocator *zj_NewAllocator() {
 
 // 函数说明详见《API》
 static inline void zj_ReleaseAllocator(zj_Allocator *alloc) {
+  if (zj_UNLIKELY(alloc == 0))
+    return;
   // 遍历整个链表，每次释放一块内存
   struct zj_aNode *next = alloc->Root->Next;
   while (zj_LIKELY(next != 0)) {
@@ -488,10 +494,12 @@ static inline void zj_ReleaseAllocator(zj_Allocator *alloc) {
 }
 
 // 追加一个大小为 init_size 的节点。
-static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
+static inline bool zj_allocatorAppendChild(zj_Allocator *alloc,
                                            zj_Size init_size) {
   // 每次分配一大块内存，避免多次分配
   void *ptr = zj_new(sizeof(struct zj_aNode) + init_size);
+  if (zj_UNLIKELY(ptr == 0))
+    return false;
   struct zj_aNode *node = (struct zj_aNode *)ptr;
   node->SizeOf = init_size;
   node->Data = (char *)ptr + sizeof(struct zj_aNode);
@@ -500,11 +508,13 @@ static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
   // 在ANode组成的链表最后加一个ANode
   alloc->End->Next = node;
   alloc->End = node;
-  return;
+  return true;
 }
 
-// 分配大小为size的内存
+// 分配大小为size的内存，失败返回0
 static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
+  if (zj_UNLIKELY(alloc == 0 || alloc->End == 0))
+    return 0;
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
   if (zj_UNLIKELY(cur_node->Pos + size > s)) {
@@ -513,7 +523,8 @@ static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
     // 这里应该有更好的方法，就是直接通过计算所得
     while (zj_UNLIKELY(size > s))
       s *= zj_Delta; // 每次分配内存的大小是上次的zj_Delta倍
-    zj_allocatorAppendChild(alloc, s);
+    if (zj_UNLIKELY(zj_allocatorAppendChild(alloc, s) == false))
+      return 0;
     cur_node = alloc->End;
   }
   char *ret = cur_node->Data + cur_node->Pos;
@@ -523,7 +534,7 @@ static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
 
 // 字符串
 // 字符串由内存分配器分配内存，当追加操作导致内存不够时，直接分配 zj_Delta
-// 倍内存，并把旧内存拷贝到新内存中
+// 倍内存，并把旧内存拷贝到新内存中，内存分配失败后Data为0
 struct zj_string {
   // 数据
   char *Data;
@@ -540,6 +551,8 @@ static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
   struct zj_string *str = (struct zj_string *)zj_allocatorAlloc(
       alloc, sizeof(struct zj_string) + init_size);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   str->SizeOf = init_size;
   str->Data = (char *)str + sizeof(struct zj_string);
   str->Pos = 0;
@@ -550,6 +563,8 @@ static inline struct zj_string *zj_newString(zj_Allocator *alloc,
 // 追加字符串
 static inline void zj_appendStr(struct zj_string *str, const char *s,
                                 zj_Size size) {
+  if (zj_UNLIKELY(str->Data == 0))
+    return;
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + size > src_s)) {
     src_s *= zj_Delta;
@@ -557,6 +572,8 @@ static inline void zj_appendStr(struct zj_string *str, const char *s,
       src_s *= zj_Delta;
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
+    if (zj_UNLIKELY(str->Data == 0))
+      return;
     str->SizeOf = src_s;
     zj_memCopy(src_d, str->Pos, str->Data);
   }
@@ -566,11 +583,15 @@ static inline void zj_appendStr(struct zj_string *str, const char *s,
 
 // 追加字符
 static inline void zj_appendChar(struct zj_string *str, const char c) {
+  if (zj_UNLIKELY(str->Data == 0))
+    return;
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
     src_s *= zj_Delta;
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
+    if (zj_UNLIKELY(str->Data == 0))
+      return;
     str->SizeOf = src_s;
     zj_memCopy(src_d, str->Pos, str->Data);
   }
@@ -722,6 +743,8 @@ public:
 // 函数说明详见《API》
 static inline zj_Value *zj_NewValue(zj_Allocator *alloc) {
   zj_Value *v = (zj_Value *)zj_allocatorAlloc(alloc, sizeof(zj_Value));
+  if (zj_UNLIKELY(v == 0))
+    return 0;
   v->A = alloc;
   v->N = 0;
   return v;
@@ -731,6 +754,8 @@ static inline zj_Value *zj_NewValue(zj_Allocator *alloc) {
 static inline zj_Value *zj_innerNewValue(zj_Allocator *alloc,
                                          struct zj_node *n) {
   zj_Value *v = (zj_Value *)zj_allocatorAlloc(alloc, sizeof(zj_Value));
+  if (zj_UNLIKELY(v == 0))
+    return 0;
   v->A = alloc;
   v->N = n;
   return v;
@@ -1080,7 +1105,7 @@ static const struct zj_escapeChar zj_escapeChars[256] = {
     {"\xf8", 1},    {"\xf9", 1},    {"\xfa", 1},    {"\xfb", 1},
     {"\xfc", 1},    {"\xfd", 1},    {"\xfe", 1},    {"\xff", 1}};
 
-// str必定不为空，因此，一定会返回一个非空字符串
+// str必定不为空，只有内存分配失败才返回0
 static inline const char *zj_escapeStr(const char *str, zj_Allocator *a) {
   zj_Size len = 0;
   const char *src = str;
@@ -1089,6 +1114,8 @@ static inline const char *zj_escapeStr(const char *str, zj_Allocator *a) {
     ++str;
   }
   char *s = zj_allocatorAlloc(a, len + 1);
+  if (zj_UNLIKELY(s == 0))
+    return 0;
   zj_Size index = 0;
   str = src;
   while (zj_LIKELY(*str != 0)) {
@@ -1100,7 +1127,7 @@ static inline const char *zj_escapeStr(const char *str, zj_Allocator *a) {
   return s;
 }
 
-// str必定不为空，因此，一定会返回一个非空字符串
+// str必定不为空，只有内存分配失败才返回0
 static inline const char *zj_escapeStrLen(const char *str, zj_Allocator *a,
                                           zj_Size len) {
   zj_Size l = 0;
@@ -1112,6 +1139,8 @@ static inline const char *zj_escapeStrLen(const char *str, zj_Allocator *a,
     --len;
   }
   char *s = zj_allocatorAlloc(a, l + 1);
+  if (zj_UNLIKELY(s == 0))
+    return 0;
   zj_Size index = 0;
   str = src;
   len = srcLen;
@@ -1435,6 +1464,8 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
   struct zj_node *src_node;
   if (zj_LIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Prev = 0;
     v->N->Next = 0;
     v->N->Father = 0;
@@ -1443,6 +1474,8 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
   } else {
     src_node =
         (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(src_node == 0))
+      return false;
     *src_node = *v->N;
   }
   zj_Size index = 0;
@@ -1459,6 +1492,13 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
     }
     struct zj_node *n =
         (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(n == 0)) {
+      if (zj_LIKELY(src_node == 0))
+        v->N = src_node;
+      else
+        *v->N = *src_node;
+      return false;
+    }
     n->Father = node;
     n->Prev = 0;
     // n->Next = 0;
@@ -1478,6 +1518,13 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
     }
     struct zj_node *n =
         (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(n == 0)) {
+      if (zj_LIKELY(src_node == 0))
+        v->N = src_node;
+      else
+        *v->N = *src_node;
+      return false;
+    }
     n->Father = node;
     n->Prev = 0;
     // n->Next = 0;
@@ -1604,6 +1651,13 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
       }
       struct zj_node *n =
           (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+      if (zj_UNLIKELY(n == 0)) {
+        if (zj_LIKELY(src_node == 0))
+          v->N = src_node;
+        else
+          *v->N = *src_node;
+        return false;
+      }
       n->Father = node;
       n->Prev = 0;
       // n->Next = 0;
@@ -1623,6 +1677,13 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
       }
       struct zj_node *n =
           (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+      if (zj_UNLIKELY(n == 0)) {
+        if (zj_LIKELY(src_node == 0))
+          v->N = src_node;
+        else
+          *v->N = *src_node;
+        return false;
+      }
       n->Father = node;
       n->Prev = 0;
       // n->Next = 0;
@@ -1708,6 +1769,13 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
       if (zj_likelyPeekAndConsume(',', s, &index)) {
         struct zj_node *n =
             (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+        if (zj_UNLIKELY(n == 0)) {
+          if (zj_LIKELY(src_node == 0))
+            v->N = src_node;
+          else
+            *v->N = *src_node;
+          return false;
+        }
         n->Father = node->Father;
         n->Prev = node;
         node->Father->End = n;
@@ -1747,6 +1815,8 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
 // 函数说明详见《API》
 static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
   char *str = zj_allocatorAlloc(v->A, len + 1);
+  if (zj_UNLIKELY(str == 0))
+    return false;
   zj_memCopy(s, len, str);
   str[len] = 0;
   return zj_ParseFast(v, str);
@@ -1762,6 +1832,8 @@ static inline const char *zj_Stringify(const zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0))
     return "";
   struct zj_string *str = zj_newString(v->A, zj_StringInitMemSize);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   struct zj_node *node = v->N;
 
   switch (node->Type) {
@@ -1861,6 +1933,8 @@ static inline const char *zj_GetStr(zj_Value *v) {
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeString))
     return 0;
   char *str = zj_allocatorAlloc(v->A, v->N->Len + 1);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   zj_memCopy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
   return str;
@@ -1875,6 +1949,8 @@ static inline const char *zj_GetUnEscapeStr(zj_Value *v) {
   // 因为值里面的字符串一定是合法的字符串，因此，可以简化
   // 因为解码后的字符串一定比解码前短，所以申请原字符串+1的长度即可
   char *ret_str = zj_allocatorAlloc(v->A, v->N->Len + 1);
+  if (zj_UNLIKELY(ret_str == 0))
+    return 0;
   zj_unEscapeStr(v->N->Value.Str, v->N->Len, ret_str);
   return ret_str;
 }
@@ -1896,6 +1972,8 @@ static inline const char *zj_GetNumStr(zj_Value *v) {
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeNumber))
     return 0;
   char *str = zj_allocatorAlloc(v->A, v->N->Len + 1);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   zj_memCopy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
   return str;
@@ -1909,6 +1987,8 @@ static inline const double *zj_GetDouble(zj_Value *v) {
   if (zj_UNLIKELY(num == 0))
     return 0;
   double *d = (double *)zj_allocatorAlloc(v->A, sizeof(double));
+  if (zj_UNLIKELY(d == 0))
+    return 0;
   *d = zj_strToDouble(num);
   return d;
 }
@@ -1918,6 +1998,8 @@ static inline const int *zj_GetInt(zj_Value *v) {
   if (zj_UNLIKELY(num == 0))
     return 0;
   int *i = (int *)zj_allocatorAlloc(v->A, sizeof(int));
+  if (zj_UNLIKELY(i == 0))
+    return 0;
   *i = zj_strToInt(num);
   return i;
 }
@@ -1927,6 +2009,8 @@ static inline const long *zj_GetLong(zj_Value *v) {
   if (zj_UNLIKELY(num == 0))
     return 0;
   long *l = (long *)zj_allocatorAlloc(v->A, sizeof(long));
+  if (zj_UNLIKELY(l == 0))
+    return 0;
   *l = zj_strToLong(num);
   return l;
 }
@@ -1936,6 +2020,8 @@ static inline const long long *zj_GetLongLong(zj_Value *v) {
   if (zj_UNLIKELY(num == 0))
     return 0;
   long long *ll = (long long *)zj_allocatorAlloc(v->A, sizeof(long long));
+  if (zj_UNLIKELY(ll == 0))
+    return 0;
   *ll = zj_strToLongLong(num);
   return ll;
 }
@@ -1969,6 +2055,8 @@ static inline const char *zj_GetKey(zj_Value *v) {
   if (zj_UNLIKELY(v->N->Key == 0))
     return 0;
   char *str = zj_allocatorAlloc(v->A, v->N->KeyLen + 1);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   zj_memCopy(v->N->Key, v->N->KeyLen, str);
   str[v->N->KeyLen] = 0;
   return str;
@@ -1980,6 +2068,8 @@ static inline const char *zj_GetUnEscapeKey(zj_Value *v) {
   if (zj_UNLIKELY(v->N->Key == 0))
     return 0;
   char *str = zj_allocatorAlloc(v->A, v->N->KeyLen + 1);
+  if (zj_UNLIKELY(str == 0))
+    return 0;
   zj_unEscapeStr(v->N->Key, v->N->KeyLen, str);
   return str;
 }
@@ -2111,6 +2201,8 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
     return false;
   zj_Allocator *const A = v->A;
   v->N = (struct zj_node *)zj_allocatorAlloc(A, sizeof(struct zj_node));
+  if (zj_UNLIKELY(v->N == 0))
+    return false;
   v->N->Prev = 0;
   v->N->Next = 0;
   v->N->Father = 0;
@@ -2122,6 +2214,10 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
     des_node->Type = node->Type;
     if (node->Key != 0) {
       char *k = zj_allocatorAlloc(A, node->KeyLen);
+      if (zj_UNLIKELY(k == 0)) {
+        v->N = 0;
+        return false;
+      }
       zj_memCopy(node->Key, node->KeyLen, k);
       des_node->Key = k;
       des_node->KeyLen = node->KeyLen;
@@ -2136,6 +2232,10 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
         node = node->Value.Node;
         struct zj_node *n =
             (struct zj_node *)zj_allocatorAlloc(A, sizeof(struct zj_node));
+        if (zj_UNLIKELY(n == 0)) {
+          v->N = 0;
+          return false;
+        }
         n->Father = des_node;
         n->Prev = 0;
         des_node->Value.Node = n;
@@ -2154,6 +2254,10 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
     case zj_JSONTypeNumber:
     case zj_JSONTypeString: {
       char *s = zj_allocatorAlloc(A, node->Len);
+      if (zj_UNLIKELY(s == 0)) {
+        v->N = 0;
+        return false;
+      }
       zj_memCopy(node->Value.Str, node->Len, s);
       des_node->Value.Str = s;
       des_node->Len = node->Len;
@@ -2164,6 +2268,10 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
         node = node->Next;
         struct zj_node *n =
             (struct zj_node *)zj_allocatorAlloc(A, sizeof(struct zj_node));
+        if (zj_UNLIKELY(n == 0)) {
+          v->N = 0;
+          return false;
+        }
         n->Father = des_node->Father;
         n->Prev = des_node;
         n->Father->End = n;
@@ -2184,6 +2292,8 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
 // 把v拷贝到由alloc分配的新值，非对外API
 static inline zj_Value *zj_copyTo(zj_Allocator *alloc, const zj_Value *v) {
   zj_Value *ret_val = zj_NewValue(alloc);
+  if (zj_UNLIKELY(ret_val == 0))
+    return 0;
   if (zj_UNLIKELY(zj_ValueCopyFrom(ret_val, v) == false))
     return 0;
   return ret_val;
@@ -2221,6 +2331,8 @@ static inline bool zj_Move(zj_Value *v) {
 static inline void zj_SetNull(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2235,6 +2347,8 @@ static inline void zj_SetNull(zj_Value *v) {
 static inline void zj_SetBool(zj_Value *v, bool b) {
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2257,6 +2371,8 @@ static inline bool zj_SetNumStrFast(zj_Value *v, const char *num) {
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2275,6 +2391,8 @@ static inline bool zj_SetNumStrLenFast(zj_Value *v, const char *num,
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2292,9 +2410,13 @@ static inline bool zj_SetNumStr(zj_Value *v, const char *num) {
   if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
     return false;
   char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
   zj_memCopy(num, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2311,9 +2433,13 @@ static inline bool zj_SetNumStrLen(zj_Value *v, const char *num, zj_Size len) {
   if (zj_UNLIKELY(zj_checkNumLen(num, len) == false))
     return false;
   char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
   zj_memCopy(num, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2335,9 +2461,13 @@ static inline bool zj_SetDouble(zj_Value *v, const double d) {
   if (zj_UNLIKELY(d - d != 0))
     return false;
   char *num = zj_allocatorAlloc(v->A, 32);
+  if (zj_UNLIKELY(num == 0))
+    return false;
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2351,9 +2481,13 @@ static inline bool zj_SetDouble(zj_Value *v, const double d) {
 
 static inline bool zj_SetInt(zj_Value *v, const int n) {
   char *num = zj_allocatorAlloc(v->A, 16);
+  if (zj_UNLIKELY(num == 0))
+    return false;
   zj_Size len = zj_intToStr(n, num);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2367,9 +2501,13 @@ static inline bool zj_SetInt(zj_Value *v, const int n) {
 
 static inline bool zj_SetLong(zj_Value *v, const long n) {
   char *num = zj_allocatorAlloc(v->A, 24);
+  if (zj_UNLIKELY(num == 0))
+    return false;
   zj_Size len = zj_longToStr(n, num);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2383,9 +2521,13 @@ static inline bool zj_SetLong(zj_Value *v, const long n) {
 
 static inline bool zj_SetLongLong(zj_Value *v, const long long n) {
   char *num = zj_allocatorAlloc(v->A, 24);
+  if (zj_UNLIKELY(num == 0))
+    return false;
   zj_Size len = zj_longLongToStr(n, num);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2399,12 +2541,16 @@ static inline bool zj_SetLongLong(zj_Value *v, const long long n) {
 
 static inline bool zj_SetStrEscape(zj_Value *v, const char *str) {
   const char *es = zj_escapeStr(str, v->A);
+  if (zj_UNLIKELY(es == 0))
+    return false;
   return zj_SetStrFast(v, es);
 }
 
 static inline bool zj_SetStrLenEscape(zj_Value *v, const char *str,
                                       zj_Size len) {
   const char *es = zj_escapeStrLen(str, v->A, len);
+  if (zj_UNLIKELY(es == 0))
+    return false;
   return zj_SetStrFast(v, es);
 }
 
@@ -2416,6 +2562,8 @@ static inline bool zj_SetStrFast(zj_Value *v, const char *str) {
   }
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2434,6 +2582,8 @@ static inline bool zj_SetStrLenFast(zj_Value *v, const char *str, zj_Size len) {
   }
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2452,9 +2602,13 @@ static inline bool zj_SetStr(zj_Value *v, const char *str) {
     return false;
   }
   char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
   zj_memCopy(str, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2472,9 +2626,13 @@ static inline bool zj_SetStrLen(zj_Value *v, const char *str, zj_Size len) {
     return false;
   }
   char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
   zj_memCopy(str, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2488,12 +2646,16 @@ static inline bool zj_SetStrLen(zj_Value *v, const char *str, zj_Size len) {
 
 static inline bool zj_SetKeyEscape(zj_Value *v, const char *key) {
   const char *es = zj_escapeStr(key, v->A);
+  if (zj_UNLIKELY(es == 0))
+    return false;
   return zj_SetKeyFast(v, es);
 }
 
 static inline bool zj_SetKeyLenEscape(zj_Value *v, const char *key,
                                       zj_Size len) {
   const char *es = zj_escapeStrLen(key, v->A, len);
+  if (zj_UNLIKELY(es == 0))
+    return false;
   return zj_SetKeyFast(v, es);
 }
 
@@ -2505,6 +2667,8 @@ static inline bool zj_SetKeyFast(zj_Value *v, const char *key) {
   }
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
@@ -2527,6 +2691,8 @@ static inline bool zj_SetKeyLenFast(zj_Value *v, const char *key, zj_Size len) {
   }
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
@@ -2548,8 +2714,14 @@ static inline bool zj_SetKey(zj_Value *v, const char *key) {
   if (zj_UNLIKELY(zj_checkStr(key, &len) == false)) {
     return false;
   }
+  char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
+  zj_memCopy(key, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
@@ -2560,8 +2732,6 @@ static inline bool zj_SetKey(zj_Value *v, const char *key) {
              zj_UNLIKELY(v->N->Father->Type != zj_JSONTypeObject)) {
     return false;
   }
-  char *s = zj_allocatorAlloc(v->A, len);
-  zj_memCopy(key, len, s);
   v->N->Key = s;
   v->N->KeyLen = len;
   return true;
@@ -2572,8 +2742,14 @@ static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
   if (zj_UNLIKELY(zj_checkStrLen(key, len) == false)) {
     return false;
   }
+  char *s = zj_allocatorAlloc(v->A, len);
+  if (zj_UNLIKELY(s == 0))
+    return false;
+  zj_memCopy(key, len, s);
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return false;
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
@@ -2584,8 +2760,6 @@ static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
              zj_UNLIKELY(v->N->Father->Type != zj_JSONTypeObject)) {
     return false;
   }
-  char *s = zj_allocatorAlloc(v->A, len);
-  zj_memCopy(key, len, s);
   v->N->Key = s;
   v->N->KeyLen = len;
   return true;
@@ -2595,6 +2769,8 @@ static inline bool zj_SetKeyLen(zj_Value *v, const char *key, zj_Size len) {
 static inline void zj_SetArray(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
@@ -2610,6 +2786,8 @@ static inline void zj_SetArray(zj_Value *v) {
 static inline void zj_SetObj(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
+    if (zj_UNLIKELY(v->N == 0))
+      return;
     v->N->Key = 0;
     v->N->Prev = 0;
     v->N->Father = 0;
diff --git a/zzzjson.hpp b/zzzjson.hpp
index 147eda8..08e15fb 100644
--- a/zzzjson.hpp
+++ b/zzzjson.hpp
@@ -33,9 +33,7 @@ public:
   }
   Value *NewValue() {
     zj::Value *v = zj::zj_NewValue(val->A);
-    Value *ret = (Value *)zj::zj_allocatorAlloc(val->A, sizeof(Value));
-    ret->val = v;
-    return ret;
+    return innerNew(v);
   }
   bool ParseFast(const char *s) { return zj::zj_ParseFast(val, s); }
   bool ParseLen(const char *s, SIZE len) { return zj_ParseLen(val, s, len); }
@@ -138,6 +136,8 @@ private:
       return 0;
     zj::Allocator *A = v->A;
     Value *ret = (Value *)zj::zj_allocatorAlloc(A, sizeof(Value));
+    if (zj_UNLIKELY(ret == 0))
+      return 0;
     ret->val = v;
     return ret;
   }
-- 
2.43.0


From 75c61c601ad122d85a01e4230efd28d3b08323c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 11/18] fix: fail cleanly when zj_Size cannot express a size

Growing a block or a string past the range of zj_Size wrapped to zero (endless
loop or a block smaller than its content), len + 1 wrapped to a zero-byte
block, and texts longer than the range were scanned for ever. Such calls now
fail like any other that cannot get memory.
---
 zzzjson.h | 86 +++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 98843c4..6f99d8d 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -363,6 +363,14 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
+// 长度加上结束符后是否超出zj_Size的表示范围
+static inline bool zj_isTooLong(size_t len) { return len >= (zj_Size)-1; }
+
+// 字符串（包含结束符）是否超出zj_Size的表示范围
+static inline bool zj_strIsTooLong(const char *str) {
+  return sizeof(zj_Size) < sizeof(size_t) && zj_isTooLong(strlen(str));
+}
+
 static inline int zj_strToInt(const char *str) { return atoi(str); }
 static inline long zj_strToLong(const char *str) { return atol(str); }
 static inline long long zj_strToLongLong(const char *str) {
@@ -511,18 +519,30 @@ static inline bool zj_allocatorAppendChild(zj_Allocator *alloc,
   return true;
 }
 
+// 计算不小于size的新内存大小，zj_Size无法表示时返回0
+static inline zj_Size zj_growSize(zj_Size s, zj_Size size) {
+  const zj_Size max = (zj_Size)-1 - sizeof(struct zj_aNode);
+  if (zj_UNLIKELY(size > max))
+    return 0;
+  // 通过循环计算最终需要的空间大小
+  // 这里应该有更好的方法，就是直接通过计算所得
+  do {
+    // 每次分配内存的大小是上次的zj_Delta倍
+    s = zj_UNLIKELY(s > max / zj_Delta) ? max : s * zj_Delta;
+  } while (zj_UNLIKELY(size > s));
+  return s;
+}
+
 // 分配大小为size的内存，失败返回0
 static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
   if (zj_UNLIKELY(alloc == 0 || alloc->End == 0))
     return 0;
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
-  if (zj_UNLIKELY(cur_node->Pos + size > s)) {
-    s *= zj_Delta;
-    // 通过循环计算最终需要的空间大小
-    // 这里应该有更好的方法，就是直接通过计算所得
-    while (zj_UNLIKELY(size > s))
-      s *= zj_Delta; // 每次分配内存的大小是上次的zj_Delta倍
+  if (zj_UNLIKELY(size > s - cur_node->Pos)) {
+    s = zj_growSize(s, size);
+    if (zj_UNLIKELY(s == 0))
+      return 0;
     if (zj_UNLIKELY(zj_allocatorAppendChild(alloc, s) == false))
       return 0;
     cur_node = alloc->End;
@@ -566,12 +586,14 @@ static inline void zj_appendStr(struct zj_string *str, const char *s,
   if (zj_UNLIKELY(str->Data == 0))
     return;
   zj_Size src_s = str->SizeOf;
-  if (zj_UNLIKELY(str->Pos + size > src_s)) {
-    src_s *= zj_Delta;
-    while (zj_UNLIKELY(str->Pos + size > src_s))
-      src_s *= zj_Delta;
+  if (zj_UNLIKELY(size > src_s - str->Pos)) {
     const char *src_d = str->Data;
-    str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
+    // 总长度超出zj_Size的表示范围，视为内存不足
+    if (zj_UNLIKELY(size > (zj_Size)-1 - str->Pos))
+      src_s = 0;
+    else
+      src_s = zj_growSize(src_s, str->Pos + size);
+    str->Data = src_s == 0 ? 0 : (char *)zj_allocatorAlloc(str->A, src_s);
     if (zj_UNLIKELY(str->Data == 0))
       return;
     str->SizeOf = src_s;
@@ -587,9 +609,9 @@ static inline void zj_appendChar(struct zj_string *str, const char c) {
     return;
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
-    src_s *= zj_Delta;
+    src_s = zj_growSize(src_s, str->Pos + 1);
     const char *src_d = str->Data;
-    str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
+    str->Data = src_s == 0 ? 0 : (char *)zj_allocatorAlloc(str->A, src_s);
     if (zj_UNLIKELY(str->Data == 0))
       return;
     str->SizeOf = src_s;
@@ -1105,15 +1127,17 @@ static const struct zj_escapeChar zj_escapeChars[256] = {
     {"\xf8", 1},    {"\xf9", 1},    {"\xfa", 1},    {"\xfb", 1},
     {"\xfc", 1},    {"\xfd", 1},    {"\xfe", 1},    {"\xff", 1}};
 
-// str必定不为空，只有内存分配失败才返回0
+// str必定不为空，只有内存分配失败或结果过长才返回0
 static inline const char *zj_escapeStr(const char *str, zj_Allocator *a) {
-  zj_Size len = 0;
+  size_t len = 0;
   const char *src = str;
   while (zj_LIKELY(*str != 0)) {
     len += zj_escapeChars[(unsigned char)(*str)].Len;
     ++str;
   }
-  char *s = zj_allocatorAlloc(a, len + 1);
+  if (zj_UNLIKELY(zj_isTooLong(len)))
+    return 0;
+  char *s = zj_allocatorAlloc(a, (zj_Size)(len + 1));
   if (zj_UNLIKELY(s == 0))
     return 0;
   zj_Size index = 0;
@@ -1127,10 +1151,10 @@ static inline const char *zj_escapeStr(const char *str, zj_Allocator *a) {
   return s;
 }
 
-// str必定不为空，只有内存分配失败才返回0
+// str必定不为空，只有内存分配失败或结果过长才返回0
 static inline const char *zj_escapeStrLen(const char *str, zj_Allocator *a,
                                           zj_Size len) {
-  zj_Size l = 0;
+  size_t l = 0;
   const char *src = str;
   zj_Size srcLen = len;
   while (zj_LIKELY(len != 0)) {
@@ -1138,7 +1162,9 @@ static inline const char *zj_escapeStrLen(const char *str, zj_Allocator *a,
     ++str;
     --len;
   }
-  char *s = zj_allocatorAlloc(a, l + 1);
+  if (zj_UNLIKELY(zj_isTooLong(l)))
+    return 0;
+  char *s = zj_allocatorAlloc(a, (zj_Size)(l + 1));
   if (zj_UNLIKELY(s == 0))
     return 0;
   zj_Size index = 0;
@@ -1215,6 +1241,8 @@ static inline bool zj_consumeStr(const char *s, zj_Size *index) {
 
 // 检查一个字符串是否符合JSON标准，主要用于 SetStr
 static inline bool zj_checkStr(const char *s, zj_Size *len) {
+  if (zj_UNLIKELY(zj_strIsTooLong(s)))
+    return false;
   zj_Size index = 0;
   char c;
   c = s[index++];
@@ -1274,6 +1302,8 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 }
 // 检查长度为 len 的字符串是否符合JSON标准，字符串不需要以0结束
 static inline bool zj_checkStrLen(const char *s, zj_Size len) {
+  if (zj_UNLIKELY(zj_isTooLong(len)))
+    return false;
   zj_Size index = 0;
   while (zj_LIKELY(index < len)) {
     char c = s[index++];
@@ -1372,6 +1402,8 @@ static inline bool zj_consumeNum(const char *s, zj_Size *index) {
 
 // 检查一个数字是否符合JSON标准，主要用于 SetNum
 static inline bool zj_checkNum(const char *s, zj_Size *len) {
+  if (zj_UNLIKELY(zj_strIsTooLong(s)))
+    return false;
   zj_Size index = 0;
 
   if (s[index] == '-')
@@ -1432,6 +1464,8 @@ static inline bool zj_consumeDigits(const char *s, zj_Size *index,
 
 // 检查长度为 len 的数字是否符合JSON标准，不需要以0结束
 static inline bool zj_checkNumLen(const char *s, zj_Size len) {
+  if (zj_UNLIKELY(zj_isTooLong(len)))
+    return false;
   zj_Size index = 0;
 
   if (index < len && s[index] == '-')
@@ -1461,6 +1495,8 @@ static inline bool zj_checkNumLen(const char *s, zj_Size len) {
 
 // 函数说明详见《API》
 static inline bool zj_ParseFast(zj_Value *v, const char *s) {
+  if (zj_UNLIKELY(zj_strIsTooLong(s)))
+    return false;
   struct zj_node *src_node;
   if (zj_LIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
@@ -1814,6 +1850,8 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
 
 // 函数说明详见《API》
 static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
+  if (zj_UNLIKELY(zj_isTooLong(len)))
+    return false;
   char *str = zj_allocatorAlloc(v->A, len + 1);
   if (zj_UNLIKELY(str == 0))
     return false;
@@ -1824,6 +1862,8 @@ static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
 
 // 函数说明详见《API》
 static inline bool zj_Parse(zj_Value *v, const char *s) {
+  if (zj_UNLIKELY(zj_strIsTooLong(s)))
+    return false;
   return zj_ParseLen(v, s, zj_strLen(s));
 }
 
@@ -2852,6 +2892,8 @@ static inline bool zj_ObjAddFast(zj_Value *v, zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeObject))
     return false;
+  if (zj_UNLIKELY(v->N->Len == (zj_Size)-1))
+    return false;
   if (zj_UNLIKELY(vv->N == 0))
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
@@ -2879,6 +2921,8 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeObject))
     return false;
+  if (zj_UNLIKELY(v->N->Len == (zj_Size)-1))
+    return false;
   if (zj_UNLIKELY(vv->N == 0))
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
@@ -2906,6 +2950,8 @@ static inline bool zj_ArrayAddFast(zj_Value *v, zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
+  if (zj_UNLIKELY(v->N->Len == (zj_Size)-1))
+    return false;
   if (zj_UNLIKELY(zj_Move(vv) == false))
     return false;
   vv->N->Key = 0;
@@ -2930,6 +2976,8 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
+  if (zj_UNLIKELY(v->N->Len == (zj_Size)-1))
+    return false;
   zj_Value *cp = zj_copyTo(v->A, vv);
   if (zj_UNLIKELY(cp == 0))
     return false;
-- 
2.43.0


From 06d2ab8d233e96a1ca14539cd9ca8f6a5ed58c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 12/18] fix: zj_ParseLen accepted anything after an embedded
 NUL

Only the part before the NUL was parsed, so a text damaged by a NUL byte was
silently read as its prefix.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 6f99d8d..75eb5e9 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1852,6 +1852,9 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
 static inline bool zj_ParseLen(zj_Value *v, const char *s, zj_Size len) {
   if (zj_UNLIKELY(zj_isTooLong(len)))
     return false;
+  // 文本不允许包含0，否则0后面的内容会被忽略
+  if (zj_UNLIKELY(memchr(s, 0, len) != 0))
+    return false;
   char *str = zj_allocatorAlloc(v->A, len + 1);
   if (zj_UNLIKELY(str == 0))
     return false;
-- 
2.43.0


From af71005a37ac60f15577bb4cabfa6eb4146f849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:34 +0000
Subject: [PATCH 13/18] fix: end stored number texts so that zj_GetNumFast can
 be fed to atoi

The documentation says the result of the fast reader may be passed to atoi
because a number is always followed by , ] } or NUL. Numbers stored by
zj_SetNumStr, zj_SetNumStrLen and the copying calls were followed by whatever
the arena held next.
---
 zzzjson.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 75eb5e9..1035aeb 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2296,12 +2296,13 @@ static inline bool zj_ValueCopyFrom(zj_Value *v, const zj_Value *vv) {
       break;
     case zj_JSONTypeNumber:
     case zj_JSONTypeString: {
-      char *s = zj_allocatorAlloc(A, node->Len);
+      char *s = zj_allocatorAlloc(A, node->Len + 1);
       if (zj_UNLIKELY(s == 0)) {
         v->N = 0;
         return false;
       }
       zj_memCopy(node->Value.Str, node->Len, s);
+      s[node->Len] = 0;
       des_node->Value.Str = s;
       des_node->Len = node->Len;
     } break;
@@ -2452,10 +2453,11 @@ static inline bool zj_SetNumStr(zj_Value *v, const char *num) {
   zj_Size len = 0;
   if (zj_UNLIKELY(zj_checkNum(num, &len) == false))
     return false;
-  char *s = zj_allocatorAlloc(v->A, len);
+  char *s = zj_allocatorAlloc(v->A, len + 1);
   if (zj_UNLIKELY(s == 0))
     return false;
   zj_memCopy(num, len, s);
+  s[len] = 0;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
     if (zj_UNLIKELY(v->N == 0))
@@ -2475,10 +2477,11 @@ static inline bool zj_SetNumStr(zj_Value *v, const char *num) {
 static inline bool zj_SetNumStrLen(zj_Value *v, const char *num, zj_Size len) {
   if (zj_UNLIKELY(zj_checkNumLen(num, len) == false))
     return false;
-  char *s = zj_allocatorAlloc(v->A, len);
+  char *s = zj_allocatorAlloc(v->A, len + 1);
   if (zj_UNLIKELY(s == 0))
     return false;
   zj_memCopy(num, len, s);
+  s[len] = 0;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = (struct zj_node *)zj_allocatorAlloc(v->A, sizeof(struct zj_node));
     if (zj_UNLIKELY(v->N == 0))
-- 
2.43.0


From e691789b68343c76b17dae90624d7b1d379d8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:12 +0000
Subject: [PATCH 14/18] fix: number conversion depended on the decimal point of
 the process locale

---
 zzzjson.h | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 1035aeb..67a0a55 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -4,7 +4,7 @@
 #include <stdbool.h> // 使用其 bool
 #include <stdint.h>  // 使用其 uint32_t
 #include <stdio.h>   // 使用其 sprintf 函数
-#include <stdlib.h>  // 使用其 atof malloc free 函数
+#include <stdlib.h>  // 使用其 strtod malloc free 函数
 #include <string.h>  // 使用其 memcpy 函数
 
 // API模式
@@ -376,7 +376,6 @@ static inline long zj_strToLong(const char *str) { return atol(str); }
 static inline long long zj_strToLongLong(const char *str) {
   return atoll(str);
 }
-static inline double zj_strToDouble(const char *str) { return atof(str); }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
   // int 最大长度不超过12
@@ -392,7 +391,19 @@ static inline zj_Size zj_longLongToStr(long long n, char *buff) {
 }
 static inline zj_Size zj_doubleToStr(double n, char *buff) {
   // double最大精度是17，使用sprintf转出字符串，%.17g，最大长度不超过32
-  return snprintf(buff, 32, "%.17g", n);
+  zj_Size len = snprintf(buff, 32, "%.17g", n);
+  // 小数点由locale决定，可能是其他字符（甚至多个字节），换成JSON的小数点
+  zj_Size begin = 0, end;
+  while (begin < len && (buff[begin] == '-' ||
+                         (buff[begin] >= '0' && buff[begin] <= '9')))
+    ++begin;
+  if (begin == len || buff[begin] == 'e')
+    return len;
+  for (end = begin; end < len && (buff[end] < '0' || buff[end] > '9'); ++end)
+    ;
+  buff[begin] = '.';
+  memmove(buff + begin + 1, buff + end, len - end + 1);
+  return len - (end - begin) + 1;
 }
 
 // 字符串比较，a必须以0结束，len为b的长度。
@@ -2032,7 +2043,23 @@ static inline const double *zj_GetDouble(zj_Value *v) {
   double *d = (double *)zj_allocatorAlloc(v->A, sizeof(double));
   if (zj_UNLIKELY(d == 0))
     return 0;
-  *d = zj_strToDouble(num);
+  char *end;
+  *d = strtod(num, &end);
+  if (zj_UNLIKELY(*end == '.')) {
+    // 小数点由locale决定，换成当前locale的小数点（可能有多个字节）再转换
+    char point[16];
+    zj_Size point_len = snprintf(point, 16, "%.1f", 0.5) - 2;
+    zj_Size pos = end - num;
+    if (zj_UNLIKELY(zj_isTooLong((size_t)v->N->Len + point_len)))
+      return 0;
+    char *str = zj_allocatorAlloc(v->A, v->N->Len + point_len);
+    if (zj_UNLIKELY(str == 0))
+      return 0;
+    zj_memCopy(num, pos, str);
+    zj_memCopy(point + 1, point_len, str + pos);
+    zj_memCopy(end + 1, v->N->Len - pos, str + pos + point_len);
+    *d = strtod(str, 0);
+  }
   return d;
 }
 
-- 
2.43.0


From 429cae1889734e394f8a059ccd99fc7bee16d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:02 +0000
Subject: [PATCH 15/18] fix: moving an element of replaced content corrupted
 its former container

When the content of a container was replaced (by any setter, a parse, set or
fast set) its old elements kept pointing to it. Moving such an element, or
deleting through it, then relinked and recounted the new content: a following
Stringify crashed or printed the old elements. Old elements now lose their
parent when the content is replaced; they keep their siblings.
---
 zzzjson.h | 72 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 67a0a55..679ecb1 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -783,6 +783,17 @@ static inline zj_Value *zj_NewValue(zj_Allocator *alloc) {
   return v;
 }
 
+// 值的内容将被替换，原有的子节点不再属于它
+static inline void zj_dropChildren(const struct zj_node *node) {
+  if (node->Type != zj_JSONTypeArray && node->Type != zj_JSONTypeObject)
+    return;
+  struct zj_node *n = node->Value.Node;
+  while (n != 0) {
+    n->Father = 0;
+    n = n->Next;
+  }
+}
+
 // 创建一个值，并赋值
 static inline zj_Value *zj_innerNewValue(zj_Allocator *alloc,
                                          struct zj_node *n) {
@@ -1850,6 +1861,8 @@ static inline bool zj_ParseFast(zj_Value *v, const char *s) {
     }
   }
   if (zj_LIKELY(zj_likelyPeekAndConsume(0, s, &index))) {
+    if (zj_UNLIKELY(src_node != 0))
+      zj_dropChildren(src_node);
     return true;
   }
   if (zj_LIKELY(src_node == 0))
@@ -2379,19 +2392,20 @@ static inline zj_Value *zj_Copy(const zj_Value *v) {
 static inline bool zj_Move(zj_Value *v) {
   if (zj_UNLIKELY(v->N == 0))
     return false;
+  // 父节点的内容被替换后，Father为0，但是Prev和Next仍然指向原来的兄弟节点
+  if (v->N->Prev != 0) {
+    v->N->Prev->Next = v->N->Next;
+  } else if (v->N->Father != 0) {
+    v->N->Father->Value.Node = v->N->Next;
+  }
+  if (v->N->Next != 0) {
+    v->N->Next->Prev = v->N->Prev;
+  } else if (v->N->Father != 0) {
+    v->N->Father->End = v->N->Prev;
+  }
+  v->N->Prev = 0;
+  v->N->Next = 0;
   if (v->N->Father != 0) {
-    if (v->N->Prev == 0) {
-      v->N->Father->Value.Node = v->N->Next;
-    } else {
-      v->N->Prev->Next = v->N->Next;
-    }
-    if (v->N->Next == 0) {
-      v->N->Father->End = v->N->Prev;
-    } else {
-      v->N->Next->Prev = v->N->Prev;
-    }
-    v->N->Prev = 0;
-    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
@@ -2408,6 +2422,8 @@ static inline void zj_SetNull(zj_Value *v) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNull;
   v->N->Value.Str = zj_strNull;
@@ -2424,6 +2440,8 @@ static inline void zj_SetBool(zj_Value *v, bool b) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeBool;
   if (b == false) {
@@ -2448,6 +2466,8 @@ static inline bool zj_SetNumStrFast(zj_Value *v, const char *num) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2468,6 +2488,8 @@ static inline bool zj_SetNumStrLenFast(zj_Value *v, const char *num,
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2493,6 +2515,8 @@ static inline bool zj_SetNumStr(zj_Value *v, const char *num) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = s;
@@ -2517,6 +2541,8 @@ static inline bool zj_SetNumStrLen(zj_Value *v, const char *num, zj_Size len) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = s;
@@ -2545,6 +2571,8 @@ static inline bool zj_SetDouble(zj_Value *v, const double d) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2565,6 +2593,8 @@ static inline bool zj_SetInt(zj_Value *v, const int n) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2585,6 +2615,8 @@ static inline bool zj_SetLong(zj_Value *v, const long n) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2605,6 +2637,8 @@ static inline bool zj_SetLongLong(zj_Value *v, const long long n) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeNumber;
   v->N->Value.Str = num;
@@ -2641,6 +2675,8 @@ static inline bool zj_SetStrFast(zj_Value *v, const char *str) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeString;
   v->N->Value.Str = str;
@@ -2661,6 +2697,8 @@ static inline bool zj_SetStrLenFast(zj_Value *v, const char *str, zj_Size len) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeString;
   v->N->Value.Str = str;
@@ -2686,6 +2724,8 @@ static inline bool zj_SetStr(zj_Value *v, const char *str) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeString;
   v->N->Value.Str = s;
@@ -2710,6 +2750,8 @@ static inline bool zj_SetStrLen(zj_Value *v, const char *str, zj_Size len) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeString;
   v->N->Value.Str = s;
@@ -2848,6 +2890,8 @@ static inline void zj_SetArray(zj_Value *v) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeArray;
   v->N->Value.Node = 0;
@@ -2865,6 +2909,8 @@ static inline void zj_SetObj(zj_Value *v) {
     v->N->Prev = 0;
     v->N->Father = 0;
     v->N->Next = 0;
+  } else {
+    zj_dropChildren(v->N);
   }
   v->N->Type = zj_JSONTypeObject;
   v->N->Value.Node = 0;
@@ -2881,6 +2927,7 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
     vv->N = 0;
     return true;
   }
+  zj_dropChildren(v->N);
   v->N->Type = vv->N->Type;
   v->N->Value = vv->N->Value;
   v->N->Len = vv->N->Len;
@@ -2905,6 +2952,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
     v->N = cp->N;
     return true;
   }
+  zj_dropChildren(v->N);
   v->N->Type = cp->N->Type;
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
-- 
2.43.0


From 2de98bbd7d39af7c25131bb15a6b83c25e8376d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 16/18] fix: after a fast set other handles to the moved value
 crashed

zj_SetFast moves the content of one node into another. A second handle to the
node it was taken from still showed the children, whose parent was now another
node, so serialising or copying it walked off the tree. That node is now null.
Setting a value to itself emptied the handle or detached the value; it is a
no-op now.
---
 zzzjson.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 679ecb1..167846e 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2920,6 +2920,9 @@ static inline void zj_SetObj(zj_Value *v) {
 
 // 函数说明详见《API》
 static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
+  // 同一个值
+  if (zj_UNLIKELY(v->N != 0 && v->N == vv->N))
+    return true;
   if (zj_UNLIKELY(zj_Move(vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2939,6 +2942,10 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
       next = next->Next;
     }
   }
+  // 内容已经属于v，其他指向vv节点的值变成null
+  vv->N->Type = zj_JSONTypeNull;
+  vv->N->Value.Str = zj_strNull;
+  vv->N->Len = 4;
   vv->N = 0;
   return true;
 }
-- 
2.43.0


From 30b847511db435f36137c63e64cbc8734720bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 17/18] fix: a fast set or add could put a value inside itself

Moving a value into itself or into one of its descendants made a cycle:
Stringify and Copy of it then never ended. It is refused now. Only moving a
value that has children looks at the ancestors of the target.
---
 zzzjson.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 167846e..97d4cde 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2918,11 +2918,27 @@ static inline void zj_SetObj(zj_Value *v) {
   return;
 }
 
+// node是否为father或者在father之内，非对外API
+static inline bool zj_isInside(const struct zj_node *node,
+                               const struct zj_node *father) {
+  // 没有子节点，只可能是father本身
+  if ((father->Type != zj_JSONTypeArray &&
+       father->Type != zj_JSONTypeObject) ||
+      father->Value.Node == 0)
+    return node == father;
+  while (node != 0 && node != father)
+    node = node->Father;
+  return node != 0;
+}
+
 // 函数说明详见《API》
 static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
   // 同一个值
   if (zj_UNLIKELY(v->N != 0 && v->N == vv->N))
     return true;
+  // 值不能放到自己里面
+  if (zj_UNLIKELY(vv->N != 0 && zj_isInside(v->N, vv->N)))
+    return false;
   if (zj_UNLIKELY(zj_Move(vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
@@ -2986,6 +3002,8 @@ static inline bool zj_ObjAddFast(zj_Value *v, zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
+  if (zj_UNLIKELY(zj_isInside(v->N, vv->N)))
+    return false;
   if (zj_UNLIKELY(zj_Move(vv) == false))
     return false;
   vv->N->Father = v->N;
@@ -3040,6 +3058,8 @@ static inline bool zj_ArrayAddFast(zj_Value *v, zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Len == (zj_Size)-1))
     return false;
+  if (zj_UNLIKELY(vv->N != 0 && zj_isInside(v->N, vv->N)))
+    return false;
   if (zj_UNLIKELY(zj_Move(vv) == false))
     return false;
   vv->N->Key = 0;
-- 
2.43.0


From 49d1915a80c0ec06bc546707b03e71f564ef6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 18/18] fix: growing from a configured initial size of 0 never
 ended

With zj_ALLOCATOR_INIT_MEMSIZE or zj_STRING_INIT_MEMSIZE set to 0 (no block or
buffer taken in advance) zj_growSize multiplied 0 for ever.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index 97d4cde..2fa64ec 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -535,6 +535,9 @@ static inline zj_Size zj_growSize(zj_Size s, zj_Size size) {
   const zj_Size max = (zj_Size)-1 - sizeof(struct zj_aNode);
   if (zj_UNLIKELY(size > max))
     return 0;
+  // 初始大小可以配置为0，从1开始，否则永远不会变大
+  if (zj_UNLIKELY(s == 0))
+    s = 1;
   // 通过循环计算最终需要的空间大小
   // 这里应该有更好的方法，就是直接通过计算所得
   do {
-- 
2.43.0

