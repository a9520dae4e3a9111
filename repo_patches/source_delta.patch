From 5fac6dfb0c086e55b1f2ace36e89b2ebb4f1f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 01/13] fix: don't rely on a global nullptr_t, which clang's
 stddef.h doesn't declare

---
 include/coil/detail/Bindings.h | 2 +-
 src/Coil.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/detail/Bindings.h b/include/coil/detail/Bindings.h
index fa62890..4cae4df 100644
--- a/include/coil/detail/Bindings.h
+++ b/include/coil/detail/Bindings.h
@@ -75,7 +75,7 @@ namespace coil
         }
         BindingProxy& operator=(AnyFunctor anyFunctor);
         BindingProxy& operator=(Vector<AnyFunctor> anyFunctors);
-        BindingProxy& operator=(nullptr_t);
+        BindingProxy& operator=(decltype(nullptr));
 
     private:
         Bindings& m_bindings;
diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..1c7e488 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -327,7 +327,7 @@ namespace coil
         m_bindings.add(m_name, coil::move(anyFunctors));
         return *this;
     }
-    BindingProxy& BindingProxy::operator=(nullptr_t)
+    BindingProxy& BindingProxy::operator=(decltype(nullptr))
     {
         m_bindings.remove(m_name);
         return *this;
-- 
2.43.0


From aca0dc30ef69a8eb473bb152cc211ce26fbb41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 02/13] fix: include stdint.h for the integer aliases
 (COIL_TYPE_NAME_USE_INTEGER_ALIAS)

---
 src/Coil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 1c7e488..f83d9fc 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #if COIL_CONFIG_CATCH_EXCEPTIONS
-- 
2.43.0


From 5a0b5fab79f1ee9ac5748c4cd8f3c1336b1671e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 03/13] fix: a lone quote inside a group is not a quoted field
 of length -1

---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..7a2751d 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin > 1 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From 8ecfbb218244dbad9561b693399075ee5162edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 04/13] fix: update the back link of the next node when
 UnorderedMap::erase relocates the last node

---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..de984f0 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 644bca9f8c997dbd5715db57833722851f61b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 05/13] fix: String::append with a part of the string itself,
 or with an empty null range

---
 src/String.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..d80d40e 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,8 +101,16 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+    char const* oldData = m_buffer.data();
+    bool const isSelfAppend = oldData && str >= oldData && str <= oldData + oldSize;
+    size_t const selfOffset = isSelfAppend ? static_cast<size_t>(str - oldData) : 0;
+
     resize(oldSize + length);
-    memcpy(m_buffer.data() + oldSize, str, length);
+
+    if (isSelfAppend) // the buffer might have been reallocated
+        str = m_buffer.data() + selfOffset;
+    if (length > 0)
+        memmove(m_buffer.data() + oldSize, str, length);
 
     validateIsNullTerminated();
 }
-- 
2.43.0


From ccf46fa500eca58f327d19971de9f2ecbc894276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 06/13] fix: don't wrap a negative number after leading spaces
 into an unsigned value

---
 src/StringConv.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..dce394d 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -49,8 +49,9 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
-            return false;
+        for (char c : str)
+            if (c == '-') // strtoX would accept and wrap it, even after leading spaces
+                return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
 
-- 
2.43.0


From 98913ea931b74250d5c5b5d89e63d499cebc54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 07/13] fix: serialize a null char const* like any other null
 pointer

---
 src/Coil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index f83d9fc..47e512d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -590,6 +590,9 @@ namespace coil
 
     String coil::TypeSerializer<char const*>::toString(char const* const& value)
     {
+        if (!value)
+            return "null";
+
         return String{value};
     }
 
-- 
2.43.0


From bf1ec7a28d0d92225688afdeefb229c6bffd8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 08/13] fix: vsprintf writes out of bounds if vsnprintf reports
 an encoding error

---
 src/Coil.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 47e512d..6a45980 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -611,11 +611,14 @@ namespace coil
     {
         va_list args2;
         va_copy(args2, args);
-        size_t stringSize = static_cast<size_t>(vsnprintf(nullptr, 0, format, args2));
+        int const formattedSize = vsnprintf(nullptr, 0, format, args2);
         va_end(args2);
 
         String str;
-        str.resize(stringSize);
+        if (formattedSize < 0) // encoding error
+            return str;
+
+        str.resize(static_cast<size_t>(formattedSize));
 
         [[maybe_unused]] int result = vsnprintf(str.data(), str.length() + 1, format, args);
 
-- 
2.43.0


From 2a194ada4b4fc2bb3ee8a0817a7527fe3f77e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 09/13] fix: conversion of a default-constructed
 std::string_view

---
 include/coil/StdLibCompat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 6490fd2..87a7356 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -198,10 +198,16 @@ inline std::string_view coil::toStdStringView(StringView str)
 
 inline coil::String coil::fromStdString(std::string_view str)
 {
+    if (str.empty()) // default-constructed std::string_view has no data
+        return {};
+
     return {str.data(), str.length()};
 }
 
 inline coil::StringView coil::fromStdStringView(std::string_view str)
 {
+    if (!str.data()) // default-constructed std::string_view has no data
+        return {};
+
     return {str.data(), str.length()};
 }
-- 
2.43.0


From 32b9d330bfc1531fafff453e48fe4161af2f634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 10/13] fix: std::optional silently drops all the subvalues
 after the first one

---
 include/coil/StdLibCompat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 87a7356..cf1d98d 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -95,10 +95,10 @@ namespace coil
     {
         static Expected<std::optional<T>, String> fromString(Value const& input)
         {
-            if (input.subvalues.empty() || input.subvalues[0].empty())
+            if (input.subvalues.empty() || (input.subvalues.size() == 1 && input.subvalues[0].empty()))
                 return std::optional<T>{};
 
-            auto innerValue = TypeSerializer<T>::fromString(input.subvalues[0]);
+            auto innerValue = TypeSerializer<T>::fromString(input);
             if (innerValue)
                 return std::optional<T>{coil::move(innerValue).value()};
 
-- 
2.43.0


From 560c052d0efe470334217910f21b11d45b1c4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 11/13] fix: match non-ASCII characters in a custom
 DefaultLexer configuration

---
 include/coil/detail/DefaultLexer.h | 10 +++++-----
 src/DefaultLexer.cpp               | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/coil/detail/DefaultLexer.h b/include/coil/detail/DefaultLexer.h
index 1eccb8d..7a3e382 100644
--- a/include/coil/detail/DefaultLexer.h
+++ b/include/coil/detail/DefaultLexer.h
@@ -27,11 +27,11 @@ namespace coil
         enum class CharType;
         struct Token;
 
-        bool isGroupChar(unsigned char c) const;
-        bool isQuote(unsigned char c) const;
-        bool isGroupSeparator(unsigned char c) const;
-        bool isSpace(unsigned char c) const;
-        CharType getCharType(unsigned char c) const;
+        bool isGroupChar(char c) const;
+        bool isQuote(char c) const;
+        bool isGroupSeparator(char c) const;
+        bool isSpace(char c) const;
+        CharType getCharType(char c) const;
 
         Vector<StringView> splitGroup(StringView str) const;
         Value createValue(Token const& token) const;
diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index 7a2751d..adc8c4c 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -51,17 +51,17 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
     return parse(*coil::move(tokens));
 }
 
-bool coil::DefaultLexer::isGroupChar(unsigned char c) const
+bool coil::DefaultLexer::isGroupChar(char c) const
 {
     return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
 }
 
-bool coil::DefaultLexer::isQuote(unsigned char c) const
+bool coil::DefaultLexer::isQuote(char c) const
 {
     return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
 }
 
-bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
+bool coil::DefaultLexer::isGroupSeparator(char c) const
 {
     if (isSpace(c))
         return true;
@@ -69,12 +69,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
 }
 
-bool coil::DefaultLexer::isSpace(unsigned char c) const
+bool coil::DefaultLexer::isSpace(char c) const
 {
     return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
 }
 
-coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
+coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(char c) const
 {
     if (c == '=')
         return CharType::Assignment;
@@ -102,7 +102,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
 
         size_t stringBegin = i;
         bool inQuotes = false;
-        auto shouldSkipChar = [this](unsigned char c, bool inQuotes) { return inQuotes || !isGroupSeparator(c); };
+        auto shouldSkipChar = [this](char c, bool inQuotes) { return inQuotes || !isGroupSeparator(c); };
         while ((i < str.length()) && shouldSkipChar(str[i], inQuotes))
         {
             if (isQuote(str[i]))
-- 
2.43.0


From 4bc1ad3d7c6e2faddd50783850dd2a57cad63e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 12/13] fix: UnorderedMap division by zero with no buckets
 (e.g. maximum load factor below 1)

---
 include/coil/detail/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index de984f0..7283b76 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -304,7 +304,7 @@ namespace coil
 
         void rehash(size_t buckets)
         {
-            m_buckets.resize(buckets);
+            m_buckets.resize(buckets > 0 ? buckets : 1);
             resetBuckets();
 
             for (size_t nodeIndex = 0; nodeIndex < m_nodes.size(); nodeIndex++)
-- 
2.43.0


From 0ac96000a663e8601c1fa7bf944ea167d4c84e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 13/13] fix: tolower of negative characters in the conversion
 to bool

---
 src/Coil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 6a45980..a74f75f 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -531,7 +531,7 @@ namespace coil
                 return false;
 
             for (size_t i = 0; i < a.length(); i++)
-                if (tolower(a[i]) != tolower(b[i]))
+                if (tolower(static_cast<unsigned char>(a[i])) != tolower(static_cast<unsigned char>(b[i])))
                     return false;
 
             return true;
-- 
2.43.0

