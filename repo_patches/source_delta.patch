From 3bc1417b09ae7266ffd431ab04c48ae78a39e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 01/10] fix: don't strip a lone quote from a group element

splitGroup treated the same character as both the opening and the closing
quote, so 'f (\')' produced a view of length SIZE_MAX (or an assert).
---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..7a2751d 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin > 1 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From c716ad50d5920193e378720ea7ac7e016715f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 02/10] fix: make String::append safe for parts of the string
 itself

Appending a string (or a view of it) to itself read the old buffer after it
had been reallocated.
---
 src/String.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..5dd7ba4 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,7 +101,16 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+
+    // the appended string may be a part of this string, whose buffer may be reallocated
+    char const* oldData = m_buffer.data();
+    bool const isAliased = oldData && str >= oldData && str <= oldData + oldSize;
+    size_t const offset = isAliased ? static_cast<size_t>(str - oldData) : 0;
+
     resize(oldSize + length);
+    if (isAliased)
+        str = m_buffer.data() + offset;
+
     memcpy(m_buffer.data() + oldSize, str, length);
 
     validateIsNullTerminated();
-- 
2.43.0


From a247efadbf69f4541aa87efb27b5fd44cb5353ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 03/10] fix: reject negative unsigned integers that follow
 whitespace

' -1' was accepted as an unsigned integer and wrapped around.
---
 src/StringConv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..97b7f39 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -1,5 +1,6 @@
 #include "coil/detail/StringConv.h"
 
+#include "coil/detail/Algorithm.h"
 #include "coil/detail/String.h"
 #include "coil/detail/StringView.h"
 #include "coil/detail/Utils.h"
@@ -49,7 +50,8 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
+        // strtoX functions skip leading whitespace and wrap negative values around
+        if (coil::find(str.begin(), str.end(), '-') != str.end())
             return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
-- 
2.43.0


From 1b46a9ebadfa1e695ef006290fc035a751fa2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 04/10] fix: recognize custom delimiters outside of ASCII

The delimiters are stored as (signed) char and were compared with an unsigned
char, so a byte >= 0x80 never matched.
---
 include/coil/detail/DefaultLexer.h | 10 +++++-----
 src/DefaultLexer.cpp               | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/coil/detail/DefaultLexer.h b/include/coil/detail/DefaultLexer.h
index 1eccb8d..7a3e382 100644
--- a/include/coil/detail/DefaultLexer.h
+++ b/include/coil/detail/DefaultLexer.h
@@ -27,11 +27,11 @@ namespace coil
         enum class CharType;
         struct Token;
 
-        bool isGroupChar(unsigned char c) const;
-        bool isQuote(unsigned char c) const;
-        bool isGroupSeparator(unsigned char c) const;
-        bool isSpace(unsigned char c) const;
-        CharType getCharType(unsigned char c) const;
+        bool isGroupChar(char c) const;
+        bool isQuote(char c) const;
+        bool isGroupSeparator(char c) const;
+        bool isSpace(char c) const;
+        CharType getCharType(char c) const;
 
         Vector<StringView> splitGroup(StringView str) const;
         Value createValue(Token const& token) const;
diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index 7a2751d..adc8c4c 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -51,17 +51,17 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
     return parse(*coil::move(tokens));
 }
 
-bool coil::DefaultLexer::isGroupChar(unsigned char c) const
+bool coil::DefaultLexer::isGroupChar(char c) const
 {
     return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
 }
 
-bool coil::DefaultLexer::isQuote(unsigned char c) const
+bool coil::DefaultLexer::isQuote(char c) const
 {
     return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
 }
 
-bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
+bool coil::DefaultLexer::isGroupSeparator(char c) const
 {
     if (isSpace(c))
         return true;
@@ -69,12 +69,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
 }
 
-bool coil::DefaultLexer::isSpace(unsigned char c) const
+bool coil::DefaultLexer::isSpace(char c) const
 {
     return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
 }
 
-coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
+coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(char c) const
 {
     if (c == '=')
         return CharType::Assignment;
@@ -102,7 +102,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
 
         size_t stringBegin = i;
         bool inQuotes = false;
-        auto shouldSkipChar = [this](unsigned char c, bool inQuotes) { return inQuotes || !isGroupSeparator(c); };
+        auto shouldSkipChar = [this](char c, bool inQuotes) { return inQuotes || !isGroupSeparator(c); };
         while ((i < str.length()) && shouldSkipChar(str[i], inQuotes))
         {
             if (isQuote(str[i]))
-- 
2.43.0


From 639a5e9f1f38a7835ee7cce2527eb07884d60184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 05/10] fix: keep at least one bucket in UnorderedMap

With a maximum load factor below 1 the first insertion rehashed to zero
buckets, and the bucket index was then computed modulo zero.
---
 include/coil/detail/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..b167023 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -298,7 +298,7 @@ namespace coil
 
         void rehash(size_t buckets)
         {
-            m_buckets.resize(buckets);
+            m_buckets.resize(buckets > 0 ? buckets : 1); // bucket indices are computed modulo the number of buckets
             resetBuckets();
 
             for (size_t nodeIndex = 0; nodeIndex < m_nodes.size(); nodeIndex++)
-- 
2.43.0


From c52c8051e4a8a317087fbca3afa6aa774c41683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 06/10] fix: report C string results as strings

A callable returning char const* was described as returning "char", although the whole text is the result.
---
 include/coil/detail/FunctionWrapper.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/coil/detail/FunctionWrapper.h b/include/coil/detail/FunctionWrapper.h
index 03565e3..a350377 100644
--- a/include/coil/detail/FunctionWrapper.h
+++ b/include/coil/detail/FunctionWrapper.h
@@ -28,6 +28,16 @@ namespace coil::detail
         using NonUserArgsIndices = IndexSequence<0>;
     };
 
+    // Returned pointers are serialized as the objects they point to, except for C strings
+    template<typename R>
+    struct ReturnTypeName : TypeName<DecayT<RemovePointerT<R>>>
+    {
+    };
+    template<>
+    struct ReturnTypeName<char const*> : TypeName<StringView>
+    {
+    };
+
     template<typename... Args>
     class FunctionWrapper final
     {
@@ -35,7 +45,7 @@ namespace coil::detail
         using ArgsTraits = ArgsTraitsImpl<DecayT<Args>...>;
 
         template<typename Func, typename C = void>
-        FunctionWrapper(Func func, C* obj = nullptr) : returnType(TypeName<DecayT<RemovePointerT<typename FuncTraits<Func>::ReturnType>>>::name())
+        FunctionWrapper(Func func, C* obj = nullptr) : returnType(ReturnTypeName<typename FuncTraits<Func>::ReturnType>::name())
         {
             m_func = new Func(coil::move(func));
             m_obj = const_cast<RemoveCvT<C>*>(obj); // this pointer would be casted back to C* in typedCall
-- 
2.43.0


From 6613edb082c6016ccea76609903bcd524c534bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 07/10] fix: make the integer alias option build

int8_t and the other aliases are declared in <stdint.h>, which was not included.
---
 src/Coil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..372e6fe 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #if COIL_CONFIG_CATCH_EXCEPTIONS
-- 
2.43.0


From 2c6897b6fc1f74caab77527d0bb455c3a8cba18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 08/10] fix: keep the chain intact when erasing moves a node
 that has a successor

---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index b167023..4f9c8e2 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 2b9505120f4e8ae178089c01b1cfe21d55423bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 09/10] fix: quote texts with embedded zero bytes in full in
 error messages

---
 src/Coil.cpp         | 14 +++++++-------
 src/DefaultLexer.cpp |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 372e6fe..2adcc81 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -270,7 +270,7 @@ namespace coil
         auto it = m_commands.find(context.input.name);
         if (it == m_commands.end())
         {
-            context.result.errors.pushBack(sprintf("No function '%.*s' is registered", context.input.name.slength(), context.input.name.data()));
+            context.result.errors.pushBack(String{"No function '"} + context.input.name + "' is registered");
             return;
         }
 
@@ -312,7 +312,7 @@ namespace coil
         }
 
         size_t const actualArgsCount = context.input.arguments.size();
-        auto error = sprintf("Wrong number of arguments to '%.*s': expected %s, got %zu", context.input.name.slength(), context.input.name.data(), expectedStr.cStr(), actualArgsCount);
+        auto error = String{"Wrong number of arguments to '"} + context.input.name + "': expected " + expectedStr + ", got " + toString(actualArgsCount);
         context.reportError(coil::move(error));
     }
 
@@ -387,7 +387,7 @@ namespace coil
     {
         auto it = find(key);
         if (it == end())
-            return makeUnexpected(Error(Error::Type::MissingKey, sprintf("Missing named argument '%.*s'", key.slength(), key.data())));
+            return makeUnexpected(Error(Error::Type::MissingKey, String{"Missing named argument '"} + key + "'"));
 
         return {it->value};
     }
@@ -483,12 +483,12 @@ namespace coil
     {
         Unexpected<String> createGenericError(StringView typeName, Value const& input, StringView details)
         {
-            String representation = input.str();
+            String message = String{"Unable to convert '"} + input.str() + "' to type '" + typeName + "'";
 
-            if (details.empty())
-                return makeUnexpected(sprintf("Unable to convert '%s' to type '%.*s'", representation.cStr(), typeName.slength(), typeName.data()));
+            if (!details.empty())
+                message = coil::move(message) + ": " + details;
 
-            return makeUnexpected(sprintf("Unable to convert '%s' to type '%.*s': %.*s", representation.cStr(), typeName.slength(), typeName.data(), details.slength(), details.data()));
+            return makeUnexpected(coil::move(message));
         }
 
         Unexpected<String> createMismatchedSubvaluesError(StringView typeName, Value const& input, size_t expectedSubvalues)
diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index adc8c4c..bdae075 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -201,7 +201,7 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Vec
 
     Token const& firstToken = tokens.front();
     if (firstToken.type != TokenType::String)
-        return makeUnexpected(sprintf("Unexpected token '%.*s' at the beginning of the expression", static_cast<int>(firstToken.value.length()), firstToken.value.data()));
+        return makeUnexpected(String{"Unexpected token '"} + firstToken.value + "' at the beginning of the expression");
 
     input.name = firstToken.value;
 
-- 
2.43.0


From dc8ec90e2ec1d589be006fb4509233534ac7e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:08 +0000
Subject: [PATCH 10/10] fix: render a null C string result as 'null' like other
 null pointers

---
 src/Coil.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 2adcc81..1f04ee3 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -590,6 +590,8 @@ namespace coil
 
     String coil::TypeSerializer<char const*>::toString(char const* const& value)
     {
+        if (!value)
+            return "null";
         return String{value};
     }
 
-- 
2.43.0

