From 2e03a741d9695173da0e09e4e303bd8867e6f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 01/16] fix: relink the successor of the node moved by
 UnorderedMap::erase

Erasing moves the last node into the freed slot; its successor in the bucket kept
pointing at the old slot, so a later erase corrupted the bucket or went out of bounds.
---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..de984f0 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 3f95538664bd574b139a8e8a2a2c2a8b47aec182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 02/16] fix: keep at least one bucket in UnorderedMap

A bucket count of 0, or a load factor below 1 on the first insertion, led to a
division by zero.
---
 include/coil/detail/UnorderedMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index de984f0..5081b20 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -304,6 +304,9 @@ namespace coil
 
         void rehash(size_t buckets)
         {
+            if (buckets == 0)
+                buckets = 1;
+
             m_buckets.resize(buckets);
             resetBuckets();
 
-- 
2.43.0


From 14169bee74a47ccd28e1a2009be53be5660e0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 03/16] fix: don't strip quotes off a lone quote character in a
 group

'f (")' produced a subvalue of length -1.
---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..eb656c8 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin >= 2 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From 6b780207957f1eb86305885244191cfd2bbc7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 04/16] fix: recognize delimiters above 127 in DefaultLexer

An unsigned char never compares equal to a negative char.
---
 src/DefaultLexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index eb656c8..a7faa44 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -53,12 +53,12 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
 
 bool coil::DefaultLexer::isGroupChar(unsigned char c) const
 {
-    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
+    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), static_cast<char>(c)) != m_groupParentheses.end();
 }
 
 bool coil::DefaultLexer::isQuote(unsigned char c) const
 {
-    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
+    return coil::find(m_quotes.begin(), m_quotes.end(), static_cast<char>(c)) != m_quotes.end();
 }
 
 bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
@@ -66,12 +66,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     if (isSpace(c))
         return true;
 
-    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
+    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), static_cast<char>(c)) != m_groupSeparators.end();
 }
 
 bool coil::DefaultLexer::isSpace(unsigned char c) const
 {
-    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
+    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), static_cast<char>(c)) != m_spaceCharacters.end();
 }
 
 coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
-- 
2.43.0


From 41a6d835382369598f1a0ffb3d0c016837ab22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 05/16] fix: reject negative numbers with leading whitespace
 for unsigned types

' -5' was accepted and wrapped around.
---
 src/StringConv.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..65e7d4b 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -49,8 +49,9 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
-            return false;
+        for (char c : str)
+            if (c == '-')
+                return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
 
-- 
2.43.0


From 04c9bb5156cf3dee54c97d77a4ac70bc37cd7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 06/16] fix: allow appending a string or its part to itself

The source was read after its buffer had been freed.
---
 src/String.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..639f87f 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,7 +101,16 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+
+    // str may point into this string, whose buffer may be reallocated
+    bool const isAliased = str >= m_buffer.data() && str < m_buffer.data() + m_buffer.size();
+    size_t const offset = isAliased ? static_cast<size_t>(str - m_buffer.data()) : 0;
+
     resize(oldSize + length);
+
+    if (isAliased)
+        str = m_buffer.data() + offset;
+
     memcpy(m_buffer.data() + oldSize, str, length);
 
     validateIsNullTerminated();
-- 
2.43.0


From 2e7cf07996b8c86d7882edbe6d95914d39ad9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 07/16] fix: print a null C-string as null, like any other null
 pointer

---
 src/Coil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..162bf2d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -589,6 +589,9 @@ namespace coil
 
     String coil::TypeSerializer<char const*>::toString(char const* const& value)
     {
+        if (!value)
+            return "null";
+
         return String{value};
     }
 
-- 
2.43.0


From 8414176f5f186708c64cfa5985561d792651aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 08/16] fix: don't drop the subvalues behind the first one in
 std::optional arguments

'(1 2)' was converted to optional<int>{1}, and to optional<vector<int>>{[1]}.
---
 include/coil/StdLibCompat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 6490fd2..c54c2d9 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -95,10 +95,10 @@ namespace coil
     {
         static Expected<std::optional<T>, String> fromString(Value const& input)
         {
-            if (input.subvalues.empty() || input.subvalues[0].empty())
+            if (input.subvalues.empty() || (input.subvalues.size() == 1 && input.subvalues[0].empty()))
                 return std::optional<T>{};
 
-            auto innerValue = TypeSerializer<T>::fromString(input.subvalues[0]);
+            auto innerValue = TypeSerializer<T>::fromString(input);
             if (innerValue)
                 return std::optional<T>{coil::move(innerValue).value()};
 
-- 
2.43.0


From 9a12e31a4ebfa587dee641734c6ce4d0939aa14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 09/16] fix: integer aliases as type names did not compile
 without <stdint.h>

---
 src/Coil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 162bf2d..311f8f0 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #if COIL_CONFIG_CATCH_EXCEPTIONS
-- 
2.43.0


From 49d983a022d380052a32cdc41eb0192aa22d44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 10/16] fix: do not rely on a global nullptr_t, which clang's
 headers do not declare

---
 include/coil/detail/Bindings.h | 2 +-
 src/Coil.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/detail/Bindings.h b/include/coil/detail/Bindings.h
index fa62890..4cae4df 100644
--- a/include/coil/detail/Bindings.h
+++ b/include/coil/detail/Bindings.h
@@ -75,7 +75,7 @@ namespace coil
         }
         BindingProxy& operator=(AnyFunctor anyFunctor);
         BindingProxy& operator=(Vector<AnyFunctor> anyFunctors);
-        BindingProxy& operator=(nullptr_t);
+        BindingProxy& operator=(decltype(nullptr));
 
     private:
         Bindings& m_bindings;
diff --git a/src/Coil.cpp b/src/Coil.cpp
index 311f8f0..47e512d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -328,7 +328,7 @@ namespace coil
         m_bindings.add(m_name, coil::move(anyFunctors));
         return *this;
     }
-    BindingProxy& BindingProxy::operator=(nullptr_t)
+    BindingProxy& BindingProxy::operator=(decltype(nullptr))
     {
         m_bindings.remove(m_name);
         return *this;
-- 
2.43.0


From eb4177e72c1acdce6851d8ec37920d43afa9d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 11/16] fix: the headers did not compile with g++ as C++20

In-class and out-of-class, a destructor can't be named by a template-id
since C++20, and g++ rejects it.
---
 include/coil/detail/Expected.h        | 2 +-
 include/coil/detail/Extern.h          | 2 +-
 include/coil/detail/FunctionWrapper.h | 2 +-
 include/coil/detail/Optional.h        | 2 +-
 include/coil/detail/Vector.h          | 2 +-
 src/Coil.cpp                          | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/coil/detail/Expected.h b/include/coil/detail/Expected.h
index 272b219..31a5d98 100644
--- a/include/coil/detail/Expected.h
+++ b/include/coil/detail/Expected.h
@@ -93,7 +93,7 @@ coil::Expected<T, E>::Expected(Expected<T, E>&& rhs) noexcept
 }
 
 template<typename T, typename E>
-coil::Expected<T, E>::~Expected<T, E>()
+coil::Expected<T, E>::~Expected()
 {
     destruct();
 }
diff --git a/include/coil/detail/Extern.h b/include/coil/detail/Extern.h
index 28add26..ae300ab 100644
--- a/include/coil/detail/Extern.h
+++ b/include/coil/detail/Extern.h
@@ -24,7 +24,7 @@ extern template coil::Unexpected<coil::NamedArgs::Error> coil::makeUnexpected(co
 // can't fully instantiate coil::Vector<coil::AnyFunctor>
 extern template coil::Vector<coil::AnyFunctor>::Vector(size_t);
 extern template void coil::Vector<coil::AnyFunctor>::pushBack(coil::AnyFunctor);
-extern template coil::Vector<coil::AnyFunctor>::~Vector<coil::AnyFunctor>();
+extern template coil::Vector<coil::AnyFunctor>::~Vector();
 
 extern template class coil::UniquePtr<coil::Lexer>;
 
diff --git a/include/coil/detail/FunctionWrapper.h b/include/coil/detail/FunctionWrapper.h
index 03565e3..30b29f4 100644
--- a/include/coil/detail/FunctionWrapper.h
+++ b/include/coil/detail/FunctionWrapper.h
@@ -116,7 +116,7 @@ namespace coil::detail
     }
 
     template<typename... Args>
-    coil::detail::FunctionWrapper<Args...>::~FunctionWrapper<Args...>()
+    coil::detail::FunctionWrapper<Args...>::~FunctionWrapper()
     {
         (this->*m_destroyFunc)();
     }
diff --git a/include/coil/detail/Optional.h b/include/coil/detail/Optional.h
index d6ee3fb..69d9d6a 100644
--- a/include/coil/detail/Optional.h
+++ b/include/coil/detail/Optional.h
@@ -99,7 +99,7 @@ coil::Optional<T>::Optional(Optional&& rhs) : Optional()
 }
 
 template<typename T>
-coil::Optional<T>::~Optional<T>()
+coil::Optional<T>::~Optional()
 {
     destroy();
 }
diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 4debe69..07a635e 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -88,7 +88,7 @@ template<typename T>
 coil::Vector<T>::Vector(Vector&& rhs) = default;
 
 template<typename T>
-coil::Vector<T>::~Vector<T>()
+coil::Vector<T>::~Vector()
 {
     clear();
 }
diff --git a/src/Coil.cpp b/src/Coil.cpp
index 47e512d..f2a3114 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -36,7 +36,7 @@ template coil::Unexpected<coil::NamedArgs::Error> coil::makeUnexpected(coil::Nam
 
 template coil::Vector<coil::AnyFunctor>::Vector(size_t);
 template void coil::Vector<coil::AnyFunctor>::pushBack(coil::AnyFunctor);
-template coil::Vector<coil::AnyFunctor>::~Vector<coil::AnyFunctor>();
+template coil::Vector<coil::AnyFunctor>::~Vector();
 
 template class coil::UniquePtr<coil::Lexer>;
 
-- 
2.43.0


From 27c158f71f3c66674efddb1f46252a6fb03664a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 12/16] fix: a failed copy in Expected's copy assignment
 destroyed the old value twice

---
 include/coil/detail/Expected.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/coil/detail/Expected.h b/include/coil/detail/Expected.h
index 31a5d98..99c34d9 100644
--- a/include/coil/detail/Expected.h
+++ b/include/coil/detail/Expected.h
@@ -58,9 +58,13 @@ namespace coil
         void constructFrom(Expected<T, E>&& rhs);
         void destruct();
 
+        // separate storages: a copy assignment, which may throw, must construct the new value before it destroys the old one
         union
         {
             T m_expected;
+        };
+        union
+        {
             Unexpected<E> m_unexpected;
         };
         bool m_hasValue = true;
@@ -109,10 +113,17 @@ coil::Expected<T, E>& coil::Expected<T, E>::operator=(Expected<T, E> const& rhs)
     {
         m_unexpected = rhs.m_unexpected;
     }
+    else if (rhs.m_hasValue)
+    {
+        new (NewTag{}, &m_expected) T(rhs.m_expected);
+        m_unexpected.~Unexpected<E>();
+        m_hasValue = true;
+    }
     else
     {
-        destruct();
-        constructFrom(rhs);
+        new (NewTag{}, &m_unexpected) Unexpected<E>(rhs.m_unexpected);
+        m_expected.~T();
+        m_hasValue = false;
     }
 
     return *this;
-- 
2.43.0


From 3903e59d646d00bbdf33cb6173572b30bd8a3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 13/16] fix: building a text piece by piece took quadratic time

---
 src/Coil.cpp   | 1 -
 src/String.cpp | 7 ++++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index f2a3114..230e317 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -344,7 +344,6 @@ namespace coil
 
     void Context::logline(String const& str)
     {
-        m_callContext.result.output.reserve(m_callContext.result.output.length() + str.length() + 1);
         m_callContext.result.output += str;
         m_callContext.result.output += '\n';
     }
diff --git a/src/String.cpp b/src/String.cpp
index 639f87f..f9ade09 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -106,7 +106,12 @@ void coil::String::append(char const* str, size_t length)
     bool const isAliased = str >= m_buffer.data() && str < m_buffer.data() + m_buffer.size();
     size_t const offset = isAliased ? static_cast<size_t>(str - m_buffer.data()) : 0;
 
-    resize(oldSize + length);
+    // grow geometrically: building a string piece by piece would take quadratic time otherwise
+    size_t const newSize = oldSize + length;
+    if (newSize >= m_buffer.capacity())
+        reserve(newSize < oldSize * 3 / 2 ? oldSize * 3 / 2 : newSize);
+
+    resize(newSize);
 
     if (isAliased)
         str = m_buffer.data() + offset;
-- 
2.43.0


From 61957e0e235620ec3c2a8208fd821c138ce175ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 14/16] fix: a vector leaked its elements when one of them
 failed to move while it grew

---
 include/coil/detail/Vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 07a635e..3ff909e 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -262,17 +262,17 @@ bool coil::Vector<T>::operator==(Vector const& rhs) const
 template<typename T>
 void coil::Vector<T>::grow(size_t newCapacity)
 {
-    Buffer buffer{newCapacity, sizeof(T)};
+    // a vector, which destroys its elements if a later one can't be moved
+    Vector grown{newCapacity};
 
     for (size_t i = 0; i < m_buffer.size(); i++)
-        buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
+        grown.m_buffer.template constructNext<T>(coil::move(*m_buffer.get<T>(i)));
 
-    COIL_ASSERT(m_buffer.size() == buffer.size());
+    COIL_ASSERT(m_buffer.size() == grown.m_buffer.size());
 
-    while (m_buffer.size() > 0)
-        m_buffer.destructLast<T>();
+    clear();
 
-    m_buffer = coil::move(buffer);
+    m_buffer = coil::move(grown.m_buffer);
 
     COIL_ASSERT(m_buffer.capacity() == newCapacity);
 }
-- 
2.43.0


From aef33580af8ce2602bd0458686477dcb15021334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 15/16] fix: logging or formatting what printf cannot format
 overflowed a buffer

---
 src/Coil.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 230e317..b0936c7 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -610,11 +610,14 @@ namespace coil
     {
         va_list args2;
         va_copy(args2, args);
-        size_t stringSize = static_cast<size_t>(vsnprintf(nullptr, 0, format, args2));
+        int const stringSize = vsnprintf(nullptr, 0, format, args2);
         va_end(args2);
 
+        if (stringSize < 0)
+            return ""; // can't be formatted, e.g. a wide character without representation in the current locale
+
         String str;
-        str.resize(stringSize);
+        str.resize(static_cast<size_t>(stringSize));
 
         [[maybe_unused]] int result = vsnprintf(str.data(), str.length() + 1, format, args);
 
-- 
2.43.0


From a504c6d1883138aa781ec1614d0ccb538e4458f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 16/16] fix: std::vector<coil::Value> as a parameter read
 destroyed values

---
 include/coil/StdLibCompat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index c54c2d9..0130b55 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -50,7 +50,8 @@ namespace coil
 
             for (StringView subvalue : input.subvalues)
             {
-                auto expectedArg = TypeSerializer<T>::fromString(subvalue);
+                Value const element = subvalue; // the result may refer to it
+                auto expectedArg = TypeSerializer<T>::fromString(element);
                 if (!expectedArg)
                     return errors::createGenericError<std::vector<T>>(input, coil::move(expectedArg).error());
                 result.push_back(*coil::move(expectedArg));
-- 
2.43.0

