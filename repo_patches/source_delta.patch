From 41f8ba3d73ed23d53b6554ee2e00b294e0e2dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 01/48] fix: quote string values of object members in
 redirected output

---
 include/simpleOutput.hh |  1 +
 src/simpleOutput.cpp    | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/simpleOutput.hh b/include/simpleOutput.hh
index 4d0a99d..0b1d489 100644
--- a/include/simpleOutput.hh
+++ b/include/simpleOutput.hh
@@ -17,6 +17,7 @@ class SimpleOutput
 
         inline void writeObjectEntry(const JSonObjectEntry *, bool);
         inline void writePrimitive(const AJSonPrimitive *, bool);
+        void writeValue(const AJSonPrimitive *);
         inline void writeContainer(const JSonContainer *, bool);
         inline void write(const JSonElement *, bool prependComma);
 
diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..a4fd5b7 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -22,20 +22,24 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        writeValue((const AJSonPrimitive *) **item);
         if (!params.compressed())
             out << std::endl;
     }
 }
 
-void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
+void SimpleOutput::writeValue(const AJSonPrimitive *item)
 {
-    out << getIndent() << (prependComma ? "," : "");
-
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
         out << "\"" << item->stringify() << "\"";
     else
         out << item->stringify();
+}
+
+void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
+{
+    out << getIndent() << (prependComma ? "," : "");
+    writeValue(item);
     if (!params.compressed())
         out << std::endl;
 }
-- 
2.43.0


From 6e306dd22cef0917298397efc094f0a27db56faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 02/48] fix: do not keep a pointer into a temporary string
 while writing a container

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index a4fd5b7..b55c0eb 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -47,7 +47,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From 516d2601eaa37bbda1f680d92ac12ae0b9c8f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 03/48] fix: build parse error messages from strings, not by
 pointer arithmetic

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From e904efb18ffa72ba738f45c406c24622290f4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 04/48] fix: keep WrappedBuffer consistent (size counter, put
 after pop_back, oversized batch)

---
 include/wrappedBuffer.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..0f99558 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
@@ -85,7 +85,8 @@ void WrappedBuffer<T, SIZE>::put(T item)
     written++;
     if (curW +1 == SIZE)
     {
-        curR = 1;
+        if (curR == 0 || curR == SIZE) // else, buffer isn't full
+            curR = 1;
         curW = 0;
         buffer[0] = item;
     }
@@ -113,10 +114,10 @@ void WrappedBuffer<T, SIZE>::put(T items[], unsigned int count)
     if (!count)
         return;
     written += count;
-    while (count > SIZE)
+    if (count > SIZE) // only keep last items
     {
-        count -= SIZE;
-        items += SIZE;
+        items += count - SIZE;
+        count = SIZE;
     }
     if (curW + count >= SIZE)
     {
@@ -143,10 +144,10 @@ template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::pop_back()
 {
     unsigned int oldSize = size();
-    written--;
     if (oldSize == 0)
         return;
-    else if (oldSize == 1)
+    written--;
+    if (oldSize == 1)
     {
         curW = -1;
         curR = 0;
-- 
2.43.0


From a404c70794344a18da0fc9f491bfeb86ad7677ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 05/48] fix: report the right line for errors after numbers,
 booleans, CRLF and multi-char reads

---
 include/linearHistory.hh |  8 ++++++++
 src/linearHistory.cpp    | 40 ++++++++++++++++------------------------
 src/main.cpp             |  2 +-
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..3c8a203 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -26,12 +26,20 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
         **/
         void put(char item);
         void put(char item[], unsigned int count);
+        /**
+         * Remove last inserted char, new-line included
+        **/
+        void pop_back();
 
     private:
         /**
          * True if new line found, and should reset at new put
         **/
         bool willReset;
+        /**
+         * True if last char was '\r' (a following '\n' is part of the same new line)
+        **/
+        bool lastIsCr;
         /**
          * Current line
         **/
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..134d72f 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -6,7 +6,7 @@
 
 #include "linearHistory.hh"
 
-LinearHistory::LinearHistory(): willReset(false), line(1)
+LinearHistory::LinearHistory(): willReset(false), lastIsCr(false), line(1)
 { }
 
 LinearHistory::~LinearHistory()
@@ -17,6 +17,12 @@ unsigned int LinearHistory::currentLine() const
 
 void LinearHistory::put(char item)
 {
+    if (lastIsCr && item == '\n')
+    {
+        lastIsCr = false;
+        return;
+    }
+    lastIsCr = (item == '\r');
     if (willReset)
     {
         reset();
@@ -31,29 +37,15 @@ void LinearHistory::put(char item)
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
+}
+
+void LinearHistory::pop_back()
+{
+    if (willReset)
+        willReset = lastIsCr = false;
+    else
+        WrappedBuffer<char, ERROR_HISTORY_LEN>::pop_back();
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
-- 
2.43.0


From bc6b88ae9de049fa6bda3c63de2d1905c8c04e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 06/48] fix: do not read unset params when parsing without
 configuration

---
 src/streamConsumer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..5ae9860 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -231,7 +231,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && params->isStrict()))
+        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
@@ -326,7 +326,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
     }
     for (int i =1; i < 4; ++i)
         _bufLower += std::tolower(_buf[i]);
-    if (_bufLower == "null" && (_bufLower == buf.str() || !params->isStrict()))
+    if (_bufLower == "null" && (_bufLower == buf.str() || (params && !params->isStrict())))
     {
         if (buf.str() != "null")
             warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-- 
2.43.0


From 4d031531235c0ee5f62a7d9be8f942819a8c669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 07/48] fix: reject object entries without value, and anything
 but ',' or '}' after a value

---
 src/streamConsumer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 5ae9860..74d1e8a 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -92,10 +92,13 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
-        keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (consumeToken(result, buf) != nullptr || (buf.str() != "," && buf.str() != "}"))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From c32f1acfd58dbd9281ff36de3853d7fe5385c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 08/48] fix: read every JSON number (exponents, big and invalid
 ones) and write doubles without losing digits

---
 src/jsonPrimitive.cpp  | 25 ++++++++++++++-
 src/streamConsumer.cpp | 69 +++++++++++++++++++++++-------------------
 2 files changed, 62 insertions(+), 32 deletions(-)

diff --git a/src/jsonPrimitive.cpp b/src/jsonPrimitive.cpp
index bd02733..6cdcdbf 100644
--- a/src/jsonPrimitive.cpp
+++ b/src/jsonPrimitive.cpp
@@ -4,6 +4,9 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <limits>
+#include <locale>
+#include <sstream>
 #include "jsonPrimitive.hh"
 
 AJSonPrimitive::AJSonPrimitive(JSonElement *p): JSonElement(p)
@@ -30,7 +33,27 @@ template<> std::string JSonPrimitive<Null>::toString() const
 
 template<> std::string JSonPrimitive<double>::toString() const
 {
-    return std::to_string(value);
+    std::string result;
+
+    // shortest representation giving back the same value
+    for (int precision = std::numeric_limits<double>::digits10; precision <= std::numeric_limits<double>::max_digits10; ++precision)
+    {
+        std::ostringstream out;
+        std::istringstream in;
+        double parsed = 0;
+
+        out.imbue(std::locale::classic());
+        out.precision(precision);
+        out << value;
+        result = out.str();
+        in.imbue(std::locale::classic());
+        in.str(result);
+        if (in >> parsed && parsed == value)
+            break;
+    }
+    if (result.find_first_of(".e") == std::string::npos)
+        result += ".0";
+    return result;
 }
 
 template<> std::string JSonPrimitive<long long>::toString() const
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 74d1e8a..1bc5534 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -264,50 +264,57 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
-    bool numberIsDouble = false;
+    bool numberIsDouble = (firstChar == '.');
+    bool hasExponent = false;
+    std::string number(1, firstChar);
 
     buf.str("");
     buf.clear();
-    buf.write(&firstChar, 1);
 
-    while (stream.good())
+    while (true)
     {
-        char c = stream.get();
-        history.put(c);
+        const int c = stream.peek();
 
         if (c >= '0' && c <= '9')
-            buf.write(&c, 1);
+            ;
         else if (c == '.' && !numberIsDouble)
-        {
             numberIsDouble = true;
-            buf.write(&c, 1);
-        }
+        else if ((c == 'e' || c == 'E') && !hasExponent)
+            numberIsDouble = hasExponent = true;
+        else if ((c == '+' || c == '-') && (number.back() == 'e' || number.back() == 'E'))
+            ;
         else
+            break;
+        number += (char) stream.get();
+        history.put(number.back());
+    }
+    try
+    {
+        if (!numberIsDouble)
+            return new JSonPrimitive<int>(parent, std::stoi(number));
+    }
+    catch (std::invalid_argument &e)
+    {
+        throw JsonFormatException(stream.tellg(), history);
+    }
+    catch (std::out_of_range &e)
+    {
+        try
         {
-            history.pop_back();
-            stream.unget();
-            if (numberIsDouble)
-            {
-                try {
-                    return new JSonPrimitive<double>(parent, atof(buf.str().c_str()));
-                } catch (std::runtime_error &e)
-                {
-                    throw JsonFormatException(stream.tellg(), history);
-                }
-            }
-            try
-            {
-                return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
-            }
-            catch(std::out_of_range e)
-            {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
-            }
+            return new JSonPrimitive<long long>(parent, std::stoll(number));
         }
+        catch (std::out_of_range &e)
+        { } // too big for an integer
     }
-    buf.str("");
-    buf.clear();
-    return nullptr;
+
+    // '.' is the decimal separator, whatever the locale is
+    std::istringstream doubleStream(number);
+    double value;
+
+    doubleStream.imbue(std::locale::classic());
+    if (!(doubleStream >> value) || doubleStream.peek() != std::istringstream::traits_type::eof())
+        throw JsonFormatException(stream.tellg(), history);
+    return new JSonPrimitive<double>(parent, value);
 }
 
 JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar)
-- 
2.43.0


From b2f3ebbe77b0f2c61baf63656cef6cecf3f5de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 09/48] fix: do not report the end of input as a character in
 error messages

---
 src/streamConsumer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 1bc5534..6c01388 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -147,6 +147,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         if (!escaped)
@@ -224,7 +226,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     {
         const char c = stream.get();
         const char cLower = std::tolower(c);
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
         {
@@ -240,7 +243,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (stream.good())
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, true);
         }
@@ -248,7 +252,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (stream.good())
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, false);
         }
@@ -327,7 +332,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
@@ -350,6 +355,8 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         //!InString, !inbool
-- 
2.43.0


From f81770b28d89e84d2c3d281483f2e78ba0fd8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 10/48] fix: keep '\\\\' escaped, and escape quotes of strings
 and keys in redirected output

---
 src/simpleOutput.cpp   | 20 ++++++++++++++++++--
 src/streamConsumer.cpp |  4 ++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index b55c0eb..e52def9 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -7,12 +7,28 @@
 #include "config.h"
 #include "params.hh"
 
+/**
+ * Strings are kept escaped, except for their quotes
+**/
+static std::string quote(const std::string &str)
+{
+    std::string result = "\"";
+
+    for (char c : str)
+    {
+        if (c == '"')
+            result += '\\';
+        result += c;
+    }
+    return result + '"';
+}
+
 SimpleOutput::SimpleOutput(std::ostream &output, const Params &p): out(output), params(p), indent(0)
 { }
 
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? ",\"" : "\"") << item->stringify() << "\":";
+    out << getIndent() << (prependComma ? "," : "") << quote(item->stringify()) << ":";
 
     if (dynamic_cast<const JSonContainer *> (**item))
     {
@@ -31,7 +47,7 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
 void SimpleOutput::writeValue(const AJSonPrimitive *item)
 {
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << item->stringify() << "\"";
+        out << quote(item->stringify());
     else
         out << item->stringify();
 }
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 6c01388..d81f2bf 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -175,7 +175,7 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
 bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
 {
-    if (c == '\\' || c == '"' || c == '/')
+    if (c == '"' || c == '/')
         buf.write(&c, 1);
     else if (c == 'u')
     {
@@ -198,7 +198,7 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
             }
         }
     }
-    else if (c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
+    else if (c == '\\' || c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
         buf.write("\\", 1).write(&c, 1);
     else if (params && params->isStrict())
         throw JsonEscapedException(c, stream.tellg(), history);
-- 
2.43.0


From d60b34e551cd6029e23364c4d440c69b8f3fd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 11/48] fix: surrogates, controls, quotes and invalid digits in
 unicode escapes

---
 include/streamConsumer.hh |   5 ++
 src/streamConsumer.cpp    | 128 ++++++++++++++++++++++++++++++++------
 2 files changed, 114 insertions(+), 19 deletions(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 24f3cd6..f5deee0 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -62,6 +62,8 @@ class StreamConsumer
         JSonElement *consumeNumber(JSonContainer *parent, std::stringstream &buf, char c);
         JSonElement *consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar);
         bool consumeEscapedChar(char c, std::stringstream &buf);
+        bool consumeHexvalue(char [4]);
+        bool consumeUnicode(char [4], std::stringstream &buf);
 
         /**
          * read next item, fill object or array if found
@@ -85,6 +87,9 @@ class StreamConsumer
          * compute unicode value and append it to buffer
         **/
         static void appendUnicode(const char [4], std::stringstream &);
+        static void appendSurrogates(const char high[4], const char low[4], std::stringstream &);
+        static bool isHighSurrogate(unsigned short) noexcept;
+        static bool isLowSurrogate(unsigned short) noexcept;
 
         /**
          * input stream
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index d81f2bf..7543803 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <cctype>
 #include <codecvt>
 #include <locale>
 #include "jsonElement.hh"
@@ -179,24 +180,13 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
         buf.write(&c, 1);
     else if (c == 'u')
     {
+        char unicodeBuf[4];
+        if (!consumeHexvalue(unicodeBuf))
+            return false;
         if (params && params->isIgnoringUnicode())
-            buf.write("\\u", 2);
+            buf.write("\\u", 2).write(unicodeBuf, 4);
         else
-        {
-            char unicodeBuf[4];
-            stream.read(unicodeBuf, 4);
-            std::streamsize gcount = stream.gcount();
-            history.put(unicodeBuf, gcount);
-            if (gcount != 4)
-                return false;
-            try {
-                appendUnicode(unicodeBuf, buf);
-            }
-            catch (std::invalid_argument &e)
-            {
-                throw JsonHexvalueException(e.what(), stream.tellg(), history);
-            }
-        }
+            return consumeUnicode(unicodeBuf, buf);
     }
     else if (c == '\\' || c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
         buf.write("\\", 1).write(&c, 1);
@@ -210,6 +200,52 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
     return true;
 }
 
+bool StreamConsumer::consumeHexvalue(char unicodeBuf[4])
+{
+    stream.read(unicodeBuf, 4);
+    std::streamsize gcount = stream.gcount();
+    history.put(unicodeBuf, gcount);
+    if (gcount != 4)
+        return false;
+    try {
+        hexbyte<unsigned short>(unicodeBuf, 4);
+    }
+    catch (std::invalid_argument &e)
+    {
+        throw JsonHexvalueException(e.what(), stream.tellg(), history);
+    }
+    return true;
+}
+
+bool StreamConsumer::consumeUnicode(char unicodeBuf[4], std::stringstream &buf)
+{
+    while (isHighSurrogate(hexbyte<unsigned short>(unicodeBuf, 4)) && stream.peek() == '\\')
+    {
+        const std::string high(unicodeBuf, 4);
+
+        history.put(stream.get());
+        const char c = stream.get();
+        if (!stream.good())
+            return false;
+        history.put(c);
+        if (c != 'u')
+        {
+            appendUnicode(high.c_str(), buf);
+            return consumeEscapedChar(c, buf);
+        }
+        if (!consumeHexvalue(unicodeBuf))
+            return false;
+        if (isLowSurrogate(hexbyte<unsigned short>(unicodeBuf, 4)))
+        {
+            appendSurrogates(high.c_str(), unicodeBuf, buf);
+            return true;
+        }
+        appendUnicode(high.c_str(), buf);
+    }
+    appendUnicode(unicodeBuf, buf);
+    return true;
+}
+
 JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     size_t read =1;
@@ -386,21 +422,75 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
     unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+    const std::string controls = "\b\f\n\r\t\\";
+    const size_t control = uni < 0x80 ? controls.find((char) uni) : std::string::npos;
+
+    if (control != std::string::npos)
+    {
+        buf.write("\\", 1).write(&"bfnrt\\"[control], 1);
+        return;
+    }
+    if (uni < ' ' || isHighSurrogate(uni) || isLowSurrogate(uni)) // cannot be written unescaped
+    {
+        buf.write("\\u", 2).write(unicode, 4);
+        return;
+    }
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
 }
 
+void StreamConsumer::appendSurrogates(const char high[4], const char low[4], std::stringstream &buf)
+{
+    const char32_t uni = 0x10000
+        + ((hexbyte<unsigned short>(high, 4) & 0x3FF) << 10)
+        + (hexbyte<unsigned short>(low, 4) & 0x3FF);
+    std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
+    std::string unichar = converter.to_bytes(uni);
+    buf.write(unichar.c_str(), unichar.size());
+}
+
+bool StreamConsumer::isHighSurrogate(unsigned short uni) noexcept
+{ return uni >= 0xD800 && uni <= 0xDBFF; }
+
+bool StreamConsumer::isLowSurrogate(unsigned short uni) noexcept
+{ return uni >= 0xDC00 && uni <= 0xDFFF; }
+
+static bool isUnicodeSequence(const char *buf)
+{
+    if (buf[0] != '\\' || buf[1] != 'u')
+        return false;
+    for (int i =2; i < 6; ++i)
+        if (!isxdigit((unsigned char) buf[i]))
+            return false;
+    return true;
+}
+
 std::string StreamConsumer::extractUnicode(const char *buf)
 {
     std::stringstream result;
 
     for (; *buf; buf++)
     {
-        if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
+        if (*buf == '\\' && buf[1] == '\\')
+        {
+            result.write(buf, 2);
+            buf++;
+        }
+        else if (isUnicodeSequence(buf))
         {
-            appendUnicode(buf +2, result);
-            buf += 6;
+            if (isHighSurrogate(hexbyte<unsigned short>(buf +2, 4)) &&
+                    isUnicodeSequence(buf +6) &&
+                    isLowSurrogate(hexbyte<unsigned short>(buf +8, 4)))
+            {
+                appendSurrogates(buf +2, buf +8, result);
+                buf += 11;
+            }
+            else
+            {
+                appendUnicode(buf +2, result);
+                buf += 5;
+            }
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From 7a6507fc03301d92058ed858e178bf2390e53e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 12/48] fix: compute the displayed length of elements without
 overflowing the buffer

---
 src/jsonElement.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..5c19529 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -4,6 +4,7 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <stdlib.h>
 #include "jsonElement.hh"
 #include "jsonContainer.hh"
 #include "jsonObjectEntry.hh"
@@ -25,12 +26,7 @@ size_t JSonElement::lazystrlen()
 {
     if (_strlen)
         return _strlen;
-    const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    return _strlen = strlen();
 }
 
 size_t JSonElement::strlen() const
@@ -38,11 +34,8 @@ size_t JSonElement::strlen() const
     if (_strlen)
         return _strlen;
     const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return len == (size_t) -1 ? buf.size() : len; // not text in the current locale: count bytes
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From e440b30cc877885fd96332b740536dd0b9294c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 13/48] fix: search patterns: uninitialised type, invalid or
 case-insensitive regex, words at both ends

---
 src/searchPattern.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..1257b99 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -73,8 +70,14 @@ void SearchPattern::evalFlags(const char *s)
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
         if (flags & FLAG_CASE)
             opts |= std::regex_constants::icase;
-        regex = new std::regex(pattern, opts);
+        try {
+            regex = new std::regex(pattern, opts);
+        }
+        catch (std::regex_error &e)
+        { } // not a regex, it will not match anything
     }
+    else if (flags & SearchPattern::FLAG_CASE)
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
 }
 
 bool SearchPattern::isEmpty() const
@@ -106,14 +109,15 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
             return false;
     }
     if (flags & FLAG_REGEX)
-        return regex_search(str, *regex);
+        return regex && regex_search(str, *regex);
     if ((flags & FLAG_WHOLESTR && str.length() != pattern.length())
             || pattern.length() > str.length())
         return false;
     if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())
     {
-        std::string pattern = " " +this->pattern +' ';
-        return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        const std::string pattern = " " +this->pattern +' ';
+        const std::string text = " " +str +' '; // first and last words are words
+        return std::search(text.begin(), text.end(), pattern.begin(), pattern.end(), *this) != str.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From 2cf8a6f61778c6d36edb62510d9490f88d3731a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 14/48] fix: give each input of an external diff its own, new
 temporary file

---
 src/main.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..9a03233 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <fcntl.h>
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
@@ -68,6 +69,7 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
 {
     unsigned long long hash = DiffCmd::hashString(iname);
     unsigned int i = 0;
+    int fd;
     std::ofstream fout;
     std::stringstream ss;
 
@@ -75,8 +77,13 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
         ss = std::stringstream("");
         ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
         outfile = ss.str();
+        fd = open(outfile.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); // do not share nor overwrite a file
+    } while (fd == -1 && ++i < 1000);
+    if (fd != -1)
+    {
         fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+        close(fd);
+    }
     return fout;
 }
 
@@ -97,6 +104,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         if (!stream)
             return inputsFilenames;
         std::ofstream fout = getOutputFile(input.first, fname);
+        if (!fout.is_open())
+        {
+            std::cerr << p.getProgName() << ": cannot create temporary file for " << input.first << std::endl;
+            delete stream;
+            return inputsFilenames;
+        }
         inputsFilenames.push_back(fname);
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
-- 
2.43.0


From d114f21f6a27741d101c4a8e7a3e6a798b485bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 15/48] fix: do not loop forever when the external diff command
 cannot be run or is killed

---
 src/main.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9a03233..2ce72b1 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -6,7 +6,9 @@
 
 #include <iostream>
 #include <sstream>
+#include <errno.h>
 #include <fcntl.h>
+#include <stdio.h>
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
@@ -127,11 +129,14 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
-        execvp(*av, av);
+    {
+        if (*av)
+            execvp(*av, av);
+        perror(*av ? *av : "no command");
+        _exit(127);
+    }
     // Wait for child to terminate
-    do {
-        waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+    while (waitpid(fk, &status, 0) == -1 && errno == EINTR);
     return inputsFilenames;
 }
 
-- 
2.43.0


From 1cc93a0fcfcaf742140bee3751b8ade41d037288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 16/48] fix: search prompt: empty input, special keys, timeouts
 and multi-byte characters

---
 src/curseOutput.cpp       | 10 ++++------
 src/curseSimpleOutput.cpp |  3 +++
 src/curseSplitOutput.cpp  |  3 +++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..719eeba 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -216,25 +216,23 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
         writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
-        if (c == L'\n' || c == L'\r')
+        if (c == L'\n' || c == L'\r' || c == KEY_ENTER)
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
             if (!buffer.empty())
                 buffer.pop_back();
         }
         else if (c == 27)
             abort = true;
-        else
+        else if (c > 0 && c <= 0xFF) // not ERR nor any KEY_*
             buffer += c;
     }
     wtimeout(w, 150);
     curs_set(false);
 
     {
-        const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
+        const std::string bytesString(buffer.begin(), buffer.end()); // wgetch reads bytes
         std::string str;
         if (params.isIgnoringUnicode())
             str = bytesString;
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..b7eadd9 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -169,7 +169,10 @@ inputResult CurseSimpleOutput::initSearch()
         return inputResult::redraw;
     search_result.clear();
     if (search_pattern->isEmpty())
+    {
+        delete search_pattern;
         return inputResult::redraw;
+    }
     search(*search_pattern, data);
     delete search_pattern;
     return nextResult();
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..e6305f1 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -205,7 +205,10 @@ inputResult CurseSplitOutput::initSearch()
     for (t_subWindow &s : subWindows)
         s.searchResults.clear();
     if (searchPattern->isEmpty())
+    {
+        delete searchPattern;
         return inputResult::redraw;
+    }
     search(*searchPattern);
     delete searchPattern;
     return nextResult();
-- 
2.43.0


From 8db3d5c5ad2d8e745e18d83280db8d2f088d975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 17/48] fix: handle signals out of the signal handler, and quit
 on SIGINT or SIGTERM without waiting for a key

---
 include/curseOutput.hh   | 13 ++++++++++-
 include/inputSequence.hh |  7 +++++-
 src/curseOutput.cpp      | 49 ++++++++++++++++++++++------------------
 src/curseSplitOutput.cpp |  1 +
 src/inputSequence.cpp    |  8 ++++++-
 5 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 848ea59..4237ba2 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <signal.h>
 #include <ncurses.h>
 #include <fstream>
 #include <list>
@@ -60,6 +61,11 @@ class CurseOutput
         **/
         virtual void shutdown() =0;
 
+        /**
+         * Apply the new size of the terminal, and redraw
+        **/
+        void resize();
+
         /**
          * Called before redraw after window got SIGWINCH'd
         **/
@@ -180,7 +186,12 @@ class CurseOutput
         /**
          * Used by signals to stop reading input and shutdown ncurses
         **/
-        bool breakLoop;
+        volatile sig_atomic_t breakLoop;
+
+        /**
+         * Set by signals when the screen has to be resized and redrawn
+        **/
+        volatile sig_atomic_t resized;
 
         /**
          * initialized colors
diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 8759f3e..472662b 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <signal.h>
 #include <string>
 
 class InputSequence
@@ -11,7 +12,11 @@ class InputSequence
     public:
         ~InputSequence();
 
-        static InputSequence read(WINDOW *);
+        /**
+         * read next key sequence
+         * @return an empty sequence if interrupted by a signal
+        **/
+        static InputSequence read(WINDOW *, const volatile sig_atomic_t &breakLoop, const volatile sig_atomic_t &resized);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 719eeba..17cf67f 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -22,7 +22,7 @@
 
 static CurseOutput *runningInst = nullptr;
 
-CurseOutput::CurseOutput(const Params &p): params(p)
+CurseOutput::CurseOutput(const Params &p): params(p), breakLoop(false), resized(false)
 {
     runningInst = this;
 }
@@ -40,7 +40,6 @@ void CurseOutput::loop(WINDOW * w)
 {
     inputResult read;
 
-    breakLoop = false;
     do
     {
         while (!redraw());
@@ -53,27 +52,16 @@ void CurseOutput::onResizeHandler()
     clear();
 }
 
+/**
+ * Only take note of the signal, ncurses cannot be called from a signal handler
+**/
 bool CurseOutput::onsig(int signo)
 {
-    struct winsize size;
-    t_Cursor oldScrSize;
-
     switch (signo)
     {
     case SIGWINCH:
-        if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
-            resize_term(size.ws_row, size.ws_col);
-        screenSize = getScreenSize();
-        onResizeHandler();
-        while (!redraw());
-        break;
-
     case SIGCONT:
-        oldScrSize = getScreenSizeUnsafe();
-        if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == -1)
-            break;
-        if (size.ws_row != oldScrSize.second || size.ws_col != oldScrSize.first)
-            kill(getpid(), SIGWINCH);
+        resized = true;
         break;
 
     case SIGKILL:
@@ -88,6 +76,18 @@ bool CurseOutput::onsig(int signo)
     return true;
 }
 
+void CurseOutput::resize()
+{
+    struct winsize size;
+
+    resized = false;
+    if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
+        resize_term(size.ws_row, size.ws_col);
+    screenSize = getScreenSize();
+    onResizeHandler();
+    while (!redraw());
+}
+
 void _resizeFnc(int signo)
 {
     if (runningInst)
@@ -107,7 +107,9 @@ inputResult CurseOutput::readInput(WINDOW *w)
 {
     while (!breakLoop)
     {
-        inputResult r = evalKey(InputSequence::read(w));
+        if (resized)
+            resize();
+        inputResult r = evalKey(InputSequence::read(w, breakLoop, resized));
         if (r != inputResult::nextInput)
             return r;
     }
@@ -209,14 +211,18 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         w = stdscr;
 
     curs_set(true);
-    wtimeout(w, -1);
+    wtimeout(w, 150);
     while (!abort)
     {
         int c;
 
+        if (resized)
+            resize();
         writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
-        c = wgetch(w);
-        if (c == L'\n' || c == L'\r' || c == KEY_ENTER)
+        while ((c = wgetch(w)) == ERR && !breakLoop && !resized);
+        if (breakLoop)
+            abort = true;
+        else if (c == L'\n' || c == L'\r' || c == KEY_ENTER)
             break;
         else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
@@ -228,7 +234,6 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         else if (c > 0 && c <= 0xFF) // not ERR nor any KEY_*
             buffer += c;
     }
-    wtimeout(w, 150);
     curs_set(false);
 
     {
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index e6305f1..17370da 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -62,6 +62,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
+        wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6efeadf..c2d3e99 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w)
+InputSequence InputSequence::read(WINDOW *w, const volatile sig_atomic_t &breakLoop, const volatile sig_atomic_t &resized)
 {
     InputSequence result;
     const char *kname = nullptr;
@@ -20,9 +20,15 @@ InputSequence InputSequence::read(WINDOW *w)
         const int input = wgetch(w ? w : stdscr);
 
         if (input == -1)
+        {
+            if (breakLoop || (resized && result.seq.empty()))
+                return InputSequence();
             continue;
+        }
 
         kname = keyname(toupper(input));
+        if (!kname)
+            continue;
 
         if (!result.seq.empty())
             result.seq += "-";
-- 
2.43.0


From 67f7a84f009bc1c152ff4af4df00c04552511d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 18/48] fix: forget search results and collapsed items of the
 previous input

---
 src/curseSimpleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index b7eadd9..9e9c953 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -29,6 +29,8 @@ void CurseSimpleOutput::run(JSonElement *root, const std::string &i)
     scrollTop = 0;
     selection = data = root;
     inputName = i;
+    search_result.clear();
+    collapsed.clear();
     loop(nullptr);
 }
 
-- 
2.43.0


From d589cfffe75b7c5ac161dea2f18cdec8fefcf102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 19/48] fix: initialise the split view before computing its
 size

---
 src/curseSplitOutput.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 17370da..5efce2e 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -27,6 +27,9 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
 CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
 {
     diffMatrice = nullptr;
+    bottomLine = nullptr;
+    nbInputs = 1;
+    selectedWin = workingWin = 0;
     init();
 }
 
@@ -852,7 +855,8 @@ const t_Cursor CurseSplitOutput::getScreenSize() const
 void CurseSplitOutput::shutdown()
 {
     destroyAllSubWin();
-    delwin(bottomLine);
+    if (bottomLine)
+        delwin(bottomLine);
     endwin();
     delscreen(screen);
     if (screen_fd)
-- 
2.43.0


From 5c5e1512214d36cfca91f2170b7cf496dfe24c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 20/48] fix: draw the whole screen, up to the selection, under
 messages

---
 src/curseOutput.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 17cf67f..9489f68 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -159,10 +159,9 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
-
+    while (!redraw());
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
-    return result;
+    return true;
 }
 
 unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, OutputFlag flags)
-- 
2.43.0


From 41d8be21afc27f209ad0dbcb58b733937c08441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 21/48] fix: report that 3-input diff is not implemented
 instead of aborting

---
 src/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2ce72b1..68c8caf 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -173,8 +173,14 @@ void runDiff(const Params &params)
     }
     if (streams.size() == nbInputs)
     {
-        CurseSplitOutput out(params);
-        out.run(inputNames, roots);
+        try {
+            CurseSplitOutput out(params);
+            out.run(inputNames, roots);
+        }
+        catch (std::runtime_error &e)
+        {
+            std::cerr << params.getProgName() << ": " << e.what() << std::endl;
+        }
     }
     for (StreamConsumer *stream: streams)
         delete stream;
-- 
2.43.0


From 8d3b4b80f4aa7ecfb56e267721e4a7a1cc58ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 22/48] fix: diff of empty containers, and of children whose
 cost overflows

---
 include/levenshteinMatrice.hpp |  2 +-
 src/levenshtein.cpp            | 16 +++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..8cb3101 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -113,7 +113,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
+            result->levenRelativeDist = matrice[n][m] < std::max(n, m) ? 1.f : 0.f;
             if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..769da58 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -1,4 +1,3 @@
-#include <climits>
 #include "levenshteinMatrice.hpp"
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
@@ -59,14 +58,13 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
         const JSonContainer::const_iterator aBegin = ((const JSonContainer*)a)->cbegin();
         const JSonContainer::const_iterator bBegin = ((const JSonContainer*)b)->cbegin();
 
-        LevenshteinMatrice *result = nullptr;
-
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
-            result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
-            result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
-        else
-            result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
+        if (!lenA && !lenB) // {} and [] are different
+        {
+            const bool sameType = a->stringify() == b->stringify();
+            return new LevenshteinMatriceWithScore(sameType ? 1.f : 0.f, a, b, sameType);
+        }
+        // costs are not bounded by the number of children
+        LevenshteinMatrice *result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
         result->addRoot((const JSonContainer *)a, (const JSonContainer *)b);
         return result;
     }
-- 
2.43.0


From 669c9bb898b2296237824778b9f3d32349d9eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 23/48] fix: mark similar but different values, and their
 parents, as modified in diff

---
 include/levenshteinMatrice.hpp |  8 ++++++--
 src/levenshtein.cpp            | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 8cb3101..48b279e 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -14,6 +14,10 @@ class LevenshteinMatrice_base
         virtual const std::map<const JSonElement*, eLevenshteinOperator> path() const;
         virtual size_t result() const =0;
         virtual bool areSimilar() const =0;
+        /**
+         * similar, and without any change in children
+        **/
+        bool areIdentical() const;
 
         eLevenshteinOperator get(const JSonElement *) const;
         virtual std::map<const JSonElement *, const JSonElement *> getEquivalences() const;
@@ -147,7 +151,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
             else
             {
-                operations[a] = operations[b] = levenRelativeDist < 1.f ? eLevenshteinOperator::mod : eLevenshteinOperator::equ;
+                operations[a] = operations[b] = areIdentical() ? eLevenshteinOperator::equ : eLevenshteinOperator::mod;
                 equivalences[a] = b;
                 equivalences[b] = a;
             }
@@ -183,7 +187,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                 else if (_i && _j)
                 {
                     eLevenshteinOperator op =
-                        matrice[_i][_j] == matrice[_i -1][_j -1] ?
+                        matrice[_i][_j] == matrice[_i -1][_j -1] && subMatrice[_i -1][_j -1]->areIdentical() ?
                         eLevenshteinOperator::equ :
                         eLevenshteinOperator::mod;
                     operations[*i] = operations[*j] = op;
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 769da58..98296ca 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -105,6 +105,14 @@ eLevenshteinOperator LevenshteinMatrice_base::get(const JSonElement *e) const
     return operations.at(e);
 }
 
+bool LevenshteinMatrice_base::areIdentical() const
+{
+    for (const std::pair<const JSonElement * const, eLevenshteinOperator> &i : operations)
+        if (i.second != eLevenshteinOperator::equ)
+            return false;
+    return true;
+}
+
 const JSonElement *LevenshteinMatrice_base::getEquivalence(const JSonElement *) const
 { return nullptr; }
 
@@ -177,7 +185,7 @@ LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElem
     else
         equivalentA = equivalentB = nullptr;
     if (sameType)
-        operations[a] = operations[b] = (_result ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
+        operations[a] = operations[b] = (s >= 1.f ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
     else
         operations[a] = operations[b] = eLevenshteinOperator::add;
 }
-- 
2.43.0


From 93a569b7942858c6a275494f5577d8b9acb797d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 24/48] fix: draw diff markers on the line of their item when
 the view is scrolled

---
 src/curseSplitOutput.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5efce2e..0085324 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -483,8 +483,9 @@ bool CurseSplitOutput::redraw()
 
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
-                        for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                        for (unsigned int j = 0; j < diffY; ++j, ++wi.cursor.second)
+                            if (wi.cursor.second > wi.scrollTop)
+                                displayDiffOp(wi.innerWin, wi.cursor.second - wi.scrollTop, eLevenshteinOperator::rem);
                 restart = true;
 
                 break;
@@ -785,7 +786,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 3fff7d86a4f0541f821218f50db6016aa311575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 25/48] fix: search each document of a diff in its own window

---
 src/curseSplitOutput.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 0085324..41355bc 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -319,8 +319,12 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
     unsigned int result =0;
 
+    workingWin = 0;
     for (t_subWindow &w : subWindows)
+    {
         result += search(searchPattern, w.root);
+        ++workingWin;
+    }
     return result;
 }
 
@@ -340,14 +344,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
         if (current && current->match(searchPattern))
         {
             if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
+                subWindows.at(workingWin).searchResults.push_back(current->getParent());
             else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+                subWindows.at(workingWin).searchResults.push_back(current);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
     }
-    return subWindows.at(selectedWin).searchResults.size();
+    return subWindows.at(workingWin).searchResults.size();
 }
 
 bool CurseSplitOutput::jumpToNextSearch()
@@ -358,11 +362,13 @@ bool CurseSplitOutput::jumpToNextSearch()
     if (!res)
     {
         setSelection(*(subWindows.at(selectedWin).searchResults.cbegin()));
-        unfold(subWindows.at(selectedWin).selection);
+        for (t_subWindow &w : subWindows)
+            unfold(w.lastSelection);
         CurseOutput::redraw("Search hit BOTTOM, continuing at TOP");
         return false;
     }
-    unfold(subWindows.at(selectedWin).selection);
+    for (t_subWindow &w : subWindows)
+        unfold(w.lastSelection);
     return true;
 }
 
@@ -880,8 +886,8 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
                 item) != subWindows.at(selectedWin).searchResults.cend());
 
     try {
-- 
2.43.0


From 60d835f0a9c70ec5ff82562e76298cff7ddc1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 26/48] fix: next item of the last child of an object entry,
 and of an entry on the last line

---
 src/curseSimpleOutput.cpp | 3 ++-
 src/curseSplitOutput.cpp  | 3 ++-
 src/jsonElement.cpp       | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 9e9c953..053eb73 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -62,7 +62,8 @@ bool CurseSimpleOutput::redraw()
         selectIsLast = true;
     if (!select_down)
     {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
+        const JSonObjectEntry *eselect = dynamic_cast<const JSonObjectEntry*>(selection);
+        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(eselect ? **eselect : selection);
         if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
             select_down = *(pselect->cbegin());
         else
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 41355bc..ddf563b 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -400,7 +400,8 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
         }
         if (!w.select_down)
         {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
+            const JSonObjectEntry *eselect = dynamic_cast<const JSonObjectEntry*>(w.lastSelection);
+            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(eselect ? **eselect : w.lastSelection);
             if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
                 w.select_down = *(pselect->cbegin());
             else
diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 5c19529..c9170a9 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -79,8 +79,10 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
-    if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
+    if (parent == nullptr)
         return nullptr; // Root node, can't have brothers
+    if (!dynamic_cast<const JSonContainer*>(parent))
+        return parent->findNext(); // Value of an object entry
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
     while (it != ((const JSonContainer*)parent)->cend())
     {
-- 
2.43.0


From cd81579583ffa2feaaf74ba8f2f45419c2bca601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 27/48] fix: do not stay on an item longer than the screen when
 going down

---
 include/curseSimpleOutput.hh | 1 +
 src/curseSimpleOutput.cpp    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index 1f6081a..1548015 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -91,5 +91,6 @@ class CurseSimpleOutput: public CurseOutput
          * Used for moving viewport
         **/
         bool selectFound, selectIsLast;
+        unsigned int selectionLine;
 };
 
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 053eb73..208b322 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -86,7 +86,7 @@ inputResult CurseSimpleOutput::selectUp()
 
 inputResult CurseSimpleOutput::selectDown()
 {
-    if (selectIsLast)
+    if (selectIsLast && selectionLine > scrollTop + 2) // keep selection visible
         scrollTop += 2;
     else if (selection != select_down)
         selection = select_down;
@@ -515,6 +515,7 @@ void CurseSimpleOutput::checkSelection(const JSonElement *item, const t_Cursor &
             if (cursor.second <= scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
                 scrollTop = cursor.second == 0 ? 0 : cursor.second -1;
             selectFound = true;
+            selectionLine = cursor.second;
         }
         else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))
             select_up = item;
-- 
2.43.0


From 8881d8de14535062d457645263dc3b9da4f0f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 28/48] fix: mark a container compared with a scalar as added
 on its side, like any other item

---
 src/levenshtein.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 98296ca..bed1e0e 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -72,14 +72,14 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
     {
         LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
         result->_result = ((JSonContainer*)a)->size() +1; //TODO recursive number of all descendants
-        return result->add(a, eLevenshteinOperator::rem)
+        return result->add(a, eLevenshteinOperator::add)
             ->add(b, eLevenshteinOperator::add);
     }
     else if (bIsContainer)
     {
         LevenshteinMatrice_manual *result = new LevenshteinMatrice_manual();
         result->_result = ((JSonContainer*)b)->size() +1; //TODO recursive number of all descendants
-        return result->add(b, eLevenshteinOperator::rem)
+        return result->add(b, eLevenshteinOperator::add)
             ->add(a, eLevenshteinOperator::add);
     }
     else
-- 
2.43.0


From 9e1f4b3b7f551a12914b8b18da3e98839b17369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 29/48] fix: find keys repeated with other letter cases in
 their escapes

---
 src/streamConsumer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 7543803..9853419 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -432,7 +432,9 @@ void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf
     }
     if (uni < ' ' || isHighSurrogate(uni) || isLowSurrogate(uni)) // cannot be written unescaped
     {
-        buf.write("\\u", 2).write(unicode, 4);
+        buf.write("\\u", 2);
+        for (int i =0; i < 4; ++i) // same character, same text
+            buf.put(std::tolower((unsigned char) unicode[i]));
         return;
     }
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
-- 
2.43.0


From 50fe7909d8bfb61e245ee3f9ba7d973321d9528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 30/48] fix: mark only the items found in each half of the diff
 view

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index ddf563b..13cf423 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -889,7 +889,7 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
     res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
                 subWindows.at(workingWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From 1431e79ef369fb0bc58be1c5c4fe84960985e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 31/48] fix: do not write past the first line when the name
 fills it

---
 src/curseOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 9489f68..b2e86d9 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -253,7 +253,10 @@ void CurseOutput::writeTopLine(const std::string &buffer, short color) const
 
     if (params.colorEnabled())
         attron(COLOR_PAIR(color));
-    mvprintw(0, 0, "%s%*c", str.c_str(), screenSize.first - bufsize, ' ');
+    if (bufsize == screenSize.first)
+        mvprintw(0, 0, "%s", str.c_str());
+    else
+        mvprintw(0, 0, "%s%*c", str.c_str(), screenSize.first - bufsize, ' ');
     if (params.colorEnabled())
         attroff(COLOR_PAIR(color));
 }
-- 
2.43.0


From 14e671ff1d4154899257286a02089c65f2b6c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 32/48] fix: count the rows of a key followed by a container
 like those of any other key

---
 src/curseSimpleOutput.cpp | 2 +-
 src/curseSplitOutput.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 208b322..287bed1 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -326,7 +326,7 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen, screenSize.first -extraLen -2, flags);
+    cursor.second += write(cursor.first, cursor.second, key, keylen +2, screenSize.first -extraLen, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 13cf423..396d2b1 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -601,7 +601,7 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen, screenSize.first -extraLen -2 -2, flags);
+    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen +2, screenSize.first -extraLen -2, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
-- 
2.43.0


From d54da234ce1eb74e1cd61fee515806b27b8b4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 33/48] fix: leave out what does not fit on the screen instead
 of writing it over the last cell

---
 include/curseOutput.hh       |  3 ++-
 include/curseSimpleOutput.hh |  2 +-
 include/curseSplitOutput.hh  |  2 +-
 src/curseSimpleOutput.cpp    | 27 +++++++++++++++++----------
 src/curseSplitOutput.cpp     | 28 ++++++++++++++++++----------
 5 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 4237ba2..ac7b9f5 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -136,8 +136,9 @@ class CurseOutput
         **/
         /**
          * Warning: this one does not check line height, because he's not aware of cursor position
+         * @return false if the end of the screen has been reached
         **/
-        virtual void write(const std::string &str, const OutputFlag flags) const =0;
+        virtual bool write(const std::string &str, const OutputFlag flags) const =0;
         unsigned int write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, const OutputFlag);
         virtual unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &item, const size_t len, unsigned int maxWidth, const OutputFlag) =0;
         virtual unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, const OutputFlag) =0;
diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index 1548015..1c1966e 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -40,7 +40,7 @@ class CurseSimpleOutput: public CurseOutput
 
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
-        void write(const std::string &str, const OutputFlag flags) const;
+        bool write(const std::string &str, const OutputFlag flags) const;
         bool writeKey(const std::string &key, const size_t keylen, t_Cursor &cursor, OutputFlag, unsigned int extraLen =0);
         bool writeKey(const std::string &key, const size_t keylen, const std::string &after, size_t afterlen, t_Cursor &cursor, OutputFlag flags);
         bool writeKey(const std::string &key, const size_t keylen, const std::string &after, t_Cursor &cursor, OutputFlag);
diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 107aaef..c20f099 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -50,7 +50,7 @@ class CurseSplitOutput: public CurseOutput
         bool writeKey(t_subWindow &, const std::string &key, const size_t keylen, const std::string &after, t_Cursor &cursor, OutputFlag);
         unsigned int write(const unsigned int &x, const unsigned int &y, const char item, unsigned int maxWidth, OutputFlag flags);
         unsigned int write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags);
-        void write(const std::string &str, const OutputFlag flags) const;
+        bool write(const std::string &str, const OutputFlag flags) const;
         void displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const;
 
         void writeTopLine(const std::string &currentBuffer, short color) const;
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 287bed1..30add7a 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -326,10 +326,13 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen +2, screenSize.first -extraLen, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
+    if (move(cursor.second - scrollTop, cursor.first) != ERR && write(key, flags))
+    {
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+    }
     flags.type(oldType);
+    cursor.second += getNbLines(cursor.first +keylen +2, screenSize.first -extraLen);
     return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
 }
 
@@ -342,11 +345,12 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, co
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    write(cursor.first, cursor.second, key, 0, 1, flags);
+    bool hasRoom = move(cursor.second - scrollTop, cursor.first) != ERR && write(key, flags);
     flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
+    hasRoom = hasRoom && write(": ", flags);
     flags.type(oldType);
-    write(after.c_str(), flags);
+    if (hasRoom)
+        write(after, flags);
     cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first);
     return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
 }
@@ -383,14 +387,16 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 {
     if (y <= scrollTop)
         return 1;
-    move(y - scrollTop, x);
-    write(str, flags);
+    if (move(y - scrollTop, x) != ERR)
+        write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
 
-void CurseSimpleOutput::write(const std::string &str, const OutputFlag flags) const
+bool CurseSimpleOutput::write(const std::string &str, const OutputFlag flags) const
 {
     char color = OutputFlag::SPECIAL_NONE;
+    bool result;
+
     if (flags.selected())
         attron(A_REVERSE | A_BOLD);
     if (flags.searched())
@@ -400,10 +406,11 @@ void CurseSimpleOutput::write(const std::string &str, const OutputFlag flags) co
     if (color != OutputFlag::SPECIAL_NONE)
         attron(COLOR_PAIR(color));
 
-    printw("%s", str.c_str());
+    result = printw("%s", str.c_str()) != ERR;
     attroff(A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         attroff(COLOR_PAIR(color));
+    return result;
 }
 
 bool CurseSimpleOutput::jumpToNextSearch(const JSonElement *current, bool &selectFound)
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 396d2b1..2aab7c3 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -601,10 +601,14 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen +2, screenSize.first -extraLen -2, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
+    displayDiffOp(w.innerWin, w.cursor.second - w.scrollTop, flags.diffOp());
+    if (wmove(w.innerWin, w.cursor.second - w.scrollTop, w.cursor.first) != ERR && write(key, flags))
+    {
+        flags.type(OutputFlag::TYPE_OBJ);
+        write(": ", flags);
+    }
     flags.type(oldType);
+    w.cursor.second += getNbLines(w.cursor.first +keylen +2, screenSize.first -extraLen -2);
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
 
@@ -617,11 +621,13 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    write(cursor.first, cursor.second, key, 0, 1, flags);
+    displayDiffOp(w.innerWin, cursor.second - w.scrollTop, flags.diffOp());
+    bool hasRoom = wmove(w.innerWin, cursor.second - w.scrollTop, cursor.first) != ERR && write(key, flags);
     flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
+    hasRoom = hasRoom && write(": ", flags);
     flags.type(oldType);
-    write(after, flags);
+    if (hasRoom)
+        write(after, flags);
     cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first -2);
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
@@ -794,14 +800,15 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     if (y <= w.scrollTop)
         return 1;
     displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
-    wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
-    write(str, flags);
+    if (wmove(currentWin, y - w.scrollTop, x) != ERR)
+        write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
 
-void CurseSplitOutput::write(const std::string &str, const OutputFlag flags) const
+bool CurseSplitOutput::write(const std::string &str, const OutputFlag flags) const
 {
     char color = OutputFlag::SPECIAL_NONE;
+    bool result;
     WINDOW *currentWin = subWindows.at(workingWin).innerWin;
 
     if (flags.selected())
@@ -813,10 +820,11 @@ void CurseSplitOutput::write(const std::string &str, const OutputFlag flags) con
     if (color != OutputFlag::SPECIAL_NONE)
         wattron(currentWin, COLOR_PAIR(color));
 
-    wprintw(currentWin, "%s", str.c_str());
+    result = wprintw(currentWin, "%s", str.c_str()) != ERR;
     wattroff(currentWin, A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
+    return result;
 }
 
 void CurseSplitOutput::destroyAllSubWin()
-- 
2.43.0


From 27320ab8e03f2bf15ed6b53ad28881de046a013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 34/48] fix: search whole words up to the end of the text
 searched

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 1257b99..be36c7a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -117,7 +117,7 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
     {
         const std::string pattern = " " +this->pattern +' ';
         const std::string text = " " +str +' '; // first and last words are words
-        return std::search(text.begin(), text.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        return std::search(text.begin(), text.end(), pattern.begin(), pattern.end(), *this) != text.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From 0019e8012ad496014dd01ea5b788a7d372d10321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 35/48] fix: find characters other than ASCII in a search that
 ignores case

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index be36c7a..1bdd4fd 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -88,7 +88,7 @@ bool SearchPattern::operator()(char a, char b)
     if (a == '\t')
         a = ' ';
     if (flags & SearchPattern::FLAG_CASE)
-        return std::tolower(a) == b;
+        return (char) std::tolower((unsigned char) a) == b;
     return a == b;
 }
 
-- 
2.43.0


From 9d1b661baa727b6268fd299ce86663033713fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 36/48] fix: draw for the new size as well when a sequence of
 keys is half typed

---
 src/inputSequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index c2d3e99..c738935 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -21,7 +21,7 @@ InputSequence InputSequence::read(WINDOW *w, const volatile sig_atomic_t &breakL
 
         if (input == -1)
         {
-            if (breakLoop || (resized && result.seq.empty()))
+            if (breakLoop || resized)
                 return InputSequence();
             continue;
         }
-- 
2.43.0


From cfad572b505587d20858331940100dbd97e23704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 37/48] fix: do not pair a container with a scalar in the same
 array

---
 include/levenshteinMatrice.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 48b279e..4e08a68 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -195,7 +195,9 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                         operations[e.first] = e.second;
                     for (std::pair<const JSonElement *, const JSonElement *> e : (subMatrice[_i -1][_j -1])->getEquivalences())
                         equivalences[e.first] = e.second;
-                    equivalences[*i] = *j;
+                    // a container cannot stand beside a scalar: it does not end with it
+                    if (((dynamic_cast<const JSonContainer*>(*i)) != nullptr) == ((dynamic_cast<const JSonContainer*>(*j)) != nullptr))
+                        equivalences[*i] = *j;
                     --i;
                     --j;
                     --_i;
-- 
2.43.0


From 691d374144d3ef5e5a0204c27de87a764f5a2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 38/48] fix: unfold both sides when a match is found in a
 collapsed container

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 15 +++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index c20f099..685c926 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -96,6 +96,11 @@ class CurseSplitOutput: public CurseOutput
 
         void onResizeHandler();
 
+        /**
+         * unfold containers of item, and their counterparts
+        **/
+        void unfold(const JSonElement *item);
+
         void setSelection(const JSonElement *);
 
         void computeDiff();
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 2aab7c3..bcf32e5 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -362,16 +362,23 @@ bool CurseSplitOutput::jumpToNextSearch()
     if (!res)
     {
         setSelection(*(subWindows.at(selectedWin).searchResults.cbegin()));
-        for (t_subWindow &w : subWindows)
-            unfold(w.lastSelection);
+        unfold(subWindows.at(selectedWin).lastSelection);
         CurseOutput::redraw("Search hit BOTTOM, continuing at TOP");
         return false;
     }
-    for (t_subWindow &w : subWindows)
-        unfold(w.lastSelection);
+    unfold(subWindows.at(selectedWin).lastSelection);
     return true;
 }
 
+void CurseSplitOutput::unfold(const JSonElement *item)
+{
+    for (item = item->getParent(); item; item = item->getParent())
+    {
+        collapsed.erase((const JSonContainer*)item);
+        collapsed.erase((const JSonContainer*)diffMatrice->getEquivalence(item));
+    }
+}
+
 const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
 {
     bool result;
-- 
2.43.0


From 926b15162dd25d5a49be6511b40828391e9dd4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 39/48] fix: scroll to a selection that gaps pushed below the
 bottom of its half

---
 src/curseSplitOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index bcf32e5..2f9a1e9 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -262,6 +262,8 @@ void CurseSplitOutput::checkSelection(const JSonElement *item)
     {
         if (w.lastSelection == item)
         {
+            if (hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second))
+                return; // Gaps pushed selection below vp, scroll until there is room
             if (w.cursor.second <= w.scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
                 w.scrollTop = w.cursor.second == 0 ? 0 : w.cursor.second -1;
             w.selectFound = true;
-- 
2.43.0


From 942dc5b90118ce6bb83159ff5d60ab542b85db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 40/48] fix: a file named ARGS was replaced by the arguments

---
 src/params.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/params.cpp b/src/params.cpp
index eea9de8..ebe45b9 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -46,7 +46,11 @@ bool Params::read()
         if (!input && !inDiff)
         {
             if (tmp == "--")
-                inputs["ARGS"] = input = new std::stringstream();
+            {
+                // not operator[]: a file may be named ARGS as well
+                input = new std::stringstream();
+                inputs.push_back(std::pair<std::string, std::basic_istream<char> *>("ARGS", input));
+            }
             else if (tmp == "-W")
                 strict = false;
             else if (tmp == "--ascii")
-- 
2.43.0


From d089fa46ad7bfeeb3ffb0769205749163c7c5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:40 +0000
Subject: [PATCH 41/48] fix: the search prompt handles and shows characters,
 not bytes

---
 include/curseOutput.hh      |  6 +++++-
 include/curseSplitOutput.hh |  1 -
 src/curseOutput.cpp         | 34 ++++++++++++++--------------------
 src/curseSplitOutput.cpp    | 16 +---------------
 4 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index ac7b9f5..01df250 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -125,6 +125,11 @@ class CurseOutput
         **/
         static unsigned int getNbLines(const size_t nbChar, unsigned int maxWidth);
 
+        /**
+         * number of columns a text takes
+        **/
+        static size_t getNbColumns(const std::string &str);
+
         /**
          * get flags to be passed to write.
          * Contains indications on who to write item
@@ -159,7 +164,6 @@ class CurseOutput
         **/
         virtual void writeTopLine(const std::string &currentBuffer, short color) const;
         virtual void writeBottomLine(const std::string &currentBuffer, short color) const;
-        virtual void writeBottomLine(const std::wstring &currentBuffer, short color) const;
 
         /**
          * unfold all item's parents
diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 685c926..adaad4e 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -59,7 +59,6 @@ class CurseSplitOutput: public CurseOutput
         bool jumpToNextSearch();
 
         virtual void writeBottomLine(const std::string &currentBuffer, short color) const;
-        virtual void writeBottomLine(const std::wstring &currentBuffer, short color) const;
 
         unsigned int search(const SearchPattern &searchPattern);
         unsigned int search(const SearchPattern &searchPattern, const JSonElement *current);
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index b2e86d9..7860e0b 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <unistd.h>
 #include <signal.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "searchPattern.hh"
@@ -169,6 +170,12 @@ unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, u
     return write(x, y, item->stringify(), item->lazystrlen(), maxWidth, flags);
 }
 
+size_t CurseOutput::getNbColumns(const std::string &str)
+{
+    const size_t len = mbstowcs(nullptr, str.c_str(), 0);
+    return len == (size_t) -1 ? str.size() : len; // not text in the current locale: count bytes
+}
+
 unsigned int CurseOutput::getNbLines(const size_t nbChar, unsigned int maxWidth)
 {
     double nLine = (double) nbChar / maxWidth;
@@ -204,7 +211,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer; // wgetch reads bytes
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -217,7 +224,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
         if (resized)
             resize();
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         while ((c = wgetch(w)) == ERR && !breakLoop && !resized);
         if (breakLoop)
             abort = true;
@@ -225,6 +232,8 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
             break;
         else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
+            while (!params.isIgnoringUnicode() && buffer.size() > 1 && (buffer.back() & 0xC0) == 0x80)
+                buffer.pop_back(); // whole characters, not bytes
             if (!buffer.empty())
                 buffer.pop_back();
         }
@@ -236,12 +245,11 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     curs_set(false);
 
     {
-        const std::string bytesString(buffer.begin(), buffer.end()); // wgetch reads bytes
         std::string str;
         if (params.isIgnoringUnicode())
-            str = bytesString;
+            str = buffer;
         else
-            str = StreamConsumer::extractUnicode(bytesString);
+            str = StreamConsumer::extractUnicode(buffer);
         return abort ? nullptr : new SearchPattern(str);
     }
 }
@@ -264,7 +272,7 @@ void CurseOutput::writeTopLine(const std::string &buffer, short color) const
 void CurseOutput::writeBottomLine(const std::string &buffer, short color) const
 {
     const t_Cursor screenSize = getScreenSizeUnsafe();
-    const size_t bufsize = buffer.size();
+    const size_t bufsize = getNbColumns(buffer);
 
     if (params.colorEnabled())
         attron(COLOR_PAIR(color));
@@ -275,20 +283,6 @@ void CurseOutput::writeBottomLine(const std::string &buffer, short color) const
     refresh();
 }
 
-void CurseOutput::writeBottomLine(const std::wstring &buffer, short color) const
-{
-    const t_Cursor screenSize = getScreenSizeUnsafe();
-    const size_t bufsize = buffer.size();
-
-    if (params.colorEnabled())
-        attron(COLOR_PAIR(color));
-    mvprintw(screenSize.second -1, 0, "%S%*c", buffer.c_str(), screenSize.first - bufsize, ' ');
-    move(screenSize.second -1, bufsize);
-    if (params.colorEnabled())
-        attroff(COLOR_PAIR(color));
-    refresh();
-}
-
 void CurseOutput::init()
 {
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 2f9a1e9..9b451e9 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -576,7 +576,7 @@ bool CurseSplitOutput::writeContainer(JSonContainer *item, bool opening)
 void CurseSplitOutput::writeBottomLine(const std::string &buffer, short color) const
 {
     const t_Cursor screenSize = getScreenSizeUnsafe();
-    const size_t bufsize = buffer.size();
+    const size_t bufsize = getNbColumns(buffer);
 
     if (params.colorEnabled())
         wattron(bottomLine, COLOR_PAIR(color));
@@ -587,20 +587,6 @@ void CurseSplitOutput::writeBottomLine(const std::string &buffer, short color) c
     wrefresh(bottomLine);
 }
 
-void CurseSplitOutput::writeBottomLine(const std::wstring &buffer, short color) const
-{
-    const t_Cursor ss = getScreenSizeUnsafe();
-    const size_t bufsize = buffer.size();
-
-    if (params.colorEnabled())
-        wattron(bottomLine, COLOR_PAIR(color));
-    mvwprintw(bottomLine, 0, 0, "%S%*c", buffer.c_str(), ss.first - bufsize, ' ');
-    wmove(bottomLine, 0, bufsize);
-    if (params.colorEnabled())
-        wattroff(bottomLine, COLOR_PAIR(color));
-    wrefresh(bottomLine);
-}
-
 bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const size_t keylen, OutputFlag flags, unsigned int extraLen)
 {
     if (w.cursor.second <= w.scrollTop)
-- 
2.43.0


From c4c3ba480c31ae4597a2a1ab9c46dff0d3a355ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 42/48] fix: cut the names of files between characters

---
 include/curseOutput.hh   |  5 +++++
 src/curseOutput.cpp      | 15 +++++++++++++--
 src/curseSplitOutput.cpp |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 01df250..f9a50e8 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -130,6 +130,11 @@ class CurseOutput
         **/
         static size_t getNbColumns(const std::string &str);
 
+        /**
+         * the beginning of a text, that fits in a number of columns
+        **/
+        static std::string truncate(std::string str, size_t nbColumns);
+
         /**
          * get flags to be passed to write.
          * Contains indications on who to write item
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 7860e0b..cd28dd4 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -176,6 +176,17 @@ size_t CurseOutput::getNbColumns(const std::string &str)
     return len == (size_t) -1 ? str.size() : len; // not text in the current locale: count bytes
 }
 
+std::string CurseOutput::truncate(std::string str, size_t nbColumns)
+{
+    while (getNbColumns(str) > nbColumns)
+    {
+        while (str.size() > 1 && (str.back() & 0xC0) == 0x80)
+            str.pop_back();
+        str.pop_back();
+    }
+    return str;
+}
+
 unsigned int CurseOutput::getNbLines(const size_t nbChar, unsigned int maxWidth)
 {
     double nLine = (double) nbChar / maxWidth;
@@ -256,8 +267,8 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
 void CurseOutput::writeTopLine(const std::string &buffer, short color) const
 {
-    const std::string str = buffer.substr(0, screenSize.first);
-    const size_t bufsize = str.size();
+    const std::string str = truncate(buffer, screenSize.first);
+    const size_t bufsize = getNbColumns(str);
 
     if (params.colorEnabled())
         attron(COLOR_PAIR(color));
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 9b451e9..366cde7 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -843,8 +843,8 @@ void CurseSplitOutput::destroyAllSubWin()
 
 void CurseSplitOutput::writeTopLine(const std::string &buffer, short color) const
 {
-    const std::string str = buffer.substr(0, screenSize.first -2);
-    const size_t bufsize = str.size();
+    const std::string str = truncate(buffer, screenSize.first -2);
+    const size_t bufsize = getNbColumns(str);
     WINDOW *currentWin = subWindows.at(workingWin).innerWin;
 
     if (params.colorEnabled())
-- 
2.43.0


From e38424084a59ef8c5d98ad28555dee79fdd29216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 43/48] fix: the diff viewer kept or drew windows out of a tiny
 terminal

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 41 ++++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index adaad4e..7bda3c3 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -95,6 +95,11 @@ class CurseSplitOutput: public CurseOutput
 
         void onResizeHandler();
 
+        /**
+         * size and position of the windows of an input
+        **/
+        void placeWindows(t_subWindow &, int);
+
         /**
          * unfold containers of item, and their counterparts
         **/
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 366cde7..c58ee08 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -24,6 +24,16 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
     return *it;
 }
 
+/**
+ * Draw a box around a window.
+ * On windows of a single column, wide ncurses would look beyond it
+**/
+static void drawBox(WINDOW *w)
+{
+    if (getmaxx(w) > 1)
+        box(w, 0, 0);
+}
+
 CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
 {
     diffMatrice = nullptr;
@@ -62,12 +72,13 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.select_up = subwin.select_down = nullptr;
         subwin.innerWin = subwin.outerWin = nullptr;
         subwin.scrollTop = 0;
-        subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
-        subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
+        subwin.outerWin = newwin(1, 1, 0, 0);
+        subwin.innerWin = newwin(1, 1, 0, 0);
+        placeWindows(subwin, i);
         keypad(subwin.outerWin, true);
         wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
-        box(subwin.outerWin, 0, 0);
+        drawBox(subwin.outerWin);
         wrefresh(subwin.outerWin);
     }
     computeDiff();
@@ -426,6 +437,18 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     return Optional<bool>::of(false);
 }
 
+void CurseSplitOutput::placeWindows(t_subWindow &subwin, int i)
+{
+    // On terminals too small for them, keep at least a cell of each window, on the screen
+    const t_Cursor ss = getScreenSizeUnsafe();
+    const int x = i * ((int) screenSize.first -1);
+
+    wresize(subwin.outerWin, std::max((int) screenSize.second +2, 1), std::max((int) screenSize.first, 1));
+    wresize(subwin.innerWin, std::max((int) screenSize.second, 1), std::max((int) screenSize.first -2, 1));
+    mvwin(subwin.outerWin, 0, std::max(x, 0));
+    mvwin(subwin.innerWin, std::min(1, (int) ss.second -1), std::min(std::max(x +1, 0), (int) ss.first -1));
+}
+
 void CurseSplitOutput::onResizeHandler()
 {
     size_t i =0;
@@ -436,11 +459,8 @@ void CurseSplitOutput::onResizeHandler()
     mvwin(bottomLine, ss.second -1, 0);
     for (t_subWindow &subwin: subWindows)
     {
-        wresize(subwin.outerWin, screenSize.second +2, screenSize.first);
-        wresize(subwin.innerWin, screenSize.second, screenSize.first -2);
-        mvwin(subwin.outerWin, 0, i * (screenSize.first -1));
-        mvwin(subwin.innerWin, 1, i * (screenSize.first -1) +1);
-        box(subwin.outerWin, 0, 0);
+        placeWindows(subwin, i);
+        drawBox(subwin.outerWin);
         wrefresh(subwin.outerWin);
         ++i;
     }
@@ -458,7 +478,7 @@ bool CurseSplitOutput::redraw()
         w.select_up = w.select_down = nullptr;
         w.selectFound = w.selectIsLast = false;
 
-        box(w.outerWin, 0, 0);
+        drawBox(w.outerWin);
         wrefresh(w.outerWin);
         wclear(w.innerWin);
         writeTopLine(w.fileName,
@@ -828,7 +848,8 @@ void CurseSplitOutput::destroyAllSubWin()
     {
         if (w.outerWin)
         {
-            wborder(w.outerWin, ' ', ' ', ' ',' ',' ',' ',' ',' ');
+            if (getmaxx(w.outerWin) > 1)
+                wborder(w.outerWin, ' ', ' ', ' ',' ',' ',' ',' ',' ');
             wrefresh(w.outerWin);
             delwin(w.outerWin);
             w.outerWin = nullptr;
-- 
2.43.0


From c393ca6ffe559aef26f4ba90bcfcaf71b37020ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 44/48] fix: remove the temporary files of an external diff
 also when interrupted

---
 src/main.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 68c8caf..6501cad 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -8,6 +8,7 @@
 #include <sstream>
 #include <errno.h>
 #include <fcntl.h>
+#include <signal.h>
 #include <stdio.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -89,10 +90,23 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
     return fout;
 }
 
+/**
+ * interruptions (those of the command from the keyboard as well) wait until files are removed
+**/
+static void holdSignals()
+{
+    sigset_t signals;
+
+    sigemptyset(&signals);
+    for (int signo : { SIGHUP, SIGINT, SIGQUIT, SIGTERM })
+        sigaddset(&signals, signo);
+    sigprocmask(SIG_BLOCK, &signals, nullptr);
+}
+
 /**
  * run command, and return once finished to let parent clean files and GC
 **/
-std::deque<std::string> doRunExternalDiff(const Params &p)
+std::deque<std::string> doRunExternalDiff(const Params &p, const sigset_t &childSignals)
 {
     std::deque<std::string> inputsFilenames;
     IndexedDeque inputs = p.getInputs();
@@ -105,6 +119,7 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
 
         if (!stream)
             return inputsFilenames;
+        holdSignals();
         std::ofstream fout = getOutputFile(input.first, fname);
         if (!fout.is_open())
         {
@@ -130,6 +145,7 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         return inputsFilenames;
     else if (fk == 0)
     {
+        sigprocmask(SIG_SETMASK, &childSignals, nullptr);
         if (*av)
             execvp(*av, av);
         perror(*av ? *av : "no command");
@@ -142,9 +158,13 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
 
 void runExternalDiff(const Params &p)
 {
-    std::deque<std::string> files = doRunExternalDiff(p);
+    sigset_t previousSignals;
+
+    sigprocmask(SIG_BLOCK, nullptr, &previousSignals);
+    std::deque<std::string> files = doRunExternalDiff(p, previousSignals);
     for (std::string &fname: files)
         unlink(fname.c_str());
+    sigprocmask(SIG_SETMASK, &previousSignals, nullptr);
 }
 
 void runDiff(const Params &params)
-- 
2.43.0


From 108b9f90d5cb455a5c7237e754dfb1346f11ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 45/48] fix: do not compare temporary files that could not be
 written

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 6501cad..dbae8e8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -130,6 +130,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p, const sigset_t &child
         inputsFilenames.push_back(fname);
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
+        fout.close();
+        if (!fout)
+        {
+            std::cerr << p.getProgName() << ": cannot write temporary file for " << input.first << std::endl;
+            return inputsFilenames;
+        }
     }
     for (Warning w : warns)
     {
-- 
2.43.0


From 9bd1b0462f367dbadf0d8da7a4f634b16861bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 46/48] fix: say that no terminal can be used instead of
 crashing or looping

---
 src/curseOutput.cpp |  9 +++++++++
 src/main.cpp        | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index cd28dd4..92bd2a7 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -299,6 +299,8 @@ void CurseOutput::init()
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
+        if (!screen_fd)
+            throw std::runtime_error("cannot open terminal");
         setbuf(screen_fd, nullptr);
         screen = newterm(nullptr, screen_fd, screen_fd);
     }
@@ -307,6 +309,13 @@ void CurseOutput::init()
         screen = newterm(nullptr, stdout, stdin);
         screen_fd = nullptr;
     }
+    if (!screen)
+    {
+        if (screen_fd)
+            fclose(screen_fd);
+        screen_fd = nullptr;
+        throw std::runtime_error("cannot use terminal");
+    }
     wtimeout(stdscr, 150);
     cbreak();
     clear();
diff --git a/src/main.cpp b/src/main.cpp
index dbae8e8..f4cc423 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -240,9 +240,17 @@ void runStdout(const Params &params)
 void run(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
-    CurseSimpleOutput *out = new CurseSimpleOutput(params);
+    CurseSimpleOutput *out;
     std::deque<Warning> warns;
 
+    try {
+        out = new CurseSimpleOutput(params);
+    }
+    catch (std::runtime_error &e)
+    {
+        std::cerr << params.getProgName() << ": " << e.what() << std::endl;
+        return;
+    }
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
     {
         StreamConsumer *stream = readOneFile(input, params, warns);
-- 
2.43.0


From 01557facd2cc231f8b3923a902230854984109b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:46 +0000
Subject: [PATCH 47/48] fix: distance of long texts needed memory for the whole
 matrix

---
 src/levenshtein.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index bed1e0e..c0d6f81 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -20,6 +20,8 @@ size_t levenshtein(const std::string &a, const std::string &b)
                     matrice[i -1][j] +1,
                     matrice[i][j -1] +1),
                     matrice[i -1][j -1] + (a[i -1] == b[j -1] ? 0 : 1));
+        delete []matrice[i -1]; // not needed any more, and long texts have large matrices
+        matrice[i -1] = nullptr;
     }
 
     const size_t result = matrice[a.size()][b.size()];
-- 
2.43.0


From 23fb6a350553984423d1461508de1cb9c08692f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 48/48] fix: regular expressions on long texts overflowed the
 stack, or never ended

---
 include/searchPattern.hh |  1 +
 src/searchPattern.cpp    | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/searchPattern.hh b/include/searchPattern.hh
index 5d88495..c643cda 100644
--- a/include/searchPattern.hh
+++ b/include/searchPattern.hh
@@ -24,6 +24,7 @@ class SearchPattern
 
         std::string pattern;
         std::regex *regex;
+        std::regex_constants::match_flag_type regexFlags;
         short flags;
         short typeFlag;
 
diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 1bdd4fd..9aea9f3 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), regexFlags(std::regex_constants::match_default), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
@@ -72,9 +72,14 @@ void SearchPattern::evalFlags(const char *s)
             opts |= std::regex_constants::icase;
         try {
             regex = new std::regex(pattern, opts);
+#ifdef __GLIBCXX__ // backtracking overflows the stack on long texts, and may never end
+            const bool lookahead = pattern.find("(?=") != std::string::npos || pattern.find("(?!") != std::string::npos;
+            *regex = std::regex(lookahead ? pattern : "[^]*?(?:" +pattern +")", opts | std::regex_constants::__polynomial);
+            regexFlags = lookahead ? std::regex_constants::match_default : std::regex_constants::match_continuous;
+#endif
         }
         catch (std::regex_error &e)
-        { } // not a regex, it will not match anything
+        { } // not a regex, it will not match anything, or has back-references
     }
     else if (flags & SearchPattern::FLAG_CASE)
         std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
@@ -109,7 +114,7 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
             return false;
     }
     if (flags & FLAG_REGEX)
-        return regex && regex_search(str, *regex);
+        return regex && regex_search(str, *regex, regexFlags);
     if ((flags & FLAG_WHOLESTR && str.length() != pattern.length())
             || pattern.length() > str.length())
         return false;
-- 
2.43.0

