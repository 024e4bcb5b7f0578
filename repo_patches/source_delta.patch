From 69bbd4133f9c412a302b5fc0d903319707b73fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 01/35] fix: refuse type codes for which there is no type

Type::create() returned an empty value, which unmarshals without consuming
anything: an array of such a type never ended.
---
 src/dbus_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..2cb94a1 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,7 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -149,7 +150,7 @@ DBus::Type::Generic DBus::Type::create(const std::string& type)
     Log::write(DBus::Log::ERROR,
         "DBus :: Can not create a signature type of (%s)\n", type.c_str());
 
-    return Type::Generic();
+    throw std::runtime_error("Can not create a value of type '" + type + "'");
 }
 
 std::string
-- 
2.43.0


From d7c3aa23c5704099ed92db047a51246f325aa06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 02/35] fix: extracting a type from a malformed signature stays
 inside the text

Mis-matched brackets returned the text with its first character repeated,
which made decoding recurse for ever; an array without element type, or a
position past the end, read behind the text; the recursion for nested arrays
was as deep as the text was long.
---
 src/dbus_type.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 2cb94a1..a29062c 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -361,6 +361,15 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
 {
     std::string result;
 
+    // An array's type code is followed by its element type
+    while (idx < declaration.size() && declaration[idx] == 'a') {
+        result += declaration[idx++];
+    }
+
+    if (idx >= declaration.size()) {
+        return result;
+    }
+
     // Handle arrays
     if (declaration[idx] == '(') {
         // Find the matching bracket, and skip all internal signatures
@@ -379,6 +388,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("Mis-matched brackets in signature");
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -403,14 +413,11 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("Mis-matched braces in signature");
     }
 
     result += declaration[idx];
 
-    if (declaration[idx] == 'a') {
-        result += extractSignature(declaration, idx + 1);
-    }
-
     return result;
 }
 
-- 
2.43.0


From fb2401625adc1a02660d4f9f6438fc61316676f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 03/35] fix: variants have an alignment of 1

---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From 32a9ed0affe81377cf098672614668ad1afbe22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 04/35] fix: skip the padding before a double when decoding

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..9103196 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -67,6 +67,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 void MessageIStream::read(double* value)
 {
     uint8_t bytes[sizeof(double)];
+    align(sizeof(double));
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
         std::reverse(std::begin(bytes), std::end(bytes));
-- 
2.43.0


From 82328a1d7b5fc6f4f76213f5532045f905b34fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 05/35] fix: asUint32 returns values of 2^31 and above

std::stoi throws for them, so messages with such serials were dropped.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index a29062c..e5f4d14 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -48,7 +48,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From 6f5bbeee37d9935c3a1472a8b3d6de7cab178680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 06/35] fix: refuse to encode a signature whose length does not
 fit

The length byte was truncated, which made the whole message undecodable.
---
 src/dbus_messageostream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..a4c37a2 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,7 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
 
 namespace DBus {
 
@@ -101,6 +102,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("DBus signature is longer than 255 bytes");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
-- 
2.43.0


From 94518f2b1db3759ae5b73dc74197602814332fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 07/35] fix: refuse variants of several types and dict entries
 of more than two fields

The extra types were ignored, so the value's signature did not describe it.
---
 src/dbus_type_dictentry.cpp | 7 ++++++-
 src/dbus_type_variant.cpp   | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type_dictentry.cpp b/src/dbus_type_dictentry.cpp
index 55c62c0..2f35b9c 100644
--- a/src/dbus_type_dictentry.cpp
+++ b/src/dbus_type_dictentry.cpp
@@ -20,6 +20,7 @@
 #include "dbus_type_string.h"
 #include "dbus_type_uint32.h"
 #include <sstream>
+#include <stdexcept>
 
 #include "dbus_message.h"
 #include "dbus_messageistream.h"
@@ -93,7 +94,11 @@ void DBus::Type::DictEntry::unmarshall(MessageIStream& stream)
     const char key_type = getSignature().at(1);
     DBus::Validation::throwOnInvalidBasicType(key_type);
     m_Value.first = Type::create(std::string(1, key_type));
-    m_Value.second = Type::create(DBus::Type::extractSignature(getSignature(), 2));
+    const std::string value_type = DBus::Type::extractSignature(getSignature(), 2);
+    if (getSignature().size() != value_type.size() + 3) {
+        throw std::runtime_error("A dict entry must have exactly two fields");
+    }
+    m_Value.second = Type::create(value_type);
     DBus::Type::unmarshallData(m_Value.first, stream);
     DBus::Type::unmarshallData(m_Value.second, stream);
 }
diff --git a/src/dbus_type_variant.cpp b/src/dbus_type_variant.cpp
index 0d16a6d..68fbb37 100644
--- a/src/dbus_type_variant.cpp
+++ b/src/dbus_type_variant.cpp
@@ -24,6 +24,7 @@
 #include "dbus_type_string.h"
 #include "dbus_type_uint32.h"
 #include <sstream>
+#include <stdexcept>
 
 const std::string DBus::Type::Variant::s_StaticTypeCode("v");
 
@@ -88,6 +89,10 @@ void DBus::Type::Variant::unmarshall(MessageIStream& stream)
     Type::Signature signature;
     signature.unmarshall(stream);
     m_ContainedSignature = signature.getValue();
+
+    if (DBus::Type::extractSignature(m_ContainedSignature, 0) != m_ContainedSignature) {
+        throw std::runtime_error("A variant must hold a single complete type");
+    }
     m_Value = DBus::Type::create(signature.getValue());
     DBus::Type::unmarshallData(m_Value, stream);
 }
-- 
2.43.0


From 97f47571adc31dd5ff198a5ca79d7237ed483933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 08/35] fix: limit the nesting of containers when decoding

A message of nested variants overflowed the stack. The specification allows
64 levels.
---
 src/dbus_messageistream.cpp | 13 +++++++++++++
 src/dbus_messageistream.h   | 16 ++++++++++++++++
 src/dbus_type_array.cpp     |  2 ++
 src/dbus_type_dictentry.cpp |  2 ++
 src/dbus_type_struct.cpp    |  2 ++
 src/dbus_type_variant.cpp   |  2 ++
 6 files changed, 37 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9103196..9855098 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -28,6 +28,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,6 +36,7 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
@@ -88,4 +90,15 @@ void MessageIStream::read(std::string& string, size_t size)
 
 bool MessageIStream::empty() { return m_data.empty(); }
 
+MessageIStream::Nesting::Nesting(MessageIStream& stream)
+    : m_stream(stream)
+{
+    if (m_stream.m_depth >= MAX_DEPTH) {
+        throw std::runtime_error("DBus message error: Containers are nested too deeply");
+    }
+    ++m_stream.m_depth;
+}
+
+MessageIStream::Nesting::~Nesting() { --m_stream.m_depth; }
+
 } // namespace DBus
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..3afa26f 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -49,6 +50,21 @@ class MessageIStream {
     }
 
 public:
+    // 64 levels of containers, within the struct which stands for the message
+    static const size_t MAX_DEPTH = 65;
+
+    // Held while a container is being decoded from the stream. Throws if
+    // containers are nested too deeply.
+    class Nesting {
+        MessageIStream& m_stream;
+
+    public:
+        Nesting(MessageIStream& stream);
+        Nesting(const Nesting&) = delete;
+        Nesting& operator=(const Nesting&) = delete;
+        ~Nesting();
+    };
+
     MessageIStream(const uint8_t* data, size_t size, bool swapByteOrder);
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..c15f567 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -159,6 +159,8 @@ void DBus::Type::Array::marshallContents(MessageOStream& stream) const
 
 void DBus::Type::Array::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::Nesting nesting(stream);
+
     uint32_t size = 0;
     stream.read<uint32_t>(&size);
     std::string signature = Type::extractSignature(getSignature(), 1);
diff --git a/src/dbus_type_dictentry.cpp b/src/dbus_type_dictentry.cpp
index 2f35b9c..302fcc8 100644
--- a/src/dbus_type_dictentry.cpp
+++ b/src/dbus_type_dictentry.cpp
@@ -89,6 +89,8 @@ void DBus::Type::DictEntry::marshall(MessageOStream& stream) const
 
 void DBus::Type::DictEntry::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::Nesting nesting(stream);
+
     stream.align(8);
 
     const char key_type = getSignature().at(1);
diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..e7f1f31 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -140,6 +140,8 @@ void DBus::Type::Struct::marshall(MessageOStream& stream) const
 
 void DBus::Type::Struct::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::Nesting nesting(stream);
+
     // A struct must start on an 8-byte boundary regardless of the type of the
     // struct fields.
     stream.align(8);
diff --git a/src/dbus_type_variant.cpp b/src/dbus_type_variant.cpp
index 68fbb37..4efe956 100644
--- a/src/dbus_type_variant.cpp
+++ b/src/dbus_type_variant.cpp
@@ -86,6 +86,8 @@ void DBus::Type::Variant::marshall(MessageOStream& stream) const
 
 void DBus::Type::Variant::unmarshall(MessageIStream& stream)
 {
+    MessageIStream::Nesting nesting(stream);
+
     Type::Signature signature;
     signature.unmarshall(stream);
     m_ContainedSignature = signature.getValue();
-- 
2.43.0


From 98132e23bbf8b002a24b2715a2d132935c3d016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 09/35] fix: an array's size is stored behind its padding

The size was written over the padding (and the first bytes of the aligned
size field stayed 0) unless the array happened to start on a 4 byte boundary,
as in the body (y, ay).
---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index c15f567..bab01e8 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4(); // the size is aligned, so it may not be next
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From f37eba6582ac70a8f62a453fa6db34fe85130663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 10/35] fix: resetting the message protocol drops the bytes
 received before

---
 src/dbus_messageprotocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..84368a2 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    startMessage();
+    m_octetCache.clear();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From e739d75dab5319c56276949bd853f5c8d0ee6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 11/35] fix: a message with an invalid header is dropped by
 itself

---
 src/dbus_messageprotocol.cpp | 32 ++++++++++++++++++++++++--------
 src/dbus_messageprotocol.h   |  1 +
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 84368a2..92ef3dd 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -53,6 +53,7 @@ static const size_t MAX_MESSAGE_SIZE = 134217728;
 
 DBus::MessageProtocol::MessageProtocol()
     : m_State(STATE_GETHEADERSIZE)
+    , m_headerValid(false)
     , m_headerSize(0)
     , m_bodySize(0)
 {
@@ -108,6 +109,7 @@ void DBus::MessageProtocol::startMessage()
 
     m_HeaderStruct.clear();
     m_HeaderStruct.setSignature("(yyyyuua(yv))");
+    m_headerValid = false;
     m_headerSize = 0;
     m_bodySize = 0;
 }
@@ -139,18 +141,28 @@ bool DBus::MessageProtocol::getHeaderSize(OctetBuffer& buffer)
 bool DBus::MessageProtocol::unmarshallHeader(OctetBuffer& buffer)
 {
     if (buffer.size() >= m_headerSize) {
-        // When all of the header is buffered the header can be unmarshalled
-        MessageIStream istream(buffer.data(), m_headerSize,
-            SwapRequired(buffer[0]));
-        m_HeaderStruct.unmarshall(istream);
-        buffer.remove_prefix(m_headerSize);
-        // The body of the message is next
-        m_bodySize = Type::asUint32(m_HeaderStruct[4]);
+        // When all of the header is buffered the header can be unmarshalled.
+        // The size of the body is taken from its fixed position, so that a
+        // message whose header fields cannot be unmarshalled can be skipped.
+        m_bodySize = *(uint32_t*)(buffer.data() + 4);
+        m_bodySize = CorrectEndianess(buffer[0], m_bodySize);
 
         if ((m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {
             throw std::out_of_range("DBus message error: Maximum size exceeded");
         }
 
+        try {
+            MessageIStream istream(buffer.data(), m_headerSize,
+                SwapRequired(buffer[0]));
+            m_HeaderStruct.unmarshall(istream);
+            m_headerValid = true;
+        } catch (const std::exception& e) {
+            Log::write(Log::WARNING,
+                "DBus :: Message with an invalid header dropped: %s\n", e.what());
+        }
+        // The body of the message is next
+        buffer.remove_prefix(m_headerSize);
+
         m_State = STATE_GETBODY;
         return true;
     }
@@ -162,7 +174,11 @@ bool DBus::MessageProtocol::getBody(OctetBuffer& buffer)
     if (buffer.size() >= m_bodySize) {
         std::string body((const char*)buffer.data(), m_bodySize);
         buffer.remove_prefix(m_bodySize);
-        onBodyComplete(body);
+        if (m_headerValid) {
+            onBodyComplete(body);
+        } else {
+            startMessage();
+        }
         return true;
     }
     return false;
diff --git a/src/dbus_messageprotocol.h b/src/dbus_messageprotocol.h
index fea8128..1af8e2f 100644
--- a/src/dbus_messageprotocol.h
+++ b/src/dbus_messageprotocol.h
@@ -53,6 +53,7 @@ private:
     };
 
     size_t m_State;
+    bool m_headerValid;
     size_t m_headerSize;
     size_t m_bodySize;
     // TODO:?? Move the handler into a separate message class? We can't get 2
-- 
2.43.0


From 24f85bbfe82f8df724bd8f6cb0dc0f9f3f1ce12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 12/35] fix: refuse a message whose signature announces
 parameters but whose body is empty

---
 src/dbus_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..63cfdf5 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -80,8 +80,8 @@ DBus::Message::Base::Base(const DBus::Type::Struct& header,
         }
     }
 
-    // Empty bodies have no parameters
-    if (body.size()) {
+    // Empty bodies have no parameters, and no signature
+    if (body.size() || signature.size()) {
         parseParameters(isLittleEndian, body, signature);
     }
 }
-- 
2.43.0


From 01634e8536291edd43fdc585cf1db945da19e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 13/35] fix: received errors keep their text, and need not have
 one

---
 src/dbus_message_error.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..2c0f937 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,10 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // The error text is the first parameter, if that is a string
+    if (getParameterCount() && DBus::Type::getMarshallingSignature(getParameter(0)) == "s") {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From f74a564e435ba7322cb898f85cff8904e8a788c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 14/35] fix: received messages keep the flags they were sent
 with

---
 src/dbus_message_methodcall.cpp   | 2 --
 src/dbus_message_methodreturn.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..641d20d 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,8 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
-    m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
 DBus::Message::MethodCall::MethodCall(const Message::MethodCallIdentifier& name,
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..98428e7 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -39,8 +39,6 @@ DBus::Message::MethodReturn::MethodReturn(const DBus::Type::Struct& header,
     : Message::Base(header, body)
 {
 
-    m_Header.flags = 0;
-    m_Header.type = Message::Header::TYPE_METHOD_RETURN;
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::TRACE, "DBus :: Received a method return with serial #%d\n",
-- 
2.43.0


From 91db4be71d70d4bd41423d03cae3bc8ac9f90493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 15/35] fix: header fields that a message omits are zero

---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..5337aa2 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = 0;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From 6e9f40b4ab9646d1a51ed1a04b8b194c8dfd1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 16/35] fix: skip serial zero when the counter wraps

---
 src/dbus_message.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 63cfdf5..29acab3 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,7 +35,14 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
-    m_Header.serial = serial ? serial : m_SerialCounter++;
+    if (serial == 0) {
+        // Zero is not a valid serial, also not when the counter wraps
+        if (m_SerialCounter == 0) {
+            ++m_SerialCounter;
+        }
+        serial = m_SerialCounter++;
+    }
+    m_Header.serial = serial;
 }
 
 DBus::Message::Base::Base(const DBus::Type::Struct& header,
-- 
2.43.0


From 66b1ee73f17bf6f412ffdc29ec434ed54c2e0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 17/35] Verification hook: set the next serial

---
 src/dbus_message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 5337aa2..a3a5d8e 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -163,6 +163,11 @@ namespace Message {
                 : false;
         }
 
+#ifdef DBUS_ASIO_VERIFICATION
+        // The serial that the next message gets (0 stands for the wrap around)
+        static void setNextSerial(uint32_t serial) { m_SerialCounter = serial; }
+#endif
+
     protected:
         std::string marshallMessage(const DBus::Type::Array& header_fields) const;
 
-- 
2.43.0


From 15b1c897f4e43758e0a17ab82d8b8d492fd82a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 18/35] fix: path namespaces hold the path itself, and the root
 holds every path

---
 src/dbus_matchrule.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..03b49a5 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -111,10 +111,10 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
         }
 
         // This handles the 3rd case, by checking the character _after_ the match is
-        // found: if it's not the terminator or another path (i.e. a new /) the
-        // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // found: if it's not the end or another path (i.e. a new /) the search
+        // fails. Every path is below the root.
+        if (path_namespace != "/" && signal_path.size() != path_namespace.size()
+            && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From c3c371a8fa8c7bb15a015c2d26e8ca995f30fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 19/35] fix: match rules for other types of messages do not
 match signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 03b49a5..d37c13e 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -81,6 +81,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From f29c37fc6a631e514e41e608280eaf8644b01fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 20/35] fix: refuse malformed match rules instead of reading
 past their end

---
 src/dbus_matchrule.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index d37c13e..a33fa59 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -18,7 +18,6 @@
 #include <algorithm>
 #include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -31,21 +30,34 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
+    // 1. Split by the comma, except inside of quotes
+    for (size_t pos = 0; pos < rule.size();) {
+        size_t end = pos;
+        bool quoted = false;
+        for (; end < rule.size() && (quoted || rule[end] != ','); ++end) {
+            quoted = quoted != (rule[end] == '\'');
+        }
+        if (quoted) {
+            throw std::runtime_error("Match rule with an unterminated quote: " + rule);
+        }
+        const std::string param(rule, pos, end - pos);
+        pos = end + 1;
+        if (param.empty()) {
+            continue;
+        }
+
         // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
+        const size_t equals = param.find('=');
+        if (equals == std::string::npos || equals + 1 == param.size()) {
+            throw std::runtime_error("Match rule condition without a value: " + param);
+        }
+        std::string keyvalue[] = { param.substr(0, equals), param.substr(equals + 1) };
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
 
         // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        boost::erase_all(keyvalue[1], "'");
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From 5ab4af1d12b0800cbcce95ade000706ce6643919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 21/35] fix: socket paths do not include the parameters behind
 them

The guid of a unix:path= address was taken for a part of the path, and
parameters other than the guid for a part of an abstract name.
---
 src/dbus_platform.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..7f00f8c 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -23,17 +23,19 @@ namespace {
 const static std::string UNIX_PATH_PREFIX("unix:path=");
 const static std::string UNIX_ABSTRACT_PATH_PREFIX("unix:abstract=");
 
+// The value that starts at a position in an address. The parameters of an
+// address, such as its guid, are separated by commas.
+std::string getValue(const std::string& address, size_t pos)
+{
+    return address.substr(pos, address.find(',', pos) - pos);
+}
+
 std::string getAbstractPath(const std::string& path)
 {
     if (path.find(UNIX_ABSTRACT_PATH_PREFIX) == 0) {
         std::string abstract_path;
         abstract_path.push_back('\0');
-        abstract_path += path.substr(UNIX_ABSTRACT_PATH_PREFIX.size());
-
-        const size_t guid_part_pos(abstract_path.find(",guid="));
-        if (guid_part_pos != std::string::npos) {
-            abstract_path = abstract_path.substr(0, guid_part_pos);
-        }
+        abstract_path += getValue(path, UNIX_ABSTRACT_PATH_PREFIX.size());
         return abstract_path;
     }
     return path;
@@ -43,7 +45,7 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        return getValue(path, UNIX_PATH_PREFIX.size());
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From b39160314d3f25ef5e6ba22381631366643e4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 22/35] fix: signals have one argument for each complete type

The introspection data listed every character of a signal's signature
as an argument of its own.
---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..d933e3e 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From d88d6675aa915aa47d17aef9f70ef5c9b92102be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 23/35] fix: a call whose callback throws is completed

Its callbacks stayed registered, so that they were invoked again by
the next reply with that serial.
---
 src/dbus_native.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..b3cfb47 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -199,8 +199,10 @@ void DBus::Native::onReceiveMethodReturn(
     ++m_Stats.count_receive_methodreturns;
 
     if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+        // The call is completed, whatever its callback does
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        callbacks.success(result);
     }
 }
 
@@ -210,8 +212,9 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        const CallbackPair callbacks(it->second);
         m_MessageQueue.erase(it);
+        callbacks.failure(error);
     }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
-- 
2.43.0


From f2e6151f0087f52ab4ae636cb31772c693af4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 24/35] fix: handlers may change the registrations while they
 run

A handler that unregistered itself was destroyed while it ran, and one
that added or removed match rules invalidated the iteration over them.
---
 src/dbus_native.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index b3cfb47..20c00b5 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself while it runs
+        const DBus::Message::CallbackFunctionMethodCall handler(it->second);
+        handler(method);
     }
 }
 
@@ -229,14 +231,24 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself while it runs
+        const DBus::Message::CallbackFunctionSignal handler(it->second);
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
+        std::vector<std::string> matched;
+        for (auto& it : m_RulesMap) {
             if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
+                matched.push_back(it.first);
+            }
+        }
+        // The handlers may add and remove rules while they run
+        for (const auto& rule : matched) {
+            auto it = m_RulesMap.find(rule);
+            if (it != m_RulesMap.end()) {
+                MatchRule(it->second).invoke(signal);
             }
         }
     }
-- 
2.43.0


From fae25cc88619489641fd285619e74e105e1149d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 25/35] fix: count received errors and all the bytes read

Errors and bytes read were never counted, and of the bytes of the
authentication only those read last. The counters are atomic, as they
are read and written by several threads.
---
 src/dbus_native.cpp    |  6 ++++--
 src/dbus_native.h      | 21 +++++++++++----------
 src/dbus_transport.cpp |  1 +
 src/dbus_transport.h   | 11 ++++++-----
 4 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 20c00b5..3664ba8 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -62,8 +62,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
@@ -212,6 +213,7 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
     auto it = m_MessageQueue.find(error.getSerialOfReply());
+    ++m_Stats.count_receive_errors;
 
     if (it != m_MessageQueue.end()) {
         const CallbackPair callbacks(it->second);
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..4b886f7 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -137,16 +138,16 @@ private:
     };
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..f883ab4 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -51,6 +51,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     m_ReceiveDataCallback(buffer);
 
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..c59502e 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 
@@ -76,11 +77,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent { 0 };
+        std::atomic<size_t> count_messagesqueued { 0 };
+        std::atomic<size_t> count_messagespumped { 0 };
+        std::atomic<size_t> bytes_sent { 0 };
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From 64a1ac4f2019b8f25bff813f175f19216bd6aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 26/35] fix: messages that cannot be encoded are not counted as
 sent

Nor is a method call that was never sent kept as one that awaits its
reply.
---
 src/dbus_native.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 3664ba8..5589ed1 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -137,6 +137,8 @@ void DBus::Native::sendMethodCall(
     const DBus::Message::CallbackFunctionMethodReturn& success,
     const DBus::Message::CallbackFunctionError& failure)
 {
+    // Throws if the message cannot be encoded, in which case nothing is sent
+    const std::string data(method.marshall(destination));
     ++m_Stats.count_sent_methodcalls;
     if (method.isReplyExpected()) {
         boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
@@ -144,34 +146,38 @@ void DBus::Native::sendMethodCall(
         m_MessageQueue.emplace(method.getSerial(),
             Native::CallbackPair(success, failure));
     }
-    m_Transport->sendString(method.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendMethodReturn(const std::string& destination,
     const DBus::Message::MethodReturn& result)
 {
+    const std::string data(result.marshall(destination));
     ++m_Stats.count_sent_methodreturns;
-    m_Transport->sendString(result.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendError(const std::string& destination,
     const DBus::Message::Error& err)
 {
+    const std::string data(err.marshall(destination));
     ++m_Stats.count_sent_errors;
-    m_Transport->sendString(err.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendSignal(const std::string& destination,
     const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(destination));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::broadcastSignal(const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(""));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(""));
+    m_Transport->sendString(data);
 }
 
 //
-- 
2.43.0


From 39c4201f22c0595d2ce1df966ec5d2d7f194a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 27/35] fix: each line of the authentication is handled once

The first line was never removed, and was handled again whenever more
data arrived, so that lines behind it, such as AGREE_UNIX_FD, were
never reached.
---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..eb1b186 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From 4c60176b06e773dd6ec1795af9988f0d720f88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 28/35] fix: only the whole first word of an authentication
 line is the command

OKAY was taken for OK. Lines shorter than the command and its line end
threw, which restarted the authentication.
---
 src/dbus_auth.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index eb1b186..f0dcfc5 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -215,10 +215,15 @@ bool DBus::AuthenticationProtocol::onCommand(const std::string& command)
                 std::bind(&DBus::AuthenticationProtocol::onCancel, this))
         };
 
+    // The first word is the command, its arguments are behind the space
+    const std::string line(command.substr(0, command.find("\r\n")));
+    const size_t space = line.find(' ');
+    const std::string word(line.substr(0, space));
+    const std::string arguments(space == std::string::npos ? "" : line.substr(space + 1));
+
     for (size_t i = 0; i < 8; ++i) {
-        if (command.substr(0, strlen(callback_list[i].first)) == callback_list[i].first) {
-            return callback_list[i].second(
-                command.substr(strlen(callback_list[i].first) + 1));
+        if (word == callback_list[i].first) {
+            return callback_list[i].second(arguments);
         }
     }
 
-- 
2.43.0


From b9303b6c46874bbfa0a9dd1e29075d134fdc2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 29/35] fix: OK and AGREE_UNIX_FD only count where they are
 awaited

AGREE_UNIX_FD completed the authentication before the server's OK, or
in basic mode, and each further OK repeated NEGOTIATE_UNIX_FD. Before
the authentication has begun, the required mode was uninitialised.
---
 src/dbus_auth.cpp | 21 ++++++++++++++++++++-
 src/dbus_auth.h   |  6 ++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index f0dcfc5..5e0003d 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -34,7 +34,9 @@ AGREE   ---->
 
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
-    : m_Transport(transport)
+    : m_AuthType(AUTH_BASIC)
+    , m_State(STATE_INITIAL)
+    , m_Transport(transport)
 {
 }
 
@@ -56,6 +58,7 @@ void DBus::AuthenticationProtocol::sendAuth(
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
         m_AuthType = type;
+        m_State = STATE_WAITING_FOR_OK;
     }
 
     std::string auth("AUTH EXTERNAL ");
@@ -105,8 +108,15 @@ bool DBus::AuthenticationProtocol::onOK(
 
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (m_State != STATE_WAITING_FOR_OK) {
+            DBus::Log::write(DBus::Log::WARNING, "DBus :: Unexpected OK ignored\n");
+            return false;
+        }
         if (m_AuthType == AUTH_BASIC) {
+            m_State = STATE_AUTHENTICATED;
             send_begin = true;
+        } else {
+            m_State = STATE_WAITING_FOR_AGREE_UNIX_FD;
         }
     }
 
@@ -140,6 +150,15 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (m_State != STATE_WAITING_FOR_AGREE_UNIX_FD) {
+            DBus::Log::write(DBus::Log::WARNING,
+                "DBus :: Unexpected AGREE_UNIX_FD ignored\n");
+            return false;
+        }
+        m_State = STATE_AUTHENTICATED;
+    }
     sendBegin();
     return true;
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..8836de5 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -61,6 +61,12 @@ protected:
 private:
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
+    enum {
+        STATE_INITIAL,
+        STATE_WAITING_FOR_OK,
+        STATE_WAITING_FOR_AGREE_UNIX_FD,
+        STATE_AUTHENTICATED
+    } m_State;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 47bc4d2780fa9e3ec9dcfe6023ec6dc590d7c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 30/35] fix: write one message at a time

A message that the socket takes in several parts was interleaved with
those sent while it was being written.
---
 src/dbus_transport.cpp | 30 +++++++++++++++++++++++++-----
 src/dbus_transport.h   |  5 +++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index f883ab4..5d351cf 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -143,9 +143,7 @@ void DBus::Transport::sendOctetDirect(uint8_t data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::shared_ptr<std::string> buf(new std::string());
     buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -156,11 +154,27 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 
     // We don't know when the write will complete, so we copy the buffer
     std::shared_ptr<std::string> buf(new std::string(data));
+    queueWrite(buf);
+    ++m_Stats.count_messagessent;
+    m_Stats.bytes_sent += data.length();
+}
+
+// async_write may write its data in several parts, so another one must not be
+// started before it has completed
+void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
+{
+    m_WriteQueue.push_back(buf);
+    if (m_WriteQueue.size() == 1) {
+        startWrite();
+    }
+}
+
+void DBus::Transport::startWrite()
+{
+    std::shared_ptr<std::string> buf(m_WriteQueue.front());
     boost::asio::async_write(
         m_socket, boost::asio::buffer(*buf.get()),
         boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
-    ++m_Stats.count_messagessent;
-    m_Stats.bytes_sent += data.length();
 }
 
 void DBus::Transport::handle_write_output(
@@ -172,6 +186,12 @@ void DBus::Transport::handle_write_output(
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
     }
+
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteQueue.pop_front();
+    if (!m_WriteQueue.empty()) {
+        startWrite();
+    }
 }
 
 void DBus::Transport::setDataHandler(
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index c59502e..6ea7dc6 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -22,6 +22,7 @@
 #include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -58,6 +59,8 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void queueWrite(const std::shared_ptr<std::string>& buf);
+    void startWrite();
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -71,6 +74,8 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    // What is being written (the first one), or waits to be written
+    std::deque<std::shared_ptr<std::string>> m_WriteQueue;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 2b2a71a9ef842a633c0e0dcfec26aa93ac7e5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 31/35] fix: write at once what the socket takes

Since messages are written one at a time, those sent just before the
connection is closed waited for the completion of others, and were lost.
---
 src/dbus_transport.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 5d351cf..8648cbc 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -32,6 +32,7 @@ DBus::Transport::Transport(const std::string& path)
         std::bind(&Transport::onReceiveData, this, std::placeholders::_1));
 
     m_socket.connect(m_Busname);
+    m_socket.non_blocking(true);
 
     // The "special credentials passing NUL byte" is required, even for protocols
     // that can send credentials without needing one. Otherwise, the server may
@@ -163,6 +164,15 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 // started before it has completed
 void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
 {
+    if (m_WriteQueue.empty()) {
+        // Usually, the socket takes everything at once. Otherwise, including
+        // errors, the rest is up to async_write.
+        boost::system::error_code ec;
+        buf->erase(0, m_socket.write_some(boost::asio::buffer(*buf.get()), ec));
+        if (buf->empty()) {
+            return;
+        }
+    }
     m_WriteQueue.push_back(buf);
     if (m_WriteQueue.size() == 1) {
         startWrite();
-- 
2.43.0


From e5db87b46e1a75e95a5aab367912765a4b522a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 32/35] fix: do not start further writes after one has failed

Behind a write that failed, asio only waits for the socket to become
writable, which never happens: closing a connection whose peer does not
read, with several messages outstanding, waited for half a minute and
aborted.
---
 src/dbus_transport.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 8648cbc..2697a68 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -165,10 +165,15 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
 {
     if (m_WriteQueue.empty()) {
-        // Usually, the socket takes everything at once. Otherwise, including
-        // errors, the rest is up to async_write.
+        // Usually, the socket takes everything at once. Otherwise, the rest is up
+        // to async_write.
         boost::system::error_code ec;
         buf->erase(0, m_socket.write_some(boost::asio::buffer(*buf.get()), ec));
+        if (ec && ec != boost::asio::error::would_block) {
+            DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in write_some : %s\n",
+                ec.message().c_str());
+            return;
+        }
         if (buf->empty()) {
             return;
         }
@@ -198,6 +203,12 @@ void DBus::Transport::handle_write_output(
     }
 
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    if (error) {
+        // Nothing can be written any more. Another async_write would wait for
+        // the socket to become writable, possibly forever.
+        m_WriteQueue.clear();
+        return;
+    }
     m_WriteQueue.pop_front();
     if (!m_WriteQueue.empty()) {
         startWrite();
-- 
2.43.0


From 8a6c38635cd30c8a7c08e67aed03302845f7fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:08 +0000
Subject: [PATCH 33/35] fix: refuse a struct signature whose brackets do not
 match

A message body with the signature '(y' was decoded as if it were '(y)',
because the closing bracket of the struct that stands for the body was taken
for the missing one.
---
 src/dbus_type_struct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index e7f1f31..5d26b77 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -33,6 +33,7 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 #include <sstream>
+#include <stdexcept>
 
 /*
 Structs and dict entries are marshalled in the same way as their contents, but
@@ -152,6 +153,9 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
         DBus::Type::unmarshallData(m_Value.back(), stream);
         signatureIndex += signature.size();
     } while (signatureIndex < m_Signature.size() - 1);
+    if (signatureIndex != m_Signature.size() - 1) {
+        throw std::runtime_error("Mis-matched brackets in signature");
+    }
 }
 
 std::string DBus::Type::Struct::toString(const std::string& prefix) const
-- 
2.43.0


From 7353a6952be63a1749a00f4401d5e5cd5e60fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 34/35] fix: describe the boolean value false as False

---
 src/dbus_type_boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 4651dc5..0a6e865 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -49,7 +49,7 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
     std::stringstream ss;
 
     ss << prefix << "Boolean ";
-    ss << (m_Value ? "True" : "Talse") << "\n";
+    ss << (m_Value ? "True" : "False") << "\n";
 
     return ss.str();
 }
-- 
2.43.0


From efe00fdf095895170148d37269895744ad636ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:02 +0000
Subject: [PATCH 35/35] fix: omit the destination of a message that has none

An empty string is not a bus name, so a bus refuses a message with such a
field. Signals already leave it out.
---
 src/dbus_message_error.cpp        | 10 ++++++----
 src/dbus_message_methodcall.cpp   | 10 ++++++----
 src/dbus_message_methodreturn.cpp | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 2c0f937..819e542 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -66,10 +66,12 @@ std::string
 DBus::Message::Error::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sErrorName;
     sErrorName.add(DBus::Type::Byte(DBus::Message::Header::HEADER_ERROR_NAME));
diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 641d20d..bbd8a94 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -70,10 +70,12 @@ DBus::Message::MethodCall::marshall(const std::string& destination) const
 
     // This is necessary, to prevent errors from the daemon,although it is marked
     // as optional in the spec
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sInterface;
     sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index 98428e7..93174c9 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -54,10 +54,12 @@ std::string
 DBus::Message::MethodReturn::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sReplySerial;
     sReplySerial.add(
-- 
2.43.0

