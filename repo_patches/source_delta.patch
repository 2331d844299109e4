From af274ef20b2103bffdc79d3e366d67e3ed0a1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 01/49] fix: check bounds before reading length-delimited and
 fixed-size values

Truncated or lying input made the deserializer read outside of the buffer
(and allocate up to 2 GB) before the length was checked.
---
 src/protobuf/qprotobufselfcheckiterator.h | 11 ++++++++---
 src/protobuf/qprotobufserializer.cpp      |  2 +-
 src/protobuf/qprotobufserializer_p.h      | 15 ++++++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..78f5f68 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -54,7 +54,12 @@ public:
     explicit operator QByteArray::const_iterator&() { return m_it; }
     explicit operator QByteArray::const_iterator() const { return m_it; }
 
-    char operator *() { return *m_it; }
+    char operator *() {
+        if (m_sizeLeft <= 0) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return *m_it;
+    }
 
     QProtobufSelfcheckIterator &operator ++() {
         --m_sizeLeft;
@@ -75,10 +80,10 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..ab0517e 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -289,7 +289,7 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     WireTypes wireType = UnknownWireType;
     if (!QProtobufSerializerPrivate::decodeHeader(it, fieldNumber, wireType)) {
         qProtoCritical() << "Message received doesn't contains valid header byte. "
-                            "Trying next, but seems stream is broken" << QString::number((*it), 16);
+                            "Trying next, but seems stream is broken" << QByteArray(it.data(), qMin(it.size(), 1)).toHex();
         throw std::invalid_argument("Message received doesn't contains valid header byte. "
                               "Seems stream is broken");
     }
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..bfeb44a 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -26,6 +26,8 @@
 #include <QString>
 #include <QByteArray>
 
+#include <cstring>
+
 #include "qprotobufselfcheckiterator.h"
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -303,8 +305,11 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        const char *data = it.data();
+        it += sizeof(V);//throws if there are not enough bytes
+        V value;
+        memcpy(&value, data, sizeof(V));//data is not necessarily aligned
+        variantValue = QVariant::fromValue(value);
     }
 
     template <typename V,
@@ -375,9 +380,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
-        it += length;
-        return result;
+        const char *data = it.data();
+        it += length;//throws if there are not enough bytes
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From f4d249101bfe7999e617e1924adaac5c36da5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 02/49] fix: reject varints, lengths and tags that are out of
 range

Over-long varints shifted by more than 63 bits, lengths and tags above 32 bits
were silently truncated and read as something else.
---
 src/protobuf/qprotobufserializer.cpp |  9 +++------
 src/protobuf/qprotobufserializer_p.h | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab0517e..74c31b3 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -217,16 +217,13 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
 
 void QProtobufSerializerPrivate::skipVarint(QProtobufSelfcheckIterator &it)
 {
-    while ((*it) & 0x80) {
-        ++it;
-    }
-    ++it;
+    deserializeVarintCommon<uint64>(it);//throws if varint is too long
 }
 
 void QProtobufSerializerPrivate::skipLengthDelimited(QProtobufSelfcheckIterator &it)
 {
     //Get length of lenght-delimited field
-    uint32 length = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
+    int length = QProtobufSerializerPrivate::deserializeLength(it);
     it += length;
 }
 
@@ -328,7 +325,7 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
 {
     int mapIndex = 0;
     WireTypes type = WireTypes::UnknownWireType;
-    unsigned int count = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
+    int count = QProtobufSerializerPrivate::deserializeLength(it);
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index bfeb44a..05b167e 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -283,6 +283,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= 70) {
+                throw std::invalid_argument("Varint is longer than 10 bytes. Seems stream is broken");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
@@ -363,7 +366,7 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         QList<V> out;
-        unsigned int count = deserializeVarintCommon<uint32>(it);
+        int count = deserializeLength(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
             QVariant variantValue;
@@ -376,10 +379,18 @@ public:
     //###########################################################################
     //                             Common functions
     //###########################################################################
+    static int deserializeLength(QProtobufSelfcheckIterator &it) {
+        uint64 length = deserializeVarintCommon<uint64>(it);
+        if (length > static_cast<uint64>(it.size())) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return static_cast<int>(length);
+    }
+
     static QByteArray deserializeLengthDelimited(QProtobufSelfcheckIterator &it) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        unsigned int length = deserializeVarintCommon<uint32>(it);
+        int length = deserializeLength(it);
         const char *data = it.data();
         it += length;//throws if there are not enough bytes
         return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
@@ -486,7 +497,10 @@ inline QByteArray QProtobufSerializerPrivate::encodeHeader(int fieldIndex, WireT
  */
 inline bool QProtobufSerializerPrivate::decodeHeader(QProtobufSelfcheckIterator &it, int &fieldIndex, WireTypes &wireType)
 {
-    uint32_t header = deserializeVarintCommon<uint32_t>(it);
+    uint64_t header = deserializeVarintCommon<uint64_t>(it);
+    if (header > UINT32_MAX) {
+        return false;
+    }
     wireType = static_cast<WireTypes>(header & 0b00000111);
     fieldIndex = header >> 3;
 
-- 
2.43.0


From 8124bfe93e1f4213161647d96a455954f1d2ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 03/49] fix: do not shift negative values when zigzag encoding

---
 src/protobuf/qprotobufserializer_p.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 05b167e..f655c5c 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -158,11 +158,9 @@ public:
     static QByteArray serializeBasic(const V &value, int &outFieldIndex) {
         qProtoDebug() << __func__ << "value" << value;
         using UV = typename std::make_unsigned<V>::type;
-        UV uValue = 0;
 
         //Use ZigZag convertion first and apply unsigned variant next
-        V zigZagValue = (value << 1) ^ (value >> (sizeof(UV) * 8 - 1));
-        uValue = static_cast<UV>(zigZagValue);
+        UV uValue = (static_cast<UV>(value) << 1) ^ static_cast<UV>(value >> (sizeof(UV) * 8 - 1));
         return serializeBasic(uValue, outFieldIndex);
     }
 
-- 
2.43.0


From 2e691a5b8bbf3ebe9fe8f3b01e5acf96a74d7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 04/49] fix: keep null characters and byte order marks of
 received strings

A received string was cut at the first null character and lost a leading U+FEFF.
---
 src/protobuf/qprotobufserializer.cpp |  3 +--
 src/protobuf/qprotobufserializer_p.h | 12 +++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 74c31b3..cc0b68c 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -67,8 +67,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
     QStringList list = previousValue.value<QStringList>();
-    QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(deserializeString(it));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index f655c5c..15a3527 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -354,7 +354,7 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        variantValue = QVariant::fromValue(deserializeString(it));
     }
 
     //-------------------------List types deserializers--------------------------
@@ -394,6 +394,16 @@ public:
         return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
+    static QString deserializeString(QProtobufSelfcheckIterator &it) {
+        const QByteArray utf8 = deserializeLengthDelimited(it);
+        //Size is specified explicitly, string might contain null characters
+        QString result = QString::fromUtf8(utf8.constData(), utf8.size());
+        if (utf8.startsWith("\xEF\xBB\xBF")) {
+            result.prepend(QChar(QChar::ByteOrderMark));//QString::fromUtf8 drops leading byte order mark
+        }
+        return result;
+    }
+
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
         qProtoDebug() << __func__ << "data.size" << data.size() << "data" << data.toHex();
         QByteArray result(data);
-- 
2.43.0


From bc000b7d8c3f855efab9657ae9333436b8d29693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:08 +0000
Subject: [PATCH 05/49] fix: read any non-zero varint as true

Only low 32 bits of received boolean values were considered.
---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index cc0b68c..6c20ae9 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -193,7 +193,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<fixed64, serializeBasic, deserializeBasic<fixed64>, Fixed64>();
         wrapSerializer<sfixed32, serializeBasic, deserializeBasic<sfixed32>, Fixed32>();
         wrapSerializer<sfixed64, serializeBasic, deserializeBasic<sfixed64>, Fixed64>();
-        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<uint32>, Varint>();
+        wrapSerializer<bool, serializeBasic, deserializeBasic<bool>, Varint>();
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
-- 
2.43.0


From df12161e21c9e39da36a4b831a44373fd3b6c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:12 +0000
Subject: [PATCH 06/49] fix: do not leak nested messages when deserialization
 fails, merge messages received in pieces

A nested message allocated by the deserializer was lost when its content
appeared to be malformed. A sub-message whose fields come in more than one
piece has to be merged, and value of map pair may be omitted, that means
default value.
---
 src/protobuf/qabstractprotobufserializer_p.h | 28 ++++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ee47fc6..7844119 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -29,8 +29,10 @@
 #include <QVariant>
 #include <QMetaObject>
 #include <QMetaEnum>
+#include <QSharedPointer>
 
 #include <functional>
+#include <memory>
 
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -175,9 +177,15 @@ template <typename T,
           typename std::enable_if_t<std::is_base_of<QObject, T>::value, int> = 0>
 void deserializeObject(const QtProtobuf::QAbstractProtobufSerializer *serializer, QtProtobuf::QProtobufSelfcheckIterator &it, QVariant &to) {
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
-    T *value = new T;
-    serializer->deserializeObject(value, T::protobufMetaObject, it);
-    to = QVariant::fromValue<T *>(value);
+    T *value = to.value<T *>();
+    if (value != nullptr) {
+        //Message might be received in several pieces, that should be merged
+        serializer->deserializeObject(value, T::protobufMetaObject, it);
+        return;
+    }
+    std::unique_ptr<T> newValue(new T);
+    serializer->deserializeObject(newValue.get(), T::protobufMetaObject, it);
+    to = QVariant::fromValue<T *>(newValue.release());
 }
 
 /*!
@@ -190,10 +198,10 @@ void deserializeList(const QtProtobuf::QAbstractProtobufSerializer *serializer,
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-    V *newValue = new V;
+    QSharedPointer<V> newValue(new V);
     QList<QSharedPointer<V>> list = previous.value<QList<QSharedPointer<V>>>();
-    if (serializer->deserializeListObject(newValue, V::protobufMetaObject, it)) {
-        list.append(QSharedPointer<V>(newValue));
+    if (serializer->deserializeListObject(newValue.data(), V::protobufMetaObject, it)) {
+        list.append(newValue);
         previous.setValue(list);
     }
 }
@@ -233,10 +241,14 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
 
     auto out = previous.value<QMap<K, QSharedPointer<V>>>();
     QVariant key = QVariant::fromValue<K>(K());
-    QVariant value = QVariant::fromValue<V *>(nullptr);
+    QSharedPointer<V> newValue(new V);//Value might be omitted in received pair
+    QVariant value = QVariant::fromValue<V *>(newValue.data());
 
     if (serializer->deserializeMapPair(key, value, it)) {
-        out[key.value<K>()] = QSharedPointer<V>(value.value<V *>());
+        if (value.value<V *>() != newValue.data()) {
+            newValue.reset(value.value<V *>());
+        }
+        out[key.value<K>()] = newValue;
         previous = QVariant::fromValue<QMap<K, QSharedPointer<V>>>(out);
     }
 }
-- 
2.43.0


From 52d25b3d675dd07bf4da85fde3e5dcaf16fb6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:12 +0000
Subject: [PATCH 07/49] fix: check headers of map pair fields and skip unknown
 ones

---
 src/protobuf/qprotobufserializer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 6c20ae9..0823498 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -328,13 +328,16 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map pair received doesn't contains valid header byte. "
+                                        "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
-        } else {
+        } else if (mapIndex == 2) {
             //TODO: replace with some common function
             int userType = value.userType();
             auto basicIt = handlers.find(userType);
@@ -344,6 +347,8 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
                 auto handler = QtProtobufPrivate::findHandler(userType);
                 handler.deserializer(q_ptr, it, value);//throws if not implemented
             }
+        } else {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         }
     }
 }
-- 
2.43.0


From c575bf75eaec3eec5e9a2f090858ad3e5df5f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 08/49] fix: accept lists received in chunks or not packed,
 skip fields of unexpected wire type

Parser has to accept both packed and not packed encoding of repeated scalar
fields and append elements of each chunk to the list. Content of known field
with wire type that doesn't suit to type of the field must not be interpreted
as value of that field.
---
 src/protobuf/qabstractprotobufserializer.h   |  4 +-
 src/protobuf/qabstractprotobufserializer_p.h |  4 +-
 src/protobuf/qprotobufserializer.cpp         | 85 +++++++++++++-------
 src/protobuf/qprotobufserializer_p.h         | 22 +++--
 4 files changed, 78 insertions(+), 37 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index f8dfc0f..4a5d8c6 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -327,7 +327,7 @@ template<typename T,
          typename std::enable_if_t<std::is_enum<T>::value, int> = 0>
 inline void qRegisterProtobufEnumType() {
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
-                                                           QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::ObjectHandler });
+                                                           QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::EnumHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
-                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::ListHandler });
+                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::EnumListHandler });
 }
diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index 7844119..db48e01 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -57,7 +57,9 @@ using Deserializer = std::function<void(const QtProtobuf::QAbstractProtobufSeria
 enum HandlerType {
     ObjectHandler,
     ListHandler,
-    MapHandler
+    MapHandler,
+    EnumHandler,
+    EnumListHandler
 };
 
 /*!
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 0823498..4bfdd46 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -197,18 +197,18 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
-        wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited>();
-        wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited>();
-        wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited>();
-        wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited>();
-        wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited>();
-        wrapSerializer<sfixed64List, serializeListType, deserializeList<sfixed64>, LengthDelimited>();
-        wrapSerializer<int32List, serializeListType, deserializeList<int32>, LengthDelimited>();
-        wrapSerializer<int64List, serializeListType, deserializeList<int64>, LengthDelimited>();
-        wrapSerializer<sint32List, serializeListType, deserializeList<sint32>, LengthDelimited>();
-        wrapSerializer<sint64List, serializeListType, deserializeList<sint64>, LengthDelimited>();
-        wrapSerializer<uint32List, serializeListType, deserializeList<uint32>, LengthDelimited>();
-        wrapSerializer<uint64List, serializeListType, deserializeList<uint64>, LengthDelimited>();
+        wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited, Fixed32>();
+        wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited, Fixed64>();
+        wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited, Fixed32>();
+        wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited, Fixed64>();
+        wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited, Fixed32>();
+        wrapSerializer<sfixed64List, serializeListType, deserializeList<sfixed64>, LengthDelimited, Fixed64>();
+        wrapSerializer<int32List, serializeListType, deserializeList<int32>, LengthDelimited, Varint>();
+        wrapSerializer<int64List, serializeListType, deserializeList<int64>, LengthDelimited, Varint>();
+        wrapSerializer<sint32List, serializeListType, deserializeList<sint32>, LengthDelimited, Varint>();
+        wrapSerializer<sint64List, serializeListType, deserializeList<sint64>, LengthDelimited, Varint>();
+        wrapSerializer<uint32List, serializeListType, deserializeList<uint32>, LengthDelimited, Varint>();
+        wrapSerializer<uint64List, serializeListType, deserializeList<uint64>, LengthDelimited, Varint>();
         wrapSerializer<QStringList, QStringList, serializeListType<QString>, deserializeList<QString>, LengthDelimited>();
         wrapSerializer<QByteArrayList, serializeListType, deserializeList<QByteArray>, LengthDelimited>();
     }
@@ -308,16 +308,53 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     newPropertyValue = metaProperty.read(object);
     int userType = metaProperty.userType();
 
-    //TODO: replace with some common function
+    if (deserializeValue(userType, wireType, it, newPropertyValue)) {
+        metaProperty.write(object, newPropertyValue);
+    }
+}
+
+bool QProtobufSerializerPrivate::deserializeValue(int userType, WireTypes wireType, QProtobufSelfcheckIterator &it, QVariant &value)
+{
     auto basicIt = handlers.find(userType);
+    QtProtobufPrivate::SerializationHandler handler;
+    WireTypes expectedType = LengthDelimited;
+    WireTypes elementType = UnknownWireType;
     if (basicIt != handlers.end()) {
-        basicIt->second.deserializer(it, newPropertyValue);
+        expectedType = basicIt->second.type;
+        elementType = basicIt->second.elementType;
     } else {
-        auto handler = QtProtobufPrivate::findHandler(userType);
-        handler.deserializer(q_ptr, it, newPropertyValue);
+        handler = QtProtobufPrivate::findHandler(userType);
+        if (handler.type == QtProtobufPrivate::EnumHandler) {
+            expectedType = Varint;
+        } else if (handler.type == QtProtobufPrivate::EnumListHandler) {
+            elementType = Varint;
+        }
     }
 
-    metaProperty.write(object, newPropertyValue);
+    auto deserialize = [&](QProtobufSelfcheckIterator &valueIt) {
+        if (basicIt != handlers.end()) {
+            basicIt->second.deserializer(valueIt, value);
+        } else {
+            handler.deserializer(q_ptr, valueIt, value);//throws if not implemented
+        }
+    };
+
+    if (wireType == expectedType) {
+        deserialize(it);
+    } else if (wireType == elementType) {
+        //Not packed element of the list, wrap it to packed list of single element
+        const char *data = it.data();
+        int count = skipSerializedFieldBytes(it, wireType);
+        const QByteArray chunk = prependLengthDelimitedSize(QByteArray(data, count));
+        QProtobufSelfcheckIterator chunkIt(chunk);
+        deserialize(chunkIt);
+    } else {
+        auto bytesCount = skipSerializedFieldBytes(it, wireType);
+        qProtoWarning() << "Message received contains field of unexpected WireType:" << wireType
+                        << "Skipped:" << (bytesCount + 1) << "bytes";
+        return false;
+    }
+    return true;
 }
 
 void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &value, QProtobufSelfcheckIterator &it)
@@ -334,19 +371,9 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
         }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
-            int userType = key.userType();
-            auto &handler = handlers.at(userType);//throws if not found
-            handler.deserializer(it, key);
+            deserializeValue(key.userType(), type, it, key);
         } else if (mapIndex == 2) {
-            //TODO: replace with some common function
-            int userType = value.userType();
-            auto basicIt = handlers.find(userType);
-            if (basicIt != handlers.end()) {
-                basicIt->second.deserializer(it, value);
-            } else {
-                auto handler = QtProtobufPrivate::findHandler(userType);
-                handler.deserializer(q_ptr, it, value);//throws if not implemented
-            }
+            deserializeValue(value.userType(), type, it, value);
         } else {
             QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         }
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 15a3527..86f590f 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -64,6 +64,7 @@ public:
         Serializer serializer; /*!< serializer assigned to class */
         Deserializer deserializer;/*!< deserializer assigned to class */
         WireTypes type;/*!< Serialization WireType */
+        WireTypes elementType;/*!< WireType of single element, if type is packed list */
     };
 
     using SerializerRegistry = std::unordered_map<int/*metatypeid*/, SerializationHandlers>;
@@ -363,7 +364,7 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        QList<V> out = previousValue.value<QList<V>>();//List might be received in several chunks
         int count = deserializeLength(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
@@ -438,23 +439,25 @@ public:
         return s(value, fieldIndex);
     }
 
-    template <typename T, QByteArray(*s)(const T &, int &), Deserializer d, WireTypes type,
+    template <typename T, QByteArray(*s)(const T &, int &), Deserializer d, WireTypes type, WireTypes elementType = UnknownWireType,
     typename std::enable_if_t<!std::is_base_of<QObject, T>::value, int> = 0>
     static void wrapSerializer() {
         handlers[qMetaTypeId<T>()] = {
                 serializeWrapper<T, s>,
                 d,
-                type
+                type,
+                elementType
         };
     }
 
-    template <typename T, typename S, QByteArray(*s)(const S &, int &), Deserializer d, WireTypes type,
+    template <typename T, typename S, QByteArray(*s)(const S &, int &), Deserializer d, WireTypes type, WireTypes elementType = UnknownWireType,
     typename std::enable_if_t<!std::is_base_of<QObject, T>::value, int> = 0>
     static void wrapSerializer() {
         handlers[qMetaTypeId<T>()] = {
                 serializeWrapper<S, s>,
                 d,
-                type
+                type,
+                elementType
         };
     }
 
@@ -468,6 +471,15 @@ public:
     void deserializeProperty(QObject *object, const QProtobufMetaObject &metaObject, QProtobufSelfcheckIterator &it);
 
     void deserializeMapPair(QVariant &key, QVariant &value, QProtobufSelfcheckIterator &it);
+
+    /*!
+     * \brief Deserializes single field of \a value type
+     *
+     * \details If \a wireType doesn't suit to type of \a value, field is skipped in the same way as unknown one
+     *
+     * \return true if \a value is updated
+     */
+    bool deserializeValue(int userType, WireTypes wireType, QProtobufSelfcheckIterator &it, QVariant &value);
 private:
     static SerializerRegistry handlers;
     QProtobufSerializer *q_ptr;
-- 
2.43.0


From 5da4fb80d2e5093a532ef77bfb32d790579b882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 09/49] fix: limit nesting of received messages

---
 src/protobuf/qprotobufserializer.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 4bfdd46..820654b 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -95,8 +95,30 @@ QByteArray QProtobufSerializer::serializeMessage(const QObject *object, const QP
     return result;
 }
 
+namespace {
+//! \private
+//! \brief Limits nesting of messages, to not exhaust the stack by received data
+class RecursionGuard final {
+    Q_DISABLE_COPY_MOVE(RecursionGuard)
+public:
+    RecursionGuard() {
+        if (depth >= maxDepth) {
+            throw std::invalid_argument("Message received has too many nested messages");
+        }
+        ++depth;
+    }
+    ~RecursionGuard() { --depth; }
+private:
+    static constexpr int maxDepth = 101;//Root message and 100 nested messages
+    static thread_local int depth;
+};
+thread_local int RecursionGuard::depth = 0;
+}
+
 void QProtobufSerializer::deserializeMessage(QObject *object, const QProtobufMetaObject &metaObject, const QByteArray &data) const
 {
+    RecursionGuard guard;
+    Q_UNUSED(guard)
     for (QProtobufSelfcheckIterator it(data); it != data.end();) {
         dPtr->deserializeProperty(object, metaObject, it);
     }
-- 
2.43.0


From b162e4b0ce8727bec4b119b95d8f726b04610bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 10/49] fix: do not leak message fields when generated code is
 built without QML definitions

Generated code never had QT_QML_LIB defined, lazy message pointer treated every
message as owned by QML and never deleted it.
---
 cmake/QtProtobufGen.cmake                  | 3 +++
 src/protobuf/qprotobuflazymessagepointer.h | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmake/QtProtobufGen.cmake b/cmake/QtProtobufGen.cmake
index 4748752..4e60454 100644
--- a/cmake/QtProtobufGen.cmake
+++ b/cmake/QtProtobufGen.cmake
@@ -184,6 +184,9 @@ function(qtprotobuf_generate)
     #Add include directories in case if targets are found by find_project or in source tree
     target_include_directories(${generated_target_name} PUBLIC ${out_dir} PRIVATE
         $<TARGET_PROPERTY:${QT_PROTOBUF_NAMESPACE}::Protobuf,INTERFACE_INCLUDE_DIRECTORIES>)
+    #Headers of QtProtobuf depend on definitions of the Qt modules it's linked to
+    target_compile_definitions(${generated_target_name} PRIVATE
+        $<TARGET_PROPERTY:${QT_PROTOBUF_NAMESPACE}::Protobuf,INTERFACE_COMPILE_DEFINITIONS>)
 
     #TODO: Do not link targets if they are not used in .proto files.
     if(TARGET ${QT_PROTOBUF_NAMESPACE}::Grpc)
diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..126b729 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -101,7 +101,7 @@ private:
 #if defined(QT_QML_LIB)
         bool qmlCheck = QQmlEngine::objectOwnership(m_ptr.get()) == QQmlEngine::JavaScriptOwnership;
 #else
-        bool qmlCheck = true;
+        bool qmlCheck = false;//There is no other owner than this pointer
 #endif
         if (m_ptr != nullptr && qmlCheck) {
             m_ptr.release();//In case if object owned by QML it's qml responsibility to clean it up
-- 
2.43.0


From a045af44fd0d2a636da0f4f423a363ec8b665dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 11/49] fix: return value from operators of lazy message
 pointer, keep track of moved object

---
 src/protobuf/qprotobuflazymessagepointer.h | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 126b729..74f1703 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -55,7 +55,7 @@ public:
         if (m_ptr == nullptr) {
             m_ptr.reset(new T);
         }
-        m_ptr.operator->();
+        return m_ptr.operator->();
     }
 
     T *get() const {
@@ -79,17 +79,27 @@ public:
     void reset(T *p) const {
         checkAndRelease();
         QObject::disconnect(m_destroyed);
-        m_destroyed = QObject::connect(p, &QObject::destroyed, [this] {
-            QObject::disconnect(m_destroyed);
-            m_ptr.release();
-        });
+        if (p != nullptr) {
+            m_destroyed = QObject::connect(p, &QObject::destroyed, [this] {
+                QObject::disconnect(m_destroyed);
+                m_ptr.release();
+            });
+        }
 
         m_ptr.reset(p);
     }
 
-    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
+    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) {
+        *this = std::move(other);
+    }
+
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
-        m_ptr = std::move(other.m_ptr);
+        if (this != &other) {
+            //Connection refers to other pointer, need to create new one
+            QObject::disconnect(other.m_destroyed);
+            reset(other.m_ptr.release());
+        }
+        return *this;
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From 4c45678020172ac8040590e8aa9e00750e064eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:12 +0000
Subject: [PATCH 12/49] fix: initialize fields in copy and move constructors
 before they are compared

Setters used by copy and move constructors compare new value with the current
one, that was not initialized.
---
 src/generator/messagedefinitionprinter.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..4afabf7 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -210,11 +210,7 @@ void MessageDefinitionPrinter::printCopyFunctionality()
 
     mPrinter->Print(mTypeMap,
                     constructorTemplate);
-    common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (common::isPureMessage(field)) {
-            mPrinter->Print(propertyMap, Templates::MessagePropertyDefaultInitializerTemplate);
-        }
-    });
+    printInitializationList(0);
     mPrinter->Print("\n{\n");
 
     Indent();
@@ -255,11 +251,7 @@ void MessageDefinitionPrinter::printMoveSemantic()
 
     mPrinter->Print(mTypeMap,
                     constructorTemplate);
-    common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (common::isPureMessage(field)) {
-            mPrinter->Print(propertyMap, Templates::MessagePropertyDefaultInitializerTemplate);
-        }
-    });
+    printInitializationList(0);
     mPrinter->Print("\n{\n");
 
     Indent();
-- 
2.43.0


From 6f2322a9da3f336631b0ce17e6712e65593166c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:12 +0000
Subject: [PATCH 13/49] fix: compare message fields only once

Two comparisons of the same not equal nested messages at each level make
comparison time exponential of nesting depth.
---
 src/generator/templates.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..b4f411c 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -167,8 +167,7 @@ const char *Templates::EmptyEqualOperatorDefinitionTemplate = "bool $classname$:
                                                               "    return true;\n"
                                                               "}\n\n";
 const char *Templates::EqualOperatorPropertyTemplate = "m_$property_name$ == other.m_$property_name$";
-const char *Templates::EqualOperatorMessagePropertyTemplate = "(m_$property_name$ == other.m_$property_name$\n"
-                                                              "    || *m_$property_name$ == *other.m_$property_name$)\n";
+const char *Templates::EqualOperatorMessagePropertyTemplate = "m_$property_name$ == other.m_$property_name$\n";
 const char *Templates::EqualOperatorRepeatedPropertyTemplate = "QtProtobuf::repeatedValueCompare(m_$property_name$, other.m_$property_name$)";
 
 const char *Templates::NotEqualOperatorDeclarationTemplate = "bool operator !=(const $classname$ &other) const;\n";
-- 
2.43.0


From 6b0f669ec8f3f22ac64d5b45d324bbd17434ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:12 +0000
Subject: [PATCH 14/49] fix: notify about enum field changed by move assignment

---
 src/generator/templates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index b4f411c..84b679c 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -149,7 +149,7 @@ const char *Templates::MoveComplexFieldConstructorTemplate = "m_$property_name$
 
 const char *Templates::MoveFieldTemplate = "set$property_name_cap$(std::exchange(other.m_$property_name$, 0));\n"
                                            "other.$property_name$Changed();\n";
-const char *Templates::EnumMoveFieldTemplate = "m_$property_name$ = other.m_$property_name$;\n";
+const char *Templates::EnumMoveFieldTemplate = "set$property_name_cap$(other.m_$property_name$);\n";
 
 const char *Templates::AssignmentOperatorDeclarationTemplate = "$classname$ &operator =(const $classname$ &other);\n";
 const char *Templates::AssignmentOperatorDefinitionTemplate = "$classname$ &$classname$::operator =(const $classname$ &other)\n{\n";
-- 
2.43.0


From 1ce5fbb3f3518619c1ff426b138973b395aaf713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:17 +0000
Subject: [PATCH 15/49] fix: do not dereference null when maps or lists of
 messages are compared

Maps of the same size, but with different keys were compared by dereferencing
value that doesn't exist in the second map.
---
 src/protobuf/qtprotobuftypes.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..5446b8a 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -275,6 +275,12 @@ struct ProtoTypeRegistrar {
     }
 };
 
+//! \private
+template<typename T>
+bool repeatedValueCompare(const QSharedPointer<T>& a, const QSharedPointer<T>& b) {
+    return a == b || (!a.isNull() && !b.isNull() && *a == *b);
+}
+
 template<typename T>
 bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QSharedPointer<T>>& b) {
     if (a.size() != b.size()) {
@@ -283,7 +289,7 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (!repeatedValueCompare(*itA, *itB)) {
             return false;
         }
         ++itA;
@@ -304,9 +310,9 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
         return false;
     }
 
-    for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+    for (auto itA = a.constBegin(); itA != a.constEnd(); ++itA) {
+        auto itB = b.constFind(itA.key());
+        if (itB == b.constEnd() || !repeatedValueCompare(itA.value(), itB.value())) {
             return false;
         }
     }
-- 
2.43.0


From 0a478a46ca8f96bc3ab54d75805be0e410e61de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 16/49] fix: deliver every message of HTTP/2 server stream

Messages of the stream were lost, duplicated or never delivered, or the
receiving loop never ended, when the message boundaries didn't match the
chunks delivered by network layer. The rest of the data was dropped when
the stream was finished by server in the same chunk. Message length was
accessed via misaligned pointers.
---
 src/grpc/qgrpchttp2channel.cpp | 85 ++++++++++++----------------------
 1 file changed, 30 insertions(+), 55 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..67a36a8 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -99,17 +99,10 @@ const int GrpcMessageSizeHeaderSize = 5;
 namespace QtProtobuf {
 //! \private
 struct QGrpcHttp2ChannelPrivate {
-    //! \private
-    struct ExpectedData {
-        int expectedSize;
-        QByteArray container;
-    };
-
     QUrl url;
     QNetworkAccessManager nm;
     std::unique_ptr<QAbstractGrpcCredentials> credentials;
     QSslConfiguration sslConfig;
-    std::unordered_map<QNetworkReply *, ExpectedData> activeStreamReplies;
     QObject lambdaContext;
 
     QNetworkReply *post(const QString &method, const QString &service, const QByteArray &args, bool stream = false) {
@@ -131,7 +124,7 @@ struct QGrpcHttp2ChannelPrivate {
         request.setAttribute(QNetworkRequest::Http2DirectAttribute, true);
 
         QByteArray msg(GrpcMessageSizeHeaderSize, '\0');
-        *reinterpret_cast<int *>(msg.data() + 1) = qToBigEndian(args.size());
+        qToBigEndian<quint32>(args.size(), msg.data() + 1);
         msg += args;
         qProtoDebug() << "SEND: " << msg.size();
 
@@ -192,8 +185,18 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    //! Cuts next complete message out of the received \a data
+    static bool takeMessage(QByteArray &data, QByteArray &message) {
+        if (data.size() < GrpcMessageSizeHeaderSize) {
+            return false;
+        }
+        const quint32 size = qFromBigEndian<quint32>(data.constData() + 1);
+        if (static_cast<quint32>(data.size() - GrpcMessageSizeHeaderSize) < size) {
+            return false;
+        }
+        message = data.mid(GrpcMessageSizeHeaderSize, static_cast<int>(size));
+        data.remove(0, GrpcMessageSizeHeaderSize + static_cast<int>(size));
+        return true;
     }
 };
 
@@ -277,47 +280,19 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> finishConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
-    *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
-        QByteArray data = networkReply->readAll();
-        qProtoDebug() << "RECV" << data.size();
-
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
-
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
-
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
+    //Messages may be fragmented and joined in any way
+    auto receiveMessages = [networkReply, grpcStream, readConnection, buffer = std::make_shared<QByteArray>()]() {
+        buffer->append(networkReply->readAll());
+        QByteArray message;
+        //Read connection is closed when stream is aborted while message is handled
+        while (*readConnection && QGrpcHttp2ChannelPrivate::takeMessage(*buffer, message)) {
+            qProtoDebug() << "RECV" << message.size();
+            grpcStream->handler(message);
         }
+    };
+    *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, receiveMessages);
 
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
-        }
-
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
-        }
-    });
-
-    QObject::connect(client, &QAbstractGrpcClient::destroyed, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this]() {
+    QObject::connect(client, &QAbstractGrpcClient::destroyed, networkReply, [networkReply, finishConnection, abortConnection, readConnection]() {
         if (*readConnection) {
             QObject::disconnect(*readConnection);
         }
@@ -327,12 +302,15 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
-        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
 
-    *finishConnection = QObject::connect(networkReply, &QNetworkReply::finished, grpcStream, [grpcStream, service, networkReply, abortConnection, readConnection, finishConnection, client, this]() {
+    *finishConnection = QObject::connect(networkReply, &QNetworkReply::finished, grpcStream, [grpcStream, service, networkReply, abortConnection, readConnection, finishConnection, receiveMessages, client, this]() {
+        receiveMessages();
+        if (!*finishConnection) {
+            return; //Stream is aborted while message is handled
+        }
         QString errorString = networkReply->errorString();
         QNetworkReply::NetworkError networkError = networkReply->error();
         if (*readConnection) {
@@ -342,7 +320,6 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QObject::disconnect(*abortConnection);
         }
 
-        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
         qProtoWarning() << grpcStream->method() << "call" << service << "stream finished: " << errorString;
@@ -352,9 +329,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             stream(grpcStream, service, client);
             break;
         case QNetworkReply::NoError: {
-            // Reply is closed without network error, but may contain an unhandled data
-            // TODO: processReply returns the data, that might need the processing. It's should be taken into account in
-            // new HTTP/2 channel implementation.
+            // Reply is closed without network error
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-- 
2.43.0


From e0c3b03076915f9e439830d6bdc9d3e491788e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 17/49] fix: do not report HTTP/2 reply without grpc-status as
 successful

---
 src/grpc/qgrpchttp2channel.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 67a36a8..9a17076 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -161,8 +161,12 @@ struct QGrpcHttp2ChannelPrivate {
             return {};
         }
 
-        //Check if server answer with error
-        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt());
+        //Check if server answer with error. Reply without valid status is not successful.
+        bool ok = false;
+        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt(&ok));
+        if (!ok) {
+            statusCode = QGrpcStatus::Unknown;
+        }
         if (statusCode != QGrpcStatus::StatusCode::Ok) {
             return {};
         }
-- 
2.43.0


From 0348271a3517699f0da6e34a1cab1854d2e2df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 18/49] fix: decode percent-encoded gRPC status message in
 HTTP/2 channel

---
 src/grpc/qgrpchttp2channel.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 9a17076..f72aaca 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -154,6 +154,11 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
+    //! Status message is percent-encoded, see gRPC over HTTP2 specification
+    static QString statusMessage(QNetworkReply *networkReply) {
+        return QString::fromUtf8(QByteArray::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage)));
+    }
+
     static QByteArray processReply(QNetworkReply *networkReply, QGrpcStatus::StatusCode &statusCode) {
         //Check if no network error occured
         if (networkReply->error() != QNetworkReply::NoError) {
@@ -232,7 +237,7 @@ QGrpcStatus QGrpcHttp2Channel::call(const QString &method, const QString &servic
 
     networkReply->deleteLater();
     qProtoDebug() << __func__ << "RECV: " << ret.toHex() << "grpcStatus" << grpcStatus;
-    return {grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))};
+    return {grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)};
 }
 
 void QGrpcHttp2Channel::call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply)
@@ -258,7 +263,7 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             reply->finished();
         } else {
             reply->setData({});
-            reply->error({grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+            reply->error({grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
         }
         networkReply->deleteLater();
     });
@@ -337,7 +342,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-                grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+                grpcStream->error(QGrpcStatus{grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
             } else {
                 grpcStream->finished();
             }
-- 
2.43.0


From 3b973f9a46db17454f29ed3da237eb35fb25f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 19/49] fix: report truncated message of HTTP/2 reply as an
 error

---
 src/grpc/qgrpchttp2channel.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index f72aaca..b7cfe10 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -176,8 +176,13 @@ struct QGrpcHttp2ChannelPrivate {
             return {};
         }
 
-        //Message size doesn't matter for now
-        return networkReply->readAll().mid(GrpcMessageSizeHeaderSize);
+        QByteArray data = networkReply->readAll();
+        QByteArray message;
+        if (!data.isEmpty() && !takeMessage(data, message)) {
+            //Message is truncated
+            statusCode = QGrpcStatus::Internal;
+        }
+        return message;
     }
 
     QGrpcHttp2ChannelPrivate(const QUrl &_url, std::unique_ptr<QAbstractGrpcCredentials> _credentials)
-- 
2.43.0


From 37006a9be527287bc8c7f95e82d874df89d49b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 20/49] fix: do not advertise message compression that HTTP/2
 channel doesn't support

---
 src/grpc/qgrpchttp2channel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index b7cfe10..3f72a20 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -112,8 +112,8 @@ struct QGrpcHttp2ChannelPrivate {
         qProtoDebug() << "Service call url: " << callUrl;
         QNetworkRequest request(callUrl);
         request.setHeader(QNetworkRequest::ContentTypeHeader, "application/grpc");
-        request.setRawHeader(GrpcAcceptEncodingHeader, "identity,deflate,gzip");
-        request.setRawHeader(AcceptEncodingHeader, "identity,gzip");
+        request.setRawHeader(GrpcAcceptEncodingHeader, "identity");
+        request.setRawHeader(AcceptEncodingHeader, "identity");
         request.setRawHeader(TEHeader, "trailers");
         request.setSslConfiguration(sslConfig);
         QGrpcCredentialMap callCredentials = credentials->callCredentials();
-- 
2.43.0


From a291700ac914de028a9917042f0f042285692032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 21/49] fix: report end of stream in native gRPC channel

---
 src/grpc/qgrpcchannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..1d9a89a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -288,6 +288,8 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         if (sub->status.code() != QGrpcStatus::Ok)
         {
             stream->error(sub->status);
+        } else {
+            stream->finished();
         }
     });
 
-- 
2.43.0


From e2331ae7e3d2d329f0c1a155a6615748eac59478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 22/49] fix: do not deliver messages of aborted stream in
 native gRPC channel

---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 1d9a89a..5ce6eb4 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        //Data queued before the stream was aborted should not be delivered
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From 31b7b2004ad540d32ac655c91ff82fec61b652ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:58 +0000
Subject: [PATCH 23/49] fix: allow to subscribe to stream while its message is
 handled

---
 src/grpc/qgrpcstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..e1d827f 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,9 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        //Handlers may be added while message is handled
+        const auto handlers = m_handlers;
+        for (auto handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From e54b4329bf614206706c5b865f2b0db71c5cb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:26 +0000
Subject: [PATCH 24/49] fix: abort every stream when another channel is
 attached to client

---
 src/grpc/qabstractgrpcclient.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..ae5109d 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,14 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    //Aborted stream is removed from the list of active streams immediately
+    const auto oldStreams = dPtr->activeStreams;
+    for (auto stream : oldStreams) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    const auto restoredStreams = dPtr->activeStreams;
+    for (auto stream : restoredStreams) {
         stream->abort();
     }
 }
-- 
2.43.0


From 88e3d8b1d4a385355315d336c930c648c37fe28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:06 +0000
Subject: [PATCH 25/49] fix: do not restore aborted stream by timeout

---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index ae5109d..360866b 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -162,7 +162,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                //Stream may be aborted in the meantime
+                if (stream && std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams)) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From ce9c83ef218db68e8af55f60c9ae4482a49ac65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:06 +0000
Subject: [PATCH 26/49] fix: keep replies and streams that are in use when
 client is destroyed

---
 src/grpc/qabstractgrpcclient.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 360866b..94968dd 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -53,7 +53,13 @@ QAbstractGrpcClient::QAbstractGrpcClient(const QString &service, QObject *parent
 }
 
 QAbstractGrpcClient::~QAbstractGrpcClient()
-{}
+{
+    //Replies and streams are owned by shared pointers and may outlive the client
+    const auto operations = findChildren<QGrpcAsyncOperationBase *>(QString(), Qt::FindDirectChildrenOnly);
+    for (auto operation : operations) {
+        operation->setParent(nullptr);
+    }
+}
 
 void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChannel> &channel)
 {
@@ -119,7 +125,7 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
             reply.reset();
         });
 
-        *finishedConnection = connect(reply.get(), &QGrpcCallReply::finished, [reply, errorConnection, finishedConnection]() mutable {
+        *finishedConnection = connect(reply.get(), &QGrpcCallReply::finished, this, [reply, errorConnection, finishedConnection]() mutable {
             QObject::disconnect(*finishedConnection);
             QObject::disconnect(*errorConnection);
             reply.reset();
-- 
2.43.0


From 67c50fbf71e05ad216f8ee57b93c73051c7c518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:30 +0000
Subject: [PATCH 27/49] fix: keep native gRPC channel until calls in progress
 are done

---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 src/grpc/qgrpcchannel_p.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 5ce6eb4..9f420c8 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -142,7 +142,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +151,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +213,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +245,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..bf62e1c 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -73,7 +73,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From ca19fff7cb96d876ad130289bdc4616c19a33262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:30 +0000
Subject: [PATCH 28/49] fix: initialize handlers of basic types once when
 serializers are created by several threads

---
 src/protobuf/qprotobufserializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 820654b..6f12328 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,8 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+#include <QMutex>
+
 namespace QtProtobuf {
 
 template<>
@@ -201,6 +203,9 @@ void QProtobufSerializer::deserializeEnumList(QList<int64> &value, const QMetaEn
 
 QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) : q_ptr(q)
 {
+    //Serializers may be created in different threads simultaneously
+    static QMutex initializationMutex;
+    QMutexLocker locker(&initializationMutex);
     //if handlers is not empty intialization already done
     if (handlers.empty()) {
         wrapSerializer<float, serializeBasic, deserializeBasic<float>, Fixed32>();
-- 
2.43.0


From bd1367dd349c69a30a0ea5658132db3518b7d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 29/49] fix: declare meta type of nested enum once when several
 fields of the message use it

---
 src/generator/messagedeclarationprinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..a05bb2c 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,6 +29,7 @@
 #include "generatorcommon.h"
 
 #include <iostream>
+#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -190,9 +191,13 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    std::set<const EnumDescriptor *> declaredEnums;//Enum could be used by few fields, but has to be declared once
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
         if (field->type() == FieldDescriptor::TYPE_ENUM
                 && common::isLocalEnum(field->enum_type(), mDescriptor)) {
+            if (!declaredEnums.insert(field->enum_type()).second) {
+                return;
+            }
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
         } else if (field->is_map()) {
-- 
2.43.0


From 078a5ae680ab4cfc39da9deacab14fe0a98ec652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 30/49] fix: generate every nested message, not only those that
 are types of plain fields of their parent

---
 src/generator/generatorcommon.cpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index d0f953a..3806799 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -27,6 +27,7 @@
 #include "generatoroptions.h"
 
 #include <assert.h>
+#include <google/protobuf/descriptor.pb.h>
 
 using namespace ::QtProtobuf::generator;
 using namespace ::google::protobuf;
@@ -436,37 +437,19 @@ void common::iterateNestedMessages(const ::google::protobuf::Descriptor *message
 {
     for (int i = 0; i < message->nested_type_count(); i++) {
         auto nestedMessage = message->nested_type(i);
-        if (message->field_count() <= 0) {
+        if (!nestedMessage->options().map_entry()) {//TODO: Have idea to make maps nested classes instead of typedefs.
             callback(nestedMessage);
-            continue;
-        }
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                callback(nestedMessage);
-                break;
-            }
         }
     }
 }
 
 bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 {
-    if (message->nested_type_count() > 0 && message->field_count() <= 0) {
-        return true;
-    }
-
-    for (int i = 0; i < message->nested_type_count(); i++) {
-        auto nestedMessage = message->nested_type(i);
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                return true;
-            }
-        }
-    }
-
-    return false;
+    bool hasNested = false;
+    iterateNestedMessages(message, [&hasNested](const ::google::protobuf::Descriptor *) {
+        hasNested = true;
+    });
+    return hasNested;
 }
 
 bool common::isNested(const ::google::protobuf::Descriptor *message)
-- 
2.43.0


From eb9a00aa1ea881e58b1bdcc15ba0a9577b07732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 31/49] fix: do not lose include of global enums after field of
 nested message type in MULTI mode

---
 src/generator/generatorbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index 97b4c60..82f822f 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -140,6 +140,7 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
     case FieldDescriptor::TYPE_ENUM: {
         common::EnumVisibility enumVisibily = common::enumVisibility(field->enum_type(), message);
         if (enumVisibily == common::GLOBAL_ENUM) {
+            newInclude = "globalenums";
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
             includeTemplate = Templates::InternalIncludeTemplate;
-- 
2.43.0


From 70c788f351675b0ce99b99588cb5b41a8414dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 32/49] fix: generate valid code for comments with comment
 terminators and dollar signs

---
 src/generator/baseprinter.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/baseprinter.h b/src/generator/baseprinter.h
index 2b1917e..578ce35 100644
--- a/src/generator/baseprinter.h
+++ b/src/generator/baseprinter.h
@@ -79,11 +79,15 @@ public:
                     loc.leading_comments = "\n" + loc.leading_comments;
                 }
             }
+            if (!isSingleLine) {
+                utils::replace(loc.leading_comments, "\n", "\n *");
+            }
+            utils::replace(loc.leading_comments, "*/", "* /");//Keep comment block unclosed
+            utils::replace(loc.leading_comments, "$", "$$");//Printer treats '$' as delimiter of variables
             mPrinter->Print("\n/*");
             if (isSingleLine) {
                 mPrinter->Print(loc.leading_comments.c_str());
             } else {
-                utils::replace(loc.leading_comments, "\n", "\n *");
                 mPrinter->Print(loc.leading_comments.c_str());
                 if (loc.leading_comments[loc.leading_comments.size() - 1] != '\n') {
                     mPrinter->Print("\n");
-- 
2.43.0


From 78c63c65b05c21ba952d26a3acf31a12c9220373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 33/49] fix: include client header by its actual name in MULTI
 mode

---
 src/generator/multifilegenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 10d5952..288e283 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -169,7 +169,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         printDisclaimer(sourcePrinter);
         std::string includeFileName = service->name();
         utils::tolower(includeFileName);
-        sourcePrinter->Print({{"include", includeFileName}}, Templates::InternalIncludeTemplate);
+        sourcePrinter->Print({{"include", includeFileName + "client"}}, Templates::InternalIncludeTemplate);
         if (GeneratorOptions::instance().hasQml()) {
             sourcePrinter->Print({{"include", "QQmlEngine"}}, Templates::ExternalIncludeTemplate);
             sourcePrinter->Print({{"include", "QJSEngine"}}, Templates::ExternalIncludeTemplate);
-- 
2.43.0


From 9ad228293d455682e422a05f21913b23228e8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:02 +0000
Subject: [PATCH 34/49] fix: register every nested enum, not only those used by
 plain fields of their own message

---
 src/generator/messagedeclarationprinter.cpp | 17 +++++++----------
 src/generator/messagedefinitionprinter.cpp  | 10 ++++++----
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index a05bb2c..b19aefc 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,7 +29,6 @@
 #include "generatorcommon.h"
 
 #include <iostream>
-#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -191,16 +190,14 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
-    std::set<const EnumDescriptor *> declaredEnums;//Enum could be used by few fields, but has to be declared once
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        auto enumTypeMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(enumTypeMap, Templates::DeclareMetaTypeTemplate);
+        mPrinter->Print(enumTypeMap, Templates::DeclareMetaTypeListTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            if (!declaredEnums.insert(field->enum_type()).second) {
-                return;
-            }
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
 
diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 4afabf7..b4667df 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,13 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    //All nested enums have to be registered, since maps and other messages may use them too
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From 012c53616db1342aeae61f45812eaef3253cb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:02 +0000
Subject: [PATCH 35/49] fix: do not register nested enums by unqualified name,
 nested enums of other messages may have the same name

---
 src/generator/templates.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 84b679c..8ce89b0 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -272,7 +272,6 @@ const char *Templates::DeclareMetaTypeMapTemplate = "#ifndef Q_PROTOBUF_MAP_$key
 
 
 const char *Templates::RegisterLocalEnumTemplate = "qRegisterProtobufEnumType<$scope_type$>();\n"
-                                                   "qRegisterMetaType<$scope_type$>(\"$type$\");\n"
                                                    "qRegisterMetaType<$scope_type$>(\"$full_type$\");\n"
                                                    "qRegisterMetaType<$scope_list_type$>(\"$full_list_type$\");\n";
 const char *Templates::RegisterMapTemplate = "qRegisterMetaType<$scope_type$>(\"$full_type$\");\n"
-- 
2.43.0


From 31a3f9210289e8d597b3f346a9785e21778b4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:32 +0000
Subject: [PATCH 36/49] fix: replacing an element or shortening a list of
 messages from QML used deleted objects

---
 src/protobuf/qqmllistpropertyconstructor.h | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/protobuf/qqmllistpropertyconstructor.h b/src/protobuf/qqmllistpropertyconstructor.h
index c5638ea..342495a 100644
--- a/src/protobuf/qqmllistpropertyconstructor.h
+++ b/src/protobuf/qqmllistpropertyconstructor.h
@@ -54,12 +54,35 @@ static void qmllistpropertyReset(QQmlListProperty<T> *p) {
     reinterpret_cast<QList<QSharedPointer<T>> *>(p->data)->clear();
 }
 
+//! \private
+template<typename T>
+static void qmllistpropertyReplace(QQmlListProperty<T> *p, int index, T *v) {
+    auto &value = (*reinterpret_cast<QList<QSharedPointer<T>> *>(p->data))[index];
+    if (value.data() != v) {
+        QQmlEngine::setObjectOwnership(v, QQmlEngine::CppOwnership);
+        value = QSharedPointer<T>(v);
+    }
+}
+
+//! \private
+template<typename T>
+static void qmllistpropertyRemoveLast(QQmlListProperty<T> *p) {
+    reinterpret_cast<QList<QSharedPointer<T>> *>(p->data)->removeLast();
+}
+
 //! \private
 template<typename T>
 static QQmlListProperty<T> constructQmlListProperty(QObject *p, QList<QSharedPointer<T>> *data)
 {
+#if QT_VERSION >= QT_VERSION_CHECK(5, 15, 0)
+    // The replacements Qt provides for these functions clear the list, what deletes its objects, and append them again
+    return QQmlListProperty<T>(p, data, qmllistpropertyAppend<T>, qmllistpropertyCount<T>,
+                               qmllistpropertyAt<T>, qmllistpropertyReset<T>,
+                               qmllistpropertyReplace<T>, qmllistpropertyRemoveLast<T>);
+#else
     return QQmlListProperty<T>(p, data, qmllistpropertyAppend<T>, qmllistpropertyCount<T>,
                                qmllistpropertyAt<T>, qmllistpropertyReset<T>);
+#endif
 }
 
 }
-- 
2.43.0


From ccfdbf987dbeba14baa87d253f3e4155cd849a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 37/49] fix: calls from QML kept their reply until the engine
 is destroyed and used a deleted client

---
 src/generator/templates.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 8ce89b0..10961dd 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -333,9 +333,13 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
-                                                           "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
+                                                           "    if (!reply) {\n"
+                                                           "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus{QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")})});\n"
+                                                           "        return;\n"
+                                                           "    }\n\n"
+                                                           "    reply->subscribe(jsEngine, [reply = reply.get(), callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
-                                                           "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
+                                                           "        QQmlEngine::setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
                                                            "        QJSValue(callback).call(QJSValueList{jsEngine->toScriptValue(result)});\n"
                                                            "    }, [errorCallback, jsEngine](const QGrpcStatus &status) {\n"
                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(status)});\n"
@@ -358,7 +362,11 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
-                                                            "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
+                                                            "    if (!reply) {\n"
+                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus{QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")})});\n"
+                                                            "        return;\n"
+                                                            "    }\n\n"
+                                                            "    reply->subscribe(jsEngine, [reply = reply.get(), safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
                                                             "            return;\n"
-- 
2.43.0


From fe192b1b4a93e384ac197c6654983685f9f4d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 38/49] fix: changing properties of an enabled GrpcStream
 disabled it instead of restarting the stream

---
 src/grpc/quick/qquickgrpcstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..018dbfb 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -50,6 +50,8 @@ QQuickGrpcStream::~QQuickGrpcStream()
 void QQuickGrpcStream::updateStream()
 {
     if (m_stream) {
+        //Only stream that is finished by itself disables the element
+        QObject::disconnect(m_stream.get(), nullptr, this, nullptr);
         m_stream->abort();
         m_stream.reset();
     }
-- 
2.43.0


From becab9a4ede21edcd1e40a34a2ff40fe25158ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:40 +0000
Subject: [PATCH 39/49] fix: asynchronous calls with callback kept their reply
 until the context object is destroyed

---
 src/generator/templates.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 10961dd..308066a 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -312,9 +312,18 @@ const char *Templates::ClientMethodDefinitionAsyncTemplate = "\nQtProtobuf::QGrp
 const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname$::$method_name$(const $param_type$ &$param_name$, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)\n"
                                                               "{\n"
                                                               "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", $param_name$);\n"
-                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
+                                                              "    if (!reply) {\n"
+                                                              "        return;\n"
+                                                              "    }\n\n"
+                                                              "    //Reply is kept only until call is completed\n"
+                                                              "    auto connection = std::make_shared<QMetaObject::Connection>();\n"
+                                                              "    *connection = QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback, connection]() {\n"
+                                                              "        QObject::disconnect(*connection);\n"
                                                               "        callback(reply);\n"
                                                               "    });\n"
+                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::error, context, [connection]() {\n"
+                                                              "        QObject::disconnect(*connection);\n"
+                                                              "    });\n"
                                                               "}\n";
 
 const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::$method_name$($param_type$ *$param_name$, const QJSValue &callback, const QJSValue &errorCallback)\n"
-- 
2.43.0


From 09e99ec370cc1c6b138a1a5068834522dd799bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 40/49] fix: asking for a serializer of a plugin that is not
 loaded dereferenced a null pointer

---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 209b8ae1a57dcf95aae6520d57d51afc77727e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 41/49] fix: loading a serializer plugin a second time leaked
 its loader

---
 src/protobuf/qprotobufserializerregistry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index 7ce5c45..053913e 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -157,7 +157,6 @@ public:
             plugin->loadPlugin();
             m_plugins[pluginName] = plugin;
         } else {
-            plugin->loader = nullptr;
             qProtoInfo() << "Serializer plugin with name" << pluginName << "is already loaded";
         }
         return pluginName;
-- 
2.43.0


From aba0eb138d3a720fe4066d28666bed962b0ac94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 42/49] fix: moving a message out by construction changed the
 sub-messages of the source without a signal

---
 src/generator/templates.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 308066a..e6eace2 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -132,6 +132,7 @@ const char *Templates::AssignComplexFieldTemplate = "if (m_$property_name$ != ot
                                                     "}\n";
 const char *Templates::MoveMessageFieldTemplate = "if (m_$property_name$ != other.m_$property_name$) {\n"
                                                   "    *m_$property_name$ = std::move(*other.m_$property_name$);\n"
+                                                  "    other.$property_name$Changed();\n"
                                                   "}\n";
 const char *Templates::MoveAssignMessageFieldTemplate = "if (m_$property_name$ != other.m_$property_name$) {\n"
                                                         "    *m_$property_name$ = std::move(*other.m_$property_name$);\n"
-- 
2.43.0


From 9dff8f8f4591211851ec992d8054223dc193f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:20 +0000
Subject: [PATCH 43/49] fix: enums declared in nested messages were written as
 signed integers

---
 src/protobuf/qabstractprotobufserializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index 4a5d8c6..efd9676 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -326,6 +326,9 @@ inline void qRegisterProtobufMapType() {
 template<typename T,
          typename std::enable_if_t<std::is_enum<T>::value, int> = 0>
 inline void qRegisterProtobufEnumType() {
+    // The meta-object system looks for the type of a property by the name of the class the enumeration is declared in
+    const QMetaEnum metaEnum = QMetaEnum::fromType<T>();
+    qRegisterMetaType<T>((QByteArray(metaEnum.scope()) + "::" + metaEnum.name()).constData());
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
                                                            QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::EnumHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
-- 
2.43.0


From fce5d0746e8125a0f3c2ecdc20a417a70dd9fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:20 +0000
Subject: [PATCH 44/49] fix: enums of messages nested in others were taken for
 top-level enums when used elsewhere

---
 src/generator/generatorcommon.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 3806799..b279a0a 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -384,15 +384,8 @@ common::EnumVisibility common::enumVisibility(const EnumDescriptor *type, const
         return LOCAL_ENUM;
     }
 
-    const FileDescriptor *typeFile = type->file();
-
-    for (int i = 0; i < typeFile->message_type_count(); i++) {
-        const Descriptor *msg = typeFile->message_type(i);
-        for (int j = 0; j < msg->enum_type_count(); j++) {
-            if (type->full_name() == msg->enum_type(j)->full_name()) {
-                return NEIGHBOR_ENUM;
-            }
-        }
+    if (type->containing_type() != nullptr) {
+        return NEIGHBOR_ENUM;
     }
 
     return GLOBAL_ENUM;
-- 
2.43.0


From b14cfcc2988dc385e289d072da1bbfa1c3828c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:43 +0000
Subject: [PATCH 45/49] fix: one file per message: headers of messages that
 hold an enum of a nested message or of another package are included by a
 wrong name

---
 src/generator/generatorbase.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index 82f822f..eceaf7d 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -143,12 +143,22 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
             newInclude = "globalenums";
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
-            includeTemplate = Templates::InternalIncludeTemplate;
-            std::string fullEnumName = field->enum_type()->full_name();
-            std::vector<std::string> fullEnumNameParts = utils::split(fullEnumName, '.');
-            std::string enumTypeOwner = fullEnumNameParts.at(fullEnumNameParts.size() - 2);
+            auto containingMessage = common::findHighestMessage(field->enum_type()->containing_type());
+            if (containingMessage == message) {
+                return;
+            }
+            std::string outFileBasename = "";
+            std::string enumPackage = containingMessage->file()->package();
+            if (enumPackage != message->file()->package()) {
+                for (auto package : utils::split(enumPackage, '.')) {
+                    outFileBasename += package + "/";
+                }
+            }
+
+            std::string enumTypeOwner = containingMessage->name();
             utils::tolower(enumTypeOwner);
-            newInclude = enumTypeOwner;
+            newInclude = outFileBasename + enumTypeOwner;
+            includeTemplate = Templates::InternalIncludeTemplate;
         } else {
             return;
         }
-- 
2.43.0


From 8e9f13cd41f1cfd6373d6cb52b5c780a8f3d7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:07 +0000
Subject: [PATCH 46/49] fix: one file per message: headers lacked the includes
 for lists, maps and enums of nested messages

---
 src/generator/multifilegenerator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 288e283..d8802af 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -37,6 +37,7 @@
 #include "utils.h"
 #include "generatoroptions.h"
 
+#include <functional>
 #include <iostream>
 #include <set>
 #include <google/protobuf/stubs/logging.h>
@@ -84,9 +85,13 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         }
 
         std::set<std::string> existingIncludes;
-        for (int i = 0; i < message->field_count(); i++) {
-            printInclude(headerPrinter, message, message->field(i), existingIncludes);
-        }
+        std::function<void(const ::google::protobuf::Descriptor *)> printIncludes = [&] (const ::google::protobuf::Descriptor *scope) {
+            for (int i = 0; i < scope->field_count(); i++) {
+                printInclude(headerPrinter, message, scope->field(i), existingIncludes);
+            }
+            common::iterateNestedMessages(scope, printIncludes);
+        };
+        printIncludes(message);
 
         auto deps = findNestedDependency(message);
 
-- 
2.43.0


From 5dd0b39f514adb5a1e86ae6163adc2bdcbda5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:03 +0000
Subject: [PATCH 47/49] fix: with EXTRA_NAMESPACE enums and maps of nested
 messages did not compile

---
 src/generator/generatorcommon.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index b279a0a..1329b8c 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -96,6 +96,7 @@ TypeMap common::produceQtTypeMap(const ::Descriptor *type, const Descriptor *sco
 TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor *scope)
 {
     std::vector<std::string> namespaceList = getNamespaces(type);
+    std::vector<std::string> scopeNamespaceList = getNamespaces(scope);
     if (!GeneratorOptions::instance().extraNamespace().empty()) {
         namespaceList.insert(namespaceList.begin(), GeneratorOptions::instance().extraNamespace());
     }
@@ -103,9 +104,11 @@ TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor
     std::vector<std::string> nestedNamespaceList = namespaceList;
     if(isNested(type)) {
         nestedNamespaceList = getNestedNamespaces(type);
+    } else if (scope != nullptr && !GeneratorOptions::instance().extraNamespace().empty()) {
+        scopeNamespaceList.insert(scopeNamespaceList.begin(), GeneratorOptions::instance().extraNamespace());
     }
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(scopeNamespaceList, "::"));
     std::string qmlPackage = getNamespacesString(namespaceList, ".");
 
     std::string name = utils::upperCaseName(type->name());
@@ -138,8 +141,12 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
 {
     EnumVisibility visibility = enumVisibility(type, scope);
     std::vector<std::string> namespaceList = getNamespaces(type);
+    std::vector<std::string> scopeNamespaceList = getNamespaces(scope);
     if (!GeneratorOptions::instance().extraNamespace().empty()) {
         namespaceList.insert(namespaceList.begin(), GeneratorOptions::instance().extraNamespace());
+        if (scope != nullptr) {
+            scopeNamespaceList.insert(scopeNamespaceList.begin(), GeneratorOptions::instance().extraNamespace());
+        }
     }
 
     std::string name = utils::upperCaseName(type->name());
@@ -151,7 +158,7 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
     }
 
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(scopeNamespaceList, "::"));
 
     std::string fullName = namespaces.empty() ? name : (namespaces + "::" + name);
     std::string scopeName = scopeNamespaces.empty() ? name : (scopeNamespaces + "::" + name);
-- 
2.43.0


From 163c797512b9be1b1325809d55762a46a25cce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:03 +0000
Subject: [PATCH 48/49] fix: one file per message: header of
 google.protobuf.Timestamp did not include QDateTime

---
 src/generator/multifilegenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index d8802af..f1d945c 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -85,6 +85,10 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         }
 
         std::set<std::string> existingIncludes;
+        if (message->full_name() == "google.protobuf.Timestamp") {
+            headerPrinter->Print({{"include", "QDateTime"}}, Templates::ExternalIncludeTemplate);
+            existingIncludes.insert("QDateTime");
+        }
         std::function<void(const ::google::protobuf::Descriptor *)> printIncludes = [&] (const ::google::protobuf::Descriptor *scope) {
             for (int i = 0; i < scope->field_count(); i++) {
                 printInclude(headerPrinter, message, scope->field(i), existingIncludes);
-- 
2.43.0


From 08e2ac407efe8fc4d481fd710fbfcd4bb0c6bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:45 +0000
Subject: [PATCH 49/49] fix: declare message types before includes in
 multi-file mode

Messages that hold lists of their own type, or of messages that hold them,
produced headers that do not compile with the MULTI option.
---
 src/generator/multifilegenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index f1d945c..44c396e 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -84,6 +84,9 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
             headerPrinter->Print(Templates::QmlProtobufIncludesTemplate);
         }
 
+        //Headers of recursive messages include each other, so the types should be known before includes
+        messageDecl.printClassForwardDeclaration();
+
         std::set<std::string> existingIncludes;
         if (message->full_name() == "google.protobuf.Timestamp") {
             headerPrinter->Print({{"include", "QDateTime"}}, Templates::ExternalIncludeTemplate);
-- 
2.43.0

