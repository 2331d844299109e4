// Glue between generated Qt message classes (typed public API) and google::protobuf reflection messages,
// plus the table of operations on message types that the monitors drive.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <type_traits>
#include <vector>

#include <google/protobuf/message.h>
#include <google/protobuf/descriptor.h>

#include <QByteArray>
#include <QList>
#include <QMap>
#include <QObject>
#include <QSharedPointer>
#include <QString>
#include <QStringList>
#include <QVariant>

#include "qprotobufserializer.h"
#include "qtprotobuftypes.h"

namespace gp = google::protobuf;

namespace vp {

template<class T> using Plain = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

template<class M> struct Glue;   // load(google -> Qt), store(Qt -> google); specialised per message

// ---------------------------------------------------------------- scalars
inline QString toQString(const std::string &s) { return QString::fromUtf8(s.data(), int(s.size())); }
// QString::fromUtf8(ptr, len) drops a leading byte order mark: put it back
inline QString exactQString(const std::string &s) {
    if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) {
        return QString(QChar(0xFEFF)) + exactQString(s.substr(3));
    }
    return toQString(s);
}
inline std::string fromQString(const QString &s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), size_t(b.size())); }

template<class T, class = void> struct Scalar { static constexpr bool is = false; };

#define VP_SCALAR(T, GT, GETTER) \
template<> struct Scalar<T, void> { static constexpr bool is = true; \
    static T get(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) { return T(r->Get##GETTER(g, f)); } \
    static T getRep(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f, int i) { return T(r->GetRepeated##GETTER(g, f, i)); } \
    static void set(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const T &v) { r->Set##GETTER(g, f, GT(v)); } \
    static void add(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const T &v) { r->Add##GETTER(g, f, GT(v)); } \
};
VP_SCALAR(QtProtobuf::int32, int32_t, Int32)
VP_SCALAR(QtProtobuf::int64, int64_t, Int64)
VP_SCALAR(QtProtobuf::uint32, uint32_t, UInt32)
VP_SCALAR(QtProtobuf::uint64, uint64_t, UInt64)
VP_SCALAR(QtProtobuf::sint32, int32_t, Int32)
VP_SCALAR(QtProtobuf::sint64, int64_t, Int64)
VP_SCALAR(QtProtobuf::fixed32, uint32_t, UInt32)
VP_SCALAR(QtProtobuf::fixed64, uint64_t, UInt64)
VP_SCALAR(QtProtobuf::sfixed32, int32_t, Int32)
VP_SCALAR(QtProtobuf::sfixed64, int64_t, Int64)
VP_SCALAR(float, float, Float)
VP_SCALAR(double, double, Double)
VP_SCALAR(bool, bool, Bool)
#undef VP_SCALAR
template<> struct Scalar<QString, void> { static constexpr bool is = true;
    static QString get(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) { return exactQString(r->GetString(g, f)); }
    static QString getRep(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f, int i) { return exactQString(r->GetRepeatedString(g, f, i)); }
    static void set(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const QString &v) { r->SetString(g, f, fromQString(v)); }
    static void add(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const QString &v) { r->AddString(g, f, fromQString(v)); }
};
template<> struct Scalar<QByteArray, void> { static constexpr bool is = true;
    static QByteArray q(const std::string &s) { return QByteArray(s.data(), int(s.size())); }
    static std::string s(const QByteArray &b) { return std::string(b.constData(), size_t(b.size())); }
    static QByteArray get(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) { return q(r->GetString(g, f)); }
    static QByteArray getRep(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f, int i) { return q(r->GetRepeatedString(g, f, i)); }
    static void set(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const QByteArray &v) { r->SetString(g, f, s(v)); }
    static void add(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const QByteArray &v) { r->AddString(g, f, s(v)); }
};
template<class E> struct Scalar<E, typename std::enable_if<std::is_enum<E>::value>::type> { static constexpr bool is = true;
    static E get(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) { return E(r->GetEnumValue(g, f)); }
    static E getRep(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f, int i) { return E(r->GetRepeatedEnumValue(g, f, i)); }
    static void set(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const E &v) { r->SetEnumValue(g, f, int(v)); }
    static void add(const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f, const E &v) { r->AddEnumValue(g, f, int(v)); }
};

// ---------------------------------------------------------------- fields
template<class T, class = void> struct FieldConv;

template<class T> struct FieldConv<T, typename std::enable_if<Scalar<T>::is>::type> {
    static T value(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) { return Scalar<T>::get(r, g, f); }
    static void store(const T &v, const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f) { Scalar<T>::set(r, g, f, v); }
};
template<class L, class E> struct ListConv {
    static L value(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) {
        L out;
        for (int i = 0, n = r->FieldSize(g, f); i < n; ++i) {
            out.append(Scalar<E>::getRep(r, g, f, i));
        }
        return out;
    }
    static void store(const L &v, const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f) {
        for (const auto &e : v) {
            Scalar<E>::add(r, g, f, e);
        }
    }
};
template<class E> struct FieldConv<QList<E>, typename std::enable_if<Scalar<E>::is>::type> : ListConv<QList<E>, E> {};
template<> struct FieldConv<QStringList, void> : ListConv<QStringList, QString> {};

// a null element is how the library would show "no message": it must never appear, report through this hook
extern void nullElement(const gp::FieldDescriptor *f);
void duplicateKey(const gp::FieldDescriptor *f);

template<class M> struct FieldConv<QList<QSharedPointer<M>>, void> {
    using L = QList<QSharedPointer<M>>;
    static L value(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) {
        L out;
        for (int i = 0, n = r->FieldSize(g, f); i < n; ++i) {
            QSharedPointer<M> m(new M);
            Glue<M>::load(r->GetRepeatedMessage(g, f, i), *m);
            out.append(m);
        }
        return out;
    }
    static void store(const L &v, const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f) {
        for (const auto &e : v) {
            if (!e) {
                nullElement(f);
                continue;
            }
            Glue<M>::store(*e, r->AddMessage(g, f));
        }
    }
};
template<class M> struct FieldConv<M, typename std::enable_if<std::is_base_of<QObject, M>::value>::type> {
    static M value(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) {
        M m;
        Glue<M>::load(r->GetMessage(g, f), m);
        return m;
    }
    static void store(const M &v, const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f) {
        Glue<M>::store(v, r->MutableMessage(g, f));
    }
};
template<class K, class V> struct FieldConv<QMap<K, V>, void> {
    template<class W> static W one(const gp::Message &e, const gp::FieldDescriptor *f, W *) { return FieldConv<W>::value(e.GetReflection(), e, f); }
    template<class M> static QSharedPointer<M> one(const gp::Message &e, const gp::FieldDescriptor *f, QSharedPointer<M> *) {
        QSharedPointer<M> m(new M);
        Glue<M>::load(e.GetReflection()->GetMessage(e, f), *m);
        return m;
    }
    template<class W> static void put(const W &v, gp::Message *e, const gp::FieldDescriptor *f) { FieldConv<W>::store(v, e->GetReflection(), e, f); }
    template<class M> static void put(const QSharedPointer<M> &v, gp::Message *e, const gp::FieldDescriptor *f) {
        if (!v) {
            nullElement(f);
            return;
        }
        Glue<M>::store(*v, e->GetReflection()->MutableMessage(e, f));
    }
    static QMap<K, V> value(const gp::Reflection *r, const gp::Message &g, const gp::FieldDescriptor *f) {
        QMap<K, V> out;
        const gp::Descriptor *d = f->message_type();
        for (int i = 0, n = r->FieldSize(g, f); i < n; ++i) {
            const gp::Message &e = r->GetRepeatedMessage(g, f, i);
            out[FieldConv<K>::value(e.GetReflection(), e, d->map_key())] = one(e, d->map_value(), static_cast<V *>(nullptr));
        }
        return out;
    }
    static void store(const QMap<K, V> &v, const gp::Reflection *r, gp::Message *g, const gp::FieldDescriptor *f) {
        const gp::Descriptor *d = f->message_type();
        for (auto it = v.constBegin(); it != v.constEnd(); ++it) {
            if (it != v.constBegin() && !((it - 1).key() < it.key())) duplicateKey(f);
            gp::Message *e = r->AddMessage(g, f);
            FieldConv<K>::store(it.key(), e->GetReflection(), e, d->map_key());
            put(it.value(), e, d->map_value());
        }
    }
};

inline const gp::FieldDescriptor *fieldOf(const gp::Message &g, int number) {
    return g.GetDescriptor()->FindFieldByNumber(number);
}

template<class T, class Set> void loadField(const gp::Message &g, int number, Set set) {
    set(FieldConv<T>::value(g.GetReflection(), g, fieldOf(g, number)));
}
template<class T> T fieldValue(const gp::Message &g, int number) {
    return FieldConv<T>::value(g.GetReflection(), g, fieldOf(g, number));
}
template<class T> void storeField(const T &v, gp::Message *g, int number) {
    FieldConv<T>::store(v, g->GetReflection(), g, fieldOf(*g, number));
}
template<class T> typename std::enable_if<std::is_base_of<QObject, T>::value, QVariant>::type fieldVariant(const gp::Message &g, int number) {
    T *m = new T;                      // the property takes a pointer and the message takes ownership of it
    Glue<T>::load(g.GetReflection()->GetMessage(g, fieldOf(g, number)), *m);
    return QVariant::fromValue<T *>(m);
}
template<class T> typename std::enable_if<!std::is_base_of<QObject, T>::value, QVariant>::type fieldVariant(const gp::Message &g, int number) {
    return QVariant::fromValue<T>(fieldValue<T>(g, number));
}

// ---------------------------------------------------------------- operations on types
struct FieldOps {
    int number;
    const char *name;
    const char *property;
    const char *signal;
    std::function<void(QObject *, const gp::Message &)> set;        // typed setter, value taken from the google message
    std::function<void(const QObject *, gp::Message *)> get;        // typed getter
    std::function<QVariant(const gp::Message &)> variant;           // value as the QVariant the property takes
};
struct TypeOps {
    std::string name;
    const QMetaObject *meta = nullptr;
    std::function<QObject *()> create;
    std::function<void(const gp::Message &, QObject *)> load;
    std::function<void(const QObject *, gp::Message *)> store;
    std::function<QByteArray(const QObject *, QtProtobuf::QAbstractProtobufSerializer *)> serialize;
    std::function<void(QObject *, QtProtobuf::QAbstractProtobufSerializer *, const QByteArray &)> deserialize;
    std::function<QObject *(const QObject *)> copy;
    std::function<QObject *(QObject *)> move;
    std::function<void(QObject *, const QObject *)> assign;
    std::function<void(QObject *, QObject *)> moveAssign;
    std::function<bool(const QObject *, const QObject *)> equal;
    std::function<bool(const QObject *, const QObject *)> notEqual;
    std::function<QObject *(const gp::Message &, int)> construct;
    std::function<int()> fieldNumbersOk;
    std::vector<FieldOps> fields;
    std::vector<std::pair<int, std::string>> ordering;   // field number -> property name, as the library will use them
};
std::vector<TypeOps> &types();
struct Registrar {
    explicit Registrar(const std::function<TypeOps()> &f);
};

template<class T> TypeOps makeOps(const char *name) {
    TypeOps o;
    o.name = name;
    o.meta = &T::staticMetaObject;
    o.create = []() -> QObject * { return new T; };
    o.load = [](const gp::Message &g, QObject *q) { Glue<T>::load(g, *static_cast<T *>(q)); };
    o.store = [](const QObject *q, gp::Message *g) { Glue<T>::store(*static_cast<const T *>(q), g); };
    o.serialize = [](const QObject *q, QtProtobuf::QAbstractProtobufSerializer *s) { return static_cast<const T *>(q)->serialize(s); };
    o.deserialize = [](QObject *q, QtProtobuf::QAbstractProtobufSerializer *s, const QByteArray &b) { static_cast<T *>(q)->deserialize(s, b); };
    o.copy = [](const QObject *q) -> QObject * { return new T(*static_cast<const T *>(q)); };
    o.move = [](QObject *q) -> QObject * { return new T(std::move(*static_cast<T *>(q))); };
    o.assign = [](QObject *a, const QObject *b) { *static_cast<T *>(a) = *static_cast<const T *>(b); };
    o.moveAssign = [](QObject *a, QObject *b) { *static_cast<T *>(a) = std::move(*static_cast<T *>(b)); };
    o.equal = [](const QObject *a, const QObject *b) { return *static_cast<const T *>(a) == *static_cast<const T *>(b); };
    o.notEqual = [](const QObject *a, const QObject *b) { return *static_cast<const T *>(a) != *static_cast<const T *>(b); };
    return o;
}

}
