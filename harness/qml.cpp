// Monitor of messages as seen from QML and script: what script reads and writes is what C++ holds, bindings follow
// every change, declared objects get the values written down, objects handed over by script live as long as needed.
#include <cmath>
#include <cstdio>
#include <set>

#include <QCoreApplication>
#include <QMetaProperty>
#include <QPointer>
#include <QQmlComponent>
#include <QQmlContext>
#include <QQmlEngine>
#include <QRegularExpression>
#include <sanitizer/lsan_interface.h>

#include "util.h"

using namespace vp;
using FD = gp::FieldDescriptor;

namespace {

std::string importPath;
QStringList warnings;

const TypeOps *typeOf(const std::string &name) {
    for (auto &t : types()) if (t.name == name) return &t;
    return nullptr;
}
const FieldOps *fieldOps(const TypeOps &t, const FD *f) {
    for (auto &o : t.fields) if (o.number == f->number()) return &o;
    return nullptr;
}
// kinds of fields that script can see: 64 bit integers are documented as limited, bytes and maps have no script form
bool shownScalar(const FD *f) {
    switch (f->type()) {
    case FD::TYPE_INT32: case FD::TYPE_SINT32: case FD::TYPE_UINT32: case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: case FD::TYPE_BOOL:
    case FD::TYPE_STRING: case FD::TYPE_FLOAT: case FD::TYPE_DOUBLE: case FD::TYPE_ENUM: return true;
    default: return false;
    }
}
bool shown(const FD *f) {
    if (f->is_map()) return false;
    if (f->cpp_type() == FD::CPPTYPE_MESSAGE) return true;
    return shownScalar(f);
}
QString propertyName(const FD *f) {
    const TypeOps *t = typeOf(f->containing_type()->full_name());
    QString p = QString::fromLatin1(fieldOps(*t, f)->property);
    if (f->is_repeated() && f->cpp_type() == FD::CPPTYPE_MESSAGE) p.chop(4);   // "...Data" is the C++ form of the list
    return p;
}
// only what script can see
void prune(gp::Message *m) {
    const gp::Reflection *r = m->GetReflection();
    std::vector<const FD *> fs;
    r->ListFields(*m, &fs);
    for (auto f : fs) {
        if (!shown(f)) {
            r->ClearField(m, f);
        } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
            if (f->is_repeated()) for (int i = 0; i < r->FieldSize(*m, f); ++i) prune(r->MutableRepeatedMessage(m, f, i));
            else prune(r->MutableMessage(m, f));
        }
    }
}
std::string canonShown(const gp::Message &m) {
    GPtr c(m.New());
    c->CopyFrom(m);
    prune(c.get());
    return canon(*c);
}
QJSValue toJs(const gp::Message &g, const FD *f, int i = -1) {
    const gp::Reflection *r = g.GetReflection();
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return QJSValue(i < 0 ? r->GetInt32(g, f) : r->GetRepeatedInt32(g, f, i));
    case FD::CPPTYPE_UINT32: return QJSValue(i < 0 ? r->GetUInt32(g, f) : r->GetRepeatedUInt32(g, f, i));
    case FD::CPPTYPE_BOOL: return QJSValue(i < 0 ? r->GetBool(g, f) : r->GetRepeatedBool(g, f, i));
    case FD::CPPTYPE_FLOAT: return QJSValue(double(i < 0 ? r->GetFloat(g, f) : r->GetRepeatedFloat(g, f, i)));
    case FD::CPPTYPE_DOUBLE: return QJSValue(i < 0 ? r->GetDouble(g, f) : r->GetRepeatedDouble(g, f, i));
    case FD::CPPTYPE_ENUM: return QJSValue(i < 0 ? r->GetEnumValue(g, f) : r->GetRepeatedEnumValue(g, f, i));
    case FD::CPPTYPE_STRING: return QJSValue(exactQString(i < 0 ? r->GetString(g, f) : r->GetRepeatedString(g, f, i)));
    default: return QJSValue();
    }
}
// value read by script into a model; false if script saw something of another kind
bool fromJs(const QJSValue &v, gp::Message *g, const FD *f) {
    const gp::Reflection *r = g->GetReflection();
    bool rep = f->is_repeated();
    double d = v.toNumber();
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32:
        if (!v.isNumber() || d != double(int32_t(d))) return false;
        rep ? r->AddInt32(g, f, int32_t(d)) : r->SetInt32(g, f, int32_t(d));
        return true;
    case FD::CPPTYPE_UINT32:
        if (!v.isNumber() || d < 0 || d > 4294967295.0 || d != double(uint32_t(d))) return false;
        rep ? r->AddUInt32(g, f, uint32_t(d)) : r->SetUInt32(g, f, uint32_t(d));
        return true;
    case FD::CPPTYPE_BOOL:
        if (!v.isBool()) return false;
        rep ? r->AddBool(g, f, v.toBool()) : r->SetBool(g, f, v.toBool());
        return true;
    case FD::CPPTYPE_FLOAT:
        if (!v.isNumber()) return false;
        rep ? r->AddFloat(g, f, float(d)) : r->SetFloat(g, f, float(d));
        return true;
    case FD::CPPTYPE_DOUBLE:
        if (!v.isNumber()) return false;
        rep ? r->AddDouble(g, f, d) : r->SetDouble(g, f, d);
        return true;
    case FD::CPPTYPE_ENUM:
        if (!v.isNumber() || d != double(int32_t(d))) return false;
        rep ? r->AddEnumValue(g, f, int(d)) : r->SetEnumValue(g, f, int(d));
        return true;
    case FD::CPPTYPE_STRING:
        if (!v.isString()) return false;
        rep ? r->AddString(g, f, fromQString(v.toString())) : r->SetString(g, f, fromQString(v.toString()));
        return true;
    default: return false;
    }
}

// ------------------------------------------------------------------ conversions between ordinary and protobuf integers
template<class From, class To> void convertOne(From v, const char *what) {
    QVariant x = QVariant::fromValue<From>(v);
    result.count("conversions");
    if (!x.canConvert(qMetaTypeId<To>()) || !x.convert(qMetaTypeId<To>()) || !(x.value<To>() == To(v)))
        result.violation(std::string("conversion ") + what, std::string("QVariant conversion ") + what + " does not keep the value", std::to_string(double(v)));
}
template<class P, class Base> void convertType(Rng &r, const char *name) {
    Base b = Base(boundaryInt64(r));
    std::string n = name;
    auto fits = [&](auto other) { using O = decltype(other); return Base(O(b)) == b && ((O(b) < O(0)) == (b < Base(0))); };
#define VP_BOTH(O) if (fits(O(0))) { convertOne<O, P>(O(b), (#O " to " + n).c_str()); QVariant v = QVariant::fromValue<P>(P(b)); \
        if (!v.convert(qMetaTypeId<O>()) || v.value<O>() != O(b)) result.violation("conversion " + n + " to " #O, "QVariant conversion does not keep the value", std::to_string(b)); }
    VP_BOTH(int32_t) VP_BOTH(uint32_t) VP_BOTH(int64_t) VP_BOTH(uint64_t) VP_BOTH(qlonglong) VP_BOTH(qulonglong)
#undef VP_BOTH
    if (b > -(1ll << 53) && (b < 0 || uint64_t(b) < (1ull << 53))) {
        convertOne<double, P>(double(b), ("double to " + n).c_str());
        if (QVariant::fromValue<P>(P(b)).toDouble() != double(b)) result.violation("conversion " + n + " to double", "QVariant conversion does not keep the value", std::to_string(b));
    }
    if (QVariant::fromValue<P>(P(b)).toString() != QString::number(b)) result.violation("conversion " + n + " to string", "text of the value is wrong", std::to_string(b));
}
void conversions(Rng &r) {
    convertType<QtProtobuf::int32, int32_t>(r, "int32");
    convertType<QtProtobuf::int64, int64_t>(r, "int64");
    convertType<QtProtobuf::fixed32, uint32_t>(r, "fixed32");
    convertType<QtProtobuf::fixed64, uint64_t>(r, "fixed64");
    convertType<QtProtobuf::sfixed32, int32_t>(r, "sfixed32");
    convertType<QtProtobuf::sfixed64, int64_t>(r, "sfixed64");
}
// an ordinary QVariant that holds the integer exactly; false if the field is not an integer
bool plainVariant(const gp::Message &g, const FD *f, Rng &r, QVariant *out) {
    const gp::Reflection *x = g.GetReflection();
    bool neg = false;
    uint64_t u = 0;
    int64_t v = 0;
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: v = x->GetInt32(g, f); neg = v < 0; u = uint64_t(v); break;
    case FD::CPPTYPE_INT64: v = x->GetInt64(g, f); neg = v < 0; u = uint64_t(v); break;
    case FD::CPPTYPE_UINT32: u = x->GetUInt32(g, f); v = int64_t(u); break;
    case FD::CPPTYPE_UINT64: u = x->GetUInt64(g, f); v = int64_t(u); break;
    default: return false;
    }
    std::vector<QVariant> can;
    if (neg ? v >= INT32_MIN : u <= INT32_MAX) can.push_back(QVariant(int(v)));
    if (!neg && u <= UINT32_MAX) can.push_back(QVariant(uint(u)));
    if (neg || u <= uint64_t(INT64_MAX)) can.push_back(QVariant(qlonglong(v)));
    if (!neg) can.push_back(QVariant(qulonglong(u)));
    if (neg ? v > -(1ll << 53) : u < (1ull << 53)) can.push_back(QVariant(neg ? double(v) : double(u)));
    *out = r.pick(can);
    return true;
}

struct Script {
    QQmlEngine engine;
    QJSValue get, set, length, at, push, setAt, setLength, keepAll, keepOne, drop, number;
    QJSValue fn(const char *text) {
        QJSValue v = engine.evaluate(text);
        if (!v.isCallable()) { fprintf(stderr, "no function: %s\n", text); abort(); }
        return v;
    }
    Script() {
        engine.addImportPath(QString::fromStdString(importPath));
        engine.setOutputWarningsToStandardError(false);
        QObject::connect(&engine, &QQmlEngine::warnings, [](const QList<QQmlError> &es) { for (auto &e : es) warnings << e.toString(); });
        get = fn("(function(o,k){return o[k]})");
        set = fn("(function(o,k,v){o[k]=v})");
        length = fn("(function(o,k){return o[k].length})");
        at = fn("(function(o,k,i){return o[k][i]})");
        number = fn("(function(o,k,i){return Number(o[k][i])})");
        push = fn("(function(o,k,v){o[k].push(v)})");
        setAt = fn("(function(o,k,i,v){o[k][i]=v})");
        setLength = fn("(function(o,k,n){o[k].length=n})");
        engine.evaluate("var kept=[]");
        keepOne = fn("(function(o){kept.push(o)})");
        drop = fn("(function(){kept=[]})");
    }
    QJSValue wrap(QObject *o) {
        QQmlEngine::setObjectOwnership(o, QQmlEngine::CppOwnership);
        return engine.newQObject(o);
    }
    std::map<std::string, std::unique_ptr<QQmlComponent>> components;
    static QString qmlType(const gp::Descriptor *d) {
        return d->containing_type() ? QString::fromStdString(d->containing_type()->name() + "Ns." + d->name()) : QString::fromStdString(d->name());
    }
    static QString imports() { return "import QtQml 2.12\nimport QtProtobuf 0.6\nimport vp.qml 1.0\nimport vp.qml.Outer 1.0 as OuterNs\n"; }
    // an empty message made by the QML engine, owned by script
    QJSValue create(const gp::Descriptor *d, QObject **out) {
        auto &c = components[d->full_name()];
        if (!c) {
            c.reset(new QQmlComponent(&engine));
            c->setData((imports() + qmlType(d) + " {}\n").toUtf8(), QUrl("file:///made.qml"));
        }
        QObject *o = c->create();
        if (out) *out = o;
        if (!o) {
            result.violation("not creatable " + d->full_name(), "QML cannot create " + d->full_name() + ": " + fromQString(c->errorString()), imports().toStdString());
            return QJSValue();
        }
        QQmlEngine::setObjectOwnership(o, QQmlEngine::JavaScriptOwnership);
        return engine.newQObject(o);
    }
    bool ok(const QJSValue &v) { return !v.isError(); }

    // sets every shown field of the (fresh) object to those of the value, all by script
    bool apply(const QJSValue &o, const gp::Message &g) {
        const gp::Reflection *r = g.GetReflection();
        std::vector<const FD *> fs;
        r->ListFields(g, &fs);
        for (auto f : fs) {
            if (!shown(f)) continue;
            QJSValue v;
            if (f->is_repeated()) {
                if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                    for (int i = 0; i < r->FieldSize(g, f); ++i) {
                        QJSValue e = create(f->message_type(), nullptr);
                        if (!apply(e, r->GetRepeatedMessage(g, f, i))) return false;
                        if (!ok(push.call({o, propertyName(f), e}))) return false;
                    }
                    continue;
                }
                v = engine.newArray(uint(r->FieldSize(g, f)));
                for (int i = 0; i < r->FieldSize(g, f); ++i) v.setProperty(quint32(i), toJs(g, f, i));
            } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                // the sub-message that is there already, or a new one
                QJSValue sub = get.call({o, propertyName(f)});
                if (!sub.isQObject() || !apply(sub, r->GetMessage(g, f))) return false;
                continue;
            } else {
                v = toJs(g, f);
            }
            if (!ok(set.call({o, propertyName(f), v}))) return false;
        }
        return true;
    }
    // everything script can see of the object
    std::string problem;
    bool look(const QJSValue &o, gp::Message *g, int depth = 0) {
        const gp::Descriptor *d = g->GetDescriptor();
        const gp::Reflection *r = g->GetReflection();
        for (int i = 0; i < d->field_count(); ++i) {
            const FD *f = d->field(i);
            if (!shown(f)) continue;
            QString name = propertyName(f);
            if (f->is_repeated()) {
                QJSValue n = length.call({o, name});
                if (!n.isNumber()) { problem = f->full_name() + " has no length"; return false; }
                for (int k = 0; k < n.toInt(); ++k) {
                    // numbers of lists are shown as objects that convert to their number
                    QJSValue e = f->cpp_type() != FD::CPPTYPE_MESSAGE && f->cpp_type() != FD::CPPTYPE_STRING ? number.call({o, name, k}) : at.call({o, name, k});
                    if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                        if (!e.isQObject() || !e.toQObject()) { problem = f->full_name() + " element is not an object"; return false; }
                        if (!look(e, r->AddMessage(g, f), depth + 1)) return false;
                    } else if (!fromJs(e, g, f)) {
                        problem = f->full_name() + " element seen as " + fromQString(e.toString());
                        return false;
                    }
                }
                QJSValue beyond = at.call({o, name, n.toInt()});
                if (!beyond.isUndefined()) { problem = f->full_name() + " has something beyond its end"; return false; }
            } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                QJSValue e = get.call({o, name});
                if (!e.isQObject() || !e.toQObject()) { problem = f->full_name() + " is not an object"; return false; }
                if (!look(e, r->MutableMessage(g, f), depth + 1)) return false;
            } else {
                QJSValue v = get.call({o, name});
                if (!fromJs(v, g, f)) { problem = f->full_name() + " seen as " + fromQString(v.toString()); return false; }
            }
            result.count("script_reads");
        }
        return true;
    }
};

// ------------------------------------------------------------------ bindings
struct Bound { QString name, expression; std::vector<const FD *> path; };

void paths(const gp::Descriptor *d, std::vector<const FD *> prefix, std::vector<Bound> *out) {
    for (int i = 0; i < d->field_count(); ++i) {
        const FD *f = d->field(i);
        if (!shown(f) || f->is_repeated()) continue;
        auto p = prefix;
        p.push_back(f);
        if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
            if (p.size() < 4) paths(f->message_type(), p, out);
            continue;
        }
        Bound b;
        b.path = p;
        b.name = QStringLiteral("b%1").arg(out->size());
        b.expression = "m";
        for (auto e : p) b.expression += "." + propertyName(e);
        out->push_back(b);
    }
}

struct Watcher {
    std::unique_ptr<QObject> object;
    std::vector<Bound> bounds;
};

// ------------------------------------------------------------------ QML text with the values written down
QString number(double d) {
    if (std::isnan(d)) return "NaN";
    if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
    return QString::number(d, 'g', 17);
}
QString quoted(const QString &s) {
    QString o = "\"";
    for (QChar c : s) {
        if (c == '"' || c == '\\') o += QString("\\") + c;
        else if (c.unicode() < 32 || c.unicode() > 126) o += QString("\\u%1").arg(c.unicode(), 4, 16, QChar('0'));
        else o += c;
    }
    return o + "\"";
}
QString enumText(const FD *f, int v, Rng &r) {
    auto e = f->enum_type()->FindValueByNumber(v);
    if (!e || r.chance(20)) return QStringLiteral("Number(%1)").arg(v);   // a literal has to be one of the constants
    if (f->enum_type()->containing_type()) return QString::fromStdString(f->enum_type()->containing_type()->name() + "." + e->name());
    return QString::fromStdString(f->enum_type()->name() + "." + e->name());
}
QString scalarText(const gp::Message &g, const FD *f, int i, Rng &r) {
    if (f->cpp_type() == FD::CPPTYPE_ENUM) return enumText(f, i < 0 ? g.GetReflection()->GetEnumValue(g, f) : g.GetReflection()->GetRepeatedEnumValue(g, f, i), r);
    QJSValue v = toJs(g, f, i);
    if (v.isString()) return quoted(v.toString());
    if (v.isBool()) return v.toBool() ? "true" : "false";
    return number(v.toNumber());
}
QString declare(const gp::Message &g, Rng &r, int indent) {
    QString pad(indent * 2, ' '), o = Script::qmlType(g.GetDescriptor()) + " {\n";
    std::vector<const FD *> fs;
    const gp::Reflection *x = g.GetReflection();
    x->ListFields(g, &fs);
    for (auto f : fs) {
        if (!shown(f)) continue;
        o += pad + "  " + propertyName(f) + ": ";
        if (f->is_repeated()) {
            QStringList l;
            for (int i = 0; i < x->FieldSize(g, f); ++i) l << (f->cpp_type() == FD::CPPTYPE_MESSAGE ? declare(x->GetRepeatedMessage(g, f, i), r, indent + 1) : scalarText(g, f, i, r));
            o += "[" + l.join(", ") + "]";
        } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
            o += declare(x->GetMessage(g, f), r, indent + 1);
        } else {
            o += scalarText(g, f, -1, r);
        }
        o += "\n";
    }
    return o + pad + "}";
}

// ------------------------------------------------------------------ the workload
struct Item {
    const TypeOps *t;
    Ptr obj;
    GPtr model;
    Watcher watcher;
};

GPtr randomValue(Ctx &x, const TypeOps &t, Rng &r, int only = 0) {
    GPtr g = x.oracle.make(t.name);
    FillProfile p = randomProfile(r, g->GetDescriptor());
    p.budget = 60;
    p.maxDepth = 3;
    p.bigPercent = 0;
    p.only = only;
    if (only) p.setPercent = 90;
    fill(g.get(), r, p);
    return g;
}

void run(Ctx &x, Script &s, long c) {
    Rng r(options.seed * 1000003ull + uint64_t(c));
    warnings.clear();
    std::vector<std::unique_ptr<Item>> items;
    std::string trace, id;
    std::vector<QPointer<QObject>> handed;      // objects made by script and put into lists: they belong to the list
    std::vector<QJSValue> stale;                // references script keeps to sub-messages and elements
    bool bad = false;
    auto fail = [&](const std::string &key, const std::string &what) {
        result.violation(key, what + " [" + shortText(trace, 400) + "]", id + " trace=" + trace);
        bad = true;
    };
    auto check = [&](const std::string &op) {
        for (auto &i : items) {
            GPtr cpp = x.oracle.make(i->t->name);
            i->t->store(i->obj.get(), cpp.get());
            if (canon(*cpp) != canon(*i->model)) return fail("C++ value after " + op + " " + i->t->name + "." + differingField(*i->model, *cpp), diff(canon(*i->model), canon(*cpp)));
            GPtr js = x.oracle.make(i->t->name);
            if (!s.look(s.wrap(i->obj.get()), js.get())) return fail("unreadable after " + op + " " + i->t->name, s.problem);
            std::string want = canonShown(*i->model), got = canonShown(*js);
            if (want != got) return fail("script value after " + op + " " + i->t->name, diff(want, got));
            for (auto &b : i->watcher.bounds) {
                // follow the path in the model
                const gp::Message *g = i->model.get();
                for (size_t k = 0; k + 1 < b.path.size(); ++k) g = &g->GetReflection()->GetMessage(*g, b.path[k]);
                GPtr a(g->New()), e(g->New());
                const FD *f = b.path.back();
                fromJs(toJs(*g, f), e.get(), f);
                QJSValue seen = s.engine.toScriptValue(i->watcher.object->property(b.name.toLatin1()));
                if (!fromJs(seen, a.get(), f) || canon(*a) != canon(*e))
                    return fail("binding after " + op + " " + i->t->name + "." + f->name(), "binding " + fromQString(b.expression) + " shows " + fromQString(seen.toString()) + " instead of " + canon(*e));
                result.count("bindings_compared");
            }
        }
        if (!warnings.isEmpty()) return fail("warning after " + op, "QML warned: " + fromQString(warnings.join("; ")));
    };
    conversions(r);
    int n = r.range(1, 2);
    for (int k = 0; k < n; ++k) {
        std::unique_ptr<Item> i(new Item);
        i->t = &pickType(r, c * 2 + k);
        id = caseId("qml", *i->t, c);
        current(id);
        if (r.chance(40)) {
            // written down in QML
            GPtr g = randomValue(x, *i->t, r);
            prune(g.get());
            QString text = Script::imports() + declare(*g, r, 0) + "\n";
            QQmlComponent component(&s.engine);
            component.setData(text.toUtf8(), QUrl("file:///declared.qml"));
            i->obj.reset(component.create());
            trace += "declare ";
            if (!i->obj || !component.errors().isEmpty()) { fail("declaration of " + i->t->name, fromQString(component.errorString() + text)); return; }
            i->model = std::move(g);
            result.count("declared");
        } else {
            i->obj.reset(i->t->create());
            i->model = x.oracle.make(i->t->name);
        }
        paths(i->model->GetDescriptor(), {}, &i->watcher.bounds);
        // a selection keeps the text small
        while (i->watcher.bounds.size() > 24) i->watcher.bounds.erase(i->watcher.bounds.begin() + long(r.below(i->watcher.bounds.size())));
        QString text = Script::imports() + "QtObject {\n  property var m\n";
        for (auto &b : i->watcher.bounds) text += "  property var " + b.name + ": m ? " + b.expression + " : undefined\n";
        QQmlComponent component(&s.engine);
        component.setData((text + "}\n").toUtf8(), QUrl("file:///watch.qml"));
        i->watcher.object.reset(component.create());
        if (!i->watcher.object) { fprintf(stderr, "%s\n", qPrintable(component.errorString())); abort(); }
        s.wrap(i->obj.get());
        i->watcher.object->setProperty("m", QVariant::fromValue<QObject *>(i->obj.get()));
        items.push_back(std::move(i));
    }
    check("construction");
    int steps = r.range(4, 14);
    for (int step = 0; step < steps && !bad; ++step) {
        Item &i = *items[r.below(items.size())];
        id = caseId("qml", *i.t, c);
        // walk down to some message within
        const gp::Message *cursor = i.model.get();
        gp::Message *model = i.model.get();
        QJSValue target = s.wrap(i.obj.get());
        std::string where = i.t->name;
        while (r.chance(40)) {
            const gp::Descriptor *d = model->GetDescriptor();
            std::vector<const FD *> subs;
            for (int k = 0; k < d->field_count(); ++k) {
                const FD *f = d->field(k);
                if (f->cpp_type() != FD::CPPTYPE_MESSAGE || f->is_map()) continue;
                if (f->is_repeated() && !model->GetReflection()->FieldSize(*model, f)) continue;
                subs.push_back(f);
            }
            if (subs.empty()) break;
            const FD *f = r.pick(subs);
            if (f->is_repeated()) {
                int at = int(r.below(uint64_t(model->GetReflection()->FieldSize(*model, f))));
                target = s.at.call({target, propertyName(f), at});
                model = model->GetReflection()->MutableRepeatedMessage(model, f, at);
            } else {
                target = s.get.call({target, propertyName(f)});
                model = model->GetReflection()->MutableMessage(model, f);
            }
            where += "." + f->name();
            if (r.chance(10)) { stale.push_back(target); result.count("references_kept"); }
        }
        (void)cursor;
        const gp::Descriptor *d = model->GetDescriptor();
        std::vector<const FD *> fs;
        for (int k = 0; k < d->field_count(); ++k) if (shown(d->field(k))) fs.push_back(d->field(k));
        const FD *f = r.pick(fs);
        QString name = propertyName(f);
        std::string op;
        const gp::Reflection *mr = model->GetReflection();
        int kind = int(r.below(10));
        if (kind < 6) {
            const TypeOps &t = *typeOf(d->full_name());
            GPtr g = randomValue(x, t, r, f->number());
            prune(g.get());
            QJSValue outcome;
            if (f->is_repeated() && f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                int size = mr->FieldSize(*model, f);
                int how = int(r.below(5));
                auto made = [&](const gp::Message &v) {
                    QObject *o = nullptr;
                    QJSValue e = s.create(f->message_type(), &o);
                    if (o && !s.apply(e, v)) fail("script cannot set " + f->message_type()->full_name(), "setting the fields of a new object failed");
                    if (o) handed.push_back(o);
                    return e;
                };
                GPtr one(x.oracle.make(f->message_type()->full_name()));
                one = randomValue(x, *typeOf(f->message_type()->full_name()), r);
                prune(one.get());
                if (how == 0 || (how == 1 && !size)) {
                    op = "push:" + f->name();
                    outcome = s.push.call({target, name, made(*one)});
                    mr->AddMessage(model, f)->CopyFrom(*one);
                } else if (how == 1) {
                    int at = int(r.below(uint64_t(size)));
                    op = "replace:" + f->name();
                    outcome = s.setAt.call({target, name, at, made(*one)});
                    mr->MutableRepeatedMessage(model, f, at)->CopyFrom(*one);
                } else if (how == 2) {
                    int keep = int(r.below(uint64_t(size + 1)));
                    op = "shorten:" + f->name();
                    outcome = s.setLength.call({target, name, keep});
                    while (mr->FieldSize(*model, f) > keep) mr->RemoveLast(model, f);
                } else if (how == 3) {
                    op = "clear:" + f->name();
                    outcome = s.set.call({target, name, s.engine.newArray()});
                    mr->ClearField(model, f);
                } else {
                    op = "assignlist:" + f->name();
                    int m = r.range(1, 4);
                    QJSValue array = s.engine.newArray(uint(m));
                    GPtr fresh(model->New());
                    for (int k = 0; k < m; ++k) {
                        GPtr e = randomValue(x, *typeOf(f->message_type()->full_name()), r);
                        prune(e.get());
                        array.setProperty(quint32(k), made(*e));
                        fresh->GetReflection()->AddMessage(fresh.get(), f)->CopyFrom(*e);
                    }
                    outcome = s.set.call({target, name, array});
                    mr->ClearField(model, f);
                    for (int k = 0; k < m; ++k) mr->AddMessage(model, f)->CopyFrom(fresh->GetReflection()->GetRepeatedMessage(*fresh, f, k));
                }
            } else if (f->is_repeated()) {
                op = "list:" + f->name();
                QJSValue array = s.engine.newArray(uint(g->GetReflection()->FieldSize(*g, f)));
                mr->ClearField(model, f);
                for (int k = 0; k < g->GetReflection()->FieldSize(*g, f); ++k) {
                    QJSValue v = toJs(*g, f, k);
                    array.setProperty(quint32(k), v);
                    fromJs(v, model, f);
                }
                outcome = s.set.call({target, name, array});
            } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                GPtr one = randomValue(x, *typeOf(f->message_type()->full_name()), r);
                prune(one.get());
                if (r.chance(25)) {
                    op = "null:" + f->name();
                    outcome = s.set.call({target, name, QJSValue(QJSValue::NullValue)});
                    mr->ClearField(model, f);
                } else {
                    op = "sub:" + f->name();
                    QJSValue e = s.create(f->message_type(), nullptr);
                    if (!s.apply(e, *one)) { fail("script cannot set " + f->message_type()->full_name(), "setting the fields of a new object failed"); break; }
                    s.keepOne.call({e});
                    outcome = s.set.call({target, name, e});
                    mr->MutableMessage(model, f)->CopyFrom(*one);
                }
            } else {
                op = "set:" + f->name();
                QJSValue v = toJs(*g, f);
                fromJs(v, model, f);
                outcome = s.set.call({target, name, v});
            }
            if (outcome.isError()) fail("script error in " + op, fromQString(outcome.toString()));
            result.count("script_writes");
        } else if (kind == 6 && r.chance(40)) {
            // ordinary numbers written to properties by name, 64 bit ones included
            const FieldOps &fo = i.t->fields[r.below(i.t->fields.size())];
            const FD *ff = i.model->GetDescriptor()->FindFieldByNumber(fo.number);
            QVariant v;
            GPtr g = randomValue(x, *i.t, r, fo.number);
            if (ff->is_repeated() || !plainVariant(*g, ff, r, &v)) continue;
            op = std::string("variant:") + fo.name + "(" + v.typeName() + ")";
            if (!i.obj->setProperty(fo.property, v)) fail("property " + ff->full_name() + " does not take " + v.typeName(), "writing " + fromQString(v.toString()) + " failed");
            i.model->GetReflection()->ClearField(i.model.get(), ff);
            GPtr only(g->New());
            only->CopyFrom(*g);
            std::vector<const FD *> all;
            only->GetReflection()->ListFields(*only, &all);
            for (auto a : all) if (a != ff) only->GetReflection()->ClearField(only.get(), a);
            i.model->MergeFrom(*only);
            result.count("plain_variants_written");
        } else if (kind == 6) {
            op = "cpp:";
            GPtr g = randomValue(x, *i.t, r);
            if (r.chance(50)) {
                const FieldOps &fo = i.t->fields[r.below(i.t->fields.size())];
                op += fo.name;
                fo.set(i.obj.get(), *g);
                const FD *ff = g->GetDescriptor()->FindFieldByNumber(fo.number);
                GPtr only(g->New());
                only->CopyFrom(*g);
                std::vector<const FD *> all;
                only->GetReflection()->ListFields(*only, &all);
                for (auto a : all) if (a != ff) only->GetReflection()->ClearField(only.get(), a);
                i.model->GetReflection()->ClearField(i.model.get(), ff);
                i.model->MergeFrom(*only);
            } else {
                op += "assign";
                Ptr other(i.t->create());
                i.t->load(*g, other.get());
                r.chance(50) ? i.t->assign(i.obj.get(), other.get()) : i.t->moveAssign(i.obj.get(), other.get());
                i.model->CopyFrom(*g);
            }
            result.count("cpp_writes");
        } else if (kind == 7) {
            op = "deserialize";
            GPtr g = randomValue(x, *i.t, r);
            i.t->deserialize(i.obj.get(), &x.ser, bytes(g->SerializeAsString()));
            i.model->CopyFrom(*g);
            result.count("deserializations");
        } else if (kind == 8) {
            op = "collect";
            target = QJSValue();
            s.engine.collectGarbage();
            QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
            result.count("collections");
        } else {
            op = "stale";
            // whatever script kept is either still the object or reads as gone
            for (auto &v : stale) {
                QObject *o = v.toQObject();
                if (!o) { result.count("references_gone"); continue; }
                const gp::Descriptor *sd = nullptr;
                for (auto &t : types()) if (t.meta == o->metaObject()) sd = x.oracle.type(t.name);
                GPtr g = x.oracle.make(sd->full_name());
                s.look(v, g.get());
                result.count("references_read");
            }
        }
        trace += op + "@" + where + " ";
        if (bad) break;
        result.evaluations++;
        check(op.substr(0, op.find(':')));
        if (!bad) {
            // the wire has it too
            QByteArray b = i.t->serialize(i.obj.get(), &x.ser);
            GPtr back = x.oracle.make(i.t->name);
            if (!back->ParseFromArray(b.constData(), b.size()) || canon(*back) != canon(*i.model)) fail("serialized after " + op.substr(0, op.find(':')), diff(canon(*i.model), canon(*back)));
        }
        result.nontrivial(where + op + canonShown(*i.model));
        result.see("operations", op.substr(0, op.find(':')));
        result.see("fields", f->full_name());
    }
    if (!bad) result.sample(trace);
    // destruction: watchers first or messages first
    if (r.chance(50)) for (auto &i : items) i->watcher.object->setProperty("m", QVariant::fromValue<QObject *>(nullptr));
    if (r.chance(50)) for (auto &i : items) i->obj.reset();
    items.clear();
    stale.clear();
    s.drop.call();
    s.engine.collectGarbage();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    s.engine.collectGarbage();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    for (auto &h : handed) if (h && !bad) { fail("outlived", "an element put into a list by script outlived its list"); break; }
}

}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    parseOptions(argc, argv);
    importPath = options.more["imports"];
    qInstallMessageHandler([](QtMsgType type, const QMessageLogContext &, const QString &text) {
        result.count("log_lines");
        if (getenv("VP_LOG")) fprintf(stderr, "%d %s\n", int(type), qPrintable(text));
    });
    registerAll();
    {
        Ctx x(options.desc);
        Script s;
        for (long c = 0; c < options.cases && !result.tooMany(); ++c) run(x, s, c);
    }
    if (__lsan_do_recoverable_leak_check()) result.violation("leak", "memory leaked", "qml seed=" + std::to_string(options.seed));
    result.count("finished");
    result.write(options.out);
    return 0;
}
