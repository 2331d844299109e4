// What the message level monitors share.
#pragma once
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>

#include "common.h"
#include "glue.h"
#include "types.h"

namespace vp {

using Ptr = std::unique_ptr<QObject>;
using GPtr = std::unique_ptr<gp::Message>;

struct Ctx {
    Oracle oracle;
    QtProtobuf::QProtobufSerializer ser;
    explicit Ctx(const std::string &d) : oracle(d) {}
};

inline std::string str(const QByteArray &b) { return std::string(b.constData(), size_t(b.size())); }
inline QByteArray bytes(const std::string &s) { return QByteArray(s.data(), int(s.size())); }

inline const TypeOps &pickType(Rng &r, long c) {
    auto &ts = types();
    return c % 3 == 0 ? ts[size_t(c / 3) % ts.size()] : ts[r.below(ts.size())];
}
inline std::string shortText(const std::string &s, size_t n = 300) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + ")"; }
// where two canonical texts start to differ
inline std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i < 60 ? 0 : i - 60;
    return "at " + std::to_string(i) + ": expected ..." + shortText(a.substr(from), 160) + " got ..." + shortText(b.substr(from), 160);
}
// the top level field in which two values differ: part of the key of a violation
inline std::string differingField(const gp::Message &a, const gp::Message &b) {
    const gp::Descriptor *d = a.GetDescriptor();
    for (int i = 0; i < d->field_count(); ++i) {
        GPtr x(a.New()), y(b.New());
        x->CopyFrom(a);
        y->CopyFrom(b);
        for (int k = 0; k < d->field_count(); ++k) {
            if (k != i) {
                x->GetReflection()->ClearField(x.get(), d->field(k));
                y->GetReflection()->ClearField(y.get(), d->field(k));
            }
        }
        if (canon(*x) != canon(*y)) return d->field(i)->name();
    }
    return "?";
}
inline std::string caseId(const std::string &mode, const TypeOps &t, long c) {
    return mode + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c) + " type=" + t.name;
}
inline bool hasUnknown(const gp::Message &m) {
    if (!m.GetReflection()->GetUnknownFields(m).empty()) return true;
    std::vector<const gp::FieldDescriptor *> fs;
    m.GetReflection()->ListFields(m, &fs);
    for (auto f : fs) {
        if (f->cpp_type() != gp::FieldDescriptor::CPPTYPE_MESSAGE) continue;
        if (f->is_repeated()) {
            for (int i = 0; i < m.GetReflection()->FieldSize(m, f); ++i)
                if (hasUnknown(m.GetReflection()->GetRepeatedMessage(m, f, i))) return true;
        } else if (hasUnknown(m.GetReflection()->GetMessage(m, f))) {
            return true;
        }
    }
    return false;
}
inline void observe(const TypeOps &t, const std::string &c, const gp::Message &g) {
    result.see("types", t.name);
    if (!c.empty()) {
        result.nontrivial(t.name + c);
        result.sample(t.name + " " + c);
    }
    std::vector<const gp::FieldDescriptor *> fs;
    g.GetReflection()->ListFields(g, &fs);
    for (auto f : fs) {
        result.see("fields", f->full_name());
    }
    if (c.size() > 16384) result.count("values_over_16k");
}

// deserialize that reports how it ended
struct Outcome { bool threw = false; std::string what; bool standard = true; };
inline Outcome tryDeserialize(const TypeOps &t, QObject *o, Ctx &x, const QByteArray &data) {
    Outcome r;
    try {
        t.deserialize(o, &x.ser, data);
    } catch (const std::exception &e) {
        r.threw = true;
        r.what = e.what();
    } catch (...) {
        r.threw = true;
        r.standard = false;
    }
    return r;
}

}
