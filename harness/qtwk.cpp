// Monitors of the Qt value types (P12) and of the well-known types (P13).
#include <QCoreApplication>
#include <QByteArray>
#include <QProtobufSerializer>
#include <QtProtobufQtTypes>
#include "qtwk.h"

using namespace vp;

// C++ 64 bit floor division
static long long fdiv(long long a, long long b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }

static bool hasOneof(const gp::Message &m) {
    const gp::Reflection *r = m.GetReflection();
    if (m.GetDescriptor()->oneof_decl_count()) return true;
    std::vector<const gp::FieldDescriptor *> fs;
    r->ListFields(m, &fs);
    for (auto f : fs) {
        if (f->cpp_type() != gp::FieldDescriptor::CPPTYPE_MESSAGE) continue;
        for (int i = 0; f->is_repeated() && i < r->FieldSize(m, f); ++i) if (hasOneof(r->GetRepeatedMessage(m, f, i))) return true;
        if (!f->is_repeated() && hasOneof(r->GetMessage(m, f))) return true;
    }
    return false;
}

static void timestamps(Rng &r, const std::string &id) {
    static const long long edges[] = {0, 1, -1, 999, 1000, -999, -1000, -1001, 1500, -1500, 253402300799999, -62135596800000, 1700000000123, 2147483647999, 2147483648000, -2147483648000};
    long long ms = r.chance(40) ? edges[r.below(16)] : r.chance(50) ? (long long)(r.below(253402300799999ull)) : -(long long)(r.below(62135596800000ull));
    int spec = r.range(0, 12);
    Stamp t = stampFromMsecs(ms, spec);
    std::string v = std::to_string(ms) + " ms -> " + std::to_string(t.seconds) + " s " + std::to_string(t.nanos) + " ns";
    if (t.seconds != fdiv(ms, 1000) || t.nanos != (ms - fdiv(ms, 1000) * 1000) * 1000000) {
        if (t.seconds == ms / 1000 && t.nanos == (ms % 1000) * 1000) result.violation("Timestamp(QDateTime) counts microseconds as nanoseconds and truncates towards zero", v, id);
        else result.violation("Timestamp(QDateTime)", v, id);
    }
    long long back = msecsFromStamp(t.seconds, t.nanos);
    if (back != ms) result.violation("QDateTime to Timestamp and back", v + " -> " + std::to_string(back) + " ms", id);
    long long sec = fdiv(ms, 1000);
    int nanos = int(r.below(1000)) * 1000000 + (r.chance(50) ? int(r.below(1000000)) : 0);
    long long got = msecsFromStamp(sec, nanos), want = sec * 1000 + nanos / 1000000;
    std::string w = std::to_string(sec) + " s " + std::to_string(nanos) + " ns -> " + std::to_string(got) + " ms";
    if (got != want) {
        if (got == sec * 1000 + nanos / 1000) result.violation("QDateTime of Timestamp takes nanoseconds for microseconds", w, id);
        else result.violation("QDateTime of Timestamp", w, id);
    }
    result.count("timestamps_converted");
    result.nontrivial("t" + std::to_string(ms) + "/" + std::to_string(spec));
}

static void wellKnown(const Oracle &o, const Oracle &flat) {
    QtProtobuf::qRegisterProtobufTypes();
    for (long n = 0; n < options.cases && !result.tooMany(); ++n) {
        Rng r(options.seed * 1000003 + uint64_t(n));
        const WkType &t = n % 2 ? wkTypes()[size_t(n / 2) % wkTypes().size()] : wkTypes()[r.below(wkTypes().size())];
        std::string id = "wk seed=" + std::to_string(options.seed) + " case=" + std::to_string(n) + " type=" + t.name;
        current("wk " + id);
        ++result.evaluations;
        if (r.chance(15)) timestamps(r, id);
        auto g = o.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        EncodeStyle st;
        st.shuffle = r.chance(40);
        st.overlongPercent = r.chance(30) ? 30 : 0;
        st.unpackPercent = r.chance(30) ? 50 : 0;
        EncodeStats stats;
        std::string in = encode(*g, r, st, &stats), out;
        try {
            out = t.transcode(in);
        } catch (const std::exception &e) {
            result.violation("well-known type " + t.name + " rejected", std::string(e.what()) + " for " + canon(*g), id);
            continue;
        }
        // as plain fields, whatever belongs to the same oneof
        auto a = flat.make(t.name), b = flat.make(t.name);
        if (!a->ParseFromString(in)) { result.count("skipped"); continue; }
        if (!b->ParseFromString(out)) { result.violation("well-known type " + t.name + " not valid", hex(out), id); continue; }
        result.see("types", t.name);
        if (!canon(*a).empty()) { result.nontrivial(t.name + canon(*a)); result.sample(t.name + " " + canon(*a)); }
        if (canon(*a) != canon(*b)) result.violation("well-known type " + t.name + " changed", "expected " + canon(*a) + " got " + canon(*b), id);
        // with the meaning of oneof
        auto c = o.make(t.name), d = o.make(t.name);
        c->ParseFromString(in);
        d->ParseFromString(out);
        if (!hasOneof(*c)) {
            if (canon(*c) != canon(*d)) result.violation("well-known type " + t.name + " means something else", "expected " + canon(*c) + " got " + canon(*d), id);
        } else if (canon(*c) != canon(*d)) {
            result.violation("google.protobuf.Value is written with every member of its oneof", "expected " + canon(*c) + " got " + canon(*d), id);
        }
    }
}

int main(int argc, char **argv) {
    qputenv("TZ", "UTC");
    QCoreApplication app(argc, argv);
    parseOptions(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    QtProtobuf::qRegisterProtobufQtTypes();
    {
        Oracle o(options.desc);
        if (options.mode == "qttypes") qtTypes(o);
        else if (options.mode == "wellknown") { Oracle flat(options.more["flat"]); wellKnown(o, flat); }
        else { fprintf(stderr, "unknown mode\n"); return 3; }
    }
    result.count("finished");
    result.write(options.out);
    current("after the last case");
    return 0;
}
