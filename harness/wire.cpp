// Monitors of the wire format: round trip, interoperability with google::protobuf in both directions,
// unknown fields, replacement of previous contents, hostile input.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <stdexcept>

#include <QCoreApplication>

#include "common.h"
#include "glue.h"
#include "types.h"
#include "util.h"

#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/io/coded_stream.h>
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <sanitizer/lsan_interface.h>

using namespace vp;

namespace {

// ---------------------------------------------------------------- round trip
void roundtrip(Ctx &x) {
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000003 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        GPtr g = x.oracle.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        std::string want = canon(*g), id = caseId("roundtrip", t, c);
        current(id + "\n" + want);
        result.evaluations++;
        observe(t, want, *g);
        Ptr a(t.create());
        t.load(*g, a.get());
        // what was put in is what is read back before any serialization
        GPtr back = x.oracle.make(t.name);
        t.store(a.get(), back.get());
        if (canon(*back) != want) {
            result.violation("accessors " + t.name + " " + differingField(*g, *back), "getters do not return what the setters were given: " + diff(want, canon(*back)), id);
            continue;
        }
        QByteArray data = t.serialize(a.get(), &x.ser);
        result.count("bytes", data.size());
        Ptr b(t.create());
        QByteArray cur = data;
        for (int gen = 0; gen < 2; ++gen) {
            Outcome o = tryDeserialize(t, b.get(), x, cur);
            if (o.threw) {
                result.violation("throws " + t.name, "own output rejected: " + o.what + " data " + shortText(hex(str(cur))), id);
                break;
            }
            GPtr g2 = x.oracle.make(t.name);
            t.store(b.get(), g2.get());
            std::string got = canon(*g2);
            if (got != want) {
                result.violation("value " + t.name + " " + differingField(*g, *g2), "round trip changed the value: " + diff(want, got), id);
                break;
            }
            // NaN is not equal to itself: then the library's own comparison may say "different"
            if (want.find("nan") == std::string::npos && want.find("=>") == std::string::npos && want.find(",") == std::string::npos) {
                result.count("equality_checked");
                if (!t.equal(a.get(), b.get())) {
                    result.violation("equal " + t.name, "round tripped message does not compare equal to the original: " + shortText(want), id);
                    break;
                }
            }
            cur = t.serialize(b.get(), &x.ser);
            if (cur.size() != data.size()) {
                result.violation("stable " + t.name, "serializing the copy gives " + std::to_string(cur.size()) + " bytes instead of " + std::to_string(data.size()), id);
                break;
            }
        }
        // the same object serialized again, and by another serializer, gives the same bytes (serialization has no side effect)
        if (t.serialize(a.get(), &x.ser) != data) {
            result.violation("repeat " + t.name, "serializing the same message twice gives different bytes", id);
        }
        QtProtobuf::QProtobufSerializer other;
        if (t.serialize(a.get(), &other) != data) {
            result.violation("instance " + t.name, "two serializers give different bytes for the same message", id);
        }
        GPtr after = x.oracle.make(t.name);
        t.store(a.get(), after.get());
        if (canon(*after) != want) {
            result.violation("sideeffect " + t.name + " " + differingField(*g, *after), "serialization changed the message: " + diff(want, canon(*after)), id);
        }
    }
}

// ---------------------------------------------------------------- encode, judged by google::protobuf
void encodeMode(Ctx &x) {
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000033 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        GPtr g = x.oracle.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        std::string want = canon(*g), id = caseId("encode", t, c);
        current(id + "\n" + want);
        result.evaluations++;
        observe(t, want, *g);
        Ptr a(t.create());
        t.load(*g, a.get());
        QByteArray data = t.serialize(a.get(), &x.ser);
        result.count("bytes", data.size());
        GPtr g2 = x.oracle.make(t.name);
        if (!g2->ParseFromArray(data.constData(), data.size())) {
            result.violation("rejected " + t.name, "google::protobuf rejects the output: " + shortText(hex(str(data))), id);
            continue;
        }
        if (canon(*g2) != want) {
            result.violation("value " + t.name + " " + differingField(*g, *g2), "google::protobuf reads another value: " + diff(want, canon(*g2)), id);
            continue;
        }
        if (hasUnknown(*g2)) {
            result.violation("unknown " + t.name, "the output carries fields that are not in the schema: " + shortText(hex(str(data))), id);
        }
    }
}

// ---------------------------------------------------------------- decode what google::protobuf accepts
void decodeMode(Ctx &x) {
    EncodeStats st;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        GPtr g = x.oracle.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        EncodeStyle s;
        std::string style = "google";
        std::string data;
        if (c % 4 == 0) {
            data = g->SerializeAsString();
        } else {
            s.shuffle = r.chance(60);
            if (r.chance(40)) s.unpackPercent = r.pick(std::vector<int>{20, 100});
            if (r.chance(40)) s.splitPackedPercent = 50;
            if (r.chance(30)) s.overlongPercent = 30;
            if (r.chance(30)) s.duplicatePercent = 40;
            if (r.chance(30)) s.splitMessagePercent = 60;
            if (r.chance(30)) s.emitDefaultPercent = 60;
            if (r.chance(40)) s.mapPercent = 70;
            style = std::string(s.shuffle ? "shuffle " : "") + (s.unpackPercent ? "unpacked " : "") + (s.splitPackedPercent ? "splitpacked " : "")
                  + (s.overlongPercent ? "overlong " : "") + (s.duplicatePercent ? "duplicate " : "") + (s.splitMessagePercent ? "splitmessage " : "")
                  + (s.emitDefaultPercent ? "defaults " : "") + (s.mapPercent ? "oddmaps" : "");
            data = encode(*g, r, s, &st);
        }
        std::string id = caseId("decode", t, c) + " style=" + style;
        current(id + "\n" + hex(data));
        result.evaluations++;
        GPtr ref = x.oracle.make(t.name);
        if (!ref->ParseFromString(data)) {
            result.count("not_accepted_by_google");
            continue;
        }
        std::string want = canon(*ref);
        observe(t, want + style, *ref);
        result.see("styles", style);
        Ptr a(t.create());
        Outcome o = tryDeserialize(t, a.get(), x, bytes(data));
        if (o.threw) {
            result.violation("rejected " + t.name, "valid encoding rejected (" + o.what + "), style " + style + ": " + shortText(hex(data)), id);
            continue;
        }
        GPtr got = x.oracle.make(t.name);
        t.store(a.get(), got.get());
        if (canon(*got) != want) {
            result.violation("value " + t.name + " " + differingField(*ref, *got), "valid encoding (style " + style + ") read as another value: " + diff(want, canon(*got)) + " data " + shortText(hex(data)), id);
        }
    }
    result.count("unpacked_elements", st.unpacked);
    result.count("split_packed_chunks", st.split);
    result.count("overlong_varints", st.overlong);
    result.count("overridden_duplicates", st.duplicates);
    result.count("submessages_in_pieces", st.pieces);
    result.count("odd_map_entries", st.mapOdd);
    result.count("explicit_defaults", st.defaults);
}

// ---------------------------------------------------------------- unknown fields
void unknownMode(Ctx &x) {
    EncodeStats st;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000039 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        GPtr g = x.oracle.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        EncodeStyle s;
        s.unknownPercent = r.pick(std::vector<int>{15, 50, 100});
        s.unknownNested = r.chance(70);
        s.unknownInMapEntry = r.chance(50) ? 40 : 0;
        s.shuffle = r.chance(50);
        long before = st.unknown;
        std::string data = encode(*g, r, s, &st);
        std::string want = canon(*g), id = caseId("unknown", t, c);
        current(id + "\n" + hex(data));
        result.evaluations++;
        if (st.unknown == before) continue;
        observe(t, want + std::to_string(hash64(data)), *g);
        Ptr a(t.create());
        Outcome o = tryDeserialize(t, a.get(), x, bytes(data));
        if (o.threw) {
            result.violation("rejected " + t.name, "message with unknown fields rejected (" + o.what + "): " + shortText(hex(data)), id);
            continue;
        }
        GPtr got = x.oracle.make(t.name);
        t.store(a.get(), got.get());
        if (canon(*got) != want) {
            result.violation("value " + t.name + " " + differingField(*g, *got), "unknown fields disturbed the known ones: " + diff(want, canon(*got)) + " data " + shortText(hex(data)), id);
        }
    }
    result.count("unknown_fields", st.unknown);

    // schema evolution: bytes written for one type are read as another one that shares some field numbers
    for (long c = 0; c < options.cases / 4 && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000081 + uint64_t(c));
        const TypeOps &from = types()[r.below(types().size())];
        const TypeOps &to = types()[r.below(types().size())];
        GPtr g = x.oracle.make(from.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        fill(g.get(), r, p);
        // keep only the fields that the target does not know
        std::vector<const gp::FieldDescriptor *> fs;
        g->GetReflection()->ListFields(*g, &fs);
        for (auto f : fs) {
            if (x.oracle.type(to.name)->FindFieldByNumber(f->number())) g->GetReflection()->ClearField(g.get(), f);
        }
        GPtr g2 = x.oracle.make(to.name);
        FillProfile p2 = randomProfile(r, g2->GetDescriptor());
        fill(g2.get(), r, p2);
        Ptr a(from.create());
        from.load(*g, a.get());
        // fields never set may still be written by the library: drop what google does not find set
        std::string data = r.chance(50) ? g->SerializeAsString() + g2->SerializeAsString() : g2->SerializeAsString() + g->SerializeAsString();
        std::string want = canon(*g2), id = caseId("evolve", to, c) + " from=" + from.name;
        current(id + "\n" + hex(data));
        result.evaluations++;
        result.count("evolution_pairs");
        if (countFields(*g)) result.nontrivial(id + want);
        Ptr b(to.create());
        Outcome o = tryDeserialize(to, b.get(), x, bytes(data));
        if (o.threw) {
            result.violation("evolve-rejected " + to.name, "message of a newer schema rejected (" + o.what + "): " + shortText(hex(data)), id);
            continue;
        }
        GPtr got = x.oracle.make(to.name);
        to.store(b.get(), got.get());
        if (canon(*got) != want) {
            result.violation("evolve-value " + to.name + " " + differingField(*g2, *got), "newer schema disturbed the known fields: " + diff(want, canon(*got)), id);
        }
    }
}

// ---------------------------------------------------------------- deserialize replaces everything
std::string mutate(Rng &r, const std::string &in, const gp::Message &other, EncodeStats *st);

void replaceMode(Ctx &x) {
    EncodeStats st;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000099 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        GPtr g1 = x.oracle.make(t.name), g2 = x.oracle.make(t.name);
        FillProfile p1 = randomProfile(r, g1->GetDescriptor()), p2 = randomProfile(r, g1->GetDescriptor());
        fill(g1.get(), r, p1);
        fill(g2.get(), r, p2);
        std::string want = canon(*g2), id = caseId("replace", t, c);
        current(id + "\n" + canon(*g1) + "\n" + want);
        result.evaluations++;
        if (canon(*g1) != want) observe(t, canon(*g1) + "|" + want, *g2);
        Ptr a(t.create());
        int history = r.range(0, 3);
        result.count("history_" + std::to_string(history));
        if (history == 0) {                      // contents through setters
            t.load(*g1, a.get());
        } else if (history == 1) {               // contents from the wire
            tryDeserialize(t, a.get(), x, bytes(g1->SerializeAsString()));
        } else if (history == 2) {               // contents left by a failed parse
            std::string broken = g1->SerializeAsString();
            broken = broken.substr(0, r.below(broken.size() + 1));
            Outcome o = tryDeserialize(t, a.get(), x, bytes(broken));
            if (o.threw) result.count("after_failed_parse");
        } else {                                 // setters after the wire
            tryDeserialize(t, a.get(), x, bytes(g2->SerializeAsString()));
            t.load(*g1, a.get());
        }
        QByteArray data = r.chance(50) ? bytes(g2->SerializeAsString()) : [&] { Ptr q(t.create()); t.load(*g2, q.get()); return t.serialize(q.get(), &x.ser); }();
        for (int again = 0; again < 2; ++again) {
            Outcome o = tryDeserialize(t, a.get(), x, data);
            if (o.threw) {
                result.violation("throws " + t.name, "valid data rejected when the target had contents: " + o.what, id);
                break;
            }
            GPtr got = x.oracle.make(t.name);
            t.store(a.get(), got.get());
            if (canon(*got) != want) {
                result.violation("value " + t.name + " " + differingField(*g2, *got), "the result depends on the previous contents: " + diff(want, canon(*got)), id);
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- hostile input
size_t g_biggest = 0;
void onMalloc(const volatile void *, size_t n) { if (n > g_biggest) g_biggest = n; }
void onFree(const volatile void *) {}

// offsets of length / tag bytes are where mutations hurt most: walk the top levels of a valid encoding
void interesting(const std::string &d, size_t from, size_t to, int depth, std::vector<size_t> &tags, std::vector<size_t> &lens) {
    size_t i = from;
    auto varint = [&](uint64_t &v) {
        v = 0;
        int k = 0;
        while (i < to) {
            unsigned char b = (unsigned char)d[i++];
            if (k < 64) v |= uint64_t(b & 0x7f) << k;
            k += 7;
            if (!(b & 0x80)) return true;
        }
        return false;
    };
    while (i < to) {
        tags.push_back(i);
        uint64_t tag, v;
        if (!varint(tag)) return;
        switch (tag & 7) {
        case 0: if (!varint(v)) return; break;
        case 1: i += 8; break;
        case 5: i += 4; break;
        case 2: {
            lens.push_back(i);
            if (!varint(v) || v > to - i) return;
            if (depth < 6) interesting(d, i, i + v, depth + 1, tags, lens);
            i += v;
            break;
        }
        default: return;
        }
    }
}

std::string mutate(Rng &r, const std::string &in, const std::string &other) {
    std::string d = in;
    int n = r.chance(70) ? 1 : r.range(2, 5);
    for (int k = 0; k < n; ++k) {
        std::vector<size_t> tags, lens;
        interesting(d, 0, d.size(), 0, tags, lens);
        switch (r.range(0, 11)) {
        case 0: d = d.substr(0, r.below(d.size() + 1)); break;                                  // truncate anywhere
        case 1: if (!d.empty()) d[r.below(d.size())] ^= char(1 << r.below(8)); break;
        case 2: if (!d.empty()) d[r.below(d.size())] = char(r.next()); break;
        case 3: case 4: case 5: if (!lens.empty()) {                                             // lie about a length
            size_t at = r.pick(lens), end = at;
            while (end < d.size() && (d[end] & 0x80)) ++end;
            uint64_t v;
            switch (r.range(0, 6)) {
            case 0: v = r.below(300); break;
            case 1: v = 0xffffffffull; break;
            case 2: v = 0x7fffffffull; break;
            case 3: v = 0x80000000ull + r.below(64); break;
            case 4: v = 0xffffffffull - r.below(64); break;                                      // small negative as int
            case 5: v = r.next(); break;
            default: v = d.size() - at + r.below(4); break;                                      // just around the end
            }
            std::string l;
            putVarint(l, v, r.chance(10) ? r.range(1, 9) : 0);
            d = d.substr(0, at) + l + d.substr(end < d.size() ? end + 1 : end);
        } break;
        case 6: if (!tags.empty()) {                                                             // another field / wire type
            size_t at = r.pick(tags);
            d[at] = char((d[at] & 0x80) | (r.next() & 0x7f));
        } break;
        case 7: if (!tags.empty()) {                                                             // same field, other wire type
            size_t at = r.pick(tags);
            d[at] = char((d[at] & 0xf8) | r.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7}));
        } break;
        case 8: {                                                                                // insert bytes
            std::string ins = r.chance(50) ? randomBytes(r, r.range(1, 12)) : std::string(size_t(r.range(1, 30)), char(r.pick(std::vector<int>{0x80, 0xff, 0, 8, 10})));
            d.insert(r.below(d.size() + 1), ins);
        } break;
        case 9: if (!other.empty()) {                                                            // splice another message in
            size_t a = r.below(other.size()), b = r.below(other.size() - a) + 1;
            d.insert(r.below(d.size() + 1), other.substr(a, b));
        } break;
        case 10: if (d.size() > 1) {                                                             // drop a slice
            size_t a = r.below(d.size()), b = r.below(d.size() - a) + 1;
            d.erase(a, b);
        } break;
        default: d += d.substr(0, r.below(d.size() + 1)); break;                                 // repeat a prefix
        }
        if (d.size() > 200000) d.resize(200000);
    }
    return d;
}
std::string nested(Rng &r, int depth, int field) {
    std::string o;
    for (int i = 0; i < depth; ++i) {
        std::string p;
        putTag(p, field, 2);
        putVarint(p, o.size());
        o = p + o;
    }
    (void)r;
    return o;
}

// true if google::protobuf refuses the bytes for this type (nothing to do with utf-8)
bool googleRejects(Ctx &x, const std::string &type, const std::string &d, GPtr *out = nullptr) {
    GPtr g = x.oracle.make(type);
    bool ok = g->ParsePartialFromString(d);
    if (out) *out = std::move(g);
    return !ok;
}

void hostileOne(Ctx &x, const TypeOps &t, const std::string &d, const std::string &id, bool useAfter) {
    // exact allocation: one byte too far is visible to the sanitizer
    char *raw = static_cast<char *>(malloc(d.size() ? d.size() : 1));
    memcpy(raw, d.data(), d.size());
    {
        QByteArray data = options.more.count("copy") ? bytes(d) : QByteArray::fromRawData(raw, int(d.size()));
        Ptr a(t.create());
        g_biggest = 0;
        Outcome o = tryDeserialize(t, a.get(), x, data);
        size_t biggest = g_biggest;
        if (o.threw && !o.standard) {
            result.violation("nonstandard " + t.name, "hostile input ended in an exception that is not a std::exception: " + shortText(hex(d)), id);
        }
        result.count(o.threw ? "rejected" : "accepted");
        if (o.threw) result.see("messages", o.what);
        // one allocation out of proportion to the input: the input decided how much memory is taken
        if (biggest > 64 * d.size() + (64 << 10)) {
            result.violation("allocation " + t.name, "input of " + std::to_string(d.size()) + " bytes caused an allocation of " + std::to_string(biggest) + " bytes: " + shortText(hex(d)), id);
        }
        if (useAfter) {
            // whatever happened, the object is a usable message
            QByteArray again = t.serialize(a.get(), &x.ser);
            Ptr b(t.create());
            Outcome o2 = tryDeserialize(t, b.get(), x, again);
            if (o2.threw) {
                result.violation("unusable " + t.name, "after hostile input the message serializes to something that cannot be read (" + o2.what + "): " + shortText(hex(d)), id);
            }
            GPtr g = x.oracle.make(t.name);
            t.store(a.get(), g.get());
            Ptr copy(t.copy(a.get()));
            t.assign(b.get(), a.get());
            GPtr gc = x.oracle.make(t.name);
            t.store(copy.get(), gc.get());
            if (canon(*g) != canon(*gc)) {
                result.violation("copy " + t.name, "after hostile input a copy differs from the message", id);
            }
        }
    }
    free(raw);
}

std::string hostileInput(Ctx &x, Rng &r, const TypeOps &t, long c, std::string *kind) {
    GPtr g = x.oracle.make(t.name), g2 = x.oracle.make(types()[r.below(types().size())].name);
    FillProfile p = randomProfile(r, g->GetDescriptor());
    p.budget = 300;
    p.bigPercent = 1;
    fill(g.get(), r, p);
    FillProfile p2 = p;
    fill(g2.get(), r, p2);
    EncodeStats st;
    EncodeStyle s;
    s.shuffle = true;
    s.unpackPercent = s.splitPackedPercent = s.mapPercent = 20;
    s.unknownPercent = r.chance(30) ? 20 : 0;
    std::string valid = r.chance(60) ? g->SerializeAsString() : encode(*g, r, s, &st);
    switch (c % 10) {
    case 0: *kind = "random"; return randomBytes(r, r.range(0, 40));
    case 1: { *kind = "tags"; std::string o;                     // plausible tag, then garbage
        const gp::Descriptor *d = g->GetDescriptor();
        for (int i = r.range(1, 4); i > 0 && d->field_count(); --i) {
            putTag(o, d->field(int(r.below(uint64_t(d->field_count()))))->number(), r.pick(std::vector<int>{0, 1, 2, 2, 2, 5, 3, 4}));
            o += randomBytes(r, r.range(0, 9));
        }
        return o; }
    case 2: *kind = "truncated"; return valid.substr(0, r.below(valid.size() + 1));
    default: *kind = "mutated"; return mutate(r, valid, g2->SerializeAsString());
    }
}

void hostile(Ctx &x) {
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    if (!options.replay.empty()) {
        std::string d = unhex(options.replay);
        for (auto &t : types()) {
            if (t.name == options.more["type"]) hostileOne(x, t, d, "replay", true);
        }
        return;
    }
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000117 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        std::string kind, d = hostileInput(x, r, t, c, &kind);
        std::string id = caseId("hostile", t, c) + " data=" + hex(d);
        current(id);
        result.evaluations++;
        result.see("types", t.name);
        result.count("kind_" + kind);
        if (googleRejects(x, t.name, d)) {
            result.count("malformed_for_google");
            result.nontrivial(t.name + d);
            result.sample(t.name + " " + shortText(hex(d)));
        }
        hostileOne(x, t, d, id.substr(0, 2000), r.chance(60));
        if (c % 50 == 49 && __lsan_do_recoverable_leak_check()) {
            result.violation("leak", "memory leaked while handling hostile input", id.substr(0, 500));
            break;
        }
    }
    // every prefix of some valid messages, every single length lie on small ones
    for (int k = 0; k < 6 && !result.tooMany(); ++k) {
        Rng r(options.seed * 1000121 + uint64_t(k));
        const TypeOps &t = types()[r.below(types().size())];
        GPtr g = x.oracle.make(t.name);
        FillProfile p;
        p.budget = 100;
        p.bigPercent = 0;
        fill(g.get(), r, p);
        std::string v = g->SerializeAsString();
        for (size_t i = 0; i <= v.size() && i < 400; ++i) {
            std::string d = v.substr(0, i);
            current(caseId("prefix", t, k) + " data=" + hex(d));
            result.evaluations++;
            result.count("prefixes");
            result.nontrivial(t.name + d);
            hostileOne(x, t, d, caseId("prefix", t, k) + " data=" + hex(d), false);
        }
    }
    // deep nesting through the recursive type, and through a non recursive one
    for (int depth : {10, 90, 101, 1000, 20000, 60000}) {
        for (auto &t : types()) {
            if (t.name != "vp.core.Tree") continue;
            Rng r(1);
            for (int field : {2}) {
                std::string d = nested(r, depth, field);
                std::string id = "nesting depth=" + std::to_string(depth) + " type=" + t.name;
                current(id);
                result.evaluations++;
                result.count("nested_inputs");
                hostileOne(x, t, d, id, false);
            }
        }
    }
    if (__lsan_do_recoverable_leak_check()) {
        result.violation("leak", "memory leaked while handling hostile input", "seed=" + std::to_string(options.seed));
    }
}

// ---------------------------------------------------------------- malformed input is reported
// Independent structural judge, deliberately more lenient than google::protobuf (it does not look at UTF-8,
// nesting depth or over-long tags): data is malformed only if both of them say so.
bool readVarint(const std::string &d, size_t &i, size_t end, uint64_t &v) {
    v = 0;
    for (int k = 0; k < 70; k += 7) {
        if (i >= end) return false;
        unsigned char b = (unsigned char)d[i++];
        if (k < 64) v |= uint64_t(b & 0x7f) << k;
        if (!(b & 0x80)) return true;
    }
    return false;
}

int wireTypeOf(const gp::FieldDescriptor *f) {
    typedef gp::FieldDescriptor FD;
    switch (f->type()) {
    case FD::TYPE_DOUBLE: case FD::TYPE_FIXED64: case FD::TYPE_SFIXED64: return 1;
    case FD::TYPE_FLOAT: case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: return 5;
    case FD::TYPE_STRING: case FD::TYPE_BYTES: case FD::TYPE_MESSAGE: return 2;
    default: return 0;
    }
}

bool wellFormed(const gp::Descriptor *m, const std::string &d, size_t i, size_t end) {
    while (i < end) {
        uint64_t tag, v;
        if (!readVarint(d, i, end, tag)) return false;
        uint64_t num = tag >> 3;
        int wt = int(tag & 7);
        if (num == 0 || num > 536870911) return false;
        const gp::FieldDescriptor *f = m->FindFieldByNumber(int(num));
        if (wt == 0) {
            if (!readVarint(d, i, end, v)) return false;
        } else if (wt == 1 || wt == 5) {
            size_t n = wt == 1 ? 8 : 4;
            if (end - i < n) return false;
            i += n;
        } else if (wt == 2) {
            if (!readVarint(d, i, end, v) || v > end - i) return false;
            size_t e = i + size_t(v);
            if (f) {
                int fw = wireTypeOf(f);
                if (f->type() == gp::FieldDescriptor::TYPE_MESSAGE) {
                    if (!wellFormed(f->message_type(), d, i, e)) return false;
                } else if (f->is_repeated() && fw != 2) {
                    if (fw == 0) {
                        while (i < e) if (!readVarint(d, i, e, v)) return false;
                    } else if ((e - i) % (fw == 1 ? 8 : 4)) {
                        return false;
                    }
                }
            }
            i = e;
        } else {
            return false;
        }
    }
    return true;
}

void malformed(Ctx &x) {
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000133 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        std::string kind, d = hostileInput(x, r, t, c, &kind);
        std::string id = caseId("malformed", t, c) + " data=" + hex(d);
        current(id);
        result.evaluations++;
        GPtr ref;
        bool google = googleRejects(x, t.name, d, &ref);
        bool structure = !wellFormed(ref->GetDescriptor(), d, 0, d.size());
        bool bad = google && structure;
        if (google != structure) result.count("judges_differ");
        Ptr a(t.create());
        Outcome o = tryDeserialize(t, a.get(), x, bytes(d));
        if (bad) {
            result.count("malformed_" + kind);
            result.nontrivial(t.name + d);
            result.sample(t.name + " " + shortText(hex(d)));
            result.see("types", t.name);
            if (o.threw) {
                result.count("reported");
            } else {
                result.violation("accepted " + t.name, "malformed data accepted without any error: " + shortText(hex(d)), id.substr(0, 2000));
            }
        } else {
            result.count("wellformed");
        }
    }
}

}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    parseOptions(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) { result.count("log_lines"); });
    registerAll();
    {
        Ctx x(options.desc);
        if (options.mode == "roundtrip") roundtrip(x);
        else if (options.mode == "encode") encodeMode(x);
        else if (options.mode == "decode") decodeMode(x);
        else if (options.mode == "unknown") unknownMode(x);
        else if (options.mode == "replace") replaceMode(x);
        else if (options.mode == "hostile") hostile(x);
        else if (options.mode == "malformed") malformed(x);
        else if (options.mode == "shape" && extraMode()) extraMode()();
        else { fprintf(stderr, "unknown mode\n"); return 3; }
    }
    result.count("finished");
    result.write(options.out);
    current("after the last case");
    return 0;
}
