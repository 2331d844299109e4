#include "common.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/stubs/logging.h>

namespace vp {

Result result;
Options options;

uint64_t hash64(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}
std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string o;
    o.reserve(s.size() * 2);
    for (unsigned char c : s) {
        o += d[c >> 4];
        o += d[c & 15];
    }
    return o;
}
std::string unhex(const std::string &s) {
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) {
        o += char(std::stoi(s.substr(i, 2), nullptr, 16));
    }
    return o;
}

Options parseOptions(int argc, char **argv) {
    Options o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") o.mode = v;
        else if (k == "--out") o.out = v;
        else if (k == "--desc") o.desc = v;
        else if (k == "--current") o.current = v;
        else if (k == "--replay") o.replay = v;
        else if (k == "--seed") o.seed = std::stoull(v);
        else if (k == "--cases") o.cases = std::stol(v);
        else if (k == "--shard") o.shard = std::stoi(v);
        else if (k == "--shards") o.shards = std::stoi(v);
        else if (k == "--tier") o.thorough = v == "thorough";
        else if (k.compare(0, 2, "--") == 0) o.more[k.substr(2)] = v;
    }
    options = o;
    return o;
}

static std::string jsonString(const std::string &s) {
    std::string o = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            o += buf;
        } else {
            o += char(c);
        }
    }
    return o + "\"";
}

void Result::violation(const std::string &key, const std::string &what, const std::string &input) {
    for (const auto &v : violations) {
        if (v.key == key) {
            count("violations_repeated");
            return;
        }
    }
    violations.push_back({key, what, input});
    if (!options.out.empty()) {
        write(options.out);   // keep what is known even if the process dies later
    }
}

void Result::write(const std::string &path) const {
    std::ostringstream o;
    o << "{\n \"evaluations\": " << evaluations << ",\n \"counters\": {";
    const char *sep = "";
    for (const auto &c : counters) {
        o << sep << "\n  " << jsonString(c.first) << ": " << c.second;
        sep = ",";
    }
    o << "},\n \"sets\": {";
    sep = "";
    for (const auto &s : sets) {
        o << sep << "\n  " << jsonString(s.first) << ": [";
        const char *q = "";
        for (const auto &e : s.second) {
            o << q << jsonString(e);
            q = ", ";
        }
        o << "]";
        sep = ",";
    }
    o << "},\n \"distinct\": [";
    sep = "";
    for (uint64_t h : distinct) {
        o << sep << "\"" << std::hex << h << std::dec << "\"";
        sep = ",";
    }
    o << "],\n \"samples\": [";
    sep = "";
    for (const auto &s : samples) {
        o << sep << "\n  " << jsonString(s);
        sep = ",";
    }
    o << "],\n \"violations\": [";
    sep = "";
    for (const auto &v : violations) {
        o << sep << "\n  {\"key\": " << jsonString(v.key) << ", \"what\": " << jsonString(v.what) << ", \"input\": " << jsonString(v.input) << "}";
        sep = ",";
    }
    o << "]\n}\n";
    std::ofstream f(path + ".tmp");
    f << o.str();
    f.close();
    rename((path + ".tmp").c_str(), path.c_str());
}

static const size_t CurrentSize = 1 << 20;
void current(const std::string &text) {
    static char *map = nullptr;
    if (options.current.empty()) {
        return;
    }
    if (!map) {
        int fd = open(options.current.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, CurrentSize) != 0) {
            abort();
        }
        map = static_cast<char *>(mmap(nullptr, CurrentSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    size_t n = std::min(text.size(), CurrentSize - 1);
    memcpy(map, text.data(), n);
    map[n] = 0;
}

Oracle::Oracle(const std::string &file) : factory(&pool) {
    gp::FileDescriptorSet set;
    std::ifstream f(file, std::ios::binary);
    if (!f || !set.ParseFromIstream(&f)) {
        fprintf(stderr, "cannot read descriptor set %s\n", file.c_str());
        exit(3);
    }
    for (const auto &d : set.file()) {
        if (!pool.BuildFile(d)) {
            fprintf(stderr, "bad descriptor %s\n", d.name().c_str());
            exit(3);
        }
    }
    static gp::LogSilencer *silence = new gp::LogSilencer;
    (void)silence;
}
const gp::Descriptor *Oracle::type(const std::string &name) const {
    const gp::Descriptor *d = pool.FindMessageTypeByName(name);
    if (!d) {
        fprintf(stderr, "no type %s\n", name.c_str());
        exit(3);
    }
    return d;
}
std::unique_ptr<gp::Message> Oracle::make(const std::string &name) const {
    return std::unique_ptr<gp::Message>(factory.GetPrototype(type(name))->New());
}

// ---------------------------------------------------------------- canonical values
using FD = gp::FieldDescriptor;

static std::string scalarText(const gp::Message &m, const FD *f, int i) {
    const gp::Reflection *r = m.GetReflection();
    bool rep = i >= 0;
    char b[40];
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return std::to_string(rep ? r->GetRepeatedInt32(m, f, i) : r->GetInt32(m, f));
    case FD::CPPTYPE_INT64: return std::to_string(rep ? r->GetRepeatedInt64(m, f, i) : r->GetInt64(m, f));
    case FD::CPPTYPE_UINT32: return std::to_string(rep ? r->GetRepeatedUInt32(m, f, i) : r->GetUInt32(m, f));
    case FD::CPPTYPE_UINT64: return std::to_string(rep ? r->GetRepeatedUInt64(m, f, i) : r->GetUInt64(m, f));
    case FD::CPPTYPE_ENUM: return std::to_string(rep ? r->GetRepeatedEnumValue(m, f, i) : r->GetEnumValue(m, f));
    case FD::CPPTYPE_BOOL: return (rep ? r->GetRepeatedBool(m, f, i) : r->GetBool(m, f)) ? "1" : "0";
    case FD::CPPTYPE_FLOAT: {
        float v = rep ? r->GetRepeatedFloat(m, f, i) : r->GetFloat(m, f);
        uint32_t u;
        memcpy(&u, &v, 4);
        if (v != v) return "nan";
        if (v == 0) return "0"; // setters compare with !=, so a negative zero does not replace a zero: by design
        snprintf(b, sizeof b, "f%08x", u);
        return b;
    }
    case FD::CPPTYPE_DOUBLE: {
        double v = rep ? r->GetRepeatedDouble(m, f, i) : r->GetDouble(m, f);
        uint64_t u;
        memcpy(&u, &v, 8);
        if (v != v) return "nan";
        if (v == 0) return "0"; // setters compare with !=, so a negative zero does not replace a zero: by design
        snprintf(b, sizeof b, "d%016llx", (unsigned long long)u);
        return b;
    }
    case FD::CPPTYPE_STRING: {
        std::string s = rep ? r->GetRepeatedString(m, f, i) : r->GetString(m, f);
        bool plain = s.size() < 200;
        for (unsigned char c : s) {
            plain = plain && c > 0x20 && c < 0x7f && c != '"';
        }
        if (s.empty()) return "\"\"";
        return plain ? "\"" + s + "\"" : "x" + hex(s);
    }
    default: return "?";
    }
}
static bool isDefaultText(const std::string &s) { return s == "0" || s == "\"\""; }

std::string canon(const gp::Message &m) {
    const gp::Reflection *r = m.GetReflection();
    const gp::Descriptor *d = m.GetDescriptor();
    std::vector<const FD *> fs;
    for (int i = 0; i < d->field_count(); ++i) {
        fs.push_back(d->field(i));
    }
    std::sort(fs.begin(), fs.end(), [](const FD *a, const FD *b) { return a->number() < b->number(); });
    std::string o;
    for (const FD *f : fs) {
        std::string v;
        if (f->is_map()) {
            std::map<std::string, std::string> es;
            for (int i = 0, n = r->FieldSize(m, f); i < n; ++i) {
                const gp::Message &e = r->GetRepeatedMessage(m, f, i);
                const FD *vf = f->message_type()->map_value();
                std::string val = vf->cpp_type() == FD::CPPTYPE_MESSAGE ? "{" + canon(e.GetReflection()->GetMessage(e, vf)) + "}" : scalarText(e, vf, -1);
                es[scalarText(e, f->message_type()->map_key(), -1)] = val;
            }
            for (const auto &e : es) {
                v += e.first + "=>" + e.second + ",";
            }
        } else if (f->is_repeated()) {
            for (int i = 0, n = r->FieldSize(m, f); i < n; ++i) {
                v += (f->cpp_type() == FD::CPPTYPE_MESSAGE ? "{" + canon(r->GetRepeatedMessage(m, f, i)) + "}" : scalarText(m, f, i)) + ",";
            }
        } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
            if (r->HasField(m, f)) {
                v = canon(r->GetMessage(m, f));
                if (!v.empty()) {
                    v = "{" + v + "}";
                }
            }
        } else {
            v = scalarText(m, f, -1);
            if (isDefaultText(v)) {
                v.clear();
            }
        }
        if (!v.empty()) {
            o += std::to_string(f->number()) + ":" + v + ";";
        }
    }
    return o;
}

int countFields(const gp::Message &m) {
    std::vector<const FD *> fs;
    m.GetReflection()->ListFields(m, &fs);
    return int(fs.size());
}

// ---------------------------------------------------------------- random values
static const int64_t kBoundary[] = {0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, 16383, 16384, -16384,
    32767, 32768, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll,
    4294967295ll, 4294967296ll, 4294967297ll, 34359738367ll, 34359738368ll, 1ll << 42, (1ll << 49) - 1, 1ll << 49, (1ll << 56) - 1, 1ll << 56, 1ll << 62,
    INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};

int64_t boundaryInt64(Rng &r) { return kBoundary[r.below(sizeof kBoundary / sizeof *kBoundary)]; }
static int64_t anyInt64(Rng &r, const FillProfile &p) {
    if (r.chance(p.boundary)) return boundaryInt64(r);
    int bits = r.range(1, 64);
    uint64_t v = r.next() >> (64 - bits);
    return r.chance(40) ? int64_t(0 - v) : int64_t(v);
}
static int32_t anyInt32(Rng &r, const FillProfile &p) {
    static const int32_t b[] = {0, 1, -1, 2, 63, 64, -64, -65, 127, 128, 255, 300, 16383, 16384, 2097151, 2097152, 268435455, 268435456,
                                INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 1 << 30, -(1 << 30)};
    if (r.chance(p.boundary)) return b[r.below(sizeof b / sizeof *b)];
    int bits = r.range(1, 32);
    uint32_t v = uint32_t(r.next()) >> (32 - bits);
    return r.chance(40) ? int32_t(0 - v) : int32_t(v);
}
std::string randomBytes(Rng &r, int n) {
    std::string s(size_t(n), 0);
    for (auto &c : s) {
        c = char(r.next() >> 24);
    }
    return s;
}
static int randomLength(Rng &r, FillProfile &p) {
    static const int edge[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 126, 127, 128, 129};
    static const int big[] = {255, 256, 1000, 4095, 16382, 16383, 16384, 16385, 65535, 65536, 70000};
    int n;
    if (r.chance(p.bigPercent) && p.budget > 500) {
        n = big[r.below(sizeof big / sizeof *big)];
        p.budget -= n / 100;
    } else if (r.chance(40)) {
        n = edge[r.below(sizeof edge / sizeof *edge)];
    } else {
        n = r.range(0, 20);
    }
    return n;
}
static void appendUtf8(std::string &o, uint32_t c) {
    if (c < 0x80) {
        o += char(c);
    } else if (c < 0x800) {
        o += char(0xC0 | (c >> 6));
        o += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
        o += char(0xE0 | (c >> 12));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    } else {
        o += char(0xF0 | (c >> 18));
        o += char(0x80 | ((c >> 12) & 63));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    }
}
std::string randomUtf8(Rng &r, FillProfile &p) {
    int n = randomLength(r, p);
    std::string o;
    int style = r.range(0, 3);
    if (p.bom && n > 0 && r.chance(4)) {
        appendUtf8(o, 0xFEFF);
    }
    for (int i = 0; i < n; ++i) {
        uint32_t c = uint32_t(r.range('a', 'z'));
        if (style == 1) {
            c = uint32_t(r.range(0x20, 0x7e));
        } else if (style >= 2 && r.chance(40)) {
            switch (r.range(0, 6)) {
            case 0: c = uint32_t(r.range(0x80, 0x7ff)); break;
            case 1: c = uint32_t(r.range(0x800, 0xd7ff)); break;
            case 2: c = uint32_t(r.range(0xe000, 0xffff)); break;
            case 3: c = uint32_t(r.range(0x10000, 0x10ffff)); break;
            case 4: c = p.nul ? 0 : 1; break;
            case 5: c = p.bom ? 0xFEFF : 0x20AC; break;
            default: c = uint32_t(r.range(1, 31)); break;
            }
        }
        appendUtf8(o, c);
    }
    return o;
}
static double anyDouble(Rng &r) {
    static const double b[] = {0.0, -0.0, 1.0, -1.0, 0.1, INFINITY, -INFINITY, NAN, 5e-324, -5e-324, 2.2250738585072014e-308,
                               1.7976931348623157e308, -1.7976931348623157e308, 1e300, 3.14159, 1e-10};
    if (r.chance(60)) return b[r.below(sizeof b / sizeof *b)];
    uint64_t u = r.next();
    double v;
    memcpy(&v, &u, 8);
    return v;
}
static float anyFloat(Rng &r) {
    static const float b[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.1f, INFINITY, -INFINITY, NAN, 1e-45f, -1e-45f, 1.17549435e-38f, 3.4028235e38f, -3.4028235e38f, 3.14159f};
    if (r.chance(60)) return b[r.below(sizeof b / sizeof *b)];
    uint32_t u = uint32_t(r.next());
    float v;
    memcpy(&v, &u, 4);
    return v;
}
static int anyEnum(Rng &r, const FD *f, const FillProfile &p) {
    const gp::EnumDescriptor *e = f->enum_type();
    if (r.chance(85)) return e->value(int(r.below(uint64_t(e->value_count()))))->number();
    return anyInt32(r, p);   // proto3 enums are open
}

static void setScalar(gp::Message *m, const FD *f, Rng &r, FillProfile &p, bool add) {
    const gp::Reflection *x = m->GetReflection();
#define VP_PUT(NAME, V) do { auto v_ = V; if (add) x->Add##NAME(m, f, v_); else x->Set##NAME(m, f, v_); } while (0)
    switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: VP_PUT(Int32, anyInt32(r, p)); break;
    case FD::CPPTYPE_INT64: VP_PUT(Int64, anyInt64(r, p)); break;
    case FD::CPPTYPE_UINT32: VP_PUT(UInt32, uint32_t(anyInt32(r, p))); break;
    case FD::CPPTYPE_UINT64: VP_PUT(UInt64, uint64_t(anyInt64(r, p))); break;
    case FD::CPPTYPE_ENUM: VP_PUT(EnumValue, anyEnum(r, f, p)); break;
    case FD::CPPTYPE_BOOL: VP_PUT(Bool, r.chance(50)); break;
    case FD::CPPTYPE_FLOAT: VP_PUT(Float, anyFloat(r)); break;
    case FD::CPPTYPE_DOUBLE: VP_PUT(Double, anyDouble(r)); break;
    case FD::CPPTYPE_STRING: VP_PUT(String, f->type() == FD::TYPE_BYTES ? randomBytes(r, randomLength(r, p)) : randomUtf8(r, p)); break;
    default: break;
    }
#undef VP_PUT
}
static int listSize(Rng &r, FillProfile &p, bool heavy, int depth) {
    if (p.budget <= 0) return 0;
    int n;
    if (!heavy && r.chance(p.bigPercent * 2)) {
        static const int s[] = {15, 16, 31, 32, 63, 64, 127, 128, 129, 300};
        n = s[r.below(sizeof s / sizeof *s)];
    } else if (heavy) {
        n = depth == 0 ? r.range(0, 5) : r.range(0, 2);
        if (depth == 0 && r.chance(p.bigPercent)) n = r.range(20, 60);
    } else {
        n = r.range(0, 6);
    }
    p.budget -= n;
    return n;
}

FillProfile randomProfile(Rng &r, const gp::Descriptor *d) {
    FillProfile p;
    switch (r.range(0, 9)) {
    case 0: p.setPercent = 0; break;                                    // everything default
    case 1: p.setPercent = 100; break;
    case 2: case 3: if (d->field_count()) p.only = d->field(int(r.below(uint64_t(d->field_count()))))->number(); break;
    case 4: p.setPercent = 15; break;
    case 5: p.bigPercent = 20; break;
    case 6: p.maxDepth = 8; p.setPercent = 40; break;
    default: break;
    }
    p.budget = r.chance(10) ? 20000 : 1500;
    return p;
}

void fill(gp::Message *m, Rng &r, FillProfile &p, int depth) {
    const gp::Descriptor *d = m->GetDescriptor();
    const gp::Reflection *x = m->GetReflection();
    for (int i = 0; i < d->field_count(); ++i) {
        const FD *f = d->field(i);
        if (depth == 0 && p.only ? f->number() != p.only : !r.chance(p.setPercent)) {
            continue;
        }
        p.budget--;
        bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE;
        if (f->is_map()) {
            const FD *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
            bool mv = vf->cpp_type() == FD::CPPTYPE_MESSAGE;
            if (mv && depth >= p.maxDepth) continue;
            int n = listSize(r, p, mv, depth);
            std::set<std::string> keys;
            for (int k = 0; k < n; ++k) {
                gp::Message *e = x->AddMessage(m, f);
                setScalar(e, kf, r, p, false);
                if (!keys.insert(scalarText(*e, kf, -1)).second) {
                    x->RemoveLast(m, f);
                    continue;
                }
                if (mv) {
                    fill(e->GetReflection()->MutableMessage(e, vf), r, p, depth + 1);
                } else {
                    setScalar(e, vf, r, p, false);
                }
            }
        } else if (f->is_repeated()) {
            if (msg && depth >= p.maxDepth) continue;
            int n = listSize(r, p, msg, depth);
            for (int k = 0; k < n; ++k) {
                if (msg) {
                    fill(x->AddMessage(m, f), r, p, depth + 1);
                } else {
                    setScalar(m, f, r, p, true);
                }
            }
        } else if (msg) {
            if (depth >= p.maxDepth || p.budget <= 0) continue;
            fill(x->MutableMessage(m, f), r, p, depth + 1);
        } else {
            setScalar(m, f, r, p, false);
        }
    }
}

// ---------------------------------------------------------------- encodings
void putVarint(std::string &o, uint64_t v, int extra) {
    std::string b;
    do {
        b += char((v & 0x7f) | 0x80);
        v >>= 7;
    } while (v);
    while (extra-- > 0 && b.size() < 10) {
        b += char(0x80);
    }
    b[b.size() - 1] = char(b[b.size() - 1] & 0x7f);
    o += b;
}
void putTag(std::string &o, int number, int wire) { putVarint(o, (uint64_t(uint32_t(number)) << 3) | uint64_t(wire)); }

static int wireOf(const FD *f) {
    switch (f->type()) {
    case FD::TYPE_DOUBLE: case FD::TYPE_FIXED64: case FD::TYPE_SFIXED64: return 1;
    case FD::TYPE_FLOAT: case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: return 5;
    case FD::TYPE_STRING: case FD::TYPE_BYTES: case FD::TYPE_MESSAGE: return 2;
    default: return 0;
    }
}
template<class T> static void putRaw(std::string &o, T v) { o.append(reinterpret_cast<const char *>(&v), sizeof v); }

struct Encoder {
    Rng &r;
    const EncodeStyle &s;
    EncodeStats *st;

    int extra() {
        if (s.overlongPercent && r.chance(s.overlongPercent)) {
            st->overlong++;
            return r.range(1, 9);
        }
        return 0;
    }
    // payload of one scalar element, without the tag
    void scalar(std::string &o, const gp::Message &m, const FD *f, int i) {
        const gp::Reflection *x = m.GetReflection();
        bool rep = i >= 0;
        switch (f->type()) {
        case FD::TYPE_DOUBLE: putRaw(o, rep ? x->GetRepeatedDouble(m, f, i) : x->GetDouble(m, f)); break;
        case FD::TYPE_FLOAT: putRaw(o, rep ? x->GetRepeatedFloat(m, f, i) : x->GetFloat(m, f)); break;
        case FD::TYPE_INT64: putVarint(o, uint64_t(rep ? x->GetRepeatedInt64(m, f, i) : x->GetInt64(m, f)), extra()); break;
        case FD::TYPE_UINT64: putVarint(o, rep ? x->GetRepeatedUInt64(m, f, i) : x->GetUInt64(m, f), extra()); break;
        case FD::TYPE_INT32: putVarint(o, uint64_t(int64_t(rep ? x->GetRepeatedInt32(m, f, i) : x->GetInt32(m, f))), extra()); break;
        case FD::TYPE_FIXED64: putRaw(o, rep ? x->GetRepeatedUInt64(m, f, i) : x->GetUInt64(m, f)); break;
        case FD::TYPE_FIXED32: putRaw(o, rep ? x->GetRepeatedUInt32(m, f, i) : x->GetUInt32(m, f)); break;
        case FD::TYPE_BOOL: {
            bool v = rep ? x->GetRepeatedBool(m, f, i) : x->GetBool(m, f);
            int e = extra();
            putVarint(o, !v ? 0 : !e ? 1 : e < 4 ? 1ull << r.range(0, 63) : e < 7 ? r.next() | 1 : 1, e);   // any non-zero varint is true
            break;
        }
        case FD::TYPE_STRING: case FD::TYPE_BYTES: {
            std::string v = rep ? x->GetRepeatedString(m, f, i) : x->GetString(m, f);
            putVarint(o, v.size(), extra() ? r.range(0, v.size() < 128 ? 4 : v.size() < 16384 ? 3 : 2) : 0);
            o += v;
            break;
        }
        case FD::TYPE_UINT32: putVarint(o, rep ? x->GetRepeatedUInt32(m, f, i) : x->GetUInt32(m, f), extra()); break;
        case FD::TYPE_ENUM: putVarint(o, uint64_t(int64_t(rep ? x->GetRepeatedEnumValue(m, f, i) : x->GetEnumValue(m, f))), extra()); break;
        case FD::TYPE_SFIXED32: putRaw(o, rep ? x->GetRepeatedInt32(m, f, i) : x->GetInt32(m, f)); break;
        case FD::TYPE_SFIXED64: putRaw(o, rep ? x->GetRepeatedInt64(m, f, i) : x->GetInt64(m, f)); break;
        case FD::TYPE_SINT32: {
            int32_t v = rep ? x->GetRepeatedInt32(m, f, i) : x->GetInt32(m, f);
            putVarint(o, (uint32_t(v) << 1) ^ uint32_t(v >> 31), extra());
            break;
        }
        case FD::TYPE_SINT64: {
            int64_t v = rep ? x->GetRepeatedInt64(m, f, i) : x->GetInt64(m, f);
            putVarint(o, (uint64_t(v) << 1) ^ uint64_t(v >> 63), extra());
            break;
        }
        default: abort();
        }
    }
    // some other valid value of the same type, to be overridden later
    void junkScalar(std::string &o, const FD *f) {
        switch (wireOf(f)) {
        case 0: putVarint(o, f->type() == FD::TYPE_BOOL ? r.below(2) : r.next() >> r.range(0, 63), 0); break;
        case 1: putRaw(o, r.next()); break;
        case 5: putRaw(o, uint32_t(r.next())); break;
        default: { int n = r.range(0, 9); putVarint(o, uint64_t(n)); for (int i = 0; i < n; ++i) o += char(r.range('a', 'z')); }
        }
    }
    void unknown(std::string &o, const gp::Descriptor *d) {
        int number;
        do {
            number = r.chance(50) ? r.range(1, 40) : r.chance(50) ? r.range(1, 3000) : r.range(1, 536870911);
        } while (d->FindFieldByNumber(number));
        st->unknown++;
        switch (r.range(0, 3)) {
        case 0: putTag(o, number, 0); putVarint(o, r.next() >> r.range(0, 63), r.chance(20) ? r.range(1, 9) : 0); break;
        case 1: putTag(o, number, 1); putRaw(o, r.next()); break;
        case 2: putTag(o, number, 5); putRaw(o, uint32_t(r.next())); break;
        default: {
            int n = r.chance(10) ? r.range(100, 20000) : r.range(0, 20);
            putTag(o, number, 2);
            putVarint(o, uint64_t(n));
            o += randomBytes(r, n);
        }
        }
    }
    void chunk(std::vector<std::string> &out, const std::string &body, const FD *f) {
        std::string o;
        putTag(o, f->number(), 2);
        putVarint(o, body.size(), extra() ? 1 : 0);
        out.push_back(o + body);
    }

    static void copyKey(const gp::Message &from, gp::Message *to, const FD *k) {
        const gp::Reflection *a = from.GetReflection(), *b = to->GetReflection();
        switch (k->cpp_type()) {
        case FD::CPPTYPE_INT32: b->SetInt32(to, k, a->GetInt32(from, k)); break;
        case FD::CPPTYPE_INT64: b->SetInt64(to, k, a->GetInt64(from, k)); break;
        case FD::CPPTYPE_UINT32: b->SetUInt32(to, k, a->GetUInt32(from, k)); break;
        case FD::CPPTYPE_UINT64: b->SetUInt64(to, k, a->GetUInt64(from, k)); break;
        case FD::CPPTYPE_BOOL: b->SetBool(to, k, a->GetBool(from, k)); break;
        default: b->SetString(to, k, a->GetString(from, k)); break;
        }
    }
    std::string message(const gp::Message &m, int depth) {
        const gp::Reflection *x = m.GetReflection();
        const gp::Descriptor *d = m.GetDescriptor();
        // per field: the pieces, which have to stay in this order; pieces of different fields may interleave
        std::vector<std::vector<std::string>> lanes;
        for (int fi = 0; fi < d->field_count(); ++fi) {
            const FD *f = d->field(fi);
            std::vector<std::string> lane;
            if (f->is_map()) {
                for (int i = 0, n = x->FieldSize(m, f); i < n; ++i) {
                    const gp::Message &e = x->GetRepeatedMessage(m, f, i);
                    if (s.duplicatePercent && r.chance(s.duplicatePercent)) {   // an entry overridden by the next one
                        std::unique_ptr<gp::Message> junk(e.New());
                        if (r.chance(70)) junk->CopyFrom(x->GetRepeatedMessage(m, f, int(r.below(uint64_t(n)))));
                        copyKey(e, junk.get(), f->message_type()->map_key());
                        chunk(lane, mapEntry(*junk, f, depth), f);
                        st->duplicates++;
                    }
                    chunk(lane, mapEntry(e, f, depth), f);
                }
            } else if (f->is_repeated()) {
                int n = x->FieldSize(m, f);
                if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                    for (int i = 0; i < n; ++i) {
                        chunk(lane, message(x->GetRepeatedMessage(m, f, i), depth + 1), f);
                    }
                } else if (wireOf(f) == 2) {
                    for (int i = 0; i < n; ++i) {
                        std::string o;
                        putTag(o, f->number(), 2);
                        scalar(o, m, f, i);
                        lane.push_back(o);
                    }
                } else {
                    int i = 0;
                    while (i < n) {
                        if (s.unpackPercent && r.chance(s.unpackPercent)) {
                            std::string o;
                            putTag(o, f->number(), wireOf(f));
                            scalar(o, m, f, i++);
                            lane.push_back(o);
                            st->unpacked++;
                        } else {
                            int k = n - i;
                            if (s.splitPackedPercent && r.chance(s.splitPackedPercent)) {
                                k = r.range(0, n - i);
                                st->split++;
                            }
                            std::string body;
                            for (; k > 0; --k) {
                                scalar(body, m, f, i++);
                            }
                            chunk(lane, body, f);
                        }
                    }
                }
            } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
                if (x->HasField(m, f)) {
                    const gp::Message &sub = x->GetMessage(m, f);
                    if (s.splitMessagePercent && r.chance(s.splitMessagePercent)) {
                        st->pieces++;
                        for (const auto &piece : pieces(sub, depth + 1)) {
                            chunk(lane, piece, f);
                        }
                    } else {
                        chunk(lane, message(sub, depth + 1), f);
                    }
                }
            } else {
                bool def = isDefaultText(scalarText(m, f, -1));
                if (!def || (s.emitDefaultPercent && r.chance(s.emitDefaultPercent))) {
                    if (def) st->defaults++;
                    if (s.duplicatePercent && r.chance(s.duplicatePercent)) {
                        std::string o;
                        putTag(o, f->number(), wireOf(f));
                        junkScalar(o, f);
                        lane.push_back(o);
                        st->duplicates++;
                    }
                    std::string o;
                    putTag(o, f->number(), wireOf(f));
                    scalar(o, m, f, -1);
                    lane.push_back(o);
                }
            }
            if (!lane.empty()) {
                lanes.push_back(lane);
            }
        }
        return weave(lanes, d, depth);
    }

    std::string weave(std::vector<std::vector<std::string>> &lanes, const gp::Descriptor *d, int depth) {
        std::string o;
        bool un = s.unknownPercent && (depth == 0 || s.unknownNested);
        if (!s.shuffle) {
            for (const auto &l : lanes) {
                for (const auto &p : l) {
                    if (un && r.chance(s.unknownPercent)) unknown(o, d);
                    o += p;
                }
            }
        } else {
            std::vector<size_t> pos(lanes.size(), 0);
            std::vector<size_t> alive;
            for (size_t i = 0; i < lanes.size(); ++i) alive.push_back(i);
            while (!alive.empty()) {
                size_t k = r.below(alive.size());
                size_t l = alive[k];
                if (un && r.chance(s.unknownPercent)) unknown(o, d);
                o += lanes[l][pos[l]++];
                if (pos[l] == lanes[l].size()) {
                    alive.erase(alive.begin() + long(k));
                }
            }
        }
        if (un && r.chance(s.unknownPercent)) unknown(o, d);
        return o;
    }

    std::string mapEntry(const gp::Message &e, const FD *f, int depth) {
        const FD *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
        bool odd = s.mapPercent && r.chance(s.mapPercent);
        if (odd) st->mapOdd++;
        std::string k, v;
        bool kdef = isDefaultText(scalarText(e, kf, -1));
        if (!kdef || !odd || r.chance(50)) {
            if (odd && r.chance(20)) {
                putTag(k, 1, wireOf(kf));
                junkScalar(k, kf);
            }
            putTag(k, 1, wireOf(kf));
            scalar(k, e, kf, -1);
        }
        if (vf->cpp_type() == FD::CPPTYPE_MESSAGE) {
            std::string b = message(e.GetReflection()->GetMessage(e, vf), depth + 1);
            if (!b.empty() || !odd || r.chance(50)) {
                putTag(v, 2, 2);
                putVarint(v, b.size());
                v += b;
            }
        } else {
            bool vdef = isDefaultText(scalarText(e, vf, -1));
            if (!vdef || !odd || r.chance(50)) {
                if (odd && r.chance(20)) {
                    putTag(v, 2, wireOf(vf));
                    junkScalar(v, vf);
                }
                putTag(v, 2, wireOf(vf));
                scalar(v, e, vf, -1);
            }
        }
        std::string u1, u2;
        if (s.unknownInMapEntry && r.chance(s.unknownInMapEntry)) unknown(u1, f->message_type());
        if (s.unknownInMapEntry && r.chance(s.unknownInMapEntry)) unknown(u2, f->message_type());
        return odd && r.chance(50) ? v + u1 + k + u2 : k + u1 + v + u2;
    }

    // a message cut into several messages whose merge is the message
    std::vector<std::string> pieces(const gp::Message &m, int depth) {
        const gp::Reflection *x = m.GetReflection();
        int n = r.range(2, 3);
        std::vector<std::unique_ptr<gp::Message>> parts;
        for (int i = 0; i < n; ++i) {
            parts.emplace_back(m.New());
        }
        std::vector<const FD *> fs;
        x->ListFields(m, &fs);
        for (const FD *f : fs) {
            std::unique_ptr<gp::Message> only(m.New());
            only->CopyFrom(m);
            for (const FD *g : fs) {
                if (g != f) only->GetReflection()->ClearField(only.get(), g);
            }
            parts[r.below(size_t(n))]->MergeFrom(*only);
        }
        std::vector<std::string> out;
        for (const auto &p : parts) {
            out.push_back(message(*p, depth));
        }
        return out;
    }
};

std::string encode(const gp::Message &m, Rng &r, const EncodeStyle &s, EncodeStats *st) {
    Encoder e{r, s, st};
    return e.message(m, 0);
}

}
