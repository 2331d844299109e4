// Shared machinery of the monitors: seeded randomness, the google::protobuf oracle, canonical values,
// the record of what was observed (written as JSON), and the "case in progress" record for crash reports.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <google/protobuf/descriptor.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/message.h>

namespace gp = google::protobuf;

namespace vp {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }   // inclusive
    bool chance(int percent) { return below(100) < uint64_t(percent); }
    template<class C> const typename C::value_type &pick(const C &c) { return c[below(c.size())]; }
};

uint64_t hash64(const std::string &s);
std::string hex(const std::string &s);
std::string unhex(const std::string &s);

// ---------------------------------------------------------------- command line and results
struct Options {
    std::string mode, out, desc, current, replay, extra;
    uint64_t seed = 1;
    long cases = 100;
    int shard = 0, shards = 1;
    bool thorough = false;
    std::map<std::string, std::string> more;
};
Options parseOptions(int argc, char **argv);

class Result {
public:
    std::map<std::string, long> counters;
    std::map<std::string, std::set<std::string>> sets;   // named sets of distinct things seen (kept small)
    std::unordered_set<uint64_t> distinct;               // hashes of the distinct non-trivial cases
    std::vector<std::string> samples;
    struct Violation { std::string key, what, input; };
    std::vector<Violation> violations;
    long evaluations = 0;

    void count(const std::string &name, long n = 1) { counters[name] += n; }
    void see(const std::string &set, const std::string &what) { if (sets[set].size() < 4096) sets[set].insert(what); }
    void sample(const std::string &s) { if (samples.size() < 3 || getenv("VP_ALL")) samples.push_back(s.substr(0, 600)); }
    void nontrivial(const std::string &s) { distinct.insert(hash64(s)); }
    // key identifies the kind of failure (stable between runs), what is for people, input replays the case
    void violation(const std::string &key, const std::string &what, const std::string &input = std::string());
    bool tooMany() const { return violations.size() >= 20; }
    void write(const std::string &path) const;
};
extern Result result;
extern Options options;

// the case in progress, kept in a shared mapping so that it survives a crash of this process
void current(const std::string &text);

// ---------------------------------------------------------------- oracle
class Oracle {
public:
    explicit Oracle(const std::string &descriptorSetFile);
    const gp::Descriptor *type(const std::string &name) const;
    std::unique_ptr<gp::Message> make(const std::string &name) const;
    gp::DescriptorPool pool;
private:
    mutable gp::DynamicMessageFactory factory;
};

// canonical text of a value: field number order, floats by bits (all NaN alike), a sub-message without content
// counts as absent, map entries sorted by key (last one wins), enum values as numbers
std::string canon(const gp::Message &m);
int countFields(const gp::Message &m);

struct FillProfile {
    int setPercent = 60;      // chance that a field is set
    int maxDepth = 4;
    int bigPercent = 3;       // chance of a big string / list
    int boundary = 50;        // chance of a boundary scalar
    bool nul = true, bom = true;
    int only = 0;             // only this top-level field number
    long budget = 4000;       // elements in total
};
FillProfile randomProfile(Rng &r, const gp::Descriptor *d);
void fill(gp::Message *m, Rng &r, FillProfile &p, int depth = 0);
std::string randomUtf8(Rng &r, FillProfile &p);
std::string randomBytes(Rng &r, int n);
int64_t boundaryInt64(Rng &r);

// ---------------------------------------------------------------- alternative valid encodings
struct EncodeStyle {
    bool shuffle = false;        // any order of fields
    int unpackPercent = 0;       // repeated numeric: elements one by one / several packed chunks
    int splitPackedPercent = 0;
    int overlongPercent = 0;     // non-minimal varints
    int duplicatePercent = 0;    // an earlier, overridden copy of a singular scalar
    int splitMessagePercent = 0; // singular sub-message in several pieces, to be merged
    int emitDefaultPercent = 0;  // default valued scalars written out
    int mapPercent = 0;          // map entries: value first, default key / value left out, key twice
    int unknownPercent = 0;      // unknown fields in between, at every level
    int unknownInMapEntry = 0;   // same, inside map entries
    int unknownNested = 0;
};
struct EncodeStats { long unknown = 0, overlong = 0, unpacked = 0, split = 0, duplicates = 0, pieces = 0, mapOdd = 0, defaults = 0; };
std::string encode(const gp::Message &m, Rng &r, const EncodeStyle &s, EncodeStats *st);
void putVarint(std::string &o, uint64_t v, int extra = 0);
void putTag(std::string &o, int number, int wire);

}
