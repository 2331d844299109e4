// P11: messages and serializers used by several threads at once, each thread with messages of its own. ThreadSanitizer watches;
// every result is compared with the one computed by a single thread.
#include <array>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <QCoreApplication>
#include <QThread>
#include "util.h"
#include "qabstractprotobufserializer_p.h"

using namespace vp;

namespace {
struct Item { const TypeOps *t; std::string wire, canonical; QByteArray own; };

struct Log {   // what a thread observed, merged afterwards
    long ops = 0, shared = 0, copies = 0, errors = 0, registrations = 0;
    std::vector<std::array<std::string, 3>> failures;
    void fail(const std::string &k, const std::string &w, const std::string &id) { if (failures.size() < 5) failures.push_back({k, w, id}); }
};

std::atomic<int> ready{0};
std::atomic<bool> go{false};
std::atomic<int> active{0}, maxActive{0};
std::vector<Item> items;

void meet(int n) {
    ++ready;
    while (!go.load()) std::this_thread::yield();
    (void)n;
}

void work(int index, uint64_t seed, int rounds, QtProtobuf::QProtobufSerializer *shared, const std::vector<std::unique_ptr<QObject>> *masters, Log *log) {
    Rng r(seed);
    meet(index);
    int a = ++active;
    for (int m = maxActive.load(); a > m && !maxActive.compare_exchange_weak(m, a);) {}
    std::unique_ptr<QtProtobuf::QProtobufSerializer> mine;
    for (int k = 0; k < rounds; ++k) {
        if (!mine || r.chance(10)) mine.reset(new QtProtobuf::QProtobufSerializer);
        bool useShared = shared && r.chance(40);
        QtProtobuf::QProtobufSerializer *s = useShared ? shared : mine.get();
        log->shared += useShared;
        const size_t i = r.below(items.size());
        const Item &it = items[i];
        std::string id = "thread=" + std::to_string(index) + " round=" + std::to_string(k) + " type=" + it.t->name;
        try {
            switch (r.below(5)) {
            case 0: case 1: {   // read, write, compare
                Ptr o(it.t->create());
                it.t->deserialize(o.get(), s, bytes(it.wire));
                QByteArray b = it.t->serialize(o.get(), s);
                if (b != it.own) log->fail("serialized differently " + it.t->name, str(b.toHex()).substr(0, 300), id);
                Ptr p(it.t->create());
                it.t->deserialize(p.get(), s, b);
                if (it.t->serialize(p.get(), s) != it.own) log->fail("read differently " + it.t->name, "", id);
                break;
            }
            case 2: {   // copies whose strings, lists and shared list elements are shared with those of other threads
                if (!masters) break;
                Ptr o(it.t->copy((*masters)[size_t(index) * items.size() + i].get()));
                ++log->copies;
                QByteArray b = it.t->serialize(o.get(), s);
                if (b != it.own) log->fail("copy serialized differently " + it.t->name, "", id);
                Ptr p(it.t->create());
                it.t->assign(p.get(), o.get());
                o.reset();
                if (it.t->serialize(p.get(), s) != it.own) log->fail("assigned copy differs " + it.t->name, "", id);
                break;
            }
            case 3: {   // malformed input in one thread must not disturb the others
                Ptr o(it.t->create());
                std::string bad = it.wire.substr(0, it.wire.size() / 2) + "\x0f\xff\xff";
                try { it.t->deserialize(o.get(), s, bytes(bad)); } catch (const std::exception &) { ++log->errors; }
                break;
            }
            default: {
                Ptr o(it.t->create()), p;
                it.t->deserialize(o.get(), s, bytes(it.wire));
                p.reset(it.t->move(o.get()));
                if (it.t->serialize(p.get(), s) != it.own) log->fail("moved message differs " + it.t->name, "", id);
            }
            }
        } catch (const std::exception &e) {
            log->fail("exception " + it.t->name, e.what(), id);
        }
        ++log->ops;
        if (r.chance(10)) std::this_thread::yield();
    }
    --active;
}

// handlers may be registered (a library loaded later) while others are used
void registering(uint64_t seed, std::atomic<bool> *stop, Log *log) {
    Rng r(seed);
    meet(-1);
    int n = 0;
    while (!stop->load()) {
        QtProtobufPrivate::registerHandler(1000000 + n++ % 5000, {
            [](const QtProtobuf::QAbstractProtobufSerializer *, const QVariant &, const QtProtobuf::QProtobufMetaProperty &, QByteArray &) {},
            [](const QtProtobuf::QAbstractProtobufSerializer *, QtProtobuf::QProtobufSelfcheckIterator &, QVariant &) {}, QtProtobufPrivate::ObjectHandler});
        ++log->registrations;
        if (QtProtobufPrivate::findHandler(1000000 + (n - 1) % 5000).serializer == nullptr) log->fail("registered handler not found", "", "registration " + std::to_string(n));
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    }
}

bool sharesElements(const gp::Descriptor *d, std::set<const gp::Descriptor *> &seen) {
    if (!seen.insert(d).second) return false;
    for (int i = 0; i < d->field_count(); ++i) {
        auto f = d->field(i);
        if (f->cpp_type() != gp::FieldDescriptor::CPPTYPE_MESSAGE) continue;
        if (f->is_map()) {
            if (f->message_type()->field(1)->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) return true;
        } else if (f->is_repeated() || sharesElements(f->message_type(), seen)) {
            return true;
        }
    }
    return false;
}

void experiment(const Oracle &o, long c) {
    Rng r(options.seed * 7919 + uint64_t(c));
    const int threads = r.range(2, 8);
    // what a single thread would do is computed without the library where possible, and with it after the experiment otherwise,
    // so that the threads are the first users of the serializer in this process
    items.clear();
    std::vector<GPtr> values;
    for (int i = 0, n = r.range(4, 12); i < n; ++i) {
        const TypeOps &t = pickType(r, r.range(0, 100));
        GPtr g = o.make(t.name);
        FillProfile p = randomProfile(r, g->GetDescriptor());
        p.budget = 60;
        fill(g.get(), r, p);
        Item it{&t, std::string(), canon(*g), QByteArray()};
        EncodeStyle st;
        EncodeStats stats;
        it.wire = encode(*g, r, st, &stats);
        items.push_back(it);
        values.push_back(std::move(g));
        result.nontrivial(t.name + it.canonical);
        result.see("types", t.name);
    }
    std::string id = "conc seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
    current(id);
    const bool first = c == 0 && options.shard % 3;
    std::unique_ptr<QtProtobuf::QProtobufSerializer> shared;
    std::vector<std::unique_ptr<QObject>> masters;
    if (first) {
        // first use: no serializer exists yet, the threads create theirs at the same moment and compare the results among themselves
        ready = 0;
        go = false;
        std::vector<QByteArray> got(size_t(threads) * items.size());
        std::vector<std::thread> ts;
        std::vector<std::string> what(static_cast<size_t>(threads));
        for (int t = 0; t < threads; ++t) {
            uint64_t pause = r.below(3) ? 0 : r.below(20000);
            ts.emplace_back([&, t, pause] {
                meet(t);
                for (volatile uint64_t k = 0; k < pause; k = k + 1) {}
                try {
                    QtProtobuf::QProtobufSerializer s;
                    for (size_t i = 0; i < items.size(); ++i) {
                        size_t k = (i + size_t(t)) % items.size();
                        Ptr m(items[k].t->create());
                        items[k].t->deserialize(m.get(), &s, bytes(items[k].wire));
                        got[size_t(t) * items.size() + k] = items[k].t->serialize(m.get(), &s);
                    }
                } catch (const std::exception &e) {
                    what[size_t(t)] = e.what();
                }
            });
        }
        while (ready.load() < threads) std::this_thread::yield();
        go = true;
        for (auto &t : ts) t.join();
        for (int t = 0; t < threads; ++t) {
            if (!what[size_t(t)].empty()) result.violation("first use from several threads: exception", what[size_t(t)], id);
            for (size_t i = 0; i < items.size(); ++i) {
                auto g = o.make(items[i].t->name);
                const QByteArray &b = got[size_t(t) * items.size() + i];
                if (what[size_t(t)].empty() && (!g->ParseFromArray(b.constData(), b.size()) || canon(*g) != items[i].canonical))
                    result.violation("first use from several threads: " + items[i].t->name, "expected " + shortText(items[i].canonical) + " got " + shortText(canon(*g)), id);
            }
        }
        result.count("first_uses_by_several_threads");
    }
    {
        QtProtobuf::QProtobufSerializer s;
        for (auto &it : items) {
            Ptr m(it.t->create());
            it.t->deserialize(m.get(), &s, bytes(it.wire));
            it.own = it.t->serialize(m.get(), &s);
        }
        // each thread has messages of its own, copied from one original: strings, byte arrays, lists and maps are implicitly shared
        // (not list elements that are messages: copies refer to the same elements by design, these are not a thread's own)
        std::vector<Ptr> originals;
        for (auto &it : items) {
            originals.emplace_back(it.t->create());
            it.t->deserialize(originals.back().get(), &s, bytes(it.wire));
        }
        for (int t = 0; t < threads; ++t) {
            for (size_t i = 0; i < items.size(); ++i) {
                auto &it = items[i];
                std::set<const gp::Descriptor *> seen;
                if (sharesElements(values[i]->GetDescriptor(), seen)) {
                    masters.emplace_back(it.t->create());
                    it.t->deserialize(masters.back().get(), &s, bytes(it.wire));
                } else {
                    masters.emplace_back(it.t->copy(originals[i].get()));
                    result.count("masters_with_shared_data");
                }
            }
        }
        if (r.chance(60)) shared.reset(new QtProtobuf::QProtobufSerializer);
    }
    ready = 0;
    go = false;
    maxActive = 0;
    std::vector<Log> logs(static_cast<size_t>(threads) + 1);
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    bool reg = r.chance(50);
    for (int t = 0; t < threads; ++t) ts.emplace_back(work, t, r.next(), options.thorough ? 300 : 60, shared.get(), &masters, &logs[size_t(t)]);
    std::thread registrar;
    if (reg) registrar = std::thread(registering, r.next(), &stop, &logs.back());
    while (ready.load() < threads + (reg ? 1 : 0)) std::this_thread::yield();
    go = true;
    for (auto &t : ts) t.join();
    stop = true;
    if (reg) registrar.join();
    for (auto &l : logs) {
        result.count("operations", l.ops);
        result.count("operations_with_shared_serializer", l.shared);
        result.count("copies_of_shared_data", l.copies);
        result.count("rejected_inputs", l.errors);
        result.count("handlers_registered_meanwhile", l.registrations);
        for (auto &f : l.failures) result.violation("concurrent use: " + f[0], f[1], id + " " + f[2]);
    }
    result.see("threads_at_once", std::to_string(maxActive.load()));
    result.count("experiments");
    ++result.evaluations;
}
}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    parseOptions(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    registerAll();
    Oracle o(options.desc);
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) experiment(o, c);
    result.count("finished");
    result.write(options.out);
    current("after the last case");
    return 0;
}
