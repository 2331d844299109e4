// Monitors of generated message objects: value semantics, change notification, ownership of sub-messages.
#include <cstdio>
#include <algorithm>
#include <cstdlib>
#include <set>

#include <QCoreApplication>
#include <QMetaMethod>
#include <QMetaProperty>
#include <QPointer>
#include <QQmlEngine>
#include <sanitizer/lsan_interface.h>

#include "util.h"

using namespace vp;

namespace {

bool hasNan(const std::string &canonical) { return canonical.find("nan") != std::string::npos; }

GPtr value(Ctx &x, const TypeOps &t, Rng &r) {
    GPtr g = x.oracle.make(t.name);
    FillProfile p = randomProfile(r, g->GetDescriptor());
    p.budget = 300;
    if (r.below(12)) fill(g.get(), r, p);
    return g;
}
std::string read(Ctx &x, const TypeOps &t, const QObject *o) {
    GPtr g = x.oracle.make(t.name);
    t.store(o, g.get());
    return canon(*g);
}
GPtr snapshot(Ctx &x, const TypeOps &t, const QObject *o) {
    GPtr g = x.oracle.make(t.name);
    t.store(o, g.get());
    return g;
}
void copyField(const gp::Message &from, gp::Message *to, const gp::FieldDescriptor *f) {
    GPtr only(from.New());
    only->CopyFrom(from);
    for (int i = 0; i < f->containing_type()->field_count(); ++i) {
        if (f->containing_type()->field(i) != f) only->GetReflection()->ClearField(only.get(), f->containing_type()->field(i));
    }
    to->GetReflection()->ClearField(to, f);
    to->MergeFrom(*only);
    // merging does not carry singular scalars that have their default value: ClearField did it
}
std::string fieldCanon(const gp::Message &g, const gp::FieldDescriptor *f) {
    GPtr only(g.New());
    copyField(g, only.get(), f);
    return canon(*only);
}
const TypeOps *typeByMeta(const QMetaObject *m) {
    for (auto &t : types()) if (t.meta == m) return &t;
    return nullptr;
}
bool singularMessage(const gp::FieldDescriptor *f) { return !f->is_repeated() && f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE; }
bool messageContainer(const gp::FieldDescriptor *f) {
    if (!f->is_repeated()) return false;
    if (f->is_map()) return f->message_type()->map_value()->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE;
    return f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE;
}
// pointer to the sub-message a property holds
QObject *subObject(const QObject *o, const char *property) {
    QVariant v = o->property(property);
    if (v.userType() == QMetaType::UnknownType || !(QMetaType::typeFlags(v.userType()) & QMetaType::PointerToQObject)) return nullptr;
    return *static_cast<QObject *const *>(v.constData());
}
bool setSubObject(QObject *o, const char *property, QObject *sub) {
    int i = o->metaObject()->indexOfProperty(property);
    if (i < 0) return false;
    int type = o->metaObject()->property(i).userType();
    return o->setProperty(property, QVariant(type, &sub));
}

// ---------------------------------------------------------------- value semantics
// A pool of objects of one type, each with the value it has to have; random operations on them.
struct Item {
    Ptr obj;
    GPtr model;
    bool known = true;    // false: moved from, any value is right
};

void values(Ctx &x) {
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        std::string id = caseId("values", t, c), trace;
        std::vector<Item> pool;
        auto fresh = [&] {
            Item i;
            i.obj.reset(t.create());
            i.model = x.oracle.make(t.name);
            return i;
        };
        pool.push_back(fresh());
        int steps = 6 + int(r.below(16));
        bool bad = false;
        // Reading a sub-message creates it, so in half of the cases objects are compared without being read before the end.
        bool blind = r.chance(50);
        std::set<std::string> states;
        for (int s = 0; s < steps && !bad; ++s) {
            size_t a = r.below(pool.size()), b = r.below(pool.size());
            std::string op;
            int k = int(r.below(14));
            auto add = [&](QObject *o, const gp::Message &m, bool known = true) {
                Item i;
                i.obj.reset(o);
                i.model.reset(m.New());
                i.model->CopyFrom(m);
                i.known = known;
                pool.push_back(std::move(i));
            };
            if (pool.size() > 6) {
                pool.erase(pool.begin() + long(r.below(pool.size())));
                a = r.below(pool.size());
                b = r.below(pool.size());
            }
            current(id + " trace=" + trace);
            switch (k) {
            case 0: op = "default"; pool.push_back(fresh()); break;
            case 1: {
                op = "construct";
                GPtr g = value(x, t, r);
                int n = int(r.below(uint64_t(g->GetDescriptor()->field_count() + 1)));
                op += std::to_string(n);
                QObject *o = t.construct ? t.construct(*g, n) : nullptr;
                if (o) {
                    GPtr m = x.oracle.make(t.name);
                    for (int i = 0; i < n; ++i) copyField(*g, m.get(), g->GetDescriptor()->field(i));
                    add(o, *m);
                }
                break;
            }
            case 2: op = "copy"; if (pool[a].known) add(t.copy(pool[a].obj.get()), *pool[a].model); break;
            case 3: op = "assign"; t.assign(pool[a].obj.get(), pool[b].obj.get());
                if (a != b) { pool[a].model->CopyFrom(*pool[b].model); pool[a].known = pool[b].known; }
                break;
            case 4: op = "move"; { QObject *o = t.move(pool[a].obj.get()); add(o, *pool[a].model, pool[a].known); pool[a].known = false; } break;
            case 5: op = "moveassign"; if (a != b) {
                    t.moveAssign(pool[a].obj.get(), pool[b].obj.get());
                    pool[a].model->CopyFrom(*pool[b].model);
                    pool[a].known = pool[b].known;
                    pool[b].known = false;
                } break;
            case 6: case 7: {
                op = "load";
                GPtr g = value(x, t, r);
                t.load(*g, pool[a].obj.get());   // every setter: also brings a moved-from object back
                pool[a].model->CopyFrom(*g);
                pool[a].known = true;
                break;
            }
            case 8: case 9: {
                if (t.fields.empty()) break;
                const FieldOps &f = t.fields[r.below(t.fields.size())];
                const gp::FieldDescriptor *d = pool[a].model->GetDescriptor()->FindFieldByNumber(f.number);
                GPtr g = value(x, t, r);
                if (k == 8) {
                    op = std::string("set:") + f.name;
                    f.set(pool[a].obj.get(), *g);
                } else {
                    op = std::string("prop:") + f.name;
                    if (!pool[a].obj->setProperty(f.property, f.variant(*g))) {
                        result.violation("setProperty " + t.name + " " + f.name, "the property does not take a value of its type", id);
                        bad = true;
                    }
                }
                copyField(*g, pool[a].model.get(), d);
                break;
            }
            case 10: {   // change a sub-message in place: nobody else may see it
                std::vector<const FieldOps *> subs;
                for (auto &f : t.fields) if (singularMessage(pool[a].model->GetDescriptor()->FindFieldByNumber(f.number))) subs.push_back(&f);
                if (subs.empty() || !pool[a].known) break;
                const FieldOps &f = *subs[r.below(subs.size())];
                const gp::FieldDescriptor *d = pool[a].model->GetDescriptor()->FindFieldByNumber(f.number);
                QObject *sub = subObject(pool[a].obj.get(), f.property);
                const TypeOps *st = sub ? typeByMeta(sub->metaObject()) : nullptr;
                if (!st || st->fields.empty()) break;
                op = std::string("in:") + f.name;
                const FieldOps &sf = st->fields[r.below(st->fields.size())];
                GPtr g = value(x, *st, r);
                sf.set(sub, *g);
                gp::Message *sm = pool[a].model->GetReflection()->MutableMessage(pool[a].model.get(), d);
                copyField(*g, sm, sm->GetDescriptor()->FindFieldByNumber(sf.number));
                break;
            }
            case 12: case 13: {   // reading changes nothing
                if (t.fields.empty()) break;
                const FieldOps &f = t.fields[r.below(t.fields.size())];
                op = std::string("read:") + f.name;
                pool[a].obj->property(f.property);
                break;
            }
            case 11: {   // through the wire into an object in use
                if (!pool[b].known) break;
                op = "transfer";
                QByteArray data = t.serialize(pool[b].obj.get(), &x.ser);
                Outcome o = tryDeserialize(t, pool[a].obj.get(), x, data);
                if (o.threw) {
                    result.violation("transfer " + t.name, "own data rejected: " + o.what, id + " trace=" + trace);
                    bad = true;
                    break;
                }
                if (a != b) pool[a].model->CopyFrom(*pool[b].model);
                pool[a].known = true;
                break;
            }
            }
            if (op.empty()) continue;
            trace += op + "(" + std::to_string(a) + "," + std::to_string(b) + ") ";
            result.count("op_" + op.substr(0, op.find_first_of(":0123456789")));
            result.evaluations++;
            current(id + " trace=" + trace + "(judging)");
            std::vector<std::string> cs;
            for (auto &i : pool) {
                if (!i.known) {
                    cs.push_back("?");
                    continue;
                }
                std::string w = canon(*i.model);
                if (blind && s + 1 < steps) {
                    cs.push_back(w);
                    continue;
                }
                GPtr got = snapshot(x, t, i.obj.get());
                std::string g = canon(*got);
                if (w != g) {
                    result.violation("value after " + op.substr(0, op.find_first_of(":0123456789")) + " " + t.name + " " + differingField(*i.model, *got),
                                     "object " + std::to_string(cs.size()) + " has another value: " + diff(w, g), id + " trace=" + trace);
                    bad = true;
                }
                cs.push_back(w);
            }
            if (blind && s + 1 == steps) blind = false;
            for (size_t i = 0; i < pool.size() && !bad; ++i) {
                for (size_t j = 0; j < pool.size(); ++j) {
                    if (blind) result.count("pairs_compared_unread");
                    if (!pool[i].known || !pool[j].known || hasNan(cs[i]) || hasNan(cs[j])) continue;
                    bool eq = t.equal(pool[i].obj.get(), pool[j].obj.get()), ne = t.notEqual(pool[i].obj.get(), pool[j].obj.get());
                    bool want = cs[i] == cs[j];
                    result.count(want ? "equal_pairs" : "different_pairs");
                    if (eq != want || ne == eq) {
                        result.violation("equality " + t.name + (want ? " equal" : " different " + differingField(*pool[i].model, *pool[j].model)),
                                         std::string("== says ") + (eq ? "true" : "false") + ", != says " + (ne ? "true" : "false") + " for " + shortText(cs[i]) + " and " + shortText(cs[j]),
                                         id + " trace=" + trace);
                        bad = true;
                        break;
                    }
                }
            }
            std::string st;
            for (auto &s2 : cs) st += s2 + "|";
            states.insert(st);
        }
        for (auto &s : states) result.nontrivial(t.name + s);
        result.see("types", t.name);
        result.sample(t.name + " " + trace);
    }
    // nested comparison must stay cheap: unequal chains, the deepest pair of fields differs
    // (handled by the chain types above: time out means exponential behaviour)
}

// ---------------------------------------------------------------- change notification
class Spy : public QObject {
public:
    struct Event { int signal; };
    std::vector<Event> events;
    std::function<void(int)> onEvent;
    void watch(QObject *o) {
        for (int i = o->metaObject()->methodOffset(); i < o->metaObject()->methodCount(); ++i) {
            if (o->metaObject()->method(i).methodType() == QMetaMethod::Signal) {
                QMetaObject::connect(o, i, this, QObject::staticMetaObject.methodCount() + i);
            }
        }
    }
    int qt_metacall(QMetaObject::Call call, int id, void **a) override {
        id = QObject::qt_metacall(call, id, a);
        if (id < 0 || call != QMetaObject::InvokeMetaMethod) return id;
        events.push_back({id});
        if (onEvent) onEvent(id);
        return -1;
    }
};

void notify(Ctx &x) {
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000039 + uint64_t(c));
        const TypeOps &t = pickType(r, c);
        if (t.fields.empty()) continue;
        Ptr obj(t.create()), other(t.create());
        GPtr start = value(x, t, r);
        t.load(*start, obj.get());
        Spy spy;
        std::map<int, const FieldOps *> bySignal;
        for (auto &f : t.fields) {
            int i = obj->metaObject()->indexOfSignal((std::string(f.signal) + "()").c_str());
            int p = obj->metaObject()->indexOfProperty(f.property);
            if (i < 0 || p < 0 || obj->metaObject()->property(p).notifySignalIndex() != i) {
                result.violation("signal " + t.name + " " + f.name, "the property has no change signal of that name", caseId("notify", t, c));
                continue;
            }
            bySignal[i] = &f;
        }
        spy.watch(obj.get());
        int steps = 4 + int(r.below(8));
        std::string id = caseId("notify", t, c), trace;
        for (int s = 0; s < steps && !result.tooMany(); ++s) {
            GPtr before = snapshot(x, t, obj.get());
            GPtr g;
            // targets near the present value, so that single fields stay as they are
            if (r.below(3)) {
                g.reset(before->New());
                g->CopyFrom(*before);
                GPtr v = value(x, t, r);
                for (int n = 1 + int(r.below(3)); n > 0; --n) {
                    copyField(*v, g.get(), g->GetDescriptor()->field(int(r.below(uint64_t(g->GetDescriptor()->field_count())))));
                }
            } else {
                g = value(x, t, r);
            }
            spy.events.clear();
            std::map<int, std::string> lastSeen;
            spy.onEvent = [&](int i) {
                auto it = bySignal.find(i);
                if (it == bySignal.end()) return;
                GPtr now = x.oracle.make(t.name);
                it->second->get(obj.get(), now.get());
                lastSeen[i] = canon(*now);
            };
            std::string op;
            int k = int(r.below(8));
            const FieldOps *one = nullptr;
            bool pointerWrite = false, source = false;
            current(id + " trace=" + trace);
            if (k == 0) {
                op = "load";
                t.load(*g, obj.get());
            } else if (k == 1) {
                op = "assign";
                t.load(*g, other.get());
                t.assign(obj.get(), other.get());
            } else if (k == 2) {
                op = "moveassign";
                other.reset(t.create());
                t.load(*g, other.get());
                // the object moved from is an object with listeners like any other
                Spy from;
                GPtr had = snapshot(x, t, other.get());
                std::map<int, std::string> seen;
                from.watch(other.get());
                from.onEvent = [&](int i) {
                    auto it = bySignal.find(i);
                    if (it == bySignal.end()) return;
                    GPtr now = x.oracle.make(t.name);
                    it->second->get(other.get(), now.get());
                    seen[i] = canon(*now);
                };
                t.moveAssign(obj.get(), other.get());
                from.onEvent = nullptr;
                GPtr has = snapshot(x, t, other.get());
                for (auto &bs : bySignal) {
                    const gp::FieldDescriptor *d = has->GetDescriptor()->FindFieldByNumber(bs.second->number);
                    std::string was = fieldCanon(*had, d), is = fieldCanon(*has, d), key = "moved from " + t.name + " " + bs.second->name;
                    if (was == is) continue;
                    result.count("changes_of_source");
                    if (!seen.count(bs.first)) result.violation("silent " + key, "the value changed without its signal: " + shortText(was) + " -> " + shortText(is), id + " trace=" + trace);
                    else if (seen[bs.first] != is) result.violation("early " + key, "a receiver of the last signal reads " + shortText(seen[bs.first]) + " instead of " + shortText(is), id + " trace=" + trace);
                }
            } else if (k == 7) {
                op = "moveaway";
                source = true;
                Ptr taken(t.move(obj.get()));
                g = snapshot(x, t, obj.get());
            } else if (k == 3) {
                op = "deserialize";
                t.load(*g, other.get());
                QByteArray data = t.serialize(other.get(), &x.ser);
                tryDeserialize(t, obj.get(), x, data);
            } else if (k == 4) {
                op = "self";
                t.assign(obj.get(), obj.get());
                g->CopyFrom(*before);
            } else {
                one = &t.fields[r.below(t.fields.size())];
                GPtr after(before->New());
                after->CopyFrom(*before);
                copyField(*g, after.get(), g->GetDescriptor()->FindFieldByNumber(one->number));
                if (k == 5) {
                    op = std::string("set:") + one->name;
                    one->set(obj.get(), *g);
                } else {
                    op = std::string("prop:") + one->name;
                    pointerWrite = true;
                    obj->setProperty(one->property, one->variant(*g));
                }
                g = std::move(after);
            }
            spy.onEvent = nullptr;
            trace += op + " ";
            std::string kind = op.substr(0, op.find(':'));
            result.evaluations++;
            result.count("op_" + kind);
            std::map<int, int> n;
            for (auto &e : spy.events) n[e.signal]++;
            for (auto &bs : bySignal) {
                const FieldOps &f = *bs.second;
                const gp::FieldDescriptor *d = before->GetDescriptor()->FindFieldByNumber(f.number);
                std::string was = fieldCanon(*before, d), is = fieldCanon(*g, d);
                int got = n.count(bs.first) ? n[bs.first] : 0;
                result.count("signals", got);
                std::string key = kind + " " + t.name + " " + f.name;
                if (was != is) {
                    result.count("changes");
                    result.nontrivial(key + was + ">" + is);
                    if (got == 0) {
                        result.violation("silent " + key, "the value changed without its signal: " + shortText(was) + " -> " + shortText(is), id + " trace=" + trace);
                    } else if (lastSeen[bs.first] != is) {
                        result.violation("early " + key, "a receiver of the last signal reads " + shortText(lastSeen[bs.first]) + " instead of " + shortText(is), id + " trace=" + trace);
                    } else if (got > 1 && kind != "load") {
                        result.violation("repeated " + key, "one change, " + std::to_string(got) + " signals", id + " trace=" + trace);
                    }
                } else if (got > 0 && !source && !hasNan(was) && !messageContainer(d) && !(pointerWrite && singularMessage(d))) {
                    // containers of messages are compared by identity, and a new sub-object is a change of the property
                    result.violation("spurious " + key, "signal without a change, the value is " + shortText(was), id + " trace=" + trace);
                } else {
                    result.count("unchanged");
                }
            }
            result.sample(t.name + " " + trace);
            result.see("types", t.name);
        }
    }
}

// ---------------------------------------------------------------- ownership of sub-messages
struct Sub {
    QPointer<QObject> watch;
    bool js = false;
    bool collected = false;
};
struct Owner {
    Ptr obj;
    std::map<std::string, int> held;   // property -> index of the sub-object it was given
};

void ownership(Ctx &x) {
    std::vector<const TypeOps *> ts;
    for (auto &t : types()) {
        GPtr g = x.oracle.make(t.name);
        for (int i = 0; i < g->GetDescriptor()->field_count(); ++i) {
            if (singularMessage(g->GetDescriptor()->field(i))) {
                ts.push_back(&t);
                break;
            }
        }
    }
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000081 + uint64_t(c));
        const TypeOps &t = *ts[r.below(ts.size())];
        std::string id = caseId("ownership", t, c), trace;
        GPtr proto = x.oracle.make(t.name);
        std::vector<const FieldOps *> subs;
        for (auto &f : t.fields) if (singularMessage(proto->GetDescriptor()->FindFieldByNumber(f.number))) subs.push_back(&f);
        std::vector<Owner> owners(2);
        for (auto &o : owners) o.obj.reset(t.create());
        std::vector<Sub> all;
        int steps = 6 + int(r.below(20));
        bool bad = false;
        auto fail = [&](const std::string &what, const std::string &text) {
            result.violation(what + " " + t.name, text, id + " trace=" + trace);
            bad = true;
        };
        for (int s = 0; s < steps && !bad; ++s) {
            Owner &o = owners[r.below(owners.size())];
            const FieldOps &f = *subs[r.below(subs.size())];
            std::string op;
            current(id + " trace=" + trace);
            switch (r.below(10)) {
            case 0: case 1: case 2: {   // hand a sub-message over
                QObject *present = subObject(o.obj.get(), f.property);
                const TypeOps *st = present ? typeByMeta(present->metaObject()) : nullptr;
                if (!st) {
                    fail("property", std::string("cannot read ") + f.property);
                    break;
                }
                bool js = r.below(3) == 0;
                op = std::string(js ? "attachjs:" : "attach:") + f.name;
                QObject *n = st->create();
                GPtr g = value(x, *st, r);
                st->load(*g, n);
                QQmlEngine::setObjectOwnership(n, js ? QQmlEngine::JavaScriptOwnership : QQmlEngine::CppOwnership);
                Sub sub;
                sub.watch = n;
                sub.js = js;
                all.push_back(sub);
                setSubObject(o.obj.get(), f.property, n);
                if (subObject(o.obj.get(), f.property) != n) fail("attach", "the property does not hold the object it was given");
                else if (read(x, *st, n) != canon(*g)) fail("attachvalue", "value changed on hand over");
                break;
            }
            case 3: {   // the script engine collects an object it owns
                if (!o.held.count(f.name)) break;
                Sub &sub = all[size_t(o.held[f.name])];
                if (!sub.js || !sub.watch) break;
                op = std::string("collect:") + f.name;
                sub.collected = true;
                QObject *gone = sub.watch.data();
                const TypeOps *st = typeByMeta(gone->metaObject());
                delete gone;
                QObject *now = subObject(o.obj.get(), f.property);
                if (!now || !read(x, *st, now).empty()) fail("collected", "after the object is gone the field is not at its default");
                break;
            }
            case 4: {
                op = std::string("null:") + f.name;
                setSubObject(o.obj.get(), f.property, nullptr);
                QObject *now = subObject(o.obj.get(), f.property);
                const TypeOps *st = now ? typeByMeta(now->metaObject()) : nullptr;
                if (!st || !read(x, *st, now).empty()) fail("reset", "a field reset to null is not at its default");
                break;
            }
            case 5: {   // copies do not share sub-messages
                op = "assign";
                Owner &p = owners[r.below(owners.size())];
                t.assign(o.obj.get(), p.obj.get());
                if (&p != &o) {
                    for (auto sf : subs) {
                        if (subObject(o.obj.get(), sf->property) == subObject(p.obj.get(), sf->property)) fail("shared", std::string("two messages hold the same sub-message in ") + sf->property);
                    }
                }
                break;
            }
            case 6: {
                bool mv = r.below(2);
                op = mv ? "moveassign" : "copy";
                Owner &p = owners[r.below(owners.size())];
                if (mv) {
                    if (&p != &o) {
                        t.moveAssign(o.obj.get(), p.obj.get());
                        for (auto sf : subs) {
                            if (subObject(o.obj.get(), sf->property) == subObject(p.obj.get(), sf->property)) fail("shared", std::string("two messages hold the same sub-message in ") + sf->property);
                        }
                    }
                } else {
                    Ptr copy(t.copy(o.obj.get()));
                    for (auto sf : subs) {
                        if (subObject(o.obj.get(), sf->property) == subObject(copy.get(), sf->property)) fail("shared", std::string("a copy holds the same sub-message in ") + sf->property);
                    }
                }
                break;
            }
            case 7: {
                op = "destroy";
                o.obj.reset();
                o.obj.reset(t.create());
                break;
            }
            case 9: {   // the object the field already holds, given to it again
                QPointer<QObject> present = subObject(o.obj.get(), f.property);
                const TypeOps *st = present ? typeByMeta(present->metaObject()) : nullptr;
                if (!st) break;
                op = std::string("again:") + f.name;
                std::string before = read(x, *st, present.data());
                setSubObject(o.obj.get(), f.property, present.data());
                if (!present) fail("again", "the sub-message was destroyed when it was written to its own field again");
                else if (subObject(o.obj.get(), f.property) != present) fail("again", "the field holds another object after its own was written to it again");
                else if (read(x, *st, present.data()) != before) fail("again", "the value changed when the object was written to its own field again");
                break;
            }
            case 8: {
                op = "deserialize";
                Owner &p = owners[r.below(owners.size())];
                QByteArray data = t.serialize(p.obj.get(), &x.ser);
                tryDeserialize(t, o.obj.get(), x, data);
                break;
            }
            }
            if (op.empty()) continue;
            trace += op + " ";
            result.count("op_" + op.substr(0, op.find(':')));
            result.evaluations++;
            // who holds which of the objects handed over now (values may be copied in place or replaced, that is free)
            for (auto &w : owners) {
                w.held.clear();
                for (auto sf : subs) {
                    QObject *q = subObject(w.obj.get(), sf->property);
                    for (size_t i = 0; i < all.size(); ++i) if (all[i].watch && all[i].watch == q) w.held[sf->name] = int(i);
                }
            }
            for (size_t i = 0; i < all.size() && !bad; ++i) {
                int holders = 0;
                for (auto &w : owners) for (auto &h : w.held) holders += h.second == int(i);
                if (holders > 1) fail("shared", "two fields hold the same sub-message");
                // dropped by every message: one the script engine does not own must be gone, one it owns must be there
                if (holders == 0 && !all[i].js && all[i].watch) fail("survived", "a sub-message is alive though no message holds it any more");
                if (all[i].js && !all[i].watch && !all[i].collected) fail("died", "an object owned by the script engine was deleted by somebody else");
            }
        }
        // js objects must have survived everything but the collection itself
        for (auto &sub : all) {
            if (sub.js && sub.watch) {
                delete sub.watch.data();
                result.count("js_collected_at_end");
            }
        }
        owners.clear();
        for (auto &sub : all) {
            if (sub.watch) result.violation("leaked " + t.name, "a sub-message outlived every message", id + " trace=" + trace);
        }
        result.nontrivial(t.name + trace);
        result.sample(t.name + " " + trace);
        result.see("types", t.name);
    }
    if (__lsan_do_recoverable_leak_check()) result.violation("leak", "memory leaked", "ownership seed=" + std::to_string(options.seed));
}

}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    parseOptions(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) { result.count("log_lines"); });
    registerAll();
    {
        Ctx x(options.desc);
        if (options.mode == "values") values(x);
        else if (options.mode == "notify") notify(x);
        else if (options.mode == "ownership") ownership(x);
        else return 3;
    }
    result.count("finished");
    result.write(options.out);
    return 0;
}
