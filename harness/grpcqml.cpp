// Monitors of the gRPC client as used from QML: calls made by script and GrpcStream elements, against the scripted server.
#define VP_GRPC_BASE_ONLY
#include "grpc.cpp"
#include "recorder.h"

#include <QQmlComponent>
#include <QQmlContext>
#include <QQmlEngine>
#include <QQmlError>
#include <sanitizer/lsan_interface.h>

namespace {

std::vector<std::string> importPaths;
H2Server *server = nullptr;

QObject *objectOf(const QJSValue &v) { return v.toQObject(); }

// An engine with the generated types, the functions script uses, and a client
struct World {
    std::shared_ptr<QAbstractGrpcChannel> channel;
    std::unique_ptr<vpgrpc::SvcClient> client;
    std::unique_ptr<QQmlEngine> engine;
    Recorder recorder;
    QJSValue call, callRet, callNoError, callRetNoError, keep, drop;
    std::unique_ptr<QQmlComponent> element;
    bool registered = false;

    explicit World(Rng &r) {
        channel = makeChannel(server->port());
        client.reset(new vpgrpc::SvcClient);
        client->attachChannel(channel);
        newEngine(r);
    }
    void newEngine(Rng &) {
        engine.reset(new QQmlEngine);
        for (auto &p : importPaths) engine->addImportPath(QString::fromStdString(p));
        engine->setOutputWarningsToStandardError(false);
        auto fn = [&](const char *t) { return engine->evaluate(t); };
        call = fn("(function(c,rec,req,n){c.unary(req,function(x){rec.result(n,x)},function(s){rec.error(n,s.code,s.message)})})");
        callNoError = fn("(function(c,rec,req,n){c.unary(req,function(x){rec.result(n,x)},undefined)})");
        callRet = fn("(function(c,rec,req,n,res){c.unary(req,res,function(s){rec.error(n,s.code,s.message)})})");
        callRetNoError = fn("(function(c,rec,req,n,res){c.unary(req,res,undefined)})");
        engine->evaluate("var kept=[]");
        keep = fn("(function(x){kept.push(x)})");
        drop = fn("(function(){kept=[]})");
        element.reset(new QQmlComponent(engine.get()));
        element->setData("import QtQml 2.12\nimport QtProtobuf 0.6\nimport QtGrpc 0.6\nGrpcStream {\n"
                         "property var rec: null\nproperty int n: 0\nproperty string shown: returnValue ? returnValue.text : ''\n"
                         "onMessageReceived: rec.note(n,'message',value)\nonError: rec.error(n,status.code,status.message)\n"
                         "onEnabledChanged: if (rec) rec.note(n,enabled?'enabled':'disabled',null)\n}\n", QUrl("file:///element.qml"));
    }
    void dropEngine() {
        call = callNoError = callRet = callRetNoError = keep = drop = QJSValue();
        element.reset();
        engine.reset();
    }
    QJSValue wrap(QObject *o) {
        QQmlEngine::setObjectOwnership(o, QQmlEngine::CppOwnership);
        return engine->newQObject(o);
    }
    void collect() {
        engine->collectGarbage();
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    }
    ~World() {
        dropEngine();
        client.reset();
        channel.reset();
    }
};

// ---------------------------------------------------------------- calls
struct ScriptCall {
    Call c;
    std::unique_ptr<vpgrpc::Req> req;
    std::unique_ptr<vpgrpc::Res> res;   // return object variant
    bool ret = false, noError = false, kept = false, wrongType = false;
    int clientErrorsBefore = 0;
};

void calls(World &w, Rng &r, const std::string &id) {
    std::vector<std::unique_ptr<ScriptCall>> all;
    std::vector<std::pair<int64_t, QPointer<QObject>>> results;
    std::vector<std::pair<QJSValue, Value>> keptResults;
    int clientErrors = 0;
    QMetaObject::Connection ec = QObject::connect(w.client.get(), &QAbstractGrpcClient::error, w.client.get(), [&](const QGrpcStatus &) { clientErrors++; });
    w.recorder.onResult = [&](int n, const QJSValue &v) {
        Call &c = all[size_t(n)]->c;
        c.finished++;
        auto res = qobject_cast<vpgrpc::Res *>(objectOf(v));
        if (!res) { all[size_t(n)]->wrongType = true; return; }
        c.values.push_back(read(*res));
        c.clientErrors = clientErrors - all[size_t(n)]->clientErrorsBefore;
        results.push_back({c.id, res});
        if (r.chance(30)) { w.keep.call({v}); keptResults.push_back({v, c.values.back()}); }
        if (r.chance(20)) w.engine->collectGarbage();
    };
    w.recorder.onError = [&](int n, int code, const QString &m) {
        Call &c = all[size_t(n)]->c;
        c.errors++;
        c.gotCode = code;
        c.gotMessage = utf8(m);
    };
    int n = 1 + int(r.below(6));
    QJSValue jsClient = w.wrap(w.client.get()), jsRec = w.wrap(&w.recorder);
    for (int i = 0; i < n; ++i) {
        all.emplace_back(new ScriptCall);
        ScriptCall &s = *all.back();
        s.c.id = nextId++;
        Script script;
        do {
            s.c.shape.clear();
            script = unaryScript(s.c, r);
        } while (s.c.expect == Call::Abort);
        plans.add(s.c.id, script);
        s.req.reset(new vpgrpc::Req(request(s.c.id, r)));
        s.ret = r.chance(40);
        s.noError = r.chance(15);
        s.c.way = s.ret ? "qmlret" : "qml";
        s.clientErrorsBefore = clientErrors;
        QJSValue a = w.wrap(s.req.get());
        s.c.timer.start();
        if (s.ret) {
            s.res.reset(new vpgrpc::Res);
            s.res->setText("untouched by anyone");
            (s.noError ? w.callRetNoError : w.callRet).call({jsClient, jsRec, a, i, w.wrap(s.res.get())});
        } else {
            (s.noError ? w.callNoError : w.call).call({jsClient, jsRec, a, i});
        }
        if (r.chance(20)) { a = QJSValue(); s.req.reset(); w.collect(); }   // the argument is not needed any more
        if (r.chance(40)) settle(int(r.below(4)));
    }
    const auto finishedOnce = [&](ScriptCall &s) {
        if (s.c.errors || s.c.finished) return true;
        if (s.ret && s.c.expect == Call::Ok) return read(*s.res) == s.c.value;
        if (s.ret && s.c.expect == Call::Garbage) return s.res->text() != "untouched by anyone" || clientErrors > s.clientErrorsBefore;
        if (s.noError && s.c.expect != Call::Ok) return clientErrors > s.clientErrorsBefore;   // may be of another call: waited for below
        return false;
    };
    spin([&] {
        for (auto &s : all) {
            if (!s->c.took && finishedOnce(*s)) s->c.took = s->c.timer.elapsed() + 1;
            if (!s->c.took) return false;
        }
        return true;
    }, Patience);
    settle(1 + int(r.below(10)));
    for (auto &p : all) {
        ScriptCall &s = *p;
        s.c.done = s.c.took > 0;
        std::string key = channelName() + " " + s.c.kind + " " + s.c.way;
        if (s.wrongType) result.violation("result of another type " + key, "the callback did not get a response message", id);
        if (s.ret && s.c.done && s.c.expect == Call::Ok) { s.c.finished++; s.c.values.push_back(read(*s.res)); }
        if (s.ret && s.c.expect == Call::Garbage) { result.count("kind_garbage"); continue; }
        if (s.ret && s.c.errors && s.res->text() != "untouched by anyone") result.violation("return object written by a failed call " + key, "the return object changed although the call failed", id);
        if (s.noError && s.c.expect != Call::Ok) {
            result.evaluations++;
            result.count("no_error_callback");
            if (s.c.finished && s.c.expect != Call::Garbage) result.violation("failure reported as success " + key, "the call failed, the callback was called", id);
            continue;
        }
        judgeCall(s.c, id);
    }
    // nothing may be left over once everything is answered, with the engine still there
    QObject::disconnect(ec);
    if (!spin([&] { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); return w.client->findChildren<QGrpcCallReply *>().isEmpty(); }, 3000))
        result.violation("replies pile up " + channelName(), std::to_string(w.client->findChildren<QGrpcCallReply *>().size()) + " reply objects are left of " + std::to_string(n) + " completed calls", id);
    if (r.chance(50)) {
        w.collect();
        for (auto &k : keptResults) {
            auto res = qobject_cast<vpgrpc::Res *>(objectOf(k.first));
            if (!res || !(read(*res) == k.second)) result.violation("kept result " + channelName(), "a result kept by script is gone or changed", id);
            result.count("kept_results");
        }
        keptResults.clear();
        w.drop.call();
        w.collect();
        w.collect();
        for (auto &p : results) {
            if (p.second) { result.violation("results pile up " + channelName(), "a result script does not keep is not collected", id); break; }
            result.count("collected_results");
        }
    } else {
        w.drop.call();
    }
    w.recorder.onResult = nullptr;
    w.recorder.onError = nullptr;
}

// something goes away while calls are in flight
void inFlight(std::unique_ptr<World> &wp, Rng &r, const std::string &id) {
    World &w = *wp;
    std::vector<std::unique_ptr<ScriptCall>> all;
    std::vector<int> outcomes;
    bool engineGone = false;
    std::string what;
    w.recorder.onResult = [&](int n, const QJSValue &v) {
        outcomes[size_t(n)]++;
        if (engineGone) result.violation("callback after the engine " + channelName(), "script was called after its engine was destroyed", id);
        auto res = qobject_cast<vpgrpc::Res *>(objectOf(v));
        if (res && !(read(*res) == all[size_t(n)]->c.value)) result.violation("wrong result in flight " + channelName(), "", id);
    };
    w.recorder.onError = [&](int n, int, const QString &) { outcomes[size_t(n)]++; };
    int n = 1 + int(r.below(4));
    outcomes.resize(size_t(n));
    QJSValue jsClient = w.wrap(w.client.get()), jsRec = w.wrap(&w.recorder);
    for (int i = 0; i < n; ++i) {
        all.emplace_back(new ScriptCall);
        ScriptCall &s = *all.back();
        s.c.id = nextId++;
        s.c.value = randomValue(r, false);
        Script script;
        if (r.chance(50)) script.headers();
        std::string b = Script::frame(encode(s.c.value));
        if (script.actions.size() && r.chance(50)) { size_t k = r.below(b.size()); script.data(b.substr(0, k)).hold().data(b.substr(k)); }
        else { script.hold(); if (script.actions.size() == 1) script.headers(); script.data(b); }
        script.status(r.chance(80) ? 0 : 5);
        plans.add(s.c.id, script);
        s.req.reset(new vpgrpc::Req(request(s.c.id, r)));
        s.ret = r.chance(50);
        if (s.ret) {
            s.res.reset(new vpgrpc::Res);
            w.callRet.call({jsClient, jsRec, w.wrap(s.req.get()), i, w.wrap(s.res.get())});
        } else {
            w.call.call({jsClient, jsRec, w.wrap(s.req.get()), i});
        }
    }
    bool sent = r.chance(70);
    if (sent) spin([&] { for (auto &s : all) if (!plans.count(s->c.id)) return false; return true; }, Patience);
    jsClient = jsRec = QJSValue();
    switch (r.below(4)) {
    case 0: what = "engine"; w.dropEngine(); engineGone = true; break;
    case 1: what = "client"; w.client.reset(); break;
    case 2: what = "returns"; for (auto &s : all) s->res.reset(); break;
    default: what = "both"; if (r.chance(50)) { w.dropEngine(); w.client.reset(); } else { w.client.reset(); w.dropEngine(); } engineGone = true; break;
    }
    if (r.chance(30)) w.channel.reset();
    if (r.chance(70)) settle(int(r.below(4)));
    for (auto &s : all) for (uint64_t k : plans.of(s->c.id)) server->release(k);
    if (what == "returns" || what == "engine") {
        spin([&] { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); return w.client->findChildren<QGrpcCallReply *>().isEmpty(); }, 3000);
    } else {
        settle(10 + int(r.below(20)));
    }
    for (int o : outcomes) if (o > 1) result.violation("more than one outcome in flight " + channelName(), what, id);
    result.evaluations++;
    result.count("gone_" + what);
    result.nontrivial(what + std::to_string(n) + std::to_string(sent) + encode(all[0]->c.value));
    w.recorder.onResult = nullptr;
    w.recorder.onError = nullptr;
    wp.reset();
}

// a client without a channel: the call fails, at once
void unattached(World &w, Rng &r, const std::string &id) {
    vpgrpc::SvcClient client;
    vpgrpc::Res res;
    vpgrpc::Req req = request(nextId++, r);
    int outcomes = 0, code = -1, results = 0;
    w.recorder.onResult = [&](int, const QJSValue &) { results++; };
    w.recorder.onError = [&](int, int c, const QString &) { outcomes++; code = c; };
    bool ret = r.chance(50), noError = r.chance(30);
    QJSValueList args{w.wrap(&client), w.wrap(&w.recorder), w.wrap(&req), 0};
    if (ret) (noError ? w.callRetNoError : w.callRet).call(args << w.wrap(&res));
    else (noError ? w.callNoError : w.call).call(args);
    settle(2);
    result.evaluations++;
    result.count("unattached");
    if (results) result.violation("result without a channel " + channelName(), "a call without a channel succeeded", id);
    if (!noError && (outcomes != 1 || code == 0)) result.violation("no error without a channel " + channelName(), std::to_string(outcomes) + " errors were reported", id);
    w.recorder.onResult = nullptr;
    w.recorder.onError = nullptr;
}

// ---------------------------------------------------------------- stream elements
struct Element {
    QPointer<QObject> object;
    std::vector<Value> got;
    std::vector<std::string> bad;
    int enabled = 0, disabled = 0, gone = 0;
    std::vector<std::pair<int, std::string>> errors;
    std::function<void(size_t)> onMessage;
};

struct Plan {
    int64_t id = 0;
    std::vector<Value> sent;
    std::string shape, end;
    int code = 0;
    std::string message;
};
Plan plan(Rng &r, const std::string &end, int max = 12, int min = 0) {
    Plan p;
    p.id = nextId++;
    do p.sent = randomSequence(r, max); while (int(p.sent.size()) < min);
    p.end = end;
    Script s;
    s.headers();
    addMessages(s, p.sent, r, &p.shape);
    if (end == "ok") s.status(0);
    else if (end == "status") {
        p.code = 1 + int(r.below(16));
        p.message = r.chance(50) ? "why not" : "\xc3\xa4 100%";
        s.status(p.code, percentEncode(p.message));
    } else s.hold().status(0);
    plans.add(p.id, s);
    return p;
}

struct Streams {
    std::unique_ptr<World> &wp;
    Rng &r;
    std::string id, kind;
    Element e;
    std::vector<std::unique_ptr<vpgrpc::Req>> reqs;
    bool failed = false;
    std::vector<size_t> marks;

    Streams(std::unique_ptr<World> &w, Rng &rr, const std::string &i) : wp(w), r(rr), id(i) {}
    World &w() { return *wp; }
    bool must(const std::function<bool()> &f, const std::string &what) {
        if (failed) return false;
        if (spin(f, Patience)) return true;
        bad("does not happen: " + what, "messages " + std::to_string(e.got.size()) + ", errors " + std::to_string(e.errors.size()) + ", enabled " + std::to_string(e.enabled) + "/" + std::to_string(e.disabled));
        return false;
    }
    void bad(const std::string &k, const std::string &what) {
        if (!failed) result.violation(k + " " + channelName() + " " + kind, what, id);
        failed = true;
    }
    vpgrpc::Req *req(const Plan &p) {
        reqs.emplace_back(new vpgrpc::Req(request(p.id, r)));
        QQmlEngine::setObjectOwnership(reqs.back().get(), QQmlEngine::CppOwnership);
        return reqs.back().get();
    }
    bool create() {
        QObject *o = w().element->create();
        if (!o) { fprintf(stderr, "element: %s\n", qPrintable(w().element->errorString())); abort(); }
        e.object = o;
        o->setProperty("rec", QVariant::fromValue<QObject *>(&w().recorder));
        w().recorder.onNote = [this](int, const QString &what, const QJSValue &v) {
            if (what == "message") {
                auto res = qobject_cast<vpgrpc::Res *>(objectOf(v));
                if (!res) { bad("message without value", "the value handed to onMessageReceived is not a message"); return; }
                e.got.push_back(read(*res));
                if (e.object->property("returnValue").value<QObject *>() != res) bad("return value", "returnValue is not the message handed over");
                else if (e.object->property("shown").toString() != res->text()) bad("return value binding", "a binding to returnValue does not show the message handed over");
                if (e.onMessage) { auto f = e.onMessage; f(e.got.size()); }
            } else if (what == "enabled") e.enabled++;
            else if (what == "disabled") e.disabled++;
        };
        w().recorder.onError = [this](int, int code, const QString &m) { e.errors.push_back({code, utf8(m)}); };
        return true;
    }
    void start(const Plan &p, const char *method = "feed") {
        // any order of setting the properties
        std::vector<int> order{0, 1, 2, 3};
        for (size_t i = 4; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        QObject *q = req(p);
        for (int k : order) {
            if (k == 0) e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(w().client.get()));
            if (k == 1) e.object->setProperty("method", method);
            if (k == 2) e.object->setProperty("argument", QVariant::fromValue<QObject *>(q));
            if (k == 3) e.object->setProperty("enabled", true);
        }
    }
    bool isEnabled() { return e.object && e.object->property("enabled").toBool(); }
    bool cancelled(int64_t plan, size_t k = 0) {
        auto s = plans.of(plan);
        if (s.size() <= k) return false;
        for (auto &q : server->requests()) if (q.serial == s[k]) return q.cancelled;
        return false;
    }
    bool has(size_t from, const Plan &p) {   // everything of the plan arrived, in order, nothing else after `from`
        if (e.got.size() != from + p.sent.size()) return false;
        return std::vector<Value>(e.got.begin() + long(from), e.got.end()) == p.sent;
    }
    bool expect(size_t from, const Plan &p) {
        if (!must([&] { return e.got.size() >= from + p.sent.size(); }, "all messages arrive")) return false;
        settle(1 + int(r.below(4)));
        result.count("messages", long(p.sent.size()));
        result.nontrivial(kind + p.shape + p.end + framed(p.sent));
        if (has(from, p)) return true;
        bad("messages " + howDifferent(p.sent, std::vector<Value>(e.got.begin() + long(from), e.got.end())), describe(p.sent, std::vector<Value>(e.got.begin() + long(from), e.got.end())));
        return false;
    }
    bool prefixOf(size_t from, const Plan &p) {
        std::vector<Value> g(e.got.begin() + long(from), e.got.end());
        if (g.size() <= p.sent.size() && std::equal(g.begin(), g.end(), p.sent.begin())) return true;
        bad("messages " + howDifferent(p.sent, g), describe(p.sent, g));
        return false;
    }
    void quiet(int64_t p, size_t requests) {
        if (plans.count(p) != requests) bad("requests", std::to_string(plans.count(p)) + " requests reached the server, " + std::to_string(requests) + " expected");
    }

    void ended() {
        Plan p = plan(r, "ok");
        create();
        start(p);
        if (!expect(0, p)) return;
        if (!must([&] { return !isEnabled(); }, "the element is disabled when the stream ended")) return;
        settle(3);
        if (!e.errors.empty()) bad("error after a proper end", e.errors[0].second);
        if (e.disabled != 1) bad("disabled signal", std::to_string(e.disabled) + " times");
        if (e.object->property("returnValue").value<QObject *>()) bad("return value after the end", "still there");
        quiet(p.id, 1);
        if (!failed && r.chance(50)) {   // once more
            Plan again = plan(r, "ok");
            size_t from = e.got.size();
            start(again);
            if (expect(from, again)) must([&] { return !isEnabled(); }, "the element is disabled when the stream ended again");
        }
    }
    void fails() {
        Plan p = plan(r, "status");
        Plan q;   // what comes after the retry
        q.id = p.id;
        q.sent = randomSequence(r, 10);
        Script s;
        s.headers();
        addMessages(s, q.sent, r, &q.shape);
        s.hold().status(0);
        plans.add(p.id, s);
        create();
        start(p);
        if (!must([&] { return !e.errors.empty(); }, "the error is reported")) return;
        if (!has(0, p)) { bad("messages before the error", describe(p.sent, e.got)); return; }
        settle(5);
        if (e.errors.size() != 1 || e.errors[0].first != p.code || e.errors[0].second != p.message)
            bad("error", std::to_string(e.errors.size()) + " errors, the first " + std::to_string(e.errors[0].first) + " '" + e.errors[0].second + "', sent " + std::to_string(p.code) + " '" + p.message + "'");
        if (!isEnabled()) bad("disabled by an error", "the stream is to be established again");
        if (!must([&] { return plans.count(p.id) >= 2; }, "the stream is established again")) return;
        if (!expect(p.sent.size(), q)) return;
        quiet(p.id, 2);
        e.object->setProperty("enabled", false);
        must([&] { return cancelled(p.id, 1); }, "the server learns that the stream was disabled");
    }
    void disable() {
        Plan p = plan(r, "hold", 20, 1);
        create();
        size_t at = 1 + r.below(p.sent.size()), seen = 0;
        bool inside = r.chance(50), off = false;
        e.onMessage = [&](size_t n) {
            if (n == at && inside) {
                e.object->setProperty("enabled", false);
                seen = e.got.size();
                off = true;
            }
        };
        start(p);
        if (!must([&] { return e.got.size() >= at; }, "messages arrive")) return;
        e.onMessage = nullptr;
        if (!off) {
            e.object->setProperty("enabled", false);
            seen = e.got.size();
        }
        if (isEnabled()) bad("still enabled", "");
        if (!must([&] { return cancelled(p.id); }, "the server learns that the stream was disabled")) return;
        settle(3);
        if (e.got.size() != seen) bad("messages after disabling", std::to_string(e.got.size() - seen));
        if (!prefixOf(0, p)) return;
        if (!e.errors.empty()) bad("error after disabling", e.errors[0].second);
        if (e.disabled != 1) bad("disabled signal", std::to_string(e.disabled) + " times");
        if (failed || r.chance(30)) return;
        size_t from = e.got.size();
        if (r.chance(50)) {   // the same stream again: all fields are still there
            e.object->setProperty("enabled", true);
            if (!expect(from, p)) return;
            quiet(p.id, 2);
        } else {
            Plan q = plan(r, "hold");
            e.object->setProperty("argument", QVariant::fromValue<QObject *>(req(q)));
            settle(5);
            quiet(q.id, 0);   // not while disabled
            e.object->setProperty("enabled", true);
            if (!expect(from, q)) return;
            quiet(q.id, 1);
        }
        e.object->setProperty("enabled", false);
    }
    void change() {
        Plan p = plan(r, "hold", 10), q = plan(r, "hold", 10);
        create();
        start(p);
        bool early = r.chance(30);
        if (!early && !expect(0, p)) return;
        if (early && r.chance(50)) settle(int(r.below(3)));
        std::unique_ptr<vpgrpc::SvcClient> other;
        std::shared_ptr<QAbstractGrpcChannel> otherChannel;
        int k = int(r.below(3));
        size_t from = e.got.size();
        if (early && !prefixOf(0, p)) return;
        if (k == 0) {
            kind += " argument";
            e.object->setProperty("argument", QVariant::fromValue<QObject *>(req(q)));
        } else if (k == 1) {   // the plan goes by request id: the same request again, to the other method
            kind += " method";
            q = p;
            e.object->setProperty("method", "otherFeed");
        } else {
            kind += " client";
            q = p;
            other.reset(new vpgrpc::SvcClient);
            otherChannel = makeChannel(server->port());
            other->attachChannel(otherChannel);
            QQmlEngine::setObjectOwnership(other.get(), QQmlEngine::CppOwnership);
            e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(other.get()));
        }
        if (expect(from, q)) {
            if (!isEnabled()) bad("disabled by a change", "the element is to stream on");
            if (!e.errors.empty()) bad("error after a change", e.errors[0].second);
            // an early change may come before the first request was sent at all
            if (!failed && !early) must([&] { return cancelled(p.id); }, "the server learns that the old stream is gone");
            if (!failed && k == 1) {
                auto s = plans.of(p.id);
                for (auto &x : server->requests()) if (x.serial == s.back() && x.path != "/vpgrpc.Svc/otherFeed") bad("method", "the request went to " + x.path);
            }
            if (!failed && !early) quiet(q.id, k == 0 ? 1 : 2);
        }
        if (other) {
            if (r.chance(50)) e.object->setProperty("enabled", false);
            if (r.chance(50)) delete e.object.data();
        }
        if (e.object) e.object->setProperty("enabled", false);
    }
    void refused() {
        Plan p = plan(r, "hold", 5);
        create();
        int k = int(r.below(4));
        vpgrpc::Res wrong;
        QQmlEngine::setObjectOwnership(&wrong, QQmlEngine::CppOwnership);
        vpgrpc::SvcClient unattached;
        QQmlEngine::setObjectOwnership(&unattached, QQmlEngine::CppOwnership);
        int code = -1;
        e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(k == 2 ? &unattached : w().client.get()));
        e.object->setProperty("method", k == 0 ? (r.chance(50) ? "noSuchThing" : "unary") : "feed");
        e.object->setProperty("argument", QVariant::fromValue<QObject *>(k == 1 ? static_cast<QObject *>(&wrong) : req(p)));
        if (k == 3) {   // an incomplete element does nothing at all
            kind += " incomplete";
            int m = int(r.below(3));
            if (m == 0) e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(nullptr));
            else if (m == 1) e.object->setProperty("method", "");
            else e.object->setProperty("argument", QVariant::fromValue<QObject *>(nullptr));
            e.object->setProperty("enabled", true);
            settle(5);
            if (!e.errors.empty() || !e.got.empty()) bad("incomplete element", "reports something");
            quiet(p.id, 0);
            if (m == 0) e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(w().client.get()));
            else if (m == 1) e.object->setProperty("method", "feed");
            else e.object->setProperty("argument", QVariant::fromValue<QObject *>(reqs.back().get()));
            if (isEnabled()) expect(0, p);
            else bad("incomplete element", "is disabled");
        } else {
            code = k == 0 ? int(QGrpcStatus::Unimplemented) : k == 1 ? int(QGrpcStatus::InvalidArgument) : int(QGrpcStatus::Unknown);
            kind += k == 0 ? " method" : k == 1 ? " argument" : " channel";
            e.object->setProperty("enabled", true);
            settle(3);
            if (e.errors.size() != 1 || e.errors[0].first != code) bad("not refused", std::to_string(e.errors.size()) + " errors" + (e.errors.empty() ? "" : ", code " + std::to_string(e.errors[0].first)));
            if (isEnabled()) bad("refused but enabled", "");
            quiet(p.id, 0);
            e.object->setProperty("client", QVariant::fromValue<QtProtobuf::QAbstractGrpcClient *>(w().client.get()));
            e.object->setProperty("method", "feed");
            e.object->setProperty("argument", QVariant::fromValue<QObject *>(reqs.empty() ? req(p) : reqs.back().get()));
            e.object->setProperty("enabled", true);
            if (!failed) expect(0, p);
        }
        e.object->setProperty("enabled", false);
        delete e.object.data();
    }
    void destroyed() {
        Plan p = plan(r, "hold", 15, 1);
        create();
        size_t at = 1 + r.below(p.sent.size()), seen = 0;
        bool inside = r.chance(40), off = false;
        int k = int(r.below(3));   // element, client, argument
        kind += k == 0 ? " element" : k == 1 ? " client" : " argument";
        auto act = [&] {
            off = true;
            seen = e.got.size();
            if (k == 0) { if (inside) e.object->deleteLater(); else delete e.object.data(); }
            else if (k == 1) { if (inside) w().client.release()->deleteLater(); else w().client.reset(); }
            else { if (inside) reqs.back().release()->deleteLater(); else reqs.back().reset(); }
        };
        e.onMessage = [&](size_t n) { if (n == at && inside) act(); };
        start(p);
        if (!must([&] { return e.got.size() >= at; }, "messages arrive")) return;
        if (!off) act();
        if (k == 2) { expect(0, p); return; }
        if (!must([&] { return cancelled(p.id); }, "the server learns that the stream is gone")) return;
        settle(5);
        if (!inside && e.got.size() != seen) bad("messages afterwards", std::to_string(e.got.size() - seen));
        prefixOf(0, p);
        if (k == 1) {
            if (e.object->property("client").value<QtProtobuf::QAbstractGrpcClient *>()) bad("dangling client", "");
            if (r.chance(50)) e.object->setProperty("enabled", false);
            if (r.chance(50)) e.object->setProperty("enabled", true);
        }
    }
    void run() {
        switch (getenv("VP_KIND") ? uint64_t(atoi(getenv("VP_KIND"))) : r.below(9)) {
        case 0: case 1: kind = "ended"; ended(); break;
        case 2: kind = "fails"; fails(); break;
        case 3: case 4: kind = "disable"; disable(); break;
        case 5: case 6: kind = "change"; change(); break;
        case 7: kind = "refused"; refused(); break;
        default: kind = "destroyed"; destroyed(); break;
        }
        result.evaluations++;
        result.see("scenarios", kind);
        result.count("element_" + kind.substr(0, kind.find(' ')));
        result.sample(id + " " + kind + ": " + std::to_string(e.got.size()) + " messages, " + std::to_string(e.errors.size()) + " errors");
        e.onMessage = nullptr;
        if (w().client && r.chance(50) && e.object) {
            // the client goes first
            if (r.chance(30)) { w().client.reset(); settle(1); }
        }
        size_t events = e.got.size() + e.errors.size();
        if (e.object) delete e.object.data();
        if (r.chance(50)) settle(1 + int(r.below(3)));
        if (e.got.size() + e.errors.size() != events) bad("events of a destroyed element", "");
        w().recorder.onNote = nullptr;
        w().recorder.onError = nullptr;
        if (!w().client) wp.reset();
    }
};

void qmlCalls() {
    H2Server s([](const Request &r) { return plans(r); });
    server = &s;
    std::unique_ptr<World> w;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000039 + uint64_t(c));
        std::string id = "grpcqml " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        if (!w || r.chance(8)) { w.reset(); w.reset(new World(r)); }
        s.setDribble(r.chance(20) ? 1 + int(r.below(60)) : 0, int(r.below(200)));
        s.setFrameSize(r.chance(30) ? 1 + int(r.below(3000)) : 16384);
        switch (getenv("VP_KIND") ? 9 : r.below(10)) {
        case 0: case 1: case 2: case 3: calls(*w, r, id); if (r.chance(15)) unattached(*w, r, id); break;
        case 4: case 5: inFlight(w, r, id); break;
        default: { Streams st(w, r, id); st.run(); }
        }
    }
    w.reset();
    settle(20);
    result.count("server_requests", long(s.requestCount()));
    server = nullptr;
}

}

int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    options = parseOptions(argc, argv);
    for (const char *k : {"imports", "imports2"}) importPaths.push_back(options.more[k]);
    qInstallMessageHandler([](QtMsgType type, const QMessageLogContext &, const QString &text) {
        result.count("log_lines");
        if (getenv("VP_LOG")) fprintf(stderr, "%d %s\n", int(type), qPrintable(text));
    });
    qRegisterProtobufTypes();
    native = options.more["channel"] == "native";
    qmlCalls();
    if (__lsan_do_recoverable_leak_check()) result.violation("leak", "memory leaked", "grpcqml seed=" + std::to_string(options.seed));
    result.count("finished");
    result.write(options.out);
    return 0;
}
