// Monitors of the gRPC client: calls and streams of generated clients against a scripted server in the same process.
// Everything the server writes and everything the client reports is recorded and compared.
#include <QCoreApplication>
#include <QElapsedTimer>
#include <QEventLoop>
#include <QGrpcCallReply>
#include <QGrpcChannel>
#include <QGrpcCredentials>
#include <QGrpcHttp2Channel>
#include <QGrpcInsecureCredentials>
#include <QGrpcSslCredentials>
#include <QGrpcStream>
#include <QGrpcUserPasswordCredentials>
#include <QPointer>
#include <QSslCertificate>
#include <QSslConfiguration>
#include <QSslKey>
#include <QThread>
#include <QTimer>
#include <QUrl>
#include <qtprotobufglobal.h>
#include <grpcpp/security/credentials.h>
#include <grpcpp/create_channel.h>
#include <grpcpp/impl/codegen/channel_interface.h>
#include <condition_variable>
#include <deque>
#include <unistd.h>

#include "common.h"
#include "h2server.h"
#include "tlsproxy.h"
#include "vpgrpc.qpb.h"
#include "vpgrpc_grpc.qpb.h"

using namespace vp;
using namespace QtProtobuf;

namespace {

bool native = false;
const int Patience = getenv("VP_PATIENCE") ? atoi(getenv("VP_PATIENCE")) : 20000;   // ms until something that has to happen counts as not happening
std::string channelName() { return native ? "native" : "http2"; }

// ---------------------------------------------------------------- values
struct Value {
    int64_t id = 0, seq = 0;
    std::string payload, text;
    std::vector<int32_t> list;
    bool operator==(const Value &o) const { return id == o.id && seq == o.seq && payload == o.payload && text == o.text && list == o.list; }
    std::string brief() const {
        return "{id " + std::to_string(id) + " seq " + std::to_string(seq) + " payload " + std::to_string(payload.size()) + " text " + std::to_string(text.size()) + " list " + std::to_string(list.size()) + "}";
    }
};
void putVarint(std::string &o, uint64_t v) {
    for (; v >= 128; v >>= 7) o += char(v | 128);
    o += char(v);
}
std::string encode(const Value &v) {
    std::string o;
    if (v.id) { putVarint(o, 8); putVarint(o, uint64_t(v.id)); }
    if (v.seq) { putVarint(o, 16); putVarint(o, uint64_t(v.seq)); }
    if (!v.payload.empty()) { putVarint(o, 26); putVarint(o, v.payload.size()); o += v.payload; }
    if (!v.text.empty()) { putVarint(o, 34); putVarint(o, v.text.size()); o += v.text; }
    if (!v.list.empty()) {
        std::string b;
        for (int32_t x : v.list) putVarint(b, (uint32_t(x) << 1) ^ uint32_t(x >> 31));
        putVarint(o, 42);
        putVarint(o, b.size());
        o += b;
    }
    return o;
}
Value read(const vpgrpc::Res &r) {
    Value v;
    v.id = r.id_proto();
    v.seq = r.seq();
    v.payload.assign(r.payload().constData(), size_t(r.payload().size()));
    QByteArray t = r.text().toUtf8();
    v.text.assign(t.constData(), size_t(t.size()));
    for (auto x : r.list()) v.list.push_back(x);
    return v;
}
std::string randomBytes(Rng &r, size_t n) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; ++i) s[i] = char(r.next());
    return s;
}
size_t randomSize(Rng &r, bool big) {
    switch (r.below(big ? 10 : 8)) {
    case 0: case 1: return 0;
    case 2: case 3: return r.below(8);
    case 4: case 5: return r.below(200);
    case 6: return 120 + r.below(20);
    case 7: return r.below(5000);
    case 8: return 16384 - 20 + r.below(40);
    default: return 20000 + r.below(200000);
    }
}
Value randomValue(Rng &r, bool big = true) {
    Value v;
    if (r.chance(12)) return v;   // default message: nothing at all on the wire
    v.id = r.chance(20) ? -int64_t(r.below(1000)) : int64_t(r.next() >> r.below(64));
    v.seq = int64_t(r.below(5));
    v.payload = randomBytes(r, randomSize(r, big));
    static const char *const texts[] = {"", "", "a", "text", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "with\nlines"};
    v.text = texts[r.below(6)];
    for (size_t i = r.below(4); i > 0; --i) v.list.push_back(int32_t(r.next()));
    return v;
}

// ---------------------------------------------------------------- server side
struct Plans {
    std::mutex lock;
    std::map<int64_t, std::deque<Script>> scripts;   // by request id; the last one stays
    std::map<int64_t, std::vector<uint64_t>> serials;
    static int64_t idOf(const std::string &body) {
        // length-prefixed message, the id is field 1
        uint64_t v = 0;
        size_t p = 5;
        auto varint = [&] {
            uint64_t n = 0;
            for (size_t sh = 0; p < body.size() && sh < 64; sh += 7) {
                uint8_t c = uint8_t(body[p++]);
                n |= uint64_t(c & 127) << sh;
                if (!(c & 128)) break;
            }
            return n;
        };
        while (p < body.size()) {
            uint64_t tag = varint();
            if (tag == 8) v = varint();
            else if ((tag & 7) == 2) p += size_t(varint());
            else if ((tag & 7) == 0) varint();
            else break;
        }
        return int64_t(v);
    }
    Script operator()(const Request &r) {
        std::lock_guard<std::mutex> g(lock);
        int64_t id = idOf(r.body);
        serials[id].push_back(r.serial);
        auto it = scripts.find(id);
        if (it == scripts.end()) return Script().headers().status(12, "no plan");
        Script s = it->second.front();
        if (it->second.size() > 1) it->second.pop_front();
        return s;
    }
    void add(int64_t id, const Script &s) {
        std::lock_guard<std::mutex> g(lock);
        scripts[id].push_back(s);
    }
    size_t count(int64_t id) {
        std::lock_guard<std::mutex> g(lock);
        return serials.count(id) ? serials[id].size() : 0;
    }
    std::vector<uint64_t> of(int64_t id) {
        std::lock_guard<std::mutex> g(lock);
        return serials[id];
    }
};
Plans plans;
int64_t nextId = 1000 + (int64_t(getpid()) << 24);   // requests of other processes never look like ours

// cuts a byte string into DATA frames and pauses
void addData(Script &s, const std::string &bytes, Rng &r, std::string *shape) {
    int style = int(r.below(6));
    const char *const names[] = {"whole", "halves", "random", "bytes", "headersplit", "paused"};
    *shape += names[style];
    std::vector<size_t> cuts;
    switch (style) {
    case 0: break;
    case 1: cuts.push_back(bytes.size() / 2); break;
    case 2: for (size_t i = r.below(12); i > 0; --i) cuts.push_back(r.below(bytes.size() + 1)); break;
    case 3: for (size_t i = 1; i < bytes.size() && i < 60; ++i) cuts.push_back(i); break;
    case 4: for (size_t i = 1 + r.below(5); i < bytes.size(); i += 1 + r.below(9) + (bytes.size() > 1000 ? r.below(bytes.size() / 8 + 1) : 0)) cuts.push_back(i); break;
    default: for (size_t i = r.below(5); i > 0; --i) cuts.push_back(r.below(bytes.size() + 1)); break;
    }
    std::sort(cuts.begin(), cuts.end());
    size_t from = 0;
    cuts.push_back(bytes.size());
    for (size_t c : cuts) {
        if (c > from || r.chance(5)) s.data(bytes.substr(from, c - from));
        from = c;
        if (style == 5 || r.chance(style == 3 ? 15 : 30)) s.sleep(int(r.below(style == 5 ? 4000 : 1500)));
    }
}
std::string percentEncode(const std::string &m) {
    static const char *const h = "0123456789ABCDEF";
    std::string o;
    for (unsigned char c : m) {
        if (c >= 32 && c <= 126 && c != '%') {
            o += char(c);
        } else {
            o += '%';
            o += h[c >> 4];
            o += h[c & 15];
        }
    }
    return o;
}

// ---------------------------------------------------------------- client side
bool spin(const std::function<bool()> &done, int ms) {
    QElapsedTimer e;
    e.start();
    QEventLoop loop;
    QTimer t;
    t.setInterval(1);
    QObject::connect(&t, &QTimer::timeout, &loop, [&] { if (done() || e.elapsed() >= ms) loop.quit(); });
    t.start();
    loop.exec();
    return done();
}
void settle(int ms) { spin([] { return false; }, ms); }
std::unique_ptr<QAbstractGrpcCredentials> insecure() { return QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials(); }
std::shared_ptr<QAbstractGrpcChannel> makeChannel(int port) {
    if (native) {
        return std::make_shared<QGrpcChannel>(QUrl(QString("ipv4:127.0.0.1:%1").arg(port)), grpc::InsecureChannelCredentials());
    }
    return std::make_shared<QGrpcHttp2Channel>(QUrl(QString("http://127.0.0.1:%1").arg(port)), insecure());
}
vpgrpc::Req request(int64_t id, Rng &r, bool big = false) {
    vpgrpc::Req q;
    q.setId_proto(id);
    std::string p = randomBytes(r, randomSize(r, big));
    q.setPayload(QByteArray(p.data(), int(p.size())));
    if (r.chance(40)) q.setText(QString::fromUtf8("te\xc3\xa4xt"));
    return q;
}
std::string utf8(const QString &s) {
    QByteArray b = s.toUtf8();
    return std::string(b.constData(), size_t(b.size()));
}
std::string statusText(const QGrpcStatus &s) { return std::to_string(int(s.code())) + " '" + utf8(s.message()) + "'"; }

// ---------------------------------------------------------------- unary calls
struct Call {
    int64_t id = 0;
    std::string kind, way, shape;
    enum Expect { Ok, Status, AnyError, Garbage, Abort } expect = Ok;
    Value value;
    int code = 0;
    std::string message;
    int finished = 0, errors = 0;
    std::vector<std::string> log;
    int gotCode = -1;
    std::string gotMessage;
    std::vector<Value> values;
    bool done = false;
    qint64 took = 0;
    QElapsedTimer timer;
    int clientErrors = 0;
    std::string sent;
};

Script unaryScript(Call &c, Rng &r) {
    Script s;
    int k = int(r.below(native ? 12 : 12));
    std::string body;
    c.value = randomValue(r);
    if (k <= 4) {
        c.kind = "ok";
        c.expect = Call::Ok;
        body = Script::frame(encode(c.value));
        s.headers();
        addData(s, body, r, &c.shape);
        s.status(0);
    } else if (k <= 7) {
        c.expect = Call::Status;
        c.code = 1 + int(r.below(16));
        static const char *const messages[] = {"", "plain", "with spaces and %41 percent", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80 unicode", "line\nbreak\ttab", "100% sure"};
        c.message = messages[r.below(6)];
        std::string m = percentEncode(c.message);
        if (k == 5) {
            c.kind = "trailersonly";
            Headers h{{":status", "200"}, {"content-type", "application/grpc"}, {"grpc-status", std::to_string(c.code)}};
            if (!m.empty()) h.push_back({"grpc-message", m});
            s.trailers(h);
        } else {
            c.kind = "status";
            s.headers();
            if (k == 7) {   // a message before the error: the error counts
                c.kind = "statusafterdata";
                addData(s, Script::frame(encode(c.value)), r, &c.shape);
            }
            s.status(c.code, m);
        }
    } else if (k == 8) {
        c.expect = Call::AnyError;
        switch (r.below(5)) {
        case 0: c.kind = "reset"; s.headers(); if (r.chance(50)) s.data(Script::frame(encode(c.value))); s.rst(r.chance(50) ? 2 : 8); break;
        case 1: c.kind = "resetearly"; s.rst(2); break;
        case 2: c.kind = "nostatus"; s.headers().endData(Script::frame(encode(c.value))); break;
        case 3: c.kind = "http503"; s.trailers({{":status", "503"}, {"content-type", "text/plain"}}); break;
        default: c.kind = "http404"; s.headers({}, 404, "text/plain").endData("not here"); break;
        }
    } else if (k == 9) {
        c.expect = Call::AnyError;
        std::string m = Script::frame(encode(c.value) + "padding so that it is not empty");
        c.kind = "truncated";
        s.headers().data(m.substr(0, 5 + r.below(m.size() - 5))).status(0);
    } else if (k == 10) {
        c.expect = Call::Garbage;
        c.kind = "garbage";
        s.headers();
        addData(s, Script::frame(std::string("\x0a\xff\xff\xff\xff\x07", 6) + randomBytes(r, r.below(40))), r, &c.shape);
        s.status(0);
    } else {
        c.expect = Call::Abort;
        c.kind = "abort";
        if (r.chance(50)) s.headers();
        s.hold().status(0);
    }
    return s;
}

void judgeCall(Call &c, const std::string &id) {
    std::string key = channelName() + " " + c.kind + " " + c.way;
    auto bad = [&](const std::string &k, const std::string &what) { result.violation(k + " " + key, what + " (shape " + c.shape + ", took " + std::to_string(c.took) + " ms)", id); };
    result.evaluations++;
    result.count("calls_" + c.way);
    result.count("kind_" + c.kind);
    result.nontrivial(key + c.shape + std::to_string(c.code) + encode(c.value));
    if (!c.done) {
        bad("never completed", "neither a result nor an error was reported within " + std::to_string(Patience) + " ms");
        return;
    }
    if (c.finished + c.errors != 1) {
        bad("completed more than once", std::to_string(c.finished) + " results and " + std::to_string(c.errors) + " errors were reported");
        return;
    }
    if (!native && c.took > 5000) {   // the channel gives up after 6 s: says nothing when the machine was busy
        result.count("inconclusive_slow");
        return;
    }
    switch (c.expect) {
    case Call::Ok:
        if (!c.finished) bad("success reported as error", "the server answered OK, the client reports " + std::to_string(c.gotCode) + " '" + c.gotMessage + "'");
        else if (c.values.size() != 1 || !(c.values[0] == c.value)) bad("wrong result", "sent " + c.value.brief() + ", received " + (c.values.empty() ? "nothing" : c.values[0].brief()));
        break;
    case Call::Status:
        if (!c.errors) bad("error reported as success", "the server answered " + std::to_string(c.code) + ", the client reports success");
        else if (c.gotCode != c.code) bad("wrong status code", "the server sent " + std::to_string(c.code) + ", the client reports " + std::to_string(c.gotCode));
        else if (c.gotMessage != c.message) bad("wrong status message", "the server sent '" + c.message + "', the client reports '" + c.gotMessage + "'");
        break;
    case Call::AnyError:
        if (!c.errors || c.gotCode == 0) bad("failure reported as success", "the call failed (" + c.kind + "), the client reports success");
        break;
    case Call::Garbage:
        if (c.finished && c.way == "sync") bad("garbage accepted", "the response is not a valid message, the call returned OK");
        if (c.finished && c.clientErrors == 0) bad("garbage not reported", "the response is not a valid message, no error was signalled");
        break;
    case Call::Abort:
        if (!c.errors || c.gotCode != int(QGrpcStatus::Aborted)) bad("abort not reported", "finished " + std::to_string(c.finished) + ", code " + std::to_string(c.gotCode));
        break;
    }
}

struct Worker : QThread {
    std::function<void()> f;
    void run() override { f(); }
};

void unary() {
    H2Server server([](const Request &r) { return plans(r); });
    std::shared_ptr<QAbstractGrpcChannel> channel;
    std::unique_ptr<vpgrpc::SvcClient> client;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        std::string id = "unary " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        if (!channel || r.chance(10)) {
            client.reset();
            channel = makeChannel(server.port());
            client.reset(new vpgrpc::SvcClient);
            client->attachChannel(channel);
        }
        server.setDribble(r.chance(25) ? 1 + int(r.below(40)) : 0, int(r.below(300)));
        server.setFrameSize(r.chance(30) ? 1 + int(r.below(3000)) : 16384);
        int n = 1 + int(r.below(5));
        std::vector<std::shared_ptr<Call>> calls;
        std::vector<QGrpcCallReplyShared> keep;
        std::map<std::string, std::deque<std::shared_ptr<Call>>> byStatus;
        std::vector<std::unique_ptr<Worker>> workers;
        std::vector<std::pair<int, std::string>> clientErrors, readErrors;
        bool reading = false;   // errors signalled while a result is read belong to that result
        QMetaObject::Connection ce = QObject::connect(client.get(), &QAbstractGrpcClient::error, client.get(), [&](const QGrpcStatus &s) { (reading ? readErrors : clientErrors).push_back({int(s.code()), utf8(s.message())}); });
        QObject context;
        for (int i = 0; i < n; ++i) {
            auto call = std::make_shared<Call>();
            calls.push_back(call);
            call->id = nextId++;
            Script s = unaryScript(*call, r);
            int way = int(r.below(6));
            if (call->expect == Call::Abort) way = 0;
            // started in another thread it could complete before anybody subscribes: the answer waits for that
            if (way == 2) s.actions.insert(s.actions.begin(), Action{Action::Hold, {}, {}, 0});
            plans.add(call->id, s);
            vpgrpc::Req req = request(call->id, r, r.chance(10));
            call->timer.start();
            auto fail = [call](const QGrpcStatus &st) {
                call->errors++;
                call->gotCode = int(st.code());
                call->gotMessage = utf8(st.message());
                call->took = call->timer.elapsed();
                call->done = true;
            };
            auto complete = [call](const Value &v) {
                call->finished++;
                call->values.push_back(v);
                call->took = call->timer.elapsed();
                call->done = true;
            };
            bool otherMethod = r.chance(30);
            vpgrpc::SvcClient *cl = client.get();
            if (way <= 2) {
                call->way = way == 2 ? "thread" : "async";
                QGrpcCallReplyShared reply;
                if (way == 2) {   // started in another thread, reported in the thread of the client
                    Worker w;
                    w.f = [&] { reply = otherMethod ? cl->other(req) : cl->unary(req); };
                    w.start();
                    spin([&] { return w.isFinished(); }, Patience);
                    w.wait();
                } else {
                    reply = otherMethod ? cl->other(req) : cl->unary(req);
                }
                if (!reply) {
                    result.violation("no reply object " + channelName(), "a call on an attached channel returned no reply", id);
                    continue;
                }
                QGrpcCallReply *raw = reply.get();
                reply->subscribe(&context, [raw, complete, call, &readErrors, &reading] {
                    size_t was = readErrors.size();
                    reading = true;
                    Value v = read(raw->read<vpgrpc::Res>());
                    reading = false;
                    call->clientErrors = int(readErrors.size() - was);
                    complete(v);
                }, fail);
                if (way == 2) {
                    spin([&] { return plans.count(call->id) > 0; }, Patience);
                    for (uint64_t n : plans.of(call->id)) server.release(n);
                }
                if (call->expect == Call::Abort) {
                    // Qt 5.15 may forget other queued requests when one is removed before the connection is established
                    if (!native) spin([&] { for (auto &k : calls) if (!k->done && !plans.count(k->id)) return false; return true; }, Patience);
                    if (r.chance(60)) {
                        spin([&] { return plans.count(call->id) > 0; }, 1000);
                        settle(int(r.below(10)));
                    }
                    if (r.chance(20)) {
                        Worker w;
                        w.f = [&] { raw->abort(); };
                        w.start();
                        spin([&] { return w.isFinished(); }, Patience);
                        w.wait();
                    } else {
                        reply->abort();
                    }
                }
                if (r.chance(50)) keep.push_back(reply);   // else only the client keeps it alive
            } else if (way == 3) {
                call->way = "callback";
                auto cb = [complete, call, &readErrors, &reading](const QGrpcCallReplyShared &reply) {
                    size_t was = readErrors.size();
                    reading = true;
                    Value v = read(reply->read<vpgrpc::Res>());
                    reading = false;
                    call->clientErrors = int(readErrors.size() - was);
                    complete(v);
                };
                if (otherMethod) cl->other(req, &context, cb);
                else cl->unary(req, &context, cb);
                // errors of this way are only visible as error of the client: matched below
            } else if (way == 4) {
                call->way = "sync";
                vpgrpc::Res res;
                size_t was = clientErrors.size();
                QGrpcStatus st = otherMethod ? cl->other(req, QPointer<vpgrpc::Res>(&res)) : cl->unary(req, QPointer<vpgrpc::Res>(&res));
                call->clientErrors = int(clientErrors.size() - was);
                if (st == QGrpcStatus::Ok) complete(read(res));
                else fail(st);
            } else {
                call->way = "threadsync";
                std::unique_ptr<Worker> w(new Worker);
                auto st = std::make_shared<QGrpcStatus>();
                auto copy = std::make_shared<vpgrpc::Req>(req);
                w->f = [cl, copy, st, call, otherMethod, complete, fail] {
                    vpgrpc::Res res;
                    *st = otherMethod ? cl->other(*copy, QPointer<vpgrpc::Res>(&res)) : cl->unary(*copy, QPointer<vpgrpc::Res>(&res));
                    if (*st == QGrpcStatus::Ok) complete(read(res));
                    else fail(*st);
                };
                if (call->expect == Call::Garbage) call->clientErrors = 1;   // signalled in the other thread
                w->start();
                // one at a time: the event loop of this thread performs the call
                spin([&] { return w->isFinished(); }, Patience);
                w->wait();
            }
            if (r.chance(30)) settle(int(r.below(4)));
        }
        auto callbackErrors = [&] {   // what no subscriber has seen belongs to the calls with a callback
            std::vector<std::pair<int, std::string>> rest = clientErrors;
            for (auto &k : calls) {
                if (k->way != "callback" && k->errors) {
                    for (size_t i = 0; i < rest.size(); ++i) {
                        if (rest[i].first == k->gotCode && rest[i].second == k->gotMessage) {
                            rest.erase(rest.begin() + long(i));
                            break;
                        }
                    }
                }
            }
            return rest;
        };
        auto failedCallbacks = [&] {
            size_t n = 0;
            for (auto &k : calls) if (k->way == "callback" && (k->expect == Call::Status || k->expect == Call::AnyError)) n++;
            return n;
        };
        spin([&] {
            for (auto &k : calls) {
                if (k->way == "callback" && callbackErrors().size() > failedCallbacks()) continue;   // a call that should have succeeded failed
                if (k->way == "callback" && k->expect != Call::Ok && k->expect != Call::Garbage) continue;
                if (!k->done) return false;
            }
            return true;
        }, Patience);
        size_t expectedErrors = failedCallbacks();
        if (expectedErrors) spin([&] { return callbackErrors().size() >= expectedErrors; }, Patience);
        settle(2 + int(r.below(5)));
        for (auto &k : calls) {
            if (k->way == "callback" && !k->done && (k->expect == Call::Status || k->expect == Call::AnyError)) {
                for (auto &e : callbackErrors()) {
                    if (k->expect == Call::AnyError ? e.first != 0 : (e.first == k->code && e.second == k->message)) {
                        k->errors = 1;
                        k->gotCode = e.first;
                        k->gotMessage = e.second;
                        k->done = true;
                        break;
                    }
                }
                if (!k->done && !callbackErrors().empty()) {   // some error, but not this one
                    k->took = k->timer.elapsed();
                    k->errors = 1;
                    k->done = true;
                    k->gotCode = callbackErrors()[0].first;
                    k->gotMessage = callbackErrors()[0].second;
                }
            }
            if (k->way == "callback" && !k->done && callbackErrors().size() > expectedErrors) {   // some call failed: this one, or one of its neighbours
                k->errors = 1;
                k->done = true;
                k->took = k->timer.elapsed();
                k->gotCode = callbackErrors().back().first;
                k->gotMessage = callbackErrors().back().second;
            }
            judgeCall(*k, id);
        }
        QObject::disconnect(ce);
        // whoever is still there, nothing of a completed call stays behind
        bool complete = true;
        for (auto &k : calls) complete = complete && k->done;
        keep.clear();
        if (complete && !spin([&] { QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); return client->findChildren<QGrpcCallReply *>().isEmpty(); }, 4000)) {
            std::string ways;
            for (auto &k : calls) ways += " " + k->kind + "/" + k->way;
            result.violation("replies pile up " + channelName(), std::to_string(client->findChildren<QGrpcCallReply *>().size()) + " reply objects are left of completed calls:" + ways, id);
        }
        std::string sample = id + ":";
        for (auto &k : calls) sample += " " + k->kind + "/" + k->way + "/" + k->shape;
        result.sample(sample);
    }
    client.reset();
    channel.reset();
    settle(20);
    result.count("server_connections", long(server.connections()));
    result.count("server_requests", long(server.requestCount()));
}

// ---------------------------------------------------------------- streams
struct Feed {
    int64_t id = 0;
    std::vector<Value> sent;
    std::string shape, end;
    int code = 0;
    std::string message;
    QGrpcStreamShared stream;
    std::vector<Value> got, viaRet, viaRet2;
    vpgrpc::Res ret, ret2;
    bool useRet = false, second = false;
    size_t secondFrom = 0;
    int finished = 0, errors = 0;
    int gotCode = -1;
    std::string gotMessage;
    int abortAt = -1;            // abort after that many messages
    bool abortInSlot = false, aborted = false;
    size_t afterAbort = 0;
    QElapsedTimer since;
    std::function<void(Feed &)> onMessage;
};
using FeedPtr = std::shared_ptr<Feed>;

std::vector<Value> randomSequence(Rng &r, int max = 40) {
    std::vector<Value> v;
    int n = r.chance(10) ? 0 : 1 + int(r.below(uint64_t(max)));
    bool tiny = r.chance(40);
    for (int i = 0; i < n; ++i) {
        v.push_back(randomValue(r, !tiny && i < 3));
        if (tiny) v.back().payload = v.back().payload.substr(0, 12);
        if (!(v.back() == Value())) v.back().seq = i + 1;
    }
    return v;
}
std::string framed(const std::vector<Value> &v) {
    std::string b;
    for (auto &x : v) b += Script::frame(encode(x));
    return b;
}
// one message per DATA frame, or the whole sequence cut anywhere
void addMessages(Script &s, const std::vector<Value> &v, Rng &r, std::string *shape) {
    if (v.empty()) return;
    if (r.chance(25)) {
        *shape += "permessage";
        for (auto &x : v) {
            s.data(Script::frame(encode(x)));
            if (r.chance(40)) s.sleep(int(r.below(1500)));
        }
    } else if (r.chance(30)) {   // several bursts, each cut in its own way
        size_t from = 0;
        while (from < v.size()) {
            size_t n = 1 + r.below(v.size() - from);
            addData(s, framed(std::vector<Value>(v.begin() + long(from), v.begin() + long(from + n))), r, shape);
            *shape += "+";
            if (r.chance(60)) s.sleep(int(r.below(3000)));
            from += n;
        }
    } else {
        addData(s, framed(v), r, shape);
    }
}
template<class Client> void subscribe(const FeedPtr &f, Client *client, const vpgrpc::Req &req, QObject *context, bool other = false);
void listen(const FeedPtr &f, QObject *context) {
    std::weak_ptr<Feed> weak = f;
    QGrpcStream *raw = f->stream.get();
    QObject::connect(raw, &QGrpcStream::messageReceived, context, [f, raw] {
        if (f->errors) return;   // the client subscribes again after an error: a new sequence, not judged here
        f->got.push_back(read(raw->read<vpgrpc::Res>()));
        if (f->useRet) f->viaRet.push_back(read(f->ret));
        if (f->second) f->viaRet2.push_back(read(f->ret2));
        if (f->aborted) f->afterAbort++;
        if (f->onMessage) f->onMessage(*f);
        if (f->abortInSlot && !f->aborted && int(f->got.size()) == f->abortAt) {
            f->aborted = true;
            raw->abort();
        }
    });
    QObject::connect(raw, &QGrpcStream::finished, context, [f] { f->finished++; });
    QObject::connect(raw, &QGrpcStream::error, context, [f](const QGrpcStatus &s) {
        if (f->errors && f->since.elapsed() > 700) return;   // of the next attempt
        if (!f->errors) f->since.start();
        f->errors++;
        f->gotCode = int(s.code());
        f->gotMessage = utf8(s.message());
    });
}
template<class Client> void subscribe(const FeedPtr &f, Client *client, const vpgrpc::Req &req, QObject *context, bool other) {
    (void)other;
    f->stream = f->useRet ? client->streamFeed(req, QPointer<vpgrpc::Res>(&f->ret)) : client->streamFeed(req);
    if (f->stream) listen(f, context);
}
std::string describe(const std::vector<Value> &want, const std::vector<Value> &got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    return std::to_string(want.size()) + " sent, " + std::to_string(got.size()) + " received, first difference at " + std::to_string(i) + ": "
            + (i < want.size() ? want[i].brief() : "end") + " / " + (i < got.size() ? got[i].brief() : "end");
}
std::string howDifferent(const std::vector<Value> &want, const std::vector<Value> &got) {
    if (got.size() < want.size()) return "lost";
    if (got.size() > want.size()) return "duplicated or invented";
    return "changed or reordered";
}

void deliver() {
    H2Server server([](const Request &r) { return plans(r); });
    std::shared_ptr<QAbstractGrpcChannel> channel;
    std::unique_ptr<vpgrpc::SvcClient> client;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        std::string id = "deliver " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        if (!channel || r.chance(10)) {
            client.reset();
            channel = makeChannel(server.port());
            client.reset(new vpgrpc::SvcClient);
            client->attachChannel(channel);
        }
        server.setDribble(r.chance(25) ? 1 + int(r.below(60)) : 0, int(r.below(200)));
        server.setFrameSize(r.chance(30) ? 1 + int(r.below(3000)) : 16384);
        int n = 1 + int(r.below(4));
        std::vector<FeedPtr> feeds;
        std::unique_ptr<QObject> context(new QObject);
        bool thread = r.chance(15);
        for (int i = 0; i < n; ++i) {
            FeedPtr f = std::make_shared<Feed>();
            feeds.push_back(f);
            f->id = nextId++;
            f->sent = randomSequence(r);
            f->useRet = r.chance(50);
            Script s;
            s.headers();
            if (thread) s.hold();
            addMessages(s, f->sent, r, &f->shape);
            switch (r.below(4)) {
            case 0: case 1: f->end = "ok"; s.status(0); break;
            case 2: f->end = "status"; f->code = 1 + int(r.below(16)); f->message = r.chance(50) ? "why not" : "\xc3\xa4 100%"; s.status(f->code, percentEncode(f->message)); break;
            default:
                f->end = "hold";
                s.hold().status(0);
                if (!f->sent.empty() && r.chance(50)) {
                    f->abortAt = 1 + int(r.below(f->sent.size()));
                    f->abortInSlot = r.chance(50);
                    f->end = "abort";
                }
                break;
            }
            plans.add(f->id, s);
            vpgrpc::Req req = request(f->id, r);
            vpgrpc::SvcClient *cl = client.get();
            if (thread) {
                Worker w;
                w.f = [&] { f->stream = f->useRet ? cl->streamFeed(req, QPointer<vpgrpc::Res>(&f->ret)) : cl->streamFeed(req); };
                w.start();
                spin([&] { return w.isFinished(); }, Patience);
                w.wait();
                if (f->stream) listen(f, context.get());
                spin([&] { return plans.count(f->id) > 0; }, Patience);
                for (uint64_t k : plans.of(f->id)) server.release(k);
            } else {
                subscribe(f, cl, req, context.get());
            }
            if (!f->stream) {
                result.violation("no stream object " + channelName(), "subscription on an attached channel returned nothing", id);
                continue;
            }
            if (r.chance(25)) {   // the same subscription again: one more receiver of the same stream
                if (r.chance(50)) settle(int(r.below(6)));
                f->secondFrom = f->got.size();
                if (!f->finished && !f->errors && !f->aborted) {
                    QGrpcStreamShared again = client->streamFeed(req, QPointer<vpgrpc::Res>(&f->ret2));
                    if (again != f->stream) {
                        result.violation("second subscription " + channelName(), "subscribing again with the same argument returned another stream", id);
                    } else {
                        f->second = true;
                        result.count("second_subscribers");
                    }
                }
            }
            if (r.chance(30)) settle(int(r.below(4)));
        }
        bool all = spin([&] {
            for (auto &f : feeds) {
                if (f->abortAt >= 0 && !f->abortInSlot && !f->aborted && int(f->got.size()) >= f->abortAt) {
                    f->aborted = true;
                    f->stream->abort();
                }
                if (f->end == "ok" ? !f->finished : f->end == "status" ? !f->errors : f->end == "abort" ? !f->finished : f->got.size() < f->sent.size()) return false;
            }
            return true;
        }, Patience);
        settle(1 + int(r.below(5)));
        for (auto &f : feeds) {
            result.evaluations++;
            result.count("messages_sent", long(f->sent.size()));
            result.count("messages_received", long(f->got.size()));
            result.count("end_" + f->end);
            std::string key = channelName() + " " + f->end;
            std::string what = " (cuts: " + f->shape.substr(0, 60) + ")";
            result.nontrivial(f->shape + f->end + framed(f->sent));
            std::vector<Value> want = f->sent;
            if (f->end == "abort") {
                if (f->afterAbort) result.violation("messages after abort " + key, std::to_string(f->afterAbort) + " messages were delivered after abort" + what, id);
                want.resize(std::min(want.size(), f->got.size()));
            }
            if (!(want == f->got)) {
                result.violation("messages " + howDifferent(want, f->got) + " " + key, describe(want, f->got) + what, id);
                continue;
            }
            if (f->useRet && f->viaRet != f->got) result.violation("return object " + key, describe(f->got, f->viaRet) + what, id);
            if (f->second && std::vector<Value>(f->got.begin() + long(std::min(f->secondFrom, f->got.size())), f->got.end()) != f->viaRet2)
                result.violation("second receiver " + key, describe(std::vector<Value>(f->got.begin() + long(f->secondFrom), f->got.end()), f->viaRet2) + what, id);
            if (f->end == "ok" && (f->finished != 1 || f->errors)) result.violation("end not reported " + key, std::to_string(f->finished) + " finished, " + std::to_string(f->errors) + " errors after the server ended the stream" + what, id);
            if (f->end == "status") {
                if (f->errors != 1 || f->finished) result.violation("error not reported once " + key, std::to_string(f->finished) + " finished, " + std::to_string(f->errors) + " errors" + what, id);
                else if (f->gotCode != f->code || f->gotMessage != f->message) result.violation("wrong status " + key, "sent " + std::to_string(f->code) + " '" + f->message + "', reported " + std::to_string(f->gotCode) + " '" + f->gotMessage + "'", id);
            }
            if (f->end == "abort" && f->finished != 1) result.violation("abort not finished " + key, std::to_string(f->finished) + " finished signals" + what, id);
            if (f->end == "hold" && (f->finished || f->errors)) result.violation("ended by itself " + key, std::to_string(f->finished) + " finished, " + std::to_string(f->errors) + " errors while the server keeps the stream open", id);
            if (plans.count(f->id) != 1 && f->end != "status") result.violation("requests " + key, std::to_string(plans.count(f->id)) + " requests reached the server for one subscription", id);
        }
        if (!all) result.count("waited_in_vain");
        result.sample(id + ": " + feeds[0]->shape.substr(0, 100) + " " + feeds[0]->end);
        context.reset();
        for (auto &f : feeds) if (f->stream && !f->finished) f->stream->abort();
        for (auto &f : feeds) f->stream.reset();
    }
    client.reset();
    channel.reset();
    settle(20);
    result.count("server_connections", long(server.connections()));
    result.count("server_requests", long(server.requestCount()));
}

#ifndef VP_GRPC_BASE_ONLY
#include "grpc_life.inc"
#include "grpc_tls.inc"
#endif
}

#ifndef VP_GRPC_BASE_ONLY
int main(int argc, char **argv) {
    options = parseOptions(argc, argv);
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
    native = options.more["channel"] == "native";
    if (options.mode == "unary") unary();
    else if (options.mode == "deliver") deliver();
    else if (options.mode == "lifecycle") lifecycle();
    else if (options.mode == "lifetime") lifetime();
    else if (options.mode == "requests") requests();
    else if (options.mode == "secure") secure();
    else return 2;
    result.write(options.out);
    return 0;
}
#endif
