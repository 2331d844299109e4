// ---------------------------------------------------------------- the life of subscriptions and calls
// Scenarios run concurrently in one event loop; each is a small state machine polled every millisecond.
// "Has to happen" is given Patience; "must not happen" is watched for a fixed time and needs no assumption about speed.

const int RetryWindow = 1700;   // the client subscribes again 1 s after an error: how long its absence is watched

struct Scenario {
    std::string name, trace;
    Rng r;
    std::string id;
    H2Server &server, &other;
    std::unique_ptr<QObject> context{new QObject};
    std::shared_ptr<QAbstractGrpcChannel> channel;
    std::unique_ptr<vpgrpc::SvcClient> client;
    QElapsedTimer clock, step;
    int phase = 0;
    bool complete = false;
    std::vector<std::pair<int, std::string>> clientErrors;

    Scenario(const std::string &n, uint64_t seed, const std::string &id, H2Server &a, H2Server &b) : name(n), r(seed), id(id), server(a), other(b) {
        clock.start();
        step.start();
    }
    virtual ~Scenario() {}
    virtual void start() = 0;
    virtual void tick() = 0;
    void attach(H2Server &s) {
        channel = makeChannel(s.port());
        if (!client) {
            client.reset(new vpgrpc::SvcClient);
            QObject::connect(client.get(), &QAbstractGrpcClient::error, context.get(), [this](const QGrpcStatus &st) {
                clientErrors.push_back({int(st.code()), utf8(st.message())});
            });
        }
        client->attachChannel(channel);
    }
    void bad(const std::string &k, const std::string &what) { result.violation(k + " " + channelName() + " " + name, what + " [" + trace.substr(0, 400) + "]", id); }
    void next(const std::string &what) { trace += "; " + std::to_string(clock.elapsed()) + " " + what; phase++; step.restart(); }
    void end(const std::string &what) { trace += "; " + std::to_string(clock.elapsed()) + " " + what; complete = true; }
    // true when done; reports and ends the scenario when it does not happen
    bool must(bool done, const std::string &what) {
        if (!done && step.elapsed() > Patience) {
            bad("does not happen: " + what, what + " did not happen within " + std::to_string(Patience) + " ms");
            end("missing");
        }
        return done;
    }
    bool cancelled(H2Server &s, uint64_t serial) {
        for (auto &q : s.requests()) if (q.serial == serial) return q.cancelled;
        return false;
    }
};

struct Sub {   // one observed subscription
    int64_t id = 0;
    QGrpcStreamShared stream;
    QPointer<QGrpcStream> alive;
    std::vector<Value> got;
    int finished = 0;
    std::vector<std::pair<int, std::string>> errors;
    QElapsedTimer sinceError;
    std::function<void()> onMessage, onError, onFinished;
};
using SubPtr = std::shared_ptr<Sub>;
void watch(const SubPtr &f, QObject *context) {
    QGrpcStream *raw = f->stream.get();
    f->alive = raw;
    std::weak_ptr<Sub> weak = f;
    QObject::connect(raw, &QGrpcStream::messageReceived, context, [weak, raw] {
        SubPtr f = weak.lock();
        if (!f) return;
        f->got.push_back(read(raw->read<vpgrpc::Res>()));
        if (f->onMessage) f->onMessage();
    });
    QObject::connect(raw, &QGrpcStream::finished, context, [weak] {
        SubPtr f = weak.lock();
        if (!f) return;
        f->finished++;
        if (f->onFinished) f->onFinished();
    });
    QObject::connect(raw, &QGrpcStream::error, context, [weak](const QGrpcStatus &s) {
        SubPtr f = weak.lock();
        if (!f) return;
        f->errors.push_back({int(s.code()), utf8(s.message())});
        f->sinceError.start();
        if (f->onError) f->onError();
    });
}
std::vector<Value> someValues(Rng &r, int from, int to) {
    std::vector<Value> v;
    for (int i = 0; i < from + int(r.below(uint64_t(to - from + 1))); ++i) {
        v.push_back(randomValue(r, false));
        v.back().seq = i + 1;
        v.back().id = int64_t(r.next() >> 1);
    }
    return v;
}
Script messages(const std::vector<Value> &v, Rng &r) {
    Script s;
    std::string shape;
    s.headers();
    addMessages(s, v, r, &shape);
    return s;
}
vpgrpc::Req smallRequest(int64_t id, Rng &r) {
    vpgrpc::Req q;
    q.setId_proto(id);
    std::string p = randomBytes(r, r.below(40));
    q.setPayload(QByteArray(p.data(), int(p.size())));
    return q;
}
std::string sizes(size_t a, size_t b) { return std::to_string(a) + "/" + std::to_string(b); }

// an error is reported and the subscription is established again, with the same request; a new sequence is delivered
struct Retry : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> first, second, all;
    int code = 0;
    std::string how;
    int failures = 1;
    void start() override {
        f->id = nextId++;
        first = someValues(r, 0, 4);
        second = someValues(r, 1, 5);
        failures = r.chance(20) ? 2 : 1;
        for (int i = 0; i < failures; ++i) {
            Script s = messages(first, r);
            code = 1 + int(r.below(16));
            how = "status " + std::to_string(code);
            s.status(code, "no");
            plans.add(f->id, s);
            for (auto &v : first) all.push_back(v);
        }
        plans.add(f->id, messages(second, r).hold().status(0));
        for (auto &v : second) all.push_back(v);
        attach(server);
        f->stream = client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
        if (r.chance(50)) f->stream.reset();   // the subscription belongs to the client
        trace = how;
    }
    void tick() override {
        if (phase == 0) {
            if (!must(f->errors.size() >= size_t(failures), "the error of the server is reported")) return;
            if (f->errors.size() > size_t(failures)) bad("too many errors", std::to_string(f->errors.size()) + " errors for " + std::to_string(failures) + " failures");
            if (f->errors.back().first != code) bad("wrong code", std::to_string(f->errors.back().first) + " instead of " + std::to_string(code));
            if (clientErrors != f->errors) bad("errors of the client", std::to_string(clientErrors.size()) + " errors of the client, " + std::to_string(f->errors.size()) + " of the stream");
            next("errors");
        } else if (phase == 1) {
            if (!must(f->got.size() >= all.size(), "the failed stream is established again and delivers")) return;
            next("delivered");
        } else if (step.elapsed() > 30) {
            if (!(f->got == all)) bad("messages after retry", describe(all, f->got));
            if (f->finished) bad("finished", "finished although the server keeps the stream open");
            auto serials = plans.of(f->id);
            if (serials.size() != size_t(failures) + 1) bad("requests", std::to_string(serials.size()) + " requests for " + std::to_string(failures) + " failures");
            std::vector<std::string> bodies, paths;
            for (auto &q : server.requests()) {
                if (std::find(serials.begin(), serials.end(), q.serial) != serials.end()) {
                    bodies.push_back(q.body);
                    paths.push_back(q.path);
                }
            }
            for (size_t i = 1; i < bodies.size(); ++i) if (bodies[i] != bodies[0] || paths[i] != paths[0]) bad("other request", "the repeated request differs from the first: " + paths[i] + " " + hex(bodies[i]));
            end("ok");
        }
    }
};
// aborted while waiting to be established again: it stays dead
struct AbortInWait : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    int delay = 0;
    size_t requests = 0;
    bool inSlot = false, drop = false;
    void start() override {
        f->id = nextId++;
        plans.add(f->id, messages(someValues(r, 0, 2), r).status(14, "later"));
        plans.add(f->id, messages(someValues(r, 1, 3), r).hold().status(0));
        delay = int(r.below(800));
        inSlot = r.chance(30);
        drop = r.chance(40);
        attach(server);
        f->stream = client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
        if (inSlot) f->onError = [this] { if (phase == 0) doAbort(); };
    }
    void doAbort() {
        requests = plans.count(f->id);
        QGrpcStreamShared s = f->stream;
        if (drop) f->stream.reset();
        s->abort();
        next(inSlot ? "aborted in slot" : "aborted");
    }
    size_t got = 0;
    void tick() override {
        if (phase == 0) {
            if (!must(!f->errors.empty(), "the error of the server is reported")) return;
            if (f->sinceError.elapsed() < delay) return;
            if (f->sinceError.elapsed() > 900 || plans.count(f->id) > 1) {
                result.count("inconclusive_late");
                return end("too late");
            }
            got = f->got.size();
            doAbort();
        } else if (phase == 1) {
            if (inSlot) { got = f->got.size(); inSlot = false; }
            if (step.elapsed() < RetryWindow) return;
            if (plans.count(f->id) != requests) bad("subscribed after abort", "the aborted stream was established again: " + std::to_string(plans.count(f->id)) + " requests");
            if (f->got.size() != got) bad("messages after abort", std::to_string(f->got.size() - got) + " messages after abort");
            if (f->finished != 1) bad("finished", std::to_string(f->finished) + " finished signals for one abort");
            if (f->errors.size() != 1) bad("errors", std::to_string(f->errors.size()) + " errors");
            end("ok");
        }
    }
};
// same method and argument: one stream; everything else: separate streams
struct Duplicates : Scenario {
    using Scenario::Scenario;
    std::vector<SubPtr> subs;
    std::vector<Value> sequence[3];
    int64_t ids[2];
    vpgrpc::Req a, b;
    std::vector<std::unique_ptr<vpgrpc::Res>> objects;
    int copies = 0;
    bool aborted = false;
    void start() override {
        attach(server);
        for (int i = 0; i < 2; ++i) {
            ids[i] = nextId++;
            sequence[i] = someValues(r, 1, 6);
            plans.add(ids[i], messages(sequence[i], r).hold().status(0));
        }
        a = smallRequest(ids[0], r);
        b = smallRequest(ids[1], r);
        copies = 2 + int(r.below(3));
        for (int i = 0; i < copies; ++i) {
            SubPtr f = std::make_shared<Sub>();
            f->id = ids[0];
            objects.emplace_back(new vpgrpc::Res);
            f->stream = r.chance(50) ? client->streamFeed(a, QPointer<vpgrpc::Res>(objects.back().get())) : client->streamFeed(a);
            if (subs.empty()) watch(f, context.get());
            subs.push_back(f);
            if (r.chance(20)) client->streamFeed(a);   // nobody keeps it
        }
        SubPtr f = std::make_shared<Sub>();
        f->stream = client->streamFeed(b);
        watch(f, context.get());
        subs.push_back(f);
        f = std::make_shared<Sub>();
        f->stream = client->streamOtherFeed(a);
        watch(f, context.get());
        subs.push_back(f);
    }
    void tick() override {
        size_t n = size_t(copies);
        if (phase == 0) {
            if (!must(subs[0]->got.size() >= sequence[0].size() && subs[n]->got.size() >= sequence[1].size() && subs[n + 1]->got.size() >= sequence[0].size(), "every subscription receives its messages")) return;
            next("delivered");
        } else if (phase == 1) {
            if (step.elapsed() < 20) return;
            for (size_t i = 1; i < n; ++i) if (subs[i]->stream != subs[0]->stream) bad("separate streams", "subscribing again to the same method with the same argument made another stream");
            if (subs[n]->stream == subs[0]->stream) bad("joined streams", "subscriptions with different arguments share a stream");
            if (subs[n + 1]->stream == subs[0]->stream) bad("joined methods", "subscriptions of different methods share a stream");
            if (!(subs[0]->got == sequence[0])) bad("messages", describe(sequence[0], subs[0]->got));
            if (!(subs[n]->got == sequence[1])) bad("messages", describe(sequence[1], subs[n]->got));
            if (!(subs[n + 1]->got == sequence[0])) bad("messages", describe(sequence[0], subs[n + 1]->got));
            if (plans.count(ids[0]) != 2 || plans.count(ids[1]) != 1) bad("requests", sizes(plans.count(ids[0]), plans.count(ids[1])) + " requests instead of 2/1");
            // abort of one leaves the others alone
            subs[0]->stream->abort();
            next("abort one");
        } else {
            uint64_t cancelledCount = 0;
            for (auto s : plans.of(ids[0])) cancelledCount += cancelled(server, s);
            if (!must(cancelledCount >= 1, "the server learns that a stream was aborted")) return;
            if (step.elapsed() < 20) return;
            if (cancelledCount != 1 || cancelled(server, plans.of(ids[1])[0])) bad("others cancelled", "aborting one stream cancelled others");
            if (subs[0]->finished != 1 || subs[n]->finished || subs[n + 1]->finished) bad("others finished", "aborting one stream finished others");
            end("ok");
        }
    }
};
// several streams at a time, of the same method and of another: each that ends leaves the others alone, they stay what an equal subscription joins, and are established again when they fail
struct Siblings : Scenario {
    using Scenario::Scenario;
    struct Member { SubPtr f; bool otherMethod = false, over = false; vpgrpc::Req req; std::vector<Value> sequence; };
    std::vector<Member> members;
    std::vector<size_t> order;
    size_t survivor = 0, ended = 0;
    std::vector<Value> second;
    int code = 0;
    QGrpcStreamShared subscribe(const Member &m) { return m.otherMethod ? client->streamOtherFeed(m.req) : client->streamFeed(m.req); }
    void start() override {
        attach(server);
        size_t n = 3 + r.below(4);
        survivor = r.below(n);
        code = 1 + int(r.below(16));
        second = someValues(r, 1, 4);
        members.resize(n);
        for (size_t i = 0; i < n; ++i) {
            Member &m = members[i];
            m.f = std::make_shared<Sub>();
            m.f->id = nextId++;
            m.otherMethod = r.chance(25);
            m.req = smallRequest(m.f->id, r);
            m.sequence = someValues(r, 1, 3);
            plans.add(m.f->id, messages(m.sequence, r).hold().status(i == survivor ? code : 0));
            if (i == survivor) plans.add(m.f->id, messages(second, r).hold().status(0));
            m.f->stream = subscribe(m);
            watch(m.f, context.get());
            if (i != survivor) order.insert(order.begin() + long(r.below(order.size() + 1)), i);
        }
        trace = std::to_string(n) + " streams, the last is " + std::to_string(survivor);
    }
    void tick() override {
        Member &last = members[survivor];
        if (phase == 0) {
            for (auto &m : members) if (!must(m.f->got.size() >= m.sequence.size(), "every subscription receives its messages")) return;
            next("delivered");
        } else if (phase == 1) {
            if (ended == order.size()) {
                server.release(plans.of(last.f->id)[0]);
                phase = 2;
                return next("fail");
            }
            Member &m = members[order[ended]];
            if (r.chance(50)) { trace += "; abort " + std::to_string(order[ended]); m.f->stream->abort(); }
            else { trace += "; server ends " + std::to_string(order[ended]); server.release(plans.of(m.f->id)[0]); }
            next("end");
        } else if (phase == 2) {
            Member &gone = members[order[ended]];
            if (!must(gone.f->finished >= 1, "the end of the stream is reported")) return;
            if (step.elapsed() < 20) return;
            gone.over = true;
            gone.f->stream.reset();
            ended++;
            auto requests = server.requests();
            for (size_t i = 0; i < members.size(); ++i) {
                Member &m = members[i];
                if (m.over) {
                    if (m.f->finished != 1) bad("signals", std::to_string(m.f->finished) + " ends of one stream");
                    continue;
                }
                if (m.f->finished || !m.f->errors.empty()) bad("others finished", "the end of one stream ended another");
                auto serials = plans.of(m.f->id);
                for (auto &q : requests) if (q.serial == serials[0] && q.cancelled) bad("others cancelled", "the end of one stream cancelled another");
                QGrpcStreamShared again = subscribe(m);
                if (again != m.f->stream) {
                    bad("separate streams", "after the end of another stream, subscribing again to the same method with the same argument made another stream");
                    return end("separate");
                }
                if (plans.count(m.f->id) != 1) bad("requests", std::to_string(plans.count(m.f->id)) + " requests for one stream");
            }
            phase = 0;
            next("checked");
        } else if (phase == 3) {
            if (!must(last.f->got.size() >= last.sequence.size() + second.size(), "the failed stream is established again after its neighbours ended, and delivers")) return;
            next("delivered again");
        } else if (step.elapsed() > 20) {
            auto all = last.sequence;
            all.insert(all.end(), second.begin(), second.end());
            if (!(last.f->got == all)) bad("messages after retry", describe(all, last.f->got));
            if (last.f->errors.size() != 1 || last.f->errors[0].first != code) bad("errors", std::to_string(last.f->errors.size()) + " errors");
            if (last.f->finished) bad("finished", "finished although the server keeps the stream open");
            if (clientErrors != last.f->errors) bad("errors of the client", std::to_string(clientErrors.size()) + " errors of the client");
            for (auto &m : members) if (plans.count(m.f->id) != (m.f == last.f ? 2 : 1)) bad("requests", std::to_string(plans.count(m.f->id)) + " requests");
            end("ok");
        }
    }
};
// abort while messages flow: nothing afterwards, the server is told, the same subscription can be made again
struct AbortFlow : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>(), again = std::make_shared<Sub>();
    std::vector<Value> sequence, second;
    vpgrpc::Req req;
    size_t at = 0, after = 0;
    bool aborted = false, inSlot = false, thread = false, ret = false;
    vpgrpc::Res object;
    std::unique_ptr<Worker> worker;
    void start() override {
        f->id = nextId++;
        sequence = someValues(r, 3, 30);
        second = someValues(r, 1, 5);
        at = 1 + r.below(sequence.size() - 1);
        inSlot = r.chance(50);
        thread = !inSlot && r.chance(30);
        ret = r.chance(30);
        Script s;
        s.headers();
        for (auto &v : sequence) {
            s.data(Script::frame(encode(v)));
            if (r.chance(30)) s.sleep(int(r.below(3000)));
        }
        plans.add(f->id, s.hold().status(0));
        plans.add(f->id, messages(second, r).hold().status(0));
        attach(server);
        req = smallRequest(f->id, r);
        f->stream = ret ? client->streamFeed(req, QPointer<vpgrpc::Res>(&object)) : client->streamFeed(req);
        watch(f, context.get());
        f->onMessage = [this] {
            if (aborted) after++;
            else if (inSlot && f->got.size() == at) {
                aborted = true;
                f->stream->abort();
            }
        };
    }
    void tick() override {
        if (phase == 0) {
            if (aborted) return next("aborted in slot");
            if (!must(f->got.size() >= at, "messages arrive")) return;
            if (inSlot) return;
            if (thread) {
                worker.reset(new Worker);
                QGrpcStreamShared s = f->stream;
                worker->f = [s] { s->abort(); };
                f->onFinished = [this] { aborted = true; };
                worker->start();
            } else {
                aborted = true;
                f->stream->abort();
            }
            next("aborted");
        } else if (phase == 1) {
            if (!must(f->finished >= 1 && (!worker || worker->isFinished()), "abort is reported as finished")) return;
            if (!must(cancelled(server, plans.of(f->id)[0]), "the server learns that the stream was aborted")) return;
            next("cancelled");
        } else if (phase == 2) {
            if (step.elapsed() < 20) return;
            if (after) bad("messages after abort", std::to_string(after) + " messages after abort");
            if (f->finished != 1 || !f->errors.empty()) bad("signals of abort", std::to_string(f->finished) + " finished, " + std::to_string(f->errors.size()) + " errors");
            if (f->got.size() > sequence.size() || !(std::vector<Value>(sequence.begin(), sequence.begin() + long(std::min(sequence.size(), f->got.size()))) == f->got)) bad("messages", describe(sequence, f->got));
            if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
            again->stream = client->streamFeed(req);
            if (again->stream == f->stream) bad("dead stream reused", "subscribing after abort returned the aborted stream");
            watch(again, context.get());
            next("again");
        } else if (phase == 3) {
            if (!must(again->got.size() >= second.size(), "a subscription after abort delivers")) return;
            next("delivered");
        } else if (step.elapsed() > 20) {
            if (!(again->got == second)) bad("messages of second subscription", describe(second, again->got));
            if (f->finished != 1 || after) bad("old stream disturbed", "the aborted stream reported something");
            if (plans.count(f->id) != 2) bad("requests", std::to_string(plans.count(f->id)) + " requests for two subscriptions");
            end("ok");
        }
    }
    ~AbortFlow() override { if (worker) { spin([&] { return worker->isFinished(); }, Patience); worker->wait(); } }
};
// the server ends the stream with OK: finished once, not established again by itself
struct ServerEnd : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>(), again = std::make_shared<Sub>();
    std::vector<Value> sequence, second;
    vpgrpc::Req req;
    bool resubscribeInSlot = false;
    void start() override {
        f->id = nextId++;
        sequence = someValues(r, 0, 6);
        second = someValues(r, 1, 6);
        plans.add(f->id, messages(sequence, r).status(0));
        plans.add(f->id, messages(second, r).hold().status(0));
        attach(server);
        req = smallRequest(f->id, r);
        f->stream = client->streamFeed(req);
        watch(f, context.get());
        if (r.chance(50)) f->stream.reset();
    }
    void tick() override {
        if (phase == 0) {
            if (!must(f->finished >= 1, "the end of the stream is reported")) return;
            next("finished");
        } else if (phase == 1) {
            if (step.elapsed() < RetryWindow) return;
            if (f->finished != 1 || !f->errors.empty()) bad("signals", std::to_string(f->finished) + " finished, " + std::to_string(f->errors.size()) + " errors");
            if (!(f->got == sequence)) bad("messages", describe(sequence, f->got));
            if (plans.count(f->id) != 1) bad("established again", "a stream the server ended was requested again without being asked");
            if (!clientErrors.empty()) bad("client error", "an error was signalled for a stream ended with OK");
            again->stream = client->streamFeed(req);
            watch(again, context.get());
            next("again");
        } else if (phase == 2) {
            if (!must(again->got.size() >= second.size(), "a subscription after the end delivers")) return;
            if (!(again->got == second)) bad("messages of second subscription", describe(second, again->got));
            if (plans.count(f->id) != 2) bad("requests", std::to_string(plans.count(f->id)) + " requests for two subscriptions");
            end("ok");
        }
    }
};
// another channel: the streams of the old one end, new ones use the new one
struct Swap : Scenario {
    using Scenario::Scenario;
    std::vector<SubPtr> subs, fresh;
    std::vector<vpgrpc::Req> reqs;
    std::vector<std::vector<Value>> sequences;
    std::shared_ptr<QAbstractGrpcChannel> old;
    std::vector<size_t> got;
    bool keepOld = false;
    void start() override {
        attach(server);
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; ++i) {
            SubPtr f = std::make_shared<Sub>();
            f->id = nextId++;
            sequences.push_back(someValues(r, 1, 4));
            plans.add(f->id, messages(sequences[i], r).hold().status(0));
            reqs.push_back(smallRequest(f->id, r));
            f->stream = client->streamFeed(reqs[i]);
            watch(f, context.get());
            subs.push_back(f);
        }
        keepOld = r.chance(50);
    }
    void tick() override {
        if (phase == 0) {
            for (size_t i = 0; i < subs.size(); ++i) if (!must(subs[i]->got.size() >= sequences[i].size(), "messages arrive")) return;
            if (keepOld) old = channel;
            attach(r.chance(50) ? other : server);
            for (auto &f : subs) got.push_back(f->got.size());
            next("swapped");
        } else if (phase == 1) {
            for (auto &f : subs) if (!must(f->finished >= 1, "attaching another channel ends the active streams")) return;
            for (auto &f : subs) if (!must(cancelled(server, plans.of(f->id)[0]), "the server of the old channel learns about the end")) return;
            next("ended");
        } else if (phase == 2) {
            if (step.elapsed() < 20) return;
            for (size_t i = 0; i < subs.size(); ++i) {
                if (subs[i]->finished != 1 || !subs[i]->errors.empty()) bad("signals", std::to_string(subs[i]->finished) + " finished, " + std::to_string(subs[i]->errors.size()) + " errors");
                if (subs[i]->got.size() != got[i]) bad("messages after swap", "messages were delivered after the channel was replaced");
                SubPtr f = std::make_shared<Sub>();
                f->id = subs[i]->id;
                f->stream = client->streamFeed(reqs[i]);
                if (f->stream == subs[i]->stream) bad("dead stream reused", "subscribing on the new channel returned the ended stream");
                watch(f, context.get());
                fresh.push_back(f);
            }
            next("again");
        } else if (phase == 3) {
            for (size_t i = 0; i < fresh.size(); ++i) if (!must(fresh[i]->got.size() >= sequences[i].size(), "subscriptions on the new channel deliver")) return;
            for (size_t i = 0; i < fresh.size(); ++i) {
                if (!(fresh[i]->got == sequences[i])) bad("messages on new channel", describe(sequences[i], fresh[i]->got));
                if (plans.count(fresh[i]->id) != 2) bad("requests", std::to_string(plans.count(fresh[i]->id)) + " requests for two subscriptions");
            }
            end("ok");
        }
    }
};
// another channel while the slots of the ending streams subscribe again at once: what remains talks to the new channel
struct SwapSlot : Scenario {
    using Scenario::Scenario;
    std::vector<SubPtr> subs, now;
    std::vector<vpgrpc::Req> reqs;
    std::vector<std::vector<Value>> sequences;
    std::vector<int> times;
    std::vector<SubPtr> all;
    void hook(size_t i, const SubPtr &f) {
        f->onFinished = [this, i] {
            if (times[i]++ >= 4) return;
            SubPtr again = std::make_shared<Sub>();
            again->id = subs[i]->id;
            again->stream = client->streamFeed(reqs[i]);
            if (!again->stream) return;
            watch(again, context.get());
            now[i] = again;
            all.push_back(again);
            hook(i, again);
        };
    }
    void start() override {
        attach(server);
        size_t n = 1 + r.below(3);
        times.assign(n, 0);
        for (size_t i = 0; i < n; ++i) {
            SubPtr f = std::make_shared<Sub>();
            f->id = nextId++;
            sequences.push_back(someValues(r, 1, 4));
            plans.add(f->id, messages(sequences[i], r).hold().status(0));
            reqs.push_back(smallRequest(f->id, r));
            f->stream = client->streamFeed(reqs[i]);
            watch(f, context.get());
            subs.push_back(f);
            all.push_back(f);
        }
        now = subs;
        for (size_t i = 0; i < n; ++i) if (i == 0 || r.chance(60)) hook(i, subs[i]);
    }
    void tick() override {
        if (phase == 0) {
            for (size_t i = 0; i < subs.size(); ++i) if (!must(subs[i]->got.size() >= sequences[i].size(), "messages arrive")) return;
            attach(other);
            next("swapped");
        } else if (phase == 1) {
            for (size_t i = 0; i < subs.size(); ++i) {
                if (!must(subs[i]->finished >= 1, "attaching another channel ends the active streams")) return;
                if (now[i] == subs[i]) continue;
                if (!must(now[i]->got.size() >= sequences[i].size(), "a subscription made while the channel is replaced delivers")) return;
            }
            auto open = [&] {
                for (auto &q : server.requests()) for (auto &f : subs) {
                    auto serials = plans.of(f->id);
                    if (!q.cancelled && !q.answered && std::find(serials.begin(), serials.end(), q.serial) != serials.end() && Plans::idOf(q.body) == f->id) return true;
                }
                return false;
            };
            if (!must(!open(), "every stream of the old channel is cancelled at its server")) return;
            next("moved");
        } else {
            if (step.elapsed() < 20) return;
            auto requests = other.requests();
            for (size_t i = 0; i < subs.size(); ++i) {
                size_t there = 0;
                for (auto &q : requests) if (Plans::idOf(q.body) == subs[i]->id && !q.cancelled) there++;
                if (there != (now[i] == subs[i] ? 0 : 1)) bad("streams of the new channel", std::to_string(there) + " open streams of one subscription at the new server");
                if (now[i] != subs[i] && (now[i]->finished || !now[i]->errors.empty())) bad("signals", "the subscription made while the channel was replaced has ended");
                if (now[i] != subs[i] && !(now[i]->got == sequences[i])) bad("messages on new channel", describe(sequences[i], now[i]->got));
            }
            for (auto &f : all) if (f->finished > 1 || !f->errors.empty()) bad("signals", std::to_string(f->finished) + " finished, " + std::to_string(f->errors.size()) + " errors");
            end("ok");
        }
    }
};
// work done inside the slots: nested calls, new subscriptions, aborts of other streams
struct Reentrant : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>(), victim = std::make_shared<Sub>(), born = std::make_shared<Sub>();
    std::vector<Value> sequence, bornSequence, calls, callResults;
    vpgrpc::Req req, bornReq;
    std::vector<std::pair<int64_t, Value>> results;
    vpgrpc::Res object, object2, object3;
    int depth = 0, nested = 0;
    bool reads = false;
    std::vector<Value> startOrder;
    std::vector<int> kinds;
    bool viaNotify = false;
    int callFailures = 0;
    void start() override {
        attach(server);
        f->id = nextId++;
        sequence = someValues(r, 4, 15);
        for (size_t i = 0; i < sequence.size(); ++i) kinds.push_back(int(r.below(6)));
        plans.add(f->id, messages(sequence, r).hold().status(0));
        victim->id = nextId++;
        plans.add(victim->id, messages(someValues(r, 1, 3), r).hold().status(0));
        born->id = nextId++;
        bornSequence = someValues(r, 1, 4);
        plans.add(born->id, messages(bornSequence, r).hold().status(0));
        bornReq = smallRequest(born->id, r);
        req = smallRequest(f->id, r);
        victim->stream = client->streamFeed(smallRequest(victim->id, r));
        watch(victim, context.get());
        viaNotify = r.chance(30);
        f->stream = client->streamFeed(req, QPointer<vpgrpc::Res>(&object));
        watch(f, context.get());
        if (viaNotify) {   // subscribe again while the message is being stored
            QObject::connect(&object, &vpgrpc::Res::seqChanged, context.get(), [this] {
                if (client->streamFeed(req, QPointer<vpgrpc::Res>(&object2)) != f->stream) bad("separate streams", "subscribing again inside a notification made another stream");
            });
        }
        f->onMessage = [this] {
            if (f->got.size() > kinds.size()) return;
            switch (kinds[f->got.size() - 1]) {
            case 0: if (depth < 3) call(); break;
            case 1: if (!born->stream) {
                born->stream = client->streamFeed(bornReq);
                watch(born, context.get());
            } break;
            case 2: if (victim->stream && !victim->finished) victim->stream->abort(); break;
            case 3: if (client->streamFeed(req, QPointer<vpgrpc::Res>(&object3)) != f->stream) bad("separate streams", "subscribing again inside a slot made another stream"); break;
            default: break;
            }
        };
    }
    void call() {
        int64_t id = nextId++;
        Value v = randomValue(r, false);
        Script s;
        std::string shape;
        s.headers();
        addData(s, Script::frame(encode(v)), r, &shape);
        plans.add(id, s.status(0));
        vpgrpc::Res res;
        depth++;
        QGrpcStatus st = client->unary(smallRequest(id, r), QPointer<vpgrpc::Res>(&res));
        depth--;
        nested++;
        if (st != QGrpcStatus::Ok) callFailures++;
        else if (!(read(res) == v)) bad("nested call", "a call inside a slot returned " + read(res).brief() + " instead of " + v.brief());
    }
    void tick() override {
        if (phase == 0) {
            if (!must(f->got.size() >= sequence.size() && depth == 0, "messages arrive while slots call back into the client")) return;
            if (born->stream && !must(born->got.size() >= bornSequence.size(), "a subscription made inside a slot delivers")) return;
            next("delivered");
        } else if (step.elapsed() > 20 && depth == 0) {
            if (!(f->got == sequence)) bad("messages", describe(sequence, f->got));
            if (born->stream && !(born->got == bornSequence)) bad("messages of inner subscription", describe(bornSequence, born->got));
            if (f->finished || !f->errors.empty()) bad("signals", "the stream ended by itself");
            if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests for one subscription");
            if (callFailures) { if (clock.elapsed() < 4000) bad("nested call failed", std::to_string(callFailures) + " calls inside a slot failed"); else result.count("inconclusive_slow"); }
            result.count("nested_calls", nested);
            end("ok");
        }
    }
};
// the client goes away: nothing is reported afterwards, the server is told
struct ClientGone : Scenario {
    using Scenario::Scenario;
    std::vector<SubPtr> subs;
    size_t signalsAfter = 0;
    bool gone = false;
    int64_t callId = 0;
    QGrpcCallReplyShared reply;
    bool keepStreams = false, keepChannel = false;
    void start() override {
        attach(server);
        size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i) {
            SubPtr f = std::make_shared<Sub>();
            f->id = nextId++;
            Script s = messages(someValues(r, 1, 3), r);
            s.hold().status(0);
            plans.add(f->id, s);
            f->stream = client->streamFeed(smallRequest(f->id, r));
            watch(f, context.get());
            f->onMessage = f->onError = [this] { if (gone) signalsAfter++; };
            subs.push_back(f);
        }
        if (r.chance(50)) {
            callId = nextId++;
            plans.add(callId, Script().headers().hold().status(0));
            reply = client->unary(smallRequest(callId, r));
        }
        keepStreams = r.chance(50);
        keepChannel = r.chance(70);
        trace = std::string(keepStreams ? "streams kept " : "") + (keepChannel ? "channel kept " : "") + (callId ? "call" : "");
    }
    void tick() override {
        if (phase == 0) {
            for (auto &f : subs) if (!must(f->got.size() >= 1, "messages arrive")) return;
            if (!keepStreams) {
                for (auto &f : subs) f->stream.reset();
                reply.reset();
            }
            gone = true;
            client.reset();
            if (!keepChannel) channel.reset();
            next("client deleted");
        } else if (phase == 1) {
            for (auto &f : subs) if (!must(cancelled(server, plans.of(f->id)[0]), "the server learns that the client is gone")) return;
            next("cancelled");
        } else if (phase == 2) {
            if (step.elapsed() < RetryWindow) return;
            if (signalsAfter) bad("signals after deletion", std::to_string(signalsAfter) + " messages or errors after the client was deleted");
            for (auto &f : subs) if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
            for (auto &f : subs) f->stream.reset();
            reply.reset();
            next("released");
        } else {
            for (auto &f : subs) if (!must(f->alive.isNull(), "the stream object is deleted after its last user")) return;
            end("ok");
        }
    }
};
// a failing neighbour leaves others alone; errors and results go to the right owner
struct Neighbours : Scenario {
    using Scenario::Scenario;
    struct One { int64_t id; bool stream; int code; std::vector<Value> values; SubPtr sub; QGrpcCallReplyShared reply; std::vector<Value> got; int finished = 0; std::vector<int> errors; QPointer<QObject> alive; bool abort = false; };
    std::vector<std::unique_ptr<One>> all;
    void start() override {
        attach(server);
        size_t n = 3 + r.below(6);
        for (size_t i = 0; i < n; ++i) {
            std::unique_ptr<One> o(new One);
            One *p = o.get();
            p->id = nextId++;
            p->stream = r.chance(40);
            p->code = r.chance(50) ? 0 : 1 + int(r.below(16));
            vpgrpc::Req q = smallRequest(p->id, r);
            if (p->stream) {
                p->values = someValues(r, 1, 6);
                plans.add(p->id, messages(p->values, r).status(p->code, "n"));
                p->sub = std::make_shared<Sub>();
                p->sub->stream = client->streamFeed(q);
                watch(p->sub, context.get());
                p->sub->onError = [p] { p->errors.push_back(p->sub->errors.back().first); };
                p->sub->onFinished = [p] { p->finished++; };
                p->alive = p->sub->stream.get();
            } else {
                p->values = someValues(r, 1, 1);
                p->abort = r.chance(20);
                Script s = messages(p->values, r);
                if (p->abort) s.hold();
                plans.add(p->id, s.status(p->code, "n"));
                p->reply = client->unary(q);
                QGrpcCallReply *raw = p->reply.get();
                QObject::connect(raw, &QGrpcCallReply::finished, context.get(), [p, raw] { p->finished++; p->got.push_back(read(raw->read<vpgrpc::Res>())); });
                QObject::connect(raw, &QGrpcCallReply::error, context.get(), [p](const QGrpcStatus &st) { p->errors.push_back(int(st.code())); });
                p->alive = raw;
                if (p->abort && r.chance(50) && native) p->reply->abort();
                if (r.chance(50) && (!p->abort || !p->errors.empty())) p->reply.reset();
            }
            all.push_back(std::move(o));
        }
    }
    void tick() override {
        if (phase == 0) {
            // Qt 5.15 may forget other queued requests when one is removed before the connection is established
            bool sent = true;
            for (auto &o : all) sent = sent && (!o->errors.empty() || plans.count(o->id));
            for (auto &o : all) if (o->abort && o->errors.empty() && sent) o->reply->abort();
            trace.clear();
            for (auto &o : all) trace += std::string(o->stream ? "stream " : o->abort ? "aborted call " : "call ") + std::to_string(o->code) + (o->finished || !o->errors.empty() ? "" : " pending, " + std::to_string(plans.count(o->id)) + " requests") + (o->sub ? " " + sizes(o->values.size(), o->sub->got.size()) : "") + "; ";
            for (auto &o : all) if (!must(o->finished || !o->errors.empty(), "every call and stream completes")) return;
            if (clock.elapsed() > 950) {
                result.count("inconclusive_slow");
                return end("slow");
            }
            next("complete");
        } else if (phase == 1) {
            if (step.elapsed() < 15) return;
            std::multiset<int> want, got;
            for (auto &o : all) {
                int code = o->abort ? int(QGrpcStatus::Aborted) : o->code;
                if (code) want.insert(code);
                if (code ? (o->errors.size() != 1 || o->errors[0] != code || o->finished) : (o->finished != 1 || !o->errors.empty()))
                    bad("wrong outcome", "status " + std::to_string(code) + ": " + std::to_string(o->finished) + " finished, " + std::to_string(o->errors.size()) + " errors, first " + std::to_string(o->errors.empty() ? 0 : o->errors[0]));
                if (o->stream ? !(o->sub->got == o->values) : !code && !(o->got == o->values)) bad("wrong messages", describe(o->values, o->stream ? o->sub->got : o->got));
            }
            for (auto &e : clientErrors) got.insert(e.first);
            if (clock.elapsed() < 950 && want != got) bad("errors of the client", std::to_string(got.size()) + " errors signalled by the client for " + std::to_string(want.size()) + " failures");
            for (auto &o : all) {
                if (o->stream && o->code) o->sub->stream->abort();   // no retry
                if (o->sub) o->sub->stream.reset();
                o->reply.reset();
            }
            next("released");
        } else {
            for (auto &o : all) if (!must(o->alive.isNull(), "objects of completed calls and streams are deleted after their last user")) return;
            end("ok");
        }
    }
};
// without a channel nothing is sent, an error is reported; attaching one makes the client work
struct NoChannel : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> sequence;
    void start() override {
        f->id = nextId++;
        sequence = someValues(r, 1, 4);
        plans.add(f->id, messages(sequence, r).hold().status(0));
        client.reset(new vpgrpc::SvcClient);
        QObject::connect(client.get(), &QAbstractGrpcClient::error, context.get(), [this](const QGrpcStatus &st) { clientErrors.push_back({int(st.code()), utf8(st.message())}); });
        vpgrpc::Req q = smallRequest(f->id, r);
        vpgrpc::Res res;
        int n = 1 + int(r.below(4));
        for (int i = 0; i < n; ++i) {
            size_t was = clientErrors.size();
            bool fine = true;
            switch (r.below(3)) {
            case 0: fine = !client->streamFeed(q); break;
            case 1: fine = !client->unary(q); break;
            default: fine = client->unary(q, QPointer<vpgrpc::Res>(&res)) != QGrpcStatus::Ok; break;
            }
            if (!fine) bad("success without channel", "an operation without a channel did not fail");
            if (clientErrors.size() == was || clientErrors.back().first == 0) bad("no error without channel", "an operation without a channel signalled no error");
        }
        attach(server);
        f->stream = client->streamFeed(q);
        if (!f->stream) { bad("no stream", "nothing returned although a channel is attached"); return end("no stream"); }
        watch(f, context.get());
    }
    void tick() override {
        if (!must(f->got.size() >= sequence.size(), "the client works once a channel is attached")) return;
        if (!(f->got == sequence)) bad("messages", describe(sequence, f->got));
        if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
        end("ok");
    }
};
// the connection breaks: the subscription is established again, without or with an error
struct Broken : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> first, second;
    std::unique_ptr<H2Server> own;
    void start() override {
        f->id = nextId++;
        first = someValues(r, 1, 4);
        second = someValues(r, 1, 4);
        Script s = messages(first, r);
        // a closed connection is not reported by Qt 5.15 to replies in progress (nothing the channel could react to)
        switch (native ? r.below(3) : 1) {
        case 0: s.close(); trace = "close"; break;
        case 1: s.rst(2); trace = "reset"; break;
        default: s.hold(); trace = "drop"; break;
        }
        plans.add(f->id, s);
        plans.add(f->id, messages(second, r).hold().status(0));
        own.reset(new H2Server([](const Request &q) { return plans(q); }));
        attach(*own);
        f->stream = client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
    }
    void tick() override {
        if (phase == 0) {
            if (trace == "drop") {
                if (!must(f->got.size() >= first.size(), "messages arrive")) return;
                own->dropConnections();
            }
            next("broken");
        } else if (phase == 1) {
            if (!must(f->got.size() >= second.size() && !f->got.empty() && f->got.back() == second.back(), "a stream whose connection broke is established again")) return;
            next("delivered");
        } else if (step.elapsed() > 20) {
            // what was under way when the connection broke may be lost, everything else is in order and nothing is invented
            if (f->got.size() < second.size() || !(std::vector<Value>(f->got.end() - long(second.size()), f->got.end()) == second)) {
                bad("messages of new connection", describe(second, f->got));
            } else {
                std::vector<Value> head(f->got.begin(), f->got.end() - long(second.size()));
                if (head.size() > first.size() || !(head == std::vector<Value>(first.begin(), first.begin() + long(head.size())))) bad("messages of first connection", describe(first, head));
            }
            if (f->finished) bad("finished", "a broken connection was reported as the end of the stream");
            if (plans.count(f->id) != 2) bad("requests", std::to_string(plans.count(f->id)) + " requests instead of 2");
            end("ok");
        }
    }
    ~Broken() override {
        client.reset();
        channel.reset();
        settle(2);
    }
};
// the server comes up after the client: errors until then, afterwards the subscription works
struct LateServer : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> sequence;
    std::unique_ptr<H2Server> own;
    int port = 0, delay = 0;
    void start() override {
        f->id = nextId++;
        sequence = someValues(r, 1, 5);
        plans.add(f->id, messages(sequence, r).hold().status(0));
        own.reset(new H2Server([](const Request &q) { return plans(q); }));
        port = own->port();
        own.reset();
        delay = int(r.below(1500));
        client.reset(new vpgrpc::SvcClient);
        channel = makeChannel(port);
        client->attachChannel(channel);
        QObject::connect(client.get(), &QAbstractGrpcClient::error, context.get(), [this](const QGrpcStatus &st) { clientErrors.push_back({int(st.code()), utf8(st.message())}); });
        f->stream = client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
    }
    void tick() override {
        if (phase == 0) {
            if (!must(!f->errors.empty(), "an unreachable server is reported as error")) return;
            if (f->errors[0].first != int(QGrpcStatus::Unavailable) && f->errors[0].first != int(QGrpcStatus::Unimplemented)) bad("wrong code", "unreachable server reported as " + std::to_string(f->errors[0].first));
            next("error");
        } else if (phase == 1) {
            if (step.elapsed() < delay) return;
            own.reset(new H2Server([](const Request &q) { return plans(q); }, port));
            if (!own->port()) {
                result.count("inconclusive_port");
                return end("port taken");
            }
            next("server up");
        } else if (phase == 2) {
            if (!must(f->got.size() >= sequence.size(), "the stream is established when the server comes up")) return;
            next("delivered");
        } else if (step.elapsed() > 20) {
            if (!(f->got == sequence)) bad("messages", describe(sequence, f->got));
            if (f->finished) bad("finished", "finished although the server keeps the stream open");
            if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
            if (clientErrors.size() != f->errors.size()) bad("errors of the client", std::to_string(clientErrors.size()) + " errors of the client, " + std::to_string(f->errors.size()) + " of the stream");
            end("ok");
        }
    }
    ~LateServer() override {
        client.reset();
        channel.reset();
        settle(2);
    }
};
// a message that cannot be decoded: reported, and the slot of the error may do anything with the stream
struct Undecodable : Scenario {
    using Scenario::Scenario;
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> before, after;
    bool abortInError = false, useRet = false;
    vpgrpc::Res object;
    size_t errors = 0;
    void start() override {
        f->id = nextId++;
        before = someValues(r, 0, 3);
        after = someValues(r, 1, 3);
        abortInError = r.chance(40);
        useRet = r.chance(50);
        Script s = messages(before, r);
        s.data(Script::frame(std::string("\x1a\x05" "ab", 4)));
        for (auto &v : after) s.data(Script::frame(encode(v)));
        plans.add(f->id, s.hold().status(0));
        attach(server);
        f->stream = useRet ? client->streamFeed(smallRequest(f->id, r), QPointer<vpgrpc::Res>(&object)) : client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
        QObject::connect(client.get(), &QAbstractGrpcClient::error, context.get(), [this] {
            errors++;
            if (abortInError && !f->finished) f->stream->abort();
        });
    }
    void tick() override {
        if (phase == 0) {
            if (!must(abortInError ? f->finished > 0 : f->got.size() >= before.size() + 1 + after.size(), abortInError ? "the stream can be aborted where the error is signalled" : "messages after an undecodable one arrive")) return;
            next("done");
        } else if (step.elapsed() > 20) {
            if (!errors) bad("no error", "an undecodable message was not reported");
            if (!abortInError) {
                std::vector<Value> tail(f->got.end() - long(after.size()), f->got.end());
                if (!(tail == after)) bad("messages", describe(after, tail));
                if (f->finished || !f->errors.empty()) bad("signals", "the stream ended because of one message");
            } else if (f->finished != 1) {
                bad("signals", std::to_string(f->finished) + " finished signals");
            }
            if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
            end("ok");
        }
    }
};

template<class T> std::unique_ptr<Scenario> make(const std::string &n, uint64_t seed, const std::string &id, H2Server &a, H2Server &b) { return std::unique_ptr<Scenario>(new T(n, seed, id, a, b)); }

// a subscription on which nothing happens for a long time is left alone, and delivers when the server sends again
struct LongLived : Scenario {
    using Scenario::Scenario;
    static constexpr int Quiet = 13000;   // longer than any timeout of the channels
    SubPtr f = std::make_shared<Sub>();
    std::vector<Value> first, all;
    void start() override {
        f->id = nextId++;
        first = someValues(r, 0, 3);
        all = first;
        auto second = someValues(r, 1, 3);
        all.insert(all.end(), second.begin(), second.end());
        Script s = messages(first, r);
        s.sleep(Quiet * 1000);
        std::string shape;
        addMessages(s, second, r, &shape);
        plans.add(f->id, s.hold());
        attach(server);
        f->stream = client->streamFeed(smallRequest(f->id, r));
        watch(f, context.get());
        next("subscribed");
    }
    void tick() override {
        if (step.elapsed() < Quiet && f->errors.empty() && !f->finished) return;
        if (!f->errors.empty()) { bad("idle stream fails", "stream fails although the server keeps it open: " + std::to_string(f->errors[0].first) + " " + f->errors[0].second); return end("failed"); }
        if (f->finished) { bad("idle stream ends", "stream ends although the server keeps it open"); return end("ended"); }
        if (step.elapsed() < Quiet + Patience && f->got.size() < all.size()) return;
        if (!(f->got == all)) bad("messages after a long time", describe(all, f->got));
        if (plans.count(f->id) != 1) bad("requests", std::to_string(plans.count(f->id)) + " requests");
        end("ok");
    }
};

void lifecycle() {
    H2Server server([](const Request &r) { return plans(r); });
    H2Server quiet([](const Request &r) { return plans(r); });
    std::unique_ptr<Scenario> idle;
    if (options.more["only"].empty() || options.more["only"] == "longlived") {
        idle.reset(new LongLived("longlived", options.seed * 1000037, "lifecycle " + channelName() + " seed=" + std::to_string(options.seed) + " longlived", quiet, quiet));
        idle->start();
    }
    H2Server other([](const Request &r) { return plans(r); });
    using Maker = std::unique_ptr<Scenario> (*)(const std::string &, uint64_t, const std::string &, H2Server &, H2Server &);
    static const std::pair<const char *, Maker> makers[] = {
        {"retry", make<Retry>}, {"abortinwait", make<AbortInWait>}, {"duplicates", make<Duplicates>}, {"abortflow", make<AbortFlow>},
        {"serverend", make<ServerEnd>}, {"swap", make<Swap>}, {"reentrant", make<Reentrant>}, {"clientgone", make<ClientGone>},
        {"neighbours", make<Neighbours>}, {"nochannel", make<NoChannel>}, {"broken", make<Broken>}, {"undecodable", make<Undecodable>}, {"lateserver", make<LateServer>}, {"siblings", make<Siblings>}, {"swapslot", make<SwapSlot>}};
    const size_t N = sizeof(makers) / sizeof(makers[0]);
    std::string only = options.more["only"];
    long c = 0;
    while (c < options.cases && !result.tooMany()) {
        std::vector<std::unique_ptr<Scenario>> batch;
        Rng r(options.seed * 7919 + uint64_t(c));
        server.setDribble(r.chance(20) ? 20 + int(r.below(200)) : 0, int(r.below(100)));
        server.setFrameSize(r.chance(30) ? 1 + int(r.below(3000)) : 16384);
        std::string names;
        for (size_t k = 0; k < 2 * N && c < options.cases; ++k, ++c) {
            auto &m = makers[(size_t(c) + r.below(3)) % N];
            if (!only.empty() && only != m.first) continue;
            std::string id = "lifecycle " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c) + " " + m.first;
            batch.push_back(m.second(m.first, options.seed * 1000037 + uint64_t(c), id, server, other));
            names += std::string(m.first) + "#" + std::to_string(c) + " ";
        }
        current("lifecycle " + channelName() + " seed=" + std::to_string(options.seed) + " cases " + names);
        for (auto &s : batch) s->start();
        spin([&] {
            bool all = true;
            for (auto &s : batch) {
                if (!s->complete) s->tick();
                all = all && s->complete;
            }
            return all;
        }, 3 * Patience);
        for (auto &s : batch) {
            result.evaluations++;
            result.count("scenario_" + s->name);
            std::string t;
            for (char ch : s->trace) if (!isdigit(uint8_t(ch))) t += ch;
            result.nontrivial(s->name + s->trace);
            result.sets["histories"].insert(s->name + ": " + t);
            if (!s->complete) s->bad("not finished", "the scenario did not come to its end");
            result.sample(s->id + ": " + s->trace);
        }
        batch.clear();
        settle(3);
    }
    if (idle) {
        current(idle->id);
        spin([&] { idle->tick(); return idle->complete; }, 3 * Patience);
        if (!idle->complete) idle->bad("not finished", "the scenario did not come to its end");
        result.evaluations++;
        result.count("scenario_longlived");
        result.nontrivial(idle->name + idle->trace);
        idle.reset();
    }
    settle(20);
    result.count("server_connections", long(server.connections()));
    result.count("server_requests", long(server.requestCount() + other.requestCount()));
}

// ---------------------------------------------------------------- objects go away in any order
void lifetime() {
    H2Server server([](const Request &r) { return plans(r); });
    struct Op {
        bool stream = false;
        int64_t id = 0;
        QGrpcCallReplyShared reply;
        QGrpcStreamShared sub;
        QPointer<QGrpcAsyncOperationBase> alive;
        size_t client = 0;          // serial of the client
        bool attached = true;       // its client exists and still has the channel the operation was started on
        bool ends = false;          // the server completes it
        int finished = 0, errors = 0, messages = 0;
        Value want;
        std::vector<Value> got;
        bool aborted = false;
    };
    using OpPtr = std::shared_ptr<Op>;
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        std::string id = "lifetime " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        std::vector<std::shared_ptr<QAbstractGrpcChannel>> channels;
        std::map<size_t, std::unique_ptr<vpgrpc::SvcClient>> clients;
        std::vector<OpPtr> ops, released;
        std::unique_ptr<QObject> context(new QObject);
        size_t serial = 0;
        std::string history;
        auto step = [&](const std::string &w) { history += w + " "; current(id + ": " + history); };
        // Qt 5.15 may forget other queued requests when one is removed before the connection is established
        auto disturb = [&] { if (!native) for (auto &o : ops) if (!plans.count(o->id)) o->attached = false; };
        auto detached = [&](size_t k) {
            disturb();
            for (auto &o : ops) if (o->client == k) o->attached = false;
        };
        int steps = 8 + int(r.below(40));
        for (int i = 0; i < steps; ++i) {
            auto pickClient = [&] { auto it = clients.begin(); std::advance(it, long(r.below(clients.size()))); return it; };
            switch (r.below(15)) {
            case 13: {   // started and orphaned in one go
                std::shared_ptr<QAbstractGrpcChannel> ch = makeChannel(server.port());
                std::unique_ptr<vpgrpc::SvcClient> cl(new vpgrpc::SvcClient);
                cl->attachChannel(ch);
                for (size_t k = 1 + r.below(4); k > 0; --k) {
                    auto o = std::make_shared<Op>();
                    o->id = nextId++;
                    o->attached = false;
                    o->stream = r.chance(30);
                    plans.add(o->id, Script().headers().data(Script::frame(encode(Value()))).status(0));
                    if (o->stream) o->alive = (o->sub = cl->streamFeed(smallRequest(o->id, r))).get();
                    else o->alive = (o->reply = cl->unary(smallRequest(o->id, r))).get();
                    ops.push_back(o);
                }
                if (r.chance(50)) {
                    cl.reset();
                    ch.reset();
                } else {
                    ch.reset();
                    cl.reset();
                }
                step("orphans");
                break;
            }
            case 0:
                channels.push_back(makeChannel(server.port()));
                step("channel");
                break;
            case 1:
                if (channels.empty()) channels.push_back(makeChannel(server.port()));
                clients[++serial].reset(new vpgrpc::SvcClient);
                clients[serial]->attachChannel(channels[r.below(channels.size())]);
                step("client");
                break;
            case 2:
                if (clients.empty() || channels.empty() || !r.chance(50)) break;
                {
                    auto it = pickClient();
                    it->second->attachChannel(channels[r.below(channels.size())]);
                    detached(it->first);
                    step("attach");
                }
                break;
            case 3: case 4: case 5: case 6: case 7: {
                if (clients.empty()) break;
                auto it = pickClient();
                auto o = std::make_shared<Op>();
                o->id = nextId++;
                o->client = it->first;
                o->stream = r.chance(50);
                o->want = randomValue(r, false);
                Script s;
                s.headers();
                if (r.chance(30)) s.sleep(int(r.below(5000)));
                for (int k = o->stream ? int(r.below(5)) : 1; k > 0; --k) s.data(Script::frame(encode(o->want)));
                o->ends = r.chance(70);
                if (!o->ends) s.hold();
                if (r.chance(30)) s.sleep(int(r.below(5000)));
                s.status(r.chance(70) ? 0 : 5, "x");
                plans.add(o->id, s);
                vpgrpc::Req q = smallRequest(o->id, r);
                std::weak_ptr<Op> weak = o;
                if (o->stream) {
                    o->sub = it->second->streamFeed(q);
                    o->alive = o->sub.get();
                    QGrpcStream *raw = o->sub.get();
                    QObject::connect(raw, &QGrpcStream::messageReceived, context.get(), [weak, raw] { auto o = weak.lock(); if (o) { o->messages++; read(raw->read<vpgrpc::Res>()); } });
                } else {
                    o->reply = it->second->unary(q);
                    o->alive = o->reply.get();
                }
                QObject::connect(o->alive.data(), &QGrpcAsyncOperationBase::finished, context.get(), [weak] {
                    auto o = weak.lock();
                    if (!o) return;
                    o->finished++;
                    if (!o->stream && o->alive) o->got.push_back(read(o->alive->read<vpgrpc::Res>()));
                });
                QObject::connect(o->alive.data(), &QGrpcAsyncOperationBase::error, context.get(), [weak] { if (auto o = weak.lock()) o->errors++; });
                ops.push_back(o);
                if (r.chance(30)) {
                    o->reply.reset();
                    o->sub.reset();
                }
                step(o->stream ? "stream" : "call");
                break;
            }
            case 8:
                if (ops.empty()) break;
                {
                    OpPtr o = ops[r.below(ops.size())];
                    o->reply.reset();
                    o->sub.reset();
                    step("release");
                }
                break;
            case 9:
                if (clients.empty() || !r.chance(70)) break;
                {
                    auto it = pickClient();
                    detached(it->first);
                    if (r.chance(30)) it->second.release()->deleteLater();
                    clients.erase(it);
                    step("noclient");
                }
                break;
            case 10:
                if (channels.empty()) break;
                disturb();
                channels.erase(channels.begin() + long(r.below(channels.size())));
                step("nochannel");
                break;
            case 11: {
                if (ops.empty()) break;
                OpPtr o = ops[r.below(ops.size())];
                disturb();
                if (o->finished || o->errors) break;
                o->aborted = true;
                if (o->reply) o->reply->abort();
                else if (o->sub) o->sub->abort();
                else o->aborted = false;
                step("abort");
                break;
            }
            case 12: {   // what the owner of a handle may do, whatever happened to the client
                if (ops.empty()) break;
                OpPtr o = ops[r.below(ops.size())];
                if (o->reply) read(o->reply->read<vpgrpc::Res>());
                if (o->sub) {
                    read(o->sub->read<vpgrpc::Res>());
                    o->sub->method();
                }
                step("read");
                break;
            }
            default:
                settle(int(r.below(6)));
                step("run");
            }
        }
        // everything with an owner that still exists completes
        spin([&] {
            for (auto &o : ops) if (o->attached && o->ends && !o->finished && !o->errors) return false;
            return true;
        }, Patience);
        for (auto &o : ops) {
            result.evaluations++;
            result.count(o->stream ? "streams" : "calls");
            std::string key = channelName() + (o->stream ? " stream" : " call");
            if (!o->attached) result.count("orphaned");
            if (o->attached && o->ends && !o->finished && !o->errors) result.violation("never completed " + key, "an operation was never reported as complete: " + history, id);
            if (!o->stream && o->finished + o->errors > 1) result.violation("completed twice " + key, std::to_string(o->finished) + " results, " + std::to_string(o->errors) + " errors: " + history, id);
            for (auto &v : o->got) if (o->attached && !(v == o->want)) result.violation("wrong result " + key, "received " + v.brief() + " instead of " + o->want.brief() + ": " + history, id);
        }
        // release in any order; afterwards nothing is left
        std::vector<int> order{0, 1, 2, 3};
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        for (int what : order) {
            switch (what) {
            case 0: clients.clear(); break;
            case 1: channels.clear(); break;
            case 2: for (auto &o : ops) { o->reply.reset(); o->sub.reset(); } break;
            default: context.reset(); break;
            }
            if (r.chance(40)) settle(int(r.below(4)));
        }
        result.nontrivial(history);
        result.sets["endings"].insert(std::to_string(order[0]) + std::to_string(order[1]) + std::to_string(order[2]) + std::to_string(order[3]));
        bool clean = spin([&] {
            for (auto &o : ops) if (o->alive) return false;
            return true;
        }, Patience);
        if (!clean) {
            int left = 0;
            for (auto &o : ops) left += bool(o->alive);
            result.violation("objects left " + channelName(), std::to_string(left) + " replies or streams exist although client, channel and every handle are gone: " + history, id);
        }
        result.sample(id + ": " + history);
    }
    settle(20);
    result.count("server_requests", long(server.requestCount()));
}

// ---------------------------------------------------------------- what reaches the server
struct Sent { std::string path, message, kind; int64_t id; int times = 1; };
constexpr char customUser[] = "x-login";
constexpr char customPassword[] = "x-secret";
std::string trueBody(const vpgrpc::Req &q) {   // the message with the oracle's rules, from the values
    std::string o;
    if (q.id_proto()) { putVarint(o, 8); putVarint(o, uint64_t(int64_t(q.id_proto()))); }
    if (!q.payload().isEmpty()) { putVarint(o, 18); putVarint(o, size_t(q.payload().size())); o.append(q.payload().constData(), size_t(q.payload().size())); }
    QByteArray t = q.text().toUtf8();
    if (!t.isEmpty()) { putVarint(o, 26); putVarint(o, size_t(t.size())); o.append(t.constData(), size_t(t.size())); }
    return o;
}
// value of a request as its reader sees it: empty fields may be on the wire or not
std::string canonicalRequest(const std::string &m, bool *ok) {
    size_t p = 0;
    *ok = true;
    int64_t id = 0;
    std::string payload, text;
    auto varint = [&]() -> uint64_t {
        uint64_t n = 0;
        for (size_t sh = 0; sh < 70; sh += 7) {
            if (p >= m.size()) { *ok = false; return 0; }
            uint8_t c = uint8_t(m[p++]);
            n |= uint64_t(c & 127) << (sh < 64 ? sh : 63);
            if (!(c & 128)) return n;
        }
        *ok = false;
        return n;
    };
    while (p < m.size() && *ok) {
        uint64_t tag = varint();
        if (tag == 8) { id = int64_t(varint()); continue; }
        if (tag != 18 && tag != 26) { *ok = false; break; }
        uint64_t n = varint();
        if (!*ok || n > m.size() - p) { *ok = false; break; }
        (tag == 18 ? payload : text) = m.substr(p, n);
        p += n;
    }
    return std::to_string(id) + "|" + hex(payload) + "|" + hex(text);
}
void requests() {
    H2Server server([](const Request &r) { return plans(r); });
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        std::string id = "requests " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        std::string user, password, userField, passwordField;
        std::shared_ptr<QAbstractGrpcChannel> channel;
        if (!native && r.chance(70)) {
            static const char *const words[] = {"user", "", "n.a-m_e", "with space", "p%40ss,;=\"word\"", "0"};
            user = words[r.below(6)];
            password = words[r.below(6)];
            std::unique_ptr<QAbstractGrpcCredentials> cred;
            if (r.chance(50)) {
                userField = "user-name";
                passwordField = "user-password";
                QGrpcUserPasswordCredentials<> up(QString::fromUtf8(user.c_str()), QString::fromUtf8(password.c_str()));
                if (r.chance(50)) cred = QGrpcInsecureChannelCredentials() | up;
                else cred = up | QGrpcInsecureChannelCredentials();
            } else {
                userField = customUser;
                passwordField = customPassword;
                cred = QGrpcUserPasswordCredentials<customUser, customPassword>(QString::fromUtf8(user.c_str()), QString::fromUtf8(password.c_str())) | QGrpcInsecureChannelCredentials();
            }
            channel = std::make_shared<QGrpcHttp2Channel>(QUrl(QString(r.chance(50) ? "http://127.0.0.1:%1" : "http://127.0.0.1:%1/ignored").arg(server.port())), std::move(cred));
        } else {
            channel = makeChannel(server.port());
        }
        vpgrpc::SvcClient svc;
        vpgrpc::SecondClient second;
        svc.attachChannel(channel);
        second.attachChannel(channel);
        std::vector<Sent> sent;
        std::vector<QGrpcCallReplyShared> replies;
        std::vector<QGrpcStreamShared> streams;
        size_t before = server.requestCount();
        int n = 1 + int(r.below(8));
        int64_t firstId = nextId;
        bool sequential = r.chance(30);
        for (int i = 0; i < n; ++i) {
            int64_t rid = nextId++;
            plans.add(rid, Script().headers().data(Script::frame(encode(Value()))).status(0));
            vpgrpc::Req q = request(rid, r, r.chance(25));
            if (r.chance(30)) {
                static const char *const texts[] = {"\xf0\x9f\x98\x80\xc3\xa4", "\xe2\x82\xac 5", "line\r\nbreak", "tab\t"};
                q.setText(QString::fromUtf8(texts[r.below(4)]));
            }
            bool other = r.chance(40);
            std::string svcName = other ? "vpgrpc.Second" : "vpgrpc.Svc", method;
            int kind = int(r.below(4));
            QGrpcCallReplyShared reply;
            std::string name;
            vpgrpc::Res res;
            switch (kind) {
            case 0:
                name = "async";
                method = "unary";
                if (!other && r.chance(40)) { method = "other"; reply = svc.other(q); }
                else reply = other ? second.unary(q) : svc.unary(q);
                replies.push_back(reply);
                break;
            case 1:
                name = "sync";
                method = "unary";
                if (other) second.unary(q, QPointer<vpgrpc::Res>(&res));
                else svc.unary(q, QPointer<vpgrpc::Res>(&res));
                break;
            case 2: {
                name = "thread";
                method = "unary";
                Worker w;
                w.f = [&] {
                    vpgrpc::Res res;
                    if (other) second.unary(q, QPointer<vpgrpc::Res>(&res));
                    else svc.unary(q, QPointer<vpgrpc::Res>(&res));
                };
                w.start();
                spin([&] { return w.isFinished(); }, Patience);
                w.wait();
                break;
            }
            default:
                name = "stream";
                method = "feed";
                if (!other && r.chance(40)) { method = "otherFeed"; streams.push_back(svc.streamOtherFeed(q)); }
                else streams.push_back(other ? second.streamFeed(q) : svc.streamFeed(q));
                break;
            }
            sent.push_back({"/" + svcName + "/" + method, trueBody(q), name, rid});
            if (sequential) spin([&] { return plans.count(rid) > 0; }, Patience);
            result.see("paths", sent.back().path + " " + name);
        }
        spin([&] { for (auto &s : sent) if (!plans.count(s.id)) return false; return true; }, Patience);
        settle(5 + int(r.below(10)));
        std::map<int64_t, std::vector<Request>> byId;
        std::vector<int64_t> order;
        size_t arrived = 0;
        for (auto &q : server.requests()) {
            int64_t k = Plans::idOf(q.body);
            if (k < firstId || k >= nextId) continue;
            byId[k].push_back(q);
            order.push_back(k);
            arrived++;
        }
        for (auto &s : sent) {
            result.evaluations++;
            result.count("kind_" + s.kind);
            std::string key = channelName() + " " + s.kind;
            result.nontrivial(s.path + s.message + user + password + userField);
            auto &v = byId[s.id];
            if (v.size() != 1) {
                result.violation("not once " + key, std::to_string(v.size()) + " requests reached the server for one " + s.kind + " " + s.path, id);
                continue;
            }
            const Request &q = v[0];
            auto expect = [&](const char *h, const std::string &want) {
                const std::string *x = q.header(h);
                if (!x || *x != want) result.violation(std::string("header ") + h + " " + key, std::string(h) + " is '" + (x ? *x : "missing") + "' instead of '" + want + "' for " + s.path, id);
                int n = 0;
                for (auto &p : q.headers) n += p.first == h;
                if (n > 1) result.violation(std::string("repeated header ") + h + " " + key, std::to_string(n) + " values of " + h, id);
            };
            if (q.path != s.path) result.violation("path " + key, q.path + " instead of " + s.path, id);
            expect(":method", "POST");
            expect(":scheme", "http");
            expect("te", "trailers");
            const std::string *type = q.header("content-type");
            if (!type || type->compare(0, 16, "application/grpc")) result.violation("header content-type " + key, type ? *type : "missing", id);
            const std::string *enc = q.header("grpc-encoding");
            if (enc && *enc != "identity") result.violation("compressed " + key, *enc, id);
            if (!native) {
                const std::string *accept = q.header("grpc-accept-encoding");
                if (accept && *accept != "identity") result.violation("offers compression " + key, "the channel offers '" + *accept + "', which it cannot decode", id);
            }
            if (!userField.empty()) {
                expect(userField.c_str(), user);
                expect(passwordField.c_str(), password);
                result.count("with_credentials");
            }
            bool ok = false, unused = false;
            if (q.body.size() < 5 || q.body[0] != 0) {
                result.violation("prefix " + key, "the body starts with " + hex(q.body.substr(0, 5)), id);
                continue;
            }
            uint32_t len = (uint32_t(uint8_t(q.body[1])) << 24) | (uint32_t(uint8_t(q.body[2])) << 16) | (uint32_t(uint8_t(q.body[3])) << 8) | uint8_t(q.body[4]);
            if (len != q.body.size() - 5) result.violation("length " + key, "length prefix " + std::to_string(len) + " for " + std::to_string(q.body.size() - 5) + " bytes", id);
            std::string got = canonicalRequest(q.body.substr(5), &ok), want = canonicalRequest(s.message, &unused);
            if (!ok || got != want) result.violation("content " + key, "the request differs from the argument (" + std::to_string(q.body.size() - 5) + " bytes, expected about " + std::to_string(s.message.size()) + ")", id);
        }
        if (arrived != sent.size()) result.violation("requests invented " + channelName(), std::to_string(arrived) + " requests for " + std::to_string(sent.size()) + " calls", id);
        if (sequential && arrived == sent.size()) {
            for (size_t i = 0; i < order.size(); ++i) if (order[i] != sent[i].id) result.violation("order " + channelName(), "requests issued one after the other arrived in another order", id);
        }
        (void)before;
        std::string sample = id + ":";
        for (auto &s : sent) sample += " " + s.kind + s.path;
        result.sample(sample);
        for (auto &s : streams) if (s) s->abort();
        spin([&] { for (auto &x : replies) if (x && !x) return false; return true; }, 1);
    }
    settle(20);
    result.count("server_protocol_errors", long(server.protocolErrors()));
    if (server.protocolErrors()) result.violation("protocol " + channelName(), "the client broke the HTTP/2 framing: " + server.lastError(), "requests " + channelName());
}
