// ---------------------------------------------------------------- secure channels
// Channels with TLS settings against servers with good and bad certificates: who may be talked to is known from the
// certificates, what was said is in the log of the server behind the TLS front and in the raw bytes of the connections.
void secure() {
    H2Server server([](const Request &r) { return plans(r); });
    const Authority a("Authority A"), b("Authority B"), clients("Authority of clients");
    const std::string san = "DNS:localhost,IP:127.0.0.1";
    struct Front { const char *name; std::unique_ptr<TlsProxy> proxy; char trust; bool client; };   // trust: who may trust it, '-' nobody, '*' whoever does not care
    std::vector<Front> fronts;
    auto front = [&](const char *name, int target, const Identity &id, char trust, bool client = false, bool old = false) {
        fronts.push_back({name, std::unique_ptr<TlsProxy>(new TlsProxy(target, id, client ? clients.pem() : std::string(), old)), trust, client});
    };
    front("good", server.port(), a.issue("server", san), 'A');
    front("good12", server.port(), a.issue("server", san), 'A', false, true);
    front("other", server.port(), b.issue("server", san), 'B');
    front("mutual", server.port(), a.issue("server", san), 'A', true);
    front("mutual12", server.port(), a.issue("server", san), 'A', true, true);
    front("expired", server.port(), a.issue("server", san, -86400 * 3, -86400), '*');
    front("notyet", server.port(), a.issue("server", san, 86400, 86400 * 3), '*');
    front("wronghost", server.port(), a.issue("server", "DNS:elsewhere.test,IP:127.0.0.2"), '*');
    front("selfsigned", server.port(), Authority::selfSigned("server", san), '*');
    front("plain", 0, Identity(), '-');
    const Identity one = clients.issue("client one", ""), two = clients.issue("client two", ""), stranger = a.issue("stranger", "");
    struct Person { const char *name; const Identity *id; };
    const Person people[] = {{"", nullptr}, {"client one", &one}, {"client two", &two}, {"stranger", &stranger}};
    auto certificates = [](const std::string &pem) { return QSslCertificate::fromData(QByteArray::fromStdString(pem)); };

    struct Op {
        int64_t id = 0;
        std::string way;
        int finished = 0, errors = 0, code = 0, want = 0;
        std::string message, wantMessage;
        std::vector<Value> got, values;
        QGrpcCallReplyShared reply;
        SubPtr sub;
        QElapsedTimer timer;
        qint64 took = 0;
    };
    struct Side {
        Front *front = nullptr;
        char trust = 'A';
        const Person *person = nullptr;
        bool ok = false;
        std::shared_ptr<QAbstractGrpcChannel> channel;
        std::unique_ptr<vpgrpc::SvcClient> client;
        std::vector<std::shared_ptr<Op>> ops;
        std::vector<std::pair<int, std::string>> errors;
        QByteArray user, password;
        std::string text() const { return std::string(front->name) + " trusting " + trust + (person->id ? std::string(" as ") + person->name : std::string()); }
    };
    for (long c = 0; c < options.cases && !result.tooMany(); ++c) {
        Rng r(options.seed * 1000037 + uint64_t(c));
        const std::string id = "secure " + channelName() + " seed=" + std::to_string(options.seed) + " case=" + std::to_string(c);
        current(id);
        QObject context;
        std::vector<std::unique_ptr<Side>> sides;
        std::map<TlsProxy *, size_t> before;
        for (auto &f : fronts) before[f.proxy.get()] = f.proxy->connections().size();
        std::string all;
        for (size_t n = 1 + r.below(3); n > 0; --n) {
            auto s = std::unique_ptr<Side>(new Side);
            s->front = &fronts[r.below(fronts.size())];
            s->trust = native ? "AAB"[r.below(3)] : "AABN-"[r.below(5)];   // N: nobody; -: does not care (peer not verified)
            if (s->trust == '-' && s->front->name == std::string("wronghost")) s->trust = 'A';   // Qt reports a wrong host name even then: no claim
            s->person = r.chance(s->front->client ? 75 : 25) ? &people[1 + r.below(3)] : &people[0];
            const bool proven = s->trust == '-' ? s->front->trust != '-' : s->trust == s->front->trust;
            s->ok = proven && (!s->front->client || s->person == &people[1] || s->person == &people[2]);
            const QString address = QString("127.0.0.1:%1").arg(s->front->proxy->port());
            s->user = "user" + QByteArray::number(qulonglong(r.below(1000)));
            s->password = "pw" + QByteArray::number(qulonglong(r.next()));
            if (native) {
                grpc::SslCredentialsOptions o;
                o.pem_root_certs = s->trust == 'A' ? a.pem() : b.pem();
                if (s->person->id) {
                    o.pem_cert_chain = s->person->id->cert;
                    o.pem_private_key = s->person->id->key;
                }
                s->channel = std::make_shared<QGrpcChannel>(QUrl("ipv4:" + address), grpc::SslCredentials(o));
            } else {
                QSslConfiguration conf = QSslConfiguration::defaultConfiguration();
                conf.setCaCertificates(s->trust == 'A' ? certificates(a.pem()) : s->trust == 'B' ? certificates(b.pem()) : QList<QSslCertificate>());
                if (s->trust == '-') conf.setPeerVerifyMode(QSslSocket::VerifyNone);
                if (s->person->id) {
                    conf.setLocalCertificate(certificates(s->person->id->cert)[0]);
                    conf.setPrivateKey(QSslKey(QByteArray::fromStdString(s->person->id->key), QSsl::Ec));
                }
                conf.setAllowedNextProtocols({QSslConfiguration::ALPNProtocolHTTP2});
                if (r.chance(30)) conf.setProtocol(QSsl::TlsV1_2OrLater);
                const QUrl url("https://" + address);
                if (r.chance(15)) {   // https needs a TLS configuration: without it there must be no channel
                    bool refused = false;
                    try {
                        QGrpcHttp2Channel none(url, insecure());
                    } catch (const std::invalid_argument &) {
                        refused = true;
                    }
                    result.count("channels_without_configuration");
                    if (!refused) result.violation("https without configuration", "a channel for https was made without a TLS configuration", id);
                }
                QGrpcUserPasswordCredentials<> up(QString::fromUtf8(s->user), QString::fromUtf8(s->password));
                if (r.chance(50)) s->channel = std::make_shared<QGrpcHttp2Channel>(url, up | QGrpcSslCredentials(conf));
                else s->channel = std::make_shared<QGrpcHttp2Channel>(url, QGrpcSslCredentials(conf) | up);
            }
            s->client.reset(new vpgrpc::SvcClient);
            Side *raw = s.get();
            QObject::connect(s->client.get(), &QAbstractGrpcClient::error, &context, [raw](const QGrpcStatus &st) { raw->errors.push_back({int(st.code()), utf8(st.message())}); });
            s->client->attachChannel(s->channel);
            all += s->text() + "; ";
            sides.push_back(std::move(s));
        }
        current(id + " " + all);
        // all sides at the same time
        for (size_t turn = 0; turn < 3; ++turn) {
            for (auto &s : sides) {
                if (turn && !r.chance(60)) continue;
                auto op = std::make_shared<Op>();
                op->id = nextId++;
                // Qt does not report that the peer ended the connection to what is in progress: only calls then, which time out
                const bool stream = r.chance(40) && (native || s->ok || !s->front->client);
                op->way = stream ? "stream" : "call";
                op->values = stream ? someValues(r, 1, 5) : std::vector<Value>{randomValue(r, r.chance(20))};
                Script script = messages(op->values, r);
                if (r.chance(25)) {
                    op->want = 1 + int(r.below(16));
                    op->wantMessage = "no \xc3\xa4 %";
                }
                script.status(op->want, percentEncode(op->wantMessage));
                plans.add(op->id, script);
                if (stream) plans.add(op->id, Script().headers().hold().status(0));   // established again after an error
                vpgrpc::Req req = smallRequest(op->id, r);
                req.setText("TELL-TALE");
                op->timer.start();
                if (stream) {
                    op->sub = std::make_shared<Sub>();
                    op->sub->stream = s->client->streamFeed(req);
                    watch(op->sub, &context);
                } else {
                    op->reply = s->client->unary(req);
                    if (!op->reply) { result.violation("no reply object " + channelName(), "a call on an attached channel returned no reply", id); continue; }
                    QGrpcCallReply *raw = op->reply.get();
                    op->reply->subscribe(&context, [raw, op] { op->finished++; op->got.push_back(read(raw->read<vpgrpc::Res>())); op->took = op->timer.elapsed(); },
                                         [op](const QGrpcStatus &st) { op->errors++; op->code = int(st.code()); op->message = utf8(st.message()); op->took = op->timer.elapsed(); });
                }
                s->ops.push_back(op);
            }
            if (r.chance(50)) settle(int(r.below(20)));
        }
        auto done = [](const Op &o) {
            if (!o.sub) return o.finished + o.errors > 0;
            return !o.sub->errors.empty() || o.sub->finished > 0;
        };
        spin([&] {
            for (auto &s : sides) for (auto &o : s->ops) if (!done(*o)) return false;
            return true;
        }, Patience);
        settle(15);
        for (auto &s : sides) {
            for (auto &o : s->ops) {
                result.evaluations++;
                const std::string key = channelName() + " " + o->way + " " + s->front->name + (s->ok ? " ok" : " refused");
                auto bad = [&](const std::string &k, const std::string &what) { result.violation(k + " " + key, what + " [" + s->text() + " of " + all + "]", id); };
                result.count(std::string(s->ok ? "trusted_" : "untrusted_") + s->front->name);
                result.nontrivial(key + s->text() + std::to_string(o->want) + (o->values.empty() ? "" : encode(o->values[0])));
                if (!done(*o)) { bad("never completed", "no outcome within " + std::to_string(Patience) + " ms"); continue; }
                if (o->sub) {
                    o->finished = o->sub->finished;
                    o->errors = int(o->sub->errors.size());
                    if (o->errors) { o->code = o->sub->errors[0].first; o->message = o->sub->errors[0].second; }
                    o->got = o->sub->got;
                }
                const size_t arrived = plans.count(o->id);
                if (!s->ok) {
                    if (o->finished || !o->got.empty()) bad("untrusted server believed", "a server that must not be trusted was talked to and believed");
                    if (arrived) bad("request to untrusted server", "the request was sent to a server that must not be trusted");
                    if (o->errors && o->code == 0) bad("error without code", "the failure is reported as OK");
                    if (!o->sub && o->errors != 1) bad("completed more than once", std::to_string(o->errors) + " errors of one call");
                    continue;
                }
                if (!native && !o->sub && o->took > 5000) { result.count("inconclusive_slow"); continue; }
                if (arrived < 1 || (arrived > 1 && !(o->sub && o->want))) bad("requests", std::to_string(arrived) + " requests of one " + o->way);
                if (o->want) {
                    if (o->finished || o->errors < 1 || o->code != o->want || o->message != o->wantMessage) bad("wrong status", "reported " + std::to_string(o->errors) + " errors, " + std::to_string(o->code) + " '" + o->message + "' instead of " + std::to_string(o->want));
                    if (o->sub && !(o->got == o->values)) bad("messages", describe(o->values, o->got));
                } else {
                    if (o->finished != 1 || o->errors) bad("trusted server refused", "a server that can be trusted was not reached: " + std::to_string(o->finished) + " results, " + std::to_string(o->errors) + " errors, " + std::to_string(o->code) + " '" + o->message + "'");
                    else if (!(o->got == o->values)) bad("messages", describe(o->values, o->got));
                }
                if (!native && arrived) {
                    auto serials = plans.of(o->id);
                    for (auto &q : server.requests()) {
                        if (q.serial != serials[0]) continue;
                        const std::string *u = q.header("user-name"), *p = q.header("user-password");
                        if (!u || !p || *u != s->user.toStdString() || *p != s->password.toStdString()) bad("credentials", "the request does not carry the credentials of its channel");
                    }
                }
            }
            for (auto &o : s->ops) if (o->sub) o->sub->stream->abort();
        }
        for (auto &s : sides) {
            s->ops.clear();
            s->client.reset();
            s->channel.reset();
        }
        settle(5);
        for (auto &f : fronts) {
            auto log = f.proxy->connections();
            std::vector<std::string> may;   // names of those who may have come
            for (auto &s : sides) if (s->front == &f) may.push_back(s->person->name);
            for (size_t i = before[f.proxy.get()]; i < log.size(); ++i) {
                const TlsConnection &k = log[i];
                result.count("connections");
                if (k.shaken) result.see("handshakes", std::string(f.name) + " " + k.protocol + " " + k.alpn + " " + k.client);
                if (k.first.size() >= 3 && (k.first[0] != 0x16 || k.first[1] != 3)) result.violation("clear text " + channelName(), "a connection of a secure channel begins with " + hex(k.first), id);
                if (k.raw.find("TELL-TALE") != std::string::npos) result.violation("clear text " + channelName(), "the argument of a call was sent in clear", id);
                if (k.shaken && f.client && std::find(may.begin(), may.end(), k.client) == may.end())
                    result.violation("client certificate " + channelName(), "the certificate of '" + k.client + "' was presented by a channel that does not have it [" + all + "]", id);
            }
        }
        result.sample(id + ": " + all);
    }
    settle(20);
    result.count("server_requests", long(server.requestCount()));
}
