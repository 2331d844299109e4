#include "h2server.h"
#include "hpack_tables.h"

#include <algorithm>
#include <arpa/inet.h>
#include <chrono>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <stdexcept>
#include <sys/socket.h>
#include <unistd.h>

namespace vp {

std::string Script::frame(const std::string &m, char flag) {
    std::string s(1, flag);
    uint32_t n = uint32_t(m.size());
    for (int i = 3; i >= 0; --i) s += char(n >> (8 * i));
    return s + m;
}
Script &Script::headers(const Headers &extra, int status, const std::string &type) {
    Headers h{{":status", std::to_string(status)}, {"content-type", type}};
    h.insert(h.end(), extra.begin(), extra.end());
    actions.push_back({Action::SendHeaders, {}, h, 0});
    return *this;
}
Script &Script::status(int code, const std::string &message) {
    Headers h{{"grpc-status", std::to_string(code)}};
    if (!message.empty()) h.push_back({"grpc-message", message});
    return trailers(h);
}

namespace {

struct HuffmanNode { int child[2] = {-1, -1}; int symbol = -1; };
std::string huffmanDecode(const std::string &in) {
    static const std::vector<HuffmanNode> tree = [] {
        std::vector<HuffmanNode> t(1);
        for (int s = 0; s < 256; ++s) {
            int n = 0;
            for (int b = huffmanLengths[s] - 1; b >= 0; --b) {
                int bit = int(huffmanCodes[s] >> b) & 1;
                if (t[size_t(n)].child[bit] < 0) {
                    t[size_t(n)].child[bit] = int(t.size());
                    t.emplace_back();
                }
                n = t[size_t(n)].child[bit];
            }
            t[size_t(n)].symbol = s;
        }
        return t;
    }();
    std::string out;
    int n = 0;
    for (unsigned char c : in) {
        for (int b = 7; b >= 0; --b) {
            n = tree[size_t(n)].child[(c >> b) & 1];
            if (n < 0) return out;   // end of string padding
            if (tree[size_t(n)].symbol >= 0) {
                out += char(tree[size_t(n)].symbol);
                n = 0;
            }
        }
    }
    return out;
}

struct Hpack {
    std::deque<std::pair<std::string, std::string>> dynamic;
    size_t size = 0, limit = 4096;
    void evict() {
        while (size > limit && !dynamic.empty()) {
            size -= dynamic.back().first.size() + dynamic.back().second.size() + 32;
            dynamic.pop_back();
        }
    }
    void add(const std::string &n, const std::string &v) {
        dynamic.push_front({n, v});
        size += n.size() + v.size() + 32;
        evict();
    }
    std::pair<std::string, std::string> at(uint64_t i) {
        if (i == 0) throw std::runtime_error("hpack index 0");
        if (i <= 61) return {staticTable[i - 1][0], staticTable[i - 1][1]};
        i -= 62;
        if (i >= dynamic.size()) throw std::runtime_error("hpack index");
        return dynamic[size_t(i)];
    }
    static uint64_t integer(const std::string &b, size_t &p, int bits) {
        uint64_t max = (1u << bits) - 1, v = uint8_t(b.at(p++)) & max;
        if (v < max) return v;
        int shift = 0;
        uint8_t c;
        do {
            c = uint8_t(b.at(p++));
            v += uint64_t(c & 127) << shift;
            shift += 7;
        } while (c & 128 && shift < 60);
        return v;
    }
    static std::string text(const std::string &b, size_t &p) {
        bool huff = uint8_t(b.at(p)) & 128;
        uint64_t n = integer(b, p, 7);
        if (p + n > b.size()) throw std::runtime_error("hpack string");
        std::string s = b.substr(p, n);
        p += n;
        return huff ? huffmanDecode(s) : s;
    }
    Headers decode(const std::string &b) {
        Headers out;
        for (size_t p = 0; p < b.size();) {
            uint8_t c = uint8_t(b[p]);
            if (c & 128) {
                out.push_back(at(integer(b, p, 7)));
            } else if (c & 64) {
                uint64_t i = integer(b, p, 6);
                std::string n = i ? at(i).first : text(b, p), v = text(b, p);
                add(n, v);
                out.push_back({n, v});
            } else if (c & 32) {
                limit = integer(b, p, 5);
                evict();
            } else {
                uint64_t i = integer(b, p, 4);
                std::string n = i ? at(i).first : text(b, p), v = text(b, p);
                out.push_back({n, v});
            }
        }
        return out;
    }
    static void putInteger(std::string &o, uint64_t v, int bits, uint8_t first) {
        uint64_t max = (1u << bits) - 1;
        if (v < max) {
            o += char(first | v);
            return;
        }
        o += char(first | max);
        v -= max;
        for (; v >= 128; v >>= 7) o += char(v | 128);
        o += char(v);
    }
    static std::string encode(const Headers &h) {   // literals without indexing, no Huffman
        std::string o;
        for (auto &x : h) {
            o += '\0';
            putInteger(o, x.first.size(), 7, 0);
            o += x.first;
            putInteger(o, x.second.size(), 7, 0);
            o += x.second;
        }
        return o;
    }
};

using Clock = std::chrono::steady_clock;

std::string h2frame(int type, int flags, uint32_t stream, const std::string &payload) {
    std::string o;
    uint32_t n = uint32_t(payload.size());
    o += char(n >> 16);
    o += char(n >> 8);
    o += char(n);
    o += char(type);
    o += char(flags);
    for (int i = 3; i >= 0; --i) o += char(stream >> (8 * i));
    return o + payload;
}
std::string be32(uint32_t v) {
    std::string o;
    for (int i = 3; i >= 0; --i) o += char(v >> (8 * i));
    return o;
}
uint32_t rd32(const std::string &s, size_t p) {
    return uint32_t(uint8_t(s[p])) << 24 | uint32_t(uint8_t(s[p + 1])) << 16 | uint32_t(uint8_t(s[p + 2])) << 8 | uint8_t(s[p + 3]);
}

struct Stream {
    uint64_t serial = 0;
    Request request;
    std::deque<Action> todo;
    size_t offset = 0;              // in the bytes of the current Data action
    int64_t window = 0;
    Clock::time_point due;
    bool held = false, started = false, done = false;
};
struct Conn {
    int fd = -1;
    std::string in, out;
    bool preface = false, dead = false, closeAfterWrite = false;
    int64_t window = 65535;
    int64_t initialWindow = 65535;
    uint32_t maxFrame = 16384;
    Hpack hpack;
    std::map<uint32_t, Stream> streams;
    uint32_t headerStream = 0;
    int headerFlags = 0;
    std::string headerBlock;
    Clock::time_point nextWrite;
};
}

struct H2Server::Impl {
    H2Server *q;
    Planner planner;
    int listenFd = -1, wake[2];
    std::thread thread;
    std::mutex lock;
    std::map<uint64_t, Request> log;
    std::set<uint64_t> released;
    bool all = false, drop = false, stop = false;
    std::string error;
    uint64_t serial = 0;
    std::vector<std::unique_ptr<Conn>> conns;

    void poke() {
        char c = 0;
        if (write(wake[1], &c, 1) < 0) {}
    }
    void protocolError(const std::string &w) {
        q->m_errors++;
        std::lock_guard<std::mutex> g(lock);
        error = w;
    }
    void run();
    void readFrom(Conn &c);
    void frames(Conn &c);
    void frame(Conn &c, int type, int flags, uint32_t stream, const std::string &payload);
    void headersComplete(Conn &c);
    void requestComplete(Conn &c, Stream &s);
    bool advance(Conn &c, uint32_t id, Stream &s, Clock::time_point now, Clock::time_point &next);
    void finish(Stream &s, bool answered) {
        s.done = true;
        std::lock_guard<std::mutex> g(lock);
        auto it = log.find(s.serial);
        if (it != log.end()) {
            (answered ? it->second.answered : it->second.cancelled) = true;
        }
    }
};

H2Server::H2Server(const Planner &p, int port) : d(new Impl) {
    d->q = this;
    d->planner = p;
    if (pipe2(d->wake, O_NONBLOCK | O_CLOEXEC)) throw std::runtime_error("pipe");
    d->listenFd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(uint16_t(port));
    int one = 1;
    if (port) setsockopt(d->listenFd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (port && bind(d->listenFd, reinterpret_cast<sockaddr *>(&a), sizeof a)) return;   // taken meanwhile: port() is 0
    if ((!port && bind(d->listenFd, reinterpret_cast<sockaddr *>(&a), sizeof a)) || listen(d->listenFd, 64)) throw std::runtime_error("bind");
    socklen_t n = sizeof a;
    getsockname(d->listenFd, reinterpret_cast<sockaddr *>(&a), &n);
    m_port = ntohs(a.sin_port);
    d->thread = std::thread([this] { d->run(); });
}
H2Server::~H2Server() {
    {
        std::lock_guard<std::mutex> g(d->lock);
        d->stop = true;
    }
    d->poke();
    if (d->thread.joinable()) d->thread.join();
    for (auto &c : d->conns) close(c->fd);
    close(d->listenFd);
    close(d->wake[0]);
    close(d->wake[1]);
}
void H2Server::release(uint64_t s) {
    { std::lock_guard<std::mutex> g(d->lock); d->released.insert(s); }
    d->poke();
}
void H2Server::releaseAll() {
    { std::lock_guard<std::mutex> g(d->lock); d->all = true; }
    d->poke();
}
void H2Server::dropConnections() {
    { std::lock_guard<std::mutex> g(d->lock); d->drop = true; }
    d->poke();
}
std::vector<Request> H2Server::requests() {
    std::lock_guard<std::mutex> g(d->lock);
    std::vector<Request> r;
    for (auto &x : d->log) r.push_back(x.second);
    return r;
}
size_t H2Server::requestCount() {
    std::lock_guard<std::mutex> g(d->lock);
    return d->log.size();
}
std::string H2Server::lastError() {
    std::lock_guard<std::mutex> g(d->lock);
    return d->error;
}

void H2Server::Impl::headersComplete(Conn &c) {
    Headers h = c.hpack.decode(c.headerBlock);
    Stream &s = c.streams[c.headerStream];
    if (!s.started) {
        s.started = true;
        s.window = c.initialWindow;
        s.serial = ++serial;
    }
    for (auto &x : h) {
        if (x.first == ":path") s.request.path = x.second;
        s.request.headers.push_back(x);
    }
    bool end = c.headerFlags & 1;
    c.headerBlock.clear();
    uint32_t id = c.headerStream;
    c.headerStream = 0;
    if (end) requestComplete(c, c.streams[id]);
}
void H2Server::Impl::requestComplete(Conn &, Stream &s) {
    s.request.serial = s.serial;
    {
        std::lock_guard<std::mutex> g(lock);
        log[s.serial] = s.request;
    }
    Script p = planner(s.request);
    s.todo.assign(p.actions.begin(), p.actions.end());
    s.due = Clock::now();
}
void H2Server::Impl::frame(Conn &c, int type, int flags, uint32_t id, const std::string &payload) {
    if (c.headerStream && type != 9) {
        protocolError("frame inside of a header block");
        c.dead = true;
        return;
    }
    switch (type) {
    case 0: {   // DATA
        auto it = c.streams.find(id);
        size_t pad = 0, from = 0;
        if (flags & 8) {
            pad = uint8_t(payload.at(0));
            from = 1;
        }
        if (it != c.streams.end() && !it->second.done) {
            it->second.request.body += payload.substr(from, payload.size() - from - pad);
        }
        if (!payload.empty()) {
            c.out += h2frame(8, 0, 0, be32(uint32_t(payload.size())));
            if (!(flags & 1)) c.out += h2frame(8, 0, id, be32(uint32_t(payload.size())));
        }
        if (flags & 1 && it != c.streams.end() && !it->second.done) requestComplete(c, it->second);
        break;
    }
    case 1: {   // HEADERS
        size_t from = 0, pad = 0;
        if (flags & 8) pad = uint8_t(payload.at(from++));
        if (flags & 32) from += 5;
        c.headerStream = id;
        c.headerFlags = flags;
        c.headerBlock = payload.substr(from, payload.size() - from - pad);
        if (flags & 4) headersComplete(c);
        break;
    }
    case 9:
        c.headerBlock += payload;
        if (flags & 4) headersComplete(c);
        break;
    case 3: {   // RST_STREAM
        auto it = c.streams.find(id);
        if (it != c.streams.end() && !it->second.done) finish(it->second, false);
        break;
    }
    case 4:
        if (flags & 1) break;
        for (size_t p = 0; p + 6 <= payload.size(); p += 6) {
            int key = uint8_t(payload[p]) << 8 | uint8_t(payload[p + 1]);
            uint32_t v = rd32(payload, p + 2);
            if (key == 4) {
                for (auto &s : c.streams) s.second.window += int64_t(v) - c.initialWindow;
                c.initialWindow = v;
            } else if (key == 5) {
                c.maxFrame = v;
            }
        }
        c.out += h2frame(4, 1, 0, "");
        break;
    case 6:
        if (!(flags & 1)) c.out += h2frame(6, 1, 0, payload);
        break;
    case 7: break;
    case 8: {
        uint32_t v = rd32(payload, 0) & 0x7fffffff;
        if (id == 0) c.window += v;
        else if (c.streams.count(id)) c.streams[id].window += v;
        break;
    }
    default: break;
    }
}
void H2Server::Impl::frames(Conn &c) {
    static const std::string preface = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
    if (!c.preface) {
        if (c.in.size() < preface.size()) return;
        if (c.in.compare(0, preface.size(), preface)) {
            protocolError("no HTTP/2 preface");
            c.dead = true;
            return;
        }
        c.in.erase(0, preface.size());
        c.preface = true;
        c.out += h2frame(4, 0, 0, "");
    }
    size_t p = 0;
    while (!c.dead && c.in.size() - p >= 9) {
        size_t n = size_t(uint8_t(c.in[p])) << 16 | size_t(uint8_t(c.in[p + 1])) << 8 | uint8_t(c.in[p + 2]);
        if (c.in.size() - p < 9 + n) break;
        frame(c, uint8_t(c.in[p + 3]), uint8_t(c.in[p + 4]), rd32(c.in, p + 5) & 0x7fffffff, c.in.substr(p + 9, n));
        p += 9 + n;
    }
    c.in.erase(0, p);
}
void H2Server::Impl::readFrom(Conn &c) {
    char buf[65536];
    for (;;) {
        ssize_t n = recv(c.fd, buf, sizeof buf, 0);
        if (n > 0) {
            c.in.append(buf, size_t(n));
            int one = 1;   // the client waits for acknowledgements between its writes
            setsockopt(c.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
            continue;
        }
        if (n == 0 || (errno != EAGAIN && errno != EINTR)) c.dead = true;
        break;
    }
    try {
        frames(c);
    } catch (const std::exception &e) {
        protocolError(e.what());
        c.dead = true;
    }
}
// performs what is due; returns whether anything happened
bool H2Server::Impl::advance(Conn &c, uint32_t id, Stream &s, Clock::time_point now, Clock::time_point &next) {
    bool any = false;
    while (!s.done && !s.todo.empty() && !c.dead && !c.closeAfterWrite) {
        if (s.due > now) {
            next = std::min(next, s.due);
            return any;
        }
        Action &a = s.todo.front();
        bool last = false;
        switch (a.kind) {
        case Action::SendHeaders: c.out += h2frame(1, 4, id, Hpack::encode(a.headers)); break;
        case Action::Trailers: c.out += h2frame(1, 5, id, Hpack::encode(a.headers)); last = true; break;
        case Action::Data:
        case Action::EndData: {
            while (s.offset < a.bytes.size() && s.window > 0 && c.window > 0 && c.out.size() < (1u << 20)) {
                size_t n = std::min<size_t>({a.bytes.size() - s.offset, size_t(s.window), size_t(c.window), std::max(size_t(q->m_frameSize.load()), a.bytes.size() / 500), size_t(c.maxFrame)});
                bool end = a.kind == Action::EndData && s.offset + n == a.bytes.size();
                c.out += h2frame(0, end ? 1 : 0, id, a.bytes.substr(s.offset, n));
                s.offset += n;
                s.window -= int64_t(n);
                c.window -= int64_t(n);
                any = true;
                std::lock_guard<std::mutex> g(lock);
                log[s.serial].bytesSent += n;
            }
            if (s.offset < a.bytes.size()) return any;
            if (a.bytes.empty()) c.out += h2frame(0, a.kind == Action::EndData ? 1 : 0, id, "");
            s.offset = 0;
            last = a.kind == Action::EndData;
            break;
        }
        case Action::Rst: c.out += h2frame(3, 0, id, be32(uint32_t(a.arg))); last = true; break;
        case Action::GoAway: c.out += h2frame(7, 0, 0, be32(id) + be32(uint32_t(a.arg))); break;
        case Action::CloseConnection: c.closeAfterWrite = true; last = true; break;
        case Action::SleepUs: s.due = now + std::chrono::microseconds(a.arg); break;
        case Action::Hold: {
            std::lock_guard<std::mutex> g(lock);
            if (!all && !released.count(s.serial)) return any;
            released.erase(s.serial);   // one release passes one hold
            break;
        }
        }
        any = true;
        s.todo.pop_front();
        if (last) finish(s, true);
    }
    return any;
}
void H2Server::Impl::run() {
    for (;;) {
        bool dropNow = false;
        {
            std::lock_guard<std::mutex> g(lock);
            if (stop) return;
            std::swap(dropNow, drop);
        }
        Clock::time_point now = Clock::now(), next = now + std::chrono::milliseconds(200);
        std::vector<pollfd> fds{{wake[0], POLLIN, 0}, {listenFd, POLLIN, 0}};
        int dribble = q->m_dribbleLeft > 0 ? int(q->m_dribbleBytes) : 0, pause = q->m_dribbleUs;
        for (auto &c : conns) {
            if (dropNow) c->dead = true;
            for (auto it = c->streams.begin(); it != c->streams.end();) {
                advance(*c, it->first, it->second, now, next);
                it = it->second.done ? c->streams.erase(it) : std::next(it);
            }
            while (!c->dead && !c->out.empty()) {
                if (dribble && c->nextWrite > now) {
                    next = std::min(next, c->nextWrite);
                    break;
                }
                size_t n = dribble ? std::min<size_t>(c->out.size(), size_t(dribble)) : c->out.size();
                ssize_t w = send(c->fd, c->out.data(), n, MSG_NOSIGNAL);
                if (w < 0) {
                    if (errno != EAGAIN && errno != EINTR) c->dead = true;
                    break;
                }
                c->out.erase(0, size_t(w));
                if (dribble) {
                    q->m_dribbleLeft--;
                    c->nextWrite = now + std::chrono::microseconds(pause);
                    now = Clock::now();
                }
            }
            if (c->out.empty() && c->closeAfterWrite) c->dead = true;
            bool wantWrite = !c->out.empty() && !(dribble && c->nextWrite > now);
            fds.push_back({c->fd, short(POLLIN | (wantWrite ? POLLOUT : 0)), 0});
        }
        auto us = std::chrono::duration_cast<std::chrono::microseconds>(next - Clock::now()).count();
        timespec ts{us <= 0 ? 0 : us / 1000000, us <= 0 ? 0 : us % 1000000 * 1000};
        ppoll(fds.data(), fds.size(), &ts, nullptr);
        if (fds[0].revents) {
            char b[64];
            while (read(wake[0], b, sizeof b) > 0) {}
        }
        for (size_t i = 0; i < conns.size(); ++i) {
            if (fds[i + 2].revents) readFrom(*conns[i]);
        }
        if (fds[1].revents) {
            int fd = accept4(listenFd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
            if (fd >= 0) {
                int one = 1;
                setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
                std::unique_ptr<Conn> c(new Conn);
                c->fd = fd;
                c->nextWrite = Clock::now();
                conns.push_back(std::move(c));
                q->m_connections++;
            }
        }
        for (size_t i = 0; i < conns.size();) {
            if (conns[i]->dead) {
                for (auto &s : conns[i]->streams) if (!s.second.done) finish(s.second, false);
                close(conns[i]->fd);
                conns.erase(conns.begin() + long(i));
            } else {
                ++i;
            }
        }
    }
}

}
