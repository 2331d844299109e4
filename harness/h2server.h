// A small HTTP/2 server under full control of the monitors: it answers each request with a script (which bytes in which
// DATA frames, with which pauses, trailers, resets, disconnects) and records everything the client sends.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace vp {

using Headers = std::vector<std::pair<std::string, std::string>>;

struct Action {
    enum Kind { SendHeaders, Data, Trailers, EndData, Rst, CloseConnection, GoAway, SleepUs, Hold };
    Kind kind;
    std::string bytes;
    Headers headers;
    int arg = 0;
};

struct Script {
    std::vector<Action> actions;
    static std::string frame(const std::string &message, char flag = 0);   // gRPC length-prefixed message
    Script &headers(const Headers &extra = {}, int status = 200, const std::string &type = "application/grpc");
    Script &data(const std::string &b) { actions.push_back({Action::Data, b, {}, 0}); return *this; }
    Script &endData(const std::string &b) { actions.push_back({Action::EndData, b, {}, 0}); return *this; }   // END_STREAM, no trailers
    Script &trailers(const Headers &h) { actions.push_back({Action::Trailers, {}, h, 0}); return *this; }
    Script &status(int code, const std::string &message = std::string());
    Script &rst(int code) { actions.push_back({Action::Rst, {}, {}, code}); return *this; }
    Script &close() { actions.push_back({Action::CloseConnection, {}, {}, 0}); return *this; }
    Script &goAway(int code) { actions.push_back({Action::GoAway, {}, {}, code}); return *this; }
    Script &sleep(int us) { actions.push_back({Action::SleepUs, {}, {}, us}); return *this; }
    Script &hold() { actions.push_back({Action::Hold, {}, {}, 0}); return *this; }   // until release() or the end of the connection
};

struct Request {
    uint64_t serial = 0;        // order of arrival
    std::string path;
    Headers headers;            // all, pseudo headers included
    std::string body;
    bool cancelled = false;     // reset by the client, or its connection went away, before the answer was complete
    bool answered = false;      // script completed
    uint64_t bytesSent = 0;     // DATA bytes written
    const std::string *header(const std::string &n) const {
        for (auto &h : headers) if (h.first == n) return &h.second;
        return nullptr;
    }
};

class H2Server {
public:
    using Planner = std::function<Script(const Request &)>;   // runs in the server thread
    explicit H2Server(const Planner &p, int port = 0);   // port() is 0 when the given port is taken
    ~H2Server();
    int port() const { return m_port; }
    // TCP segmentation: at most `bytes` per write, `us` between writes (0: no limit)
    void setDribble(int bytes, int us) { m_dribbleBytes = bytes; m_dribbleUs = us; m_dribbleLeft = 2000; }   // the first 2000 writes
    void setFrameSize(int n) { m_frameSize = n; }
    void release(uint64_t serial);        // continue after Hold
    void releaseAll();
    void dropConnections();               // close every connection now
    std::vector<Request> requests();      // copy of the log
    size_t requestCount();
    uint64_t protocolErrors() const { return m_errors; }
    uint64_t connections() const { return m_connections; }
    std::string lastError();

private:
    struct Impl;
    std::unique_ptr<Impl> d;
    int m_port = 0;
    std::atomic<int> m_dribbleBytes{0}, m_dribbleUs{0}, m_dribbleLeft{0}, m_frameSize{16384};
    std::atomic<uint64_t> m_errors{0}, m_connections{0};
    friend struct Impl;
};

}
