// A TLS front of a plain server: ends TLS with a certificate made on the spot, passes the clear bytes on, and records
// what it was given: handshakes, client certificates, and the raw beginning of each connection.
#pragma once
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace vp {

struct Identity { std::string cert, key; };   // PEM

// A certificate authority of its own
class Authority {
public:
    explicit Authority(const std::string &name);
    ~Authority();
    std::string pem() const;
    // san: as in openssl, "DNS:localhost,IP:127.0.0.1"; from, to: seconds relative to now
    Identity issue(const std::string &name, const std::string &san, long from = -3600, long to = 86400) const;
    static Identity selfSigned(const std::string &name, const std::string &san);
private:
    struct Impl;
    std::unique_ptr<Impl> d;
};

struct TlsConnection {
    std::string first;          // raw first bytes
    bool shaken = false;        // handshake complete
    std::string client;         // common name of the client certificate
    std::string protocol, alpn;
    std::string raw;            // everything received, when TLS is not spoken here
};

class TlsProxy {
public:
    // target 0: does not speak TLS, only records what arrives and, if `talk`, answers something
    TlsProxy(int target, const Identity &id, const std::string &clientAuthority = std::string(), bool onlyTls12 = false);
    ~TlsProxy();
    int port() const { return m_port; }
    std::vector<TlsConnection> connections();
private:
    struct Impl;
    std::unique_ptr<Impl> d;
    int m_port = 0;
};

}
