#include "tlsproxy.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <list>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>

#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>

namespace vp {

namespace {
std::string pemOf(X509 *c) {
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_X509(b, c);
    char *p = nullptr;
    long n = BIO_get_mem_data(b, &p);
    std::string s(p, size_t(n));
    BIO_free(b);
    return s;
}
std::string pemOf(EVP_PKEY *k) {
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr);
    char *p = nullptr;
    long n = BIO_get_mem_data(b, &p);
    std::string s(p, size_t(n));
    BIO_free(b);
    return s;
}
void extend(X509 *c, X509 *issuer, int nid, const std::string &value) {
    X509V3_CTX ctx;
    X509V3_set_ctx(&ctx, issuer, c, nullptr, nullptr, 0);
    if (X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, value.c_str())) {
        X509_add_ext(c, e, -1);
        X509_EXTENSION_free(e);
    }
}
std::atomic<long> serial{1};
X509 *make(EVP_PKEY *key, const std::string &name, X509 *issuer, EVP_PKEY *issuerKey, bool authority, const std::string &san, long from, long to) {
    X509 *c = X509_new();
    X509_set_version(c, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(c), long(getpid()) * 1000 + serial++);
    X509_gmtime_adj(X509_getm_notBefore(c), from);
    X509_gmtime_adj(X509_getm_notAfter(c), to);
    X509_set_pubkey(c, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(c), "CN", MBSTRING_UTF8, reinterpret_cast<const unsigned char *>(name.c_str()), -1, -1, 0);
    X509_set_issuer_name(c, X509_get_subject_name(issuer ? issuer : c));
    extend(c, issuer ? issuer : c, NID_basic_constraints, authority ? "critical,CA:TRUE" : "critical,CA:FALSE");
    extend(c, issuer ? issuer : c, NID_key_usage, authority ? "critical,keyCertSign,cRLSign" : "critical,digitalSignature,keyEncipherment");
    if (!san.empty()) extend(c, issuer ? issuer : c, NID_subject_alt_name, san);
    X509_sign(c, issuerKey ? issuerKey : key, EVP_sha256());
    return c;
}
}

struct Authority::Impl {
    EVP_PKEY *key = nullptr;
    X509 *cert = nullptr;
};
Authority::Authority(const std::string &name) : d(new Impl) {
    d->key = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-256");
    d->cert = make(d->key, name, nullptr, nullptr, true, std::string(), -86400, 864000);
}
Authority::~Authority() {
    X509_free(d->cert);
    EVP_PKEY_free(d->key);
}
std::string Authority::pem() const { return pemOf(d->cert); }
Identity Authority::issue(const std::string &name, const std::string &san, long from, long to) const {
    EVP_PKEY *k = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-256");
    X509 *c = make(k, name, d->cert, d->key, false, san, from, to);
    Identity i{pemOf(c), pemOf(k)};
    X509_free(c);
    EVP_PKEY_free(k);
    return i;
}
Identity Authority::selfSigned(const std::string &name, const std::string &san) {
    EVP_PKEY *k = EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-256");
    X509 *c = make(k, name, nullptr, nullptr, false, san, -3600, 86400);
    Identity i{pemOf(c), pemOf(k)};
    X509_free(c);
    EVP_PKEY_free(k);
    return i;
}

struct TlsProxy::Impl {
    int listenFd = -1, target = 0;
    SSL_CTX *ctx = nullptr;
    std::atomic<bool> stop{false};
    std::thread acceptor;
    std::mutex lock;
    std::list<TlsConnection> log;
    std::list<std::thread> threads;

    static bool wait(int fd, short events, int ms) {
        pollfd p{fd, events, 0};
        return poll(&p, 1, ms) > 0;
    }
    // SSL call repeated until done; false on failure
    template<typename F>
    bool drive(SSL *ssl, int fd, F f, int *result) {
        while (!stop) {
            ERR_clear_error();
            int n = f();
            if (n > 0) { *result = n; return true; }
            int e = SSL_get_error(ssl, n);
            if (e == SSL_ERROR_WANT_READ) wait(fd, POLLIN, 50);
            else if (e == SSL_ERROR_WANT_WRITE) wait(fd, POLLOUT, 50);
            else return false;
        }
        return false;
    }
    void serve(int fd, TlsConnection *c) {
        char buf[16384];
        for (int i = 0; i < 200 && !stop; ++i) {   // the raw beginning
            if (!wait(fd, POLLIN, 50)) continue;
            ssize_t n = recv(fd, buf, 16, MSG_PEEK);
            if (n <= 0) break;
            std::lock_guard<std::mutex> g(lock);
            c->first.assign(buf, size_t(n));
            if (n >= 3) break;
        }
        if (!target) {
            while (!stop) {
                if (!wait(fd, POLLIN, 50)) continue;
                ssize_t n = recv(fd, buf, sizeof buf, 0);
                if (n <= 0) break;
                {
                    std::lock_guard<std::mutex> g(lock);
                    c->raw.append(buf, size_t(n));
                }
                static const unsigned char settings[] = {0, 0, 0, 4, 0, 0, 0, 0, 0};   // what a plain HTTP/2 server says first
                if (send(fd, settings, sizeof settings, MSG_NOSIGNAL) < 0) break;
            }
            close(fd);
            return;
        }
        SSL *ssl = SSL_new(ctx);
        SSL_set_fd(ssl, fd);
        int n = 0;
        bool ok = drive(ssl, fd, [&] { return SSL_accept(ssl); }, &n);
        int up = -1;
        if (ok) {
            {
                std::lock_guard<std::mutex> g(lock);
                c->shaken = true;
                c->protocol = SSL_get_version(ssl);
                const unsigned char *a = nullptr;
                unsigned len = 0;
                SSL_get0_alpn_selected(ssl, &a, &len);
                c->alpn.assign(reinterpret_cast<const char *>(a ? a : reinterpret_cast<const unsigned char *>("")), len);
                if (X509 *peer = SSL_get1_peer_certificate(ssl)) {
                    char name[200] = "";
                    X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, name, sizeof name);
                    c->client = name;
                    X509_free(peer);
                }
            }
            up = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(uint16_t(target));
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            ok = ::connect(up, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0;
            int one = 1;
            setsockopt(up, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        }
        while (ok && !stop) {
            if (!SSL_pending(ssl)) {
                pollfd p[2] = {{fd, POLLIN, 0}, {up, POLLIN, 0}};
                if (poll(p, 2, 50) <= 0) continue;
                if (p[1].revents) {
                    ssize_t k = recv(up, buf, sizeof buf, 0);
                    if (k <= 0) break;
                    if (!drive(ssl, fd, [&] { return SSL_write(ssl, buf, int(k)); }, &n)) break;
                }
                if (!p[0].revents) continue;
            }
            ERR_clear_error();
            int k = SSL_read(ssl, buf, sizeof buf);
            if (k <= 0) {
                int e = SSL_get_error(ssl, k);
                if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) continue;
                break;
            }
            for (ssize_t w = 0; w < k;) {
                ssize_t m = send(up, buf + w, size_t(k - w), MSG_NOSIGNAL);
                if (m <= 0) { ok = false; break; }
                w += m;
            }
        }
        if (SSL_is_init_finished(ssl)) SSL_shutdown(ssl);
        SSL_free(ssl);
        if (up >= 0) close(up);
        close(fd);
    }
    void accept() {
        while (!stop) {
            if (!wait(listenFd, POLLIN, 50)) continue;
            int fd = accept4(listenFd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
            if (fd < 0) continue;
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            std::lock_guard<std::mutex> g(lock);
            log.emplace_back();
            TlsConnection *c = &log.back();
            threads.emplace_back([this, fd, c] { serve(fd, c); });
        }
    }
};

static int chooseH2(SSL *, const unsigned char **out, unsigned char *outlen, const unsigned char *in, unsigned inlen, void *) {
    static const unsigned char h2[] = {2, 'h', '2'};
    if (SSL_select_next_proto(const_cast<unsigned char **>(out), outlen, h2, sizeof h2, in, inlen) == OPENSSL_NPN_NEGOTIATED) return SSL_TLSEXT_ERR_OK;
    return SSL_TLSEXT_ERR_NOACK;
}

TlsProxy::TlsProxy(int target, const Identity &id, const std::string &clientAuthority, bool onlyTls12) : d(new Impl) {
    signal(SIGPIPE, SIG_IGN);
    d->target = target;
    if (target) {
        d->ctx = SSL_CTX_new(TLS_server_method());
        SSL_CTX_set_options(d->ctx, SSL_OP_NO_TICKET | SSL_OP_IGNORE_UNEXPECTED_EOF);
        SSL_CTX_set_session_cache_mode(d->ctx, SSL_SESS_CACHE_OFF);
        SSL_CTX_set_mode(d->ctx, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
        if (onlyTls12) SSL_CTX_set_max_proto_version(d->ctx, TLS1_2_VERSION);
        BIO *b = BIO_new_mem_buf(id.cert.data(), int(id.cert.size()));
        X509 *c = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
        BIO_free(b);
        b = BIO_new_mem_buf(id.key.data(), int(id.key.size()));
        EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
        BIO_free(b);
        SSL_CTX_use_certificate(d->ctx, c);
        SSL_CTX_use_PrivateKey(d->ctx, k);
        X509_free(c);
        EVP_PKEY_free(k);
        SSL_CTX_set_alpn_select_cb(d->ctx, chooseH2, nullptr);
        if (!clientAuthority.empty()) {
            b = BIO_new_mem_buf(clientAuthority.data(), int(clientAuthority.size()));
            X509 *ca = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
            BIO_free(b);
            X509_STORE_add_cert(SSL_CTX_get_cert_store(d->ctx), ca);
            SSL_CTX_add_client_CA(d->ctx, ca);
            X509_free(ca);
            SSL_CTX_set_verify(d->ctx, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
        }
    }
    d->listenFd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t len = sizeof a;
    if (bind(d->listenFd, reinterpret_cast<sockaddr *>(&a), sizeof a) || listen(d->listenFd, 64)) abort();
    getsockname(d->listenFd, reinterpret_cast<sockaddr *>(&a), &len);
    m_port = ntohs(a.sin_port);
    d->acceptor = std::thread([this] { d->accept(); });
}
TlsProxy::~TlsProxy() {
    d->stop = true;
    d->acceptor.join();
    for (auto &t : d->threads) t.join();
    close(d->listenFd);
    SSL_CTX_free(d->ctx);
}
std::vector<TlsConnection> TlsProxy::connections() {
    std::lock_guard<std::mutex> g(d->lock);
    return {d->log.begin(), d->log.end()};
}

}
