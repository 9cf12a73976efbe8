// C26: TLS streams over a scripted engine (stand-ins for OpenSSL); histories for spec/TlsTrace.tla and spec/TlsCtxTrace.tla
#include "wk.h"
#include "kio/tls/context.h"
#include "kio/tls/listener.h"
#include "kio/tls/stream.h"
#include <deque>
#include <netdb.h>
#include <poll.h>
#include <set>
using namespace wk;
using tls::TlsRole;
using tls::TlsStream;
namespace
{
    std::map<int, ssl_st*>* engines;   // by descriptor
    int nssl, nctx, last_ssl, nops;
    bool strict_host;          // naming the peer fails now and then
    bool engine_fails;         // creating engine objects fails now and then
    bool silent;               // the peer never answers a shutdown
    std::map<int, std::vector<unsigned long>>* queue;   // error queue of each thread
    std::vector<unsigned long>& errs() { return (*queue)[ksim::self()]; }
    size_t C(size_t n) { return ksim::choose(n); }
    bool tiny;
}
// ---------------------------------------------------------------- the engine
struct ssl_ctx_st { int id; };
struct ssl_st
{
    int id, fd = -1, last = 0, wants = 0, pend = 0, next = 0;
    bool done = false, dead = false, tx = false, rx = false, sent = false, recv = false;
};
struct ssl_method_st { int role; };
struct ssl_cipher_st { int x; };
struct bio_st { ssl_st* s; bool w; };
namespace
{
    const char* word(int l)
    {
        switch (l)
        {
            case SSL_ERROR_NONE: return "none";
            case SSL_ERROR_WANT_READ: return "r";
            case SSL_ERROR_WANT_WRITE: return "w";
            case SSL_ERROR_ZERO_RETURN: return "zero";
            case SSL_ERROR_SYSCALL: return "sys";
            case SSL_ERROR_SSL: return "ssl";
            default: return "other";
        }
    }
    int said(ssl_st* s, const char* op, int r, int last, int err = 0)
    {
        s->last = last;
        if (last == SSL_ERROR_SSL) errs().push_back(1);
        ksim::ev("\"e\":\"eng\",\"s\":%d,\"op\":\"%s\",\"r\":%d,\"w\":\"%s\",\"er\":%d,\"tx\":%d,\"rx\":%d,\"pd\":%d", s->id, op, r, word(last), err, (int) s->tx, (int) s->rx, s->pend);
        if (last == SSL_ERROR_SYSCALL) errno = err;
        return r;
    }
    int handshake(ssl_st* s, const char* op)
    {
        ksim::Quiet q;
        if (!s) { ksim::bad("handshake without engine"); return -1; }
        if (s->dead) return said(s, op, -1, SSL_ERROR_SSL);
        errs().clear();      // the engine's state machine starts with an empty queue
        errno = 0;
        if (s->done) return said(s, op, 1, 0);
        size_t c = C(s->wants > 6 ? 6 : 12);
        if (c < 3)
        {
            s->done = true;
            size_t k = C(8);
            s->tx = k != 0 && k != 1;
            s->rx = k != 0 && k != 2;
            s->pend = (int) (C(3) ? 0 : 1 + C(4));
            return said(s, op, 1, 0);
        }
        if (c >= 6) { ++s->wants; return said(s, op, -1, c < 9 ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE); }
        s->dead = true;
        switch (C(6))
        {
            case 0: return said(s, op, 0, SSL_ERROR_ZERO_RETURN);
            case 1: return said(s, op, -1, SSL_ERROR_SYSCALL, ECONNRESET);
            case 2: return said(s, op, -1, SSL_ERROR_SYSCALL, 0);
            case 3: return said(s, op, 0, SSL_ERROR_SSL);
            case 4: return said(s, op, -1, SSL_ERROR_WANT_X509_LOOKUP);
            default: return said(s, op, -1, SSL_ERROR_SSL);
        }
    }
    void record(const char* fn, const std::string& arg, int ok) { ksim::ev("\"e\":\"cx\",\"f\":\"%s\",\"a\":%s,\"ok\":%d", fn, ksim::jstr(arg).c_str(), ok); }
    int cx(const char* fn, const std::string& arg, int good = 1, int fail = 0)
    {
        ksim::Quiet q;
        bool bad = engine_fails && C(8) == 0;
        if (bad) errs().push_back(2);
        record(fn, arg, !bad);
        return bad ? fail : good;
    }
}
extern "C" {
// names: one that exists
int getaddrinfo(const char* n, const char* port, const addrinfo*, addrinfo** r)
{
    ksim::Quiet q;
    if (strcmp(n, "host.test")) return EAI_NONAME;
    auto* a = (addrinfo*) calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
    auto* in = (sockaddr_in*) (a + 1);
    in->sin_family = AF_INET;
    in->sin_port = htons((uint16_t) (port ? atoi(port) : 0));
    inet_pton(AF_INET, "10.9.8.7", &in->sin_addr);
    a->ai_family = AF_INET;
    a->ai_socktype = SOCK_STREAM;
    a->ai_addrlen = sizeof *in;
    a->ai_addr = (sockaddr*) in;
    *r = a;
    return 0;
}
void freeaddrinfo(addrinfo* a) { free(a); }
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const char* OpenSSL_version(int) { return "stand-in"; }
const SSL_METHOD* TLS_server_method() { static ssl_method_st m{1}; return (const SSL_METHOD*) &m; }
const SSL_METHOD* TLS_client_method() { static ssl_method_st m{0}; return (const SSL_METHOD*) &m; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD* m)
{
    ksim::Quiet q;
    if (engine_fails && C(10) == 0) { errs().push_back(3); ksim::ev("\"e\":\"cnew\",\"c\":0,\"srv\":%d", ((const ssl_method_st*) m)->role); return nullptr; }
    auto* c = new ssl_ctx_st{++nctx};
    ksim::ev("\"e\":\"cnew\",\"c\":%d,\"srv\":%d", c->id, ((const ssl_method_st*) m)->role);
    return (SSL_CTX*) c;
}
void SSL_CTX_free(SSL_CTX* c)
{
    ksim::Quiet q;
    if (!c) return;
    ksim::ev("\"e\":\"cfree\",\"c\":%d", c->id);
    delete c;
}
long SSL_CTX_ctrl(SSL_CTX*, int cmd, long v, void*)
{
    if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) return cx("min", v == TLS1_2_VERSION ? "1.2" : v == TLS1_3_VERSION ? "1.3" : "other");
    return 1;
}
uint64_t SSL_CTX_set_options(SSL_CTX*, uint64_t o) { ksim::Quiet q; record("options", o & SSL_OP_ENABLE_KTLS ? "ktls" : "", 1); return o; }
int SSL_CTX_set_num_tickets(SSL_CTX*, size_t n) { ksim::Quiet q; record("tickets", std::to_string(n), 1); return 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX*, const char* f) { return cx("cert", f); }
int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char* f, int t) { return cx("key", t == SSL_FILETYPE_PEM ? f : "?"); }
int SSL_CTX_check_private_key(const SSL_CTX*) { return cx("check", ""); }
int SSL_CTX_load_verify_locations(SSL_CTX*, const char* f, const char* d) { return cx("trust", std::string(f ? f : "") + "|" + (d ? d : "")); }
int SSL_CTX_set_default_verify_paths(SSL_CTX*) { return cx("default", ""); }
void SSL_CTX_set_verify(SSL_CTX*, int m, SSL_verify_cb) { ksim::Quiet q; record("verify", std::to_string(m), 1); }
int SSL_CTX_set_cipher_list(SSL_CTX*, const char* s) { return cx("list", s); }
int SSL_CTX_set_ciphersuites(SSL_CTX*, const char* s) { return cx("suites", s); }
int SSL_CTX_set_alpn_protos(SSL_CTX*, const unsigned char* p, unsigned n) { return cx("alpn", std::string((const char*) p, n), 0, 1); }
int SSL_set_alpn_protos(SSL*, const unsigned char*, unsigned) { return 0; }
SSL* SSL_new(SSL_CTX*)
{
    ksim::Quiet q;
    if (engine_fails && C(10) == 0) { errs().push_back(3); ksim::ev("\"e\":\"nonew\""); last_ssl = 0; return nullptr; }
    auto* s = new ssl_st;
    s->id = last_ssl = ++nssl;
    ksim::ev("\"e\":\"new\",\"s\":%d", s->id);
    return s;
}
void SSL_free(SSL* s)
{
    ksim::Quiet q;
    if (!s) return;
    ksim::ev("\"e\":\"free\",\"s\":%d", s->id);
    if (auto i = engines->find(s->fd); i != engines->end() && i->second == s) engines->erase(i);
    delete s;
}
int SSL_set_fd(SSL* s, int fd)
{
    ksim::Quiet q;
    if (engine_fails && C(10) == 0) { errs().push_back(3); ksim::ev("\"e\":\"nofd\",\"s\":%d", s->id); return 0; }
    s->fd = fd;
    (*engines)[fd] = s;
    ksim::ev("\"e\":\"setfd\",\"s\":%d,\"fd\":%d", s->id, fd);
    return 1;
}
int SSL_get_fd(const SSL* s) { return s->fd; }
long SSL_ctrl(SSL* s, int cmd, long v, void* p)
{
    ksim::Quiet q;
    if (cmd == SSL_CTRL_SET_TLSEXT_HOSTNAME)
    {
        bool ok = !strict_host || C(4);
        ksim::ev("\"e\":\"name\",\"s\":%d,\"op\":\"sni\",\"h\":%s,\"ok\":%d", s->id, ksim::jstr((const char*) p).c_str(), (int) ok);
        return ok;
    }
    return v;
}
int SSL_set1_host(SSL* s, const char* h)
{
    ksim::Quiet q;
    bool ok = !strict_host || C(4);
    ksim::ev("\"e\":\"name\",\"s\":%d,\"op\":\"host\",\"h\":%s,\"ok\":%d", s->id, ksim::jstr(h).c_str(), (int) ok);
    if (!ok) errs().push_back(4);
    return ok;
}
int SSL_connect(SSL* s) { return handshake(s, "connect"); }
int SSL_accept(SSL* s) { return handshake(s, "accept"); }
int SSL_get_error(const SSL* s, int r)
{
    ksim::Quiet q;
    if (r > 0) return SSL_ERROR_NONE;
    if (!errs().empty()) return SSL_ERROR_SSL;
    return s->last;
}
const char* SSL_get_version(const SSL*) { return "TLSv1.3"; }
const SSL_CIPHER* SSL_get_current_cipher(const SSL*) { static ssl_cipher_st c; return (const SSL_CIPHER*) &c; }
const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return "X"; }
BIO* SSL_get_wbio(const SSL* s) { static bio_st b; ksim::Quiet q; b = {(ssl_st*) s, true}; return (BIO*) &b; }
BIO* SSL_get_rbio(const SSL* s) { static bio_st b; ksim::Quiet q; b = {(ssl_st*) s, false}; return (BIO*) &b; }
long BIO_ctrl(BIO* b, int cmd, long, void*)
{
    ksim::Quiet q;
    ssl_st* s = ((bio_st*) b)->s;
    return cmd == BIO_CTRL_GET_KTLS_SEND ? s->tx : cmd == BIO_CTRL_GET_KTLS_RECV ? s->rx : 0;
}
int SSL_is_init_finished(const SSL* s) { ksim::Quiet q; return s->done; }
int SSL_pending(const SSL* s) { ksim::Quiet q; return s->pend; }
int SSL_has_pending(const SSL* s) { ksim::Quiet q; return s->pend > 0; }
int SSL_read(SSL* s, void* p, int n)
{
    ksim::Quiet q;
    if (n < 0) return said(s, "read", -1, SSL_ERROR_SSL);
    int k = std::min(n, s->pend);
    if (k <= 0) return said(s, "read", -1, SSL_ERROR_WANT_READ);
    for (int i = 0; i < k; ++i) ((char*) p)[i] = (char) ++s->next;
    s->pend -= k;
    return said(s, "read", k, 0);
}
int SSL_shutdown(SSL* s)
{
    ksim::Quiet q;
    if (!s) { ksim::bad("shutdown without engine"); return -1; }
    if (!s->done || s->dead) return said(s, "shutdown", -1, SSL_ERROR_SSL);
    if (s->sent && s->recv) return said(s, "shutdown", 1, 0);
    size_t c = C(10);
    if (c == 0) return said(s, "shutdown", -1, SSL_ERROR_WANT_WRITE);
    if (c == 1) return said(s, "shutdown", -1, SSL_ERROR_WANT_READ);
    if (c == 2) return said(s, "shutdown", -1, (int[]){SSL_ERROR_SSL, SSL_ERROR_SYSCALL, SSL_ERROR_ZERO_RETURN, SSL_ERROR_WANT_ASYNC}[C(4)], ECONNRESET);
    if (!s->sent) { s->sent = true; return said(s, "shutdown", 0, SSL_ERROR_SYSCALL); }
    if (c < 5) return said(s, "shutdown", 0, SSL_ERROR_SYSCALL);
    s->recv = true;
    return said(s, "shutdown", 1, 0);
}
void SSL_set_shutdown(SSL* s, int m) { ksim::Quiet q; s->sent = m & 1; s->recv = m & 2; }
int SSL_get_shutdown(const SSL* s) { ksim::Quiet q; return s->sent | s->recv << 1; }
void SSL_set_quiet_shutdown(SSL*, int) {}
unsigned long ERR_get_error() { ksim::Quiet q; if (errs().empty()) return 0; auto e = errs().front(); errs().erase(errs().begin()); return e; }
unsigned long ERR_peek_error() { ksim::Quiet q; return errs().empty() ? 0 : errs().front(); }
unsigned long ERR_peek_last_error() { ksim::Quiet q; return errs().empty() ? 0 : errs().back(); }
void ERR_clear_error() { ksim::Quiet q; errs().clear(); }
void ERR_error_string_n(unsigned long e, char* b, size_t n) { snprintf(b, n, "error %lu", e); }
}
namespace
{
    W* w;
    bool quiet_peer(int fd)
    {
        auto i = engines->find(fd);
        return i != engines->end() && i->second->sent;
    }
    tls::TlsContext* ctx;
    std::map<int, int>* socknext;        // socket -> next byte its peer sends
    struct Sock : ksim::Stream
    {
        bool ready(ksim::Op&) override { return true; }
    };
    std::deque<std::pair<std::string, int>>* backlog;    // peers waiting to be accepted
    std::set<int>* mine;
    int port_of(int n) { return 1000 + n; }
    void hooks()
    {
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            std::string s = what;
            if (s == "badclose") { ksim::bad("badclose"); return; }
            ksim::Quiet q;
            if (s == "socket" || s == "accept") { mine->insert(fd); socknext->erase(fd); ksim::ev("\"e\":\"opened\",\"fd\":%d", fd); }
            if (s == "close" && mine->erase(fd)) ksim::ev("\"e\":\"closed\",\"fd\":%d", fd);
        };
        ksim::hooks.fail = [](const char* call, int) -> int
        {
            if (!engine_fails || !(strstr("socket setsockopt bind listen fcntl", call))) return 0;
            ksim::Quiet q;
            if (C(12)) return 0;
            int er = (int[]){ENOMEM, EINVAL, EADDRINUSE}[C(3)];
            ksim::ev("\"e\":\"refuse\",\"er\":%d", er);
            return er;
        };
        ksim::hooks.on_call = [](const char* n, int fd, const void* a, long x, long, int err)
        {
            if (!strcmp(n, "listen")) ksim::ev("\"e\":\"listen\",\"fd\":%d,\"q\":%ld,\"er\":%d", fd, x, err);
            if (strcmp(n, "bind")) return;
            const sockaddr* sa = (const sockaddr*) a;
            char buf[64] = "";
            int port = -1;
            if (sa->sa_family == AF_INET && x == sizeof(sockaddr_in)) { inet_ntop(AF_INET, &((const sockaddr_in*) a)->sin_addr, buf, 64); port = ntohs(((const sockaddr_in*) a)->sin_port); }
            if (sa->sa_family == AF_INET6 && x == sizeof(sockaddr_in6)) { inet_ntop(AF_INET6, &((const sockaddr_in6*) a)->sin6_addr, buf, 64); port = ntohs(((const sockaddr_in6*) a)->sin6_port); }
            ksim::ev("\"e\":\"bind\",\"fd\":%d,\"ip\":\"%s\",\"port\":%d,\"fam\":%d,\"er\":%d", fd, buf, port, (int) sa->sa_family, err);
        };
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            ksim::Quiet q;
            const char* k = nullptr;
            long m = op.len;
            switch (op.opcode)
            {
                case IORING_OP_POLL_ADD: k = "poll"; m = (op.op_flags & POLLIN ? 1 : 0) | (op.op_flags & POLLOUT ? 2 : 0); break;
                case IORING_OP_READ: k = ksim::is_fake(op.fd) ? "read" : nullptr; break;
                case IORING_OP_WRITE: k = "write"; break;
                case IORING_OP_CLOSE: k = "close"; break;
                case IORING_OP_ACCEPT: k = "accept"; break;
                case IORING_OP_CONNECT: k = "connect"; break;
                default: break;
            }
            if (!k || op.user_data >= (1u << 20)) return;
            std::string extra;
            if (op.opcode == IORING_OP_CONNECT)
            {
                net::SocketAddress s;
                memcpy(&s.addr, (void*) op.addr, op.off);
                s.addrlen = (socklen_t) op.off;
                s.populate_from_storage();
                extra = s.ip + ":" + std::to_string(s.port);
            }
            ksim::ev("\"e\":\"req\",\"u\":%d,\"k\":\"%s\",\"fd\":%d,\"m\":%ld,\"a\":\"%s\"", (int) op.seq, k, op.fd, m, extra.c_str());
        };
        ksim::hooks.ready = [](ksim::Op& op)
        {
            if (op.opcode == IORING_OP_ACCEPT) return !backlog->empty();
            if (op.opcode == IORING_OP_POLL_ADD && silent && (op.op_flags & POLLIN) && quiet_peer(op.fd)) return false;
            return true;
        };
        ksim::hooks.forced = [](ksim::Op& op) { return (op.opcode == IORING_OP_POLL_ADD || op.opcode == IORING_OP_READ || op.opcode == IORING_OP_WRITE) && mine->contains(op.fd); };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (op.user_data >= (1u << 20)) return false;
            ksim::Quiet q;
            switch (op.opcode)
            {
                case IORING_OP_POLL_ADD: res = C(12) ? (int) op.op_flags : -(int[]){EIO, ECANCELED, EBADF}[C(3)]; return true;
                case IORING_OP_CONNECT:
                    if (auto f = ksim::get_file(op.fd); !f || f->kind != ((sockaddr*) op.addr)->sa_family) res = f ? -EAFNOSUPPORT : -EBADF;
                    else res = C(6) ? 0 : -ECONNREFUSED;
                    return true;
                case IORING_OP_READ:
                {
                    if (!ksim::is_fake(op.fd)) return false;
                    size_t c = C(8);
                    if (c == 0) { res = -(int[]){EIO, ECONNRESET}[C(2)]; return true; }
                    if (c == 1 || op.len == 0) { res = 0; return true; }
                    res = (int) std::min<uint64_t>(op.len, 1 + C(5));
                    int& n = (*socknext)[op.fd];
                    for (int i = 0; i < res; ++i) ((char*) op.addr)[i] = (char) ++n;
                    return true;
                }
                case IORING_OP_WRITE:
                    if (!ksim::is_fake(op.fd)) return false;
                    res = C(6) ? (int) std::min<uint64_t>(op.len, 1 + C(20)) : -EPIPE;
                    return true;
                case IORING_OP_ACCEPT:
                {
                    if (C(6) == 0) { res = -(int[]){EMFILE, ECONNABORTED}[C(2)]; return true; }
                    auto [ip, port] = backlog->front();
                    backlog->pop_front();
                    res = ksim::open_file(std::make_shared<Sock>(), "accept");
                    sockaddr_storage sa{};
                    socklen_t n;
                    if (ip.find(':') == std::string::npos)
                    {
                        auto* a = (sockaddr_in*) &sa;
                        a->sin_family = AF_INET; a->sin_port = htons((uint16_t) port); inet_pton(AF_INET, ip.c_str(), &a->sin_addr); n = sizeof *a;
                    }
                    else
                    {
                        auto* a = (sockaddr_in6*) &sa;
                        a->sin6_family = AF_INET6; a->sin6_port = htons((uint16_t) port); inet_pton(AF_INET6, ip.c_str(), &a->sin6_addr); n = sizeof *a;
                    }
                    if (op.addr && op.off)
                    {
                        auto* len = (socklen_t*) op.off;
                        memcpy((void*) op.addr, &sa, std::min(*len, n));
                        *len = n;
                    }
                    ksim::ev("\"e\":\"peer\",\"fd\":%d,\"ip\":\"%s\",\"port\":%d", res, ip.c_str(), port);
                    return true;
                }
                default: return false;
            }
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            ksim::Quiet q;
            bool mine = op.opcode == IORING_OP_POLL_ADD || (op.opcode == IORING_OP_READ && ksim::is_fake(op.fd)) || op.opcode == IORING_OP_WRITE || op.opcode == IORING_OP_CLOSE ||
                        op.opcode == IORING_OP_ACCEPT || op.opcode == IORING_OP_CONNECT;
            if (!mine || op.user_data >= (1u << 20)) return;
            ksim::ev("\"e\":\"comp\",\"u\":%d,\"r\":%d", (int) op.seq, res);
        };
    }
    void ret(int x, bool ok, int v, const std::string& bytes = "")
    {
        ksim::ev("\"e\":\"ret\",\"x\":%d,\"ok\":%d,\"v\":%d,\"bs\":[%s]", x, (int) ok, v, bytes.c_str());
    }
    int xs, os;
    void obs(int o, const TlsStream& t)
    {
        ksim::ev("\"e\":\"obs\",\"o\":%d,\"done\":%d,\"ktls\":%d,\"fd\":%d,\"ip\":\"%s\",\"port\":%d", o, (int) t.is_handshake_done(), (int) t.is_ktls_active(), t.fd(), t.peer_ip().c_str(),
                 (int) t.peer_port());
    }
    int begin(const char* k, int o, int64_t n = 0, const std::string& h = "")
    {
        ksim::ev("\"e\":\"call\",\"x\":%d,\"k\":\"%s\",\"o\":%d,\"n\":%d,\"h\":%s", ++xs, k, o, (int) std::min<int64_t>(n, 1 << 30), ksim::jstr(h).c_str());
        return xs;
    }
    bool held(int fd)
    {
        ksim::Quiet q;
        auto i = engines->find(fd);
        return i != engines->end() && i->second->pend > 0;
    }
    struct Own { int o; std::unique_ptr<TlsStream> t; };
    void drop(Own& s)
    {
        ksim::ev("\"e\":\"del\",\"o\":%d", s.o);
        s.t.reset();
        ksim::ev("\"e\":\"deld\",\"o\":%d", s.o);
        s.o = 0;
    }
    std::atomic<int> finished{0};
    Task<void> use(Own s, int n)
    {
        static const char* hosts[] = {"", "example.org", "a.b"};
        for (; n > 0; --n)
        {
            switch (R(9))
            {
                case 0: case 1:
                {
                    std::string h = hosts[R(3)];
                    int x = begin("hs", s.o, 0, h);
                    int v = 0; bool ok = false;
                    try { auto r = co_await s.t->async_handshake(h); ok = r.has_value(); v = ok ? 0 : r.error().value; }
                    catch (...) { v = -2; }
                    ret(x, ok, v);
                    break;
                }
                case 2: case 3: case 4:
                {
                    size_t len = (size_t[]){0, 1, 2, 5, 40, (size_t) 3 << 30}[R(6)];
                    if (len > 1000 && !held(s.t->fd())) len = 6;      // a range that is not backed by memory: only for what the engine holds

                    int x = begin("read", s.o, (int64_t) len);
                    int v = 0; bool ok = false;
                    std::string bs;
                    char room[64] = {};
                    std::span<char> buf(room, len);
                    try
                    {
                        auto r = co_await s.t->async_read(buf);
                        ok = r.has_value(); v = ok ? *r : r.error().value;
                        for (int i = 0; ok && i < v && i < 64; ++i) bs += (i ? "," : "") + std::to_string((int) room[i]);
                    }
                    catch (...) { v = -2; }
                    ret(x, ok, v, bs);
                    break;
                }
                case 5:
                {
                    size_t len = 1 + R(30);
                    int x = begin("write", s.o, (int64_t) len);
                    int v = 0; bool ok = false;
                    std::string data(len, 'd');
                    try { auto r = co_await s.t->async_write(data); ok = r.has_value(); v = ok ? *r : r.error().value; }
                    catch (...) { v = -2; }
                    ret(x, ok, v);
                    break;
                }
                case 6:
                {
                    bool close = R(2);
                    int x = begin(close ? "close" : "shut", s.o);
                    int v = 0; bool ok = false;
                    try { auto r = co_await (close ? s.t->async_close() : s.t->async_shutdown()); ok = r.has_value(); v = ok ? 0 : r.error().value; }
                    catch (...) { v = -2; }
                    ret(x, ok, v);
                    break;
                }
                case 7:
                {
                    Own d{++os, nullptr};
                    d.t = std::make_unique<TlsStream>(std::move(*s.t));
                    ksim::ev("\"e\":\"mv\",\"o\":%d,\"p\":%d", s.o, d.o);
                    obs(s.o, *s.t);
                    drop(s);
                    s = std::move(d);
                    break;
                }
                default: break;
            }
            obs(s.o, *s.t);
        }
        if (R(2))
        {
            int x = begin("close", s.o);
            int v = 0; bool ok = false;
            try { auto r = co_await s.t->async_close(); ok = r.has_value(); v = ok ? 0 : r.error().value; }
            catch (...) { v = -2; }
            ret(x, ok, v);
            obs(s.o, *s.t);
        }
        drop(s);
    }
    DetachedTask direct(int n)
    {
        co_await SwitchToWorker(**w);
        {
            Own s{++os, nullptr};
            auto role = R(2) ? TlsRole::Client : TlsRole::Server;
            int fd = ksim::open_file(std::make_shared<Sock>(), "socket");
            std::string ip = R(2) ? "" : "10.0.0.7";
            ksim::ev("\"e\":\"make\",\"o\":%d,\"fd\":%d,\"role\":\"%s\",\"ip\":\"%s\",\"port\":%d", s.o, fd, role == TlsRole::Client ? "connect" : "accept", ip.c_str(), ip.empty() ? 0 : 77);
            bool ok = false;
            try { s.t = std::make_unique<TlsStream>(**w, net::Socket(fd), *ctx, role); ok = true; }
            catch (...) {}
            ksim::ev("\"e\":\"made\",\"o\":%d,\"ok\":%d,\"s\":%d", s.o, (int) ok, last_ssl);
            if (ok)
            {
                if (!ip.empty())
                {
                    net::SocketAddress a;
                    a.ip = ip;
                    a.port = 77;
                    s.t->set_peer_addr(std::move(a));
                }
                obs(s.o, *s.t);
                co_await use(std::move(s), n);
            }
        }
        finished.fetch_add(1, std::memory_order_relaxed);
    }
    // a connection that is closed while its peer says nothing more
    DetachedTask closing()
    {
        co_await SwitchToWorker(**w);
        {
            Own s{++os, nullptr};
            int fd = ksim::open_file(std::make_shared<Sock>(), "socket");
            ksim::ev("\"e\":\"make\",\"o\":%d,\"fd\":%d,\"role\":\"connect\",\"ip\":\"\",\"port\":0", s.o, fd);
            s.t = std::make_unique<TlsStream>(**w, net::Socket(fd), *ctx, TlsRole::Client);
            ksim::ev("\"e\":\"made\",\"o\":%d,\"ok\":1,\"s\":%d", s.o, last_ssl);
            int x = begin("hs", s.o);
            auto r = co_await s.t->async_handshake();
            ret(x, r.has_value(), r ? 0 : r.error().value);
            obs(s.o, *s.t);
            x = begin("close", s.o);
            auto c = co_await s.t->async_close();
            ret(x, c.has_value(), c ? 0 : c.error().value);
            obs(s.o, *s.t);
            drop(s);
        }
        finished.fetch_add(1, std::memory_order_relaxed);
    }
    const char* const addrs[] = {"127.0.0.1", "0.0.0.0", "10.1.2.3", "::1", "fe80::1:2", "host.test", "not an address"};
    DetachedTask accepting(int n, std::string ip, uint16_t port)
    {
        co_await SwitchToWorker(**w);
        {
            tls::ListenerConfig c;
            c.bind_address = ip;
            c.port = port;
            c.backlog = 1 + (int) R(200);
            ksim::ev("\"e\":\"lcall\",\"ip\":\"%s\",\"port\":%d,\"q\":%d", ip.c_str(), (int) port, c.backlog);
            auto l = tls::TlsListener::bind(**w, c, *ctx);
            ksim::ev("\"e\":\"lret\",\"ok\":%d,\"v\":%d", (int) l.has_value(), l ? 0 : l.error().value);
            for (; l && n > 0; --n)
            {
                Own s{++os, nullptr};
                { ksim::Quiet q; backlog->push_back({(const char*[]){"1.2.3.4", "192.168.7.9", "::1", "2001:db8::5"}[R(4)], port_of(os)}); }
                int x = begin("acc", s.o);
                bool ok = false;
                int v = 0;
                try
                {
                    auto r = co_await l->accept();
                    ok = r.has_value();
                    v = ok ? r->fd() : r.error().value;
                    if (ok) s.t = std::make_unique<TlsStream>(std::move(*r));
                }
                catch (...) { v = -2; }
                ret(x, ok, v);
                if (ok) { obs(s.o, *s.t); co_await use(std::move(s), (int) R(4)); }
            }
        }
        ksim::ev("\"e\":\"ldel\"");
        finished.fetch_add(1, std::memory_order_relaxed);
    }
    DetachedTask connecting(int n)
    {
        co_await SwitchToWorker(**w);
        tls::TlsConnector k(**w, *ctx);
        for (; n > 0; --n)
        {
            Own s{++os, nullptr};
            std::string h = addrs[R(7)];
            int x = begin("con", s.o, 4000 + os, h);
            bool ok = false;
            int v = 0;
            try
            {
                auto r = co_await k.connect(h, (uint16_t) (4000 + os));
                ok = r.has_value();
                v = ok ? r->fd() : r.error().value;
                if (ok) s.t = std::make_unique<TlsStream>(std::move(*r));
            }
            catch (...) { v = -2; }
            ret(x, ok, v);
            if (ok) { obs(s.o, *s.t); co_await use(std::move(s), (int) R(4)); }
        }
        finished.fetch_add(1, std::memory_order_relaxed);
    }
    enum { DIRECT, CONN, STOP, TINY, SILENT };
    void streams(int mode)
    {
        {
            ksim::Quiet q;
            quiet_log();
            queue = new std::map<int, std::vector<unsigned long>>;
            engines = new std::map<int, ssl_st*>;
            socknext = new std::map<int, int>;
            mine = new std::set<int>;
            backlog = new std::deque<std::pair<std::string, int>>;
        }
        tiny = mode == TINY;
        silent = mode == SILENT;
        strict_host = R(3) == 0;
        engine_fails = mode == CONN && R(2);
        hooks();
        ksim::ev("\"e\":\"init\",\"tiny\":%d,\"stop\":%d", (int) tiny, (int) (mode == STOP));
        W wk(0, tiny ? cfg(2, 1, 2, 16) : cfg(16, 16, 64, 16));
        w = &wk;
        wk.start();
        bool ef = engine_fails;
        engine_fails = false;
        auto c = tls::TlsContext::make_client({});
        engine_fails = ef;
        ctx = &*c;
        int n = 0;
        if (mode == CONN)
        {
            if (R(2)) { accepting(1 + (int) R(3), addrs[R(7)], (uint16_t) (2000 + R(100))); ++n; }
            if (R(2) || !n) { connecting(1 + (int) R(3)); ++n; }
        }
        else if (mode == SILENT) { closing(); n = 1; }
        else
            for (n = 0; n < 1 + (int) R(3); ++n) direct(1 + (int) R(7));
        if (mode == STOP)
            for (size_t k = R(200); k > 0; --k) ksim::point();
        else ksim::quiesce(false);
        if (mode == STOP) ksim::ev("\"e\":\"stop\"");
        else
        {
            ksim::quiesce(true);
            int left = n - finished.load(std::memory_order_relaxed);
            ksim::Quiet q;
            int mute = 0;
            for (auto& [fd, s]: *engines) mute += silent && s->sent && !s->recv;
            ksim::ev("\"e\":\"end\",\"left\":%d,\"mute\":%d", left, mute);
        }
        wk.stop();
    }
    // ---- contexts
    void contexts()
    {
        {
            ksim::Quiet q;
            quiet_log();
            queue = new std::map<int, std::vector<unsigned long>>;
        }
        engine_fails = R(3) != 0;
        ksim::ev("\"e\":\"init\"");
        std::vector<std::unique_ptr<tls::TlsContext>> live;
        for (size_t n = 1 + R(5); n > 0; --n)
        {
            if (live.size() > 1 && R(3) == 0)
            {
                int a = live[0]->get()->id, b = live[1]->get()->id;
                size_t how = R(3);
                ksim::ev("\"e\":\"assign\",\"a\":%d,\"b\":%d,\"how\":%d", a, b, (int) how);
                if (how == 0) *live[0] = std::move(*live[1]);
                else if (how == 1) { auto& same = *live[0]; *live[0] = std::move(same); }
                else live[0] = std::make_unique<tls::TlsContext>(std::move(*live[0]));
                ksim::ev("\"e\":\"assigned\",\"now\":%d", live[0]->get() ? live[0]->get()->id : 0);
                if (how == 0) live.erase(live.begin() + 1);
                ksim::ev("\"e\":\"done\"");
                continue;
            }
            if (!live.empty() && R(6) == 0)
            {
                ksim::ev("\"e\":\"drop\",\"c\":%d", live.back()->get()->id);
                live.pop_back();
                ksim::ev("\"e\":\"done\"");
                continue;
            }
            tls::TlsConfig c;
            bool srv = R(2);
            if (R(4) || srv) c.cert_path = R(8) ? "cert.pem" : "";
            if (!c.cert_path.empty() || R(4) == 0) c.key_path = R(8) ? "key.pem" : "";
            if (R(3) == 0) c.ca_cert_path = "ca.pem";
            if (R(4) == 0) c.ca_dir_path = "cadir";
            c.min_version = R(2) ? tls::TlsVersion::TLS_1_2 : tls::TlsVersion::TLS_1_3;
            c.verify_mode = R(2) ? SSL_VERIFY_PEER : R(2) ? SSL_VERIFY_NONE : SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
            if (R(3) == 0) c.cipher_suites = "LIST";
            if (R(3) == 0) c.ciphersuites_tls13 = "SUITES";
            for (size_t k = R(3); k > 0; --k) c.alpn_protocols.push_back(R(2) ? "h2" : "http/1.1");
            std::string alpn;
            bool bad = !c.alpn_protocols.empty() && R(5) == 0;
            if (bad) c.alpn_protocols[0] = R(2) ? "" : std::string(256 + R(10), 'x');
            for (auto& a: c.alpn_protocols) alpn += (alpn.empty() ? "" : ",") + (bad ? "\"?\"" : ksim::jstr(std::string(1, (char) a.size()) + a));
            ksim::ev("\"e\":\"mk\",\"srv\":%d,\"cert\":%s,\"key\":%s,\"trust\":%s,\"min\":\"%s\",\"verify\":\"%d\",\"list\":%s,\"suites\":%s,\"alpn\":[%s],\"bad\":%d", (int) srv, ksim::jstr(c.cert_path.string()).c_str(),
                     ksim::jstr(c.key_path.string()).c_str(), ksim::jstr(c.ca_cert_path.string() + "|" + c.ca_dir_path.string()).c_str(), c.min_version == tls::TlsVersion::TLS_1_2 ? "1.2" : "1.3",
                     c.verify_mode, ksim::jstr(c.cipher_suites).c_str(), ksim::jstr(c.ciphersuites_tls13).c_str(), alpn.c_str(), (int) bad);
            auto r = srv ? tls::TlsContext::make_server(c) : tls::TlsContext::make_client(c);
            ksim::ev("\"e\":\"mkd\",\"ok\":%d,\"v\":%d,\"c\":%d", (int) r.has_value(), r ? 0 : r.error().value, r ? r->get()->id : 0);
            if (r) live.push_back(std::make_unique<tls::TlsContext>(std::move(*r)));
        }
        for (; !live.empty(); live.pop_back()) ksim::ev("\"e\":\"drop\",\"c\":%d", live.back()->get()->id);
        ksim::ev("\"e\":\"end\"");
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"direct", [] { streams(DIRECT); }, 4},
        {"conn", [] { streams(CONN); }, 4},
        {"stop", [] { streams(STOP); }, 8},
        {"tiny", [] { streams(TINY); }, 4},
        {"silent", [] { streams(SILENT); }, 4},
        {"contexts", contexts, 4},
    });
}
