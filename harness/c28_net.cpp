// C28: addresses and listening sockets; histories for spec/NetTrace.tla
#include "wk.h"
#include "kio/net/net.h"
#include <fcntl.h>
#include <netdb.h>
#include <netinet/tcp.h>
using namespace wk;
namespace
{
    struct Host { const char* h; bool lit; struct { int fam; const char* ip; } as[3]; int err; };
    // numeric hosts and what they mean; names and what the name service answers, in its order
    const Host hosts[] = {
        {"127.0.0.1", true, {{AF_INET, "127.0.0.1"}}, 0}, {"0.0.0.0", true, {{AF_INET, "0.0.0.0"}}, 0}, {"255.255.255.255", true, {{AF_INET, "255.255.255.255"}}, 0},
        {"10.1.2.3", true, {{AF_INET, "10.1.2.3"}}, 0}, {"::1", true, {{AF_INET6, "::1"}}, 0}, {"::", true, {{AF_INET6, "::"}}, 0},
        {"2001:DB8:0:0:0:0:0:5", true, {{AF_INET6, "2001:db8::5"}}, 0}, {"::ffff:1.2.3.4", true, {{AF_INET6, "::ffff:1.2.3.4"}}, 0},
        {"fe80:1:2:3:4:5:6:7", true, {{AF_INET6, "fe80:1:2:3:4:5:6:7"}}, 0},
        {"four.example", false, {{AF_INET, "192.0.2.7"}}, 0}, {"six.example", false, {{AF_INET6, "2001:db8::7"}}, 0},
        {"both.example", false, {{AF_INET6, "2001:db8::8"}, {AF_INET, "192.0.2.8"}}, 0}, {"many.example", false, {{AF_INET, "192.0.2.9"}, {AF_INET, "192.0.2.10"}, {AF_INET6, "2001:db8::9"}}, 0},
        {"none.example", false, {}, EAI_NONAME}, {"later.example", false, {}, EAI_AGAIN}, {"broken.example", false, {}, EAI_SYSTEM}, {"", false, {}, EAI_NONAME},
        {"1.2.3", false, {{AF_INET, "1.2.0.3"}}, 0}, {"1.2.3.4.5", false, {}, EAI_NONAME}, {"256.1.1.1", false, {}, EAI_NONAME}, {":::", false, {}, EAI_NONAME}, {" 1.2.3.4", false, {}, EAI_NONAME},
    };
    struct Answer { addrinfo ai; sockaddr_storage ss; };
    bool put(int fam, const char* ip, int port, sockaddr_storage& ss, socklen_t& n)
    {
        memset(&ss, 0, sizeof ss);
        ss.ss_family = (sa_family_t) fam;
        if (fam == AF_INET)
        {
            auto& a = (sockaddr_in&) ss;
            a.sin_port = htons((uint16_t) port);
            n = sizeof a;
            return inet_pton(fam, ip, &a.sin_addr) == 1;
        }
        auto& a = (sockaddr_in6&) ss;
        a.sin6_port = htons((uint16_t) port);
        n = sizeof a;
        return inet_pton(fam, ip, &a.sin6_addr) == 1;
    }
    std::string addr(const void* p, socklen_t n)
    {
        const sockaddr* sa = (const sockaddr*) p;
        char buf[64] = "?";
        int port = -1, fam = n >= 2 ? sa->sa_family : -1;
        if (fam == AF_INET && n == sizeof(sockaddr_in)) { inet_ntop(AF_INET, &((const sockaddr_in*) p)->sin_addr, buf, 64); port = ntohs(((const sockaddr_in*) p)->sin_port); }
        if (fam == AF_INET6 && n == sizeof(sockaddr_in6)) { inet_ntop(AF_INET6, &((const sockaddr_in6*) p)->sin6_addr, buf, 64); port = ntohs(((const sockaddr_in6*) p)->sin6_port); }
        if (fam == AF_INET6 && (((const sockaddr_in6*) p)->sin6_scope_id || ((const sockaddr_in6*) p)->sin6_flowinfo)) port = -2;
        return "{\"fam\":" + std::to_string(fam) + ",\"ip\":\"" + buf + "\",\"port\":" + std::to_string(port) + "}";
    }
    std::string shown(const net::SocketAddress& a) { return "{\"fam\":" + std::to_string(a.family) + ",\"ip\":" + ksim::jstr(a.ip) + ",\"port\":" + std::to_string(a.port) + "}"; }
    const char* optname(long l, long o)
    {
        if (l == SOL_SOCKET && o == SO_REUSEADDR) return "reuseaddr";
        if (l == SOL_SOCKET && o == SO_REUSEPORT) return "reuseport";
        if (l == SOL_SOCKET && o == SO_KEEPALIVE) return "keepalive";
        if (l == IPPROTO_TCP && o == TCP_NODELAY) return "nodelay";
        return "other";
    }
    const char* const none = "{\"fam\":0,\"ip\":\"\",\"port\":0}";
    void answer(bool ok, int fd, int code, const std::string& a, const std::string& raw)
    {
        ksim::ev("\"e\":\"answer\",\"r\":{\"ok\":%d,\"fd\":%d,\"code\":%d,\"a\":%s,\"raw\":%s}", (int) ok, fd, code, a.c_str(), raw.c_str());
    }
    void plain(const Result<void>& r) { answer(r.has_value(), -1, r ? 0 : r.error().value, none, none); }
    void plain(const Result<int>& r) { answer(r.has_value(), r ? *r : -1, r ? 0 : r.error().value, none, none); }
    void scenario()
    {
        quiet_log();
        static const char* calls[] = {"socket", "setsockopt", "bind", "fcntl", "listen"};
        static const int errs[] = {EADDRINUSE, EACCES, ENOBUFS, EMFILE, EINVAL};
        static int at, nth, seen;
        at = (int) R(9);
        nth = (int) R(4);
        seen = 0;
        ksim::hooks.fail = [](const char* call, int)
        {
            int e = 0;
            if (at < 5 && !strcmp(call, calls[at]) && (seen++ % 4) == nth)
            {
                e = errs[ksim::choose(5)];
                if (at == 0) ksim::ev("\"e\":\"nosock\",\"err\":%d", e);
            }
            return e;
        };
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            if (!strcmp(what, "badclose")) { ksim::bad("badclose"); return; }
            if (!strcmp(what, "close")) { ksim::ev("\"e\":\"close\",\"fd\":%d", fd); return; }
            if (!strcmp(what, "socket")) ksim::ev("\"e\":\"sock\",\"fd\":%d,\"fam\":%d,\"nb\":%d", fd, ksim::get_file(fd)->kind, (int) ((ksim::fd_flags(fd) & O_NONBLOCK) != 0));
        };
        ksim::hooks.on_call = [](const char* n, int fd, const void* a, long x, long m, int err)
        {
            if (!strcmp(n, "setsockopt")) ksim::ev("\"e\":\"sys\",\"n\":\"setsockopt\",\"fd\":%d,\"err\":%d,\"o\":\"%s\",\"v\":%d", fd, err, optname(x, m), (int) (*(const int*) a != 0));
            else if (!strcmp(n, "bind")) ksim::ev("\"e\":\"sys\",\"n\":\"bind\",\"fd\":%d,\"err\":%d,\"a\":%s", fd, err, addr(a, (socklen_t) x).c_str());
            else if (!strcmp(n, "listen")) ksim::ev("\"e\":\"sys\",\"n\":\"listen\",\"fd\":%d,\"err\":%d,\"v\":%d", fd, err, (int) x);
            else if (!strcmp(n, "fcntl") && (x == F_SETFL || err)) ksim::ev("\"e\":\"sys\",\"n\":\"fcntl\",\"fd\":%d,\"err\":%d,\"v\":%d", fd, err, (int) ((m & O_NONBLOCK) != 0));
        };
        std::string t;
        for (auto& h: hosts)
        {
            std::string as;
            for (auto& x: h.as) if (x.fam) as += (as.empty() ? "" : ",") + ("{\"fam\":" + std::to_string(x.fam)) + ",\"ip\":\"" + x.ip + "\"}";
            t += (t.empty() ? "" : ",") + ("{\"h\":" + ksim::jstr(h.h)) + ",\"lit\":" + (h.lit ? "1" : "0") + ",\"as\":[" + as + "]}";
        }
        ksim::ev("\"e\":\"init\",\"names\":[%s]", t.c_str());
        std::vector<int> mine;
        for (int n = 1 + (int) R(6); n > 0; --n)
        {
            const Host& h = hosts[R(std::size(hosts))];
            int port = (int[]){0, 1, 80, 255, 256, 8080, 65535}[R(7)], backlog = (int[]){1, 5, 128, 4096}[R(4)];
            // the text after the host is not part of it
            std::string text = std::string(h.h) + (char[]){'9', '.', 'a', 0}[R(4)];
            std::string_view host(text.data(), text.size() - 1);
            switch (R(7))
            {
                case 0: case 1:
                {
                    ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"resolve\",\"h\":%s,\"port\":%d}", ksim::jstr(h.h).c_str(), port);
                    auto r = net::resolve_address(host, (uint16_t) port);
                    answer(r.has_value(), -1, r ? 0 : r.error().value, r ? shown(*r) : none, r ? addr(&r->addr, r->addrlen) : none);
                    break;
                }
                case 2:
                {
                    net::SocketAddress a;
                    int fam = (int[]){AF_INET, AF_INET6, AF_UNIX, AF_UNSPEC}[R(4)];
                    const char* ip = fam == AF_INET6 ? (const char*[]){"::1", "2001:db8::5", "::"}[R(3)] : (const char*[]){"1.2.3.4", "0.0.0.0", "255.255.255.255"}[R(3)];
                    bool known = fam == AF_INET || fam == AF_INET6;
                    if (known) put(fam, ip, port, a.addr, a.addrlen);
                    else { a.addr.ss_family = (sa_family_t) fam; a.addrlen = 16; }
                    if (!R(4)) { a.addrlen = 0; known = false; }
                    if (R(2)) { a.ip = "9.9.9.9"; a.port = 99; a.family = 77; }
                    ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"populate\",\"known\":%d,\"a\":{\"fam\":%d,\"ip\":\"%s\",\"port\":%d}}", (int) known, fam, ip, port);
                    bool ok = a.populate_from_storage();
                    answer(ok, -1, 0, shown(a), none);
                    break;
                }
                case 3: case 4:
                {
                    ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"server\",\"h\":%s,\"port\":%d,\"backlog\":%d}", ksim::jstr(h.h).c_str(), port, backlog);
                    auto r = net::create_tcp_server_socket(host, (uint16_t) port, backlog);
                    plain(r);
                    if (r) mine.push_back(*r);
                    break;
                }
                case 5:
                {
                    int fam = R(2) ? AF_INET : AF_INET6;
                    bool tcp = R(2);
                    ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"%s\",\"fam\":%d}", tcp ? "tcpfd" : "raw", fam);
                    auto r = tcp ? net::create_tcp_fd(fam) : net::create_raw_socket(fam);
                    plain(r);
                    if (r) mine.push_back(*r);
                    break;
                }
                case 6:
                {
                    if (mine.empty()) break;
                    int fd = mine[R(mine.size())];
                    int what = (int) R(3);
                    if (what == 0)
                    {
                        ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"tcpopts\",\"fd\":%d}", fd);
                        plain(net::set_tcp_fd_options(fd));
                    }
                    else if (what == 1)
                    {
                        ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"srvopts\",\"fd\":%d}", fd);
                        plain(net::set_fd_server_options(fd));
                    }
                    else
                    {
                        // a fresh socket, bound to a known address
                        ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"raw\",\"fam\":%d}", h.as[0].fam ? h.as[0].fam : AF_INET);
                        auto r = net::create_raw_socket(h.as[0].fam ? h.as[0].fam : AF_INET);
                        plain(r);
                        if (!r) break;
                        mine.push_back(*r);
                        if (!h.as[0].fam) break;
                        net::SocketAddress a;
                        put(h.as[0].fam, h.as[0].ip, port, a.addr, a.addrlen);
                        ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"listen\",\"fd\":%d,\"h\":%s,\"port\":%d,\"backlog\":%d}", *r, ksim::jstr(h.h).c_str(), port, backlog);
                        plain(net::listen_on_sock(*r, a, backlog));
                    }
                    break;
                }
            }
        }
        for (int fd: mine)
        {
            ksim::ev("\"e\":\"ask\",\"c\":{\"n\":\"uclose\"}");
            ::close(fd);
            answer(true, -1, 0, none, none);
        }
        ksim::ev("\"e\":\"end\"");
    }
}
extern "C" int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    std::string name = node ? node : "";
    for (auto& h: hosts)
    {
        if (h.lit || name != h.h) continue;
        std::vector<Answer*> l;
        for (auto& x: h.as)
        {
            if (!x.fam || (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != x.fam)) continue;
            auto* a = (Answer*) malloc(sizeof(Answer));
            memset(a, 0, sizeof *a);
            a->ai.ai_family = x.fam;
            a->ai.ai_socktype = SOCK_STREAM;
            a->ai.ai_addr = (sockaddr*) &a->ss;
            put(x.fam, x.ip, service ? atoi(service) : 0, a->ss, a->ai.ai_addrlen);
            l.push_back(a);
        }
        for (size_t k = 0; k + 1 < l.size(); ++k) l[k]->ai.ai_next = &l[k + 1]->ai;
        ksim::ev("\"e\":\"lookup\",\"h\":%s,\"ok\":%d", ksim::jstr(name).c_str(), (int) !l.empty());
        if (l.empty()) return h.err ? h.err : EAI_NONAME;
        *res = &l[0]->ai;
        return 0;
    }
    ksim::ev("\"e\":\"lookup\",\"h\":%s,\"ok\":0", ksim::jstr("?" + name).c_str());
    return EAI_NONAME;
}
extern "C" void freeaddrinfo(addrinfo* a)
{
    ksim::ev("\"e\":\"giveback\"");
    while (a) { auto* n = a->ai_next; free(a); a = n; }
}
int main(int argc, char** argv) { return ksim::main(argc, argv, {{"net", scenario, 1}}); }
