// C18: the metrics endpoint; histories for spec/HttpTrace.tla
#include "wk.h"
#include "kio/metrics/registry.h"
#include "kio/metrics/server.h"
#include <charconv>
#include <deque>
#include <set>
using namespace wk;
namespace
{
    struct Client
    {
        int c;
        std::vector<std::string> tok;
        std::string data;        // everything it will send
        size_t h = 0;            // header length
        int after = 0;           // then: 0 waits, 1 end of file, 2 reset
        bool werr = false;
        size_t piece = 0;        // sent in pieces of this size at most, 0: at once
        std::shared_ptr<ksim::Stream> s;
        int fd = -1;
        bool taken = false;
    };
    std::vector<Client>* cs;
    std::deque<int>* backlog;
    std::map<int, int>* byfd;
    std::vector<int>* fails;
    int accept_errors, kth, listen_fd, conn;
    bool counting;
    struct C : IMetricsCollector
    {
        std::string help;
        void Collect(MetricSnapshot& s) override
        {
            int k;
            { ksim::Quiet q; k = ++kth; }
            if (counting) ksim::ev("\"e\":\"collect\",\"k\":%d", k);
            int f = counting ? (*fails)[(size_t) k - 1] : 0;
            if (f == 1) throw std::runtime_error("collector failed");
            auto& fam = s.BuildFamily("m", help, MetricType::Gauge);
            fam.Add({{"l", "x"}}, k);
            if (f == 2) throw 42;
        }
    };
    std::string sig(const std::string& s) { return s.size() <= 160 ? s : "#" + std::to_string(std::hash<std::string>{}(s)) + "/" + std::to_string(s.size()); }
    void answer(Client& k)
    {
        const std::string& t = k.s->tx;
        int code = 0;
        long len = -1;
        std::string body;
        size_t e = t.find("\r\n\r\n");
        if (e != std::string::npos && t.compare(0, 7, "HTTP/1.") == 0)
        {
            std::from_chars(t.data() + 9, t.data() + t.size(), code);
            body = t.substr(e + 4);
            int n = 0;
            for (size_t p = t.find("\r\n"); p < e; p = t.find("\r\n", p + 2))
                if (strncasecmp(t.data() + p + 2, "content-length:", 15) == 0)
                {
                    const char* q = t.data() + p + 17;
                    while (*q == ' ') ++q;
                    const char* eol = t.data() + t.find("\r\n", (size_t) (q - t.data()));
                    auto [end, ec] = std::from_chars(q, eol, len);
                    if (ec != std::errc() || end != eol) len = -2;
                    if (++n > 1) len = -3;
                }
        }
        ksim::ev("\"e\":\"closed\",\"c\":%d,\"a\":{\"n\":%d,\"code\":%d,\"len\":%d,\"blen\":%d,\"body\":%s}", k.c, (int) t.size(), code, (int) len, (int) body.size(), ksim::jstr(sig(body)).c_str());
    }
    Client* at(int fd)
    {
        auto it = byfd->find(fd);
        return it == byfd->end() ? nullptr : &(*cs)[(size_t) it->second - 1];
    }
    void hooks()
    {
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            std::string s = what;
            if (s == "badclose") ksim::bad("badclose");
            if (s == "socket") listen_fd = fd;
            if (s == "close" && fd == listen_fd) listen_fd = -1;
            if (s == "close")
                if (Client* k = at(fd))
                {
                    if (!k->taken) { k->taken = true; ksim::ev("\"e\":\"acc\",\"c\":%d", k->c); }
                    byfd->erase(fd);
                    k->fd = -1;
                    answer(*k);
                }
        };
        ksim::hooks.ready = [](ksim::Op& op) { return op.opcode != IORING_OP_ACCEPT || !backlog->empty() || accept_errors > 0; };
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            if (Client* k = at(op.fd); k && !k->taken) { k->taken = true; ksim::ev("\"e\":\"acc\",\"c\":%d", k->c); }
            if (op.opcode == IORING_OP_ACCEPT && op.fd != listen_fd) ksim::bad("accept-on-other-descriptor");
        };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (op.opcode == IORING_OP_ACCEPT)
            {
                if (accept_errors > 0 && (backlog->empty() || ksim::choose(2))) { --accept_errors; res = -(int[]){EMFILE, ECONNABORTED, EINTR, ENFILE}[ksim::choose(4)]; return true; }
                int c = backlog->front();
                backlog->pop_front();
                Client& k = (*cs)[(size_t) c - 1];
                k.fd = res = ksim::open_file(k.s, "accept");
                (*byfd)[res] = c;
                return true;
            }
            return false;
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            Client* k = op.opcode == IORING_OP_ACCEPT ? nullptr : at(op.fd);
            if (!k) return;
            if (op.opcode == IORING_OP_READ) res > 0 ? ksim::ev("\"e\":\"got\",\"c\":%d,\"n\":%d", k->c, res) : ksim::ev("\"e\":\"end\",\"c\":%d", k->c);
            else res > 0 ? ksim::ev("\"e\":\"wr\",\"c\":%d,\"n\":%d", k->c, res) : ksim::ev("\"e\":\"werr\",\"c\":%d", k->c);
        };
    }
    Client make(int c)
    {
        Client k;
        k.c = c;
        static const char* methods[] = {"GET", "GET", "GET", "GET", "GET", "GET", "POST", "HEAD", "get", "GETX", ""};
        static const char* pths[] = {"/metrics", "/metrics", "/metrics", "/health", "/", "/metric", "/metricsx", "", "/Metrics", "/health/", "metrics"};
        size_t n = (size_t[]){3, 3, 3, 3, 3, 4, 2, 1}[R(8)];
        k.tok = {methods[R(11)]};
        if (n > 1) k.tok.push_back(pths[R(11)]);
        if (n > 2) k.tok.push_back("HTTP/1.1");
        if (n > 3) k.tok.push_back("x");
        std::string line;
        for (size_t j = 0; j < k.tok.size(); ++j) line += (j ? " " : "") + k.tok[j];
        std::string hd = line + "\r\n";
        for (size_t j = R(3); j > 0; --j) hd += (const char*[]){"Host: x\r\n", "A: b c\r\n", "X: \r\n", "N: a\n\nb\r\n", "E: \r\r\n"}[R(5)];
        size_t kind = R(10);
        if (kind == 0) hd += "Pad: " + std::string((size_t[]){900, 1100, 4000, 8100, 8400, 12000}[R(6)], 'p') + "\r\n";
        k.data = hd + "\r\n";
        k.h = k.data.size();
        if (R(4) == 0) k.data += (const char*[]){"GET / HTTP/1.1\r\n\r\n", "body", "\r\n\r\n"}[R(3)];
        if (kind == 1) k.data.resize(R(k.h)), k.h = 0;
        if (kind == 2)
        {
            k.data = hd + std::string((size_t[]){8192, 8193, 9000, 20000}[R(4)] - hd.size(), 'q');
            k.h = 0;
        }
        k.after = (int[]){0, 0, 1, 2}[R(4)];
        k.werr = R(8) == 0;
        k.piece = R(2) ? 0 : 1 + R(R(2) ? 40 : 3000);
        k.s = std::make_shared<ksim::Stream>();
        return k;
    }
    // sends what the client has to send, piece by piece
    void drive(std::vector<Client*> v)
    {
        for (bool more = true; more;)
        {
            more = false;
            for (auto* k: v)
            {
                ksim::Quiet q;
                if (k->data.empty()) continue;
                size_t n = k->piece ? std::min(k->piece, k->data.size()) : k->data.size();
                k->s->rx += k->data.substr(0, n);
                k->data.erase(0, n);
                if (k->data.empty())
                {
                    if (k->after == 1) k->s->rx_eof = true;
                    if (k->after == 2) k->s->rx_err = ECONNRESET;
                }
                else more = true;
            }
            ksim::point();
        }
    }
    std::unique_ptr<MetricsServer> server;
    void connect(int c)
    {
        ksim::Quiet q;
        backlog->push_back(c);
    }
    // mode 0: runs to the end, 1: stopped at some moment, 2: life cycle
    void scenario(int maxc, int mode, bool slots, bool big)
    {
        quiet_log();
        auto* q = new ksim::Quiet;
        cs = new std::vector<Client>;
        backlog = new std::deque<int>;
        byfd = new std::map<int, int>;
        fails = new std::vector<int>;
        listen_fd = -1;
        kth = 0;
        counting = false;
        int n = 1 + (int) R((size_t) maxc);
        accept_errors = slots ? 0 : (int) R(4);
        auto col = std::make_shared<C>();
        col->help = big ? std::string(3000 + R(3) * 40000, 'h') : "help";
        delete q;
        MetricsRegistry<>::Instance().Register(col);
        std::string texts, fl, plan;
        for (int k = 0; k < n; ++k)
        {
            texts += (k ? "," : "") + ksim::jstr(sig(MetricsRegistry<>::Instance().Scrape()));
            int f = R(5) ? 0 : 1 + (int) R(2);
            fails->push_back(f);
            fl += (k ? "," : "") + std::to_string(f > 0);
        }
        kth = 0;
        counting = true;
        for (int c = 1; c <= n; ++c)
        {
            cs->push_back(make(c));
            auto& k = cs->back();
            if (slots) { k.data = "GET /metrics HTTP/1.1\r\n\r\n"; k.tok = {"GET", "/metrics", "HTTP/1.1"}; k.h = k.data.size(); k.after = 0; k.werr = false; }
            if (k.werr) k.s->tx_err = EPIPE;
            std::string t;
            for (auto& x: k.tok) t += (t.empty() ? "" : ",") + ksim::jstr(x);
            if (c > 1) plan += ",";
            plan += "{\"tok\":[" + t + "],\"h\":" + std::to_string(k.h) + "}";
        }
        ksim::ev("\"e\":\"init\",\"plan\":[%s],\"texts\":[%s],\"fails\":[%s]", plan.c_str(), texts.c_str(), fl.c_str());
        hooks();
        size_t sl = slots ? 1 + R(2) : 64;
        server = std::make_unique<MetricsServer>("127.0.0.1", 9090, cfg(64, sl, slots ? sl : 1024, 16));
        int life = mode == 2 ? (int) R(6) : 0;   // 0 start, 1 never started, 2 stopped before start, 3 stop twice, 4 start again after stop, 5 started twice
        std::vector<std::thread> ts;
        auto run = [&]
        {
            std::vector<Client*> a, b;
            for (auto& k: *cs) { connect(k.c); (R(2) ? a : b).push_back(&k); }
            conn = n;
            ts.emplace_back([a] { drive(a); });
            ts.emplace_back([b] { drive(b); });
        };
        if (life == 2) server->stop();
        if (life != 1 && life != 2) server->start();
        if (life == 5) server->start();
        if (mode != 2 || R(2)) run();
        if (mode == 0)
        {
            for (auto& t: ts) t.join();
            ts.clear();
            ksim::quiesce(true);
            ksim::ev("\"e\":\"quiet\",\"conn\":%d", conn);
        }
        else for (size_t k = R(60); k > 0; --k) ksim::point();
        ksim::ev("\"e\":\"stop\"");
        if (mode == 0 || R(2)) server->stop();
        if (life == 3) server->stop();
        if (life == 4) server->start();
        server.reset();
        for (auto& t: ts) t.join();
        // a connection the kernel accepted for a server that no longer looks is not its
        int left = listen_fd >= 0;
        for (auto& k: *cs)
            if (k.fd >= 0 && k.taken) ++left;
        ksim::ev("\"e\":\"final\",\"left\":%d", left);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(1, 0, false, false); }, 4, 200000},
        {"many", [] { scenario(4, 0, false, false); }, 4, 200000},
        {"slots", [] { scenario(4, 0, true, false); }, 10, 200000},
        {"big", [] { scenario(2, 0, false, true); }, 4, 200000},
        {"stop", [] { scenario(3, 1, false, false); }, 6, 200000},
        {"life", [] { scenario(2, 2, false, false); }, 10, 200000},
    });
}
