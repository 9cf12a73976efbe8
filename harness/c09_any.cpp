// C09: the first of several tasks; histories for spec/AnyTrace.tla
#include "wk.h"
#include "kio/sync/when_any.h"
using namespace wk;
namespace
{
    std::vector<W*> ws;
    int next_a;
    struct Gone
    {
        int a, k;
        bool live = true;
        Gone(int a_, int k_) : a(a_), k(k_) {}
        Gone(Gone&& o) noexcept : a(o.a), k(o.k), live(o.live) { o.live = false; }
        ~Gone() { if (live) ksim::ev("\"e\":\"gone\",\"a\":%d,\"k\":%d", a, k); }
    };
    struct Plan { int where, us, hops; bool thr; };
    // the token lives in the frame of the task given to when_any: it goes with that frame, after the report
    Task<int> inner(int a, int k, Plan p)
    {
        ksim::ev("\"e\":\"start\",\"a\":%d,\"k\":%d", a, k);
        if (p.where >= 0) co_await SwitchToWorker(**ws[(size_t) p.where]);
        if (p.us && p.where >= 0) (void) co_await (*ws[(size_t) p.where])->async_sleep(std::chrono::microseconds(p.us));
        for (int h = 0; h < p.hops; ++h) co_await SwitchToWorker(**ws[(size_t) h % ws.size()]);
        ksim::ev("\"e\":\"fin\",\"a\":%d,\"k\":%d", a, k);
        if (p.thr) throw std::runtime_error("task");
        co_return k;
    }
    Task<int> body(Gone g, Plan p) { int r = co_await inner(g.a, g.k, p); co_return r; }
    Task<void> vbody(Gone g, Plan p) { co_await inner(g.a, g.k, p); }
    Task<std::string> sbody(Gone g, Plan p) { co_await inner(g.a, g.k, p); co_return std::string(40, 's'); }
    Task<void> one(std::vector<Plan> ps, int o)
    {
        int a;
        { ksim::Quiet q; a = ++next_a; }
        ksim::ev("\"e\":\"any\",\"a\":%d,\"n\":%d,\"t\":%d,\"o\":%d", a, (int) ps.size(), ksim::self(), ws[(size_t) o]->fib());
        size_t r;
        Worker& w = **ws[(size_t) o];
        switch (ps.size())
        {
            case 1: r = co_await sync::when_any(w, body(Gone(a, 0), ps[0])); break;
            case 2: r = co_await sync::when_any(w, body(Gone(a, 0), ps[0]), vbody(Gone(a, 1), ps[1])); break;
            case 3: r = co_await sync::when_any(w, sbody(Gone(a, 0), ps[0]), body(Gone(a, 1), ps[1]), body(Gone(a, 2), ps[2])); break;
            default: r = co_await sync::when_any(w, body(Gone(a, 0), ps[0]), body(Gone(a, 1), ps[1]), vbody(Gone(a, 2), ps[2]), sbody(Gone(a, 3), ps[3])); break;
        }
        ksim::ev("\"e\":\"ret\",\"a\":%d,\"k\":%d,\"t\":%d", a, (int) r, ksim::self());
    }
    DetachedTask root(std::vector<std::vector<Plan>> all, int o, int from)
    {
        co_await SwitchToWorker(**ws[(size_t) from]);
        for (auto& ps: all) co_await one(ps, o);
    }
    void scenario(int nw, int calls, int maxn, bool throws)
    {
        quiet_log();
        next_a = 0;
        ws.clear();
        std::vector<std::unique_ptr<W>> own;
        for (int k = 0; k < nw; ++k) { own.push_back(std::make_unique<W>(k, cfg(16, 16, 64, 64))); ws.push_back(own.back().get()); }
        ksim::ev("\"e\":\"init\"");
        for (auto* w: ws) w->start();
        ksim::quiesce(false);
        size_t before = ksim::live_allocs();
        {
            std::vector<std::pair<int, std::vector<std::vector<Plan>>>> all;
            for (int c = 1 + (int) R((size_t) calls); c > 0; --c)
            {
                std::vector<std::vector<Plan>> seq;
                for (int s = 1 + (int) R(2); s > 0; --s)
                {
                    std::vector<Plan> ps;
                    for (int k = 1 + (int) R((size_t) maxn); k > 0; --k)
                        ps.push_back({(int) R((size_t) nw + 1) - 1, (int[]){0, 0, 1, 3, 10}[R(5)], (int) R(3), throws && R(2)});
                    seq.push_back(ps);
                }
                all.emplace_back((int) R((size_t) nw), seq);
            }
            for (auto& [o, seq]: all) root(seq, o, R(4) ? o : (int) R((size_t) nw)).detach();
            ksim::quiesce(true);
        }
        ksim::ev("\"e\":\"quiet\",\"leak\":%d", (int) (ksim::live_allocs() - before));
        for (auto* w: ws) w->stop();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(1, 2, 4, false); }, 8},
        {"two", [] { scenario(2, 2, 4, false); }, 12},
        {"throw", [] { scenario(2, 1, 4, true); }, 12},
        {"mini", [] { scenario(2, 1, 2, true); }, 50},
    });
}
