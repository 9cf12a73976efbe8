// C08: broadcast events; histories for spec/EventTrace.tla
#include "wk.h"
#include "kio/sync/event.h"
using namespace wk;
namespace
{
    W *own, *other;
    int next_x;
    std::atomic<int> order;
    struct E { int b; sync::AsyncEvent ev; int data = 0; std::atomic<int> waiting{0}; E(int i, Worker& w) : b(i), ev(w) {} };
    DetachedTask owner()
    {
        co_await SwitchToWorker(**own);
        ksim::ev("\"e\":\"owner\",\"t\":%d", ksim::self());
    }
    Task<void> wait1(E& x)
    {
        int id;
        { ksim::Quiet q; id = ++next_x; }
        x.waiting.fetch_add(1, std::memory_order_relaxed);
        ksim::ev("\"e\":\"wait\",\"x\":%d,\"b\":%d,\"t\":%d", id, x.b, ksim::self());
        co_await x.ev.wait();
        ksim::ev("\"e\":\"ret\",\"x\":%d,\"t\":%d", id, ksim::self());
        if (x.data == 0) ksim::bad("data-not-visible");
        order.fetch_add(1, std::memory_order_release);     // for the reset that may follow
        x.waiting.fetch_sub(1, std::memory_order_relaxed);
    }
    DetachedTask waiter(std::vector<E*> xs, W* on)
    {
        if (on) co_await SwitchToWorker(**on);
        for (auto* x: xs) co_await wait1(*x);
    }
    DetachedTask many(std::vector<std::vector<E*>> v, W* on)
    {
        co_await SwitchToWorker(**on);
        for (auto& xs: v) waiter(xs, nullptr).detach();
    }
    void notify(E& x)
    {
        ksim::ev("\"e\":\"nS\",\"b\":%d", x.b);
        x.ev.notify();
        ksim::ev("\"e\":\"nE\",\"b\":%d", x.b);
        if (x.ev.is_set()) ksim::ev("\"e\":\"set\",\"b\":%d,\"v\":1", x.b);
        else ksim::bad("not-set");
    }
    DetachedTask co_notify(W* w, E& x, bool d)
    {
        co_await SwitchToWorker(**w);
        if (d) x.data = 1;
        notify(x);
        order.fetch_add(1);
    }
    DetachedTask reset(E& x)
    {
        co_await SwitchToWorker(**own);
        x.ev.reset();
        x.data = 0;
        ksim::ev("\"e\":\"reset\",\"b\":%d", x.b);
        order.fetch_add(1);
    }
    void scenario(int ne, size_t cap, int nw)
    {
        quiet_log();
        next_x = 0;
        W w0(0, cfg(8, 8, 64, cap)), w1(1, cfg(8, 8, 64, 64));
        own = &w0;
        other = &w1;
        ksim::ev("\"e\":\"init\"");
        w0.start();
        w1.start();
        owner().detach();
        ksim::quiesce(false);
        {
            std::vector<std::unique_ptr<E>> es;
            int n = 1 + (int) R((size_t) ne), phases = 1 + (int) R(2);
            for (int b = 0; b < n; ++b) es.push_back(std::make_unique<E>(b, *w0));
            for (int p = 0; p < phases; ++p)
            {
                std::vector<std::vector<E*>> plans;
                for (int k = (int) R((size_t) nw + 1); k > 0; --k)
                {
                    std::vector<E*> v;
                    for (int j = 1 + (int) R(2); j > 0; --j) v.push_back(es[R((size_t) n)].get());
                    plans.push_back(v);
                }
                int mode = (int) R(cap < 16 ? 2 : 5);
                auto waits = [&]
                {
                    if (mode == 0) many(plans, own).detach();
                    else if (mode == 1) many(plans, other).detach();
                    else for (auto& v: plans) waiter(v, mode == 2 ? own : mode == 3 ? other : nullptr).detach();
                };
                bool before = R(3) == 0;
                std::vector<std::thread> ths;
                if (!before) waits();
                if (R(3) == 0) ksim::quiesce(false);
                for (int b = 0; b < n; ++b)
                {
                    int kind = (int) R(6);
                    E& x = *es[(size_t) b];
                    if (kind == 0) continue;
                    if (kind == 1) { co_notify(own, x, true).detach(); continue; }
                    if (kind == 2) { co_notify(other, x, true).detach(); continue; }
                    int k = kind == 3 ? 1 : 2;
                    if (k == 2) { ksim::Quiet q; x.data = 1; }
                    for (int j = 0; j < k; ++j) ths.emplace_back([&x, k] { if (k == 1) x.data = 1; notify(x); });
                }
                if (before) waits();
                for (auto& t: ths) t.join();
                ksim::quiesce(true);
                ksim::ev("\"e\":\"calm\"");
                (void) order.load();
                if (p + 1 < phases)
                {
                    for (auto& e: es) if (e->waiting.load() == 0) { reset(*e).detach(); ksim::quiesce(true); }
                    (void) order.load();
                }
            }
            w0.stop();
            w1.stop();
        }
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(1, 64, 4); }, 12},
        {"mini", [] { scenario(1, 64, 2); }, 50},
        {"several", [] { scenario(2, 64, 4); }, 12},
        {"tight", [] { scenario(1, 2, 6); }, 12},
    });
}
