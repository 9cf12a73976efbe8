// C02: coroutines handed over to workers; histories for spec/HandoverTrace.tla
#include "wk.h"
using namespace wk;
namespace
{
    std::vector<W*> ws;
    int next_c = 0;
    struct Data { int a[4]; };
    int on_worker()      // index of the worker whose thread this is, or -1
    {
        for (size_t k = 0; k < ws.size(); ++k)
            if (ws[k]->fib() == ksim::self()) return (int) k;
        return -1;
    }
    struct Frame { int id; Frame(int i) : id(i) {} Frame(const Frame&) = delete; };
    // plan: which workers to visit, and whether to sleep after each
    DetachedTask hop(int id, std::vector<int> plan)
    {
        auto d = std::make_unique<Data>();
        int k = 0;
        for (int p: plan)
        {
            int w = p & 3;
            for (auto& x: d->a) x = id * 100 + k;
            bool same = on_worker() == w;
            if (same) ksim::ev("\"e\":\"sameS\",\"c\":%d,\"t\":%d,\"w\":%d", id, ksim::self(), w);
            else ksim::ev("\"e\":\"post\",\"c\":%d,\"t\":%d,\"w\":%d", id, ksim::self(), w);
            co_await SwitchToWorker(**ws[w]);
            if (same) ksim::ev("\"e\":\"sameE\",\"c\":%d,\"t\":%d,\"w\":%d", id, ksim::self(), w);
            else ksim::ev("\"e\":\"run\",\"c\":%d,\"t\":%d,\"w\":%d", id, ksim::self(), w);
            for (auto& x: d->a) if (x != id * 100 + k) ksim::bad("data-not-visible");
            k++;
            if (p & 4) ksim::point();
            if (p & 8)
            {
                ksim::ev("\"e\":\"sleep\",\"c\":%d,\"t\":%d", id, ksim::self());
                auto r = co_await (*ws[w])->async_sleep(std::chrono::microseconds(10));
                ksim::ev("\"e\":\"woke\",\"c\":%d,\"t\":%d,\"w\":%d,\"ok\":%d", id, ksim::self(), w, (int) r.has_value());
            }
        }
        ksim::ev("\"e\":\"done\",\"c\":%d", id);
    }
    void scenario(int nw, int nthreads, size_t cap, int per, int maxplan)
    {
        quiet_log();
        ws.clear();
        next_c = 0;
        std::vector<std::unique_ptr<W>> own;
        for (int k = 0; k < nw; ++k)
        {
            own.push_back(std::make_unique<W>(k, cfg(8, 8, 64, cap)));
            ws.push_back(own.back().get());
        }
        ksim::ev("\"e\":\"init\",\"cap\":%zu,\"nw\":%d", cap, nw);
        bool early = R(4) == 0;    // hand over before the worker's loop runs
        std::vector<std::thread> th;
        auto body = [&](std::vector<std::pair<int, std::vector<int>>> mine)
        {
            for (auto& [id, plan]: mine) hop(id, plan).detach();
        };
        auto make = [&](int n)
        {
            std::vector<std::pair<int, std::vector<int>>> v;
            for (int j = 0; j < n; ++j)
            {
                std::vector<int> plan;
                int len = 1 + (int) R(maxplan);
                for (int x = 0; x < len; ++x) plan.push_back((int) R(nw) | (R(3) == 0 ? 4 : 0) | (R(5) == 0 ? 8 : 0));
                v.emplace_back(++next_c, plan);
            }
            return v;
        };
        std::vector<std::vector<std::pair<int, std::vector<int>>>> all;
        for (int t = 0; t < nthreads; ++t) all.push_back(make(1 + (int) R(per)));
        auto started = [&](int k) { ksim::ev("\"e\":\"ready\",\"w\":%d,\"t\":%d", k, ws[k]->fib()); };
        if (!early) for (int k = 0; k < nw; ++k) { ws[k]->start(); started(k); }
        for (int t = 1; t < nthreads; ++t) th.emplace_back([&, t] { body(all[t]); });
        if (early) for (int k = 0; k < nw; ++k)
            own[k]->th = std::make_unique<std::thread>([&, k] { own[k]->run(); });
        body(all[0]);
        for (auto& t: th) t.join();
        if (early) for (int k = 0; k < nw; ++k) { (*ws[k])->wait_ready(); }
        ksim::quiesce(true);
        if (early) for (int k = 0; k < nw; ++k) started(k);
        ksim::ev("\"e\":\"quiet\"");
        for (auto* w: ws) w->stop();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(1, 3, 64, 3, 1); }, 8},
        {"two", [] { scenario(2, 3, 64, 2, 4); }, 8},
        {"tight", [] { scenario(1, 3, 2, 3, 1); }, 8},
        {"mini", [] { scenario(1, 2, 64, 1, 1); }, 50},
    });
}
