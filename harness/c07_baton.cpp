// C07: one-shot signals; histories for spec/BatonTrace.tla
#include "wk.h"
#include "kio/sync/baton.h"
using namespace wk;
namespace
{
    W *own, *other;
    int next_x;
    std::atomic<int> order;     // what the owner did so far happens before what the main thread does next
    int now_us() { return (int) (ksim::now() / 1000); }
    struct B
    {
        int b;
        sync::AsyncBaton bt;
        int data = 0;
        std::atomic<int> waiting{0};
        B(int i, Worker& w) : b(i), bt(w) {}
    };
    struct Step { int us; bool timed; };
    void rdy(B& x)
    {
        // the answer must be explained by what was known before or after the call: only certain answers are recorded
        bool v = x.bt.ready();
        if (v) ksim::ev("\"e\":\"rdy\",\"b\":%d,\"v\":1", x.b);
    }
    Task<void> step(B& x, Step s, bool* got)
    {
        int id;
        { ksim::Quiet q; id = ++next_x; }
        try
        {
            if (s.timed)
            {
                ksim::ev("\"e\":\"wait\",\"x\":%d,\"b\":%d,\"dl\":%d", id, x.b, now_us() + (s.us < 0 ? 0 : s.us));
                bool r = co_await x.bt.wait_for(std::chrono::microseconds(s.us));
                ksim::ev("\"e\":\"%s\",\"x\":%d,\"t\":%d,\"now\":%d", r ? "true" : "false", id, ksim::self(), now_us());
                *got = r;
            }
            else
            {
                ksim::ev("\"e\":\"wait\",\"x\":%d,\"b\":%d,\"dl\":-1", id, x.b);
                co_await x.bt.wait();
                ksim::ev("\"e\":\"true\",\"x\":%d,\"t\":%d", id, ksim::self());
                *got = true;
            }
            if (*got && x.data == 0) ksim::bad("data-not-visible");
        }
        catch (const std::exception&)
        {
            ksim::ev("\"e\":\"fail\",\"x\":%d,\"t\":%d", id, ksim::self());
        }
    }
    DetachedTask waiter(B& x, std::vector<Step> plan)
    {
        // a timed wait may be started from anywhere, a plain one on the owner
        if (!plan[0].timed) co_await SwitchToWorker(**own);
        x.waiting.store(1);
        for (auto& s: plan)
        {
            bool got = false;
            co_await step(x, s, &got);
            if (got) break;
        }
        x.waiting.store(0);
    }
    DetachedTask reset(B& x)
    {
        co_await SwitchToWorker(**own);
        x.bt.reset();
        x.data = 0;
        ksim::ev("\"e\":\"reset\",\"b\":%d", x.b);
        order.fetch_add(1);
    }
    DetachedTask stats()
    {
        co_await SwitchToWorker(**own);
        ksim::ev("\"e\":\"quiet\",\"active\":%d", (int) (*own)->get_stats().active_coroutines);
        order.fetch_add(1);
    }
    void notify(B& x, bool first, int us)
    {
        if (first) x.data = 1;
        ksim::ev("\"e\":\"nS\",\"b\":%d", x.b);
        x.bt.notify();
        ksim::ev("\"e\":\"nE\",\"b\":%d,\"now\":%d", x.b, now_us());
        (void) us;
    }
    DetachedTask co_notify(W* w, B& x, int us)
    {
        co_await SwitchToWorker(**w);
        if (us) (void) co_await (*w)->async_sleep(std::chrono::microseconds(us));
        notify(x, true, us);
        rdy(x);
    }
    void sleep_until_us(int us)
    {
        if (us) ksim::block_until([] { return false; }, (uint64_t) us * 1000);
    }
    void scenario(int nb, std::vector<size_t> depths, std::vector<size_t> slots, std::vector<size_t> maxs, bool timedonly, bool tight)
    {
        quiet_log();
        next_x = 0;
        size_t mx = maxs[R(maxs.size())], sl = std::min(slots[R(slots.size())], mx);
        W w0(0, cfg(depths[R(depths.size())], sl, mx, 64)), w1(1, cfg(8, 8, 64, 64));
        own = &w0;
        other = &w1;
        ksim::ev("\"e\":\"init\",\"max\":%zu", mx);
        w0.start();
        w1.start();
        {
            std::vector<std::unique_ptr<B>> bs;
            int n = 1 + (int) R((size_t) nb);
            for (int b = 0; b < n; ++b) bs.push_back(std::make_unique<B>(b, *w0));
            int phases = 1 + (int) R(2);
            for (int p = 0; p < phases; ++p)
            {
                static const int ds[] = {0, 1, 2, 5, 10, 10, 20, 1000000, -3};
                std::vector<std::thread> ths;
                int base = now_us();
                std::vector<std::vector<Step>> plans((size_t) n);
                std::vector<std::vector<int>> nots((size_t) n);
                std::vector<int> kind((size_t) n);
                for (int b = 0; b < n; ++b)
                {
                    if (bs[(size_t) b]->waiting.load() == 0)
                        for (int k = 1 + (int) R(3); k > 0; --k) plans[(size_t) b].push_back({ds[R(9)], timedonly || R(4) != 0});
                    for (int k = (int) R(3); k > 0; --k) nots[(size_t) b].push_back((int[]){0, 0, 1, 2, 5, 10, 20, 30}[R(8)]);
                    kind[(size_t) b] = tight ? 0 : (int) R(4);
                }
                bool before = R(2);
                auto waits = [&] { for (int b = 0; b < n; ++b) if (!plans[(size_t) b].empty()) waiter(*bs[(size_t) b], plans[(size_t) b]).detach(); };
                if (!before) waits();
                for (int b = 0; b < n; ++b)
                {
                    B& x = *bs[(size_t) b];
                    auto& v = nots[(size_t) b];
                    if (kind[(size_t) b] == 2 && !v.empty()) { co_notify(&w1, x, v[0]).detach(); continue; }
                    if (kind[(size_t) b] == 3 && !v.empty()) { co_notify(&w0, x, v[0]).detach(); continue; }
                    bool first = v.size() == 1;
                    if (!first && !v.empty()) { ksim::Quiet q; x.data = 1; }
                    for (int us: v) ths.emplace_back([&x, us, first, base] { sleep_until_us(us ? base + us : 0); notify(x, first, us); });
                }
                if (before) waits();
                ksim::quiesce(false);
                ksim::ev("\"e\":\"calm\"");
                ksim::quiesce(true);
                for (auto& t: ths) t.join();
                ksim::quiesce(true);
                stats().detach();
                ksim::quiesce(true);
                (void) order.load();
                if (p + 1 < phases)
                {
                    for (int b = 0; b < n; ++b) if (bs[(size_t) b]->waiting.load() == 0) reset(*bs[(size_t) b]).detach();
                    ksim::quiesce(true);
                    (void) order.load();
                }
            }
            w0.stop();
            w1.stop();
        }
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(1, {8}, {8}, {64}, false, false); }, 12},
        {"timed", [] { scenario(1, {8}, {8}, {64}, true, false); }, 12},
        {"several", [] { scenario(3, {8}, {8}, {64}, false, false); }, 8},
        {"ring", [] { scenario(4, {2}, {8}, {64}, true, false); }, 8},
        {"slots", [] { scenario(4, {2, 8}, {1, 2}, {1, 2, 3}, true, true); }, 8},
    });
}
