// C24: the cache of open data files; histories for spec/FdCacheTrace.tla
#include "kv.h"
#include "bitcask/include/fd_cache.h"
using namespace kv;
using bitcask::FDCache;
namespace
{
    constexpr int kFiles = 5;
    std::unique_ptr<W> w;
    std::unique_ptr<FDCache> cache;
    std::map<std::string, int>* ids;      // path -> file
    bool faults;
    uint64_t key(int f) { return ((uint64_t) 3 << 48) | ((uint64_t) f * 0x100000001ull); }
    fs::path path(int f) { ksim::Quiet q; return *root / ("data_" + std::to_string(f)); }
    std::string stat()
    {
        auto& s = cache->get_stats();
        char b[100];
        snprintf(b, sizeof b, "\"size\":%zu,\"h\":%d,\"m\":%d,\"ev\":%d", cache->size(), (int) s.hits, (int) s.misses, (int) s.evictions);
        return b;
    }
    struct Step { int kind, f, before, hold, reads; };
    std::vector<Step> plan(int n)
    {
        std::vector<Step> r;
        for (; n > 0; --n)
        {
            int k = (int) R(20);
            r.push_back({k < 14 ? 0 : k < 16 ? 1 : k < 18 ? 2 : k < 19 ? 3 : 4, (int) R(kFiles), (int) R(3), (int) R(3), (int) R(3)});
        }
        return r;
    }
    Task<void> one(Step s)
    {
        if (s.before) (void) co_await (*w)->async_sleep(std::chrono::microseconds(s.before));
        if (s.kind == 2) { ksim::ev("\"e\":\"rem\",\"f\":%d", s.f); cache->remove(key(s.f)); }
        else if (s.kind == 3) { ksim::ev("\"e\":\"clear\""); cache->clear(); }
        else if (s.kind == 4) ;
        else
        {
            int x = fresh();
            ksim::ev("\"e\":\"req\",\"x\":%d,\"f\":%d", x, s.f);
            if (s.kind == 1)
            {
                auto r = co_await cache->get_or_open(key(s.f), path(s.f));
                if (r) ksim::ev("\"e\":\"got\",\"x\":%d,\"fd\":%d,\"hold\":0,%s", x, *r, stat().c_str());
                else ksim::ev("\"e\":\"fail\",\"x\":%d,\"code\":%d", x, r.error().value);
            }
            else
            {
                auto r = co_await cache->acquire(key(s.f), path(s.f));
                if (!r) ksim::ev("\"e\":\"fail\",\"x\":%d,\"code\":%d", x, r.error().value);
                else
                {
                    auto lease = *r;
                    r = FDCache::Lease();
                    ksim::ev("\"e\":\"got\",\"x\":%d,\"fd\":%d,\"hold\":1,%s", x, lease->get(), stat().c_str());
                    for (int k = 0; k < s.reads; ++k)
                    {
                        char b[1] = {};
                        auto n = co_await (*w)->async_read_exact_at(lease->get(), std::span<char>(b), 0);
                        ksim::ev("\"e\":\"rd\",\"x\":%d,\"c\":%d", x, n ? b[0] - '0' : -1);
                    }
                    if (s.hold) (void) co_await (*w)->async_sleep(std::chrono::microseconds(s.hold));
                    ksim::ev("\"e\":\"rel\",\"x\":%d", x);
                }
            }
        }
    }
    Task<void> client(std::vector<Step> p)
    {
        co_await SwitchToWorker(**w);
        for (auto& s: p)
        {
            co_await one(s);
            ksim::ev("\"e\":\"stat\",%s", stat().c_str());
        }
    }
    Task<void> drop()
    {
        co_await SwitchToWorker(**w);
        ksim::ev("\"e\":\"quiet\",%s", stat().c_str());
        ksim::ev("\"e\":\"clear\"");
        cache.reset();
        ksim::ev("\"e\":\"gone\"");
    }
    void run(int nclients, int nops, bool flt)
    {
        quiet_log();
        faults = flt;
        char tmpl[] = "c24XXXXXX";
        size_t limit = R(5);
        {
            ksim::Quiet q;
            root = new fs::path(fs::absolute(mkdtemp(tmpl)));
            ids = new std::map<std::string, int>;
            for (int f = 0; f < kFiles; ++f)
            {
                (*ids)[path(f).string()] = f;
                if (!flt || f != kFiles - 1) spill(path(f).string(), std::string(1, (char) ('0' + f)));
            }
            xs = 0;
        }
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (!faults || ksim::is_fake(op.fd) || op.opcode != IORING_OP_OPENAT || ksim::choose(6)) return false;
            res = -EMFILE;
            return true;
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            ksim::Quiet q;
            if (op.opcode != IORING_OP_OPENAT) return;
            auto it = ids->find(op.path);
            int f = it == ids->end() ? -1 : it->second;
            if (res >= 0) ksim::ev("\"e\":\"open\",\"f\":%d,\"fd\":%d", f, res);
            else ksim::ev("\"e\":\"ofail\",\"f\":%d,\"code\":%d", f, -res);
        };
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            if (std::string(what) == "badclose") ksim::bad("badclose");
            else if (std::string(what) == "close" && fd < 1000) ksim::ev("\"e\":\"close\",\"fd\":%d", fd);
        };
        ksim::ev("\"e\":\"init\",\"limit\":%zu", limit);
        w = std::make_unique<W>(0, cfg(16, 16, 64, 64));
        w->start();
        cache = std::make_unique<FDCache>(**w, limit);
        std::vector<std::thread*> ts;
        for (int k = 0; k < nclients; ++k)
        {
            auto p = plan(1 + (int) R((size_t) nops));
            ts.push_back(new std::thread([p] { SyncWait(client(p)); }));
        }
        for (auto* t: ts) { t->join(); delete t; }
        SyncWait(drop());
        w->stop();
        ksim::quiesce(true);
        ksim::Quiet q;
        w.reset();
        fs::remove_all(*root);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"seq", [] { run(1, 16, false); }, 1},
        {"several", [] { run(4, 5, false); }, 8},
        {"faults", [] { run(3, 6, true); }, 8},
    });
}
