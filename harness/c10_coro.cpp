// C10: random programs of real Tasks, SyncWait and DetachedTask; histories for spec/CoroTrace.tla
#include "kio/core/coro.h"
#include "kio/sync/sync_wait.h"
#include "ksim.h"
#include <condition_variable>
#include <deque>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
using namespace kio;
namespace
{
    int alive = 0;
    struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    // lives in the coroutine frame as a parameter: its destruction is the destruction of the frame
    struct Guard
    {
        int id;
        explicit Guard(int i) : id(i) {}
        Guard(Guard&& o) noexcept : id(std::exchange(o.id, 0)) {}
        ~Guard() { if (id) ksim::ev("\"e\":\"drop\",\"id\":%d", id); }
    };
    struct Local
    {
        uint32_t magic = 0x10ca1;
        Local() { ksim::Quiet q; alive++; }
        Local(const Local&) = delete;
        ~Local()
        {
            if (magic != 0x10ca1) ksim::bad("local-destroyed-twice");
            magic = 0;
            ksim::Quiet q;
            alive--;
        }
    };
    // move-only value without default constructor
    struct Val
    {
        int v;
        std::unique_ptr<int> own;
        Local l;
        explicit Val(int x) : v(x), own(new int(x)) {}
        Val(Val&& o) noexcept : v(std::exchange(o.v, -7)), own(std::move(o.own)) {}
        Val& operator=(Val&& o) noexcept { v = std::exchange(o.v, -7); own = std::move(o.own); return *this; }
    };
    int id_of(const Val& v) { return v.own && *v.own == v.v ? v.v : -1; }
    int id_of(int v) { return v; }
    int id_of(const std::string& s) { return s.size() > 40 ? atoi(s.c_str()) : -1; }
    template<class T> T mk(int id);
    template<> Val mk<Val>(int id) { return Val(id); }
    template<> int mk<int>(int id) { return id; }
    template<> std::string mk<std::string>(int id) { return std::to_string(id) + std::string(50, 'x'); }

    // worker threads that resume handles
    struct Pool
    {
        std::mutex m;
        std::condition_variable cv;
        std::deque<std::coroutine_handle<>> q;
        bool stop = false;
        std::vector<std::thread> th;
        void start(int n)
        {
            for (int i = 0; i < n; ++i)
                th.emplace_back([this]
                {
                    for (;;)
                    {
                        std::coroutine_handle<> h;
                        {
                            std::unique_lock l(m);
                            cv.wait(l, [&] { return stop || !q.empty(); });
                            if (q.empty()) return;
                            h = q.front();
                            q.pop_front();
                        }
                        h.resume();
                    }
                });
        }
        void post(std::coroutine_handle<> h)
        {
            std::unique_lock l(m);
            q.push_back(h);
            cv.notify_one();
        }
        void finish()
        {
            {
                std::unique_lock l(m);
                stop = true;
                cv.notify_all();
            }
            for (auto& t: th) t.join();
        }
    };
    Pool* pool;
    struct Hop
    {
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h) { pool->post(h); }
        void await_resume() {}
    };
    int next_id, budget, threads;
    int fresh() { ksim::Quiet q; return ++next_id; }
    size_t R(size_t n) { return ksim::rnd(n); }

    template<class T> Task<T> node(int id, int depth, Guard g);
    template<class T>
    Task<T> create(int id, int depth)
    {
        ksim::ev("\"e\":\"create\",\"id\":%d", id);
        return node<T>(id, depth, Guard(id));
    }
    // awaits one fresh child of a random type, recording how it came back
    template<class T>
    Task<void> dummy();
#define AWAIT(parent, expr_task, cid) \
    int how = 0, what = 0; \
    try \
    { \
        Task<U> tsk = expr_task; \
        ksim::ev("\"e\":\"await\",\"p\":%d,\"c\":%d", parent, cid); \
        if constexpr (std::is_void_v<U>) { co_await tsk; what = cid; } \
        else { auto v = co_await std::move(tsk); what = id_of(v); } \
    } \
    catch (const std::runtime_error& e) { how = 1; what = atoi(e.what()); } \
    catch (int x) { how = 2; what = x; } \
    ksim::ev("\"e\":\"resume\",\"p\":%d,\"c\":%d,\"how\":%d,\"what\":%d", parent, cid, how, what);

    template<class T>
    Task<T> node(int id, int depth, Guard g)
    {
        ksim::ev("\"e\":\"start\",\"id\":%d", id);
        Local outer;
        int steps = depth > 0 ? (int) R(4) : 0;
        for (int k = 0; k < steps; ++k)
        {
            Local inner;
            bool room;
            { ksim::Quiet q; room = budget-- > 0; }
            size_t what_to_do = R(12);
            if (what_to_do < 2 && threads) { co_await Hop{}; continue; }
            if (!room) continue;
            int cid = fresh();
            if (what_to_do == 2) { Task<int> unused = create<int>(cid, depth - 1); continue; }
            if (what_to_do == 3)
            {
                // replaced before it ever ran, then awaited through a moved variable
                using U = std::string;
                Task<U> a = create<U>(cid, depth - 1);
                int c2 = fresh();
                a = create<U>(c2, depth - 1);
                Task<U> b = std::move(a);
                AWAIT(id, std::move(b), c2)
                continue;
            }
            if (what_to_do == 4)
            {
                using U = void;
                Task<U> a = create<U>(cid, depth - 1);
                Task<U> b = create<U>(fresh(), 0);
                Task<U> c = std::move(b);
                b = std::move(a);
                AWAIT(id, std::move(b), cid)
                continue;
            }
            switch (R(4))
            {
                case 0: { using U = int; AWAIT(id, create<U>(cid, depth - 1), cid) break; }
                case 1: { using U = Val; AWAIT(id, create<U>(cid, depth - 1), cid) break; }
                case 2: { using U = std::string; AWAIT(id, create<U>(cid, depth - 1), cid) break; }
                case 3: { using U = void; AWAIT(id, create<U>(cid, depth - 1), cid) break; }
            }
        }
        if (threads && R(3) == 0) co_await Hop{};
        size_t fate = R(6);
        if (fate == 0)
        {
            ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":1,\"what\":%d", id, id);
            throw std::runtime_error(std::to_string(id));
        }
        if (fate == 1)
        {
            ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":2,\"what\":%d", id, id);
            throw (int) id;
        }
        ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":0,\"what\":%d", id, id);
        if constexpr (std::is_void_v<T>) co_return;
        else co_return mk<T>(id);
    }
    template<class U>
    void sync_wait(int t, int depth)
    {
        int cid = fresh();
        Task<U> task = create<U>(cid, depth);
        int how = 0, what = 0;
        ksim::ev("\"e\":\"await\",\"p\":%d,\"c\":%d", t, cid);
        try
        {
            if constexpr (std::is_void_v<U>) { SyncWait(std::move(task)); what = cid; }
            else { U v = SyncWait(std::move(task)); what = id_of(v); }
        }
        catch (const std::runtime_error& e) { how = 1; what = atoi(e.what()); }
        catch (int x) { how = 2; what = x; }
        ksim::ev("\"e\":\"resume\",\"p\":%d,\"c\":%d,\"how\":%d,\"what\":%d", t, cid, how, what);
    }
    template<class U>
    Task<void> await_one(int id, int cid, int depth, int* how, int* what)
    {
        try
        {
            Task<U> c = create<U>(cid, depth);
            ksim::ev("\"e\":\"await\",\"p\":%d,\"c\":%d", id, cid);
            if constexpr (std::is_void_v<U>) { co_await c; *what = cid; }
            else { auto v = co_await std::move(c); *what = id_of(v); }
        }
        catch (const std::runtime_error& e) { *how = 1; *what = atoi(e.what()); }
        catch (int x) { *how = 2; *what = x; }
    }
    DetachedTask detached(int id, int depth, Guard g, int* running)
    {
        ksim::ev("\"e\":\"start\",\"id\":%d", id);
        Local l;
        for (int k = (int) R(3); k > 0; --k)
        {
            if (threads && R(2)) { co_await Hop{}; continue; }
            int cid = fresh();
            int how = 0, what = 0;
            switch (R(2))
            {
                case 0: co_await await_one<Val>(id, cid, depth - 1, &how, &what); break;
                case 1: co_await await_one<void>(id, cid, depth - 1, &how, &what); break;
            }
            ksim::ev("\"e\":\"resume\",\"p\":%d,\"c\":%d,\"how\":%d,\"what\":%d", id, cid, how, what);
        }
        { ksim::Quiet q; (*running)--; }
        size_t fate = R(5);
        if (fate == 0) { ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":1,\"what\":%d", id, id); throw std::runtime_error("x"); }
        if (fate == 1) { ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":2,\"what\":%d", id, id); throw 5; }
        ksim::ev("\"e\":\"end\",\"id\":%d,\"how\":0,\"what\":%d", id, id);
    }
    void detached_call(int depth, int* running)
    {
        int id = fresh();
        { ksim::Quiet q; (*running)++; }
        ksim::ev("\"e\":\"create\",\"id\":%d", id);
        ksim::ev("\"e\":\"await\",\"p\":0,\"c\":%d", id);      // nobody waits: it has to start by itself
        switch (R(4))
        {
            case 0: detached(id, depth, Guard(id), running).detach(); break;
            case 1: { auto d = detached(id, depth, Guard(id), running); ksim::ev("\"e\":\"dret\",\"id\":%d", id); auto e = std::move(d); std::move(e).detach(); return; }
            case 2: detached(id, depth, Guard(id), running); break;          // result dropped
            default: { auto d = detached(id, depth, Guard(id), running); (void) d; break; }
        }
        ksim::ev("\"e\":\"dret\",\"id\":%d", id);
    }
    void scenario(int nthreads, bool det)
    {
        static NullBuf nb;
        static std::ostream os(&nb);
        if (det) alog::configure(64, LogLevel::Error, os);
        threads = nthreads;
        next_id = 0;
        budget = 14;
        int alive0 = alive, running = 0;
        Pool p;
        pool = &p;
        p.start(nthreads);
        size_t blocks0 = ksim::live_allocs();
        ksim::ev("\"e\":\"init\"");
        int n = 1 + (int) R(3);
        if (det) for (int k = 0; k < n; ++k) detached_call(1 + (int) R(2), &running);
        if (!det || R(2))
            for (int k = 0; k < n; ++k)
            {
                int t = -1;
                int d = (int) R(4);
                if (R(8) == 0) { int cid = fresh(); auto unused = create<Val>(cid, d); continue; }
                switch (R(4))
                {
                    case 0: sync_wait<int>(t, d); break;
                    case 1: sync_wait<Val>(t, d); break;
                    case 2: sync_wait<std::string>(t, d); break;
                    case 3: sync_wait<void>(t, d); break;
                }
            }
        ksim::quiesce(false);
        { ksim::Quiet q; if (running) ksim::bad("detached-never-finished"); }
        long extra = det ? 0 : (long) ksim::live_allocs() - (long) blocks0;
        p.finish();
        ksim::ev("\"e\":\"fin\",\"alive\":%d,\"blocks\":%ld", alive - alive0, extra);
    }
    Task<int> deep(int n)
    {
        if (n == 0) co_return 0;
        co_return 1 + co_await deep(n - 1);
    }
    Task<void> deepv(int n, bool thr)
    {
        if (n == 0) { if (thr) throw std::runtime_error("x"); co_return; }
        co_await deepv(n - 1, thr);
    }
    Task<int> one(int i) { co_return i & 1; }
    Task<void> onev() { co_return; }
    Task<int> loop(int n)
    {
        int s = 0;
        for (int i = 0; i < n; ++i)
        {
            s += co_await one(i);
            co_await onev();
        }
        co_return s;
    }
    // a chain: each task awaits the next and the last completes on another thread
    Task<int> deephop(int n)
    {
        if (n == 0) { co_await Hop{}; co_return 0; }
        co_return 1 + co_await deephop(n - 1);
    }
    void chain()
    {
        threads = 1;
        Pool p;
        pool = &p;
        p.start(1);
        size_t blocks0 = ksim::live_allocs();
        ksim::ev("\"e\":\"init\"");
        const int n = 3000;
        auto run = [&](const char* what, auto f, int want)
        {
            size_t before = ksim::stack_used_max();
            int r = f();
            size_t after = ksim::stack_used_max();
            ksim::ev("\"e\":\"chain\",\"what\":\"%s\",\"n\":%d,\"r\":%d,\"want\":%d,\"stack\":%zu", what, n, r, want, after > before ? after - before : 0);
        };
        run("deep", [&] { return SyncWait(deep(n)); }, n);
        run("deepv", [&] { SyncWait(deepv(n, false)); return 0; }, 0);
        run("deepx", [&] { try { SyncWait(deepv(n, true)); } catch (const std::runtime_error&) { return 7; } return 0; }, 7);
        run("loop", [&] { return SyncWait(loop(n)); }, n / 2);
        run("deephop", [&] { return SyncWait(deephop(n)); }, n);
        long extra = (long) ksim::live_allocs() - (long) blocks0;
        p.finish();
        ksim::ev("\"e\":\"fin\",\"alive\":0,\"blocks\":%ld", extra);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"single", [] { scenario(0, false); }, 1},
        {"threads", [] { scenario(2, false); }, 4},
        {"detached", [] { scenario(1, true); }, 4},
        {"detached0", [] { scenario(0, true); }, 2},
        {"chain", chain, 1, 3000000},
    });
}
