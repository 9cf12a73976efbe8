// C06: life cycle of workers and pools; histories for spec/LifeTrace.tla
#include "wk.h"
#include "kio/core/worker_pool.h"
#include <set>
using namespace wk;
namespace
{
    enum Fault { None, Init, FirstSubmit, WaitFatal, WaitTransient, CbStd, CbOther, EvFd, Thread };
    int fault, nth, seen;
    std::set<int>* quiet_threads;   // threads whose worker has been reported shut down
    std::map<int, int>* submits;
    std::map<int, int>* tow;
    void ev_fault(int t) { ksim::ev("\"e\":\"fault\",\"t\":%d", t); }
    bool hit() { ksim::Quiet q; return ++seen == nth; }
    bool making;
    void reported(int w)
    {
        for (auto& [t, k]: *tow) if (w < 0 || k == w) quiet_threads->insert(t);
    }
    void hooks()
    {
        quiet_threads = new std::set<int>;
        submits = new std::map<int, int>;
        tow = new std::map<int, int>;
        seen = 0;
        ksim::hooks.on_fd = [](int f, const char* what)
        {
            std::string s = what;
            if (s == "badclose") { ksim::bad("badclose"); return; }
            ksim::ev("\"e\":\"%s\",\"f\":%d", s == "close" ? "rel" : "acq", f);
            if (s == "ring") ksim::ev("\"e\":\"ring\",\"t\":%d", ksim::self());
        };
        ksim::hooks.uring_fail = [](const char* what) -> int
        {
            std::string s = what;
            int t = ksim::self();
            if (quiet_threads->count(t) && s != "init") ksim::bad("active-after-shutdown");
            if (s == "init" && fault == Init && hit()) { ev_fault(t); return -ENOMEM; }
            if (s == "submit" && (*submits)[t]++ == 0 && fault == FirstSubmit && hit()) { ev_fault(t); return -EBUSY - 1; }
            if (s == "submit_wait" && fault == WaitFatal && hit()) { ev_fault(t); return nth % 2 ? -EBADF : -EIO; }
            if (s == "submit_wait" && fault == WaitTransient && ++seen >= nth && seen < nth + 3) return (int[]){-EINTR, -EAGAIN, -EBUSY, -ETIME}[(nth + seen) % 4];
            return 0;
        };
        ksim::hooks.fail = [](const char* what, int) -> int
        {
            if (!strcmp(what, "eventfd") && fault == EvFd && making && hit()) { ev_fault(0); return EMFILE; }
            if (!strcmp(what, "thread") && fault == Thread && making && hit()) { ev_fault(0); return EAGAIN; }
            return 0;
        };
    }
    DetachedTask visit(Worker& w, int sleeps)
    {
        int id = (int) w.get_id();
        co_await SwitchToWorker(w);
        ksim::ev("\"e\":\"run\",\"w\":%d,\"t\":%d", id, ksim::self());
        for (int k = 0; k < sleeps; ++k)
        {
            (void) co_await w.async_sleep(std::chrono::microseconds(5));
            ksim::ev("\"e\":\"run\",\"w\":%d,\"t\":%d", id, ksim::self());
        }
    }
    void callback(Worker& w)
    {
        int t = ksim::self();
        { ksim::Quiet q; (*tow)[t] = (int) w.get_id(); }
        ksim::ev("\"e\":\"cb\",\"w\":%d,\"t\":%d", (int) w.get_id(), t);
        if (w.is_on_worker_thread() == false) ksim::bad("not-on-worker");
        if (fault == CbStd && hit()) { ev_fault(t); throw std::runtime_error("cb"); }
        if (fault == CbOther && hit()) { ev_fault(t); throw 42; }
        if (nth % 2) visit(w, 1).detach();
    }
    void plan(bool pool)
    {
        static const int fs[] = {None, None, None, None, Init, FirstSubmit, WaitFatal, WaitFatal, WaitTransient, CbStd, CbOther, EvFd, Thread};
        fault = fs[R(pool ? 13 : 12)];
        nth = 1 + (int) R(fault == WaitFatal || fault == WaitTransient ? 4 : 3);
    }
    void one()
    {
        quiet_log();
        plan(false);
        if (fault != WaitFatal && fault != WaitTransient && fault != None) nth = 1;
        hooks();
        making = true;
        ksim::ev("\"e\":\"init\",\"n\":1");
        bool never = R(8) == 0, withcb = R(3) != 0;
        int stoppers = 1 + (int) R(3), readies = (int) R(2), shuts = (int) R(3), posts = (int) R(3), sleeps = (int) R(2);
        bool early_stop = R(4) == 0, late_start = R(3) == 0;
        auto c = cfg(4, 4, 16, 8);
        if (R(20) == 0) c.task_queue_capacity = 3;
        std::unique_ptr<Worker> w;
        try
        {
            w = std::make_unique<Worker>(0, c, withcb ? std::function<void(Worker&)>(callback) : std::function<void(Worker&)>());
        }
        catch (const std::invalid_argument&) { ev_fault(0); ksim::ev("\"e\":\"nomake\""); ksim::ev("\"e\":\"end\""); return; }
        catch (const std::system_error&) { ksim::ev("\"e\":\"nomake\""); ksim::ev("\"e\":\"end\""); return; }
        making = false;
        if (never)
        {
            if (R(2)) { ksim::ev("\"e\":\"stop\",\"w\":0"); (void) w->request_stop(); }
            w.reset();
            ksim::ev("\"e\":\"end\"");
            return;
        }
        std::vector<std::thread> ths;
        auto stopper = [&]
        {
            ksim::ev("\"e\":\"stop\",\"w\":0");
            (void) w->request_stop();
            w->wait_shutdown();
            ksim::ev("\"e\":\"shut\",\"w\":0");
            ksim::Quiet q;
            reported(0);
        };
        auto loop = [&] { w->loop_forever(); };
        std::thread lt;
        if (!late_start) lt = std::thread(loop);
        for (int k = 0; k < readies; ++k) ths.emplace_back([&] { w->wait_ready(); ksim::ev("\"e\":\"ready\",\"w\":0"); });
        for (int k = 0; k < shuts; ++k) ths.emplace_back([&] { w->wait_shutdown(); ksim::ev("\"e\":\"shut\",\"w\":0"); });
        if (early_stop) ths.emplace_back(stopper);
        if (late_start) lt = std::thread(loop);
        w->wait_ready();
        ksim::ev("\"e\":\"ready\",\"w\":0");
        if (withcb) for (int k = 0; k < posts; ++k) visit(*w, sleeps).detach();
        if (!early_stop && R(3)) { ksim::quiesce(R(2)); if (withcb) ksim::ev("\"e\":\"idle\""); }
        for (int k = 0; k < stoppers; ++k) ths.emplace_back(stopper);
        stopper();
        for (auto& t: ths) t.join();
        lt.join();
        if (R(2)) { (void) w->request_stop(); w->wait_shutdown(); w->wait_ready(); }
        if (withcb && R(2)) visit(*w, 0).detach();     // nothing runs any more
        w.reset();
        ksim::ev("\"e\":\"end\"");
    }
    void pool()
    {
        quiet_log();
        plan(true);
        hooks();
        making = true;
        int n = 1 + (int) R(3);
        ksim::ev("\"e\":\"init\",\"n\":%d", n);
        std::unique_ptr<IOPool> p;
        try
        {
            p = std::make_unique<IOPool>((size_t) n, cfg(4, 4, 16, 8), callback);
        }
        catch (const std::exception&)
        {
            ksim::ev("\"e\":\"nomake\"");
            ksim::ev("\"e\":\"end\"");
            return;
        }
        making = false;
        ksim::ev("\"e\":\"ready\",\"w\":-1");
        int posts = (int) R(4), stoppers = (int) R(3), sleeps = (int) R(3), q = (int) R(4);
        for (int k = 0; k < posts; ++k) visit(*p->get_worker(R((size_t) n)), sleeps).detach();
        if (q) { ksim::quiesce(q & 1); ksim::ev("\"e\":\"idle\""); }
        std::vector<std::thread> ths;
        auto stopper = [&]
        {
            ksim::ev("\"e\":\"stop\",\"w\":-1");
            p->stop();
            ksim::ev("\"e\":\"shut\",\"w\":-1");
            ksim::Quiet qq;
            reported(-1);
        };
        for (int k = 0; k < stoppers; ++k) ths.emplace_back(stopper);
        if (R(2)) stopper();
        for (auto& t: ths) t.join();
        ksim::ev("\"e\":\"stop\",\"w\":-1");
        p.reset();
        ksim::ev("\"e\":\"end\"");
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", one, 6},
        {"pool", pool, 6},
    });
}
