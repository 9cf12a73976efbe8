// Shared by the harnesses that run real workers on the simulated kernel.
#pragma once
#include "kio/core/async_logger.h"
#include "kio/core/coro.h"
#include "kio/core/worker.h"
#include "kio/sync/sync_wait.h"
#include "ksim.h"
#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
namespace wk
{
    using namespace kio;
    using namespace kio::io;
    struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    inline void quiet_log()
    {
        static NullBuf nb;
        static std::ostream os(&nb);
        alog::configure(64, LogLevel::Disabled, os);
    }
    inline size_t R(size_t n) { return ksim::rnd(n); }
    inline WorkerConfig cfg(size_t depth = 16, size_t slots = 16, size_t max = 1024, size_t cap = 16)
    {
        WorkerConfig c;
        c.uring_queue_depth = depth;
        c.default_op_slots = slots;
        c.max_op_slots = max;
        c.task_queue_capacity = cap;
        return c;
    }
    // a worker on its own thread
    struct W
    {
        std::unique_ptr<Worker> w;
        std::unique_ptr<std::thread> th;
        std::atomic<int> fiber{-1};   // relaxed: no ordering is added by the harness
        explicit W(size_t id, const WorkerConfig& c) : w(std::make_unique<Worker>(id, c)) {}
        int fib() const { return fiber.load(std::memory_order_relaxed); }
        void run() { fiber.store(ksim::self(), std::memory_order_relaxed); w->loop_forever(); }
        void start()
        {
            th = std::make_unique<std::thread>([this] { run(); });
            w->wait_ready();
        }
        void stop()
        {
            (void) w->request_stop();
            w->wait_shutdown();
            th->join();
        }
        Worker& operator*() { return *w; }
        Worker* operator->() { return w.get(); }
    };
    // a file whose behaviour is given by functions
    struct FnFile : ksim::File
    {
        std::function<int(ksim::Op&)> fn;
        std::function<bool(ksim::Op&)> rd;
        std::function<void()> on_close;
        const char* name() const override { return "fn"; }
        bool ready(ksim::Op& op) override { return rd ? rd(op) : true; }
        int exec(ksim::Op& op) override { return fn(op); }
        void closed() override { if (on_close) on_close(); }
    };
}
