#pragma once
#include "ksim.h"
#include <algorithm>
#include <cstring>
#include <time.h>

namespace ksim
{
    constexpr int kMaxFibers = 40;
    constexpr size_t kStack = 256 * 1024;
    struct VC
    {
        uint32_t c[kMaxFibers];
        VC() { memset(c, 0, sizeof c); }
        void join(const VC& o)
        {
            for (int i = 0; i < kMaxFibers; ++i) c[i] = std::max(c[i], o.c[i]);
        }
    };
    struct Entry
    {
        uint32_t clk;
        uint32_t pc;
        uint8_t tid, mask;
        bool wr, atom;
    };
    struct Cell { Entry e[4]; };
    struct ForcedExit {};
    struct Fiber
    {
        int id = 0;
        const char* name = "";
        void* sp = nullptr;
        char* stack = nullptr;
        std::function<void()> entry;
        enum St { RUN, BLOCKED, IDLE, DONE } state = RUN;
        std::function<bool()> pred;
        uint64_t deadline = ~0ull;
        bool timed_out = false;
        bool idle_timers = false;
        bool detached = false;
        int quiet = 0;
        int in_rt = 0;
        int err = 0;
        int64_t prio = 0;
        int run_len = 0;
        char eh[16] = {};
        VC vc, acq_fence, rel_fence, vc_final;
        std::map<void*, void*> tls;
        std::vector<std::pair<void (*)(void*), void*>> atexit;
    };
    struct RT
    {
        bool running = false;
        bool inline_mode = false;
        int in_rt = 0;
        Fiber* cur = nullptr;
        std::vector<Fiber*> fibers;
        uint64_t steps = 0, max_steps = 100000;
        uint64_t now = 1'000'000'000ull;
        uint64_t prng = 1, srng = 1;
        int mode = 0;  // 0 random, 1 pct, 2 prefix/dfs, 3 mix
        bool time_adv = true;
        uint64_t p_switch = 200, p_time = 2;
        std::vector<uint64_t> pct_points;
        int64_t kernel_prio = 0;
        uint64_t completions = 0, slow_one_in = 0;   // one request in so many is slow
        std::vector<uint16_t> prefix;
        size_t n_ch = 0;
    };
    extern RT rt;
    struct InRt { InRt(); ~InRt(); };

    void schedule(bool cur_blocked);
    void wake(Fiber* f);
    void rt_point();
    void tick(Fiber*);
    Fiber* new_fiber(std::function<void()> fn, const char* name);
    void fatal_event(const char* kind);
    void finish(const char* outcome);
    void access(const void* p, size_t n, bool wr, void* pc);
    size_t valid_run(const void* p, size_t n);
    bool atomic_enter(const void* p, size_t n, bool wr, void* pc);
    void hb_load(const void* p, int mo);
    void hb_store(const void* p, int mo);
    void hb_rmw(const void* p, int mo);
    void hb_fence(int mo);
    void hb_release(VC& v);
    void hb_acquire(const VC& v);

    // kernel
    uint64_t kernel_next_deadline();
    size_t kernel_completable();
    void kernel_step(size_t k);
    bool kernel_release_held();
    uint64_t srnd(uint64_t n);
    void kernel_crash();
    int clock_gettime_real(clockid_t c, timespec* t);
}
