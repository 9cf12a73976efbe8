// ksim runtime: fibers, scheduler, memory and race tracking, history, driver.
// Compiled WITHOUT -fsanitize=thread.
#include "ksim_int.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace ksim
{
    // ================================================================= shared result buffer
    struct Shared
    {
        uint64_t hist_len;
        uint64_t note_len;
        uint32_t n_choices;
        uint32_t steps;
        char outcome[32];
        struct { uint16_t n, c; uint8_t preempt; } ch[20000];
        char notes[1 << 16];
        char hist[8 << 20];
    };
    static Shared* sh;

    RT rt;
    Hooks hooks;
    int64_t wall_offset_ns = 1'700'000'000LL * 1'000'000'000LL;

    InRt::InRt() { rt.in_rt++; }
    InRt::~InRt() { rt.in_rt--; }

    void hist_raw(const char* s, size_t n)
    {
        if (!sh) return;
        if (sh->hist_len + n + 2 > sizeof sh->hist) return;
        if (sh->hist_len) sh->hist[sh->hist_len++] = ',';
        memcpy(sh->hist + sh->hist_len, s, n);
        sh->hist_len += n;
    }
    void ev(const char* fmt, ...)
    {
        InRt g;
        char tmp[4096];
        va_list ap;
        va_start(ap, fmt);
        tmp[0] = '{';
        int n = vsnprintf(tmp + 1, sizeof tmp - 2, fmt, ap);
        va_end(ap);
        if (n > (int) sizeof tmp - 3) 
        {
            std::string big(n + 1, 0);
            va_start(ap, fmt);
            vsnprintf(big.data(), n + 1, fmt, ap);
            va_end(ap);
            big.resize(n);
            big = "{" + big + "}";
            hist_raw(big.data(), big.size());
            return;
        }
        tmp[n + 1] = '}';
        hist_raw(tmp, n + 2);
    }
    void note(const char* fmt, ...)
    {
        if (!sh) return;
        va_list ap;
        va_start(ap, fmt);
        size_t room = sizeof sh->notes - sh->note_len;
        if (room > 300)
        {
            int n = vsnprintf(sh->notes + sh->note_len, room - 2, fmt, ap);
            if (n > 0)
            {
                sh->note_len += std::min<size_t>(n, room - 3);
                sh->notes[sh->note_len++] = '\n';
            }
        }
        va_end(ap);
    }
    static bool bad_once_race = false;
    void bad(const char* kind)
    {
        InRt g;
        if (!rt.running) return;
        if (!strcmp(kind, "race"))
        {
            if (bad_once_race) return;
            bad_once_race = true;
        }
        ev("\"e\":\"bad\",\"k\":\"%s\"", kind);
    }
    std::string hist() { return sh ? std::string(sh->hist, sh->hist_len) : ""; }

    void finish(const char* outcome)
    {
        if (sh)
        {
            snprintf(sh->outcome, sizeof sh->outcome, "%s", outcome);
            sh->steps = rt.steps;
        }
        if (rt.inline_mode)
        {
            rt.running = false;
            fprintf(stderr, "ksim: inline run ended: %s\n", outcome);
        }
        if (getenv("KSIM_DEBUG") && sh) fprintf(stderr, "%s\n[%.*s]\nNOTES\n%.*s\n", outcome, (int) sh->hist_len, sh->hist, (int) sh->note_len, sh->notes);
        syscall(SYS_exit_group, 0);
        __builtin_unreachable();
    }
    void fatal_event(const char* kind)
    {
        rt.in_rt++;
        ev("\"e\":\"bad\",\"k\":\"%s\"", kind);
        finish(kind);
    }

    // ================================================================= random
    static uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t rnd(uint64_t n) { return n ? splitmix(rt.prng) % n : 0; }
    uint64_t srnd(uint64_t n) { return n ? splitmix(rt.srng) % n : 0; }

    static size_t record_choice(size_t n, size_t c, bool preempt)
    {
        if (sh && sh->n_choices < 20000) sh->ch[sh->n_choices] = {(uint16_t) n, (uint16_t) c, (uint8_t) preempt};
        if (sh) sh->n_choices++;
        return c;
    }
    static size_t choice(size_t n, bool preempt)
    {
        if (n <= 1) return 0;
        if (rt.mode == 2)
        {
            size_t i = rt.n_ch++;
            size_t c = i < rt.prefix.size() ? rt.prefix[i] : 0;
            if (c >= n) c = n - 1;
            return record_choice(n, c, preempt);
        }
        return srnd(n);
    }
    uint64_t choose(uint64_t n) { return choice(n, false); }

    // ================================================================= fibers
    asm(R"(
.text
.globl ksim_switch_asm
.type ksim_switch_asm,@function
ksim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
    extern "C" void ksim_switch_asm(void** save, void* to);

    static Fiber* cur() { return rt.cur; }
    int self() { return rt.cur ? rt.cur->id : 0; }
    uint64_t now() { return rt.now; }

    static void switch_to(Fiber* f)
    {
        Fiber* c = rt.cur;
        if (c == f) return;
        auto* g = abi::__cxa_get_globals();
        memcpy(c->eh, g, 16);
        c->err = errno;
        c->in_rt = rt.in_rt;
        rt.cur = f;
        memcpy(g, f->eh, 16);
        rt.in_rt = f->in_rt;
        ksim_switch_asm(&c->sp, f->sp);
        // resumed
        errno = c->err;
    }

    static void fiber_main()
    {
        Fiber* f = rt.cur;
        rt.in_rt = 0;
        try
        {
            f->entry();
        }
        catch (const ForcedExit&)
        {
        }
        catch (const std::exception& e)
        {
            note("uncaught exception in thread %d: %s", f->id, e.what());
            fatal_event("uncaught");
        }
        catch (...)
        {
            fatal_event("uncaught");
        }
        {
            auto tls = std::move(f->atexit);
            for (auto it = tls.rbegin(); it != tls.rend(); ++it) it->first(it->second);
        }
        rt.in_rt++;
        f->state = Fiber::DONE;
        f->vc_final = f->vc;
        schedule(true);
        abort();
    }

    static char* stacks_base;
    static size_t stacks_used;

    Fiber* new_fiber(std::function<void()> fn, const char* name)
    {
        InRt g;
        auto* f = new Fiber;
        f->id = (int) rt.fibers.size();
        f->name = name;
        f->entry = std::move(fn);
        if (f->id >= kMaxFibers) fatal_event("too-many-threads");
        f->stack = stacks_base + stacks_used;
        stacks_used += kStack;
        memset(f->eh, 0, 16);
        void** sp = (void**) (f->stack + kStack - 64);
        sp = (void**) ((uintptr_t) sp & ~15ull);
        *--sp = nullptr;                 // alignment / fake return
        *--sp = (void*) &fiber_main;     // ret target
        for (int i = 0; i < 6; ++i) *--sp = nullptr;
        f->sp = sp;
        if (rt.cur)
        {
            f->vc = rt.cur->vc;
            tick(rt.cur);
        }
        f->vc.c[f->id] = 1;
        f->prio = 1000 + srnd(1000000);
        rt.fibers.push_back(f);
        return f;
    }
    int spawn(const char* name, std::function<void()> fn)
    {
        Fiber* f = new_fiber(std::move(fn), name);
        point();
        return f->id;
    }
    bool finished(int id) { return rt.fibers[id]->state == Fiber::DONE; }
    void join(int id)
    {
        InRt g;
        Fiber* f = rt.fibers[id];
        block_until([f] { return f->state == Fiber::DONE; });
        rt.cur->vc.join(f->vc_final);
    }

    static bool enabled(Fiber* f)
    {
        if (f->state == Fiber::DONE) return false;
        if (f->state == Fiber::RUN) return true;
        if (f->state == Fiber::BLOCKED)
        {
            if (f->deadline <= rt.now)
            {
                return true;
            }
            return f->pred();
        }
        return false;  // IDLE handled separately
    }
    static uint64_t next_deadline()
    {
        uint64_t d = ~0ull;
        for (auto* f: rt.fibers)
            if (f->state == Fiber::BLOCKED && f->deadline > rt.now) d = std::min(d, f->deadline);
        uint64_t k = kernel_next_deadline();
        if (k > rt.now) d = std::min(d, k);
        return d;
    }

    // candidate encoding: >=0 fiber id; -1 kernel; -2 time
    void schedule(bool cur_blocked)
    {
        Fiber* c = rt.cur;
        for (;;)
        {
            if (++rt.steps > rt.max_steps)
            {
                ev("\"e\":\"bad\",\"k\":\"steplimit\"");
                note("blocked: %s", blocked_report().c_str());
                finish("steplimit");
            }
            int cand[kMaxFibers + 2];
            int n = 0;
            bool cur_en = !cur_blocked ? true : (c->state != Fiber::DONE && enabled(c));
            if (cur_en) cand[n++] = c->id;
            for (auto* f: rt.fibers)
                if (f != c && enabled(f)) cand[n++] = f->id;
            size_t ncompl = kernel_completable();
            if (ncompl) cand[n++] = -1;
            uint64_t dl = next_deadline();
            int pick = -100;
            if (n == 0 && kernel_release_held()) continue;
            if (n == 0)
            {
                Fiber* idle = nullptr;
                for (auto* f: rt.fibers)
                    if (f->state == Fiber::IDLE && (!idle)) idle = f;
                if (dl != ~0ull && !(idle && !idle->idle_timers)) pick = -2;
                else if (idle)
                {
                    idle->state = Fiber::RUN;
                    pick = idle->id;
                }
                else
                {
                    note("deadlock: %s", blocked_report().c_str());
                    ev("\"e\":\"bad\",\"k\":\"deadlock\"");
                    finish("deadlock");
                }
            }
            else
            {
                bool time_ok = dl != ~0ull && rt.time_adv;
                if (rt.mode == 2)
                {
                    size_t m = n + (time_ok ? 1 : 0);
                    size_t k = choice(m, cur_en || true);
                    pick = k < (size_t) n ? cand[k] : -2;
                }
                else if (rt.mode == 1)
                {
                    if (!rt.pct_points.empty() && rt.steps >= rt.pct_points.back())
                    {
                        rt.pct_points.pop_back();
                        if (cur_en) c->prio = rt.pct_points.size();
                        else rt.kernel_prio = 1 + srnd(1000000);
                    }
                    if (cur_en && ++c->run_len > 150)
                    {
                        c->prio = 0;
                        c->run_len = 0;
                        for (auto* f: rt.fibers)
                            if (f != c && f->prio == 0) f->prio = 1 + srnd(1000);
                    }
                    if (time_ok && srnd(300) == 0) pick = -2;
                    else
                    {
                        int64_t best = -1;
                        for (int i = 0; i < n; ++i)
                        {
                            int64_t p = cand[i] < 0 ? rt.kernel_prio : rt.fibers[cand[i]]->prio;
                            if (p > best) best = p, pick = cand[i];
                        }
                        if (pick == -1) rt.kernel_prio = 1 + srnd(1000000);
                    }
                }
                else
                {
                    if (cur_en && srnd(1000) >= rt.p_switch) pick = c->id;
                    else if (time_ok && srnd(100) < rt.p_time) pick = -2;
                    else pick = cand[srnd(n)];
                }
            }
            if (pick == -1)
            {
                size_t k = choice(ncompl, false);
                kernel_step(k);
                continue;
            }
            if (pick == -2)
            {
                rt.now = dl;
                continue;
            }
            Fiber* f = rt.fibers[pick];
            if (f == c)
            {
                if (c->state == Fiber::BLOCKED) wake(c);
                return;
            }
            if (f->state == Fiber::BLOCKED) wake(f);
            f->run_len = 0;
            switch_to(f);
            return;
        }
    }
    void wake(Fiber* f)
    {
        bool p;
        {
            p = f->pred();
        }
        f->timed_out = !p;
        f->state = Fiber::RUN;
        f->deadline = ~0ull;
    }

    void point()
    {
        if (!rt.running || rt.in_rt || rt.cur->quiet) return;
        InRt g;
        schedule(false);
    }
    void rt_point()  // from inside the runtime (in_rt already > 0)
    {
        if (!rt.running || rt.cur->quiet) return;
        schedule(false);
    }
    bool block_until(const std::function<bool()>& pred, uint64_t deadline)
    {
        InRt g;
        if (!rt.running)
        {
            if (!pred())
            {
                fprintf(stderr, "ksim: blocking call outside of a run\n");
                abort();
            }
            return true;
        }
        Fiber* c = rt.cur;
        c->pred = pred;
        c->deadline = deadline;
        c->state = Fiber::BLOCKED;
        c->timed_out = false;
        schedule(true);
        c->pred = nullptr;
        return !c->timed_out;
    }
    void block_until(const std::function<bool()>& pred) { block_until(pred, ~0ull); }
    void quiesce(bool fire_timers)
    {
        InRt g;
        Fiber* c = rt.cur;
        c->state = Fiber::IDLE;
        c->idle_timers = fire_timers;
        schedule(true);
    }
    void advance(uint64_t ns) { rt.now += ns; }
    void set_step_limit(uint64_t n) { rt.max_steps = n; }
    std::string blocked_report()
    {
        InRt g;
        std::string s;
        for (auto* f: rt.fibers)
        {
            char b[128];
            snprintf(b, sizeof b, "[%d %s %s]", f->id, f->name ? f->name : "", f->state == Fiber::DONE ? "done" : f->state == Fiber::RUN ? "run" : f->state == Fiber::BLOCKED ? "blocked" : "idle");
            s += b;
        }
        return s;
    }
    void kill_others()
    {
        InRt g;
        for (auto* f: rt.fibers)
            if (f->state == Fiber::DONE) rt.cur->vc.join(f->vc_final);
            else if (f != rt.cur)
            {
                rt.cur->vc.join(f->vc);  // what they did comes before everything after the crash
                f->vc_final = f->vc;
                f->state = Fiber::DONE;
                f->pred = nullptr;
            }
        kernel_crash();
    }
    Quiet::Quiet() { rt.cur->quiet++; }
    Quiet::~Quiet() { rt.cur->quiet--; }

    // ================================================================= memory
    static char* arena;              // operator new
    static size_t arena_used = 4096;
    static uint8_t* state;           // one byte per 8: 0 = invalid, 1..8 valid bytes, 0xfd freed
    static Cell* cells;              // race shadow of arena + stacks
    static constexpr size_t kArena = 3ull << 30;
    static constexpr size_t kStacks = kStack * kMaxFibers;
    struct Blk { uint64_t magic; uint32_t size; uint32_t serial; };
    static_assert(sizeof(Blk) == 16);
    static size_t live_n, live_b, serial_n;
    static std::map<uint32_t, uintptr_t>* live_map;  // serial -> address

    static void mem_init()
    {
        if (arena) return;
        char* base = (char*) mmap((void*) 0x500000000000ull, kArena + kStacks, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) abort();
        state = (uint8_t*) mmap(nullptr, kArena / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        cells = (Cell*) mmap(nullptr, (kArena + kStacks) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stacks_base = base + kArena;
        arena = base;
    }
    static inline bool in_arena(uintptr_t a) { return a - (uintptr_t) arena < kArena; }
    static inline bool in_tracked(uintptr_t a) { return a - (uintptr_t) arena < kArena + kStacks; }

    static void* arena_new(size_t n, size_t align)
    {
        mem_init();
        if (n > (64u << 20))
        {
            // absurd request (arithmetic wrap in the code under test): as the system allocator would
            return nullptr;
        }
        if (align < 16) align = 16;
        size_t p = arena_used + 16 + sizeof(Blk);
        p = (p + align - 1) & ~(align - 1);
        size_t end = p + ((n + 7) & ~7ull) + 16;
        if (end > kArena) return nullptr;
        arena_used = (end + 15) & ~15ull;
        auto* b = (Blk*) (arena + p - sizeof(Blk));
        b->magic = 0xa110ca7ed0000000ull;
        b->size = n;
        b->serial = ++serial_n;
        size_t g = p / 8, full = n / 8;
        memset(state + g, 8, full);
        if (n % 8) state[g + full] = n % 8;
        live_n++;
        live_b += n;
        rt.in_rt++;
        if (!live_map) live_map = new std::map<uint32_t, uintptr_t>;
        (*live_map)[b->serial] = (uintptr_t) arena + p;
        rt.in_rt--;
        return arena + p;
    }
    static void race_check(uintptr_t a, size_t n, bool wr, bool atom, void* pc);
    static void arena_delete(void* p)
    {
        auto a = (uintptr_t) p;
        auto* b = (Blk*) (a - sizeof(Blk));
        if ((a & 15) || b->magic != 0xa110ca7ed0000000ull)
        {
            if (rt.running)
            {
                bool freed = b->magic == 0xdeadca7ed0000000ull;
                note("%s", freed ? "double delete" : "delete of a pointer that was not allocated");
                fatal_event(freed ? "double-free" : "bad-free");
            }
            return;
        }
        if (rt.running && !rt.in_rt && !rt.cur->quiet && b->size <= 65536)
            race_check(a, b->size, true, false, __builtin_return_address(0));
        b->magic = 0xdeadca7ed0000000ull;
        size_t g = (a - (uintptr_t) arena) / 8;
        memset(state + g, 0xfd, (b->size + 7) / 8);
        if (rt.running) memset(p, 0xdf, b->size);   // freed contents are poison
        live_n--;
        live_b -= b->size;
        rt.in_rt++;
        live_map->erase(b->serial);
        rt.in_rt--;
    }
    size_t live_allocs() { return live_n; }
    size_t live_bytes() { return live_b; }
    size_t alloc_serial() { return serial_n; }
    std::string live_report(size_t since)
    {
        InRt g;
        std::string s;
        int k = 0;
        for (auto it = live_map->upper_bound(since); it != live_map->end() && k < 20; ++it, ++k)
        {
            auto* b = (Blk*) (it->second - sizeof(Blk));
            char t[64];
            snprintf(t, sizeof t, " #%u:%u", b->serial, b->size);
            s += t;
        }
        return s;
    }
    size_t valid_run(const void* p, size_t n)
    {
        auto a = (uintptr_t) p;
        if (!in_arena(a)) return n;
        size_t i = 0;
        while (i < n)
        {
            uint8_t s = state[(a + i - (uintptr_t) arena) / 8];
            size_t o = (a + i) & 7;
            if (s > 8 || o >= s) break;
            i += std::min<size_t>(s - o, n - i);
            if (s < 8) break;
        }
        return i;
    }
    bool mem_ok(const void* p, size_t n)
    {
        auto a = (uintptr_t) p;
        if (n == 0 || !in_arena(a)) return true;
        for (size_t i = 0; i < n;)
        {
            uint8_t s = state[(a + i - (uintptr_t) arena) / 8];
            size_t o = (a + i) & 7;
            size_t take = std::min<size_t>(8 - o, n - i);
            if (s > 8 || o + take > s) return false;
            i += take;
        }
        return true;
    }
    size_t stack_used_max()
    {
        size_t m = 0;
        for (auto* f: rt.fibers)
        {
            char* p = f->stack;
            while (p < f->stack + kStack && *(uint64_t*) p == 0) p += 8;
            m = std::max<size_t>(m, f->stack + kStack - p);
        }
        return m;
    }

    // ================================================================= happens-before and race detection
    struct SyncVar { VC vc; };
    static std::unordered_map<uintptr_t, VC>* syncs;
    static std::unordered_map<uintptr_t, Cell>* gcells;
    static std::vector<std::pair<uintptr_t, uintptr_t>>* quiets;
    void tick(Fiber* f) { f->vc.c[f->id]++; }
    void quiet_range(const void* p, size_t n)
    {
        InRt g;
        if (!quiets) quiets = new std::vector<std::pair<uintptr_t, uintptr_t>>;
        quiets->push_back({(uintptr_t) p, (uintptr_t) p + n});
    }
    static inline bool is_quiet(uintptr_t a)
    {
        if (quiets)
            for (auto& q: *quiets)
                if (a >= q.first && a < q.second) return true;
        return false;
    }
    extern "C" char __data_start, _end;

    static void check_cell(Cell& c, uint8_t mask, bool wr, bool atom, void* pc, uintptr_t ga)
    {
        Fiber* f = rt.cur;
        int slot = -1, same = -1;
        for (int i = 0; i < 4; ++i)
        {
            Entry& e = c.e[i];
            if (!e.clk)
            {
                if (slot < 0) slot = i;
                continue;
            }
            if (e.tid == f->id)
            {
                if (e.mask == mask && e.wr == wr && e.atom == atom) same = i;
                continue;
            }
            if (!(e.mask & mask)) continue;
            bool hb = f->vc.c[e.tid] >= e.clk;
            if (hb)
            {
                if (wr && (e.mask & ~mask) == 0) e.clk = 0, slot = slot < 0 ? i : slot;  // superseded
                continue;
            }
            if ((wr || e.wr) && !(atom && e.atom))
            {
                note("data race: %s%s at %p by thread %d (pc %p) with %s%s by thread %d (pc %p)", atom ? "atomic " : "", wr ? "write" : "read", (void*) ga, f->id, pc, e.atom ? "atomic " : "", e.wr ? "write" : "read", e.tid, (void*) ((uintptr_t) &__data_start & ~0xffffffffull | e.pc));
                bad("race");
            }
        }
        if (same >= 0) slot = same;
        if (slot < 0) slot = srnd(4);
        c.e[slot] = Entry{(uint32_t) f->vc.c[f->id], (uint32_t) (uintptr_t) pc, (uint8_t) f->id, mask, wr, atom};
    }
    static void race_check(uintptr_t a, size_t n, bool wr, bool atom, void* pc)
    {
        bool tracked = in_tracked(a);
        if (!tracked && !(a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end)) return;
        rt.in_rt++;
        uintptr_t end = a + n;
        while (a < end)
        {
            uintptr_t ga = a & ~7ull;
            size_t o = a - ga, take = std::min<size_t>(8 - o, end - a);
            uint8_t mask = ((1u << take) - 1) << o;
            Cell& c = tracked ? cells[(ga - (uintptr_t) arena) / 8] : (*gcells)[ga];
            check_cell(c, mask, wr, atom, pc, ga);
            a += take;
        }
        rt.in_rt--;
    }
    void access(const void* p, size_t n, bool wr, void* pc)
    {
        if (!rt.running || rt.in_rt || rt.cur->quiet || !n) return;
        auto a = (uintptr_t) p;
        if (in_arena(a))
        {
            size_t g = (a - (uintptr_t) arena) / 8;
            bool ok = true;
            uint8_t k = 0;
            for (size_t i = 0; i < n && ok;)
            {
                uint8_t s = state[g];
                size_t o = (a + i) & 7;
                size_t take = std::min<size_t>(8 - o, n - i);
                if (s > 8 || o + take > s) ok = false, k = s;
                i += take;
                g++;
            }
            if (!ok)
            {
                note("%s %zu bytes at %p, thread %d pc %p: %s", wr ? "write" : "read", n, p, rt.cur->id, pc, k == 0xfd ? "freed memory" : "outside any block");
                fatal_event(k == 0xfd ? "use-after-free" : "out-of-bounds");
            }
        }
        else if (a < 65536)
        {
            note("null dereference thread %d pc %p", rt.cur->id, pc);
            fatal_event("null-access");
        }
        if (quiets && is_quiet(a)) return;
        race_check(a, n, wr, false, pc);
    }
    // atomics: called before the operation; returns false if untracked
    bool atomic_enter(const void* p, size_t n, bool wr, void* pc)
    {
        if (!rt.running || rt.in_rt || rt.cur->quiet) return false;
        auto a = (uintptr_t) p;
        if (quiets && is_quiet(a)) return false;
        rt.in_rt++;
        schedule(false);
        rt.in_rt--;
        if (in_arena(a) && !mem_ok(p, n))
        {
            uint8_t k = state[(a - (uintptr_t) arena) / 8];
            note("atomic access at %p, thread %d pc %p: %s", p, rt.cur->id, pc, k == 0xfd ? "freed memory" : "outside any block");
            fatal_event(k == 0xfd ? "use-after-free" : "out-of-bounds");
        }
        if (a < 65536)
        {
            note("null atomic, pc %p", pc);
            fatal_event("null-access");
        }
        race_check(a, n, wr, true, pc);
        return true;
    }
    static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
    void hb_load(const void* p, int mo)
    {
        InRt g;
        auto it = syncs->find((uintptr_t) p);
        if (it == syncs->end()) return;
        if (is_acq(mo)) rt.cur->vc.join(it->second);
        else rt.cur->acq_fence.join(it->second);
    }
    void hb_store(const void* p, int mo)
    {
        InRt g;
        VC& v = (*syncs)[(uintptr_t) p];
        if (is_rel(mo))
        {
            v = rt.cur->vc;
            tick(rt.cur);
        }
        else v = rt.cur->rel_fence;
    }
    void hb_rmw(const void* p, int mo)
    {
        InRt g;
        VC& v = (*syncs)[(uintptr_t) p];
        VC old = v;
        if (is_acq(mo)) rt.cur->vc.join(old);
        else rt.cur->acq_fence.join(old);
        if (is_rel(mo))
        {
            v.join(rt.cur->vc);
            tick(rt.cur);
        }
        else v.join(rt.cur->rel_fence);
    }
    void hb_fence(int mo)
    {
        if (!rt.running || rt.in_rt || rt.cur->quiet) return;
        InRt g;
        schedule(false);
        if (is_acq(mo)) rt.cur->vc.join(rt.cur->acq_fence);
        if (is_rel(mo))
        {
            rt.cur->rel_fence = rt.cur->vc;
            tick(rt.cur);
        }
    }
    void hb_release(VC& v)
    {
        v.join(rt.cur->vc);
        tick(rt.cur);
    }
    void hb_acquire(const VC& v) { rt.cur->vc.join(v); }

    // ================================================================= run
    static void on_signal(int sig)
    {
        rt.in_rt++;
        if (rt.running || rt.inline_mode)
        {
            const char* k = sig == SIGSEGV || sig == SIGBUS ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGALRM ? "hang" : sig == SIGILL || sig == SIGTRAP ? "trap" : "abort";
            note("signal %d in thread %d", sig, self());
            ev("\"e\":\"bad\",\"k\":\"%s\"", k);
            finish(k);
        }
        _exit(99);
    }
    static void on_terminate()
    {
        rt.in_rt++;
        if (auto e = std::current_exception())
        {
            try
            {
                std::rethrow_exception(e);
            }
            catch (const std::exception& x)
            {
                note("terminate: %s", x.what());
            }
            catch (...)
            {
            }
        }
        if (rt.running) fatal_event("terminate");
        _exit(98);
    }

    static void setup_signals()
    {
        static char alt[65536];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
        std::set_terminate(on_terminate);
    }

    static void begin_run(uint64_t pseed, uint64_t sseed, uint64_t max_steps)
    {
        InRt g;
        __libc_single_threaded = 0;
        mem_init();
        if (!syncs) syncs = new std::unordered_map<uintptr_t, VC>;
        if (!gcells) gcells = new std::unordered_map<uintptr_t, Cell>;
        rt.prng = pseed * 0x9e3779b97f4a7c15ull + 0x1234567;
        rt.srng = sseed * 0xd1342543de82ef95ull + 0x7654321;
        splitmix(rt.prng);
        splitmix(rt.srng);
        rt.max_steps = max_steps;
        if (rt.mode == 3)  // mix of random and PCT
        {
            rt.mode = srnd(3) == 0 ? 1 : 0;
        }
        static const int slow[] = {0, 0, 0, 3, 8, 20};
        rt.slow_one_in = rt.mode == 2 ? 0 : (uint64_t) slow[srnd(6)];
        rt.completions = 0;
        if (rt.mode == 0)
        {
            static const int ps[] = {40, 150, 400, 700};
            rt.p_switch = ps[srnd(4)];
            static const int pt[] = {0, 1, 6, 25};
            rt.p_time = pt[srnd(4)];
        }
        if (rt.mode == 1)
        {
            int d = srnd(5);
            uint64_t len = 60ull << srnd(5);
            for (int i = 0; i < d; ++i) rt.pct_points.push_back(srnd(len));
            std::sort(rt.pct_points.rbegin(), rt.pct_points.rend());
        }
        rt.kernel_prio = 1 + srnd(1000000);
        auto* f = new Fiber;
        f->id = 0;
        f->name = "main";
        f->stack = stacks_base;
        stacks_used = kStack;
        f->vc.c[0] = 1;
        f->prio = 1000 + srnd(1000000);
        rt.fibers.push_back(f);
        rt.cur = f;
    }
    static void main_fiber_body(const std::function<void()>& body)
    {
        // main runs as a fiber on its own stack so that every stack is tracked alike
        Fiber* f = rt.cur;
        f->entry = [&body]
        {
            body();
            rt.in_rt++;
            finish("done");
        };
        void** sp = (void**) (f->stack + kStack - 64);
        sp = (void**) ((uintptr_t) sp & ~15ull);
        *--sp = nullptr;
        *--sp = (void*) &fiber_main;
        for (int i = 0; i < 6; ++i) *--sp = nullptr;
        memset(f->eh, 0, 16);
        rt.running = true;
        void* dummy;
        ksim_switch_asm(&dummy, sp);
    }

    std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c: s)
        {
            if (c == '"' || c == '\\') o += '\\', o += c;
            else if (c < 32 || c > 126)
            {
                char t[8];
                snprintf(t, sizeof t, "\\u%04x", c);
                o += t;
            }
            else o += c;
        }
        return o + "\"";
    }

    void run_inline(uint64_t seed, const std::function<void()>& body)
    {
        sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        rt.mode = 0;
        rt.time_adv = true;
        begin_run(seed, seed, ~0ull);
        setup_signals();
        main_fiber_body(body);
    }

    static uint64_t fnv(const char* p, size_t n)
    {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char) p[i]) * 1099511628211ull;
        return h;
    }

    int main(int argc, char** argv, const std::vector<Scenario>& scs, std::function<void()> warmup)
    {
        rt.in_rt++;
        std::string name, out = "/dev/stdout", mode = "mix";
        uint64_t seed0 = 1, runs = 1, stats_only = 0, preempt = 2, base = 1;
        double tlimit = 1e9;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--scenario") name = nx();
            else if (a == "--seed0") seed0 = std::stoull(nx());
            else if (a == "--runs") runs = std::stoull(nx());
            else if (a == "--base") base = std::stoull(nx());
            else if (a == "--out") out = nx();
            else if (a == "--mode") mode = nx();
            else if (a == "--preempt") preempt = std::stoull(nx());
            else if (a == "--time") tlimit = std::stod(nx());
            else if (a == "--stats") stats_only = 1;
            else if (a == "--list")
            {
                for (auto& s: scs) printf("%s\n", s.name);
                return 0;
            }
        }
        (void) stats_only;
        const Scenario* sc = nullptr;
        for (auto& s: scs)
            if (name == s.name) sc = &s;
        if (!sc)
        {
            fprintf(stderr, "no scenario %s\n", name.c_str());
            return 2;
        }
        sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        FILE* fo = fopen(out.c_str(), "w");
        if (!fo) return 2;
        mem_init();
        setup_signals();
        rt.in_rt--;
        if (warmup) warmup();
        rt.in_rt++;
        std::unordered_set<uint64_t> seen;
        std::map<std::string, uint64_t> outcomes;
        timespec t0;
        clock_gettime_real(CLOCK_MONOTONIC, &t0);
        std::vector<uint16_t> prefix;
        uint64_t total = 0, steps = 0, uniq = 0;
        bool exhausted = false;
        for (uint64_t r = 0; r < runs; ++r)
        {
            timespec t1;
            clock_gettime_real(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > tlimit) break;
            uint64_t seed = seed0 + r;
            sh->hist_len = sh->note_len = 0;
            sh->n_choices = sh->steps = 0;
            strcpy(sh->outcome, "lost");
            pid_t pid = fork();
            if (pid < 0)
            {
                perror("fork");
                return 2;
            }
            if (pid == 0)
            {
                setup_signals();
                alarm(30);
                uint64_t pseed = base * 1000003 + (mode == "dfs" ? seed0 : seed / sc->schedules_per_param), sseed = base * 7777777 + seed;
                rt.mode = mode == "random" ? 0 : mode == "pct" ? 1 : mode == "dfs" ? 2 : 3;
                rt.time_adv = true;
                rt.prefix.assign(prefix.begin(), prefix.end());
                begin_run(pseed, sseed, sc->max_steps);
                rt.in_rt = 0;
                main_fiber_body(sc->body);
                _exit(97);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            {
            }
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                // died without reporting: record as a crash
                char b[64];
                int k = snprintf(b, sizeof b, "{\"e\":\"bad\",\"k\":\"died\"}");
                hist_raw(b, k);
                strcpy(sh->outcome, "died");
            }
            total++;
            steps += sh->steps;
            outcomes[sh->outcome]++;
            uint64_t h = fnv(sh->hist, sh->hist_len);
            if (seen.insert(h).second)
            {
                uniq++;
                std::string notes;
                if (sh->note_len) notes = ",\"notes\":" + jstr(std::string(sh->notes, std::min<uint64_t>(sh->note_len, 2000)));
                std::string pfx;
                if (mode == "dfs")
                {
                    pfx = ",\"prefix\":[";
                    for (size_t i = 0; i < prefix.size(); ++i) pfx += (i ? "," : "") + std::to_string(prefix[i]);
                    pfx += "]";
                }
                fprintf(fo, "{\"id\":\"%s:%s:%llu:%llu\",\"out\":\"%s\"%s%s,\"h\":[%.*s]}\n", sc->name, mode.c_str(), (unsigned long long) base, (unsigned long long) (mode == "dfs" ? seed0 : seed), sh->outcome, notes.c_str(), pfx.c_str(), (int) sh->hist_len, sh->hist);
            }
            if (mode == "dfs")
            {
                // next prefix with at most `preempt` non-default scheduling choices
                uint32_t n = std::min<uint32_t>(sh->n_choices, 20000);
                int64_t i = (int64_t) n - 1;
                uint64_t used = 0;
                for (uint32_t k = 0; k < n; ++k) used += sh->ch[k].preempt && sh->ch[k].c != 0;
                for (; i >= 0; --i)
                {
                    auto& c = sh->ch[i];
                    bool nz = c.preempt && c.c != 0;
                    uint64_t before = used - nz;  // non-defaults strictly before i (later ones already removed)
                    used = before;
                    if (c.c + 1 < c.n && (!c.preempt || before + 1 <= preempt)) break;
                }
                if (i < 0)
                {
                    exhausted = true;
                    break;
                }
                std::vector<uint16_t> np;
                for (int64_t k = 0; k < i; ++k) np.push_back(sh->ch[k].c);
                np.push_back(sh->ch[i].c + 1);
                prefix = np;
            }
        }
        fclose(fo);
        std::string oc;
        for (auto& [k, v]: outcomes) oc += (oc.empty() ? "" : ",") + ("\"" + k + "\":" + std::to_string(v));
        fprintf(stderr, "{\"scenario\":\"%s\",\"mode\":\"%s\",\"runs\":%llu,\"unique\":%llu,\"steps\":%llu,\"exhausted\":%s,\"outcomes\":{%s}}\n", sc->name, mode.c_str(), (unsigned long long) total, (unsigned long long) uniq, (unsigned long long) steps, exhausted ? "true" : "false", oc.c_str());
        return 0;
    }
}  // namespace ksim

// ===================================================================== operator new / delete
#include <new>
static void* ks_new(size_t n, size_t al)
{
    if (ksim::rt.in_rt)
    {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void* p = ksim::arena_new(n, al);
    if (!p) throw std::bad_alloc();
    return p;
}
static void ks_del(void* p)
{
    if (!p) return;
    if (ksim::arena && ksim::in_arena((uintptr_t) p)) ksim::arena_delete(p);
    else free(p);
}
void* operator new(size_t n) { return ks_new(n, 16); }
void* operator new[](size_t n) { return ks_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return ks_new(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return ks_new(n, (size_t) a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return ksim::rt.in_rt ? malloc(n) : ksim::arena_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return ksim::rt.in_rt ? malloc(n) : ksim::arena_new(n, 16); }
void operator delete(void* p) noexcept { ks_del(p); }
void operator delete[](void* p) noexcept { ks_del(p); }
void operator delete(void* p, size_t) noexcept { ks_del(p); }
void operator delete[](void* p, size_t) noexcept { ks_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { ks_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { ks_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { ks_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { ks_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { ks_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { ks_del(p); }
