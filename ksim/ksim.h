// ksim: deterministic execution of multi-threaded io_uring code.
// Threads are fibers, the kernel is simulated, every choice comes from one seed (or a choice prefix).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/types.h>

struct io_uring;
struct io_uring_sqe;

namespace ksim
{
    // ------------------------------------------------------------------ history
    void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appends one JSON object (given without braces)
    void bad(const char* kind);          // forbidden event (no specification action accepts it)
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // diagnostics, not part of the history
    std::string hist();

    // ------------------------------------------------------------------ scheduling
    void point();                                  // explicit scheduling point
    void block_until(const std::function<bool()>& pred);
    bool block_until(const std::function<bool()>& pred, uint64_t deadline_ns);  // false: deadline passed first
    void quiesce(bool fire_timers);                // wait until nothing else can make progress
    int self();                                    // fiber id (main = 0)
    int spawn(const char* name, std::function<void()> fn);  // thread without std::thread
    void join(int id);
    bool finished(int id);
    uint64_t now();                                // virtual monotonic clock, ns
    void advance(uint64_t ns);                     // move the clock explicitly
    extern int64_t wall_offset_ns;                 // CLOCK_REALTIME = now() + wall_offset_ns
    uint64_t rnd(uint64_t n);                      // scenario parameter choice (independent of the schedule)
    uint64_t choose(uint64_t n);                   // schedule choice
    void kill_others();                            // crash: all other fibers, rings and pending operations vanish
    void set_step_limit(uint64_t n);
    std::string blocked_report();
    struct Quiet { Quiet(); ~Quiet(); };           // accesses of this fiber are neither tracked nor scheduling points
    void quiet_range(const void* p, size_t n);     // accesses to this object are neither tracked nor scheduling points
    size_t live_allocs();                          // number of live operator-new blocks
    size_t live_bytes();
    bool mem_ok(const void* p, size_t n);          // memory fully inside live blocks
    std::string live_report(size_t since_serial);
    size_t alloc_serial();
    size_t stack_used_max();

    // ------------------------------------------------------------------ simulated kernel
    struct Op
    {
        uint64_t seq;            // submission number (per run, from 1)
        ::io_uring* ring;
        uint8_t opcode;
        uint8_t flags;
        int fd;
        uint64_t off;
        uint64_t addr;
        uint32_t len;
        uint32_t op_flags;
        uint64_t user_data;
        uint16_t buf_index;
        int32_t splice_fd_in;
        uint64_t splice_off_in;
        std::string path, path2;  // copied at submission, for path operations
        uint64_t deadline = 0;    // timeouts
        int64_t duration = 0;
        bool cancelled = false;
        uint64_t hold = 0;       // a slow request: not before so many others have completed (or nothing else can happen)
        int fiber;
        void* data = nullptr;
    };
    void slow(Op& op, uint64_t n);   // op completes after n other requests did (or when nothing else can happen)

    struct File
    {
        virtual ~File() = default;
        int kind = 0;
        int id = 0;
        int refs = 0;
        virtual const char* name() const { return "file"; }
        virtual bool ready(Op&) { return true; }        // can the operation complete now?
        virtual int exec(Op& op) = 0;                   // perform, return res
        virtual ssize_t read(void*, size_t) { return -22; }   // direct syscalls; -EAGAIN = would block
        virtual ssize_t write(const void*, size_t) { return -22; }
        virtual int poll() { return 0; }
        virtual void closed() {}
    };

    struct Hooks
    {
        std::function<void(Op&)> on_submit;                       // after the kernel took the request
        std::function<bool(Op&)> ready;                           // optional restriction: false = may not complete now
        std::function<bool(Op&)> forced;                          // optional override: true = may complete now, whatever the file says
        std::function<bool(Op&, int&)> exec;                      // optional override: perform; true if handled
        std::function<void(Op&, int)> on_complete;                // before the CQE becomes visible
        std::function<void(int fd, const char* what)> on_fd;      // "eventfd","socket","pipe","open","accept","close","ring","ringexit","badclose"
        std::function<int(const char* call, int fd)> fail;        // direct-call fault injection: errno or 0
        std::function<void(const char* call, int fd, const void* arg, long n, long m, int err)> on_call;  // "setsockopt","bind","listen","fcntl",...
        std::function<int(const char* call)> uring_fail;          // "init","submit","wait": -errno or 0
        std::function<bool(int fd, const void*, size_t, ssize_t&)> direct_write;
    };
    extern Hooks hooks;

    int open_file(std::shared_ptr<File> f, const char* what, int flags = 0);   // new fake descriptor
    std::shared_ptr<File> get_file(int fd);
    int fd_flags(int fd);
    int close_fd(int fd);                            // as close(2): 0 or -errno
    size_t open_fds();
    std::string fd_report();
    size_t pending_ops();
    size_t open_rings();
    bool is_fake(int fd);

    // duplex byte streams (sockets)
    struct Stream : File
    {
        std::string rx;           // bytes the application will read
        std::string tx;           // bytes the application wrote
        bool rx_eof = false;
        int rx_err = 0, tx_err = 0;      // positive errno, delivered once rx is empty
        bool tx_block = false;
        bool fragment = true;     // deliver in scheduler-chosen pieces
        std::vector<uint32_t> vc;
        std::function<void(Stream&, const char*, size_t)> on_write;
        std::function<void(Stream&)> on_closed;
        const char* name() const override { return "stream"; }
        bool ready(Op&) override;
        int exec(Op&) override;
        ssize_t read(void*, size_t) override;
        ssize_t write(const void*, size_t) override;
        int poll() override;
        void closed() override;
    };
    struct Listener : File
    {
        std::vector<std::shared_ptr<File>> backlog;
        std::vector<int> errors;          // accept errors (errno) delivered first
        const char* name() const override { return "listener"; }
        bool ready(Op&) override;
        int exec(Op&) override;
    };

    // ------------------------------------------------------------------ driver
    struct Scenario
    {
        const char* name;
        std::function<void()> body;
        int schedules_per_param = 20;
        uint64_t max_steps = 60000;
    };
    int main(int argc, char** argv, const std::vector<Scenario>& scenarios, std::function<void()> warmup = {});
    // single in-process run of a function under the runtime without fork (sequential harnesses)
    void run_inline(uint64_t seed, const std::function<void()>& body);
    std::string jstr(const std::string& s);
}
