// libc, pthread and liburing calls of the code under test, on ksim.
#include "ksim_int.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <linux/futex.h>
#include <linux/time_types.h>
#include <liburing.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>
#include <dlfcn.h>

using namespace ksim;

static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long rete(long r)
{
    if (r < 0)
    {
        errno = (int) -r;
        return -1;
    }
    return r;
}
int ksim::clock_gettime_real(clockid_t c, timespec* t) { return (int) raw(SYS_clock_gettime, c, (long) t); }

// ============================================================================ descriptors
namespace ksim
{
    constexpr int kFdBase = 1000;
    struct FdEnt
    {
        std::shared_ptr<File> f;
        int flags = 0;
    };
    static std::vector<FdEnt>* fds;
    static std::vector<FdEnt>& tab()
    {
        if (!fds)
        {
            InRt g;
            fds = new std::vector<FdEnt>(256);
        }
        return *fds;
    }
    static std::map<int, int>* realfds;  // real descriptors opened through the interposed calls: fd -> 1
    static std::map<int, int>& rfd()
    {
        if (!realfds)
        {
            InRt g;
            realfds = new std::map<int, int>;
        }
        return *realfds;
    }
    bool is_fake(int fd) { return fd >= kFdBase && fd < kFdBase + 256; }
    std::shared_ptr<File> get_file(int fd)
    {
        InRt g;
        if (!is_fake(fd)) return nullptr;
        return tab()[fd - kFdBase].f;
    }
    int open_file(std::shared_ptr<File> f, const char* what, int flags)
    {
        InRt g;
        auto& t = tab();
        for (size_t i = 0; i < t.size(); ++i)
            if (!t[i].f)
            {
                t[i].f = std::move(f);
                t[i].f->refs++;
                t[i].flags = flags;
                if (hooks.on_fd) hooks.on_fd(kFdBase + (int) i, what);
                return kFdBase + (int) i;
            }
        return -EMFILE;
    }
    int fd_flags(int fd)
    {
        InRt g;
        return get_file(fd) ? tab()[(size_t) (fd - kFdBase)].flags : 0;
    }
    int close_fd(int fd)
    {
        InRt g;
        if (is_fake(fd))
        {
            auto& e = tab()[fd - kFdBase];
            if (!e.f)
            {
                if (hooks.on_fd) hooks.on_fd(fd, "badclose");
                return -EBADF;
            }
            auto f = std::move(e.f);
            e.f = nullptr;
            if (hooks.on_fd) hooks.on_fd(fd, "close");
            if (--f->refs == 0) f->closed();
            return 0;
        }
        if (rt.running && !rfd().count(fd))
        {
            if (hooks.on_fd) hooks.on_fd(fd, "badclose");
            note("close of descriptor %d that is not open", fd);
            return fd <= 2 && fd >= 0 ? 0 : -EBADF;
        }
        rfd().erase(fd);
        if (rt.running && hooks.on_fd) hooks.on_fd(fd, "close");
        return (int) raw(SYS_close, fd);
    }
    size_t open_fds()
    {
        InRt g;
        size_t n = rfd().size();
        for (auto& e: tab()) n += e.f != nullptr;
        return n;
    }
    std::string fd_report()
    {
        InRt g;
        std::string s;
        for (size_t i = 0; i < tab().size(); ++i)
            if (tab()[i].f) s += " " + std::to_string(kFdBase + i) + ":" + tab()[i].f->name();
        for (auto& [k, v]: rfd()) s += " real:" + std::to_string(k);
        return s;
    }

    static std::map<File*, VC>* filevc;
    static VC& fvc(File* f)
    {
        if (!filevc) filevc = new std::map<File*, VC>;
        return (*filevc)[f];
    }

    struct EventFd : File
    {
        uint64_t n = 0;
        bool sem = false;
        const char* name() const override { return "eventfd"; }
        bool ready(Op& op) override { return op.opcode == IORING_OP_READ || op.opcode == IORING_OP_READV ? n > 0 : true; }
        ssize_t read(void* p, size_t len) override
        {
            if (len < 8) return -EINVAL;
            if (n == 0) return -EAGAIN;
            uint64_t v = sem ? 1 : n;
            n -= v;
            memcpy(p, &v, 8);
            if (rt.cur) hb_acquire(fvc(this));
            return 8;
        }
        ssize_t write(const void* p, size_t len) override
        {
            if (len < 8) return -EINVAL;
            uint64_t v;
            memcpy(&v, p, 8);
            n += v;
            if (rt.cur) hb_release(fvc(this));
            return 8;
        }
        int exec(Op& op) override
        {
            if (op.opcode == IORING_OP_READ) return (int) read((void*) op.addr, op.len);
            if (op.opcode == IORING_OP_READV)
            {
                auto* iov = (iovec*) op.addr;
                return (int) read(iov[0].iov_base, iov[0].iov_len);
            }
            if (op.opcode == IORING_OP_WRITE) return (int) write((void*) op.addr, op.len);
            if (op.opcode == IORING_OP_POLL_ADD) return POLLIN;
            return -EINVAL;
        }
        int poll() override { return (n ? POLLIN : 0) | POLLOUT; }
    };

    struct PipeBuf { std::string data; size_t cap = 65536; bool wclosed = false, rclosed = false; };
    struct PipeEnd : File
    {
        std::shared_ptr<PipeBuf> b;
        bool wr;
        const char* name() const override { return wr ? "pipe-w" : "pipe-r"; }
        ssize_t read(void* p, size_t n) override
        {
            if (wr) return -EBADF;
            if (b->data.empty()) return b->wclosed ? 0 : -EAGAIN;
            n = std::min(n, b->data.size());
            memcpy(p, b->data.data(), n);
            b->data.erase(0, n);
            return n;
        }
        ssize_t write(const void* p, size_t n) override
        {
            if (!wr) return -EBADF;
            if (b->rclosed) return -EPIPE;
            size_t room = b->cap - b->data.size();
            if (!room) return -EAGAIN;
            n = std::min(n, room);
            b->data.append((const char*) p, n);
            return n;
        }
        bool ready(Op&) override { return wr ? b->data.size() < b->cap || b->rclosed : !b->data.empty() || b->wclosed; }
        int exec(Op& op) override
        {
            if (op.opcode == IORING_OP_READ) return (int) read((void*) op.addr, op.len);
            if (op.opcode == IORING_OP_WRITE) return (int) write((void*) op.addr, op.len);
            return -EINVAL;
        }
        void closed() override { (wr ? b->wclosed : b->rclosed) = true; }
    };

    bool Stream::ready(Op& op)
    {
        switch (op.opcode)
        {
            case IORING_OP_READ:
            case IORING_OP_RECV:
            case IORING_OP_READV: return !rx.empty() || rx_eof || rx_err;
            case IORING_OP_POLL_ADD: return (poll() & (op.op_flags | POLLERR | POLLHUP)) != 0;
            default: return !tx_block;
        }
    }
    ssize_t Stream::read(void* p, size_t n)
    {
        if (rx.empty())
        {
            if (rx_err) return -rx_err;
            return rx_eof ? 0 : -EAGAIN;
        }
        n = std::min(n, rx.size());
        if (fragment && n > 1) n = choose(2) ? n : 1 + choose(n);
        memcpy(p, rx.data(), n);
        rx.erase(0, n);
        return n;
    }
    ssize_t Stream::write(const void* p, size_t n)
    {
        if (tx_err) return -tx_err;
        if (fragment && n > 1) n = choose(2) ? n : 1 + choose(n);
        tx.append((const char*) p, n);
        if (on_write) on_write(*this, (const char*) p, n);
        return n;
    }
    int Stream::exec(Op& op)
    {
        switch (op.opcode)
        {
            case IORING_OP_READ:
            case IORING_OP_RECV: return (int) read((void*) op.addr, op.len);
            case IORING_OP_WRITE:
            case IORING_OP_SEND: return (int) write((void*) op.addr, op.len);
            case IORING_OP_READV:
            case IORING_OP_WRITEV:
            {
                auto* iov = (iovec*) op.addr;
                if (op.len == 0) return 0;
                return (int) (op.opcode == IORING_OP_READV ? read(iov[0].iov_base, iov[0].iov_len) : write(iov[0].iov_base, iov[0].iov_len));
            }
            case IORING_OP_SENDMSG:
            {
                auto* m = (msghdr*) op.addr;
                if (m->msg_iovlen == 0) return 0;
                return (int) write(m->msg_iov[0].iov_base, m->msg_iov[0].iov_len);
            }
            case IORING_OP_POLL_ADD: return poll() & (op.op_flags | POLLERR | POLLHUP);
            case IORING_OP_CONNECT: return 0;
            case IORING_OP_SHUTDOWN: return 0;
            default: return -EINVAL;
        }
    }
    int Stream::poll() { return ((!rx.empty() || rx_eof || rx_err) ? POLLIN : 0) | (tx_block ? 0 : POLLOUT) | (rx_err ? POLLERR : 0); }
    void Stream::closed()
    {
        if (on_closed) on_closed(*this);
    }
    bool Listener::ready(Op&) { return !backlog.empty() || !errors.empty(); }
    int Listener::exec(Op& op)
    {
        if (op.opcode != IORING_OP_ACCEPT) return op.opcode == IORING_OP_POLL_ADD ? POLLIN : -EINVAL;
        if (!errors.empty())
        {
            int e = errors.front();
            errors.erase(errors.begin());
            return -e;
        }
        if (backlog.empty()) return -EAGAIN;
        auto f = backlog.front();
        backlog.erase(backlog.begin());
        return open_file(f, "accept");
    }

    // ======================================================================== rings
    struct Ring
    {
        io_uring* r;
        unsigned khead = 0, ktail = 0, cqhead = 0, cqtail = 0, flags = 0, dropped = 0, overflow_n = 0, sqflags = 0, cqflags = 0;
        std::vector<io_uring_sqe> sqes;
        std::vector<io_uring_cqe> cqes;
        std::vector<unsigned> arr;
        std::deque<io_uring_cqe> overflow;
        std::vector<Op*> pending;
        int owner = -1;
        int setup_flags = 0;
        int fd = -1;
        bool waiting = false;
        unsigned cq_count() const { return cqtail - *(volatile const unsigned*) &cqhead; }
    };
    struct RingFile : File
    {
        const char* name() const override { return "ring"; }
        int exec(Op&) override { return -EINVAL; }
    };
    static std::map<io_uring*, Ring*>* rings;
    static uint64_t op_seq = 0;
    static std::map<io_uring*, Ring*>& rg()
    {
        if (!rings) rings = new std::map<io_uring*, Ring*>;
        return *rings;
    }
    size_t open_rings()
    {
        InRt g;
        return rg().size();
    }
    size_t pending_ops()
    {
        InRt g;
        size_t n = 0;
        for (auto& [k, r]: rg()) n += r->pending.size();
        return n;
    }
    void slow(Op& op, uint64_t n) { op.hold = rt.completions + n; }
    static bool op_ready(Op& op)
    {
        if (op.cancelled) return true;
        if (op.hold > rt.completions) return false;
        if (hooks.ready && !hooks.ready(op)) return false;
        if (hooks.forced && hooks.forced(op)) return true;
        switch (op.opcode)
        {
            case IORING_OP_TIMEOUT: return op.deadline <= rt.now;
            case IORING_OP_READ:
            case IORING_OP_RECV:
            case IORING_OP_READV:
            case IORING_OP_WRITE:
            case IORING_OP_SEND:
            case IORING_OP_WRITEV:
            case IORING_OP_SENDMSG:
            case IORING_OP_RECVMSG:
            case IORING_OP_ACCEPT:
            case IORING_OP_CONNECT:
            case IORING_OP_POLL_ADD:
            {
                auto f = get_file(op.fd);
                return f ? f->ready(op) : true;
            }
            default: return true;
        }
    }
    size_t kernel_completable()
    {
        size_t n = 0;
        for (auto& [k, r]: rg())
            for (auto* op: r->pending) n += op_ready(*op);
        return n;
    }
    bool kernel_release_held()
    {
        bool any = false;
        for (auto& [k, r]: rg())
            for (auto* op: r->pending)
                if (op->hold > rt.completions) { op->hold = 0; any = true; }
        return any;
    }
    uint64_t kernel_next_deadline()
    {
        uint64_t d = ~0ull;
        for (auto& [k, r]: rg())
            for (auto* op: r->pending)
                if (op->opcode == IORING_OP_TIMEOUT && op->deadline > rt.now) d = std::min(d, op->deadline);
        return d;
    }
    static bool buf_ok(Op& op)
    {
        switch (op.opcode)
        {
            case IORING_OP_READ:
            case IORING_OP_RECV:
            case IORING_OP_WRITE:
            case IORING_OP_SEND: return mem_ok((void*) op.addr, op.len);
            case IORING_OP_READV:
            case IORING_OP_WRITEV: return mem_ok((void*) op.addr, op.len * sizeof(iovec));
            case IORING_OP_SENDMSG: return mem_ok((void*) op.addr, sizeof(msghdr));
            default: return true;
        }
    }
    static void post_cqe(Ring* r, uint64_t ud, int res)
    {
        io_uring_cqe c{};
        c.user_data = ud;
        c.res = res;
        if (r->cq_count() < r->cqes.size() && r->overflow.empty())
        {
            r->cqes[r->cqtail & (r->cqes.size() - 1)] = c;
            r->cqtail++;
        }
        else
        {
            r->overflow.push_back(c);
            r->sqflags |= IORING_SQ_CQ_OVERFLOW;
        }
    }
    static void flush_overflow(Ring* r)
    {
        while (!r->overflow.empty() && r->cq_count() < r->cqes.size())
        {
            r->cqes[r->cqtail & (r->cqes.size() - 1)] = r->overflow.front();
            r->cqtail++;
            r->overflow.pop_front();
        }
        if (r->overflow.empty()) r->sqflags &= ~IORING_SQ_CQ_OVERFLOW;
    }
    static int real_exec(Op& op)
    {
        auto iovs = [&](bool rd) -> int
        {
            return (int) raw(rd ? SYS_preadv : SYS_pwritev, op.fd, (long) op.addr, op.len, (long) op.off, 0);
        };
        switch (op.opcode)
        {
            case IORING_OP_NOP: return 0;
            case IORING_OP_READ:
                if (op.off == (uint64_t) -1) return (int) raw(SYS_read, op.fd, (long) op.addr, op.len);
                return (int) raw(SYS_pread64, op.fd, (long) op.addr, op.len, (long) op.off);
            case IORING_OP_WRITE:
                if (op.fd <= 2 && op.fd >= 0) return -EBADF;
                if (op.off == (uint64_t) -1) return (int) raw(SYS_write, op.fd, (long) op.addr, op.len);
                return (int) raw(SYS_pwrite64, op.fd, (long) op.addr, op.len, (long) op.off);
            case IORING_OP_READV: return iovs(true);
            case IORING_OP_WRITEV: return iovs(false);
            case IORING_OP_FSYNC: return (int) raw(op.op_flags & IORING_FSYNC_DATASYNC ? SYS_fdatasync : SYS_fsync, op.fd);
            case IORING_OP_FALLOCATE: return (int) raw(SYS_fallocate, op.fd, op.len, (long) op.off, (long) op.addr);
            case 55: return (int) raw(SYS_ftruncate, op.fd, (long) op.off);
            case IORING_OP_OPENAT:
            {
                int fd = (int) raw(SYS_openat, op.fd, (long) op.path.c_str(), op.op_flags, op.len);
                if (fd >= 0)
                {
                    rfd()[fd] = 1;
                    if (hooks.on_fd) hooks.on_fd(fd, "open");
                }
                return fd;
            }
            case IORING_OP_CLOSE: return close_fd(op.fd);
            case IORING_OP_UNLINKAT: return (int) raw(SYS_unlinkat, op.fd, (long) op.path.c_str(), op.op_flags);
            case IORING_OP_RENAMEAT: return (int) raw(SYS_renameat2, op.fd, (long) op.path.c_str(), (int) op.len, (long) op.path2.c_str(), op.op_flags);
            case IORING_OP_MKDIRAT: return (int) raw(SYS_mkdirat, op.fd, (long) op.path.c_str(), op.len);
            default: return -EBADF;
        }
    }
    static int do_exec(Op& op)
    {
        int res;
        if (op.cancelled) return -ECANCELED;
        if (!buf_ok(op))
        {
            note("operation %d (opcode %d) completes into memory that is not alive", (int) op.seq, op.opcode);
            bad("kernel-buffer");
            return -EFAULT;
        }
        if (hooks.exec && hooks.exec(op, res)) return res;
        if (op.opcode == IORING_OP_TIMEOUT) return -ETIME;
        if (op.opcode == IORING_OP_CLOSE) return close_fd(op.fd);
        if (auto f = get_file(op.fd)) return f->exec(op);
        if (is_fake(op.fd)) return -EBADF;
        return real_exec(op);
    }
    static Ring* stepping_ring(size_t k, size_t& idx)
    {
        for (auto& [p, r]: rg())
            for (size_t i = 0; i < r->pending.size(); ++i)
                if (op_ready(*r->pending[i]))
                {
                    if (k == 0)
                    {
                        idx = i;
                        return r;
                    }
                    k--;
                }
        return nullptr;
    }
    void kernel_step(size_t k)
    {
        size_t i = 0;
        Ring* r = stepping_ring(k, i);
        if (!r) return;
        Op* op = r->pending[i];
        r->pending.erase(r->pending.begin() + (long) i);
        ++rt.completions;
        int res = do_exec(*op);
        if (hooks.on_complete) hooks.on_complete(*op, res);
        post_cqe(r, op->user_data, res);
        delete op;
    }
    void kernel_crash()
    {
        for (auto& [p, r]: rg())
        {
            for (auto* op: r->pending) delete op;
            r->pending.clear();
        }
        rg().clear();
        for (auto& e: tab()) e.f = nullptr;
        for (auto& [fd, v]: rfd()) raw(SYS_close, fd);
        rfd().clear();
    }

    static int submit_ring(io_uring* ring)
    {
        auto it = rg().find(ring);
        if (it == rg().end()) return -EBADF;
        Ring* r = it->second;
        if (rt.running)
        {
            if (r->owner < 0) r->owner = self();
            else if (r->owner != self() && (r->setup_flags & IORING_SETUP_SINGLE_ISSUER))
            {
                bad("wrong-issuer");
                return -EEXIST;
            }
        }
        flush_overflow(r);
        int n = 0;
        auto& sq = ring->sq;
        while (sq.sqe_head != sq.sqe_tail)
        {
            io_uring_sqe& s = sq.sqes[sq.sqe_head & sq.ring_mask];
            sq.sqe_head++;
            r->khead++;
            n++;
            auto* op = new Op{};
            op->seq = ++op_seq;
            op->ring = ring;
            op->opcode = s.opcode;
            op->flags = s.flags;
            op->fd = s.fd;
            op->off = s.off;
            op->addr = s.addr;
            op->len = s.len;
            op->op_flags = s.rw_flags;
            op->user_data = s.user_data;
            op->buf_index = s.buf_index;
            op->splice_fd_in = s.splice_fd_in;
            op->splice_off_in = s.splice_off_in;
            op->fiber = self();
            bool ok = true;
            switch (s.opcode)
            {
                case IORING_OP_OPENAT:
                case IORING_OP_UNLINKAT:
                case IORING_OP_MKDIRAT:
                case IORING_OP_RENAMEAT:
                    ok = mem_ok((void*) s.addr, 1);
                    if (ok) op->path = (const char*) s.addr;
                    if (s.opcode == IORING_OP_RENAMEAT) op->path2 = (const char*) s.addr2;
                    break;
                case IORING_OP_TIMEOUT:
                {
                    ok = mem_ok((void*) s.addr, sizeof(__kernel_timespec));
                    if (!ok) break;
                    auto* ts = (__kernel_timespec*) s.addr;
                    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
                    {
                        op->duration = -1;
                        op->deadline = 0;
                        if (ts->tv_sec < 0 || ts->tv_nsec < 0) op->cancelled = false;
                    }
                    else
                    {
                        op->duration = ts->tv_sec * 1000000000ll + ts->tv_nsec;
                        op->deadline = (s.timeout_flags & IORING_TIMEOUT_ABS) ? (uint64_t) op->duration : rt.now + (uint64_t) op->duration;
                    }
                    break;
                }
                default: ok = buf_ok(*op); break;
            }
            if (!ok)
            {
                note("request %d (opcode %d) refers to memory that is not alive", (int) op->seq, op->opcode);
                bad("kernel-buffer");
            }
            if (rt.slow_one_in && srnd(rt.slow_one_in) == 0) op->hold = rt.completions + 1 + srnd(srnd(2) ? 16 : 120);
            if (hooks.on_submit) hooks.on_submit(*op);
            if (!ok)
            {
                post_cqe(r, op->user_data, -EFAULT);
                delete op;
                continue;
            }
            if (s.opcode == IORING_OP_TIMEOUT_REMOVE || s.opcode == IORING_OP_ASYNC_CANCEL)
            {
                int res = -ENOENT;
                for (auto* o: r->pending)
                    if (o->user_data == s.addr && !o->cancelled && (s.opcode == IORING_OP_ASYNC_CANCEL || o->opcode == IORING_OP_TIMEOUT))
                    {
                        o->cancelled = true;
                        res = 0;
                        break;
                    }
                if (hooks.on_complete) hooks.on_complete(*op, res);
                post_cqe(r, op->user_data, res);
                delete op;
                continue;
            }
            r->pending.push_back(op);
        }
        return n;
    }
    static int fail_uring(const char* what)
    {
        if (!rt.running || !hooks.uring_fail) return 0;
        return hooks.uring_fail(what);
    }
}  // namespace ksim

extern "C" {
int io_uring_queue_init_params(unsigned entries, struct io_uring* ring, struct io_uring_params* p)
{
    InRt g;
    rt_point();
    if (int e = fail_uring("init")) return e;
    if (entries == 0 || entries > 32768) return -EINVAL;
    unsigned n = 1;
    while (n < entries) n *= 2;
    auto* r = new Ring;
    memset(ring, 0, sizeof *ring);
    r->r = ring;
    r->sqes.resize(n);
    r->cqes.resize((p->flags & IORING_SETUP_CQSIZE) ? p->cq_entries : 2 * n);
    r->arr.resize(n);
    r->setup_flags = (int) p->flags;
    ring->sq.khead = &r->khead;
    ring->sq.ktail = &r->ktail;
    ring->sq.kflags = &r->sqflags;
    ring->sq.kdropped = &r->dropped;
    ring->sq.array = r->arr.data();
    ring->sq.sqes = r->sqes.data();
    ring->sq.ring_mask = n - 1;
    ring->sq.ring_entries = n;
    ring->cq.khead = &r->cqhead;
    ring->cq.ktail = &r->cqtail;
    ring->cq.kflags = &r->cqflags;
    ring->cq.koverflow = &r->overflow_n;
    ring->cq.cqes = r->cqes.data();
    ring->cq.ring_mask = (unsigned) r->cqes.size() - 1;
    ring->cq.ring_entries = (unsigned) r->cqes.size();
    ring->flags = p->flags;
    p->features = IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_EXT_ARG | IORING_FEAT_SINGLE_MMAP;
    ring->features = p->features;
    ring->ring_fd = ring->enter_ring_fd = open_file(std::make_shared<RingFile>(), "ring");
    r->fd = ring->ring_fd;
    rg()[ring] = r;
    return 0;
}
int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned flags)
{
    io_uring_params p{};
    p.flags = flags;
    return io_uring_queue_init_params(entries, ring, &p);
}
void io_uring_queue_exit(struct io_uring* ring)
{
    InRt g;
    rt_point();
    auto it = rg().find(ring);
    if (it == rg().end())
    {
        // what liburing does here: unmap whatever the structure says and close its descriptor
        note("io_uring_queue_exit on a ring that was never initialised: closes descriptor %d", ring->ring_fd);
        close_fd(ring->ring_fd);
        return;
    }
    for (auto* op: it->second->pending) delete op;
    it->second->pending.clear();
    close_fd(it->second->fd);
    rg().erase(it);
}
int io_uring_submit(struct io_uring* ring)
{
    InRt g;
    rt_point();
    if (int e = fail_uring("submit")) return e;
    return submit_ring(ring);
}
static int wait_ring(io_uring* ring, unsigned nr, uint64_t deadline)
{
    auto it = rg().find(ring);
    if (it == rg().end()) return -EBADF;
    Ring* r = it->second;
    if (rt.running && r->owner >= 0 && r->owner != self() && (r->setup_flags & IORING_SETUP_SINGLE_ISSUER))
    {
        bad("wrong-issuer");
        return -EEXIST;
    }
    flush_overflow(r);
    if (nr == 0) return 0;
    if (!block_until([r, nr] { flush_overflow(r); return r->cq_count() >= nr; }, deadline)) return -ETIME;
    return 0;
}
int io_uring_submit_and_wait(struct io_uring* ring, unsigned nr)
{
    InRt g;
    rt_point();
    if (int e = fail_uring("submit_wait")) return e;
    int n = submit_ring(ring);
    if (n < 0) return n;
    int w = wait_ring(ring, nr, ~0ull);
    if (w < 0 && n == 0) return w;
    return n;
}
static uint64_t rel_deadline(struct __kernel_timespec* ts) { return ts ? rt.now + (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec : ~0ull; }
static int set_cqe(io_uring* ring, io_uring_cqe** c)
{
    auto it = rg().find(ring);
    if (it == rg().end()) return -EBADF;
    Ring* r = it->second;
    if (r->cq_count() == 0)
    {
        if (c) *c = nullptr;
        return -EAGAIN;
    }
    if (c) *c = &r->cqes[r->cqhead & (r->cqes.size() - 1)];
    return 0;
}
int io_uring_submit_and_wait_timeout(struct io_uring* ring, struct io_uring_cqe** cqe, unsigned nr, struct __kernel_timespec* ts, sigset_t*)
{
    InRt g;
    rt_point();
    if (int e = fail_uring("submit_wait")) return e;
    uint64_t d = rel_deadline(ts);
    int n = submit_ring(ring);
    if (n < 0) return n;
    int w = wait_ring(ring, nr, d);
    if (w < 0)
    {
        if (cqe) *cqe = nullptr;
        return w;
    }
    set_cqe(ring, cqe);
    return n;
}
int io_uring_wait_cqes(struct io_uring* ring, struct io_uring_cqe** cqe, unsigned nr, struct __kernel_timespec* ts, sigset_t*)
{
    InRt g;
    rt_point();
    if (int e = fail_uring("wait")) return e;
    if (ts) submit_ring(ring);
    int w = wait_ring(ring, nr, rel_deadline(ts));
    if (w < 0)
    {
        if (cqe) *cqe = nullptr;
        return w;
    }
    return set_cqe(ring, cqe);
}
int io_uring_wait_cqe_timeout(struct io_uring* ring, struct io_uring_cqe** cqe, struct __kernel_timespec* ts) { return io_uring_wait_cqes(ring, cqe, 1, ts, nullptr); }
int __io_uring_get_cqe(struct io_uring* ring, struct io_uring_cqe** cqe, unsigned submit, unsigned nr, sigset_t*)
{
    InRt g;
    rt_point();
    if (submit) submit_ring(ring);
    int w = wait_ring(ring, nr, ~0ull);
    if (w < 0) return w;
    return set_cqe(ring, cqe);
}
unsigned io_uring_peek_batch_cqe(struct io_uring* ring, struct io_uring_cqe** cqes, unsigned count)
{
    InRt g;
    auto it = rg().find(ring);
    if (it == rg().end()) return 0;
    Ring* r = it->second;
    flush_overflow(r);
    unsigned n = std::min(count, r->cq_count());
    for (unsigned i = 0; i < n; ++i) cqes[i] = &r->cqes[(r->cqhead + i) & (r->cqes.size() - 1)];
    return n;
}
int io_uring_get_events(struct io_uring* ring)
{
    InRt g;
    rt_point();
    auto it = rg().find(ring);
    if (it == rg().end()) return -EBADF;
    flush_overflow(it->second);
    return 0;
}
int io_uring_submit_and_get_events(struct io_uring* ring)
{
    int n = io_uring_submit(ring);
    io_uring_get_events(ring);
    return n;
}
int io_uring_register_iowq_aff(struct io_uring*, size_t, const cpu_set_t*) { return 0; }
int io_uring_register_iowq_max_workers(struct io_uring*, unsigned*) { return 0; }
int io_uring_register_ring_fd(struct io_uring*) { return 0; }
int io_uring_unregister_ring_fd(struct io_uring*) { return 0; }
int io_uring_register_eventfd(struct io_uring*, int) { return -EINVAL; }
int io_uring_register_buffers(struct io_uring*, const struct iovec*, unsigned) { return -EINVAL; }
int io_uring_register_files(struct io_uring*, const int*, unsigned) { return -EINVAL; }
int io_uring_enable_rings(struct io_uring*) { return 0; }
int __io_uring_sqring_wait(struct io_uring*) { return -EINVAL; }

// ============================================================================ plain system calls
static int inj(const char* call, int fd = -1)
{
    if (!rt.running || !hooks.fail) return 0;
    return hooks.fail(call, fd);
}
int eventfd(unsigned int n, int flags)
{
    InRt g;
    rt_point();
    if (int e = inj("eventfd"))
    {
        errno = e;
        return -1;
    }
    auto f = std::make_shared<EventFd>();
    f->n = n;
    f->sem = flags & EFD_SEMAPHORE;
    return (int) rete(open_file(f, "eventfd", flags & EFD_NONBLOCK ? O_NONBLOCK : 0));
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (!rt.running && !is_fake(fd)) return rete(raw(SYS_write, fd, (long) p, (long) n));
    InRt g;
    if (auto f = get_file(fd))
    {
        rt_point();
        if (int e = inj("write", fd))
        {
            errno = e;
            return -1;
        }
        f = get_file(fd);
        if (!f)
        {
            errno = EBADF;
            return -1;
        }
        if (!mem_ok(p, n)) bad("kernel-buffer");
        for (;;)
        {
            ssize_t r = f->write(p, n);
            if (r == -EAGAIN && !(tab()[fd - kFdBase].flags & O_NONBLOCK))
            {
                Op op{};
                op.opcode = IORING_OP_WRITE;
                block_until([&] { return f->ready(op); });
                continue;
            }
            return rete(r);
        }
    }
    if (is_fake(fd))
    {
        errno = EBADF;
        return -1;
    }
    return rete(raw(SYS_write, fd, (long) p, (long) n));
}
ssize_t read(int fd, void* p, size_t n)
{
    if (!rt.running && !is_fake(fd)) return rete(raw(SYS_read, fd, (long) p, (long) n));
    InRt g;
    if (auto f = get_file(fd))
    {
        rt_point();
        if (int e = inj("read", fd))
        {
            errno = e;
            return -1;
        }
        if (!mem_ok(p, n)) bad("kernel-buffer");
        for (;;)
        {
            ssize_t r = f->read(p, n);
            if (r == -EAGAIN && !(tab()[fd - kFdBase].flags & O_NONBLOCK))
            {
                Op op{};
                op.opcode = IORING_OP_READ;
                block_until([&] { return f->ready(op); });
                continue;
            }
            return rete(r);
        }
    }
    if (is_fake(fd))
    {
        errno = EBADF;
        return -1;
    }
    return rete(raw(SYS_read, fd, (long) p, (long) n));
}
int close(int fd)
{
    if (!rt.running && !is_fake(fd)) return (int) rete(raw(SYS_close, fd));
    InRt g;
    rt_point();
    int r = close_fd(fd);
    if (r == 0)
        if (int e = inj("close", fd)) r = -e;   // reported, but the descriptor is gone all the same
    return (int) rete(r);
}
static int do_open(int dfd, const char* path, int flags, mode_t mode)
{
    if (!rt.running || rt.in_rt) return (int) rete(raw(SYS_openat, dfd, (long) path, flags, mode));
    InRt g;
    rt_point();
    if (int e = inj("open"))
    {
        errno = e;
        return -1;
    }
    int fd = (int) raw(SYS_openat, dfd, (long) path, flags, mode);
    if (fd >= 0)
    {
        rfd()[fd] = 1;
        if (hooks.on_fd) hooks.on_fd(fd, "open");
    }
    return (int) rete(fd);
}
#define OPEN_BODY(dfd) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) \
    { \
        va_list ap; \
        va_start(ap, flags); \
        m = va_arg(ap, int); \
        va_end(ap); \
    } \
    return do_open(dfd, path, flags, m);
int open(const char* path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char* path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char* path, int flags, ...) { OPEN_BODY(d) }
int openat64(int d, const char* path, int flags, ...) { OPEN_BODY(d) }

int pipe2(int* fd, int flags)
{
    InRt g;
    rt_point();
    if (int e = inj("pipe"))
    {
        errno = e;
        return -1;
    }
    auto b = std::make_shared<PipeBuf>();
    auto r = std::make_shared<PipeEnd>();
    auto w = std::make_shared<PipeEnd>();
    r->b = w->b = b;
    r->wr = false;
    w->wr = true;
    fd[0] = open_file(r, "pipe", flags);
    fd[1] = open_file(w, "pipe", flags);
    return 0;
}
int pipe(int* fd) { return pipe2(fd, 0); }
struct PlainSock : Stream
{
    const char* name() const override { return "socket"; }
};
int socket(int domain, int type, int proto)
{
    if (!rt.running) return (int) rete(raw(SYS_socket, domain, type, proto));
    InRt g;
    rt_point();
    if (int e = inj("socket"))
    {
        errno = e;
        return -1;
    }
    auto sock = std::make_shared<PlainSock>();
    sock->kind = domain;
    return (int) rete(open_file(sock, "socket", type & SOCK_NONBLOCK ? O_NONBLOCK : 0));
}
static int simple_fd_call(const char* what, int fd, const void* arg = nullptr, long n = 0, long m = 0)
{
    InRt g;
    rt_point();
    int e = inj(what, fd);
    if (!e && !get_file(fd)) e = EBADF;
    if (!e && arg && !strcmp(what, "bind"))
        if (int k = get_file(fd)->kind; k && k != ((const sockaddr*) arg)->sa_family) e = EAFNOSUPPORT;
    if (rt.running && hooks.on_call) hooks.on_call(what, fd, arg, n, m, e);
    if (!e) return 0;
    errno = e;
    return -1;
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return !is_fake(fd) && !rt.running ? (int) rete(raw(SYS_setsockopt, fd, l, o, (long) v, n)) : simple_fd_call("setsockopt", fd, v, l, o); }
int getsockopt(int fd, int, int, void* v, socklen_t* n)
{
    if (v && n && *n >= 4) *(int*) v = 0;
    return simple_fd_call("getsockopt", fd);
}
int bind(int fd, const struct sockaddr* a, socklen_t n) { return simple_fd_call("bind", fd, a, (long) n); }
int listen(int fd, int n) { return simple_fd_call("listen", fd, nullptr, n); }
int shutdown(int fd, int) { return simple_fd_call("shutdown", fd); }
int connect(int fd, const struct sockaddr*, socklen_t) { return simple_fd_call("connect", fd); }
static int do_fcntl(int fd, int cmd, long arg)
{
    if (!is_fake(fd)) return (int) rete(raw(SYS_fcntl, fd, cmd, arg));
    int r = simple_fd_call("fcntl", fd, nullptr, cmd, arg);
    if (r < 0) return r;
    auto& e = tab()[fd - kFdBase];
    if (cmd == F_GETFL) return e.flags | O_RDWR;
    if (cmd == F_SETFL) e.flags = (int) arg;
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}

// ============================================================================ time
static int vclock(clockid_t c, timespec* t)
{
    int64_t v = (int64_t) rt.now;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += wall_offset_ns;
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!rt.running) return (int) rete(raw(SYS_clock_gettime, c, (long) t));
    return vclock(c, t);
}
int gettimeofday(struct timeval* tv, void*)
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o)
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
static int vsleep(uint64_t until)
{
    InRt g;
    block_until([] { return false; }, until);
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec*)
{
    if (!rt.running) return (int) rete(raw(SYS_nanosleep, (long) r, 0));
    return vsleep(rt.now + (uint64_t) r->tv_sec * 1000000000ull + (uint64_t) r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*)
{
    if (!rt.running) return (int) -raw(SYS_clock_nanosleep, c, flags, (long) r, 0);
    uint64_t v = (uint64_t) r->tv_sec * 1000000000ull + (uint64_t) r->tv_nsec;
    if (flags & TIMER_ABSTIME)
    {
        if (c == CLOCK_REALTIME) v -= (uint64_t) wall_offset_ns;
    }
    else v += rt.now;
    return vsleep(v);
}
int usleep(useconds_t u)
{
    timespec t{u / 1000000, (long) (u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec t{s, 0};
    return (unsigned) nanosleep(&t, nullptr);
}
int sched_yield()
{
    if (rt.running && !rt.in_rt) point();
    return 0;
}

// ============================================================================ threads
constexpr uint64_t kTidBase = 0x7000;
pthread_t pthread_self()
{
    if (!rt.running) return kTidBase;
    return kTidBase + (uint64_t) rt.cur->id;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    InRt g;
    if (!rt.running)
    {
        fprintf(stderr, "ksim: thread created outside of a run\n");
        abort();
    }
    rt_point();
    if (int e = inj("thread")) return e;
    Fiber* f = new_fiber([fn, arg] { fn(arg); }, "thread");
    *t = kTidBase + (uint64_t) f->id;
    rt_point();
    return 0;
}
int pthread_join(pthread_t t, void**)
{
    InRt g;
    int id = (int) (t - kTidBase);
    if (id < 0 || id >= (int) rt.fibers.size()) return ESRCH;
    join(id);
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }

struct Mx
{
    int owner = -1;
    int depth = 0;
    int readers = 0;
    VC vc;
};
static std::unordered_map<void*, Mx>* mxs;
static Mx& mx(void* m)
{
    if (!mxs) mxs = new std::unordered_map<void*, Mx>;
    return (*mxs)[m];
}
static bool off() { return !rt.running || rt.in_rt || rt.cur->quiet; }
static int lock_until(void* m, uint64_t deadline, bool rec)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    Mx& x = mx(m);
    if (x.owner == self() && rec)
    {
        x.depth++;
        return 0;
    }
    if (x.owner != -1 || x.readers)
    {
        if (!block_until([&x] { return x.owner == -1 && !x.readers; }, deadline)) return ETIMEDOUT;
    }
    x.owner = self();
    x.depth = 1;
    hb_acquire(x.vc);
    return 0;
}
static int unlock(void* m)
{
    if (off()) return 0;
    InRt g;
    Mx& x = mx(m);
    if (x.owner == self())
    {
        if (--x.depth == 0)
        {
            x.owner = -1;
            hb_release(x.vc);
        }
    }
    else if (x.readers)
    {
        x.readers--;
        hb_release(x.vc);
    }
    else bad("bad-unlock");
    rt_point();
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_until(m, ~0ull, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    Mx& x = mx(m);
    if (x.owner != -1 || x.readers) return EBUSY;
    x.owner = self();
    x.depth = 1;
    hb_acquire(x.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!off())
    {
        InRt g;
        if (mxs && mxs->count(m))
        {
            if (mx(m).owner != -1) bad("mutex-destroyed-locked");
            mxs->erase(m);
        }
    }
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_until(m, ~0ull, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    Mx& x = mx(m);
    if (x.owner != -1) block_until([&x] { return x.owner == -1; });
    x.readers++;
    hb_acquire(x.vc);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return pthread_mutex_trylock((pthread_mutex_t*) m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    Mx& x = mx(m);
    if (x.owner != -1) return EBUSY;
    x.readers++;
    hb_acquire(x.vc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock(m); }
int pthread_rwlock_destroy(pthread_rwlock_t* m)
{
    if (!off())
    {
        InRt g;
        if (mxs) mxs->erase(m);
    }
    return 0;
}
struct Cv
{
    std::vector<std::pair<int, bool*>> waiters;
};
static std::unordered_map<void*, Cv>* cvs;
static Cv& cv(void* c)
{
    if (!cvs) cvs = new std::unordered_map<void*, Cv>;
    return (*cvs)[c];
}
static int cond_wait(void* c, void* m, uint64_t deadline)
{
    InRt g;
    rt_point();
    bool woken = false;
    cv(c).waiters.push_back({self(), &woken});
    Mx& x = mx(m);
    x.owner = -1;
    x.depth = 0;
    hb_release(x.vc);
    bool ok = block_until([&woken] { return woken; }, deadline);
    if (!ok)
    {
        auto& w = cv(c).waiters;
        for (size_t i = 0; i < w.size(); ++i)
            if (w[i].second == &woken)
            {
                w.erase(w.begin() + (long) i);
                break;
            }
    }
    block_until([&x] { return x.owner == -1 && !x.readers; });
    x.owner = self();
    x.depth = 1;
    hb_acquire(x.vc);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec - (uint64_t) wall_offset_ns); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cond_wait(c, m, (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec - (k == CLOCK_REALTIME ? (uint64_t) wall_offset_ns : 0)); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    auto& w = cv(c).waiters;
    if (!w.empty())
    {
        size_t i = choose(w.size());
        *w[i].second = true;
        w.erase(w.begin() + (long) i);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (off()) return 0;
    InRt g;
    rt_point();
    for (auto& w: cv(c).waiters) *w.second = true;
    cv(c).waiters.clear();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (*(int*) o == 2) return 0;
    *(int*) o = 2;
    fn();
    return 0;
}

// function-local statics
struct Guard { int st = 0; VC vc; };
static std::unordered_map<void*, Guard>* guards;
int __cxa_guard_acquire(uint64_t* g)
{
    if (*(char*) g)
    {
        if (rt.running && !rt.in_rt && guards)
        {
            InRt q;
            auto it = guards->find(g);
            if (it != guards->end()) hb_acquire(it->second.vc);
        }
        return 0;
    }
    InRt q;
    if (!guards) guards = new std::unordered_map<void*, Guard>;
    Guard& x = (*guards)[g];
    if (x.st == 1 && rt.running)
    {
        block_until([&x] { return x.st != 1; });
        if (x.st == 2)
        {
            hb_acquire(x.vc);
            return 0;
        }
    }
    x.st = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    InRt q;
    Guard& x = (*guards)[g];
    x.st = 2;
    *(char*) g = 1;
    if (rt.running) hb_release(x.vc);
}
void __cxa_guard_abort(uint64_t* g)
{
    InRt q;
    (*guards)[g].st = 0;
}

// emulated thread-local storage (-femulated-tls)
struct EmutlsCtl { size_t size, align; void* idx; void* templ; };
static std::map<void*, void*>* tls0;
void* __emutls_get_address(EmutlsCtl* c)
{
    InRt g;
    if (!tls0) tls0 = new std::map<void*, void*>;
    auto& m = rt.cur ? rt.cur->tls : *tls0;
    void*& p = m[c];
    if (!p)
    {
        p = aligned_alloc(std::max<size_t>(c->align, 16), (c->size + 63) & ~63ull);
        if (c->templ) memcpy(p, c->templ, c->size);
        else memset(p, 0, c->size);
    }
    return p;
}
int __cxa_thread_atexit(void (*d)(void*), void* o, void*)
{
    InRt g;
    if (rt.cur) rt.cur->atexit.push_back({d, o});
    return 0;
}

// ============================================================================ syscall(2): futex, gettid
struct Fw { uintptr_t addr; bool* woken; };
static std::vector<Fw>* fws;
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!rt.running) return rete(raw(n, a, b, c, d, e, f));
    if (n == SYS_gettid) return 7000 + self();
    if (n == SYS_futex)
    {
        InRt g;
        if (!fws) fws = new std::vector<Fw>;
        int op = (int) b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            rt_point();
            if (*(volatile int*) a != (int) c)
            {
                errno = EAGAIN;
                return -1;
            }
            uint64_t dl = ~0ull;
            if (d)
            {
                auto* t = (timespec*) d;
                dl = (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec;
                if (op == FUTEX_WAIT) dl += rt.now;
                else if (b & FUTEX_CLOCK_REALTIME) dl -= (uint64_t) wall_offset_ns;
            }
            bool woken = false;
            fws->push_back({(uintptr_t) a, &woken});
            if (!block_until([&woken] { return woken; }, dl))
            {
                for (size_t i = 0; i < fws->size(); ++i)
                    if ((*fws)[i].woken == &woken)
                    {
                        fws->erase(fws->begin() + (long) i);
                        break;
                    }
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            rt_point();
            long k = 0;
            for (size_t i = 0; i < fws->size() && k < c;)
            {
                if ((*fws)[i].addr == (uintptr_t) a)
                {
                    *(*fws)[i].woken = true;
                    fws->erase(fws->begin() + (long) i);
                    k++;
                }
                else ++i;
            }
            return k;
        }
    }
    return rete(raw(n, a, b, c, d, e, f));
}
}
