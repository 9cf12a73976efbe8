// C05: single-shot calls; histories for spec/RequestTrace.tla
#include "wk.h"
#include <poll.h>
#include <sys/stat.h>
using namespace wk;
namespace
{
    W* w;
    const char* kinds[] = {"accept", "acceptS", "read", "read_at", "write", "write_at", "readv", "writev", "connect", "open", "close", "fsync", "fdatasync",
                           "fallocate", "truncate", "unlink", "poll", "sendmsg", "sleep"};
    constexpr int NK = 19;
    struct Args
    {
        int x, k, fd = 0, fl = 0;
        uint64_t len = 0, off = 0;
        net::SocketAddress* sa = nullptr;
        char *p = nullptr, *p2 = nullptr;
        std::string path;
    };
    bool ours(ksim::Op& op) { return op.user_data < (1u << 20); }
    std::map<uint64_t, std::pair<const char*, std::string>> pinned;   // op seq -> what the request points to
    std::string u64(uint64_t v) { return "\"" + std::to_string(v) + "\""; }
    const int errnos[] = {EPERM, ENOENT, ESRCH, EINTR, EIO, ENXIO, E2BIG, EBADF, ECHILD, EAGAIN, ENOMEM, EACCES, EFAULT, EBUSY, EEXIST, EXDEV, ENODEV, ENOTDIR, EISDIR, EINVAL,
                          ENFILE, EMFILE, ENOTTY, ETXTBSY, EFBIG, ENOSPC, ESPIPE, EROFS, EMLINK, EPIPE, EDEADLK, ENAMETOOLONG, ENOLCK, ENOSYS, ENOTEMPTY, ELOOP, EPROTO, EOVERFLOW,
                          ENOTSOCK, EDESTADDRREQ, EMSGSIZE, EPROTOTYPE, EPROTONOSUPPORT, EOPNOTSUPP, EAFNOSUPPORT, EADDRINUSE, EADDRNOTAVAIL, ENETDOWN, ENETUNREACH, ENETRESET,
                          ECONNABORTED, ECONNRESET, ENOBUFS, EISCONN, ENOTCONN, ETIMEDOUT, ECONNREFUSED, EHOSTDOWN, EHOSTUNREACH, EALREADY, EINPROGRESS, ESTALE, EDQUOT, ECANCELED,
                          EOWNERDEAD, ENOTRECOVERABLE, ETIME};
    void hooks()
    {
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            if (!ours(op)) return;
            std::string path = op.opcode == IORING_OP_OPENAT || op.opcode == IORING_OP_UNLINKAT ? op.path : "";
            std::string s = "{\"op\":" + std::to_string(op.opcode) + ",\"fd\":" + std::to_string(op.fd) + ",\"addr\":" + u64(op.addr) + ",\"len\":" + u64(op.len) + ",\"off\":" +
                            u64(op.off) + ",\"fl\":" + std::to_string((int) op.op_flags) + ",\"path\":" + ksim::jstr(path) + ",\"dur\":" + u64((uint64_t) op.duration) + "}";
            ksim::ev("\"e\":\"sub\",\"u\":\"%llu\",\"s\":%s", (unsigned long long) op.seq, s.c_str());
            if (!path.empty()) pinned[op.seq] = {(const char*) op.addr, path};
            if (op.opcode == IORING_OP_TIMEOUT) pinned[op.seq] = {(const char*) op.addr, std::string((const char*) op.addr, sizeof(__kernel_timespec))};
        };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (!ours(op)) return false;
            uint64_t c = ksim::choose(5);
            if (op.opcode == IORING_OP_TIMEOUT) { res = c < 3 ? -ETIME : c == 3 ? -ECANCELED : c == 4 ? 0 : -EINVAL; return true; }
            if (c < 2) { res = -errnos[ksim::choose(sizeof errnos / sizeof *errnos)]; return true; }
            int top = (int[]){0, 1, 7, 1000, 0x7ffff000}[ksim::choose(5)];
            if ((op.opcode == IORING_OP_READ || op.opcode == IORING_OP_WRITE) && (uint32_t) top > op.len) top = (int) op.len;
            res = top;
            return true;
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            if (!ours(op)) return;
            int alive = 1;
            if (auto it = pinned.find(op.seq); it != pinned.end())
                alive = ksim::mem_ok(it->second.first, it->second.second.size()) && std::string(it->second.first, it->second.second.size()) == it->second.second;
            ksim::ev("\"e\":\"comp\",\"u\":\"%llu\",\"r\":%d,\"alive\":%d", (unsigned long long) op.seq, res, alive);
        };
    }
    std::string pair(uint64_t v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]"; }
    // the arguments given by value are gone once the task exists
    Task<Result<int>> lazy_open(Worker& k, const Args& a) { std::filesystem::path p = a.path; return k.async_openat(p, a.fl, (mode_t) a.len); }
    Task<Result<void>> lazy_unlink(Worker& k, const Args& a) { std::filesystem::path p = a.path; return k.async_unlink_at(a.fd, p, a.fl); }
    Task<Result<int>> lazy_read(Worker& k, const Args& a)
    {
        std::span<char> s{a.p, a.len};
        return a.k == 2 ? k.async_read(a.fd, s) : k.async_read_at(a.fd, s, a.off);
    }
    Task<Result<int>> lazy_write(Worker& k, const Args& a)
    {
        std::span<const char> s{a.p, a.len};
        return a.k == 4 ? k.async_write(a.fd, s) : k.async_write_at(a.fd, s, a.off);
    }
    template<class T> void done(int x, const Result<T>& r)
    {
        auto& st = (*w)->get_stats();
        int v = 0;
        if constexpr (!std::is_void_v<T>) v = r.has_value() ? (int) *r : 0;
        ksim::ev("\"e\":\"ret\",\"x\":%d,\"ok\":%d,\"v\":%d,\"code\":%d,\"cat\":%d,\"tot\":{\"br\":%s,\"bw\":%s,\"rd\":%d,\"wr\":%d,\"ac\":%d,\"op\":%d,\"co\":%d}", x, (int) r.has_value(), v,
                 r.has_value() ? 0 : r.error().value, r.has_value() ? 0 : (int) r.error().category, pair(st.bytes_read_total).c_str(), pair(st.bytes_written_total).c_str(),
                 (int) st.read_ops_total, (int) st.write_ops_total, (int) st.connections_accepted_total, (int) st.open_ops_total, (int) st.connect_ops_total);
    }
    DetachedTask calls(std::vector<Args> as)
    {
        co_await SwitchToWorker(**w);
        Worker& k = **w;
        for (auto& a: as)
        {
            std::string c = "{\"k\":\"" + std::string(kinds[a.k]) + "\",\"fd\":" + std::to_string(a.fd) + ",\"fl\":" + std::to_string(a.fl) + ",\"len\":" + u64(a.len) + ",\"off\":" + u64(a.off) +
                            ",\"p\":" + u64((uint64_t) a.p) + ",\"p2\":" + u64((uint64_t) a.p2) + ",\"path\":" + ksim::jstr(a.path) + "}";
            ksim::ev("\"e\":\"call\",\"x\":%d,\"c\":%s", a.x, c.c_str());
            switch (a.k)
            {
                case 0: done(a.x, co_await k.async_accept(a.fd, (sockaddr*) a.p, (socklen_t*) a.p2)); break;
                case 1: { net::Socket s(a.fd); auto r = co_await k.async_accept(s, *a.sa); (void) s.release(); done(a.x, r); break; }
                case 2: case 3: done(a.x, co_await lazy_read(k, a)); break;
                case 4: case 5: done(a.x, co_await lazy_write(k, a)); break;
                case 6: done(a.x, co_await k.async_readv(a.fd, (iovec*) a.p, (int) a.len, a.off)); break;
                case 7: done(a.x, co_await k.async_writev(a.fd, (iovec*) a.p, (int) a.len, a.off)); break;
                case 8: done(a.x, co_await k.async_connect(a.fd, (sockaddr*) a.p, (socklen_t) a.len)); break;
                case 9: done(a.x, co_await lazy_open(k, a)); break;
                case 10: done(a.x, co_await k.async_close(a.fd)); break;
                case 11: done(a.x, co_await k.async_fsync(a.fd)); break;
                case 12: done(a.x, co_await k.async_fdatasync(a.fd)); break;
                case 13: done(a.x, co_await k.async_fallocate(a.fd, (int) a.len, (off_t) a.off)); break;
                case 14: done(a.x, co_await k.async_ftruncate(a.fd, (off_t) a.off)); break;
                case 15: done(a.x, co_await lazy_unlink(k, a)); break;
                case 16: done(a.x, co_await k.async_poll(a.fd, a.fl)); break;
                case 17: done(a.x, co_await k.async_sendmsg(a.fd, (msghdr*) a.p, a.fl)); break;
                default: done(a.x, co_await k.async_sleep(std::chrono::nanoseconds(a.off))); break;
            }
        }
    }
    char block[4096];
    Args make(int x)
    {
        Args a;
        a.x = x;
        a.k = (int) R(NK);
        a.fd = (int[]){0, 3, 77, 999, 70000, 1 << 20, 2147483647, -1}[R(8)];
        uint64_t offs[] = {0, 1, 4095, 4096, (1ull << 31) - 1, 1ull << 31, 1ull << 32, (1ull << 32) + 5, 1ull << 40, (1ull << 62) + 12345};
        uint64_t lens[] = {0, 1, 2, 511, 4096, 65536, 1u << 20, 0x7fffefff, 0x7ffff000};
        char* ptr = (char*) (0x200000000000ull + 64 * R(1000));
        a.p = ptr;
        a.off = offs[R(10)];
        switch (a.k)
        {
            case 0: a.p = R(4) ? ptr : nullptr; a.p2 = R(4) ? ptr + 128 : nullptr; a.off = 0; break;
            case 1: { if (a.fd < 0) a.fd = 5; auto* s = new net::SocketAddress(); a.p = (char*) &s->addr; a.p2 = (char*) &s->addrlen; a.sa = s; a.off = 0; break; }
            case 2: case 4: a.len = lens[R(9)]; a.off = 0; break;
            case 3: case 5: a.len = lens[R(9)]; break;
            case 6: case 7: a.len = 1 + R(5); break;
            case 8: a.len = (uint64_t[]){16, 28, 2, 110, 128}[R(5)]; a.off = 0; break;
            case 9: a.path = (const char*[]){"a", "/tmp/x y", "rel/ative/very-long-name-that-does-not-fit-any-small-string", "/a\"b", "caf\xc3\xa9"}[R(5)];
                    a.fl = (int[]){O_RDONLY, O_RDWR | O_CREAT, O_WRONLY | O_TRUNC | O_APPEND, O_CREAT | O_EXCL | O_CLOEXEC | O_DIRECTORY}[R(4)];
                    a.len = (uint64_t[]){0, 0644, 0600, 07777}[R(4)]; a.off = 0; break;
            case 13: a.len = (uint64_t[]){0, 1, 3, 16}[R(4)]; break;
            case 15: a.path = (const char*[]){"f", "/no/such/dir/and/a/rather/long/name/of/a/file/0123456789", "d r"}[R(3)]; a.fl = R(2) ? AT_REMOVEDIR : 0; a.fd = R(2) ? AT_FDCWD : a.fd; break;
            case 16: a.fl = (int[]){POLLIN, POLLOUT, POLLIN | POLLOUT, POLLIN | POLLRDHUP, POLLPRI}[R(5)]; break;
            case 17: { static msghdr mh; a.p = (char*) &mh; a.fl = (int[]){0, 0x4000, 0x40, 0x4040}[R(4)]; break; }
            case 18: a.off = (uint64_t[]){0, 1, 999999999, 1000000000, 1000000001, 3600ull * 1000000000 + 7, 86400ull * 365 * 1000000000}[R(7)]; break;
            default: break;
        }
        return a;
    }
    void scenario(int nco, int len)
    {
        quiet_log();
        pinned.clear();
        hooks();
        W ww(0, cfg(64, 16, 1024, 64));
        w = &ww;
        ksim::ev("\"e\":\"init\"");
        ww.start();
        std::vector<std::vector<Args>> all;
        int n = 1 + (int) R((size_t) nco), x = 0;
        for (int j = 0; j < n; ++j)
        {
            std::vector<Args> as;
            for (int l = 1 + (int) R((size_t) len); l > 0; --l) as.push_back(make(++x));
            all.push_back(as);
        }
        for (auto& as: all) calls(as).detach();
        ksim::quiesce(true);
        ksim::ev("\"e\":\"quiet\"");
        ww.stop();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"single", [] { scenario(1, 1); }, 5},
        {"seq", [] { scenario(1, 8); }, 4},
        {"many", [] { scenario(5, 5); }, 4},
    });
}
