// C15: descriptor ownership; histories for spec/FdTrace.tla
#include "wk.h"
#include "bitcask/include/file_handle.h"
#include "kio/core/worker_pool.h"
#include "kio/fs/fs.h"
#include "kio/net/net.h"
#include "kio/net/socket.h"
#include <filesystem>
#include <optional>
#include <sys/syscall.h>
using namespace wk;
namespace fs = std::filesystem;
namespace
{
    // one face for the four kinds of owner
    IOPool* pool;
    struct PoolRef {};
    template<class T> struct A;
    template<> struct A<net::Socket>
    {
        static constexpr bool assigns = true, resets = false, releases = true, empties = true;
        static net::Socket make(int fd) { return fd < 0 && R(2) ? net::Socket() : net::Socket(fd); }
        static int get(const net::Socket& s)
        {
            if (s.is_valid() != (s.get() >= 0) || (bool) s != s.is_valid()) ksim::bad("is_valid disagrees");
            return s.get();
        }
        static int release(net::Socket& s) { return s.release(); }
        static void reset(net::Socket&, int) {}
    };
    template<> struct A<net::FDGuard>
    {
        static constexpr bool assigns = false, resets = false, releases = false, empties = true;
        static net::FDGuard make(int fd) { return net::FDGuard(fd); }
        static int get(const net::FDGuard& s) { return s.get(); }
        static int release(net::FDGuard&) { return -1; }
        static void reset(net::FDGuard&, int) {}
    };
    template<> struct A<bitcask::FileHandle>
    {
        static constexpr bool assigns = true, resets = true, releases = true, empties = true;
        static bitcask::FileHandle make(int fd) { return fd < 0 && R(2) ? bitcask::FileHandle() : bitcask::FileHandle(fd); }
        static int get(const bitcask::FileHandle& s)
        {
            if (s.is_valid() != (s.get() >= 0)) ksim::bad("is_valid disagrees");
            return s.get();
        }
        static int release(bitcask::FileHandle& s) { return s.release(); }
        static void reset(bitcask::FileHandle& s, int fd) { if (fd < 0 && R(2)) s.reset(); else s.reset(fd); }
    };
    template<> struct A<File>
    {
        static constexpr bool assigns = true, resets = false, releases = false, empties = false;
        static File make(int fd) { return File(fd, *pool, 0); }
        static int get(const File& s) { return s.fd(); }
        static int release(File&) { return -1; }
        static void reset(File&, int) {}
    };
    const char* lastcall;
    void hooks()
    {
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            std::string w = what;
            if (w == "badclose") { ksim::bad("badclose"); return; }
            if (w == "ringexit") return;
            ksim::ev("\"e\":\"%s\",\"fd\":%d", w == "close" ? "closed" : "opened", fd);
        };
        ksim::hooks.on_call = [](const char* n, int fd, const void* a, long x, long m, int err)
        {
            std::string addr;
            if (!strcmp(n, "bind"))
            {
                net::SocketAddress s;
                memcpy(&s.addr, a, (size_t) x);
                s.addrlen = (socklen_t) x;
                const sockaddr* sa = (const sockaddr*) a;
                char buf[64] = "";
                int port = -1;
                if (sa->sa_family == AF_INET && x == sizeof(sockaddr_in)) { inet_ntop(AF_INET, &((const sockaddr_in*) a)->sin_addr, buf, 64); port = ntohs(((const sockaddr_in*) a)->sin_port); }
                if (sa->sa_family == AF_INET6 && x == sizeof(sockaddr_in6)) { inet_ntop(AF_INET6, &((const sockaddr_in6*) a)->sin6_addr, buf, 64); port = ntohs(((const sockaddr_in6*) a)->sin6_port); }
                addr = std::string(buf) + " " + std::to_string(port);
            }
            ksim::ev("\"e\":\"sys\",\"c\":{\"n\":\"%s\",\"fd\":%d,\"err\":%d,\"arg\":%d,\"addr\":\"%s\"}", n, fd, err, (int) x, addr.c_str());
        };
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            switch (op.opcode)
            {
                case IORING_OP_SPLICE:
                    ksim::ev("\"e\":\"use\",\"fd\":%d", op.splice_fd_in);
                    [[fallthrough]];
                case IORING_OP_READ: case IORING_OP_WRITE: case IORING_OP_RECV: case IORING_OP_SEND: case IORING_OP_ACCEPT: case IORING_OP_POLL_ADD:
                    ksim::ev("\"e\":\"use\",\"fd\":%d", op.fd);
                    break;
                default: break;
            }
        };
    }
    void fail_close(const char* call, int& e)
    {
        if (!strcmp(call, "close") && !ksim::choose(6)) e = ksim::choose(2) ? EINTR : EIO;
    }
    template<class T> struct Owners
    {
        std::optional<T> s[4];
        std::vector<int> user;
        void end(int v)
        {
            std::string g;
            for (int k = 0; k < 4; ++k) if (s[k]) g += (g.empty() ? "" : ",") + ("{\"k\":" + std::to_string(k + 1)) + ",\"fd\":" + std::to_string(A<T>::get(*s[k])) + "}";
            ksim::ev("\"e\":\"end\",\"g\":[%s],\"r\":{\"ok\":1,\"v\":%d,\"code\":0}", g.c_str(), v);
        }
        void op(const char* n, int k, int j, int fd) { ksim::ev("\"e\":\"op\",\"c\":{\"n\":\"%s\",\"k\":%d,\"j\":%d,\"fd\":%d}", n, k + 1, j + 1, fd); }
        int take()
        {
            if (user.empty()) return -1;
            size_t x = R(user.size());
            int fd = user[x];
            user.erase(user.begin() + (long) x);
            return fd;
        }
        void step()
        {
            int k = (int) R(4), j = (int) R(4);
            int what = (int) R(12);
            if (what > 8) what = what == 11 ? 7 : 4;
            if (what == 0)
            {
                if (user.size() > 3) return;
                op("open", 0, 0, 0);
                int fd = ::open("/dev/null", O_RDONLY);
                end(0);
                user.push_back(fd);
            }
            else if (what == 1 && !user.empty())
            {
                int fd = take();
                op("uclose", 0, 0, fd);
                ::close(fd);
                end(0);
            }
            else if (what == 2 && !s[k])
            {
                if (user.empty() && !A<T>::empties) return;
                int fd = A<T>::empties && !R(6) ? -1 : take();
                if (fd < 0 && !A<T>::empties) return;
                op("new", k, 0, fd);
                s[k].emplace(A<T>::make(fd));
                end(0);
            }
            else if (what == 3 && !s[k] && s[j] && k != j)
            {
                op("movenew", k, j, 0);
                s[k].emplace(std::move(*s[j]));
                end(0);
            }
            else if (what == 4 && s[k] && s[j])
            {
                if constexpr (A<T>::assigns)
                {
                    op("assign", k, j, 0);
                    T& r = *s[k] = std::move(*s[j]);
                    if (&r != &*s[k]) ksim::bad("assignment returns another object");
                    end(0);
                }
            }
            else if (what == 5 && s[k] && s[j])
            {
                if constexpr (A<T>::assigns)
                {
                    op("swap", k, j, 0);
                    std::swap(*s[k], *s[j]);
                    end(0);
                }
            }
            else if (what == 6)
            {
                op("grow", 0, 0, 0);
                std::vector<T> v;
                for (auto& o: s) if (o) v.push_back(std::move(*o));
                if constexpr (A<T>::assigns)
                {
                    size_t x = 0;
                    for (auto& o: s) if (o) *o = std::move(v[x++]);
                }
                else
                {
                    size_t x = 0;
                    for (auto& o: s) if (o) { o.reset(); o.emplace(std::move(v[x++])); }
                }
                v.clear();
                end(0);
            }
            else if (what == 7 && s[k])
            {
                if (A<T>::releases && R(2))
                {
                    op("release", k, 0, 0);
                    int fd = A<T>::release(*s[k]);
                    end(fd);
                    if (fd >= 0) user.push_back(fd);
                }
                else if (A<T>::resets)
                {
                    int fd = R(3) ? take() : -1;
                    op("reset", k, 0, fd);
                    A<T>::reset(*s[k], fd);
                    end(0);
                }
                else if constexpr (std::is_same_v<T, File>)
                {
                    op("reset", k, 0, -1);
                    s[k]->close();
                    end(0);
                }
            }
            else if (what == 8 && s[k])
            {
                op("destroy", k, 0, 0);
                s[k].reset();
                end(0);
            }
        }
        void go(int len)
        {
            for (int n = 4 + (int) R((size_t) len); n > 0; --n) step();
            for (int k = 0; k < 4; ++k)
                if (s[k])
                {
                    op("destroy", k, 0, 0);
                    s[k].reset();
                    end(0);
                }
            while (!user.empty())
            {
                int fd = take();
                op("uclose", 0, 0, fd);
                ::close(fd);
                end(0);
            }
        }
    };
    void owners()
    {
        quiet_log();
        std::optional<IOPool> p;
        int kind = (int) R(4);
        if (kind == 3) { p.emplace(1, cfg(4, 4, 16, 16)); pool = &*p; }
        if (R(2)) syscall(SYS_close, 0);       // so that descriptor 0 can be owned, too
        hooks();
        ksim::hooks.fail = [](const char* call, int) { int e = 0; fail_close(call, e); return e; };
        ksim::ev("\"e\":\"init\"");
        if (kind == 0) Owners<net::Socket>{}.go(30);
        else if (kind == 1) Owners<net::FDGuard>{}.go(30);
        else if (kind == 2) Owners<bitcask::FileHandle>{}.go(30);
        else Owners<File>{}.go(30);
        ksim::ev("\"e\":\"quiet\"");
        ksim::hooks = {};
        if (p) p->stop();
    }
    // socket set-up with a failure at every step
    void sockets()
    {
        quiet_log();
        hooks();
        static const char* calls[] = {"socket", "setsockopt", "bind", "fcntl", "listen"};
        static const int errs[] = {EADDRINUSE, EACCES, ENOBUFS, EMFILE, EINVAL};
        int at = (int) R(6), nth = (int) R(3), err = errs[R(5)], seen = 0;
        ksim::hooks.fail = [&](const char* call, int)
        {
            int e = 0;
            fail_close(call, e);
            if (at < 5 && !strcmp(call, calls[at]) && seen++ == nth)
            {
                e = err;
                if (at == 0) ksim::ev("\"e\":\"sys\",\"c\":{\"n\":\"socket\",\"fd\":-1,\"err\":%d,\"arg\":0,\"addr\":\"\"}", err);
            }
            return e;
        };
        ksim::ev("\"e\":\"init\"");
        std::vector<int> user;
        for (int n = 1 + (int) R(4); n > 0; --n)
        {
            Result<int> r = 0;
            if (R(2))
            {
                struct { const char* ip; const char* shown; } ips[] = {{"127.0.0.1", "127.0.0.1"}, {"0.0.0.0", "0.0.0.0"}, {"::1", "::1"}, {"10.1.2.3", "10.1.2.3"}};
                auto ip = ips[R(4)];
                int port = (int[]){0, 80, 8080, 65535}[R(4)], backlog = (int[]){1, 5, 128}[R(3)];
                ksim::ev("\"e\":\"op\",\"c\":{\"n\":\"server\",\"addr\":\"%s %d\",\"backlog\":%d}", ip.shown, port, backlog);
                r = net::create_tcp_server_socket(ip.ip, (uint16_t) port, backlog);
            }
            else
            {
                ksim::ev("\"e\":\"op\",\"c\":{\"n\":\"tcpfd\"}");
                r = R(2) ? net::create_tcp_fd(AF_INET) : net::create_raw_socket(AF_INET6);
                if (r && R(2)) (void) net::set_tcp_fd_options(*r);
            }
            ksim::ev("\"e\":\"end\",\"g\":[],\"r\":{\"ok\":%d,\"v\":%d,\"code\":%d}", (int) r.has_value(), r ? *r : 0, r ? 0 : r.error().value);
            if (r) user.push_back(*r);
        }
        for (int fd: user)
        {
            ksim::ev("\"e\":\"op\",\"c\":{\"n\":\"uclose\",\"fd\":%d}", fd);
            ::close(fd);
            ksim::ev("\"e\":\"end\",\"g\":[],\"r\":{\"ok\":1,\"v\":0,\"code\":0}");
        }
        ksim::ev("\"e\":\"quiet\"");
    }
    // descriptors opened and closed by running workers
    struct Sink : ksim::File
    {
        int exec(ksim::Op& op) override { return (int) op.len; }
    };
    int xs;
    int fresh() { ksim::Quiet q; return ++xs; }
    std::map<int, int>* splices;
    Task<void> send(Worker& w, int in, int out, size_t n)
    {
        (void) co_await w.async_sendfile(out, in, 0, n);
    }
    Task<void> openclose(Worker& w, int how)
    {
        if (how == 0)
        {
            auto r = co_await w.async_openat("oc", O_RDWR | O_CREAT, 0644);
            if (!r) co_return;
            ksim::ev("\"e\":\"hand\",\"fd\":%d", *r);
            char b[4] = "abc";
            (void) co_await w.async_write_at(*r, std::span<const char>(b, 3), 0);
            ksim::ev("\"e\":\"askclose\",\"fd\":%d", *r);
            (void) co_await w.async_close(*r);
        }
        else
        {
            auto r = co_await w.async_openat("oc", O_RDWR | O_CREAT, 0644);
            if (!r) co_return;
            int k = fresh();
            ksim::ev("\"e\":\"own\",\"k\":%d,\"fd\":%d", k, *r);
            {
                bitcask::FileHandle h(*r);
                bitcask::FileHandle g(std::move(h));
                (void) co_await w.async_fsync(g.get());
                ksim::ev("\"e\":\"drop\",\"k\":%d", k);
            }
            ksim::ev("\"e\":\"dropped\",\"k\":%d", k);
        }
    }
    Task<void> accept(Worker& w, int lfd)
    {
        net::SocketAddress a;
        net::Socket l(lfd);
        auto r = co_await w.async_accept(l, a);
        (void) l.release();
        if (!r) co_return;
        int k = fresh();
        ksim::ev("\"e\":\"own\",\"k\":%d,\"fd\":%d", k, *r);
        {
            net::Socket s(*r);
            net::Socket t;
            t = std::move(s);
            char b[8];
            (void) co_await w.async_read(t.get(), std::span<char>(b, 8));
            ksim::ev("\"e\":\"drop\",\"k\":%d", k);
        }
        ksim::ev("\"e\":\"dropped\",\"k\":%d", k);
    }
    Task<void> manager(FileManager& m, const char* path, int flags)
    {
        auto r = co_await m.async_open(path, flags, 0644);
        if (!r) co_return;
        int k = fresh();
        ksim::ev("\"e\":\"own\",\"k\":%d,\"fd\":%d", k, r->fd());
        {
            std::vector<File> v;
            v.push_back(std::move(*r));
            char b[8];
            (void) co_await v[0].async_read(std::span<char>(b, 8), 0);
            ksim::ev("\"e\":\"drop\",\"k\":%d", k);
        }
        ksim::ev("\"e\":\"dropped\",\"k\":%d", k);
    }
    DetachedTask on(Worker& w, int what, int a, int b, size_t n)
    {
        co_await SwitchToWorker(w);
        if (what == 0) co_await send(w, a, b, n);
        else if (what == 1) co_await openclose(w, a);
        else co_await accept(w, a);
    }
    void workers()
    {
        quiet_log();
        char tmpl[] = "c15XXXXXX";
        fs::path root;
        {
            ksim::Quiet q;
            root = fs::absolute(mkdtemp(tmpl));
            if (chdir(root.c_str())) abort();
            FILE* o = fopen("f", "w");
            fputs("0123456789", o);
            fclose(o);
        }
        xs = 0;
        hooks();
        ksim::hooks.fail = [](const char* call, int)
        {
            int e = 0;
            fail_close(call, e);
            if (!e && (!strcmp(call, "pipe") || !strcmp(call, "eventfd") || !strcmp(call, "fcntl")) && !ksim::choose(8)) e = EMFILE;
            return e;
        };
        ksim::hooks.uring_fail = [](const char* call) { return !strcmp(call, "init") && !ksim::choose(10) ? -ENOMEM : 0; };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (op.opcode == IORING_OP_CLOSE) return false;
            if (op.opcode == IORING_OP_SPLICE)
            {
                res = ksim::choose(5) ? (int) std::min<size_t>(op.len, 1 + ksim::choose(op.len)) : (int[]){0, -EIO, -EPIPE, -EINTR}[ksim::choose(4)];
                return true;
            }
            if (op.opcode == IORING_OP_OPENAT && !ksim::choose(4)) { res = -EMFILE; return true; }
            return false;
        };
        ksim::ev("\"e\":\"init\"");
        int kind = (int) R(3);
        if (kind == 1) ksim::hooks.uring_fail = nullptr;   // work for a worker that could not start never returns
        if (kind == 0)
        {
            try
            {
                IOPool p(1 + R(2), cfg(4, 4, 16, 16));
                if (R(2)) p.stop();
            }
            catch (const std::exception&) {}
        }
        else if (kind == 1)
        {
            try
            {
                FileManager m(1 + R(2), cfg(8, 8, 32, 32));
                std::vector<std::thread> ts;
                for (int k = 1 + (int) R(2); k > 0; --k)
                {
                    const char* p = (const char*[]){"f", "nope", "g", "."}[R(4)];
                    int fl = (int[]){O_RDONLY, O_RDWR | O_CREAT}[R(2)];
                    ts.emplace_back([&m, p, fl] { SyncWait(manager(m, p, fl)); });
                }
                for (auto& t: ts) t.join();
            }
            catch (const std::exception&) {}
        }
        else
        {
            auto sink = std::make_shared<Sink>(), src = std::make_shared<Sink>();
            auto lis = std::make_shared<ksim::Listener>();
            ksim::hooks.on_fd = nullptr;
            int in = ksim::open_file(src, "x"), out = ksim::open_file(sink, "x"), lfd = ksim::open_file(lis, "x");
            hooks();
            for (int fd: {in, out, lfd}) { ksim::ev("\"e\":\"opened\",\"fd\":%d", fd); ksim::ev("\"e\":\"hand\",\"fd\":%d", fd); }
            for (int k = 0; k < 2; ++k)
            {
                auto s = std::make_shared<ksim::Stream>();
                s->rx = "hello";
                lis->backlog.push_back(s);
            }
            try
            {
                W ww(0, cfg(16, 16, 64, 64));
                ww.th = std::make_unique<std::thread>([&ww] { try { ww.run(); } catch (...) {} });
                ww.w->wait_ready();
                bool up = ww.w->is_running();
                if (up) for (int k = 1 + (int) R(3); k > 0; --k)
                {
                    int what = (int) R(3);
                    on(*ww, what, what == 0 ? in : what == 1 ? (int) R(2) : lfd, out, (size_t[]){0, 1, 5, 70000}[R(4)]).detach();
                }
                ksim::quiesce(true);
                (void) ww.w->request_stop();
                ww.th->join();
            }
            catch (const std::exception&) {}
        }
        ksim::ev("\"e\":\"quiet\"");
        ksim::Quiet q2;
        chdir("..");
        fs::remove_all(root);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"owners", [] { owners(); }, 1},
        {"sockets", [] { sockets(); }, 2},
        {"workers", [] { workers(); }, 6},
    });
}
