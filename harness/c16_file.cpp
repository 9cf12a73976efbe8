// C16: files on the worker their path selects; histories for spec/FileMgrTrace.tla
#include "wk.h"
#include "kio/fs/fs.h"
#include <filesystem>
#include <set>
using namespace wk;
namespace fs = std::filesystem;
namespace
{
    struct Path { const char* spelled; bool abs; const char* key; };
    const Path paths[] = {{"a", false, "a"}, {"./a", false, "a"}, {"a", true, "a"}, {"sub/../a", false, "a"}, {"link", false, "a"}, {"sub/b", false, "b"}, {"sub/b", true, "b"},
                          {"sub/./b", true, "b"}, {"new", false, "new"}, {"./new", false, "new"}, {"new", true, "new"}, {"sub/../new", true, "new"}, {"nodir/x", false, "x"},
                          {"", false, "empty"}, {"c", false, "c"}, {"d", false, "d"}};
    fs::path* root;
    FileManager* fm;
    std::set<int>* seen;    // operations this check is about
    std::string u64(uint64_t v) { return "\"" + std::to_string(v) + "\""; }
    int open_n;
    bool ours(ksim::Op& op) { return op.opcode == IORING_OP_OPENAT || op.opcode == IORING_OP_READ || op.opcode == IORING_OP_WRITE || op.opcode == IORING_OP_READV || op.opcode == IORING_OP_WRITEV; }
    bool eventfd_op(ksim::Op& op) { return ksim::is_fake(op.fd); }
    void hooks()
    {
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            if (!ours(op) || eventfd_op(op)) return;
            std::string s = "{\"op\":" + std::to_string(op.opcode) + ",\"fd\":" + std::to_string(op.fd) + ",\"addr\":" + u64(op.addr) + ",\"len\":" + u64(op.len) + ",\"off\":" + u64(op.off) +
                            ",\"fl\":" + std::to_string((int) op.op_flags) + ",\"path\":" + ksim::jstr(op.opcode == IORING_OP_OPENAT ? op.path : "") + "}";
            ksim::ev("\"e\":\"sub\",\"u\":%d,\"t\":%d,\"s\":%s", (int) op.seq, op.fiber, s.c_str());
        };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (!ours(op) || eventfd_op(op)) return false;
            if (ksim::choose(6)) return false;
            res = op.opcode == IORING_OP_OPENAT ? (int[]){-EMFILE, -EACCES, -EINTR}[ksim::choose(3)] : (int[]){-EIO, -EINTR, -ENOSPC, 0, 1}[ksim::choose(5)];
            if (res > 0 && op.len == 0) res = 0;
            return true;
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            if (ours(op) && !eventfd_op(op)) ksim::ev("\"e\":\"comp\",\"u\":%d,\"r\":%d", (int) op.seq, res);
        };
        ksim::hooks.on_fd = [](int fd, const char* what)
        {
            std::string w = what;
            if (w == "badclose") { ksim::bad("badclose"); return; }
            if (ksim::is_fake(fd)) return;
            if (w == "open") ++open_n;
            if (w == "close") { --open_n; ksim::ev("\"e\":\"close\",\"fd\":%d", fd); }
        };
    }
    template<class T> void ret(int x, const Result<T>& r, int v)
    {
        ksim::ev("\"e\":\"ret\",\"x\":%d,\"ok\":%d,\"v\":%d,\"code\":%d", x, (int) r.has_value(), v, r.has_value() ? 0 : r.error().value);
    }
    int xs;
    int fresh() { ksim::Quiet q; return ++xs; }
    struct Step { int kind; size_t len; uint64_t off; int hop; };   // 0 read, 1 write, 2 move the object, 3 a second user, 4 another file over it
    struct Plan { Path p, p2; int flags; mode_t mode; std::vector<Step> steps; int from; };
    Task<void> rw(const File& f, int fx, Step s, char* buf)
    {
        int x = fresh();
        ksim::ev("\"e\":\"call\",\"x\":%d,\"c\":{\"k\":\"%s\",\"f\":%d,\"p\":%s,\"len\":%s,\"off\":%s,\"key\":\"\",\"path\":\"\",\"fl\":0,\"mode\":\"\"}", x, s.kind ? "write" : "read", fx,
                 u64((uint64_t) buf).c_str(), u64(s.len).c_str(), u64(s.off).c_str());
        auto r = s.kind ? co_await f.async_write(std::span<const char>(buf, s.len), s.off) : co_await f.async_read(std::span<char>(buf, s.len), s.off);
        ret(x, r, r ? (int) *r : 0);
    }
    // a second user of the same file, on some worker
    DetachedTask other(const File& f, int fx, Step s, std::atomic<int>& left, int w)
    {
        std::vector<char> buf(s.len + 1);
        co_await SwitchToWorker(*fm->pool().get_worker((size_t) w));
        co_await rw(f, fx, s, buf.data());
        left.fetch_sub(1);
    }
    Task<Result<File>> open(int x, Path p, int flags, mode_t mode)
    {
        std::string sp = p.abs ? (*root / p.spelled).string() : p.spelled;
        ksim::ev("\"e\":\"call\",\"x\":%d,\"c\":{\"k\":\"open\",\"key\":\"%s\",\"path\":%s,\"fl\":%d,\"mode\":%s}", x, p.key, ksim::jstr(sp).c_str(), flags, u64(mode).c_str());
        auto r = co_await fm->async_open(fs::path(sp), flags, mode);
        ret(x, r, r ? r->fd() : 0);
        co_return r;
    }
    Task<void> use(Plan p)
    {
        int x = fresh();
        auto r = co_await open(x, p.p, p.flags, p.mode);
        if (!r) co_return;
        std::atomic<int> left{0};
        {
            File f = std::move(*r);
            if (r->fd() != -1) ksim::bad("moved-from file still has a descriptor");
            std::vector<char> buf(64);
            for (auto& s: p.steps)
            {
                if (s.hop >= 0) co_await SwitchToWorker(*fm->pool().get_worker((size_t) s.hop));
                if (s.kind == 3)
                {
                    left.fetch_add(1);
                    other(f, x, {(int) (s.len % 2), s.len, s.off, 0}, left, (int) (s.off % fm->pool().num_workers())).detach();
                }
                else if (s.kind == 4)
                {
                    if (left.load()) continue;
                    int y = fresh();
                    auto r2 = co_await open(y, p.p2, p.flags, p.mode);
                    if (!r2) continue;
                    if (s.len == 7)         // over a file that was closed
                    {
                        ksim::ev("\"e\":\"drop\",\"x\":%d", x);
                        f.close();
                        ksim::ev("\"e\":\"reset\",\"x\":%d,\"y\":%d", x, y);
                    }
                    else ksim::ev("\"e\":\"assign\",\"x\":%d,\"y\":%d", x, y);
                    f = std::move(*r2);
                    if (r2->fd() != -1) ksim::bad("moved-from file still has a descriptor");
                }
                else if (s.kind == 2)
                {
                    if (left.load()) continue;
                    File g = std::move(f);
                    f = std::move(g);
                    File& self = f;
                    f = std::move(self);
                }
                else co_await rw(f, x, s, buf.data());
            }
            while (left.load())
            {
                co_await SwitchToWorker(*fm->pool().get_worker(0));
                (void) co_await fm->pool().get_worker(0)->async_sleep(std::chrono::microseconds(1));
            }
            ksim::ev("\"e\":\"drop\",\"x\":%d", x);
            if (p.mode & 1) f.close();
        }
    }
    DetachedTask root_co(std::vector<Plan> ps)
    {
        co_await SwitchToWorker(*fm->pool().get_worker((size_t) ps[0].from));
        for (auto& p: ps) { co_await SwitchToWorker(*fm->pool().get_worker((size_t) p.from)); co_await use(p); }
    }
    Task<int> where(Worker& w) { co_await SwitchToWorker(w); co_return ksim::self(); }
    void scenario(int maxw, int nco, int nth, int len)
    {
        quiet_log();
        char tmpl[] = "c16XXXXXX";
        ksim::Quiet* q = new ksim::Quiet;
        root = new fs::path(fs::absolute(mkdtemp(tmpl)));
        if (chdir(root->c_str())) abort();
        mkdir("sub", 0755);
        for (const char* f: {"a", "sub/b", "c", "d"}) { FILE* o = fopen(f, "w"); fputs("0123456789abcdefghijklmnopqrstuvwxyz", o); fclose(o); }
        if (symlink("a", "link")) abort();
        delete q;
        xs = 0;
        open_n = 0;
        int nw = 1 + (int) R((size_t) maxw);
        {
            FileManager m((size_t) nw, cfg(16, 16, 64, 64));
            fm = &m;
            std::string ws;
            for (int k = 0; k < nw; ++k) ws += (k ? "," : "") + std::to_string(SyncWait(where(*m.pool().get_worker((size_t) k))));
            hooks();
            ksim::ev("\"e\":\"init\",\"ws\":[%s]", ws.c_str());
            auto plan = [&]
            {
                Plan p;
                p.p = paths[R(R(3) ? 12 : 16)];
                p.p2 = paths[R(R(3) ? 12 : 16)];
                p.flags = (int[]){O_RDONLY, O_RDWR, O_RDWR | O_CREAT, O_WRONLY | O_CREAT | O_APPEND, O_RDWR | O_CREAT | O_CLOEXEC}[R(5)];
                p.mode = (mode_t[]){0644, 0600, 0, 0755}[R(4)];
                p.from = (int) R((size_t) nw);
                for (int k = (int) R((size_t) len + 1); k > 0; --k)
                    p.steps.push_back({(int[]){0, 0, 1, 1, 2, 3, 4}[R(7)], (size_t[]){0, 1, 7, 64}[R(4)], (uint64_t[]){0, 3, 30, 36, 1000, 1ull << 33}[R(6)], R(3) ? -1 : (int) R((size_t) nw)});
                return p;
            };
            for (int k = (int) R((size_t) nco + 1); k > 0; --k)
            {
                std::vector<Plan> ps;
                for (int j = 1 + (int) R(2); j > 0; --j) ps.push_back(plan());
                root_co(ps).detach();
            }
            std::vector<std::thread> ts;
            for (int k = 1 + (int) R((size_t) nth); k > 0; --k)
            {
                std::vector<Plan> ps;
                for (int j = 1 + (int) R(2); j > 0; --j) ps.push_back(plan());
                ts.emplace_back([ps] { for (auto& p: ps) SyncWait(use(p)); });
            }
            for (auto& t: ts) t.join();
            ksim::quiesce(true);
            ksim::ev("\"e\":\"quiet\",\"open\":%d", open_n);
        }
        ksim::Quiet q2;
        chdir("..");
        fs::remove_all(*root);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"one", [] { scenario(3, 0, 1, 3); }, 4},
        {"many", [] { scenario(3, 3, 2, 4); }, 4},
    });
}
