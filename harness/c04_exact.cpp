// C04: exact transfers over a kernel that moves what it likes; histories for spec/XferTrace.tla
#include "wk.h"
#include <sys/mman.h>
using namespace wk;
namespace
{
    W* w;
    struct Call
    {
        int x, kind;         // 0 read, 1 write, 2 sendfile
        bool pos;
        size_t n;
        uint64_t off;
        int fd = -1, out_fd = -1;
        char* buf = nullptr;
        std::string sink;
        size_t src = 0;      // streaming source position
        int steps = 0;
        std::string script;
    };
    std::map<int, Call*> byfd;
    std::map<int, Call*> byout;
    size_t unit = 1;
    char pat(uint64_t p) { return (char) (p * 31 + (p >> 8) * 7 + 5); }
    int U(size_t v) { if (v % unit) ksim::bad("not-a-unit"); return (int) (v / unit); }
    Call* in_of(ksim::Op& op)
    {
        if (op.opcode == IORING_OP_SPLICE) { auto it = byfd.find(op.splice_fd_in); return it == byfd.end() ? nullptr : it->second; }
        auto it = byfd.find(op.fd);
        return it == byfd.end() ? nullptr : it->second;
    }
    Call* out_of(ksim::Op& op) { auto it = byout.find(op.fd); return op.opcode == IORING_OP_SPLICE && it != byout.end() ? it->second : nullptr; }
    int pick(Call* c, size_t len)
    {
        c->steps++;
        static const int errs[] = {EIO, ENOSPC, EINTR, ECONNRESET, EAGAIN, ECANCELED};
        uint64_t r = ksim::choose(c->steps > 12 ? 3 : 8);
        size_t units = len / unit;
        if (r == 0 && c->steps > 1 + (int) ksim::choose(6)) return ksim::choose(2) ? 0 : -errs[ksim::choose(6)];
        if (r <= 3 || units <= 1) return (int) len;
        if (r == 4) return (int) unit;
        if (r == 5) return (int) ((units - 1) * unit);
        return (int) ((1 + ksim::choose(units)) * unit);
    }
    struct XFile : ksim::File
    {
        const char* name() const override { return "xfile"; }
        int exec(ksim::Op& op) override
        {
            Call* c = in_of(op);
            if (!c) return -EBADF;
            int res = pick(c, op.len);
            if (res <= 0 || unit > 1) return res;
            uint64_t base = c->pos ? op.off : c->src;
            if (op.opcode == IORING_OP_READ || op.opcode == IORING_OP_RECV)
                for (int k = 0; k < res; ++k) ((char*) op.addr)[k] = pat(base + (uint64_t) k);
            else
            {
                if (c->pos && c->sink.size() < (size_t) (op.off - c->off) + (size_t) res) c->sink.resize((size_t) (op.off - c->off) + (size_t) res, 0);
                if (c->pos) memcpy(&c->sink[op.off - c->off], (char*) op.addr, (size_t) res);
                else c->sink.append((char*) op.addr, (size_t) res);
            }
            c->src += (size_t) res;
            return res;
        }
    };
    void hooks()
    {
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            if (op.opcode == IORING_OP_SPLICE)
            {
                if (Call* c = in_of(op)) ksim::ev("\"e\":\"issin\",\"x\":%d,\"off\":%d,\"len\":%d", c->x, (int64_t) op.splice_off_in < 0 ? -1 : U(op.splice_off_in), U(op.len));
                else if (Call* d = out_of(op)) ksim::ev("\"e\":\"issout\",\"x\":%d,\"len\":%u", d->x, op.len);
                return;
            }
            Call* c = in_of(op);
            if (!c) return;
            bool rd = op.opcode == IORING_OP_READ || op.opcode == IORING_OP_RECV, wr = op.opcode == IORING_OP_WRITE || op.opcode == IORING_OP_SEND;
            if (!(c->kind == 0 ? rd : wr)) { ksim::bad("wrong-request"); return; }
            bool str = op.off == (uint64_t) -1 || op.opcode == IORING_OP_RECV || op.opcode == IORING_OP_SEND;
            if ((char*) op.addr < c->buf || (char*) op.addr > c->buf + c->n) ksim::bad("outside-buffer");
            ksim::ev("\"e\":\"issue\",\"x\":%d,\"at\":%d,\"len\":%d,\"str\":%d,\"off\":%d", c->x, U((size_t) ((char*) op.addr - c->buf)), U(op.len), str, str ? 0 : U(op.off));
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            Call* c = in_of(op);
            if (!c) c = out_of(op);
            if (c) ksim::ev("\"e\":\"comp\",\"x\":%d,\"r\":%d", c->x, res > 0 ? U((size_t) res) : res);
        };
        ksim::hooks.exec = [](ksim::Op& op, int& res)
        {
            if (op.opcode != IORING_OP_SPLICE) return false;
            if (Call* c = in_of(op))
            {
                res = pick(c, op.len);
                if (res > 65536) res = 65536;
                if (res <= 0) return true;
                std::string d;
                for (int k = 0; k < res; ++k) d += pat(op.splice_off_in + (uint64_t) k);
                auto f = ksim::get_file(op.fd);
                res = f ? (int) f->write(d.data(), d.size()) : -EBADF;
            }
            else if (Call* d = out_of(op))
            {
                auto f = ksim::get_file(op.splice_fd_in);
                if (!f) { res = -EBADF; return true; }
                res = pick(d, op.len);
                if (res <= 0) return true;
                std::string t((size_t) res, 0);
                res = (int) f->read(t.data(), t.size());
                if (res > 0) d->sink.append(t, 0, (size_t) res);
            }
            else res = -EBADF;
            return true;
        };
    }
    DetachedTask run(Call* c)
    {
        co_await SwitchToWorker(**w);
        Worker& k = **w;
        constexpr size_t G = 24;
        size_t total = unit == 1 ? c->n + 2 * G : c->n;
        char* mem = nullptr;
        if (c->kind < 2)
        {
            mem = unit == 1 ? new char[total] : (char*) mmap(nullptr, total + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            c->buf = mem + (unit == 1 ? G : 0);
            if (unit == 1) for (size_t j = 0; j < total; ++j) mem[j] = c->kind == 1 ? pat(c->off + j - G) : (char) 0x5a;
        }
        ksim::ev("\"e\":\"call\",\"x\":%d,\"k\":\"%s\",\"pos\":%d,\"n\":%d,\"off\":%d", c->x, c->kind == 0 ? "r" : c->kind == 1 ? "w" : "s", (int) c->pos, U(c->n), c->pos ? U(c->off) : 0);
        Result<void> r;
        if (c->kind == 0)
        {
            if (c->pos) r = co_await k.async_read_exact_at(c->fd, {c->buf, c->n}, c->off);
            else r = co_await k.async_read_exact(c->fd, {c->buf, c->n});
        }
        else if (c->kind == 1)
        {
            if (c->pos) r = co_await k.async_write_exact_at(c->fd, {c->buf, c->n}, c->off);
            else r = co_await k.async_write_exact(c->fd, {c->buf, c->n});
        }
        else r = co_await k.async_sendfile(c->out_fd, c->fd, (off_t) c->off, c->n);
        ksim::ev("\"e\":\"ret\",\"x\":%d,\"ok\":%d,\"code\":%d,\"eof\":%d", c->x, (int) r.has_value(), r.has_value() ? 0 : r.error().value, !r.has_value() && r.error().value == kIoEof);
        if (unit == 1)
        {
            uint64_t base = c->pos ? c->off : 0;
            if (c->kind == 0)
                for (size_t j = 0; j < total; ++j)
                {
                    bool in = j >= G && j - G < c->src;
                    if (mem[j] != (in ? pat(base + j - G) : (char) 0x5a)) { ksim::bad("wrong-bytes"); break; }
                }
            else
            {
                uint64_t b2 = c->kind == 1 ? c->off : base;
                for (size_t j = 0; j < c->sink.size(); ++j) if (c->sink[j] != pat(b2 + j)) { ksim::bad("wrong-bytes"); break; }
            }
            delete[] mem;
        }
        else if (mem) munmap(mem, total + 4096);
    }
    void scenario(int ncalls, std::vector<size_t> ns, int kinds, std::vector<uint64_t> offs, size_t u, int pipefail)
    {
        quiet_log();
        unit = u;
        byfd.clear();
        byout.clear();
        W ww(0, cfg(16, 16, 64, 64));
        w = &ww;
        hooks();
        ksim::ev("\"e\":\"init\"");
        std::vector<std::unique_ptr<Call>> cs;
        int nc = 1 + (int) R((size_t) ncalls);
        for (int x = 1; x <= nc; ++x)
        {
            auto c = std::make_unique<Call>();
            c->x = x;
            c->kind = kinds == 3 ? (int) R(3) : kinds == 2 ? 2 : (int) R(2);
            c->pos = c->kind == 2 || R(2);
            size_t base = ns[R(ns.size())];
            c->n = u > 1 ? base * u : base;
            c->off = offs[R(offs.size())] * (u > 1 ? u : 1);
            c->fd = ksim::open_file(std::make_shared<XFile>(), "x");
            byfd[c->fd] = c.get();
            if (c->kind == 2) { c->out_fd = ksim::open_file(std::make_shared<XFile>(), "x"); byout[c->out_fd] = c.get(); }
            cs.push_back(std::move(c));
        }
        bool fired = false;
        if (pipefail) ksim::hooks.fail = [&](const char* what, int)
        {
            if (strcmp(what, "pipe") || fired || nc != 1) return 0;
            fired = true;
            ksim::ev("\"e\":\"fail\",\"x\":1,\"err\":%d", EMFILE);
            return EMFILE;
        };
        ww.start();
        for (auto& c: cs) run(c.get()).detach();
        ksim::quiesce(true);
        ksim::ev("\"e\":\"quiet\"");
        ww.stop();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"small", [] { scenario(2, {0, 1, 2, 3, 5, 9}, 1, {0, 1, 7, 4096, 1u << 30}, 1, 0); }, 20},
        {"send", [] { scenario(2, {0, 1, 3, 10, 65535, 65536, 65537, 140000, 196608}, 2, {0, 1, 100, 1u << 30}, 1, 0); }, 20},
        {"nopipe", [] { scenario(1, {1, 10}, 2, {0}, 1, 1); }, 5},
        // lengths and offsets in units of 4096: beyond 2 and 4 GiB
        {"huge", [] { scenario(1, {1u << 19, (1u << 19) + 1, (1u << 20) - 1, 1u << 20, (1u << 20) + 3, (1u << 21) + 1}, 1, {0, 1, (1u << 19), (1u << 20) - 1, 1u << 20, 1u << 22}, 4096, 0); }, 8},
        {"mix", [] { scenario(4, {1, 2, 4, 8, 300, 70000}, 3, {0, 3, 1000}, 1, 0); }, 8},
    });
}
