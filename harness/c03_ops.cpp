// C03: many operations in flight on one worker; histories for spec/OpsTrace.tla
#include "wk.h"
#include <cstring>
#include <sys/eventfd.h>
using namespace wk;
namespace
{
    W* w;
    int fd, next_op;
    std::vector<ksim::Op*> dummy;
    char pat(int o, size_t k) { return (char) (o * 7 + (int) k + 1); }
    int tag(ksim::Op& op)
    {
        switch (op.opcode)
        {
            case IORING_OP_READ: if (!ksim::is_fake(op.fd) || op.fd != fd) return 0; return (int) op.off;
            case IORING_OP_WRITE: return op.fd == fd ? (int) op.off : 0;
            case IORING_OP_FALLOCATE: return (int) op.addr;
            case 55 /* ftruncate */: return (int) op.off;
            case IORING_OP_TIMEOUT: return (int) (op.duration / 1000);
            case IORING_OP_FSYNC: return -1;
            default: return -2;
        }
    }
    void hooks()
    {
        ksim::hooks.on_submit = [](ksim::Op& op) { if (int o = tag(op)) ksim::ev("\"e\":\"sub\",\"o\":%d", o); };
        ksim::hooks.on_complete = [](ksim::Op& op, int res) { if (int o = tag(op)) ksim::ev("\"e\":\"comp\",\"o\":%d,\"r\":%d", o, op.opcode == IORING_OP_TIMEOUT && res == -ETIME ? 0 : res); };
    }
    std::shared_ptr<FnFile> file()
    {
        auto f = std::make_shared<FnFile>();
        f->fn = [](ksim::Op& op) -> int
        {
            int o = tag(op);
            if (op.opcode == IORING_OP_READ)
            {
                for (uint32_t k = 0; k < op.len; ++k) ((char*) op.addr)[k] = pat(o, k);
            }
            uint64_t c = ksim::choose(4);
            if (c == 0) return -(o % 20 ? (int[]){EIO, ENOSPC, EBADF, EINVAL, EPIPE}[o % 5] : EIO);
            if (op.opcode == IORING_OP_READ || op.opcode == IORING_OP_WRITE) return c == 1 ? (int) ksim::choose(op.len + 1) : (int) op.len;
            return 0;
        };
        return f;
    }
    void ret(int o, int r) { ksim::ev("\"e\":\"ret\",\"o\":%d,\"r\":%d,\"t\":%d", o, r, ksim::self()); }
    template<class T> void done(int o, const Result<T>& r)
    {
        if (r.has_value())
        {
            if constexpr (std::is_void_v<T>) ret(o, 0);
            else ret(o, (int) *r);
        }
        else if (r.error().value == EAGAIN) ksim::ev("\"e\":\"refuse\",\"o\":%d,\"t\":%d", o, ksim::self());
        else ret(o, -r.error().value);
    }
    DetachedTask root(int gen, std::vector<uint8_t> plan, bool hopped);
    // plan bytes: low bits kind (0 read,1 write,2 sleep,3 truncate,4 fallocate), 7: fork
    Task<void> chain(int gen, std::vector<uint8_t> plan)
    {
        for (size_t k = 0; k < plan.size(); ++k)
        {
            int kind = plan[k] & 7;
            if (kind == 7)
            {
                if (gen < 3) root(gen + 1, std::vector<uint8_t>(plan.begin() + (long) k + 1, plan.end()), true).detach();
                continue;
            }
            int o = ++next_op;
            ksim::ev("\"e\":\"call\",\"o\":%d,\"t\":%d", o, ksim::self());
            try
            {
                Worker& x = **w;
                if (kind == 0)
                {
                    std::unique_ptr<char[]> b(new char[1 + (size_t) (o % 5)]);
                    auto r = co_await x.async_read_at(fd, {b.get(), 1 + (size_t) (o % 5)}, (uint64_t) o);
                    done(o, r);
                    if (r.has_value()) for (int q = 0; q < *r; ++q) if (b[(size_t) q] != pat(o, (size_t) q)) ksim::bad("foreign-data");
                }
                else if (kind == 1)
                {
                    std::string b(1 + (size_t) (o % 5), 'x');
                    auto r = co_await x.async_write_at(fd, {b.data(), b.size()}, (uint64_t) o);
                    done(o, r);
                }
                else if (kind == 2) { auto r = co_await x.async_sleep(std::chrono::microseconds(o)); done(o, r); }
                else if (kind == 3) { auto r = co_await x.async_ftruncate(fd, o); done(o, r); }
                else { auto r = co_await x.async_fallocate(fd, 0, o); done(o, r); }
            }
            catch (const std::exception&)
            {
                ksim::ev("\"e\":\"refuse\",\"o\":%d,\"t\":%d", o, ksim::self());
            }
        }
        co_return;
    }
    DetachedTask root(int gen, std::vector<uint8_t> plan, bool hopped)
    {
        if (!hopped) co_await SwitchToWorker(**w);
        co_await chain(gen, std::move(plan));
    }
    DetachedTask stats()
    {
        co_await SwitchToWorker(**w);
        ksim::ev("\"e\":\"quiet\",\"active\":%d", (int) (*w)->get_stats().active_coroutines);
    }
    void scenario(std::vector<size_t> depths, std::vector<size_t> slotss, std::vector<size_t> maxs, int ncoro, int len, int forks)
    {
        quiet_log();
        next_op = 0;
        size_t depth = depths[R(depths.size())], slots = slotss[R(slotss.size())], max = maxs[R(maxs.size())];
        if (slots > max) slots = max;
        auto c = cfg(depth, slots, max, 64);
        c.op_slots_growth_factor = (float[]){1.01f, 1.5f, 2.0f, 3.7f}[R(4)];
        fd = ksim::open_file(file(), "test");
        hooks();
        W ww(0, c);
        w = &ww;
        ksim::ev("\"e\":\"init\",\"depth\":%zu,\"max\":%zu", depth, max);
        ww.start();
        int n = 1 + (int) R((size_t) ncoro);
        std::vector<std::vector<uint8_t>> plans;
        for (int k = 0; k < n; ++k)
        {
            std::vector<uint8_t> p;
            int l = 1 + (int) R((size_t) len);
            for (int j = 0; j < l; ++j) p.push_back((uint8_t) ((int) R(10) < forks ? 7 : R(5)));
            plans.push_back(p);
        }
        for (auto& p: plans) root(0, p, false).detach();
        ksim::quiesce(true);
        stats().detach();
        ksim::quiesce(true);
        ww.stop();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"plenty", [] { scenario({16, 64}, {8, 16, 32}, {64, 1024}, 5, 4, 2); }, 8},
        {"slots", [] { scenario({16, 64}, {1, 2, 3}, {1, 2, 3, 4, 5}, 4, 5, 3); }, 8},
        {"ring", [] { scenario({2, 4}, {8}, {64}, 5, 4, 4); }, 8},
        {"grow", [] { scenario({64}, {1, 2, 3}, {7, 20, 1000}, 6, 6, 5); }, 8},
        {"mini", [] { scenario({4}, {1}, {2}, 2, 2, 3); }, 30},
    });
}
