// C01: the real MPSCQueue under every kind of interleaving; histories for spec/MPSCTrace.tla
#include "kio/sync/mpsc_queue.h"
#include "ksim.h"
#include <memory>
#include <string>
#include <thread>

namespace
{
    struct Counts { int alive = 0; };
    Counts cnt;
    // element with a body big enough to be torn and an owned allocation; every special member is observable
    struct Elem
    {
        uint64_t a = 0, b = ~0ull;
        std::unique_ptr<int> own;
        uint32_t magic = 0x600dbeef;
        Elem() { born(); }
        explicit Elem(int v) : a(v), b(~(uint64_t) v), own(std::make_unique<int>(v)) { born(); }
        Elem(Elem&& o) noexcept : a(o.a), b(o.b), own(std::move(o.own)) { o.chk(); born(); }
        Elem& operator=(Elem&& o) noexcept
        {
            chk();
            o.chk();
            a = o.a;
            b = o.b;
            own = std::move(o.own);
            return *this;
        }
        ~Elem()
        {
            chk();
            magic = 0xdead;
            ksim::Quiet q;
            cnt.alive--;
        }
        void born() { ksim::Quiet q; cnt.alive++; }
        void chk() const { if (magic != 0x600dbeef) ksim::bad("element-lifetime"); }
        int value() const
        {
            if (!own || b != ~a || *own != (int) a) return -1;
            return (int) a;
        }
    };
    // same, without default constructor: takes the other drain path of the destructor
    struct ElemN : Elem
    {
        explicit ElemN(int v) : Elem(v) {}
    };

    template<typename T>
    void scenario(int maxprod, int maxops, bool burst)
    {
        size_t cap = 1u << ksim::rnd(3);
        int np = 1 + (int) ksim::rnd(maxprod);
        int base_alive = cnt.alive;
        auto* q = new kio::MPSCQueue<T>(cap);
        ksim::ev("\"e\":\"init\",\"cap\":%zu,\"np\":%d", q->capacity(), np);
        if (q->capacity() < cap) ksim::bad("capacity");
        int per[4], pops;
        for (int p = 0; p < np; ++p) per[p] = 1 + (int) ksim::rnd(maxops);
        int total = 0;
        for (int p = 0; p < np; ++p) total += per[p];
        pops = burst ? (int) ksim::rnd(3) : (int) ksim::rnd(total + 3);
        bool retry = ksim::rnd(2);
        std::vector<std::thread> th;
        for (int p = 0; p < np; ++p)
            th.emplace_back([=]
            {
                for (int k = 0; k < per[p]; ++k)
                {
                    int v = (p + 1) * 100 + k;
                    for (int tries = 0;; ++tries)
                    {
                        T e(v);
                        ksim::ev("\"e\":\"pushS\",\"t\":%d,\"v\":%d", p + 1, v);
                        bool ok = q->try_push(std::move(e));
                        ksim::ev("\"e\":\"pushE\",\"t\":%d,\"ok\":%d,\"kept\":%d", p + 1, (int) ok, (int) (e.value() == v));
                        if (ok || !retry || tries >= 2) break;
                    }
                }
            });
        auto pop1 = [&](int t)
        {
            T o(0);
            ksim::ev("\"e\":\"popS\",\"t\":%d", t);
            bool ok = q->try_pop(o);
            ksim::ev("\"e\":\"popE\",\"t\":%d,\"ok\":%d,\"v\":%d", t, (int) ok, ok ? o.value() : 0);
            return ok;
        };
        std::thread cons([&]
        {
            for (int k = 0; k < pops; ++k) pop1(9);
        });
        for (auto& t: th) t.join();
        cons.join();
        int drain = (int) ksim::rnd(3);
        if (drain == 0)
            while (pop1(9)) {}
        else if (drain == 1 && total)
            for (int k = (int) ksim::rnd(3); k > 0; --k) pop1(9);
        delete q;
        ksim::ev("\"e\":\"end\",\"live\":%d", cnt.alive - base_alive);
    }
    // long sequential use: many wrap-arounds, positions far from zero
    void wrap()
    {
        size_t cap = 1u << ksim::rnd(3);
        auto* q = new kio::MPSCQueue<Elem>(cap);
        int base_alive = cnt.alive;
        ksim::ev("\"e\":\"init\",\"cap\":%zu,\"np\":1", q->capacity());
        int v = 0;
        for (int k = 0; k < 60; ++k)
        {
            if (ksim::rnd(2))
            {
                Elem e(++v);
                ksim::ev("\"e\":\"pushS\",\"t\":1,\"v\":%d", v);
                bool ok = q->try_push(std::move(e));
                ksim::ev("\"e\":\"pushE\",\"t\":1,\"ok\":%d,\"kept\":%d", (int) ok, (int) (e.value() == v));
            }
            else
            {
                Elem o(0);
                ksim::ev("\"e\":\"popS\",\"t\":9");
                bool ok = q->try_pop(o);
                ksim::ev("\"e\":\"popE\",\"t\":9,\"ok\":%d,\"v\":%d", (int) ok, ok ? o.value() : 0);
            }
        }
        delete q;
        ksim::ev("\"e\":\"end\",\"live\":%d", cnt.alive - base_alive);
    }
}

int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"small", [] { scenario<Elem>(2, 2, false); }, 30},
        {"three", [] { scenario<Elem>(3, 3, false); }, 30},
        {"nodef", [] { scenario<ElemN>(2, 3, true); }, 20},
        {"wrap", wrap, 1},
    });
}
