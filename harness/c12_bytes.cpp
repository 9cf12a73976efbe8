// C12: the real BytesMut under random and bounded-exhaustive operation sequences; histories for spec/BytesTrace.tla
#include "kio/core/bytes_mut.h"
#include "ksim.h"
#include <memory>
#include <string>
using kio::BytesMut;
namespace
{
    uint8_t next_byte = 1;
    std::string arr(std::span<const char> s)
    {
        std::string o = "[";
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (i) o += ',';
            o += std::to_string((unsigned) (uint8_t) s[i]);
        }
        return o + "]";
    }
    // every operation reports the complete observable state afterwards
    void emit(BytesMut& b, const char* op, size_t n, const std::string& data, bool ex)
    {
        auto rs = b.readable_span();
        auto ws = b.writable_span();
        if (ws.size() != b.writable()) ksim::bad("writable-span");
        if (!ksim::mem_ok(rs.data(), rs.size()) || !ksim::mem_ok(ws.data(), ws.size())) ksim::bad("span-outside-buffer");
        if (rs.size() && ws.size() && rs.data() < ws.data() + ws.size() && ws.data() < rs.data() + rs.size()) ksim::bad("spans-overlap");
        if (b.capacity() < b.consumed() + b.remaining() + b.writable()) ksim::bad("capacity");
        ksim::ev("\"e\":\"op\",\"op\":\"%s\",\"n\":%lld,\"d\":%s,\"ex\":%d,\"rd\":%s,\"rem\":%zu,\"w\":%lld,\"c\":%zu,\"empty\":%d", op, (long long) std::min<size_t>(n, 2000000000),
                 data.empty() ? "[]" : data.c_str(), (int) ex, arr(rs).c_str(), b.remaining(), (long long) std::min<size_t>(b.writable(), 2000000000), b.consumed(), (int) b.is_empty());
    }
    template<class F>
    bool throws(F f)
    {
        try
        {
            f();
            return false;
        }
        catch (const std::exception&)
        {
            return true;
        }
    }
    std::vector<char> fresh(size_t n)
    {
        std::vector<char> v(n);
        for (auto& c: v) c = (char) next_byte++;
        return v;
    }
    std::unique_ptr<BytesMut> make(size_t cap)
    {
        auto b = cap == (size_t) -1 ? std::make_unique<BytesMut>() : std::make_unique<BytesMut>(cap);
        emit(*b, "new", cap == (size_t) -1 ? 0 : cap, "", false);
        return b;
    }
    constexpr size_t kHuge[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 3, SIZE_MAX - 7, SIZE_MAX / 2 + 1};
    void write_commit(BytesMut& b, size_t n, size_t scribble)
    {
        auto ws = b.writable_span();
        auto d = fresh(std::min(n, ws.size()));
        // the whole writable span belongs to the writer
        for (size_t i = 0; i < std::min(scribble, ws.size()); ++i) ws[ws.size() - 1 - i] = (char) 0xEE;
        std::copy(d.begin(), d.end(), ws.begin());
        std::string a = arr({d.data(), d.size()});
        bool ex = throws([&] { b.commit_write(n); });
        emit(b, "commit", n, a, ex);
    }
    // one operation of the given kind; sizes are drawn around the interesting values
    void step(std::unique_ptr<BytesMut>& b, int kind, size_t n)
    {
        switch (kind)
        {
            case 0: { bool ex = throws([&] { b->reserve(n); }); emit(*b, "reserve", n, "", ex); break; }
            case 1:
            {
                auto d = fresh(n);
                bool ex = throws([&] { b->extend_from_slice({d.data(), d.size()}); });
                emit(*b, "extend", n, arr({d.data(), d.size()}), ex);
                break;
            }
            case 2: write_commit(*b, n, 64); break;
            case 3: { bool ex = throws([&] { b->advance(n); }); emit(*b, "advance", n, "", ex); break; }
            case 4:
            {
                std::string p;
                bool ex = throws([&] { p = arr(b->peek(n)); });
                emit(*b, "peek", n, p, ex);
                break;
            }
            case 5: b->compact(); emit(*b, "compact", 0, "", false); break;
            case 6: b->clear(); emit(*b, "clear", 0, "", false); break;
            case 7: { auto c = std::make_unique<BytesMut>(*b); b->clear(); b = std::move(c); emit(*b, "copy", 0, "", false); break; }
            case 8: { auto c = std::make_unique<BytesMut>(std::move(*b)); b = std::move(c); emit(*b, "move", 0, "", false); break; }
            case 9:
            {
                size_t big = kHuge[n % 5];
                switch (n / 5 % 4)
                {
                    case 0: { bool ex = throws([&] { b->commit_write(big - ksim::rnd(2) * b->remaining()); }); emit(*b, "commit", 2000000000, "", ex); break; }
                    case 1: { bool ex = throws([&] { b->advance(big); }); emit(*b, "advance", 2000000000, "", ex); break; }
                    case 2: { bool ex = throws([&] { (void) b->peek(big); }); emit(*b, "peek", 2000000000, "", ex); break; }
                    case 3: { bool ex = throws([&] { b->reserve(big); }); emit(*b, "reserve", 2000000000, "", ex); break; }
                }
            }
        }
    }
    void random_ops(int ops, std::vector<size_t> caps, int maxn, bool huge)
    {
        next_byte = (uint8_t) (1 + ksim::rnd(200));
        auto b = make(caps[ksim::rnd(caps.size())]);
        static const int w[] = {0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 0, 1, 3};
        for (int i = 0; i < ops; ++i)
        {
            int k = w[ksim::rnd(20)];
            if (huge && ksim::rnd(3) == 0) { step(b, 9, ksim::rnd(20)); continue; }
            size_t n;
            size_t lim = k == 2 ? b->writable() : k == 3 || k == 4 ? b->remaining() : (size_t) maxn;
            switch (ksim::rnd(8))
            {
                case 0: n = 0; break;
                case 1: n = lim; break;
                case 2: n = lim + 1; break;
                case 3: n = b->writable() + ksim::rnd(3); break;
                case 4: n = b->consumed() + b->writable() + ksim::rnd(3); if (n) n -= 1; break;
                case 5: n = lim ? lim - 1 : 0; break;
                default: n = ksim::rnd(std::min<size_t>(lim, maxn) + 1);
            }
            if ((k == 0 || k == 1) && n > 4u * maxn) n = maxn;
            if (k == 6 && ksim::rnd(2)) k = 5;
            step(b, k, n);
        }
        b.reset();
        ksim::ev("\"e\":\"end\",\"live\":%d", 0);
    }
    // all sequences of 5 operations out of a small alphabet, one history per 12 consecutive sequences
    void exhaustive()
    {
        static const struct { int k; size_t n; } A[] = {{0, 1}, {0, 3}, {1, 1}, {1, 2}, {2, 1}, {3, 1}, {3, 2}, {5, 0}, {6, 0}};
        for (int rep = 0; rep < 12; ++rep)
        {
            uint64_t code = ksim::rnd(9 * 9 * 9 * 9 * 9 * 3);
            auto b = make(code % 3);
            code /= 3;
            for (int i = 0; i < 5; ++i)
            {
                step(b, A[code % 9].k, A[code % 9].n);
                code /= 9;
            }
        }
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"tiny", [] { random_ops(40, {(size_t) -1, 0, 1, 2, 4, 7}, 6, false); }, 1},
        {"mid", [] { random_ops(30, {(size_t) -1, 8, 16, 64}, 40, false); }, 1},
        {"large", [] { random_ops(25, {0, 64, 1024, 1100, 4096}, 1500, false); }, 1},
        {"huge", [] { random_ops(20, {(size_t) -1, 0, 4, 16}, 10, true); }, 1},
        {"seq5", exhaustive, 1},
    });
}
