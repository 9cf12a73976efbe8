// C11: the real Logger with producers, level changes, flushes, destruction; histories for spec/LoggerTrace.tla
#include "kio/core/async_logger.h"
#include "ksim.h"
#include <iostream>
#include <set>
#include <streambuf>
using namespace kio;
namespace
{
    unsigned sum(std::string_view s)
    {
        unsigned h = 5;
        for (unsigned char c: s) h = (h * 31 + c) % 1000003;
        return h;
    }
    int lvl_no(std::string_view s)
    {
        const char* n[] = {"", "TRACE", "DEBUG", "INFO ", "WARN ", "ERROR"};
        for (int i = 1; i <= 5; ++i)
            if (s == n[i]) return i;
        return 0;
    }
    int fmterr_id = 0;
    // recognises complete records in what is written, however it is cut into pieces
    struct Sink : std::streambuf
    {
        std::string acc;
        int writers = 0;
        void put(const char* p, size_t n)
        {
            ksim::Quiet q;
            acc.append(p, n);
        }
        int overflow(int c) override
        {
            enter();
            char x = (char) c;
            put(&x, 1);
            leave();
            return c;
        }
        std::streamsize xsputn(const char* p, std::streamsize n) override
        {
            enter();
            put(p, n / 2);
            ksim::point();
            put(p + n / 2, n - n / 2);
            scan();
            leave();
            return n;
        }
        void enter()
        {
            if (writers++) ksim::bad("output-mixed");
            ksim::point();
        }
        void leave() { writers--; }
        void scan()
        {
            ksim::Quiet q;
            for (;;)
            {
                // [time] [LEVEL] [tid:N] file:line - m<id>:...;e<id>\n
                if (acc.empty()) return;
                size_t a = acc.find("] ["), b = a == std::string::npos ? a : acc.find("] [tid:", a + 3), d = b == std::string::npos ? b : acc.find(" - ", b);
                if (d == std::string::npos) return;
                std::string_view text = std::string_view(acc).substr(d + 3);
                std::string_view head = std::string_view(acc).substr(0, d);
                int id = 0, line = 0;
                line = atoi(std::string(head.substr(head.rfind(':') + 1)).c_str());
                int lv = lvl_no(std::string_view(acc).substr(a + 3, b - a - 3));
                bool file_ok = head.find(" c11_logger.cpp:") != std::string::npos && head[0] == '[';
                if (text.starts_with("<log format error: "))
                {
                    size_t e = text.find(">\n");
                    if (e == std::string_view::npos) return;
                    ksim::ev("\"e\":\"out\",\"id\":%d,\"lvl\":%d,\"line\":%d,\"len\":0,\"sum\":0,\"file\":%d", fmterr_id, lv, line, (int) file_ok);
                    acc.erase(0, d + 3 + e + 2);
                    continue;
                }
                if (sscanf(std::string(text.substr(0, 20)).c_str(), "m%d:", &id) != 1)
                {
                    if (text.size() > 20) ksim::bad("output-garbled");
                    return;
                }
                std::string tail = ";e" + std::to_string(id) + "\n";
                size_t e = text.find(tail);
                if (e == std::string_view::npos) return;
                std::string_view whole = text.substr(0, e + tail.size() - 1);
                ksim::ev("\"e\":\"out\",\"id\":%d,\"lvl\":%d,\"line\":%d,\"len\":%zu,\"sum\":%u,\"file\":%d", id, lv, line, whole.size(), sum(whole), (int) file_ok);
                acc.erase(0, d + 3 + e + tail.size());
            }
        }
    };
    struct Bad { };
    size_t lens[] = {12, 20, 255, 256, 257, 300, 700};
    std::string text(int id, size_t len)
    {
        std::string s = "m" + std::to_string(id) + ":", t = ";e" + std::to_string(id);
        for (size_t i = 0; s.size() + t.size() < len; ++i) s += "ab {}%\n[x] - "[(i + id) % 13];
        return s + t;
    }
    void log_one(Logger& l, int t, int id, int lvl, size_t len, bool macro, bool fmterr)
    {
        std::string s = text(id, len);
        int line = 0;
#define START(LV, LN) line = LN, ksim::ev("\"e\":\"logS\",\"t\":%d,\"id\":%d,\"lvl\":%d,\"line\":%d,\"len\":%zu,\"sum\":%u", t, id, LV, line, fmterr ? 0 : s.size(), fmterr ? 0 : sum(s))
        int width = -1;
        if (fmterr) { START(4, __LINE__); l.warn(std::source_location::current(), "{:{}}", 1, width); }
        else if (macro)
            switch (lvl)
            {
                case 1: START(1, __LINE__); LOGT(l, "{}", s); break;
                case 2: START(2, __LINE__); LOGD(l, "{}{}", s.substr(0, 5), s.substr(5)); break;
                case 3: START(3, __LINE__); LOGI(l, "{}", s); break;
                case 4: START(4, __LINE__); LOGW(l, "m{}:{}", id, s.substr(s.find(':') + 1)); break;
                case 5: START(5, __LINE__); LOGE(l, "{}", s); break;
            }
        else
            switch (lvl)
            {
                case 1: START(1, __LINE__); l.trace(std::source_location::current(), "{}", s); break;
                case 2: START(2, __LINE__); l.debug(std::source_location::current(), "{}", s); break;
                case 3: START(3, __LINE__); l.info(std::source_location::current(), "{}", s); break;
                case 4: START(4, __LINE__); l.warn(std::source_location::current(), "{}", s); break;
                case 5: START(5, __LINE__); l.error(std::source_location::current(), "{}", std::move(s)); break;
            }
        ksim::ev("\"e\":\"logE\",\"t\":%d", t);
    }
    enum { FLUSH = 1, LEVEL = 2, FMTERR = 4, NOFD = 8, WAIT = 16, SMALL = 32 };
    void scenario(int prods, int per, int opt)
    {
        Sink sink;
        std::ostream os(&sink);
        std::cerr.rdbuf(nullptr);
        static bool fail_efd;
        fail_efd = (opt & NOFD) != 0;
        if (fail_efd) ksim::hooks.fail = [](const char* c, int) { return std::string_view(c) == "eventfd" ? 24 : 0; };
        size_t qs = (opt & SMALL) ? 1u << ksim::rnd(3) : 16;
        int lvl = (int) ksim::rnd(6);
        if (ksim::rnd(2)) lvl = 1 + (int) ksim::rnd(3);
        ksim::ev("\"e\":\"init\",\"cap\":%zu,\"lvl\":%d", MPSCQueue<int>(qs).capacity(), lvl);
        auto l = std::make_unique<Logger>(qs, (LogLevel) lvl, os);
        int np = 1 + (int) ksim::rnd(prods);
        fmterr_id = 99;
        std::vector<std::thread> th;
        struct Item { int id, lvl; size_t len; bool macro, fmt; };
        for (int p = 0; p < np; ++p)
        {
            std::vector<Item> items;
            int n = 1 + (int) ksim::rnd(per);
            for (int k = 0; k < n; ++k)
            {
                bool fe = (opt & FMTERR) && p == 0 && k == n - 1;
                items.push_back({fe ? 99 : (p + 1) * 10 + k, fe ? 4 : 1 + (int) ksim::rnd(5), lens[ksim::rnd(7)], ksim::rnd(2) == 0, fe});
            }
            th.emplace_back([&l, p, items]
            {
                for (auto& i: items) log_one(*l, p + 1, i.id, i.lvl, i.len, i.macro, i.fmt);
            });
        }
        if (opt & LEVEL)
        {
            int n = (int) ksim::rnd(6), m = (int) ksim::rnd(6);
            th.emplace_back([&l, n, m]
            {
                for (int v: {n, m})
                {
                    ksim::ev("\"e\":\"lvlS\",\"lvl\":%d", v);
                    l->set_level((LogLevel) v);
                    ksim::ev("\"e\":\"lvlE\"");
                }
            });
        }
        if (opt & FLUSH)
            for (int k = (int) ksim::rnd(3); k > 0; --k)
            {
                ksim::ev("\"e\":\"flushS\"");
                l->flush();
                ksim::ev("\"e\":\"flushE\"");
            }
        for (auto& t: th) t.join();
        if ((opt & FLUSH) && ksim::rnd(2))
        {
            ksim::ev("\"e\":\"flushS\"");
            l->flush();
            ksim::ev("\"e\":\"flushE\"");
        }
        if ((opt & WAIT) || ksim::rnd(2))
        {
            if (opt & NOFD) for (int k = 0; k < 40; ++k) ksim::quiesce(false), ksim::advance(60'000'000);
            else ksim::quiesce(false);
            ksim::ev("\"e\":\"quiet\"");
        }
        l.reset();
        ksim::ev("\"e\":\"gone\",\"rest\":%zu,\"fds\":%zu", sink.acc.size(), ksim::open_fds());
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"basic", [] { scenario(2, 3, WAIT); }, 10},
        {"full", [] { scenario(3, 4, SMALL); }, 10},
        {"flush", [] { scenario(2, 3, FLUSH | SMALL); }, 10},
        {"level", [] { scenario(2, 3, LEVEL); }, 10},
        {"fmterr", [] { scenario(2, 2, FMTERR | WAIT); }, 10},
        {"nofd", [] { scenario(2, 2, NOFD); }, 10},
    });
}
