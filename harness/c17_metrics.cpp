// C17: random collectors, concurrent registration and scraping; histories for spec/MetricsTrace.tla
#include "kio/metrics/registry.h"
#include "ksim.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <thread>
using namespace kio;
namespace
{
    struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    size_t R(size_t n) { return ksim::rnd(n); }
    std::string bytes(const std::string& s)
    {
        std::string o = "[";
        for (size_t i = 0; i < s.size(); ++i) { if (i) o += ","; o += std::to_string((unsigned char) s[i]); }
        return o + "]";
    }
    std::string bits(double d)
    {
        if (std::isnan(d)) return "nan";
        uint64_t u;
        memcpy(&u, &d, 8);
        char b[32];
        snprintf(b, sizeof b, "%016llx", (unsigned long long) u);
        return b;
    }
    double value()
    {
        switch (R(14))
        {
            case 0: return 0;
            case 1: return -0.0;
            case 2: return std::numeric_limits<double>::infinity();
            case 3: return -std::numeric_limits<double>::infinity();
            case 4: return std::nan("");
            case 5: return 1234567.0 + (double) R(1000000000);
            case 6: return 0.1 * (double) R(1000);
            case 7: return std::numeric_limits<double>::denorm_min();
            case 8: return std::numeric_limits<double>::max();
            case 9: return 9007199254740993.0;
            case 10: return (double) (uint64_t) -1;
            case 11: return -1e-300 * (double) R(99);
            case 12:
            {
                uint64_t u = 0;
                for (int i = 0; i < 4; ++i) u = u << 16 | R(65536);
                double d;
                memcpy(&d, &u, 8);
                return d;
            }
            default: return (double) R(100);
        }
    }
    std::string text(size_t max)
    {
        static const char* pieces[] = {"\\", "\"", "\n", "\\n", " ", "{", "}", ",", "=", "#", "a", "b0", "\t", "\r", "\xc3\xa9", "\\\\", "HELP", "1"};
        std::string s;
        size_t n = R(max + 1);
        for (size_t i = 0; i < n; ++i) s += pieces[R(sizeof pieces / sizeof *pieces)];
        return s;
    }
    std::string key(size_t i)
    {
        static const char* k[] = {"a", "Z_9", "_x", "le", "worker_id", "a1"};
        return k[i];
    }
    struct Fam { std::string name, help; MetricType type; size_t max; };
    struct Out { const char* name; const char* help; int type; int max; };
    thread_local int scrape_id = -1;
    int next_scrape = 0;
    // names shared by collectors come with the same help, type and limit
    Fam family(int cid, size_t i)
    {
        if (R(3) == 0) return {"shared_total", "same everywhere", MetricType::Counter, 100};
        Fam f;
        f.name = "f" + std::to_string(cid) + "_" + std::to_string(i) + (R(2) ? ":x" : "");
        f.help = text(6);
        while (!f.help.empty() && (f.help[0] == ' ' || f.help[0] == '\t')) f.help.erase(0, 1);
        f.type = R(2) ? MetricType::Counter : MetricType::Gauge;
        f.max = R(3) ? 100 : R(4);
        return f;
    }
    struct Coll : IMetricsCollector
    {
        int id;
        bool throws;
        std::vector<Fam> fams;
        // what to report is drawn when the collector is made: scrapes run in an order the schedule decides
        struct S { size_t fam; std::map<std::string, std::string> labels; double v; };
        std::vector<S> samples;
        bool interleave;
        Coll(int i, bool may_throw) : id(i)
        {
            throws = may_throw && R(6) == 0;
            interleave = R(2);
            size_t n = R(4);
            for (size_t k = 0; k < n; ++k)
            {
                Fam f = family(id, k);
                bool dup = false;
                for (auto& o: fams) dup |= o.name == f.name;
                if (!dup) fams.push_back(f);
            }
            for (size_t k = 0; k < fams.size(); ++k)
            {
                size_t m = R(4);
                for (size_t j = 0; j < m; ++j)
                {
                    S s{k, {}, value()};
                    size_t l = R(4);
                    for (size_t x = 0; x < l; ++x) s.labels[key(R(6))] = text(4);
                    samples.push_back(s);
                }
            }
            if (interleave) for (size_t k = samples.size(); k > 1; --k) std::swap(samples[k - 1], samples[R(k)]);
        }
        void Collect(MetricSnapshot& snap) override
        {
            std::string f, s;
            {
                ksim::Quiet q;
                for (auto& x: fams)
                    f += (f.empty() ? "" : ",") + std::string("{\"name\":") + bytes(x.name) + ",\"help\":" + bytes(x.help) + ",\"type\":" + bytes(x.type == MetricType::Counter ? "counter" : "gauge") + ",\"max\":" + std::to_string(x.max) + "}";
                for (auto& x: samples)
                {
                    s += (s.empty() ? "" : ",") + std::string("{\"f\":") + std::to_string(x.fam + 1) + ",\"bits\":\"" + bits(x.v) + "\",\"labels\":[";
                    bool first = true;
                    for (auto& [k, v]: x.labels) { s += (first ? "[" : ",[") + bytes(k) + "," + bytes(v) + "]"; first = false; }
                    s += "]}";
                }
                ksim::ev("\"e\":\"collect\",\"s\":%d,\"c\":%d,\"thr\":%d,\"fams\":[%s],\"samples\":[%s]", scrape_id, id, throws, f.c_str(), s.c_str());
            }
            if (interleave)
            {
                std::vector<MetricFamily*> refs;
                for (auto& x: fams) refs.push_back(&snap.BuildFamily(x.name, x.help, x.type, x.max));
                for (auto& x: samples) refs[x.fam]->Add(x.labels, x.v);
            }
            else
                for (size_t k = 0; k < fams.size(); ++k)
                {
                    auto& r = snap.BuildFamily(fams[k].name, fams[k].help, fams[k].type, fams[k].max);
                    for (auto& x: samples) if (x.fam == k) r.Add(x.labels, x.v);
                }
            if (throws) throw std::runtime_error("collector");
        }
    };
    void scrape()
    {
        int id;
        { ksim::Quiet q; id = ++next_scrape; }
        scrape_id = id;
        ksim::ev("\"e\":\"scrapeS\",\"s\":%d", id);
        std::string t;
        bool threw = false;
        try { t = MetricsRegistry<>::Instance().Scrape(); }
        catch (const std::runtime_error&) { threw = true; }
        ksim::Quiet q;
        // every last token of a line, read back as a number
        std::string nums;
        for (size_t p = 0; p < t.size();)
        {
            size_t e = t.find('\n', p);
            if (e == std::string::npos) e = t.size();
            std::string line = t.substr(p, e - p);
            p = e + 1;
            size_t b = line.find_last_of(' ');
            if (line.empty() || line[0] == '#' || b == std::string::npos) continue;
            std::string tok = line.substr(b + 1);
            char* end;
            double d = strtod(tok.c_str(), &end);
            bool hex = tok.find('x') != std::string::npos || tok.find('X') != std::string::npos || tok.find('(') != std::string::npos;
            if (tok.empty() || *end || hex) continue;
            nums += (nums.empty() ? "[" : ",[") + bytes(tok) + ",\"" + bits(d) + "\"]";
        }
        ksim::ev("\"e\":\"scrapeE\",\"s\":%d,\"thr\":%d,\"text\":%s,\"nums\":[%s]", id, threw, bytes(t).c_str(), nums.c_str());
    }
    void reg(int id, std::shared_ptr<Coll> c)
    {
        ksim::ev("\"e\":\"regS\",\"c\":%d", id);
        MetricsRegistry<>::Instance().Register(std::move(c));
        ksim::ev("\"e\":\"regE\",\"c\":%d", id);
    }
    void scenario(int nthreads)
    {
        static NullBuf nb;
        static std::ostream os(&nb);
        alog::configure(64, LogLevel::Disabled, os);
        next_scrape = 0;
        ksim::ev("\"e\":\"init\"");
        int nc = 1 + (int) R(3);
        std::vector<std::shared_ptr<Coll>> cs;
        for (int i = 0; i < nc; ++i) cs.push_back(std::make_shared<Coll>(i + 1, nthreads > 0));
        if (nthreads == 0)
        {
            int k = 0;
            for (auto& c: cs) { reg(++k, c); if (R(4) == 0) scrape(); }
            scrape();
            return;
        }
        std::vector<std::thread> th;
        int k = 0;
        for (auto& c: cs)
        {
            int id = ++k;
            if (R(3)) th.emplace_back([id, c] { reg(id, c); });
            else reg(id, c);
        }
        for (int i = 0; i < nthreads; ++i) th.emplace_back([] { scrape(); });
        for (auto& t: th) t.join();
        if (R(2)) scrape();
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"text", [] { scenario(0); }, 1},
        {"threads", [] { scenario(2); }, 4},
    });
}
