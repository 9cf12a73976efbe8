// C22: damaged files and the entry codec; histories for spec/CodecTrace.tla and spec/DamageTrace.tla
#include "kv.h"
#include "crc32c/crc32c.h"
#include "kio/core/errors.h"
using namespace kv;
namespace
{
    // ------------------------------------------------------------------ the codec
    std::string bytes_json(const std::string& s)
    {
        std::string r = "[";
        for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char) s[i]);
        return r + "]";
    }
    std::string rnd_bytes(size_t n)
    {
        std::string s;
        int style = (int) R(3);
        while (s.size() < n) s += style == 0 ? (char) R(256) : style == 1 ? (char) 0 : (char) ('a' + R(26));
        return s;
    }
    DataEntry* orig;
    // what decoding gives: its kind, the length consumed, whether the entry is the original one
    std::string decode(const std::string& b)
    {
        auto r = DataEntry::deserialize(std::span<const char>(b.data(), b.size()));
        if (r)
            return "\"r\":\"ok\",\"n\":" + std::to_string(r->second) + ",\"same\":" +
                   std::to_string((int) (r->first.key == orig->key && r->first.value == orig->value && r->first.flag == orig->flag && r->first.timestamp_ns == orig->timestamp_ns));
        const char* k = r.error().value == kIoNeedMoreData ? "more" : r.error().value == kIoDataCorrupted ? "bad" : r.error().value == kIoDeserialization ? "form" : "?";
        return std::string("\"r\":\"") + k + "\",\"n\":0,\"same\":0";
    }
    void codec(bool large)
    {
        quiet_log();
        ksim::Quiet q;
        size_t kl = large ? R(2000) : R(6), vl = large ? R(5000) : R(8);
        if (large && R(4) == 0) (R(2) ? kl : vl) = 255 + R(3);
        DataEntry e(rnd_bytes(kl), {}, R(3) ? bitcask::kFlagNone : bitcask::kFlagTombstone);
        auto v = rnd_bytes(vl);
        e.value.assign(v.begin(), v.end());
        if (R(3) == 0) e.timestamp_ns = R(2) ? 0 : UINT64_MAX;
        orig = &e;
        auto ser = e.serialize();
        std::string b(ser.begin(), ser.end());
        ksim::ev("\"e\":\"init\",\"kl\":%zu,\"vl\":%zu,\"b\":%s", kl, vl, large ? "[]" : bytes_json(b).c_str());
        auto cut = [&](size_t n) { ksim::ev("\"e\":\"cut\",\"at\":%zu,%s", n, decode(b.substr(0, n)).c_str()); };
        auto tail = [&](const std::string& t) { ksim::ev("\"e\":\"tail\",\"t\":%s,%s", bytes_json(t).c_str(), decode(b + t).c_str()); };
        auto flip = [&](size_t at, int mask)
        {
            std::string c = b;
            c[at] = (char) (c[at] ^ mask);
            ksim::ev("\"e\":\"flip\",\"at\":%zu,\"m\":%d,%s", at, mask, decode(c).c_str());
        };
        ksim::ev("\"e\":\"size\",\"n\":%zu", b.size());
        tail("");
        tail(rnd_bytes(1 + R(30)));
        if (large)
        {
            for (int i = 0; i < 30; ++i) cut(R(b.size()));
            for (int i = 0; i < 60; ++i) flip(R(b.size()), 1 + (int) R(255));
            for (int i = 0; i < 20; ++i) flip(R(20), 1 << R(8));
            cut(b.size() - 1);
        }
        else
        {
            for (size_t n = 0; n < b.size(); ++n) cut(n);
            for (size_t at = 0; at < b.size(); ++at)
                for (int k = 0; k < 3; ++k) flip(at, k == 2 ? 1 + (int) R(255) : 1 << R(8));
        }
        // anything: sizes around the length of the buffer and around overflow, with a wrong or a right checksum
        for (int i = 0; i < 12; ++i)
        {
            std::string c = rnd_bytes(R(40));
            if (c.size() >= 12)
            {
                uint64_t left = c.size() - 12;
                uint64_t size = (uint64_t[]){left, left + 1, left - 1, 0, UINT64_MAX, UINT64_MAX - 11, UINT64_MAX - 12 + R(20), 1ull << 63, (1ull << 32) + left, R(64)}[R(10)];
                memcpy(c.data() + 4, &size, 8);
                if (R(2) && size <= left) { uint32_t crc = crc32c::Crc32c(c.data() + 12, size); memcpy(c.data(), &crc, 4); }
            }
            ksim::ev("\"e\":\"any\",\"b\":%s,%s", bytes_json(c).c_str(), decode(c).c_str());
        }
        // hints
        bitcask::HintEntry h(e.timestamp_ns, ((uint64_t) R(1u << 30) << 20) + R(1000), (uint32_t) R(UINT32_MAX), std::string(e.key), e.flag);
        auto hs = h.serialize();
        auto hr = bitcask::HintEntry::deserialize(std::span<const char>(hs.data(), hs.size()));
        ksim::ev("\"e\":\"hint\",\"ok\":%d", (int) (hr && hr->timestamp_ns == h.timestamp_ns && hr->entry_pos == h.entry_pos && hr->total_sz == h.total_sz && hr->key == h.key && hr->flag == h.flag));
        int bad = 0;
        for (size_t n = 0; n < hs.size(); ++n)
            if (bitcask::HintEntry::deserialize(std::span<const char>(hs.data(), n))) ++bad;
        ksim::ev("\"e\":\"hint\",\"ok\":%d", (int) (bad == 0));
    }
    // ------------------------------------------------------------------ damaged directories
    const char* const keys[] = {"a", "bb", "a much longer key", ""};
    int nkeys;
    bitcask::BitcaskConfig conf;
    std::unique_ptr<W> w;
    std::unique_ptr<bitcask::Partition> p;
    Task<Result<void>> open_partition()
    {
        co_await SwitchToWorker(**w);
        auto r = co_await bitcask::Partition::open(conf, **w, 0);
        if (!r) co_return std::unexpected(r.error());
        p = std::move(*r);
        co_return Result<void>{};
    }
    bool open()
    {
        w = std::make_unique<W>(0, cfg(16, 16, 64, 64));
        w->start();
        bool ok = SyncWait(open_partition()).has_value();
        ksim::ev("\"e\":\"open\",\"ok\":%d", (int) ok);
        return ok;
    }
    void close()
    {
        (void) SyncWait(p->async_close());
        p.reset();
        w->stop();
        w.reset();
    }
    void put(const std::string& k)
    {
        int id;
        std::string v = new_value(id, R(4) * 13);
        auto r = SyncWait(p->put(std::string(k), std::vector<char>(v.begin(), v.end())));
        ksim::ev("\"e\":\"put\",\"key\":%s,\"v\":%d,\"ok\":%d", ksim::jstr(k).c_str(), id, (int) r.has_value());
    }
    void del(const std::string& k)
    {
        auto r = SyncWait(p->del(k));
        ksim::ev("\"e\":\"put\",\"key\":%s,\"v\":0,\"ok\":%d", ksim::jstr(k).c_str(), (int) r.has_value());
    }
    void compact()
    {
        auto r = SyncWait(p->compact());
        ksim::ev("\"e\":\"compact\",\"ok\":%d", (int) r.has_value());
    }
    void get(const std::string& k)
    {
        auto r = SyncWait(p->get(k));
        ksim::ev("\"e\":\"get\",\"key\":%s,\"r\":%d", ksim::jstr(k).c_str(), !r ? -2 : *r ? id_of(**r) : 0);
    }
    void gets()
    {
        for (int k = 0; k < nkeys; ++k) get(keys[k]);
    }
    void ops(int n)
    {
        for (; n > 0; --n)
        {
            int k = (int) R(8);
            const char* key = keys[R((size_t) nkeys)];
            if (k < 5) put(key);
            else if (k < 7) del(key);
            else compact();
        }
    }
    // changes s, gives the first byte that is not what it was; how: what may be done
    size_t harm(std::string& s)
    {
        std::string o = s;
        switch (R(6))
        {
            case 0: s.resize(R(s.size() + 1)); break;                                             // cut off
            case 1: s.resize(s.size() + 1 + R(64), 0); break;                                     // zeros behind
            case 2: s += rnd_bytes(1 + R(64)); break;                                             // garbage behind
            case 3: { size_t n = s.empty() ? 0 : 1 + R(4); while (n--) { size_t at = R(s.size()); s[at] = (char) (s[at] ^ (1 << R(8))); } break; }
            case 4: if (!s.empty()) { size_t a = R(s.size()), n = 1 + R(40); for (size_t i = a; i < s.size() && i < a + n; ++i) s[i] = 0; } break;
            default: if (!s.empty()) { size_t a = R(s.size()), n = 1 + R(40); std::string g = rnd_bytes(n); for (size_t i = a; i < s.size() && i < a + n; ++i) s[i] = g[i - a]; } break;
        }
        size_t d = 0;
        while (d < s.size() && d < o.size() && s[d] == o[d]) ++d;
        return d == o.size() && d == s.size() ? SIZE_MAX : d;
    }
    void damage(bool hints)
    {
        quiet_log();
        char tmpl[] = "c22XXXXXX";
        {
            ksim::Quiet q;
            root = new fs::path(fs::absolute(mkdtemp(tmpl)));
            known = new std::map<std::string, int>;
            nval = 0;
            fs::create_directory(*root / "partition_0");
            conf = {};
            conf.directory = *root;
            conf.max_file_size = (size_t[]){1, 120, 250, 100000}[R(4)];
            conf.sync_on_write = R(2);
            conf.auto_compact = false;
            conf.fragmentation_threshold = (double[]){0.5, 0.25, 0.01}[R(3)];
            conf.read_buffer_size = (size_t[]){16, 64, 4096}[R(3)];
            conf.write_buffer_size = (size_t[]){1, 100, 4096}[R(3)];
            conf.max_open_sealed_files = R(3);
            nkeys = 1 + (int) R(4);
        }
        ksim::ev("\"e\":\"init\"");
        ksim::ev("\"e\":\"quiet\"");
        if (!open()) { ksim::bad("open failed"); return; }
        for (int round = 0; round < 2; ++round)
        {
            ops(2 + (int) R(14));
            if (hints) compact();
            close();
            // ---- damage
            {
                ksim::Quiet q;
                auto files = listing(*root);
                std::map<std::string, std::pair<std::string, size_t>> hurt;   // data file -> contents before, first damaged byte
                int n = 1 + (int) R(3);
                for (auto& f: files)
                    if (is_data(f)) hurt[f] = {slurp(f), SIZE_MAX};
                for (int i = 0; i < n && !files.empty(); ++i)
                {
                    std::string f = files[R(files.size())];
                    if (hints && R(2))
                        for (auto& g: files)
                            if (is_hint(g)) { f = g; break; }
                    std::string s = slurp(f);
                    size_t d = harm(s);
                    if (is_hint(f) && R(6) == 0) { fs::remove(f); continue; }
                    spill(f, s);
                    if (is_data(f)) hurt[f].second = std::min(hurt[f].second, d);
                }
                // things that do not belong there
                if (R(3) == 0)
                {
                    const char* junk[] = {"data_.db", "data_x1.db", "data_99999999999999999999999.db", "hint_12.ht", "data_7.db.tmp", "notes", "data_1 .db", "data_-1.db"};
                    for (size_t k = R(4); k > 0; --k) spill((*root / "partition_0" / junk[R(8)]).string(), rnd_bytes(R(50)));
                    if (R(2)) fs::create_directory(*root / "partition_0" / "data_5.db");
                }
                std::string s;
                for (auto& [f, h]: hurt)
                {
                    auto es = parse(h.first);
                    size_t ok = 0;
                    while (ok < es.size() && es[ok].at + es[ok].n <= h.second) ++ok;
                    s += (s.empty() ? "" : ",") + ("[" + fid(f) + "," + ents_json(h.first) + "," + std::to_string(ok) + "]");
                }
                ksim::ev("\"e\":\"damage\",\"fs\":[%s]", s.c_str());
            }
            if (!open()) { ksim::bad("open of a damaged store failed"); return; }
            gets();
            ops((int) R(5));
            gets();
            if (R(2)) { compact(); gets(); }
            close();
            if (!open()) { ksim::bad("open failed"); return; }
            gets();
        }
        close();
        ksim::quiesce(true);
        ksim::Quiet q;
        fs::remove_all(*root);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"codec", [] { codec(false); }, 2},
        {"codeclarge", [] { codec(true); }, 2},
        {"damage", [] { damage(false); }, 2, 200000},
        {"hints", [] { damage(true); }, 2, 200000},
    });
}
