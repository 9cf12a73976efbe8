// C23: file identifiers, routing and the manifest; histories for spec/FileIdTrace.tla and spec/TopologyTrace.tla
#include "kv.h"
#include "bitcask/include/file_id.h"
#include "crc32c/crc32c.h"
using namespace kv;
namespace
{
    // ------------------------------------------------------------------ the generator
    void clock_to(uint64_t sec) { ksim::wall_offset_ns = (int64_t) (sec * 1000000000ull) - (int64_t) ksim::now(); }
    std::string id4(uint64_t id) { return "[" + std::to_string(id >> 48) + "," + std::to_string((id >> 32) & 0xffff) + "," + std::to_string((id >> 16) & 0xffff) + "," + std::to_string(id & 0xffff) + "]"; }
    void generator()
    {
        quiet_log();
        ksim::Quiet q;
        uint16_t part = (uint16_t[]){0, 1, 7, 65535}[R(4)];
        uint64_t t = 1000 + R(3000000000u);
        clock_to(t);
        bitcask::FileIdGenerator g(part);
        ksim::ev("\"e\":\"init\",\"p\":%d", (int) part);
        uint64_t last = 0;
        for (int n = 1 + (int) R(3); n > 0; --n)
        {
            // existing files
            if (R(2))
            {
                bitcask::FileID f{part, (uint32_t) (t - 3 + R(7)), (uint16_t) (R(2) ? R(5) : 65535 - R(4))};
                ksim::ev("\"e\":\"exist\",\"id\":%s", id4(f.encode()).c_str());
                g.advance_past(f.encode());
            }
            for (int k = (int) R(12); k > 0; --k)
            {
                if (R(3) == 0) { t = t + 3 - R(6); clock_to(t); }
                last = g.next();
                auto d = bitcask::FileID::decode(last);
                if (d.encode() != last || g.partition_id() != part) ksim::bad("identifier does not survive decoding");
                ksim::ev("\"e\":\"next\",\"id\":%s", id4(last).c_str());
            }
            if (R(20) == 0)
            {
                // a full second, and more
                bool inc = true;
                for (int k = 0; k < 66000; ++k)
                {
                    uint64_t id = g.next();
                    if (k == 0 && id <= last) inc = false;
                    if (k > 0 && id <= last) inc = false;
                    last = id;
                }
                ksim::ev("\"e\":\"many\",\"inc\":%d,\"id\":%s", (int) inc, id4(last).c_str());
            }
        }
    }
    // ------------------------------------------------------------------ the store
    bitcask::BitcaskConfig conf;
    std::unique_ptr<bitcask::BitKV> db;
    WorkerConfig wcfg() { return cfg(16, 16, 64, 64); }
    // everything on disk: names, kinds, contents
    std::map<std::string, std::string> snapshot()
    {
        ksim::Quiet q;
        std::map<std::string, std::string> r;
        std::error_code ec;
        for (auto& e: fs::recursive_directory_iterator(*root, ec)) r[e.path().string()] = e.is_directory() ? "<dir>" : slurp(e.path().string());
        return r;
    }
    const char* const words[] = {"", "a", "b", "key", "another key", "0", "zz top"};
    // partition -> bytes of data files
    std::string routed;
    bool open(size_t n)
    {
        std::map<std::string, std::string> before, after;
        { ksim::Quiet q; before = snapshot(); }
        auto r = SyncWait(bitcask::BitKV::open(conf, wcfg(), n));
        bool ok = r.has_value();
        if (ok) db = std::move(*r);
        ksim::Quiet q;
        after = snapshot();
        ksim::ev("\"e\":\"open\",\"n\":%zu,\"ok\":%d,\"same\":%d", n, (int) ok, (int) (before == after));
        return ok;
    }
    void close()
    {
        (void) SyncWait(db->close());
        db.reset();
    }
    // the partition whose data files hold an entry of that key with that value
    int where(const std::string& k, int v)
    {
        ksim::Quiet q;
        int r = -1;
        for (auto& p: listing(*root))
        {
            if (!is_data(p)) continue;
            for (auto& e: parse(slurp(p)))
                if (e.k == k && e.v == v)
                {
                    int part = atoi(fs::path(p).parent_path().filename().string().substr(10).c_str());
                    if (r != -1 && r != part) return -2;
                    r = part;
                    if ((int) (file_id(p) >> 48) != part) return -3;
                }
        }
        return r;
    }
    std::string manifest() { ksim::Quiet q; return (*root / "MANIFEST").string(); }
    void use(int n)
    {
        for (; n > 0; --n)
        {
            std::string k = words[R(7)];
            if (R(2))
            {
                int id;
                std::string v = new_value(id, R(3) * 20);
                bool ok = R(2) ? SyncWait(db->put(k, v)).has_value() : SyncWait(db->put(std::string(k), std::vector<char>(v.begin(), v.end()))).has_value();
                ksim::ev("\"e\":\"put\",\"key\":%s,\"v\":%d,\"ok\":%d,\"p\":%d", ksim::jstr(k).c_str(), id, (int) ok, where(k, id));
            }
            else
            {
                int v = -1;
                if (R(2)) { auto r = SyncWait(db->get(k)); v = !r ? -2 : *r ? id_of(**r) : 0; }
                else { auto r = SyncWait(db->get_string(k)); v = !r ? -2 : *r ? id_of(**r) : 0; }
                ksim::ev("\"e\":\"get\",\"key\":%s,\"v\":%d", ksim::jstr(k).c_str(), v);
            }
        }
    }
    void topology()
    {
        quiet_log();
        char tmpl[] = "c23XXXXXX";
        {
            ksim::Quiet q;
            root = new fs::path(fs::absolute(mkdtemp(tmpl)));
            known = new std::map<std::string, int>;
            nval = 0;
            conf = {};
            conf.directory = R(3) ? *root : *root / "sub" / "dir";
            conf.max_file_size = (size_t[]){1, 120, 100000}[R(3)];
            conf.auto_compact = false;
            conf.sync_on_write = R(2);
        }
        const fs::path base = *root;
        if (conf.directory != base) { ksim::Quiet q; *root = conf.directory; }
        ksim::ev("\"e\":\"init\"");
        size_t n = 1 + R(3);
        // a crash while the store is created
        for (int k = R(2) ? 0 : (int) R(3); k > 0; --k)
        {
            size_t m = R(2) ? n : 1 + R(3);
            ksim::ev("\"e\":\"try\",\"n\":%zu", m);
            auto* t = new std::thread([m] { auto r = SyncWait(bitcask::BitKV::open(conf, wcfg(), m)); if (r) (*r).release(); });
            (void) t;
            for (size_t s = R(80); s > 0; --s) ksim::point();
            ksim::kill_others();
        }
        size_t actual = 0;
        for (int round = 2 + (int) R(5); round > 0; --round)
        {
            size_t m = R(3) ? n : R(4);
            std::string saved;
            bool have = false;
            {
                ksim::Quiet q;
                std::string p = (conf.directory / "MANIFEST").string();
                have = fs::exists(p);
                if (have) saved = slurp(p);
            }
            if (have && actual && R(3) == 0)
            {
                ksim::Quiet q;
                std::string s = saved;
                m = actual;   // (there is no checksum: another number together with that number is not damage that shows)
                switch (R(4))
                {
                    case 0: s.resize(R(s.size())); break;
                    case 1: s += std::string(1 + R(5), (char) R(256)); break;
                    case 2: { size_t at = R(s.size()); s[at] = (char) (s[at] ^ (1 << R(8))); break; }
                    default: for (size_t at = R(s.size()), k = 0; k < 4 && at < s.size(); ++k, ++at) s[at] = (char) R(256);
                }
                if (s != saved)
                {
                    spill((conf.directory / "MANIFEST").string(), s);
                    ksim::ev("\"e\":\"damage\"");
                }
                else have = false;
            }
            else have = false;
            if (open(m)) { actual = m; use((int) R(8)); close(); }
            if (have)
            {
                ksim::Quiet q;
                spill((conf.directory / "MANIFEST").string(), saved);
                ksim::ev("\"e\":\"restored\"");
            }
        }
        ksim::quiesce(true);
        ksim::Quiet q;
        fs::remove_all(base);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"generator", [] { generator(); }, 1},
        {"topology", [] { topology(); }, 2, 200000},
    });
}
