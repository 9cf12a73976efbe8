// C19, C20, C21, C25: the key-value store under concurrent use, compaction, faults, crashes and loss of power;
// histories for spec/KVTrace.tla and spec/DiskTrace.tla
#include "kv.h"
#include <set>
using namespace kv;
namespace
{
    const char* const keys[] = {"a", "bb", "a much longer key"};
    struct Opt
    {
        int nclients, nops, nkeys;
        bool compact, faults, power, sync;
        int crashes;       // how many times the process dies or the power fails
        bool db;           // through the whole store, several partitions
        bool clock = false;// the clock stands still, goes back, and files from the future exist
        bool slow = false; // opening and reading a file takes long, compared to what compaction does meanwhile
    };
    Opt opt;
    bitcask::BitcaskConfig conf;
    // ---- the store under test
    struct Store
    {
        std::unique_ptr<W> w;
        std::unique_ptr<bitcask::Partition> p;
        std::unique_ptr<bitcask::BitKV> db;
    };
    Store* st;
    size_t nparts;
    Task<Result<void>> open_partition(Store& s)
    {
        co_await SwitchToWorker(**s.w);
        auto r = co_await bitcask::Partition::open(conf, **s.w, 0);
        if (!r) co_return std::unexpected(r.error());
        s.p = std::move(*r);
        co_return Result<void>{};
    }
    WorkerConfig wcfg() { return cfg(16, 16, 64, 64); }
    bool open()
    {
        st = new Store;
        ksim::ev("\"e\":\"opening\"");
        bool ok;
        if (opt.db)
        {
            auto r = SyncWait(bitcask::BitKV::open(conf, wcfg(), nparts));
            ok = r.has_value();
            if (ok) st->db = std::move(*r);
        }
        else
        {
            st->w = std::make_unique<W>(0, wcfg());
            st->w->start();
            ok = SyncWait(open_partition(*st)).has_value();
        }
        ksim::ev("\"e\":\"open\",\"ok\":%d", (int) ok);
        return ok;
    }
    void close()
    {
        Result<void> r{};
        int x = fresh();
        ksim::ev("\"e\":\"sc\",\"x\":%d", x);
        if (opt.db) r = SyncWait(st->db->close());
        else r = SyncWait(st->p->async_close());
        ksim::ev("\"e\":\"sd\",\"x\":%d,\"ok\":%d", x, (int) r.has_value());
        ksim::ev("\"e\":\"close\",\"ok\":%d", (int) r.has_value());
        if (opt.db) st->db.reset();
        else
        {
            if (R(2)) { st->p.reset(); st->w->stop(); }
            else { st->w->stop(); st->p.reset(); }
        }
        delete st;
        st = nullptr;
    }
    void call(int x, const char* k, const std::string& key, int v)
    {
        ksim::ev("\"e\":\"call\",\"x\":%d,\"k\":\"%s\",\"key\":%s,\"v\":%d", x, k, ksim::jstr(key).c_str(), v);
    }
    void ret(int x, bool ok, int v) { ksim::ev("\"e\":\"ret\",\"x\":%d,\"ok\":%d,\"v\":%d", x, (int) ok, v); }
    std::set<std::string>* present;   // as of the last gets
    void do_get(const std::string& key)
    {
        int x = fresh();
        call(x, "get", key, 0);
        auto r = SyncWait(opt.db ? st->db->get(key) : st->p->get(key));
        ret(x, r.has_value(), r && *r ? id_of(**r) : 0);
        ksim::Quiet q;
        if (r && *r) present->insert(key);
        else present->erase(key);
    }
    struct Step { int kind; std::string key; size_t pad; bool ghost; };
    void tick()
    {
        if (opt.clock) { ksim::Quiet q; ksim::wall_offset_ns += ((int64_t) ksim::choose(5) - 2) * 1000000000; }
    }
    void step(const Step& s)
    {
        tick();
        if (s.kind == 0) do_get(s.key);
        else if (s.kind == 1)
        {
            int x = fresh(), id;
            std::string v = new_value(id, s.pad, opt.faults && s.ghost ? s.key.c_str() : nullptr);
            call(x, "put", s.key, id);
            Result<void> r{};
            if (opt.db && s.pad % 2) r = SyncWait(st->db->put(s.key, v));
            else if (opt.db) r = SyncWait(st->db->put(std::string(s.key), std::vector<char>(v.begin(), v.end())));
            else r = SyncWait(st->p->put(std::string(s.key), std::vector<char>(v.begin(), v.end())));
            ret(x, r.has_value(), 0);
        }
        else if (s.kind == 2)
        {
            int x = fresh();
            call(x, "del", s.key, 0);
            auto r = SyncWait(opt.db ? st->db->del(s.key) : st->p->del(s.key));
            ret(x, r.has_value(), 0);
        }
        else if (s.kind == 3)
        {
            int x = fresh();
            ksim::ev("\"e\":\"cc\",\"x\":%d", x);
            auto r = SyncWait(opt.db ? st->db->compact() : st->p->compact());
            ksim::ev("\"e\":\"cd\",\"x\":%d,\"ok\":%d", x, (int) r.has_value());
        }
        else
        {
            int x = fresh();
            ksim::ev("\"e\":\"sc\",\"x\":%d", x);
            auto r = SyncWait(opt.db ? st->db->sync() : st->p->sync());
            ksim::ev("\"e\":\"sd\",\"x\":%d,\"ok\":%d", x, (int) r.has_value());
        }
    }
    std::vector<Step> plan(int n)
    {
        std::vector<Step> r;
        for (int i = 0; i < n; ++i)
        {
            int k = (int) R(opt.compact ? 12 : 10);
            r.push_back({k < 3 ? 0 : k < 7 ? 1 : k < 9 ? 2 : k == 9 ? (R(2) ? 4 : 0) : 3, keys[R((size_t) opt.nkeys)], R(opt.faults ? 2 : 4) * 13, R(2) == 0});
        }
        return r;
    }
    std::string stats_json(const bitcask::Partition& p)
    {
        auto& s = p.get_stats();
        std::string r;
        for (auto& [id, f]: s.data_files)
            r += (r.empty() ? "" : ",") + ("[" + id_json(id) + "," + std::to_string(f.total_bytes) + "," + std::to_string((int64_t) f.live_bytes) + "," + std::to_string((int64_t) f.live_entries) + "]");
        return "\"fs\":[" + r + "],\"puts\":" + std::to_string(s.puts_total) + ",\"gets\":" + std::to_string(s.gets_total) + ",\"miss\":" + std::to_string(s.gets_miss_total) +
               ",\"dels\":" + std::to_string(s.deletes_total) + ",\"gone\":" + std::to_string(s.files_compacted_total) + ",\"failed\":" + std::to_string(s.compactions_failed) +
               ",\"running\":" + std::to_string((int) s.compaction_running) + ",\"act\":" + id_json(p.active_file_id());
    }
    void stat()
    {
        if (opt.db) return;
        ksim::quiesce(false);
        ksim::Quiet q;
        ksim::ev("\"e\":\"stat\",\"keys\":%d,%s", (int) present->size(), stats_json(*st->p).c_str());
    }
    void clients(std::vector<std::thread*>& ts, int n)
    {
        for (int k = 0; k < n; ++k)
        {
            auto p = plan(1 + (int) R((size_t) opt.nops));
            ts.push_back(new std::thread([p] { for (auto& s: p) step(s); }));
        }
    }
    void run(Opt o)
    {
        opt = o;
        quiet_log();
        char tmpl[] = "c19XXXXXX";
        {
            ksim::Quiet q;
            root = new fs::path(fs::absolute(mkdtemp(tmpl)));
            known = new std::map<std::string, int>;
            present = new std::set<std::string>;
            disk = new Disk;
            nval = xs = 0;
            nparts = o.db ? 1 + R(2) : 1;
            if (!o.db) fs::create_directory(*root / "partition_0");
            conf = {};
            conf.directory = *root;
            conf.max_file_size = (size_t[]){1, 120, 250, 100000}[R(o.compact ? 3 : 4)];
            conf.sync_on_write = o.sync;
            conf.sync_interval = std::chrono::milliseconds(5 + R(20));
            conf.auto_compact = o.compact && R(2);
            conf.fragmentation_threshold = (double[]){0.5, 0.5, 0.25, 0.75}[R(4)];
            conf.compaction_interval_s = std::chrono::milliseconds(R(2) ? 10 : 100000);
            conf.read_buffer_size = (size_t[]){16, 64, 4096}[R(3)];
            conf.write_buffer_size = (size_t[]){1, 100, 4096}[R(3)];
            conf.max_open_sealed_files = R(3);
        }
        if (o.clock)
        {
            // files of the past and the future, some at the end of their second
            ksim::Quiet q;
            uint64_t now = (ksim::now() + (uint64_t) ksim::wall_offset_ns) / 1000000000;
            for (size_t k = R(4); k > 0; --k)
            {
                uint64_t id = (now - 2 + R(5)) << 16 | (R(2) ? R(3) : 65535 - R(3));
                int v;
                std::string val = new_value(v, 5);
                auto e = DataEntry(std::string(keys[R((size_t) o.nkeys)]), std::vector<char>(val.begin(), val.end())).serialize();
                spill((*root / "partition_0" / ("data_" + std::to_string(id) + ".db")).string(), std::string(e.begin(), e.end()));
            }
        }
        disk->reset();
        disk_hooks();
        fault = [](ksim::Op& op, int& res)
        {
            if (op.opcode == IORING_OP_WRITE && op.len > 1 && ksim::choose(4) == 0)   // accepted in pieces
            {
                op.len = 1 + (uint32_t) ksim::choose(op.len - 1);
                return false;
            }
            if (!opt.faults || ksim::choose(10)) return false;
            switch (op.opcode)
            {
                case IORING_OP_WRITE: res = -ENOSPC; break;
                case IORING_OP_READ: res = -EIO; break;
                case IORING_OP_FSYNC:
                    if (opt.power) return false;   // what is on disk after a failed flush is nobody's guess
                    res = -EIO;
                    break;
                case IORING_OP_OPENAT: res = -EMFILE; break;
                case IORING_OP_FALLOCATE: res = -EOPNOTSUPP; break;
                case IORING_OP_UNLINKAT: res = -EIO; break;
                case 55: res = -EIO; break;
                default: return false;
            }
            return true;
        };
        if (o.slow)
        {
            auto disk_submit = ksim::hooks.on_submit;
            ksim::hooks.on_submit = [disk_submit](ksim::Op& op)
            {
                disk_submit(op);
                ksim::Quiet q;
                if (op.opcode == IORING_OP_OPENAT && !(op.op_flags & O_CREAT) && ksim::choose(2)) ksim::slow(op, ksim::choose(60));
                if (op.opcode == IORING_OP_READ && ksim::choose(4) == 0) ksim::slow(op, ksim::choose(40));
            };
        }
        ksim::ev("\"e\":\"init\",\"faults\":%d,\"power\":%d,\"lazy\":%d,\"auto\":%d,\"thr\":%d", (int) o.faults, (int) o.power, (int) (o.power && !o.sync), (int) conf.auto_compact, (int) (conf.fragmentation_threshold * 100));
        emit_disk("preset");
        bool up = open();
        for (int c = 0; up && c < o.crashes; ++c)
        {
            std::vector<std::thread*> ts;
            clients(ts, o.nclients);
            // until something has been done, or not
            for (size_t n = R(o.compact ? 1200 : 600); n > 0; --n) ksim::point();
            ksim::kill_others();
            fault = nullptr;
            ksim::ev("\"e\":\"crash\"");
            bool off = o.power && R(3);   // the process alone may die as well: then nothing is lost, nor more durable than before
            {
                ksim::Quiet q;
                if (off) { disk->power_loss(); disk->reset(); }
                disk->fds.clear();
            }
            if (off) emit_disk("disk");
            // again while recovering?
            if (R(4) == 0)
            {
                auto* t = new std::thread([] { open(); });
                (void) t;
                for (size_t n = R(100); n > 0; --n) ksim::point();
                ksim::kill_others();
                ksim::ev("\"e\":\"crash\"");
                off = o.power && R(3);
                {
                    ksim::Quiet q;
                    if (off) { disk->power_loss(); disk->reset(); }
                    disk->fds.clear();
                }
                if (off) emit_disk("disk");
            }
            tick();
            up = open();
            if (!up) { ksim::bad("recovery failed"); return; }
            for (int k = 0; k < o.nkeys; ++k) do_get(keys[k]);
        }
        for (int round = 0; up && round < 2; ++round)
        {
            std::vector<std::thread*> ts;
            if (o.slow)
            {
                // files of which some is in use and some is not
                for (size_t n = 3 + R(6); n > 0; --n) step({R(5) ? 1 : 2, keys[R((size_t) o.nkeys)], 13, false});
                ts.push_back(new std::thread([] {
                    for (size_t n = 1 + R(2); n > 0; --n)
                    {
                        for (size_t d = R(3); d > 0; --d) step({2 - (int) R(4) / 3, keys[R((size_t) opt.nkeys)], 13, false});
                        step({3, "", 0, false});
                    }
                }));
                for (int k = 0; k < 2; ++k)
                    ts.push_back(new std::thread([] { for (size_t n = 1 + R(2); n > 0; --n) do_get(keys[R((size_t) opt.nkeys)]); }));
            }
            else clients(ts, o.nclients);
            for (auto* t: ts) { t->join(); delete t; }
            fault = nullptr;
            for (int k = 0; k < o.nkeys; ++k) do_get(keys[k]);
            stat();
            if (o.compact && !o.faults && !o.db && R(2))
            {
                step({3, "", 0, false});
                stat();
            }
            close();
            tick();
            up = open();
            if (!up) { ksim::bad("reopening failed"); return; }
            for (int k = 0; k < o.nkeys; ++k) do_get(keys[k]);
            stat();
        }
        if (up) close();
        ksim::quiesce(true);
        ksim::Quiet q;
        fs::remove_all(*root);
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"kv", [] { run({3, 3, 2, false, false, false, false, 0, false}); }, 4},
        {"compact", [] { run({3, 5, 3, true, false, false, false, 0, false}); }, 4, 200000},
        {"faults", [] { run({2, 5, 2, true, true, false, R(2) == 0, 0, false}); }, 4, 200000},
        {"faultcrash", [] { run({2, 6, 2, true, true, false, R(2) == 0, 1 + (int) R(2), false}); }, 4, 200000},
        {"crash", [] { run({2, 6, 2, true, false, false, R(2) == 0, 1 + (int) R(2), false}); }, 4, 200000},
        {"power", [] { run({2, 6, 2, true, false, true, true, 1 + (int) R(3), false}); }, 4, 200000},
        {"powerfault", [] { run({2, 6, 2, true, true, true, R(2) == 0, 1 + (int) R(3), false}); }, 4, 200000},
        {"slowpower", [] { run({2, 3, 3, true, true, true, R(2) == 0, 0, false, false, true}); }, 4, 200000},
        {"lazypower", [] { run({2, 6, 2, true, false, true, false, 1 + (int) R(3), false}); }, 4, 200000},
        {"clock", [] { run({2, 6, 2, R(2) == 0, false, false, R(2) == 0, (int) R(2), false, true}); }, 4, 200000},
        {"slow", [] { run({2, 3, 3, true, false, false, false, 0, false, false, true}); }, 4, 200000},
        {"slowfault", [] { run({2, 3, 3, true, true, false, R(2) == 0, 0, false, false, true}); }, 4, 200000},
        {"db", [] { run({3, 4, 3, R(2) == 0, false, false, R(2) == 0, (int) R(2), true}); }, 4, 200000},
    });
}
