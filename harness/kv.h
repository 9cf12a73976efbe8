// Shared by the harnesses of the key-value store: values with identity, the directory as seen from outside,
// what survives the loss of everything that was not flushed.
#pragma once
#include "wk.h"
#include "bitcask/include/bitcask.h"
#include "bitcask/include/entry.h"
#include "bitcask/include/partition.h"
#include <dirent.h>
#include <filesystem>
#include <fstream>
#include <set>
namespace kv
{
    using namespace wk;
    namespace fs = std::filesystem;
    using bitcask::DataEntry;
    inline fs::path* root;              // scratch directory of this run
    inline std::map<std::string, int>* known;   // contents of the values stored so far
    inline int nval;
    inline std::string value_of(int id, size_t pad) { std::string s = "v" + std::to_string(id); return s + std::string(6 - s.size() + pad, (char) ('a' + id % 26)); }
    // ghost: a key whose entry, with a value that is never stored, is part of the value
    inline std::string new_value(int& id, size_t pad, const char* ghost = nullptr)
    {
        ksim::Quiet q;
        id = ++nval;
        std::string s = value_of(id, pad);
        if (ghost)
        {
            std::string g = "never";
            auto e = DataEntry(std::string(ghost), std::vector<char>(g.begin(), g.end())).serialize();
            s += std::string(e.begin(), e.end()) + std::string(40, 'z');
        }
        (*known)[s] = id;
        return s;
    }
    inline int id_of(const std::string& s)
    {
        ksim::Quiet q;
        auto it = known->find(s);
        return it == known->end() ? -1 : it->second;
    }
    inline int id_of(const std::vector<char>& v) { return id_of(std::string(v.begin(), v.end())); }

    // ---- the directory
    inline std::string slurp(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(f), {});
    }
    inline void spill(const std::string& p, const std::string& s)
    {
        std::ofstream f(p, std::ios::binary | std::ios::trunc);
        f.write(s.data(), (std::streamsize) s.size());
    }
    inline std::vector<std::string> listing(const fs::path& d)
    {
        std::vector<std::string> r;
        std::error_code ec;
        for (auto& e: fs::recursive_directory_iterator(d, ec))
            if (e.is_regular_file()) r.push_back(e.path().string());
        std::sort(r.begin(), r.end());
        return r;
    }
    inline bool is_data(const std::string& p) { auto n = fs::path(p).filename().string(); return n.starts_with("data_") && n.ends_with(".db"); }
    inline bool is_hint(const std::string& p) { auto n = fs::path(p).filename().string(); return n.starts_with("hint_") && n.ends_with(".ht"); }
    inline std::string id_json(uint64_t id)   // three limbs: partition, 24 bits, 24 bits
    {
        return "[" + std::to_string(id >> 48) + "," + std::to_string((id >> 24) & 0xffffff) + "," + std::to_string(id & 0xffffff) + "]";
    }
    inline uint64_t file_id(const std::string& p) { return strtoull(fs::path(p).filename().string().c_str() + 5, nullptr, 10); }
    inline std::string fid(const std::string& p) { return id_json(file_id(p)); }
    struct Ent { std::string k; int v; int t; uint64_t at, n; };
    inline std::vector<Ent> parse(const std::string& s)
    {
        std::vector<Ent> r;
        size_t at = 0;
        while (at < s.size())
        {
            auto e = DataEntry::deserialize(std::span<const char>(s.data() + at, s.size() - at));
            if (!e) break;
            r.push_back({e->first.key, e->first.is_tombstone() ? 0 : id_of(e->first.value), e->first.is_tombstone(), at, e->second});
            at += e->second;
        }
        return r;
    }
    inline std::string ents_json(const std::string& s)
    {
        std::string r = "[";
        for (auto& e: parse(s)) r += std::string(r.size() > 1 ? "," : "") + "[" + ksim::jstr(e.k) + "," + std::to_string(e.v) + "," + std::to_string(e.t) + "," + std::to_string(e.n) + "]";
        return r + "]";
    }

    // ---- what is durable: file contents at their last flush, names at the last flush of their directory; names become durable in order
    struct Disk
    {
        struct F { std::string synced, last; };
        std::map<std::string, F> files;                        // every file that exists, or whose removal is not durable
        std::set<std::string> names;                           // durable names
        std::vector<std::pair<bool, std::string>> log;         // (created, path) since then
        std::map<int, std::string> fds;
        bool exists(const std::string& p)
        {
            bool r = names.count(p);
            for (auto& [c, q]: log)
                if (q == p) r = c;
            return r;
        }
        void reset()
        {
            files.clear(); names.clear(); log.clear(); fds.clear();
            for (auto& p: listing(*root)) { std::string s = slurp(p); files[p] = {s, s}; names.insert(p); }
        }
        void power_loss()
        {
            std::set<std::string> n = names;
            size_t upto = ksim::choose(log.size() + 1);
            for (size_t i = 0; i < upto; ++i) { if (log[i].first) n.insert(log[i].second); else n.erase(log[i].second); }
            for (auto& [p, f]: files)
                if (exists(p)) f.last = slurp(p);
            for (auto& p: listing(*root)) fs::remove(p);
            for (auto& p: n)
            {
                auto& f = files[p];
                std::string s;
                switch (ksim::choose(4))
                {
                    case 0: s = f.synced; break;
                    case 1: s = f.last; break;
                    case 2: s = f.synced; s.resize(std::max(s.size(), f.last.size()), 0); break;   // the size is, the contents are not
                    default:
                    {
                        size_t d = 0;
                        while (d < s.size() && d < f.last.size() && f.synced[d] == f.last[d]) ++d;
                        s = f.last.substr(0, std::min(f.last.size(), f.synced.size()));
                        s = f.last.size() >= f.synced.size() ? f.last.substr(0, f.synced.size() + ksim::choose(f.last.size() - f.synced.size() + 1)) : f.synced;
                    }
                }
                spill(p, s);
            }
        }
    };
    inline Disk* disk;
    inline bool track_writes = true;
    inline std::function<bool(ksim::Op&, int&)> fault;
    inline void disk_hooks()
    {
        ksim::hooks.exec = [](ksim::Op& op, int& res) -> bool
        {
            if (ksim::is_fake(op.fd)) return false;
            return fault && fault(op, res);
        };
        ksim::hooks.on_complete = [](ksim::Op& op, int res)
        {
            ksim::Quiet q;
            if (res < 0 && !(op.opcode == IORING_OP_WRITE || op.opcode == 55)) return;
            auto path = [&](int fd) { auto it = disk->fds.find(fd); return it == disk->fds.end() ? std::string() : it->second; };
            switch (op.opcode)
            {
                case IORING_OP_OPENAT:
                {
                    disk->fds[res] = op.path;
                    if (!(op.op_flags & O_CREAT)) return;
                    if (disk->exists(op.path))
                    {
                        if (is_data(op.path)) ksim::ev("\"e\":\"again\",\"f\":%s", fid(op.path).c_str());   // a data file is never opened for writing twice
                        return;
                    }
                    disk->log.push_back({true, op.path});
                    disk->files[op.path] = {};
                    if (is_data(op.path)) ksim::ev("\"e\":\"cr\",\"f\":%s", fid(op.path).c_str());
                    return;
                }
                case IORING_OP_WRITE:
                case IORING_OP_WRITEV:
                case 55:
                {
                    std::string p = path(op.fd);
                    if (is_data(p)) ksim::ev("\"e\":\"fl\",\"f\":%s,\"x\":%d,\"es\":%s", fid(p).c_str(), (int) disk->exists(p), disk->exists(p) ? ents_json(slurp(p)).c_str() : "[]");
                    return;
                }
                case IORING_OP_FSYNC:
                {
                    std::string p = path(op.fd);
                    if (is_data(p) || is_hint(p))
                    {
                        if (disk->exists(p)) disk->files[p].synced = slurp(p);
                        if (is_data(p)) ksim::ev("\"e\":\"sy\",\"f\":%s", fid(p).c_str());
                    }
                    else if (fs::is_directory(p))
                    {
                        std::vector<std::pair<bool, std::string>> rest;
                        for (auto& [c, n]: disk->log)
                        {
                            if (fs::path(n).parent_path() != fs::path(p)) rest.push_back({c, n});
                            else if (c) disk->names.insert(n);
                            else disk->names.erase(n);
                        }
                        disk->log = rest;
                        ksim::ev("\"e\":\"ds\",\"p\":%d", atoi(fs::path(p).filename().string().substr(10).c_str()));
                    }
                    return;
                }
                case IORING_OP_UNLINKAT:
                    disk->log.push_back({false, op.path});
                    if (is_data(op.path)) ksim::ev("\"e\":\"rm\",\"f\":%s", fid(op.path).c_str());
                    return;
                default: return;
            }
        };
        // contents of a file about to be removed
        ksim::hooks.on_submit = [](ksim::Op& op)
        {
            ksim::Quiet q;
            if (op.opcode == IORING_OP_UNLINKAT && disk->files.count(op.path)) disk->files[op.path].last = slurp(op.path);
        };
        ksim::hooks.on_fd = [](int, const char* what)
        {
            if (std::string(what) == "badclose") ksim::bad("badclose");
        };
    }
    // what the directory holds, at the start of a run and after everything unflushed was lost
    inline void emit_disk(const char* e)
    {
        ksim::Quiet q;
        std::string s;
        for (auto& p: listing(*root))
            if (is_data(p)) s += (s.empty() ? "" : ",") + ("[" + fid(p) + "," + ents_json(slurp(p)) + "]");
        ksim::ev("\"e\":\"%s\",\"fs\":[%s]", e, s.c_str());
    }
    inline int xs;
    inline int fresh() { ksim::Quiet q; return ++xs; }
}
