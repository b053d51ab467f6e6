// In-memory model of LevelDB: ordered map, atomic batches, iterators over a snapshot.  A process crash keeps everything
// written (LevelDB hands every write to the OS); a machine crash may lose any suffix of the non-sync writes.
#ifndef VERIF_LEVELDB
#define VERIF_LEVELDB
#include <cassert>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace leveldb {
    class Slice {
      public:
        Slice() = default;
        Slice(const char* d, size_t n) : m_d(d), m_n(n) {}
        Slice(const std::string& s) : m_d(s.data()), m_n(s.size()) {}
        Slice(const char* s) : m_d(s), m_n(std::strlen(s)) {}
        const char* data() const { return m_d; }
        size_t size() const { return m_n; }
        bool empty() const { return m_n == 0; }
        std::string ToString() const { return {m_d, m_n}; }
        char operator[](size_t i) const { return m_d[i]; }

      private:
        const char* m_d = "";
        size_t m_n = 0;
    };
    class Comparator {
      public:
        virtual ~Comparator() = default;
        virtual int Compare(const Slice& a, const Slice& b) const = 0;
        virtual const char* Name() const = 0;
        virtual void FindShortestSeparator(std::string* s, const Slice& l) const = 0;
        virtual void FindShortSuccessor(std::string* k) const = 0;
    };
    class Status {
      public:
        enum K { kOk, kNotFound, kIO };
        Status() = default;
        explicit Status(K k) : m_k(k) {}
        static Status OK() { return Status(kOk); }
        static Status NotFound(const Slice& = {}) { return Status(kNotFound); }
        static Status IOError(const Slice& = {}) { return Status(kIO); }
        bool ok() const { return m_k == kOk; }
        bool IsNotFound() const { return m_k == kNotFound; }
        bool IsIOError() const { return m_k == kIO; }
        std::string ToString() const { return "status"; }

      private:
        K m_k = kOk;
    };
    class Snapshot;
    class FilterPolicy;
    class Cache;
    enum CompressionType { kNoCompression, kSnappyCompression };
    struct Options {
        bool create_if_missing = false, error_if_exists = false, paranoid_checks = false;
        const Comparator* comparator = nullptr;
        size_t write_buffer_size = 0, max_file_size = 0, block_size = 0;
        int max_open_files = 0;
        CompressionType compression = kNoCompression;
        Cache* block_cache = nullptr;
        const FilterPolicy* filter_policy = nullptr;
    };
    struct ReadOptions {
        bool verify_checksums = false, fill_cache = true;
        const Snapshot* snapshot = nullptr;
    };
    struct WriteOptions {
        bool sync = false;
    };
    class WriteBatch {
      public:
        struct Op {
            bool put;
            std::string k, v;
        };
        void Put(const Slice& k, const Slice& v) { ops.push_back({true, k.ToString(), v.ToString()}); }
        void Delete(const Slice& k) { ops.push_back({false, k.ToString(), {}}); }
        void Clear() { ops.clear(); }
        std::vector<Op> ops;
    };
    struct Less {
        const Comparator* c = nullptr;
        bool operator()(const std::string& a, const std::string& b) const {
            return c != nullptr ? c->Compare(Slice(a), Slice(b)) < 0 : a.compare(b) < 0;
        }
    };
    using Table = std::map<std::string, std::string, Less>;
    struct Disk { // one database directory
        std::shared_ptr<Table> t;
        uint64_t writes = 0;
        bool fail = false; // the next writes fail
        bool fail_reads = false;
        bool track = false; // keep what a machine crash could lose
        std::vector<std::shared_ptr<Table>> undo;
        // a machine crash loses the last n writes that were not synchronous
        void crash(size_t n) {
            if(n > 0 && n <= undo.size())
                t = undo[undo.size() - n];
            undo.clear();
        }
        bool open = false;
    };
    inline std::map<std::string, std::shared_ptr<Disk>>& disks() {
        static std::map<std::string, std::shared_ptr<Disk>> d;
        return d;
    }
    class Iterator {
      public:
        Iterator(Table t) : m_t(std::move(t)) {
            m_i = m_t.end();
        }
        bool Valid() const { return m_i != m_t.end(); }
        void SeekToFirst() { m_i = m_t.begin(); }
        void SeekToLast() {
            m_i = m_t.end();
            if(!m_t.empty())
                --m_i;
        }
        void Seek(const Slice& k) { m_i = m_t.lower_bound(k.ToString()); }
        void Next() { ++m_i; }
        void Prev() {
            if(m_i == m_t.begin())
                m_i = m_t.end();
            else
                --m_i;
        }
        Slice key() const { return Slice(m_i->first); }
        Slice value() const { return Slice(m_i->second); }
        Status status() const { return {}; }

      private:
        Table m_t;
        Table::iterator m_i;
    };
    class DB {
      public:
        static Status Open(const Options& o, const std::string& name, DB** db) {
            auto& d = disks()[name];
            if(!d) {
                if(!o.create_if_missing)
                    return Status::IOError();
                d = std::make_shared<Disk>();
                d->t = std::make_shared<Table>(Less{o.comparator});
            } else {
                if(d->open)
                    return Status::IOError(); // locked
                auto nt = std::make_shared<Table>(Less{o.comparator});
                for(auto& e : *d->t)
                    nt->insert(e);
                d->t = nt;
            }
            d->open = true;
            *db = new DB(d);
            return Status::OK();
        }
        virtual ~DB() { m_d->open = false; }
        Status Put(const WriteOptions& w, const Slice& k, const Slice& v) {
            WriteBatch b;
            b.Put(k, v);
            return Write(w, &b);
        }
        Status Delete(const WriteOptions& w, const Slice& k) {
            WriteBatch b;
            b.Delete(k);
            return Write(w, &b);
        }
        Status Write(const WriteOptions& w, WriteBatch* b) {
            if(m_d->fail)
                return Status::IOError();
            if(m_d->track) {
                if(w.sync)
                    m_d->undo.clear();
                else
                    m_d->undo.push_back(std::make_shared<Table>(*m_d->t));
            }
            m_d->writes++;
            for(auto& op : b->ops) {
                m_d->t->erase(op.k);
                if(op.put)
                    m_d->t->insert({op.k, op.v});
            }
            return Status::OK();
        }
        Status Get(const ReadOptions& r, const Slice& k, std::string* v) {
            if(m_d->fail_reads)
                return Status::IOError();
            const auto& t = r.snapshot != nullptr ? snap(r.snapshot) : *m_d->t;
            auto it = t.find(k.ToString());
            if(it == t.end())
                return Status::NotFound();
            *v = it->second;
            return Status::OK();
        }
        Iterator* NewIterator(const ReadOptions& r) { return new Iterator(r.snapshot != nullptr ? snap(r.snapshot) : *m_d->t); }
        const Snapshot* GetSnapshot() { return reinterpret_cast<const Snapshot*>(new Table(*m_d->t)); }
        void ReleaseSnapshot(const Snapshot* s) { delete reinterpret_cast<const Table*>(s); }

      private:
        explicit DB(std::shared_ptr<Disk> d) : m_d(std::move(d)) {}
        static const Table& snap(const Snapshot* s) { return *reinterpret_cast<const Table*>(s); }
        std::shared_ptr<Disk> m_d;
    };
}
#endif
