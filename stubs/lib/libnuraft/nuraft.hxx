// Model of the parts of NuRaft that the repository uses.  Replication is a single ordered log: append_entries hands the
// entry to a hook (default: commit at once on the local state machine), so a harness decides what is accepted and when.
#ifndef VERIF_NURAFT
#define VERIF_NURAFT
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_set>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <memory>
#include <exception>
#include <string>
#include <vector>
namespace nuraft {
    using ulong = uint64_t;
    using byte = unsigned char;
    using int32 = int32_t;
    template<typename T>
    using ptr = std::shared_ptr<T>;
    template<typename T, typename... A>
    ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }
    class buffer {
      public:
        static ptr<buffer> alloc(size_t n) { return ptr<buffer>(new buffer(n)); }
        static ptr<buffer> copy(const buffer& b) {
            auto r = alloc(b.size() - b.pos());
            if(r->size() != 0)
                std::memcpy(r->data_begin(), b.m_d.get() + b.m_pos, r->size());
            return r;
        }
        static ptr<buffer> clone(const buffer& b) {
            auto r = alloc(b.size());
            if(r->size() != 0)
                std::memcpy(r->data_begin(), b.m_d.get(), r->size());
            return r;
        }
        size_t size() const { return m_n; }
        size_t pos() const { return m_pos; }
        void pos(size_t p) { m_pos = p > m_n ? m_n : p; }
        byte* data() const { return m_d.get() + m_pos; }
        byte* data_begin() const { return m_d.get(); }
        void put_raw(const byte* p, size_t n) {
            need(n);
            if(n != 0)
                std::memcpy(m_d.get() + m_pos, p, n);
            m_pos += n;
        }
        const byte* get_raw(size_t n) {
            need(n);
            auto* r = m_d.get() + m_pos;
            m_pos += n;
            return r;
        }
        void put(ulong v) { put_raw(reinterpret_cast<const byte*>(&v), sizeof(v)); }
        void put(int32 v) { put_raw(reinterpret_cast<const byte*>(&v), sizeof(v)); }
        void put(byte v) { put_raw(&v, 1); }
        ulong get_ulong() {
            ulong v;
            std::memcpy(&v, get_raw(sizeof(v)), sizeof(v));
            return v;
        }
        int32 get_int() {
            int32 v;
            std::memcpy(&v, get_raw(sizeof(v)), sizeof(v));
            return v;
        }
        byte get_byte() { return *get_raw(1); }

      private:
        explicit buffer(size_t n) : m_d(new byte[n]), m_n(n) {
            std::memset(m_d.get(), 0, n);
        }
        void need(size_t n) const {
            if(n > m_n - m_pos)
                __builtin_abort(); // NuRaft throws std::overflow_error
        }
        std::unique_ptr<byte[]> m_d;
        size_t m_n;
        size_t m_pos = 0;
    };
    class buffer_serializer {
      public:
        explicit buffer_serializer(buffer& b) : m_b(b) {}
        explicit buffer_serializer(ptr<buffer>& b) : m_b(*b) {}
        void put_u64(uint64_t v) { put_raw(&v, sizeof(v)); }
        void put_i32(int32_t v) { put_raw(&v, sizeof(v)); }
        void put_u32(uint32_t v) { put_raw(&v, sizeof(v)); }
        void put_u8(uint8_t v) { put_raw(&v, 1); }
        void put_raw(const void* p, size_t n) {
            if(n > m_b.size() - m_pos)
                __builtin_abort();
            if(n != 0)
                std::memcpy(m_b.data_begin() + m_pos, p, n);
            m_pos += n;
        }
        uint64_t get_u64() { return get<uint64_t>(); }
        int32_t get_i32() { return get<int32_t>(); }
        uint32_t get_u32() { return get<uint32_t>(); }
        uint8_t get_u8() { return get<uint8_t>(); }
        const void* get_raw(size_t n) {
            if(n > m_b.size() - m_pos)
                __builtin_abort();
            auto* r = m_b.data_begin() + m_pos;
            m_pos += n;
            return r;
        }
        void get_buffer(ptr<buffer>& d) {
            auto n = d->size() - d->pos();
            auto* p = get_raw(n);
            if(n != 0)
                std::memcpy(d->data_begin() + d->pos(), p, n);
        }
        size_t pos() const { return m_pos; }
        void pos(size_t p) { m_pos = p; }
        size_t size() const { return m_b.size(); }

      private:
        template<class T>
        T get() {
            T v;
            std::memcpy(&v, get_raw(sizeof(v)), sizeof(v));
            return v;
        }
        buffer& m_b;
        size_t m_pos = 0;
    };
    enum log_val_type { app_log = 1, conf = 2, cluster_server = 3, log_pack = 4, snp_sync_req = 5 };
    class log_entry {
      public:
        log_entry(ulong term, ptr<buffer> b, log_val_type t = app_log) : m_term(term), m_type(t), m_b(std::move(b)) {}
        ulong get_term() const { return m_term; }
        log_val_type get_val_type() const { return m_type; }
        bool is_buf_null() const { return m_b == nullptr; }
        buffer& get_buf() const { return *m_b; }
        ptr<buffer> get_buf_ptr() const { return m_b; }
        ptr<buffer> serialize() {
            auto n = m_b ? m_b->size() : 0;
            auto r = buffer::alloc(sizeof(ulong) + 1 + n);
            r->put(m_term);
            r->put(static_cast<byte>(m_type));
            if(n != 0)
                r->put_raw(m_b->data_begin(), n);
            r->pos(0);
            return r;
        }
        static ptr<log_entry> deserialize(buffer& b) {
            auto t = b.get_ulong();
            auto ty = static_cast<log_val_type>(b.get_byte());
            return cs_new<log_entry>(t, buffer::copy(b), ty);
        }

      private:
        ulong m_term;
        log_val_type m_type;
        ptr<buffer> m_b;
    };
    class srv_config {
      public:
        srv_config(int32 id, const std::string& ep) : m_id(id), m_ep(ep) {}
        int32 get_id() const { return m_id; }
        const std::string& get_endpoint() const { return m_ep; }
        int32 get_priority() const { return m_prio; }
        void set_priority(int32 p) { m_prio = p; }

      private:
        int32 m_id;
        std::string m_ep;
        int32 m_prio = 1;
    };
    class cluster_config {
      public:
        explicit cluster_config(ulong idx = 0, ulong prev = 0) : m_idx(idx), m_prev(prev) {}
        std::list<ptr<srv_config>>& get_servers() { return m_s; }
        const std::list<ptr<srv_config>>& get_servers() const { return m_s; }
        ulong get_log_idx() const { return m_idx; }
        void set_log_idx(ulong i) { m_idx = i; }
        ptr<buffer> serialize() const {
            size_t n = 8 + 8 + 4;
            for(auto& s : m_s)
                n += 4 + 4 + 4 + s->get_endpoint().size();
            auto r = buffer::alloc(n);
            r->put(m_idx);
            r->put(m_prev);
            r->put(static_cast<int32>(m_s.size()));
            for(auto& s : m_s) {
                r->put(s->get_id());
                r->put(s->get_priority());
                r->put(static_cast<int32>(s->get_endpoint().size()));
                r->put_raw(reinterpret_cast<const byte*>(s->get_endpoint().data()), s->get_endpoint().size());
            }
            r->pos(0);
            return r;
        }
        static ptr<cluster_config> deserialize(buffer& b) {
            auto i = b.get_ulong();
            auto p = b.get_ulong();
            auto c = cs_new<cluster_config>(i, p);
            auto n = b.get_int();
            for(int32 k = 0; k < n; k++) {
                auto id = b.get_int();
                auto pr = b.get_int();
                auto len = static_cast<size_t>(b.get_int());
                std::string ep(reinterpret_cast<const char*>(b.get_raw(len)), len);
                auto s = cs_new<srv_config>(id, ep);
                s->set_priority(pr);
                c->m_s.push_back(s);
            }
            return c;
        }

      private:
        ulong m_idx, m_prev;
        std::list<ptr<srv_config>> m_s;
    };
    class srv_state {
      public:
        srv_state() = default;
        srv_state(ulong t, int32 v, bool e = true) : m_term(t), m_voted(v), m_et(e) {}
        ulong get_term() const { return m_term; }
        void set_term(ulong t) { m_term = t; }
        int32 get_voted_for() const { return m_voted; }
        void set_voted_for(int32 v) { m_voted = v; }
        bool is_election_timer_allowed() const { return m_et; }
        ptr<buffer> serialize() const {
            auto r = buffer::alloc(8 + 4 + 1);
            r->put(m_term);
            r->put(m_voted);
            r->put(static_cast<byte>(m_et ? 1 : 0));
            r->pos(0);
            return r;
        }
        static ptr<srv_state> deserialize(buffer& b) {
            auto t = b.get_ulong();
            auto v = b.get_int();
            auto e = b.get_byte();
            return cs_new<srv_state>(t, v, e != 0);
        }

      private:
        ulong m_term = 0;
        int32 m_voted = -1;
        bool m_et = true;
    };
    class snapshot {
      public:
        snapshot(ulong idx, ulong term, ptr<cluster_config> c, ulong size = 0) : m_idx(idx), m_term(term), m_size(size), m_c(std::move(c)) {}
        ulong get_last_log_idx() const { return m_idx; }
        ulong get_last_log_term() const { return m_term; }
        ulong size() const { return m_size; }
        void set_size(ulong n) { m_size = n; }
        const ptr<cluster_config>& get_last_config() const { return m_c; }
        ptr<buffer> serialize() {
            auto c = m_c ? m_c->serialize() : buffer::alloc(0);
            auto r = buffer::alloc(8 * 3 + 1 + c->size());
            r->put(m_idx);
            r->put(m_term);
            r->put(m_size);
            r->put(static_cast<byte>(m_c ? 1 : 0));
            r->put_raw(c->data_begin(), c->size());
            r->pos(0);
            return r;
        }
        static ptr<snapshot> deserialize(buffer& b) {
            auto i = b.get_ulong();
            auto t = b.get_ulong();
            auto s = b.get_ulong();
            auto has = b.get_byte();
            ptr<cluster_config> c;
            if(has != 0)
                c = cluster_config::deserialize(b);
            return cs_new<snapshot>(i, t, c, s);
        }

      private:
        ulong m_idx, m_term, m_size;
        ptr<cluster_config> m_c;
    };
    class logger {
      public:
        virtual ~logger() = default;
        virtual void put_details(int, const char*, const char*, size_t, const std::string&) {}
        virtual void set_level(int) {}
        virtual int get_level() { return 6; }
    };
    enum cmd_result_code { OK = 0, CANCELLED = -1, TIMEOUT = -2, NOT_LEADER = -3, BAD_REQUEST = -4, FAILED = -32768 };
    template<typename T, typename TE = ptr<std::exception>>
    class cmd_result {
      public:
        using handler_type = std::function<void(T&, TE&)>;
        using handler_type2 = std::function<void(cmd_result<T, TE>&, TE&)>;
        void when_ready(const handler_type2& h) {
            if(m_has)
                h(*this, m_err);
            else
                m_h = h;
        }
        void set_result(T& r, TE& e, cmd_result_code c = OK) {
            m_r = r;
            m_err = e;
            m_code = c;
            m_has = true;
            if(m_h)
                m_h(*this, m_err);
        }
        void accept() { m_acc = true; }
        bool get_accepted() const { return m_acc; }
        bool has_result() const { return m_has; }
        cmd_result_code get_result_code() const { return m_code; }
        T& get() { return m_r; }

      private:
        T m_r{};
        TE m_err{};
        cmd_result_code m_code = OK;
        bool m_acc = false, m_has = false;
        handler_type2 m_h;
    };
    template<typename T, typename TE = ptr<std::exception>>
    class async_result : public cmd_result<T, TE> {
      public:
        using handler_type = std::function<void(T&, TE&)>;
    };
    class log_store {
      public:
        virtual ~log_store() = default;
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& e) = 0;
        virtual void write_at(ulong i, ptr<log_entry>& e) = 0;
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) = 0;
        virtual ptr<log_entry> entry_at(ulong i) = 0;
        virtual ulong term_at(ulong i) = 0;
        virtual ptr<buffer> pack(ulong i, int32 cnt) = 0;
        virtual void apply_pack(ulong i, buffer& p) = 0;
        virtual bool compact(ulong last) = 0;
        virtual bool flush() = 0;
    };
    class state_machine {
      public:
        virtual ~state_machine() = default;
        virtual ptr<buffer> commit(const ulong idx, buffer& data) = 0;
        virtual void commit_config(const ulong, ptr<cluster_config>&) {}
        virtual ptr<buffer> pre_commit(const ulong, buffer&) { return nullptr; }
        virtual void rollback(const ulong, buffer&) {}
        virtual int read_logical_snp_obj(snapshot&, void*&, ulong, ptr<buffer>&, bool&) { return 0; }
        virtual void save_logical_snp_obj(snapshot&, ulong&, buffer&, bool, bool) {}
        virtual void free_user_snp_ctx(void*&) {}
        virtual bool apply_snapshot(snapshot& s) = 0;
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot& s, async_result<bool>::handler_type& when_done) = 0;
    };
    class state_mgr {
      public:
        virtual ~state_mgr() = default;
        virtual ptr<cluster_config> load_config() = 0;
        virtual void save_config(const cluster_config&) = 0;
        virtual void save_state(const srv_state&) = 0;
        virtual ptr<srv_state> read_state() = 0;
        virtual ptr<log_store> load_log_store() = 0;
        virtual int32 server_id() = 0;
        virtual void system_exit(const int) = 0;
    };
    struct raft_params {
        enum return_method_type { blocking = 0, async_handler = 1 };
        int election_timeout_lower_bound_ = 0, election_timeout_upper_bound_ = 0, heart_beat_interval_ = 0, snapshot_distance_ = 0, max_append_size_ = 0;
        int client_req_timeout_ = 0, log_sync_stop_gap_ = 0, reserved_log_items_ = 0;
        bool auto_forwarding_ = false;
        return_method_type return_method_ = blocking;
        raft_params& with_election_timeout_lower(int v) { election_timeout_lower_bound_ = v; return *this; }
    };
    struct cb_func {
        enum Type { ProcessReq = 1, GotAppendEntryRespFromPeer = 2, BecomeLeader = 6, BecomeFollower = 15, InitialBatchCommited = 18, NewConfig = 17 };
        enum class ReturnCode { Ok = 0, ReturnNull = -1 };
        struct Param {
            int32 myId = -1, leaderId = -1, peerId = -1;
            void* ctx = nullptr;
        };
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };
    using append_result = ptr<cmd_result<ptr<buffer>>>;
    class raft_server {
      public:
        struct init_options {
            bool skip_initial_election_timeout_ = false;
            cb_func::func_type raft_callback_;
        };
        bool is_initialized() const { return true; }
        bool is_leader() const { return leader; }
        int32 get_leader() const { return leader_id; }
        void shutdown() {}
        append_result append_entries(const std::vector<ptr<buffer>>& logs) {
            if(hook)
                return hook(*this, logs);
            auto r = cs_new<cmd_result<ptr<buffer>>>();
            if(!leader)
                return r;
            r->accept();
            ptr<buffer> last;
            for(auto& l : logs) {
                l->pos(0);
                last = sm->commit(++idx, *l);
            }
            ptr<std::exception> e;
            r->set_result(last, e);
            return r;
        }
        ptr<state_machine> sm;
        ptr<state_mgr> smgr;
        init_options opts;
        bool leader = true;
        int32 leader_id = 1;
        ulong idx = 0;
        std::function<append_result(raft_server&, const std::vector<ptr<buffer>>&)> hook;
    };
    struct asio_service {
        struct options {
            size_t thread_pool_size_ = 0;
        };
    };
    class raft_launcher {
      public:
        ptr<raft_server> init(ptr<state_machine> sm, ptr<state_mgr> mg, ptr<logger>, int, const asio_service::options&, const raft_params&, const raft_server::init_options& o = {}) {
            auto s = cs_new<raft_server>();
            s->sm = sm;
            s->smgr = mg;
            s->opts = o;
            instances().push_back(s);
            return s;
        }
        bool shutdown(size_t = 5) { return true; }
        static std::vector<ptr<raft_server>>& instances() {
            static std::vector<ptr<raft_server>> v;
            return v;
        }
    };
}
#endif
