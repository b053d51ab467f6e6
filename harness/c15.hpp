// A PArSEC runtime locking shard driven through its interface, with everything it answers compared to a reference.
#ifndef C15_HPP
#define C15_HPP
#include "common.hpp"
#include "parsec/runtime_locking_shard/impl.hpp"
#include <map>
namespace c15 {
    using namespace vf;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    using rls::error_code;
    using rls::lock_type;
    using rls::ticket_state;
    using cbdc::buffer;
    enum st { unknown, begun, wounded, prepared, committed };
    struct ticket {
        uint64_t num{};
        size_t broker{};
        st s{unknown};
        std::map<int, lock_type> held;
        std::map<int, uint64_t> upd; // prepared updates
    };
    struct req {
        int t{}, k{};
        lock_type ty{};
        int answers{0};
        bool granted{false};
        bool closed{false}; // answered and accounted for
        error_code err{};
        bool has_details{false};
        uint64_t wounder{};
        buffer val;
    };
    struct world {
        rls::interface& shard;
        std::vector<ticket> ts;
        std::vector<std::unique_ptr<req>> rq;
        std::map<int, uint64_t> committed_vals;
        std::vector<size_t> brokers{7};
        bool busy{false};
        int nkeys;
        world(rls::interface& s, int n, int keys) : shard(s), ts(n), nkeys(keys) {
            for(int i = 0; i < n; i++) {
                ts[i].num = sym_u64_("ticket");
                ts[i].broker = 7;
                for(int j = 0; j < i; j++)
                    ASSUME(ts[i].num != ts[j].num);
            }
        }
        static auto key(int k) -> buffer {
            return buf(k == 0 ? "" : k == 1 ? "k" : k == 2 ? "k2" : "l3");
        }
        auto value_ok(int k, const buffer& v) -> bool {
            auto it = committed_vals.find(k);
            if(it == committed_vals.end())
                return v.size() == 0;
            return v == buf_u64(it->second);
        }
        auto open_req(int t, int k) -> req* {
            for(auto& r : rq)
                if(r->t == t && r->k == k && r->answers == 0)
                    return r.get();
            return nullptr;
        }
        auto conflicts(int holder, int waiter, int k, lock_type ty) -> bool {
            auto it = ts[holder].held.find(k);
            return holder != waiter && it != ts[holder].held.end() && (ty == lock_type::write || it->second == lock_type::write);
        }
        // Reads the tickets the shard reports and accounts for everything answered since the last call.
        void settle(int actor, int k, lock_type ty, bool is_lock) {
            std::vector<int> found(ts.size(), 0);
            std::vector<st> now(ts.size(), unknown);
            for(auto b : brokers) {
                int calls = 0;
                CHECKM(shard.get_tickets(b, [&](rls::interface::get_tickets_return_type r) {
                    calls++;
                    CHECKM(std::holds_alternative<rls::interface::get_tickets_success_type>(r), "the shard reports its tickets");
                    for(auto& [num, s] : std::get<rls::interface::get_tickets_success_type>(r)) {
                        bool hit = false;
                        for(size_t i = 0; i < ts.size(); i++)
                            if(ts[i].num == num) {
                                hit = true;
                                found[i]++;
                                CHECKM(ts[i].broker == b, "a ticket is reported to its own broker");
                                now[i] = s == ticket_state::begun ? begun : s == ticket_state::wounded ? wounded : s == ticket_state::prepared ? prepared : committed;
                            }
                        CHECKM(hit, "only known tickets are reported");
                    }
                }), "get_tickets is accepted");
                CHECKM(calls == 1, "get_tickets is answered once");
            }
            for(size_t i = 0; i < ts.size(); i++) {
                auto& t = ts[i];
                if(t.s == begun && now[i] == wounded) {
                    CHECKM(is_lock, "only a lock request wounds a ticket");
                    CHECKM(static_cast<int>(i) != actor, "a ticket does not wound itself");
                    CHECKM(ts[actor].num < t.num, "a ticket is wounded only by an older one");
                    CHECKM(conflicts(static_cast<int>(i), actor, k, ty), "a ticket is wounded only for a lock that conflicts");
                    t.s = wounded;
                    t.held.clear();
                    for(auto& r : rq)
                        if(r->t == static_cast<int>(i) && !r->closed) {
                            CHECKM(r->answers == 1, "waiting requests of a wounded ticket are answered");
                            CHECKM(!r->granted && r->err == error_code::wounded, "waiting requests of a wounded ticket are refused");
                            r->closed = true;
                        }
                    sym_cover("a ticket is wounded");
                }
                CHECKM(now[i] == t.s, "the shard reports the state the ticket is in");
            }
            for(auto& r : rq) {
                CHECKM(r->answers <= 1, "a request is answered at most once");
                if(r->closed || r->answers == 0)
                    continue;
                r->closed = true;
                auto& t = ts[r->t];
                CHECKM(r->granted, "a waiting request is refused only when its ticket is wounded or rolled back");
                CHECKM(t.s == begun, "only a running ticket gets locks");
                t.held[r->k] = r->ty;
                CHECKM(value_ok(r->k, r->val), "a granted lock returns the last committed value");
            }
            // exclusion
            for(int q = 0; q < nkeys; q++) {
                int w = 0, rd = 0;
                for(auto& t : ts) {
                    auto it = t.held.find(q);
                    if(it != t.held.end())
                        (it->second == lock_type::write ? w : rd)++;
                }
                CHECKM(w <= 1 && (w == 0 || rd == 0), "a write lock excludes every other lock on its key");
            }
            // no eligible waiter is left behind, and waiting follows age
            for(auto& r : rq) {
                if(r->answers != 0)
                    continue;
                CHECKM(ts[r->t].s == begun, "only running tickets wait");
                bool blocked = false, first = true;
                for(size_t h = 0; h < ts.size(); h++)
                    if(conflicts(static_cast<int>(h), r->t, r->k, r->ty)) {
                        blocked = true;
                        CHECKM(ts[h].s == prepared || ts[h].num < ts[r->t].num, "a ticket waits only for older or prepared tickets");
                    }
                for(auto& o : rq)
                    if(o->answers == 0 && o->k == r->k && o->t != r->t && ts[o->t].num < ts[r->t].num)
                        first = false;
                CHECKM(blocked || !first, "the oldest waiter of a free lock is granted");
                sym_cover("a request waits");
            }
        }
        void lock(int ti, int k, lock_type ty, bool first) {
            auto& t = ts[ti];
            auto* o = open_req(ti, k);
            rq.push_back(std::make_unique<req>());
            auto* r = rq.back().get();
            r->t = ti;
            r->k = k;
            r->ty = ty;
            auto before = rq.size() - 1;
            CHECKM(shard.try_lock(t.num, t.broker, key(k), ty, first, [r](rls::interface::try_lock_return_type res) {
                r->answers++;
                r->granted = std::holds_alternative<rls::value_type>(res);
                if(r->granted)
                    r->val = std::get<rls::value_type>(res);
                else {
                    auto& e = std::get<rls::shard_error>(res);
                    r->err = e.m_error_code;
                    r->has_details = e.m_wounded_details.has_value();
                }
            }), "try_lock is accepted");
            (void)before;
            auto refused = [&](error_code c, const char* m) {
                CHECKM(r->answers == 1 && !r->granted && r->err == c, m);
                r->closed = true;
            };
            auto h = t.held.find(k);
            if(t.s == unknown && !first)
                refused(error_code::unknown_ticket, "a lock request of an unknown ticket is refused");
            else if(t.s == wounded)
                refused(error_code::wounded, "a lock request of a wounded ticket is refused");
            else if(t.s == prepared)
                refused(error_code::prepared, "a lock request of a prepared ticket is refused");
            else if(t.s == committed)
                refused(error_code::committed, "a lock request of a committed ticket is refused");
            else if(h != t.held.end() && h->second >= ty)
                refused(error_code::lock_held, "a lock already held is not acquired again");
            else if(o != nullptr)
                refused(error_code::lock_queued, "a lock already requested is not requested again");
            else if(t.s == unknown)
                t.s = begun;
            settle(ti, k, ty, true);
        }
        auto waiting(int ti) -> bool {
            for(auto& r : rq)
                if(r->t == ti && r->answers == 0)
                    return true;
            return false;
        }
        template<class F>
        auto call(F f) -> std::optional<error_code> {
            int calls = 0;
            std::optional<error_code> e;
            CHECKM(f([&](std::optional<rls::shard_error> r) {
                calls++;
                if(r.has_value())
                    e = r->m_error_code;
            }), "the request is accepted");
            CHECKM(calls == 1, "the request is answered once");
            return e;
        }
        void prepare(int ti, const std::map<int, uint64_t>& u) {
            auto& t = ts[ti];
            rls::state_update_type m;
            for(auto& [k, v] : u)
                m.emplace(key(k), buf_u64(v));
            auto e = call([&](auto cb) { return shard.prepare(t.num, t.broker, m, cb); });
            auto ok = t.s == begun && !waiting(ti);
            for(auto& [k, v] : u) {
                auto h = t.held.find(k);
                ok = ok && h != t.held.end() && h->second == lock_type::write;
            }
            CHECKM(ok == !e.has_value(), "a ticket prepares exactly when it is running, waits for nothing and holds write locks on what it writes");
            if(t.s == wounded)
                CHECKM(*e == error_code::wounded, "prepare tells a wounded ticket so");
            if(ok) {
                t.s = prepared;
                t.upd = u;
                sym_cover("a ticket prepares");
            }
            settle(ti, 0, lock_type::read, false);
        }
        void commit(int ti) {
            auto& t = ts[ti];
            auto e = call([&](auto cb) { return shard.commit(t.num, cb); });
            CHECKM(e.has_value() == (t.s != prepared), "exactly prepared tickets commit");
            if(t.s == prepared) {
                for(auto& [k, v] : t.upd)
                    committed_vals[k] = v;
                t.s = committed;
                t.held.clear();
                sym_cover("a ticket commits");
            }
            settle(ti, 0, lock_type::read, false);
        }
        void rollback(int ti) {
            auto& t = ts[ti];
            if(t.s == committed)
                return; // the broker never does this
            auto e = call([&](auto cb) { return shard.rollback(t.num, cb); });
            CHECKM(e.has_value() == (t.s == unknown), "exactly known tickets roll back");
            for(auto& r : rq)
                if(r->t == ti && !r->closed) {
                    CHECKM(r->answers == 1 && !r->granted, "waiting requests of a rolled back ticket are refused");
                    r->closed = true;
                }
            t.s = unknown;
            t.held.clear();
            settle(ti, 0, lock_type::read, false);
        }
        void finish(int ti) {
            auto& t = ts[ti];
            auto e = call([&](auto cb) { return shard.finish(t.num, cb); });
            CHECKM(e.has_value() == (t.s != committed), "exactly committed tickets finish");
            if(t.s == committed) {
                t.s = unknown;
                t.held.clear();
            }
            settle(ti, 0, lock_type::read, false);
        }
        // Ends every ticket; afterwards every key can be locked by a newcomer and has its last committed value.
        void drain() {
            for(int i = 0; i < static_cast<int>(ts.size()); i++) {
                if(ts[i].s == prepared)
                    commit(i);
                if(ts[i].s == committed)
                    finish(i);
                else if(ts[i].s != unknown)
                    rollback(i);
            }
            for(auto& r : rq)
                CHECKM(r->answers == 1, "every lock request is answered exactly once");
            for(int k = 0; k < nkeys; k++) {
                lock(0, k, lock_type::write, k == 0);
                CHECKM(rq.back()->granted, "once all tickets have ended every key can be locked");
            }
        }
        auto write_updates(int ti, const char* n) -> std::map<int, uint64_t> {
            std::map<int, uint64_t> u;
            for(auto& [k, ty] : ts[ti].held)
                if(ty == lock_type::write)
                    u[k] = sym_u64_(n);
            return u;
        }
        auto pick_ticket() -> int {
            size_t used = 0;
            while(used < ts.size() && touched(static_cast<int>(used)))
                used++;
            return static_cast<int>(choose(std::min(used + 1, ts.size()), "which ticket"));
        }
        auto touched(int i) -> bool {
            for(auto& r : rq)
                if(r->t == i)
                    return true;
            return false;
        }
        void any_lock() {
            auto i = pick_ticket();
            auto k = static_cast<int>(choose(nkeys, "which key"));
            auto ty = flip("write lock") ? lock_type::write : lock_type::read;
            lock(i, k, ty, ts[i].s == unknown);
        }
    };
}
#endif
