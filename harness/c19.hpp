// Faulty shards, directory and ticket machine around a broker.
#ifndef C19_HPP
#define C19_HPP
#include "common.hpp"
#include "parsec/broker/impl.hpp"
#include <map>
namespace c19 {
    using namespace vf;
    namespace rls = cbdc::parsec::runtime_locking_shard;
    namespace brk = cbdc::parsec::broker;
    namespace tm = cbdc::parsec::ticket_machine;
    namespace dir = cbdc::parsec::directory;
    using rls::shard_error;
    using rls::ticket_state;
    struct world;
    // Per ticket, what a shard did and answered.
    struct tstate {
        bool touched{false}, prepared{false}, committed{false}, rolled_back{false}, finished{false}, refused{false}, refuse{false};
        int n_prepare{0}, n_commit{0}, n_rollback{0}, n_finish{0};
        std::map<int, uint64_t> updates;
    };
    struct shard : rls::interface {
        world& w;
        size_t idx;
        std::map<uint64_t, tstate> ts;
        int mode{0};
        int rolled{0}; // rollbacks so far: a prepare before one has no effect after it
        rls::interface::get_tickets_success_type stored;
        shard(world& ww, size_t i) : w(ww), idx(i) {}
        auto try_lock(rls::ticket_number_type n, rls::broker_id_type b, rls::key_type k, rls::lock_type t, bool first, try_lock_callback_type cb) -> bool override;
        auto prepare(rls::ticket_number_type n, rls::broker_id_type b, rls::state_update_type u, prepare_callback_type cb) -> bool override;
        auto commit(rls::ticket_number_type n, commit_callback_type cb) -> bool override;
        auto rollback(rls::ticket_number_type n, rollback_callback_type cb) -> bool override;
        auto finish(rls::ticket_number_type n, finish_callback_type cb) -> bool override;
        auto get_tickets(rls::broker_id_type b, get_tickets_callback_type cb) -> bool override;
        auto answer(std::function<void(bool)> deliver, bool may_refuse) -> bool;
    };
    struct ticketer : tm::interface {
        uint64_t next{100};
        int mode{0};
        auto get_ticket_number(get_ticket_number_callback_type cb) -> bool override {
            if(mode == 1)
                return false;
            if(mode == 2) {
                cb(error_code{});
                return true;
            }
            auto n = next++;
            cb(ticket_number_range_type{n, n});
            return true;
        }
    };
    struct directory_t : dir::interface {
        size_t n{1};
        bool down{false};
        std::vector<std::function<void()>>* later{nullptr};
        auto key_location(rls::key_type k, key_location_callback_type cb) -> bool override {
            if(down)
                return false;
            if(later != nullptr) {
                later->push_back([cb, i = k.c_ptr()[0] % n] { cb(i); });
                return true;
            }
            cb(k.c_ptr()[0] % n);
            return true;
        }
    };
    // Key k lives on shard k % n.
    inline auto key(uint8_t k) -> cbdc::buffer {
        cbdc::buffer b;
        b.append(&k, 1);
        return b;
    }
    struct world {
        std::vector<std::shared_ptr<shard>> sh;
        std::shared_ptr<ticketer> tk{std::make_shared<ticketer>()};
        std::shared_ptr<directory_t> d{std::make_shared<directory_t>()};
        std::shared_ptr<brk::impl> b;
        std::vector<std::function<void()>> pending;
        int defer_budget{99}, fail_budget{99};
        bool faulty{false};
        explicit world(size_t n) {
            std::vector<std::shared_ptr<rls::interface>> v;
            for(size_t i = 0; i < n; i++) {
                sh.push_back(std::make_shared<shard>(*this, i));
                v.push_back(sh.back());
            }
            d->n = n;
            b = std::make_shared<brk::impl>(3, v, tk, d, quiet_log());
        }
        auto begin() -> uint64_t {
            int calls = 0;
            uint64_t n = 0;
            CHECKM(b->begin([&](brk::interface::ticketnum_or_errcode_type r) {
                calls++;
                CHECKM(std::holds_alternative<uint64_t>(r), "a ticket number is passed on");
                n = std::get<uint64_t>(r);
            }), "begin is accepted");
            CHECKM(calls == 1, "begin is answered once");
            return n;
        }
        void lock(uint64_t n, uint8_t k) {
            int calls = 0;
            CHECKM(b->try_lock(n, key(k), rls::lock_type::write, [&](brk::interface::try_lock_return_type r) {
                calls++;
                CHECKM(std::holds_alternative<rls::value_type>(r), "a granted lock is passed on");
            }), "try_lock is accepted");
            CHECKM(calls == 1, "try_lock is answered once");
        }
        // Deliver the outstanding answers in any order.
        void deliver_all() {
            while(!pending.empty()) {
                auto i = choose(pending.size(), "which answer arrives");
                auto f = std::move(pending[i]);
                pending.erase(pending.begin() + static_cast<long>(i));
                f();
            }
        }
    };
    // 0: at once, 1: later, 2: cannot be reached. The answer itself is refused or not.
    inline auto shard::answer(std::function<void(bool)> deliver, bool may_refuse) -> bool {
        if(mode != 0) { // answers later
            w.pending.push_back([deliver, m = mode] { deliver(m == 1); });
            return true;
        }
        if(!w.faulty) {
            deliver(true);
            return true;
        }
        auto how = choose(w.fail_budget > 0 ? 3 : 2, "how the shard answers");
        if(how == 2) {
            w.fail_budget--;
            return false;
        }
        auto go = [this, deliver, may_refuse] {
            auto ok = true;
            if(may_refuse && w.fail_budget > 0 && flip("the shard refuses")) {
                w.fail_budget--;
                ok = false;
            }
            deliver(ok);
        };
        if(how == 0)
            go();
        else
            w.pending.push_back(go);
        return true;
    }
    inline auto shard::try_lock(rls::ticket_number_type n, rls::broker_id_type, rls::key_type, rls::lock_type, bool first, try_lock_callback_type cb) -> bool {
        auto& t = ts[n];
        CHECKM(first == !t.touched, "the first lock of a ticket on a shard is marked as such");
        CHECKM(!t.prepared && !t.committed, "no lock request after prepare");
        t.touched = true;
        t.rolled_back = false;
        if(mode != 0 && w.d->later != nullptr) {
            w.pending.push_back([cb] { cb(cbdc::buffer()); });
            return true;
        }
        cb(cbdc::buffer());
        return true;
    }
    inline auto shard::prepare(rls::ticket_number_type n, rls::broker_id_type bid, rls::state_update_type u, prepare_callback_type cb) -> bool {
        auto& t = ts[n];
        t.n_prepare++;
        CHECKM(bid == 3, "prepare names the broker");
        CHECKM(t.touched, "only touched shards prepare");
        CHECKM(!t.prepared && !t.committed, "a shard prepares once");
        CHECKM(u.size() == t.updates.size(), "a shard gets exactly its own updates");
        for(auto& [k, v] : t.updates) {
            auto it = u.find(key(static_cast<uint8_t>(k)));
            CHECKM(it != u.end() && it->second == buf_u64(v), "a shard gets exactly its own updates");
        }
        return answer([this, n, cb, e = rolled](bool ok) {
            auto& tt = ts[n];
            ok = ok && !tt.refuse;
            if(ok) {
                if(e == rolled)
                    tt.prepared = true;
                cb(std::nullopt);
            } else {
                tt.refused = true;
                cb(shard_error{flip("wounded") ? rls::error_code::wounded : rls::error_code::internal_error, std::nullopt});
            }
        }, true);
    }
    inline auto shard::commit(rls::ticket_number_type n, commit_callback_type cb) -> bool {
        auto& t = ts[n];
        t.n_commit++;
        for(auto& s : w.sh)
            if(s->ts[n].touched)
                CHECKM(s->ts[n].prepared || s->ts[n].committed, "a shard is told to commit only when all touched shards have prepared");
        CHECKM(!t.rolled_back, "a rolled back ticket does not commit");
        CHECKM(t.prepared, "only prepared shards commit");
        return answer([this, n, cb](bool ok) {
            if(ok) {
                ts[n].committed = true;
                cb(std::nullopt);
            } else
                cb(shard_error{rls::error_code::internal_error, std::nullopt});
        }, true);
    }
    inline auto shard::rollback(rls::ticket_number_type n, rollback_callback_type cb) -> bool {
        auto& t = ts[n];
        t.n_rollback++;
        for(auto& s : w.sh)
            CHECKM(!s->ts[n].committed && s->ts[n].n_commit == 0, "a ticket that may have committed somewhere is not rolled back");
        CHECKM(t.touched, "only touched shards roll back");
        return answer([this, n, cb](bool ok) {
            if(ok) {
                rolled++;
                ts[n].rolled_back = true;
                ts[n].prepared = false;
                ts[n].touched = false;
                cb(std::nullopt);
            } else
                cb(shard_error{rls::error_code::internal_error, std::nullopt});
        }, true);
    }
    inline auto shard::finish(rls::ticket_number_type n, finish_callback_type cb) -> bool {
        auto& t = ts[n];
        t.n_finish++;
        for(auto& s : w.sh)
            if(s->ts[n].touched)
                CHECKM(s->ts[n].committed, "finish only after all touched shards have committed");
        CHECKM(t.touched && !t.finished, "a shard finishes once");
        return answer([this, n, cb](bool ok) {
            if(ok) {
                ts[n].finished = true;
                cb(std::nullopt);
            } else
                cb(shard_error{rls::error_code::internal_error, std::nullopt});
        }, true);
    }
    inline auto shard::get_tickets(rls::broker_id_type b, get_tickets_callback_type cb) -> bool {
        CHECKM(b == 3, "a broker asks for its own tickets");
        return answer([this, cb](bool ok) {
            if(ok)
                cb(stored);
            else
                cb(rls::error_code::internal_error);
        }, true);
    }
}
#endif
