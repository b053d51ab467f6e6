// A PArSEC shard as it is deployed: RPC handler, internal shard, and the replicated shard behind the raft log; the
// internal shard is rebuilt from the replicated one at any point, as a new leader does.
#include "c15.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "parsec/runtime_locking_shard/replicated_shard_client.hpp"
#include "parsec/runtime_locking_shard/server.hpp"
#include "parsec/runtime_locking_shard/state_machine.hpp"
using namespace c15;
namespace rpc = rls::rpc;
namespace {
    struct handler : cbdc::rpc::async_server<rpc::request, rpc::response> {
        auto call(cbdc::buffer b, std::function<void(cbdc::buffer)> cb) -> std::optional<cbdc::buffer> {
            return this->async_call(std::move(b), std::move(cb));
        }
    };
    // The shard seen through its RPC interface.
    struct remote : rls::interface {
        std::shared_ptr<cbdc::logging::log> lg{quiet_log()};
        std::shared_ptr<rls::state_machine> sm{std::make_shared<rls::state_machine>()};
        std::shared_ptr<cbdc::raft::node> node;
        std::shared_ptr<rls::replicated_shard_client> repl;
        std::shared_ptr<rls::impl> shard;
        handler* h{nullptr};
        std::unique_ptr<rpc::server> srv;
        remote() {
            node = std::make_shared<cbdc::raft::node>(0, std::vector<cbdc::network::endpoint_t>{{"127.0.0.1", 5}}, "shard", false, sm, 1, lg,
                [](nuraft::cb_func::Type, nuraft::cb_func::Param*) { return nuraft::cb_func::ReturnCode::Ok; });
            CHECKM(node->init(nuraft::raft_params{}), "raft starts");
            repl = std::make_shared<rls::replicated_shard_client>(node);
            lead();
        }
        // What the controller does when its node becomes the leader.
        void lead() {
            srv.reset();
            shard = std::make_shared<rls::impl>(lg);
            int calls = 0;
            CHECKM(repl->get_tickets([&](rls::replicated_shard_interface::get_tickets_return_type res) {
                calls++;
                CHECKM(std::holds_alternative<rls::replicated_shard_interface::tickets_type>(res), "the replicated tickets can be read");
                CHECKM(shard->recover(sm->get_shard()->get_state(), std::get<rls::replicated_shard_interface::tickets_type>(res)), "a new shard recovers");
            }), "the replicated tickets can be requested");
            CHECKM(calls == 1, "reading the replicated tickets is answered once");
            auto hh = std::make_unique<handler>();
            h = hh.get();
            srv = std::make_unique<rpc::server>(lg, shard, repl, std::move(hh));
        }
        template<class T, class F>
        auto go(rpc::request q, F cb) -> bool {
            struct st {
                int answers{0};
            };
            auto s = std::make_shared<st>();
            auto req = cbdc::rpc::request<rpc::request>{{5}, std::move(q)};
            auto b = cbdc::make_buffer(req);
            auto direct = h->call(b, [s, cb](cbdc::buffer resp) {
                s->answers++;
                CHECKM(s->answers == 1, "a request is answered once");
                auto m = cbdc::from_buffer<cbdc::rpc::response<rpc::response>>(resp);
                CHECKM(m.has_value() && m->m_header.m_request_id == 5, "a response decodes and names its request");
                CHECKM(m->m_payload.has_value() && std::holds_alternative<T>(*m->m_payload), "a response has the type of its request");
                cb(std::get<T>(*m->m_payload));
            });
            return !direct.has_value();
        }
        auto try_lock(rls::ticket_number_type n, rls::broker_id_type b, rls::key_type k, lock_type t, bool first, try_lock_callback_type cb) -> bool override {
            return go<try_lock_return_type>(rpc::try_lock_request{n, b, k, t, first}, cb);
        }
        auto prepare(rls::ticket_number_type n, rls::broker_id_type b, rls::state_update_type u, prepare_callback_type cb) -> bool override {
            return go<prepare_return_type>(rpc::prepare_request{n, u, b}, cb);
        }
        auto commit(rls::ticket_number_type n, commit_callback_type cb) -> bool override {
            return go<prepare_return_type>(rpc::commit_request{n}, cb);
        }
        auto rollback(rls::ticket_number_type n, rollback_callback_type cb) -> bool override {
            return go<prepare_return_type>(rpc::rollback_request{n}, cb);
        }
        auto finish(rls::ticket_number_type n, finish_callback_type cb) -> bool override {
            return go<prepare_return_type>(rpc::finish_request{n}, cb);
        }
        auto get_tickets(rls::broker_id_type b, get_tickets_callback_type cb) -> bool override {
            return go<get_tickets_return_type>(rpc::get_tickets_request{b}, cb);
        }
    };
}

namespace {
    struct deployed : world {
        remote& r;
        deployed(remote& rr, int n, int keys) : world(rr, n, keys), r(rr) {}
        // The leader fails and another one takes over.
        void crash() {
            r.lead();
            for(auto& q : rq)
                if(!q->closed) {
                    q->closed = true; // its caller talks to a shard that is gone
                    if(q->answers == 0)
                        q->answers = 1;
                }
            for(auto& t : ts) {
                t.held.clear();
                if(t.s == begun || t.s == wounded)
                    t.s = unknown;
                if(t.s == prepared)
                    for(auto& [k, v] : t.upd)
                        t.held[k] = lock_type::write;
            }
            settle(0, 0, lock_type::read, false);
            sym_cover("a new leader took over");
        }
        // The old leader replicated the command but did not act on it.
        void lost(int ti, int what) {
            auto& t = ts[ti];
            int calls = 0;
            auto cb = [&](rls::replicated_shard_interface::return_type e) {
                calls++;
                CHECKM(!e.has_value(), "a replicated command succeeds");
            };
            if(what == 0 && t.s == begun && !waiting(ti)) {
                auto u = write_updates(ti, "value");
                rls::replicated_shard_interface::state_type m;
                for(auto& [k, v] : u)
                    m.emplace(key(k), buf_u64(v));
                CHECKM(r.repl->prepare(t.num, t.broker, m, cb), "replication works");
                t.s = prepared;
                t.upd = u;
            } else if(what == 1 && t.s == prepared) {
                CHECKM(r.repl->commit(t.num, cb), "replication works");
                for(auto& [k, v] : t.upd)
                    committed_vals[k] = v;
                t.s = committed;
            } else if(what == 2 && (t.s == committed || t.s == prepared)) {
                CHECKM(r.repl->finish(t.num, cb), "replication works");
                t.s = unknown;
            } else if(what == 3 && t.s == prepared) {
                // a retried commit: the broker did not hear of the first one
                CHECKM(r.repl->commit(t.num, cb), "replication works");
                CHECKM(r.repl->commit(t.num, cb), "replication works");
                calls--;
                for(auto& [k, v] : t.upd)
                    committed_vals[k] = v;
                t.s = committed;
            } else
                sym_end();
            CHECKM(calls == 1, "a replicated command is answered once");
        }
        void advance(int i, const char* what) {
            // 0 nothing 1 locked 2 prepared 3 committed 4 finished 5 rolled back
            auto to = choose(6, what);
            if(to == 0)
                return;
            for(int k = 0; k < nkeys; k++)
                if(flip("locks key"))
                    lock(i, k, flip("write lock") ? lock_type::write : lock_type::read, ts[i].s == unknown);
            if(ts[i].s == unknown)
                sym_end();
            if(to == 1)
                return;
            if(to == 5)
                return rollback(i);
            if(ts[i].s != begun || waiting(i))
                sym_end();
            auto u = write_updates(i, "value");
            prepare(i, u);
            if(to >= 3)
                commit(i);
            if(to >= 4)
                finish(i);
        }
        void end(int i) {
            if(ts[i].s == prepared) {
                if(flip("the broker commits"))
                    commit(i);
                else
                    rollback(i);
            }
            if(ts[i].s == committed)
                finish(i);
            else if(ts[i].s != unknown)
                rollback(i);
        }
    };
}
// Two tickets stopped anywhere; a leader change, possibly with one command replicated but not acted on.
ENTRY(c18_recover) {
    remote r;
    deployed w(r, 3, 2);
    w.brokers = {7, 9};
    w.ts[1].broker = 9;
    w.advance(0, "how far the first ticket gets");
    w.advance(1, "how far the second ticket gets");
    if(flip("command in flight"))
        w.lost(static_cast<int>(choose(2, "whose")), static_cast<int>(choose(TIER == 0 ? 3 : 4, "which command")));
    w.crash();
    if(TIER != 0 && flip("another leader change"))
        w.crash();
    if(flip("newcomer before the broker recovers"))
        w.lock(2, static_cast<int>(choose(2, "which key")), TIER == 0 || flip("write lock") ? lock_type::write : lock_type::read, true);
    w.end(0);
    w.end(1);
    w.end(2);
    w.drain();
    sym_cover("done");
}
// One ticket with every kind of command replicated but not acted on, and several leader changes.
ENTRY(c18_inflight) {
    remote r;
    deployed w(r, 2, 2);
    w.lock(0, 0, lock_type::write, true);
    w.lock(0, 1, lock_type::write, false);
    w.prepare(0, w.write_updates(0, "initial value"));
    w.commit(0);
    w.finish(0);
    w.advance(1, "how far the ticket gets");
    for(int i = 0; i < 3; i++) {
        if(flip("command in flight"))
            w.lost(1, static_cast<int>(choose(4, "which command")));
        if(flip("leader change") || w.ts[1].s != unknown)
            w.crash();
    }
    w.end(1);
    w.crash();
    w.drain();
    sym_cover("done");
}
// Replication refused or failing: the caller gets an error of the right kind and nothing is committed.
ENTRY(c18_refused) {
    remote r;
    deployed w(r, 2, 1);
    w.lock(0, 0, lock_type::write, true);
    std::map<int, uint64_t> u{{0, sym_u64_("value")}};
    auto stage = choose(3, "stage");
    if(stage > 0)
        w.prepare(0, u);
    auto& inst = *nuraft::raft_launcher::instances().back();
    auto how = choose(3, "failure");
    inst.hook = [&](nuraft::raft_server&, const std::vector<nuraft::ptr<nuraft::buffer>>&) {
        auto res = nuraft::cs_new<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
        if(how == 0)
            return res; // not accepted
        res->accept();
        nuraft::ptr<nuraft::buffer> none;
        nuraft::ptr<std::exception> e;
        if(how == 1)
            e = nuraft::cs_new<std::exception>();
        res->set_result(none, e, nuraft::cmd_result_code::FAILED);
        return res;
    };
    int answers = 0;
    auto cb = [&](std::optional<rls::shard_error> e) {
        answers++;
        CHECKM(e.has_value(), "what could not be replicated is not reported as done");
    };
    auto num = w.ts[0].num;
    bool ok = false;
    if(stage == 0) {
        rls::state_update_type m;
        m.emplace(world::key(0), buf_u64(u[0]));
        ok = r.prepare(num, 7, m, cb);
    } else if(stage == 1)
        ok = r.commit(num, cb);
    else
        ok = r.rollback(num, cb);
    CHECKM(answers <= 1 && (answers == 1 || !ok), "a request that cannot be replicated is answered with an error");
    inst.hook = nullptr;
    w.crash();
    w.ts[0].s = stage == 0 ? unknown : prepared;
    w.end(0);
    w.drain();
    sym_cover("done");
}
