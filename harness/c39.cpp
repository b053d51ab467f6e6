// The coordinator's controller: transactions from its RPC port are batched, run against recorded shards, and answered.
#include "c09.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/server.hpp"
#include "uhs/twophase/coordinator/state_machine.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "util/raft/serialization.hpp"
#include <algorithm>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace vf;
namespace co = cbdc::coordinator;
namespace ls = cbdc::locking_shard;
namespace {
    struct dtx {
        hash_t id{};
        std::vector<hash_t> txs;
        std::vector<bool> answer;
        bool applied{false}, discarded{false};
        std::vector<bool> verdict;
    };
    struct sub {
        tx::compact_tx t;
        bool valid{true};
        int state{0}; // 1: accepted, 2: refused
        int seen{0};
        std::optional<bool> res;
    };
    struct world {
        std::mutex m;
        std::condition_variable cv;
        std::vector<dtx> dtxs;
        std::vector<sub> subs;
        bool hold{false};    // the shard keeps lock requests until it is stopped
        std::vector<const void*> stopped; // shard clients
        auto is_stopped(const void* c) const -> bool {
            return std::find(stopped.begin(), stopped.end(), c) != stopped.end();
        }
        int holding{0};
        bool up{false}; // the submitter runs
        size_t next{0};
        size_t limit{0}; // the configured batch size
    };
    world* g;
    auto cfg() -> cbdc::config::options {
        cbdc::config::options o;
        o.m_coordinator_endpoints = {{endpoint(1)}};
        o.m_coordinator_raft_endpoints = {{endpoint(2)}};
        o.m_locking_shard_endpoints = {{endpoint(3)}};
        o.m_shard_ranges = {{0, 255}};
        o.m_attestation_threshold = 1;
        o.m_sentinel_public_keys.insert(cbdc::pubkey_from_privkey(key(7), ctx()));
        o.m_coordinator_max_threads = 1;
        return o;
    }
    // A submission: n names the transaction, so two submissions with the same n are the same transaction.
    void submission(uint8_t n, bool valid) {
        sub s;
        s.t.m_id = id(n, n);
        s.t.m_inputs.push_back(id(static_cast<uint8_t>(0x40 + n), n));
        s.t.m_uhs_outputs.push_back(id(static_cast<uint8_t>(0x80 + n), n));
        s.t.m_attestations.insert(s.t.sign(ctx(), key(valid ? 7 : 8)));
        s.valid = valid;
        g->subs.push_back(s);
    }
    void send(co::controller& c, size_t k) {
        auto* s = &g->subs[k];
        bool r = c.execute_transaction(s->t, [s](std::optional<bool> v) {
            std::unique_lock<std::mutex> l(g->m);
            s->seen++;
            CHECKM(s->seen == 1, "a submitter hears once at most");
            s->res = v;
            g->cv.notify_all();
        });
        std::unique_lock<std::mutex> l(g->m);
        s->state = r ? 1 : 2;
        g->cv.notify_all();
        CHECKM(s->valid || !r, "a transaction without a valid attestation is refused");
        CHECKM(r || s->seen == 0, "a refused transaction is not answered");
    }
    // Every accepted transaction is in exactly one distributed transaction (unless the coordinator stopped), and its
    // submitter was told what the shards decided there.
    void check(bool stopped) {
        std::unique_lock<std::mutex> l(g->m);
        for(auto& d : g->dtxs) {
            CHECKM(d.txs.size() <= g->limit, "a batch is not larger than configured");
            for(size_t i = 0; i < d.txs.size(); i++) {
                size_t acc = 0;
                for(size_t k = 0; k < i; k++)
                    CHECKM(!(d.txs[k] == d.txs[i]), "a batch holds a transaction once");
                for(auto& s : g->subs)
                    if(s.state != 2 && s.t.m_id == d.txs[i])
                        acc++;
                CHECKM(acc != 0, "only accepted transactions are run");
            }
        }
        for(auto& s : g->subs) {
            size_t in = 0, accepted = 0, yes = 0;
            for(auto& d : g->dtxs)
                for(size_t i = 0; i < d.txs.size(); i++)
                    if(d.txs[i] == s.t.m_id) {
                        in++;
                        if(d.applied && d.verdict[i])
                            yes++;
                    }
            size_t told_yes = 0, told = 0;
            for(auto& o : g->subs)
                if(o.t.m_id == s.t.m_id) {
                    accepted += o.state == 1 ? 1 : 0;
                    told += o.seen && o.res.has_value() ? 1 : 0;
                    told_yes += o.seen && o.res.has_value() && *o.res ? 1 : 0;
                }
            CHECKM(in <= accepted, "an accepted transaction is run once");
            CHECKM(told_yes <= yes, "a submitter is told of success only if the shards completed the transaction");
            CHECKM(told - told_yes <= in - yes || stopped, "a submitter is told of failure only if the shards aborted the transaction");
            if(!stopped) {
                CHECKM(in == accepted, "an accepted transaction is run");
                if(s.state == 1)
                    CHECKM(s.seen == 1 && s.res.has_value(), "every submitter is told the result");
            }
            if(s.state == 2)
                sym_cover("refused");
            if(s.seen && s.res.has_value())
                sym_cover(*s.res ? "completed" : "aborted");
        }
    }
}
namespace cbdc::locking_shard::rpc {
    client::client(std::vector<network::endpoint_t>, const std::pair<uint8_t, uint8_t>& r, logging::log& l) : interface(r), m_log(l) {}
    client::~client() { stop(); }
    auto client::init() -> bool {
        std::unique_lock<std::mutex> l(g->m);
        g->stopped.erase(std::remove(g->stopped.begin(), g->stopped.end(), this), g->stopped.end());
        return true;
    }
    auto client::lock_outputs(std::vector<tx>&& txs, const hash_t& id) -> std::optional<std::vector<bool>> {
        std::unique_lock<std::mutex> l(g->m);
        g->holding++;
        g->cv.notify_all();
        g->cv.wait(l, [&]() { return !g->hold || g->is_stopped(this); });
        if(g->is_stopped(this))
            return std::nullopt;
        for(auto& d : g->dtxs)
            if(d.id == id)
                return d.answer;
        dtx d;
        d.id = id;
        for(auto& t : txs) {
            d.txs.push_back(t.m_tx.m_id);
            d.answer.push_back(vf::flip("can lock"));
        }
        g->dtxs.push_back(d);
        return d.answer;
    }
    auto client::apply_outputs(std::vector<bool>&& c, const hash_t& id) -> bool {
        std::unique_lock<std::mutex> l(g->m);
        if(g->is_stopped(this))
            return false;
        for(auto& d : g->dtxs)
            if(d.id == id) {
                CHECKM(c.size() == d.txs.size(), "one verdict per transaction");
                d.applied = true;
                d.verdict = c;
                return true;
            }
        CHECKM(false, "apply follows lock");
        return false;
    }
    auto client::discard_dtx(const hash_t& id) -> bool {
        std::unique_lock<std::mutex> l(g->m);
        if(g->is_stopped(this))
            return false;
        for(auto& d : g->dtxs)
            if(d.id == id) {
                CHECKM(d.applied, "discard follows apply");
                d.discarded = true;
            }
        return true;
    }
    void client::stop() {
        std::unique_lock<std::mutex> l(g->m);
        if(!g->is_stopped(this))
            g->stopped.push_back(this);
        g->cv.notify_all();
    }
}
namespace {
    std::mutex* raft_mut;
    auto commit(nuraft::raft_server& s, const std::vector<nuraft::ptr<nuraft::buffer>>& logs) -> nuraft::append_result {
        std::unique_lock<std::mutex> l(*raft_mut);
        auto r = nuraft::cs_new<nuraft::cmd_result<nuraft::ptr<nuraft::buffer>>>();
        if(!s.leader)
            return r;
        r->accept();
        nuraft::ptr<nuraft::buffer> last;
        for(const auto& b : logs) {
            b->pos(0);
            last = s.sm->commit(++s.idx, *b);
        }
        nuraft::ptr<std::exception> e;
        r->set_result(last, e);
        return r;
    }
    struct leader {
        world w;
        std::mutex m;
        std::unique_ptr<co::controller> c;
        nuraft::ptr<nuraft::raft_server> raft;
        explicit leader(const cbdc::config::options& o) {
            g = &w;
            w.limit = o.m_batch_size;
            raft_mut = &m;
            c = std::make_unique<co::controller>(0, 0, o, quiet_log());
            CHECK(c->init());
            raft = nuraft::raft_launcher::instances().back();
            raft->hook = commit;
        }
        void become(bool lead) {
            {
                std::unique_lock<std::mutex> l(m);
                raft->leader = lead;
            }
            raft->opts.raft_callback_(lead ? nuraft::cb_func::BecomeLeader : nuraft::cb_func::BecomeFollower, nullptr);
        }
        // The thread that serves the RPC port submits n transactions, and ends when the port is closed.
        void submit(size_t n) {
            netstub::hook().server_thread = [this, n, p = c.get()](const cbdc::network::packet_handler_t&) {
                return std::thread([this, n, p]() {
                    for(size_t k = 0; k < n && w.next < w.subs.size(); k++)
                        send(*p, w.next++);
                });
            };
        }
        // Every submission was answered; a lost answer is a deadlock here.
        void answered() {
            std::unique_lock<std::mutex> l(w.m);
            w.cv.wait(l, [&]() {
                for(auto& s : w.subs)
                    if(s.state == 0 || (s.state == 1 && s.seen == 0))
                        return false;
                return true;
            });
        }
        auto log(const co::controller::sm_command& comm) {
            auto b = nuraft::buffer::alloc(cbdc::serialized_size(comm));
            auto ser = cbdc::nuraft_serializer(*b);
            ser << comm;
            raft->leader = true;
            return commit(*raft, {b});
        }
        // How many distributed transactions the replicated state lists as unfinished.
        auto unfinished() -> size_t {
            auto r = log(co::controller::sm_command{{co::state_machine::command::get, std::nullopt}, {}});
            auto st = co::controller::coordinator_state();
            auto d = cbdc::nuraft_serializer(*r->get());
            d >> st;
            CHECKM(static_cast<bool>(d), "the coordinator state can be decoded");
            return st.m_prepare_txs.size() + st.m_commit_txs.size() + st.m_discard_txs.size();
        }
    };
}
// Transactions from one submitter after the other, valid or not, repeated or not, batched as the threads happen to run.
ENTRY(c39_batches) {
    auto o = cfg();
    o.m_batch_size = 1 + choose(2, "batch size");
    leader w(o);
    submission(1, true);
    submission(static_cast<uint8_t>(1 + choose(2, "same")), choose(2, "valid") == 1);
    if(TIER == 1)
        submission(2, true);
    w.submit(9);
    w.become(true);
    w.answered();
    w.c.reset();
    check(false);
    CHECKM(w.unfinished() == 0, "finished batches leave the replicated state");
}
// The coordinator stops leading, or is destroyed, while transactions are submitted and run; it may lead again.
ENTRY(c39_stop) {
    auto o = cfg();
    o.m_batch_size = 1;
    leader w(o);
    for(uint8_t k = 1; k <= (TIER ? 4 : 3); k++)
        submission(k, true);
    w.w.hold = choose(2, "the shard does not answer") == 1;
    w.submit(9);
    w.become(true);
    if(choose(2, "under load") == 1) {
        std::unique_lock<std::mutex> l(w.w.m);
        w.w.cv.wait(l, [&]() { return w.w.holding != 0; });
        sym_cover("stopped under load");
    }
    if(choose(2, "leads again") == 1) {
        w.become(false);
        w.become(true);
        sym_cover("leads again");
        {
            std::unique_lock<std::mutex> l(w.w.m);
            w.w.hold = false;
            w.w.cv.notify_all();
        }
    }
    w.c.reset();
    check(true);
}
// A coordinator that takes over finishes what its predecessor left, whatever phase that was in, before it serves.
ENTRY(c39_recover) {
    auto o = cfg();
    o.m_batch_size = 2;
    leader w(o);
    submission(1, true);
    w.raft->leader = false;
    send(*w.c, 0);
    CHECKM(w.w.subs[0].state == 2, "a coordinator that does not lead refuses transactions");
    w.raft->leader = true;
    submission(2, true);
    submission(3, true);
    using sm = co::state_machine;
    std::vector<hash_t> left;
    for(uint8_t k = 0; k < (TIER ? 3 : 2); k++) {
        auto d = id(static_cast<uint8_t>(0xd0 + k), static_cast<uint8_t>(0xd0 + k));
        auto phase = choose(5, "phase");
        if(phase == 0)
            continue;
        left.push_back(d);
        std::vector<tx::compact_tx> txs{w.w.subs[1 + (k & 1)].t};
        (void)w.log({{sm::command::prepare, d}, txs});
        if(phase == 1)
            continue;
        dtx x;
        x.id = d;
        x.txs.push_back(txs[0].m_id);
        x.answer.push_back(flip("can lock"));
        w.w.dtxs.push_back(x);
        if(phase == 2)
            continue;
        (void)w.log({{sm::command::commit, d}, std::make_pair(x.answer, std::vector<std::vector<uint64_t>>{{0}})});
        if(phase == 3)
            continue;
        w.w.dtxs.back().applied = true;
        w.w.dtxs.back().verdict = x.answer;
        (void)w.log({{sm::command::discard, d}, {}});
    }
    CHECK(w.unfinished() == left.size());
    if(left.size() > 1)
        sym_cover("two to recover");
    w.w.subs.clear();
    submission(4, true);
    w.submit(9);
    w.become(true);
    w.answered();
    {
        std::unique_lock<std::mutex> l(w.w.m);
        for(auto& d : left) {
            bool seen = false;
            for(auto& x : w.w.dtxs)
                if(x.id == d) {
                    seen = true;
                    CHECKM(x.applied && x.discarded, "what a predecessor left is finished before new transactions are answered");
                    CHECKM(x.verdict == x.answer, "recovery applies what the shards answered");
                }
            CHECKM(seen, "what a predecessor left is finished before new transactions are answered");
        }
    }
    w.c.reset();
    CHECKM(w.unfinished() == 0, "recovery leaves nothing unfinished");
}
