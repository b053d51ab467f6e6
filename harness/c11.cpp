// The replicated atomizer: notifications through the raft log, replicas, snapshots and the block store.
#include "c10.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include <filesystem>
#include <fstream>
#include <thread>
using namespace c10;
namespace {
    using sm_t = at::state_machine;
    auto ask(sm_t& sm, uint64_t& idx, const sm_t::request& r) -> nuraft::ptr<nuraft::buffer> {
        auto b = cbdc::make_buffer<sm_t::request, nuraft::ptr<nuraft::buffer>>(r);
        idx++;
        return sm.commit(idx, *b);
    }
    auto response(const nuraft::ptr<nuraft::buffer>& b) -> std::optional<sm_t::response> {
        if(!b)
            return std::nullopt;
        b->pos(0);
        auto r = cbdc::from_buffer<sm_t::response>(*b);
        CHECKM(r.has_value(), "a response can be read back");
        return r;
    }
    auto same(const nuraft::ptr<nuraft::buffer>& a, const nuraft::ptr<nuraft::buffer>& b) -> bool {
        if(!a || !b)
            return !a && !b;
        return a->size() == b->size() && std::memcmp(a->data_begin(), b->data_begin(), a->size()) == 0;
    }
    auto agg(world& w, int j, uint64_t h) -> at::aggregate_tx_notification {
        at::aggregate_tx_notification n;
        n.m_oldest_attestation = h;
        n.m_tx = w.real(w.txs[j]);
        return n;
    }
    void take_snapshot(sm_t& sm, uint64_t idx) {
        auto cfg = nuraft::cs_new<nuraft::cluster_config>(1, 0);
        auto s = nuraft::snapshot(idx, 1, cfg);
        bool done = false;
        nuraft::async_result<bool>::handler_type h = [&](bool& ok, nuraft::ptr<std::exception>&) {
            CHECKM(ok, "a snapshot is taken");
            done = true;
        };
        sm.create_snapshot(s, h);
        CHECKM(done, "snapshot creation is answered");
    }
    // what the leader sends to a follower that lags behind
    void ship(sm_t& from, sm_t& to) {
        auto s = from.last_snapshot();
        CHECKM(s != nullptr, "a taken snapshot is there");
        void* ctx = nullptr;
        nuraft::ptr<nuraft::buffer> data;
        bool last = false;
        CHECKM(from.read_logical_snp_obj(*s, ctx, 0, data, last) == 0 && last, "a snapshot can be read");
        nuraft::ulong obj = 0;
        to.save_logical_snp_obj(*s, obj, *data, true, true);
        CHECKM(to.apply_snapshot(*s), "a received snapshot can be applied");
    }
    struct replica {
        std::unique_ptr<sm_t> sm;
        uint64_t idx{0};
    };
}
// Two replicas; one is restarted from its snapshot, or brought up to date with the other's, at any point.
ENTRY(c11_replicas) {
    constexpr uint64_t depth = 1;
    world w(0, depth);
    w.outputs(3);
    w.add({0});
    w.add({static_cast<int>(choose(2, "what the second transaction spends")), 2});
    replica a{std::make_unique<sm_t>(depth, "snp_a")}, b{std::make_unique<sm_t>(depth, "snp_b")};
    std::map<uint64_t, at::block> blocks;
    uint64_t best = 0;
    bool moved = false, snapped = false;
    const int steps = TIER ? 5 : 4;
    for(int s = 0; s < steps; s++) {
        sm_t::request r;
        auto op = choose(4, "command");
        uint64_t arg = 0;
        if(op == 0) {
            at::aggregate_tx_notify_request q;
            auto j = static_cast<int>(choose(2, "transaction"));
            q.m_agg_txs.push_back(agg(w, j, best - (best > 0 ? choose(2, "age") : 0)));
            r = q;
        } else if(op == 1)
            r = at::make_block_request{};
        else if(op == 2) {
            arg = choose(best + 2, "height");
            r = at::get_block_request{arg};
        } else {
            arg = choose(best + 2, "height");
            r = at::prune_request{arg};
        }
        auto ra = ask(*a.sm, a.idx, r);
        auto rb = ask(*b.sm, b.idx, r);
        CHECKM(same(ra, rb), "replicas give the same answer");
        auto resp = response(ra);
        if(op == 1) {
            best++;
            CHECKM(resp && std::holds_alternative<at::make_block_response>(*resp), "a block is produced");
            auto& mb = std::get<at::make_block_response>(*resp);
            CHECKM(mb.m_blk.m_height == best, "heights grow by one");
            blocks[best] = mb.m_blk;
        } else if(op == 2) {
            auto it = blocks.find(arg);
            CHECKM((it != blocks.end()) == resp.has_value(), "a block is found until it is pruned");
            if(resp) {
                CHECKM(std::holds_alternative<at::get_block_response>(*resp), "a block is returned");
                CHECKM(std::get<at::get_block_response>(*resp).m_blk == it->second, "a stored block is returned unchanged");
                sym_cover("a block is read");
            } else
                sym_cover("a block is missing");
        } else if(op == 3) {
            for(auto it = blocks.begin(); it != blocks.end();)
                it = it->first < arg ? blocks.erase(it) : std::next(it);
            CHECKM(!resp.has_value(), "pruning has no answer");
        } else if(resp) {
            CHECKM(std::holds_alternative<at::errors>(*resp), "refused transactions are reported");
            sym_cover("a transaction is refused");
        }
        if(!moved && flip("a replica restarts")) {
            if(!snapped) {
                take_snapshot(*a.sm, a.idx);
                snapped = true;
            }
            if(flip("it is the other one")) {
                ship(*a.sm, *b.sm);
                CHECKM(b.sm->last_commit_index() == b.idx, "the follower is up to date");
                sym_cover("follower catches up");
            } else {
                a.sm = std::make_unique<sm_t>(depth, "snp_a");
                CHECKM(a.sm->last_commit_index() == a.idx, "a restarted replica continues where it was");
                sym_cover("restart");
            }
            moved = true;
        }
    }
}
// A snapshot is atomic: a crash while it is taken leaves the previous one usable, and old ones are cleaned up.
ENTRY(c11_crash) {
    constexpr uint64_t depth = 1;
    replica a{std::make_unique<sm_t>(depth, "snp_c")};
    std::vector<uint64_t> at_best;
    uint64_t best = 0;
    for(int i = 0; i < 2; i++) {
        if(flip("a block")) {
            ask(*a.sm, a.idx, at::make_block_request{});
            best++;
        }
        ask(*a.sm, a.idx, at::get_block_request{1});
        take_snapshot(*a.sm, a.idx);
        at_best.push_back(best);
    }
    auto old = a.idx;
    auto old_best = best;
    ask(*a.sm, a.idx, at::make_block_request{});
    best++;
    std::set<uint64_t> idxs;
    for(auto& p : std::filesystem::directory_iterator("snp_c"))
        idxs.insert(std::stoull(p.path().filename().generic_string()));
    CHECKM(idxs.size() == 1 && *idxs.begin() == old, "only the latest snapshot is kept");
    // the crash: the temporary file is there, whole or in part
    {
        auto f = std::ofstream("snp_c/tmp", std::ios::out | std::ios::trunc | std::ios::binary);
        char junk[3] = {1, 2, 3};
        f.write(junk, 3);
        f.close();
    }
    a.sm = std::make_unique<sm_t>(depth, "snp_c");
    CHECKM(a.sm->last_commit_index() == old, "a restart uses the last complete snapshot");
    a.idx = old;
    auto r = response(ask(*a.sm, a.idx, at::make_block_request{}));
    CHECKM(r && std::get<at::make_block_response>(*r).m_blk.m_height == old_best + 1, "the restarted replica continues from there");
    take_snapshot(*a.sm, a.idx);
    CHECKM(a.sm->last_snapshot()->get_last_log_idx() == a.idx, "the new snapshot replaces the old one");
    size_t n = 0;
    for(auto& p : std::filesystem::directory_iterator("snp_c")) {
        (void)p;
        n++;
    }
    CHECKM(n == 1, "nothing else is left");
    sym_cover("crash while a snapshot is taken");
}
// Notifications from shards, aggregated by the leader and applied through the log.
ENTRY(c10_raft) {
    constexpr uint64_t depth = 1;
    world w(0, depth);
    w.outputs(3);
    w.add({0, 1});
    auto k = choose(3, "what the second transaction spends");
    if(k == 0)
        w.add({0});
    else if(k == 1)
        w.add({1, 2});
    else
        w.add({2});
    cbdc::config::options o{};
    o.m_attestation_threshold = 0;
    auto node = std::make_unique<at::atomizer_raft>(0, std::vector<cbdc::network::endpoint_t>{{"127.0.0.1", 5}}, depth, quiet_log(), o,
        [](nuraft::cb_func::Type, nuraft::cb_func::Param*) { return nuraft::cb_func::ReturnCode::Ok; });
    CHECKM(node->init(nuraft::raft_params{}), "raft starts");
    std::vector<std::map<uint32_t, uint64_t>> seen(2);
    std::vector<std::pair<int, uint64_t>> ready;
    auto block = [&]() {
        int calls = 0;
        std::vector<int> q = w.queue;
        CHECKM(node->make_request(at::make_block_request{}, [&](cbdc::raft::result_type& r, nuraft::ptr<std::exception>&) {
            calls++;
            auto resp = response(r.get());
            CHECKM(resp && std::holds_alternative<at::make_block_response>(*resp), "a block is produced");
            auto& b = std::get<at::make_block_response>(*resp);
            w.best++;
            CHECKM(b.m_blk.m_height == w.best, "heights grow by one");
            CHECKM(b.m_blk.m_transactions.size() == q.size(), "a block holds what settled since the last");
            for(size_t i = 0; i < q.size(); i++)
                CHECKM(b.m_blk.m_transactions[i].m_id == w.txs[q[i]].id && b.m_blk.m_transactions[i].m_inputs == w.real(w.txs[q[i]]).m_inputs, "in the order they settled");
            CHECKM(b.m_errs.empty(), "no errors");
        }), "a command is accepted");
        CHECKM(calls == 1, "a command is answered");
        w.queue.clear();
    };
    auto send = [&]() {
        int calls = 0;
        bool sent = node->send_complete_txs([&](cbdc::raft::result_type& r, nuraft::ptr<std::exception>&) {
            calls++;
            auto resp = response(r.get());
            std::vector<wt::tx_error> errs;
            if(resp) {
                CHECKM(std::holds_alternative<at::errors>(*resp), "refused transactions are reported");
                errs = std::get<at::errors>(*resp);
            }
            size_t n = 0;
            for(auto& [j, h] : ready) {
                bool range = h > w.best || w.best - h > depth;
                std::set<int> sp;
                if(!range)
                    sp = w.expect_spent(w.txs[j], h);
                if(range || !sp.empty()) {
                    CHECKM(n < errs.size(), "a refused transaction is reported");
                    w.same_error(errs[n], w.txs[j], range, sp);
                    n++;
                } else
                    w.settle(j);
            }
            CHECKM(n == errs.size(), "only refused transactions are reported");
        });
        CHECKM(sent == !ready.empty(), "complete transactions are sent on");
        CHECKM(calls == (sent ? 1 : 0), "a command is answered");
        ready.clear();
    };
    block();
    block();
    const int steps = TIER ? 4 : 3;
    for(int s = 0; s < steps; s++) {
        if(s > 0) {
            auto what = choose(4, "before the notification");
            if(what & 1)
                send();
            if(what & 2)
                block();
        }
        auto j = static_cast<int>(choose(2, "transaction"));
        auto& t = w.txs[j];
        auto h = w.best - choose(w.best > 1 ? 2 : 1, "age of the attestations");
        at::tx_notify_request q;
        q.m_tx = w.real(t);
        q.m_block_height = h;
        for(uint32_t i = 0; i < t.in.size(); i++)
            if(w.unspent_at(t.in[i], h) && (t.in.size() == 1 || flip("attested")))
                q.m_attestations.insert(i);
        if(q.m_attestations.empty())
            return;
        for(auto i : q.m_attestations) {
            auto& x = seen[j][static_cast<uint32_t>(i)];
            x = x < h ? h : x;
        }
        node->tx_notify(std::move(q));
        if(seen[j].size() == t.in.size()) {
            uint64_t oldest = ~0ULL;
            for(auto& [i, hh] : seen[j])
                oldest = hh < oldest ? hh : oldest;
            ready.emplace_back(j, oldest);
            seen[j].clear();
        }
    }
    send();
    block();
}
// Notifications on several threads, while complete transactions are sent on.
ENTRY(c10_threads) {
    world w(0, 1);
    w.outputs(2);
    w.add({0, 1});
    cbdc::config::options o{};
    o.m_attestation_threshold = 0;
    auto node = std::make_unique<at::atomizer_raft>(0, std::vector<cbdc::network::endpoint_t>{{"127.0.0.1", 5}}, 1, quiet_log(), o,
        [](nuraft::cb_func::Type, nuraft::cb_func::Param*) { return nuraft::cb_func::ReturnCode::Ok; });
    CHECKM(node->init(nuraft::raft_params{}), "raft starts");
    node->make_request(at::make_block_request{}, [](cbdc::raft::result_type&, nuraft::ptr<std::exception>&) {});
    auto note = [&](uint64_t i) {
        at::tx_notify_request q;
        q.m_tx = w.real(w.txs[0]);
        q.m_block_height = 1;
        q.m_attestations.insert(i);
        node->tx_notify(std::move(q));
    };
    int sent = 0;
    auto send = [&] {
        if(node->send_complete_txs([&](cbdc::raft::result_type& r, nuraft::ptr<std::exception>&) {
               CHECKM(!response(r.get()).has_value(), "the transaction settles");
           }))
            sent++;
    };
    bool whole = flip("both attestations in one");
    std::thread a([&] { note(0); });
    std::thread s([&] { send(); });
    if(whole) {
        at::tx_notify_request q;
        q.m_tx = w.real(w.txs[0]);
        q.m_block_height = 1;
        q.m_attestations.insert(0);
        q.m_attestations.insert(1);
        node->tx_notify(std::move(q));
    } else
        note(1);
    auto c = node->tx_notify_count();
    CHECKM(c <= 1, "a transaction is counted once");
    a.join();
    s.join();
    send();
    CHECKM(sent == 1, "a complete transaction is sent on exactly once");
    CHECKM(node->tx_notify_count() == 1, "a transaction is counted once");
    sym_cover("sent");
}
