// Recording shards and a faulty replicated log for the distributed transaction coordinator.
#ifndef C07_HPP
#define C07_HPP
#include "common.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/controller.hpp"
#include "uhs/twophase/coordinator/distributed_tx.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/state_machine.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
namespace c07 {
    using namespace vf;
    namespace ls = cbdc::locking_shard;
    namespace co = cbdc::coordinator;
    using sm = co::state_machine;
    using ctl = co::controller;
    struct global {
        int locks_answered{0}; // shards that answered the lock request
        int applied{0};
        int participants{0};
        bool faulty{false};
        int faults{0}; // remaining fault budget
    };
    struct shard : ls::interface {
        global& g;
        std::vector<hash_t> expect_txs; // transactions this shard must be asked to lock, in order
        std::vector<bool> answer;       // its (stable) verdicts
        bool known_answer{false}, answered{false}, applied{false}, discarded{false};
        std::vector<bool> verdict;
        int n_lock{0}, n_apply{0}, n_discard{0};
        hash_t dtx{};
        uint8_t lo, hi;
        std::vector<std::vector<int>> touch;
        shard(uint8_t l, uint8_t h, global& gg) : interface({l, h}), g(gg), lo(l), hi(h) {}
        // 0: works, 1: fails before it takes effect, 2: takes effect but the answer is lost
        auto fault(const char* n) -> int {
            if(!g.faulty || g.faults == 0)
                return 0;
            auto f = static_cast<int>(choose(3, n));
            if(f != 0)
                g.faults--;
            return f;
        }
        auto lock_outputs(std::vector<ls::tx>&& txs, const hash_t& dtx_id) -> std::optional<std::vector<bool>> override {
            n_lock++;
            CHECKM(dtx_id == dtx, "the lock request names the distributed transaction");
            CHECKM(txs.size() == expect_txs.size(), "a shard is asked about every transaction that touches it, and no other");
            for(size_t i = 0; i < txs.size(); i++)
                CHECKM(txs[i].m_tx.m_id == expect_txs[i], "a shard is asked about the transactions that touch it in a fixed order");
            CHECKM(!expect_txs.empty(), "a shard not involved is not contacted");
            CHECKM(!applied, "no lock request after the shard applied");
            auto f = fault("lock fault");
            if(f == 1)
                return std::nullopt;
            if(!known_answer) {
                known_answer = true;
                for(size_t i = 0; i < txs.size(); i++)
                    answer.push_back(flip("can lock"));
            }
            if(f == 2)
                return std::nullopt;
            if(!answered) {
                answered = true;
                g.locks_answered++;
            }
            return answer;
        }
        auto apply_outputs(std::vector<bool>&& complete, const hash_t& dtx_id) -> bool override {
            n_apply++;
            CHECKM(dtx_id == dtx, "the apply request names the distributed transaction");
            CHECKM(!expect_txs.empty(), "a shard not involved is not contacted");
            CHECKM(g.locks_answered == g.participants, "no shard applies before all shards answered the lock request");
            CHECKM(complete.size() == expect_txs.size(), "an apply request has one verdict per transaction of that shard");
            if(n_apply > 1)
                CHECKM(complete == verdict, "a repeated apply request carries the same verdicts");
            verdict = complete;
            auto f = fault("apply fault");
            if(f == 1)
                return false;
            if(f == 2)
                return false;
            if(!applied) {
                applied = true;
                g.applied++;
            }
            return true;
        }
        auto discard_dtx(const hash_t& dtx_id) -> bool override {
            n_discard++;
            CHECKM(dtx_id == dtx, "the discard request names the distributed transaction");
            CHECKM(g.applied == g.participants, "no shard discards before all shards applied");
            auto f = fault("discard fault");
            if(f == 1)
                return false;
            discarded = true;
            return f == 0;
        }
        void stop() override {}
        auto in(const hash_t& h) const -> bool {
            return h[0] >= lo && h[0] <= hi;
        }
    };
    struct world {
        global g;
        std::vector<std::shared_ptr<shard>> sh;
        std::vector<cbdc::transaction::compact_tx> txs;
        hash_t dtx{};
        std::shared_ptr<cbdc::logging::log> log = quiet_log();
        std::unique_ptr<sm> rsm;
        uint64_t idx{0};
        void init(const std::vector<std::pair<uint8_t, uint8_t>>& ranges) {
            dtx.fill(0x77);
            for(const auto& r : ranges)
                sh.push_back(std::make_shared<shard>(r.first, r.second, g));
            for(auto& s : sh)
                s->dtx = dtx;
            rsm = std::make_unique<sm>(log);
        }
        void expect() {
            for(auto& s : sh) {
                for(const auto& t : txs) {
                    bool a = s->in(t.m_id);
                    for(const auto& i : t.m_inputs)
                        a = a || s->in(i);
                    for(const auto& o : t.m_uhs_outputs)
                        a = a || s->in(o);
                    if(a)
                        s->expect_txs.push_back(t.m_id);
                }
                if(!s->expect_txs.empty())
                    g.participants++;
            }
        }
        auto ifs() {
            return std::vector<std::shared_ptr<ls::interface>>(sh.begin(), sh.end());
        }
        // replicate a command: 1 = not replicated, 2 = replicated but the answer is lost
        auto replicate(const ctl::sm_command& c) -> std::optional<nuraft::ptr<nuraft::buffer>> {
            int f = 0;
            if(g.faulty && g.faults > 0 && c.m_header.m_comm != sm::command::get) {
                f = static_cast<int>(choose(3, "replication fault"));
                if(f != 0)
                    g.faults--;
            }
            if(f == 1)
                return std::nullopt;
            auto buf = nuraft::buffer::alloc(cbdc::serialized_size(c));
            auto ser = cbdc::nuraft_serializer(*buf);
            ser << c;
            CHECKM(ser.end_of_buffer(), "a command has the predicted size");
            buf->pos(0);
            auto r = rsm->commit(++idx, *buf);
            if(f == 2)
                return std::nullopt;
            return r;
        }
        void cbs(co::distributed_tx& c) {
            auto s = c.get_state();
            using st = co::distributed_tx::dtx_state;
            if(s != st::prepare)
                c.set_prepare_cb([&](const hash_t& d, const std::vector<cbdc::transaction::compact_tx>& t) {
                    return replicate(ctl::sm_command{{sm::command::prepare, d}, t}).has_value();
                });
            if(s != st::commit)
                c.set_commit_cb([&](const hash_t& d, const std::vector<bool>& ct, const std::vector<std::vector<uint64_t>>& ix) {
                    return replicate(ctl::sm_command{{sm::command::commit, d}, std::make_pair(ct, ix)}).has_value();
                });
            if(s != st::discard)
                c.set_discard_cb([&](const hash_t& d) {
                    return replicate(ctl::sm_command{{sm::command::discard, d}, {}}).has_value();
                });
            c.set_done_cb([&](const hash_t& d) {
                return replicate(ctl::sm_command{{sm::command::done, d}, {}}).has_value();
            });
        }
        auto state() {
            auto r = replicate(ctl::sm_command{{sm::command::get, std::nullopt}, {}});
            CHECKM(r.has_value() && *r != nullptr, "the coordinator state can be read");
            auto st = ctl::coordinator_state();
            auto d = cbdc::nuraft_serializer(**r);
            d >> st;
            CHECKM(static_cast<bool>(d), "the coordinator state can be decoded");
            return st;
        }
        auto expected(size_t t) -> bool {
            bool v = true;
            for(auto& s : sh)
                for(size_t k = 0; k < s->expect_txs.size(); k++)
                    if(s->expect_txs[k] == txs[t].m_id && !s->answer[k])
                        v = false;
            return v;
        }
        void check_result(const std::vector<bool>& r) {
            CHECKM(r.size() == txs.size(), "one verdict per transaction");
            for(size_t t = 0; t < txs.size(); t++)
                CHECKM(r[t] == expected(t), "a transaction completes exactly if every shard it touches locked it");
            check_verdicts();
        }
        void check_verdicts_if_any() {
            check_verdicts();
        }
        void check_verdicts() {
            for(auto& s : sh)
                if(s->n_apply > 0)
                    for(size_t k = 0; k < s->expect_txs.size(); k++)
                        for(size_t t = 0; t < txs.size(); t++)
                            if(txs[t].m_id == s->expect_txs[k])
                                CHECKM(s->verdict[k] == expected(t), "every shard is told the same verdict for a transaction");
        }
        void check_finished() {
            for(auto& s : sh)
                if(!s->expect_txs.empty()) {
                    CHECKM(s->applied, "every shard involved applies");
                    CHECKM(s->discarded, "every shard involved is told to discard");
                }
        }
    };
    inline auto mktx(uint8_t n, uint8_t idb, const std::vector<uint8_t>& in, const std::vector<uint8_t>& out) {
        cbdc::transaction::compact_tx t;
        t.m_id = id(idb, n);
        uint8_t k = 0;
        for(auto b : in)
            t.m_inputs.push_back(id(b, static_cast<uint8_t>(0x10 * (n + 1) + k++)));
        for(auto b : out)
            t.m_uhs_outputs.push_back(id(b, static_cast<uint8_t>(0x10 * (n + 1) + k++)));
        return t;
    }
}
#endif
