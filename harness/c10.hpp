// A reference atomizer and honest shards around the real one.
#ifndef C10_HPP
#define C10_HPP
#include "common.hpp"
#include "uhs/atomizer/atomizer/atomizer.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include <map>
#include <set>
namespace c10 {
    using namespace vf;
    namespace at = cbdc::atomizer;
    namespace wt = cbdc::watchtower;
    using tx_t = cbdc::transaction::compact_tx;
    struct rtx {
        hash_t id{};
        std::vector<int> in; // indices into the pool of outputs
        std::map<uint64_t, std::set<uint32_t>> pend;
        bool settled{false}, queued{false};
    };
    struct world {
        uint64_t best, depth;
        std::vector<hash_t> pool;
        std::vector<uint64_t> spent; // height of the block that spends it; 0: unspent
        std::vector<rtx> txs;
        std::vector<int> queue; // settled, not yet in a block
        std::unique_ptr<at::atomizer> a;
        world(uint64_t b, uint64_t d) : best(b), depth(d), a(std::make_unique<at::atomizer>(b, d)) {}
        void outputs(int n) {
            for(int i = 0; i < n; i++)
                pool.push_back(id(static_cast<uint8_t>(0x40 + i), static_cast<uint8_t>(i + 1)));
            spent.assign(pool.size(), 0);
        }
        void add(std::vector<int> in) {
            rtx t;
            t.id = id(0x11, static_cast<uint8_t>(0x80 + txs.size()));
            t.in = std::move(in);
            txs.push_back(t);
        }
        auto real(const rtx& t) const -> tx_t {
            tx_t c;
            c.m_id = t.id;
            for(int i : t.in)
                c.m_inputs.push_back(pool[i]);
            c.m_uhs_outputs.push_back(id(0x77, t.id[1]));
            return c;
        }
        // an honest shard sees the output unspent at height h
        auto unspent_at(int o, uint64_t h) const -> bool {
            return spent[o] == 0 || spent[o] > h;
        }
        // the error the reference gives for completing t with oldest attestation h
        auto expect_spent(const rtx& t, uint64_t h) const -> std::set<int> {
            std::set<int> r;
            for(int i : t.in)
                if(spent[i] != 0 && spent[i] > h)
                    r.insert(i);
            return r;
        }
        void settle(int j) {
            auto& t = txs[j];
            for(int i : t.in) {
                CHECKM(spent[i] == 0, "no output is spent twice");
                spent[i] = best + 1;
            }
            CHECKM(!t.settled, "a transaction settles once");
            t.settled = true;
            t.queued = true;
            t.pend.clear();
            queue.push_back(j);
            sym_cover("a transaction settles");
        }
        void same_error(const std::optional<wt::tx_error>& e, const rtx& t, bool range, const std::set<int>& spent_in) {
            if(range) {
                CHECKM(e.has_value(), "a notification the spent cache does not cover is refused");
                CHECKM(e->tx_id() == t.id, "the error names the transaction");
                CHECKM(std::holds_alternative<wt::tx_error_stxo_range>(e->info()), "an uncovered height is reported as such");
                sym_cover("too old");
            } else if(!spent_in.empty()) {
                CHECKM(e.has_value(), "spending a spent output is refused");
                CHECKM(e->tx_id() == t.id, "the error names the transaction");
                CHECKM(std::holds_alternative<wt::tx_error_inputs_spent>(e->info()), "a double spend is reported as such");
                auto s = std::get<wt::tx_error_inputs_spent>(e->info()).input_uhs_ids();
                CHECKM(s.size() == spent_in.size(), "exactly the spent inputs are reported");
                for(int i : spent_in)
                    CHECKM(s.find(pool[i]) != s.end(), "each spent input is reported");
                sym_cover("double spend refused");
            } else {
                CHECKM(!e.has_value(), "a valid notification is accepted");
            }
        }
        void complete(int j, uint64_t h) {
            auto& t = txs[j];
            auto e = a->insert_complete(h, real(t));
            bool range = !t.in.empty() && (h > best || best - h > depth);
            std::set<int> sp;
            if(!range)
                sp = expect_spent(t, h);
            same_error(e, t, range, sp);
            if(!e.has_value())
                settle(j);
            CHECKM(a->pending_transactions() == queue.size(), "the queue holds the settled transactions");
        }
        void notify(int j, uint64_t h, const std::set<uint32_t>& att) {
            auto& t = txs[j];
            auto e = a->insert(h, real(t), std::unordered_set<uint32_t>(att.begin(), att.end()));
            bool range = !t.in.empty() && (h > best || best - h > depth);
            if(range) {
                same_error(e, t, true, {});
                return;
            }
            t.pend[h].insert(att.begin(), att.end());
            std::set<uint32_t> all;
            for(auto& [k, v] : t.pend)
                all.insert(v.begin(), v.end());
            if(all.size() == t.in.size()) {
                auto sp = expect_spent(t, t.pend.begin()->first);
                same_error(e, t, false, sp);
                if(sp.empty())
                    settle(j);
            } else {
                CHECKM(!e.has_value(), "an incomplete notification waits");
                sym_cover("a transaction waits for attestations");
            }
            CHECKM(a->pending_transactions() == queue.size(), "a transaction settles once all inputs are attested");
        }
        void block() {
            auto [b, errs] = a->make_block();
            best++;
            CHECKM(b.m_height == best && a->height() == best, "heights grow by one");
            CHECKM(b.m_transactions.size() == queue.size(), "a block holds what settled since the last");
            for(size_t i = 0; i < queue.size(); i++)
                CHECKM(b.m_transactions[i].m_id == txs[queue[i]].id && b.m_transactions[i].m_inputs == real(txs[queue[i]]).m_inputs
                           && b.m_transactions[i].m_uhs_outputs == real(txs[queue[i]]).m_uhs_outputs,
                       "a settled transaction is in the block as it was submitted");
            queue.clear();
            CHECKM(a->pending_transactions() == 0, "a new block starts empty");
            size_t n = 0;
            for(auto& t : txs)
                for(auto it = t.pend.begin(); it != t.pend.end();) {
                    if(best - it->first > depth) {
                        n++;
                        size_t k = 0;
                        for(auto& e : errs)
                            if(e.tx_id() == t.id && std::holds_alternative<wt::tx_error_incomplete>(e.info()))
                                k++;
                        CHECKM(k == 1, "a transaction that ran out of time is reported once");
                        sym_cover("a transaction ran out of time");
                        it = t.pend.erase(it);
                    } else
                        it++;
                }
            CHECKM(errs.size() == n, "only transactions that ran out of time are reported");
        }
        // continue with an atomizer restored from the serialized state
        void restore() {
            auto buf = a->serialize();
            auto r = std::make_unique<at::atomizer>(0, 1);
            auto ser = cbdc::buffer_serializer(buf);
            r->deserialize(ser);
            CHECKM(*r == *a, "the restored atomizer equals the original");
            a = std::move(r);
        }
    };
}
#endif
