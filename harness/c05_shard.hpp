// Reference model of a locking shard and a driver for histories of requests.
#ifndef C05_SHARD_HPP
#define C05_SHARD_HPP
#include "common.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
namespace c05 {
    using namespace vf;
    namespace ls = cbdc::locking_shard;
    constexpr int MAXID = 8;
    struct txm {
        std::vector<int> in, out; // indices into the id pool
        hash_t id{};
        bool attested{true};
    };
    struct dtxm {
        std::vector<txm> txs;
        hash_t id{};
        int phase{0}; // 0 nothing, 1 locked, 2 applied, 3 discarded
        std::vector<bool> res, flags;
    };
    struct world {
        std::vector<hash_t> pool;
        std::vector<bool> held;          // the shard holds the output (available or locked)
        std::vector<bool> lock;          // ... and a prepared transaction locked it
        std::vector<int> consumed;       // by how many committed transactions
        std::vector<bool> made;          // output of a committed transaction
        uint8_t lo{0}, hi{255};
        std::unique_ptr<ls::locking_shard> sh;
        auto in_range(const hash_t& h) const -> bool {
            return h[0] >= lo && h[0] <= hi;
        }
        void init(int n, uint8_t l, uint8_t h, const cbdc::config::options& opts, size_t cache = 16) {
            lo = l;
            hi = h;
            held.assign(n, false);
            lock.assign(n, false);
            consumed.assign(n, 0);
            made.assign(n, false);
            sh = std::make_unique<ls::locking_shard>(std::make_pair(l, h), quiet_log(), cache, "", opts);
        }
        auto real(const dtxm& d) const -> std::vector<ls::tx> {
            std::vector<ls::tx> r;
            for(const auto& t : d.txs) {
                ls::tx x;
                x.m_tx.m_id = t.id;
                for(int i : t.in)
                    x.m_tx.m_inputs.push_back(pool[i]);
                for(int i : t.out)
                    x.m_tx.m_uhs_outputs.push_back(pool[i]);
                r.push_back(x);
            }
            return r;
        }
        // lock request: the answer must be exactly "all inputs in range are available", and is remembered
        void do_lock(dtxm& d) {
            auto r = sh->lock_outputs(real(d), d.id);
            CHECKM(r.has_value(), "a running shard answers a lock request");
            CHECKM(r->size() == d.txs.size(), "one lock verdict per transaction");
            if(d.phase == 1) {
                CHECKM(*r == d.res, "repeating a lock request returns the same answer");
                return;
            }
            d.res.clear();
            for(const auto& t : d.txs) {
                bool ok = t.attested;
                for(int i : t.in)
                    if(in_range(pool[i]) && !(held[i] && !lock[i]))
                        ok = false;
                if(ok)
                    for(int i : t.in)
                        if(in_range(pool[i]))
                            lock[i] = true;
                d.res.push_back(ok);
            }
            for(size_t k = 0; k < d.res.size(); k++) {
                if((*r)[k])
                    CHECKM(d.res[k], "an output that is spent, locked or unknown is never locked again");
                else
                    CHECKM(!d.res[k], "a transaction whose outputs are all available is locked");
            }
            d.phase = 1;
        }
        void do_apply(dtxm& d) {
            CHECKM(sh->apply_outputs(std::vector<bool>(d.flags), d.id), "apply of a prepared transaction succeeds");
            if(d.phase != 1)
                return;
            d.phase = 2;
            for(size_t k = 0; k < d.txs.size(); k++) {
                const auto& t = d.txs[k];
                if(d.flags[k]) {
                    for(int i : t.out)
                        if(in_range(pool[i])) {
                            held[i] = true;
                            made[i] = true;
                        }
                    for(int i : t.in)
                        if(in_range(pool[i])) {
                            held[i] = false;
                            lock[i] = false;
                            consumed[i]++;
                            CHECKM(consumed[i] <= 1, "model: consumed once");
                        }
                } else if(d.res[k])
                    for(int i : t.in)
                        if(in_range(pool[i]))
                            lock[i] = false;
            }
        }
        void do_discard(dtxm& d) {
            CHECKM(sh->discard_dtx(d.id), "a running shard accepts a discard request");
            if(d.phase == 2)
                d.phase = 3;
        }
        // probe what is available by asking for a lock in a fresh distributed transaction, and undo it
        void probe(int i, uint8_t n) {
            dtxm d;
            d.id.fill(0xee);
            d.id[0] = n;
            txm t;
            t.id.fill(0xdd);
            t.id[0] = n;
            t.in = {i};
            d.txs = {t};
            d.flags = {false};
            do_lock(d);
            do_apply(d);
        }
        void check_held() {
            for(size_t i = 0; i < pool.size(); i++) {
                auto u = sh->check_unspent(pool[i]);
                CHECKM(u.has_value(), "a status query is answered");
                if(*u)
                    CHECKM(held[i], "an output reported unspent is held by the shard");
                else
                    CHECKM(!held[i], "an output the shard holds is reported unspent");
            }
        }
        // seed outputs through a transaction without inputs
        void seed(const std::vector<int>& ids, uint8_t n) {
            dtxm d;
            d.id.fill(0xcc);
            d.id[0] = n;
            txm t;
            t.id.fill(0xbb);
            t.id[0] = n;
            t.out = ids;
            d.txs = {t};
            d.flags = {true};
            do_lock(d);
            do_apply(d);
            do_discard(d);
        }
    };
    inline void mk(dtxm& d, uint8_t n) {
        d.id.fill(static_cast<uint8_t>(0x40 + n));
        for(size_t k = 0; k < d.txs.size(); k++) {
            d.txs[k].id.fill(static_cast<uint8_t>(0x50 + 4 * n + k));
        }
    }
    // flags: any value for a transaction that was locked here (other shards decide), false otherwise
    inline void pick_flags(dtxm& d) {
        d.flags.clear();
        for(size_t k = 0; k < d.txs.size(); k++)
            d.flags.push_back(d.res[k] && flip("commit"));
    }
}
#endif
