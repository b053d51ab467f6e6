// The watchtower's caches and answers against a history of blocks and errors.
#include "common.hpp"
#include "uhs/atomizer/watchtower/block_cache.hpp"
#include "uhs/atomizer/watchtower/error_cache.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include <deque>
#include <thread>
#include <set>
using namespace vf;
namespace wt = cbdc::watchtower;
namespace {
    using tx_t = cbdc::transaction::compact_tx;
    struct rtx {
        hash_t id{};
        std::vector<int> in, out;
    };
    struct rblk {
        uint64_t height{};
        std::vector<rtx> txs;
    };
    // A valid chain: every output is created once and spent at most once, later than it was created.
    struct chain {
        std::vector<hash_t> uhs;
        std::vector<int> state; // 0: not on the chain yet, 1: unspent, 2: spent
        std::deque<rblk> window;
        std::vector<hash_t> ids; // transactions
        uint64_t k{}, height{};
        int fresh() {
            for(size_t i = 0; i < state.size(); i++)
                if(state[i] == 0) {
                    state[i] = 1;
                    return static_cast<int>(i);
                }
            uhs.push_back(id(static_cast<uint8_t>(0x20 + uhs.size()), static_cast<uint8_t>(uhs.size() + 1)));
            state.push_back(1);
            return static_cast<int>(uhs.size()) - 1;
        }
        auto real(const rblk& b) const -> cbdc::atomizer::block {
            cbdc::atomizer::block r;
            r.m_height = b.height;
            for(const auto& t : b.txs) {
                tx_t c;
                c.m_id = t.id;
                for(int i : t.in)
                    c.m_inputs.push_back(uhs[i]);
                for(int i : t.out)
                    c.m_uhs_outputs.push_back(uhs[i]);
                r.m_transactions.push_back(c);
            }
            return r;
        }
        // next block: ntx transactions, each spending what the solver picks
        auto next(uint64_t maxtx, bool two_inputs) -> cbdc::atomizer::block {
            rblk b;
            b.height = ++height;
            auto n = choose(maxtx + 1, "txs in block");
            std::vector<int> avail;
            for(size_t i = 0; i < uhs.size(); i++)
                if(state[i] == 1)
                    avail.push_back(static_cast<int>(i));
            for(uint64_t t = 0; t < n; t++) {
                rtx x;
                x.id = id(0x11, static_cast<uint8_t>(0x80 + ids.size()));
                ids.push_back(x.id);
                for(int j = 0; j < (two_inputs ? 2 : 1) && !avail.empty(); j++) {
                    auto p = choose(avail.size() + 1, "input");
                    if(p < avail.size()) {
                        state[avail[p]] = 2;
                        x.in.push_back(avail[p]);
                        avail.erase(avail.begin() + static_cast<long>(p));
                    }
                }
                x.out.push_back(fresh());
                if(x.in.empty())
                    x.out.push_back(fresh());
                b.txs.push_back(x);
            }
            if(k != 0 && window.size() == k)
                window.pop_front();
            window.push_back(b);
            return real(b);
        }
        struct seen {
            int what{0}; // 0 nothing, 1 unspent, 2 spent
            uint64_t height{};
            hash_t tx{};
        };
        auto lookup(int u) const -> seen {
            seen s;
            for(const auto& b : window)
                for(const auto& t : b.txs) {
                    for(int i : t.in)
                        if(i == u)
                            s = {2, b.height, t.id};
                    for(int i : t.out)
                        if(i == u)
                            s = {1, b.height, t.id};
                }
            return s;
        }
    };
    void compare(const wt::block_cache& c, const chain& ch) {
        CHECKM(c.best_block_height() == ch.height, "the best height is that of the last block");
        for(size_t u = 0; u < ch.uhs.size(); u++) {
            auto r = ch.lookup(static_cast<int>(u));
            auto sp = c.check_spent(ch.uhs[u]);
            auto un = c.check_unspent(ch.uhs[u]);
            CHECKM(!(sp && un), "an output is never both spent and unspent");
            CHECKM(sp.has_value() == (r.what == 2), "spent exactly if a block of the window spends it");
            CHECKM(un.has_value() == (r.what == 1), "unspent exactly if the window creates it and does not spend it");
            if(sp) {
                CHECKM(sp->first == r.height && heq(sp->second, r.tx), "the spending block and transaction are reported");
                sym_cover("spent");
            }
            if(un) {
                CHECKM(un->first == r.height && heq(un->second, r.tx), "the creating block and transaction are reported");
                sym_cover("unspent");
            }
        }
    }
    struct rerr {
        hash_t tx{};
        int kind{};
        std::vector<int> uhs;
    };
    auto make(const rerr& e, const std::vector<hash_t>& uhs) -> wt::tx_error {
        switch(e.kind) {
            case 0: return wt::tx_error(e.tx, wt::tx_error_sync{});
            case 1: {
                std::vector<hash_t> v;
                for(int i : e.uhs)
                    v.push_back(uhs[i]);
                return wt::tx_error(e.tx, wt::tx_error_inputs_dne(v));
            }
            case 2: return wt::tx_error(e.tx, wt::tx_error_stxo_range{});
            case 3: return wt::tx_error(e.tx, wt::tx_error_incomplete{});
            default: {
                std::unordered_set<hash_t, cbdc::hashing::null> v;
                for(int i : e.uhs)
                    v.insert(uhs[i]);
                return wt::tx_error(e.tx, wt::tx_error_inputs_spent(v));
            }
        }
    }
    struct errors {
        std::deque<rerr> window;
        uint64_t k{};
        void add(const rerr& e) {
            if(k != 0 && window.size() == k)
                window.pop_front();
            window.push_back(e);
        }
        auto tx(const hash_t& t) const -> const rerr* {
            const rerr* r = nullptr;
            for(const auto& e : window)
                if(e.tx == t)
                    r = &e;
            return r;
        }
        auto uhs(int u) const -> const rerr* {
            const rerr* r = nullptr;
            for(const auto& e : window)
                for(int i : e.uhs)
                    if(i == u)
                        r = &e;
            return r;
        }
        auto any(const std::optional<wt::tx_error>& got, const std::vector<hash_t>& pool, const hash_t* t, int u) const -> bool {
            for(const auto& e : window) {
                bool hit = t != nullptr ? e.tx == *t : false;
                for(int i : e.uhs)
                    hit = hit || (t == nullptr && i == u);
                if(hit && make(e, pool) == *got)
                    return true;
            }
            return false;
        }
    };
    auto pick_error(const std::vector<hash_t>& txs, size_t nuhs) -> rerr {
        rerr e;
        e.tx = txs[choose(txs.size(), "error tx")];
        e.kind = static_cast<int>(choose(5, "error kind"));
        if(e.kind == 1 || e.kind == 4) {
            auto m = 1 + choose(nuhs == 1 ? 1 : 3, "error inputs"); // 1: first, 2: second, 3: both
            if((m & 1U) != 0)
                e.uhs.push_back(0);
            if((m & 2U) != 0)
                e.uhs.push_back(1);
        }
        return e;
    }
}
ENTRY(c14_blocks) {
    chain ch;
    ch.k = choose(4, "k");
    ch.height = sym_range_(0, UINT64_MAX - 8, "first height");
    wt::block_cache c(ch.k);
    int const n = TIER ? 5 : 4;
    for(int i = 0; i < n; i++) {
        c.push_block(ch.next(i < (TIER ? 2 : 1) ? 2 : 1, i < (TIER ? 3 : 2)));
        compare(c, ch);
        if(ch.k != 0 && static_cast<uint64_t>(i) >= ch.k)
            sym_cover("a block leaves the window");
    }
    // an output that never was
    hash_t x = sym_hash_id("other");
    for(const auto& u : ch.uhs)
        ASSUME(!heq(u, x));
    CHECKM(!c.check_spent(x) && !c.check_unspent(x), "nothing is known about an output that never was");
}
ENTRY(c14_errors) {
    std::vector<hash_t> txs{id(0x11, 0x81), id(0x11, 0x82)};
    std::vector<hash_t> uhs{id(0x21, 1), id(0x22, 2)};
    errors r;
    r.k = choose(4, "k");
    wt::error_cache c(r.k);
    int const n = TIER ? 4 : 3;
    for(int i = 0; i < n;) {
        std::vector<wt::tx_error> batch;
        int m = i + 1 < n && i != 0 ? 1 + static_cast<int>(choose(2, "batch")) : 1;
        for(int j = 0; j < m; j++, i++) {
            auto e = pick_error(txs, 2);
            batch.push_back(make(e, uhs));
            r.add(e);
        }
        c.push_errors(std::move(batch));
        for(const auto& t : txs) {
            auto got = c.check_tx_id(t);
            CHECKM(got.has_value() == (r.tx(t) != nullptr), "an error is known for a transaction exactly while one of the last k concerns it");
            if(got) {
                CHECKM(r.any(got, uhs, &t, 0), "the error reported is one of the last k for the transaction");
                sym_cover("transaction error");
            }
        }
        for(int u = 0; u < 2; u++) {
            auto got = c.check_uhs_id(uhs[u]);
            CHECKM(got.has_value() == (r.uhs(u) != nullptr), "an error is known for an output exactly while one of the last k concerns it");
            if(got) {
                CHECKM(r.any(got, uhs, nullptr, u), "the error reported is one of the last k for the output");
                sym_cover("output error");
            }
        }
        if(r.k != 0 && static_cast<uint64_t>(i) > r.k)
            sym_cover("an error leaves the window");
    }
}
namespace {
    // blocks and errors interleaved, then status requests
    void statuses(bool blocks_first) {
        chain ch;
        ch.k = 1 + choose(2, "k blocks");
        errors er;
        er.k = 1 + choose(2, "k errors");
        ch.height = sym_range_(0, UINT64_MAX - 8, "first height");
        wt::watchtower w(ch.k, er.k);
        std::vector<hash_t> txs{id(0x11, 0x80), id(0x11, 0x81)}; // the first two of the chain
        auto blk = [&]() {
            w.add_block(ch.next(1, false));
        };
        auto err = [&]() {
            while(ch.uhs.size() < 2) { // errors name the outputs of the first transaction
                ch.uhs.push_back(id(static_cast<uint8_t>(0x20 + ch.uhs.size()), static_cast<uint8_t>(ch.uhs.size() + 1)));
                ch.state.push_back(0);
            }
            auto e = pick_error(txs, 2);
            bool settled = false; // a rejected repetition of something that settled is no error
            for(int u : e.uhs) {
                auto s = ch.lookup(u);
                settled = settled || (s.what != 0 && s.tx == e.tx);
            }
            std::vector<wt::tx_error> v{make(e, ch.uhs)};
            w.add_errors(std::move(v));
            if(!settled)
                er.add(e);
            else
                sym_cover("repeated transaction");
        };
        if(blocks_first) {
            blk();
            blk();
            err();
            if(TIER)
                err();
            blk();
        } else {
            err();
            blk();
            err();
            blk();
        }
        wt::tx_id_uhs_ids q;
        std::vector<hash_t> all;
        for(const auto& u : ch.uhs)
            all.push_back(u);
        all.push_back(id(0x99, 0x55));
        for(const auto& t : txs)
            q.insert({t, all});
        auto resp = w.handle_status_update_request(wt::status_update_request(q));
        const auto& st = std::get<wt::status_request_check_success>(resp->payload()).states();
        CHECKM(st.size() == q.size(), "each transaction asked about is answered");
        for(const auto& t : txs) {
            auto it = st.find(t);
            CHECKM(it != st.end(), "each transaction asked about is answered");
            CHECKM(it->second.size() == all.size(), "one status per output asked about");
            const auto* te = er.tx(t);
            for(size_t i = 0; i < all.size(); i++) {
                const auto& s = it->second[i];
                CHECKM(heq(s.uhs_id(), all[i]), "statuses come in the order of the request");
                auto b = i < ch.uhs.size() ? ch.lookup(static_cast<int>(i)) : chain::seen{};
                auto want = wt::search_status::no_history;
                uint64_t h = ch.height;
                if(b.what != 0 && b.tx == t) {
                    want = b.what == 2 ? wt::search_status::spent : wt::search_status::unspent;
                    h = b.height;
                    if(te != nullptr)
                        sym_cover("settled after an error");
                } else if(te != nullptr) {
                    bool in_err = i < ch.uhs.size() && er.uhs(static_cast<int>(i)) != nullptr;
                    if(s.status() == wt::search_status::internal_error) {
                        bool ok = false;
                        for(const auto& e : er.window)
                            ok = ok || (e.tx == t && (e.kind == 0 || e.kind == 2));
                        CHECKM(ok, "an internal error is reported only for a transaction with one");
                        sym_cover("internal error");
                        want = s.status();
                    } else {
                        bool ok = false;
                        for(const auto& e : er.window)
                            ok = ok || (e.tx == t && e.kind != 0 && e.kind != 2);
                        CHECKM(ok, "a rejection is reported only for a transaction with one");
                        want = in_err ? wt::search_status::invalid_input : wt::search_status::tx_rejected;
                        sym_cover("rejected");
                    }
                } else
                    sym_cover("no history");
                CHECKM(s.status() == want, "the status reported is the true one");
                if(b.what != 0 && b.tx == t)
                    CHECKM(s.block_height() == h, "the height reported is that of the block");
            }
        }
        auto bh = w.handle_best_block_height_request(wt::best_block_height_request());
        CHECKM(std::get<wt::best_block_height_response>(bh->payload()).height() == ch.height, "the best height is that of the last block");
    }
}
ENTRY(c14_statuses) { statuses(false); }
ENTRY(c14_settled) { statuses(true); }
// Blocks, errors and requests on different threads: an answer is that of one moment.
ENTRY(c14_threads) {
    wt::watchtower w(2, 2);
    auto tid = id(0x11, 0x80), other = id(0x11, 0x81);
    auto a = id(0x21, 1), b = id(0x22, 2), c = id(0x23, 3);
    auto mk = [](uint64_t h, const hash_t& t, std::vector<hash_t> in, std::vector<hash_t> out) {
        cbdc::atomizer::block r;
        r.m_height = h;
        tx_t x;
        x.m_id = t;
        x.m_inputs = std::move(in);
        x.m_uhs_outputs = std::move(out);
        r.m_transactions.push_back(x);
        return r;
    };
    w.add_block(mk(5, other, {}, {a}));
    auto with_error = flip("an error arrives"), its_own = flip("about the transaction");
    std::thread blocks([&] { w.add_block(mk(6, tid, {a}, {b})); });
    std::thread errs([&] {
        if(with_error) {
            std::vector<wt::tx_error> v{wt::tx_error(its_own ? tid : other, wt::tx_error_sync{})};
            w.add_errors(std::move(v));
        }
    });
    auto best1 = std::get<wt::best_block_height_response>(w.handle_best_block_height_request({})->payload()).height();
    wt::tx_id_uhs_ids q;
    q.insert({tid, {a, b, c}});
    auto resp = w.handle_status_update_request(wt::status_update_request(q));
    auto best2 = std::get<wt::best_block_height_response>(w.handle_best_block_height_request({})->payload()).height();
    const auto& st = std::get<wt::status_request_check_success>(resp->payload()).states().find(tid)->second;
    CHECKM((best1 == 5 || best1 == 6) && best1 <= best2 && best2 <= 6, "the best height is that of the last block");
    CHECKM(st.size() == 3, "one status per output asked about");
    bool settled = st[0].status() == wt::search_status::spent;
    CHECKM(settled == (st[1].status() == wt::search_status::unspent), "a block is seen as a whole");
    if(best1 == 6)
        CHECKM(settled, "a settled transaction is reported");
    if(best2 == 5)
        CHECKM(!settled, "nothing is reported before it settles");
    auto miss = settled ? st[2].status() : st[0].status();
    if(settled) {
        CHECKM(st[0].block_height() == 6 && st[1].block_height() == 6, "the height reported is that of the block");
        sym_cover("settled");
    } else {
        CHECKM(st[1].status() == miss && st[2].status() == miss, "an error is seen as a whole");
        sym_cover("not settled");
    }
    if(miss == wt::search_status::internal_error) {
        CHECKM(with_error && its_own, "an internal error is reported only for a transaction with one");
        sym_cover("error seen");
    } else
        CHECKM(miss == wt::search_status::no_history, "nothing else is reported");
    blocks.join();
    errs.join();
}
