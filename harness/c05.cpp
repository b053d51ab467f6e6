#include "c05_shard.hpp"
#include <thread>
using namespace c05;
static cbdc::config::options opts0() {
    cbdc::config::options o;
    o.m_attestation_threshold = 0;
    return o;
}
// Every interleaving of the lock / apply / discard requests of NDTX distributed transactions over shared outputs.
static void interleave(world& w, std::vector<dtxm>& d) {
    for(size_t step = 0; step < 3 * d.size(); step++) {
        std::vector<int> c;
        for(size_t i = 0; i < d.size(); i++)
            if(d[i].phase < 3)
                c.push_back(static_cast<int>(i));
        if(c.empty())
            break;
        auto& x = d[c[choose(c.size(), "who")]];
        if(x.phase == 0)
            w.do_lock(x);
        else if(x.phase == 1) {
            pick_flags(x);
            w.do_apply(x);
        } else
            w.do_discard(x);
        w.check_held();
    }
    for(size_t i = 0; i < w.pool.size(); i++)
        w.probe(static_cast<int>(i), static_cast<uint8_t>(i));
    w.check_held();
}
static std::vector<int> pick_in(int n, const char* nm) {
    auto k = choose(n, nm);
    return {static_cast<int>(k)};
}
// two distributed transactions, one of them with two transactions, over two seeded outputs and each other's outputs
ENTRY(c05_two) {
    world w;
    for(uint8_t i = 0; i < 6; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(6, 0, 255, opts0());
    w.seed({0, 1}, 1);
    std::vector<dtxm> d(2);
    d[0].txs.resize(2);
    d[1].txs.resize(1);
    d[0].txs[0].in = {0};
    d[0].txs[0].out = {2};
    d[0].txs[1].in = pick_in(6, "a1");
    if(flip("a1two"))
        d[0].txs[1].in = {0, 1};
    d[0].txs[1].out = {3};
    d[1].txs[0].in = pick_in(6, "b0");
    if(flip("b0two"))
        d[1].txs[0].in = {1, 0};
    d[1].txs[0].out = {4};
    mk(d[0], 1);
    mk(d[1], 2);
    interleave(w, d);
    sym_cover("both committed");
}
// three distributed transactions with one input each
ENTRY(c05_three) {
    world w;
    for(uint8_t i = 0; i < 5; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(5, 0, 255, opts0());
    w.seed({0}, 1);
    std::vector<dtxm> d(3);
    for(uint8_t k = 0; k < 3; k++) {
        d[k].txs.resize(1);
        d[k].txs[0].in = k == 0 ? std::vector<int>{0} : pick_in(k + 1, "in");
        d[k].txs[0].out = {k + 1};
        mk(d[k], k);
    }
    interleave(w, d);
}
// symbolic shard range and symbolic first bytes: only outputs in the range are this shard's business
ENTRY(c05_range) {
    world w;
    for(uint8_t i = 0; i < 4; i++)
        w.pool.push_back(id(sym_u8_("first"), i));
    auto lo = sym_u8_("lo");
    auto hi = sym_u8_("hi");
    w.init(4, lo, hi, opts0());
    w.seed({0, 1}, 1);
    std::vector<dtxm> d(2);
    for(uint8_t k = 0; k < 2; k++) {
        d[k].txs.resize(1);
        d[k].txs[0].in = {0, 1};
        d[k].txs[0].out = {2 + k};
        mk(d[k], k);
    }
    if(flip("single"))
        d[1].txs[0].in = {1};
    w.do_lock(d[0]);
    if(flip("early")) {
        pick_flags(d[0]);
        w.do_apply(d[0]);
        w.do_lock(d[1]);
    } else {
        w.do_lock(d[1]);
        pick_flags(d[0]);
        w.do_apply(d[0]);
    }
    pick_flags(d[1]);
    w.do_apply(d[1]);
    w.check_held();
    for(int i = 0; i < 4; i++)
        w.probe(i, static_cast<uint8_t>(i));
}
// Output ids with fully symbolic contents: the history depends only on which of them are equal.
ENTRY(c05_ids) {
    world w;
    auto a = sym_hash_id("a");
    auto b = sym_hash_id("b");
    auto c = sym_hash_id("c");
    cbdc::config::options o = opts0();
    w.init(0, 0, 255, o);
    auto tx = [&](const std::vector<hash_t>& in, const std::vector<hash_t>& out, uint8_t n) {
        ls::tx x;
        x.m_tx.m_id.fill(n);
        x.m_tx.m_inputs = in;
        x.m_tx.m_uhs_outputs = out;
        return x;
    };
    hash_t d0{}, d1{}, d2{}, d3{};
    d1[0] = 1;
    d2[0] = 2;
    d3[0] = 3;
    CHECK(w.sh->lock_outputs({tx({}, {a}, 1)}, d0).value() == std::vector<bool>{true});
    CHECK(w.sh->apply_outputs({true}, d0));
    auto rb = w.sh->lock_outputs({tx({b}, {}, 2)}, d1).value();
    CHECKM(rb[0] == heq(a, b), "exactly the created output can be locked");
    auto rc = w.sh->lock_outputs({tx({c}, {}, 3)}, d2).value();
    CHECKM(rc[0] == (heq(a, c) && !rb[0]), "a locked output cannot be locked again");
    CHECK(w.sh->apply_outputs({rb[0]}, d1));
    CHECK(w.sh->check_unspent(a).value() == !rb[0]);
    CHECK(w.sh->apply_outputs({rc[0]}, d2));
    CHECK(w.sh->check_unspent(a).value() == (!rb[0] && !rc[0]));
    auto rd = w.sh->lock_outputs({tx({c}, {}, 4)}, d3).value();
    CHECKM(rd[0] == (heq(a, c) && !rb[0] && !rc[0]), "a spent output cannot be locked");
    if(rb[0])
        sym_cover("first spender wins");
    if(rc[0])
        sym_cover("second spender wins");
}
// A transaction without a valid quorum of attestations is never locked.
ENTRY(c05_attest) {
    world w;
    w.pool.push_back(id(3, 0));
    w.pool.push_back(id(4, 1));
    cbdc::config::options o = opts0();
    o.m_attestation_threshold = 1;
    cbdc::pubkey_t pk{};
    pk.fill(7);
    o.m_sentinel_public_keys.insert(pk);
    w.init(2, 0, 255, o);
    dtxm d;
    d.txs.resize(1);
    d.txs[0].out = {0};
    d.txs[0].attested = false;
    mk(d, 1);
    w.do_lock(d);
    d.flags = {false};
    w.do_apply(d);
    w.check_held();
}
// Requests arriving on several threads at once: as if they had come one after the other.
ENTRY(c05_threads) {
    world w;
    for(uint8_t i = 0; i < 4; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(4, 0, 255, opts0());
    w.seed({0, 1}, 1);
    std::vector<dtxm> d(2);
    for(int k = 0; k < 2; k++) {
        d[k].txs.resize(1);
        d[k].txs[0].in = {0};
        d[k].txs[0].out = {2 + k};
        mk(d[k], static_cast<uint8_t>(1 + k));
    }
    if(flip("disjoint"))
        d[1].txs[0].in = {1};
    bool same = d[1].txs[0].in[0] == 0;
    bool locked[2]{}, done[2]{};
    bool want[2] = {flip("commit 0"), flip("commit 1")};
    auto run = [&](int k) {
        auto r = w.sh->lock_outputs(w.real(d[k]), d[k].id);
        CHECKM(r.has_value() && r->size() == 1, "a running shard answers a lock request");
        locked[k] = (*r)[0];
        done[k] = locked[k] && want[k];
        CHECKM(w.sh->apply_outputs({done[k]}, d[k].id), "apply of a prepared transaction succeeds");
        if(locked[k] && !want[k] && !same)
            CHECKM(w.sh->check_unspent(w.pool[k]).value(), "a released output is available");
        CHECKM(w.sh->discard_dtx(d[k].id), "a running shard accepts a discard request");
    };
    std::thread t([&] { run(0); });
    run(1);
    t.join();
    if(same) {
        CHECKM(!(done[0] && done[1]), "an output is consumed by at most one committed transaction");
        CHECKM(locked[0] || locked[1], "one of two requests for an available output gets it");
        if(locked[0] && locked[1])
            sym_cover("released and locked again");
        if(!locked[0] || !locked[1])
            sym_cover("a request is refused");
    } else
        CHECKM(locked[0] && locked[1], "requests for different outputs do not exclude each other");
    w.held[0] = !(done[0] || (same && done[1]));
    w.held[1] = same || !done[1];
    w.held[2] = done[0];
    w.held[3] = done[1];
    for(int i = 0; i < 4; i++)
        w.probe(i, static_cast<uint8_t>(i));
    w.check_held();
    for(int k = 0; k < 2; k++)
        CHECKM(w.sh->check_tx_id(d[k].txs[0].id) == done[k], "exactly the committed transactions are reported completed");
}
