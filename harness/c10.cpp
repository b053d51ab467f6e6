#include "c10.hpp"
using namespace c10;
namespace {
    // Transactions over outputs 0..2; which of them the second and third spend is open.
    void scene(world& w, int txs) {
        w.outputs(3);
        w.add({0});
        auto k = choose(3, "what the second transaction spends");
        if(k == 0)
            w.add({0, 1});
        else if(k == 1)
            w.add({1, 0});
        else
            w.add({1, 2});
        if(txs > 2)
            w.add({2});
    }
    void run_complete(bool snap) {
        auto depth = choose(2, "cache depth") + 1;
        world w(5, depth);
        scene(w, 2);
        bool snapped = !snap;
        for(int s = 0; s < (TIER ? 4 : 3); s++) {
            auto nb = choose(depth + 2, "blocks before the notification");
            for(uint64_t i = 0; i < nb; i++)
                w.block();
            if(!snapped && flip("continue on a replica")) {
                w.restore();
                snapped = true;
            }
            auto j = static_cast<int>(choose(w.txs.size(), "transaction"));
            auto off = choose(depth + 3, "age of the oldest attestation"); // depth+2: from the future
            auto h = off == depth + 2 ? w.best + 1 : w.best - off;
            for(int i : w.txs[j].in)
                if(!w.unspent_at(i, h) && h <= w.best)
                    return; // no honest shard attests to that
            w.complete(j, h);
        }
        w.block();
    }
    void run_pending(bool snap, int steps) {
        uint64_t depth = 1;
        world w(5, depth);
        scene(w, 2);
        bool snapped = !snap;
        for(int s = 0; s < steps; s++) {
            auto nb = choose(2, "a block before the notification");
            for(uint64_t i = 0; i < nb; i++)
                w.block();
            if(!snapped && flip("continue on a replica")) {
                w.restore();
                snapped = true;
            }
            auto j = static_cast<int>(choose(w.txs.size(), "transaction"));
            auto& t = w.txs[j];
            auto h = w.best - choose(depth + 2, "age of the attestations");
            std::set<uint32_t> att;
            for(uint32_t i = 0; i < t.in.size(); i++)
                if(w.unspent_at(t.in[i], h) && (t.in.size() == 1 || flip("attested")))
                    att.insert(i);
            if(att.empty())
                return;
            w.notify(j, h, att);
        }
        w.block();
        w.block();
    }
}
// Fully attested transactions (what the replicated atomizer applies), with any age of the attestations.
ENTRY(c10_complete) {
    run_complete(false);
}
// Attestations that arrive in parts.
ENTRY(c10_pending) {
    run_pending(false, TIER ? 4 : 3);
}
// Transactions without inputs and heights far outside the cache: refused or accepted, never a crash.
ENTRY(c10_heights) {
    world w(sym_range_(0, 4, "height") , 1);
    w.best = sym_concretize(w.best);
    w.outputs(1);
    w.add({});
    w.add({0});
    auto h = sym_u64_("height of the notification");
    if(flip("all at once")) {
        auto j = static_cast<int>(choose(2, "transaction"));
        auto e = w.a->insert_complete(h, w.real(w.txs[j]));
        if(j == 1 && h <= w.best)
            CHECKM(e.has_value() == (w.best - h > 1), "only covered heights are accepted");
        sym_cover("complete");
    } else {
        auto j = static_cast<int>(choose(2, "transaction"));
        std::unordered_set<uint32_t> att;
        if(j == 1)
            att.insert(0);
        auto e = w.a->insert(h, w.real(w.txs[j]), att);
        if(j == 1 && h <= w.best)
            CHECKM(e.has_value() == (w.best - h > 1), "only covered heights are accepted");
        sym_cover("pending");
    }
    auto [b, errs] = w.a->make_block();
    CHECKM(b.m_height == w.best + 1, "heights grow by one");
    CHECKM(errs.empty(), "nothing ran out of time");
}
// The same histories, continued at some point on an atomizer restored from the serialized state.
ENTRY(c11_complete) {
    run_complete(true);
}
ENTRY(c11_pending) {
    run_pending(true, 3);
}
