#include "c07.hpp"
using namespace c07;
// Which shards a transaction touches is symbolic: the first bytes of its id, input and output.
ENTRY(c07_route) {
    world w;
    w.init({{0, 99}, {100, 255}});
    const int n = TIER == 0 ? 1 : 2;
    for(int i = 0; i < n; i++)
        w.txs.push_back(mktx(static_cast<uint8_t>(i), sym_u8_("id"), {sym_u8_("in")}, {sym_u8_("out")}));
    w.expect();
    co::distributed_tx d(w.dtx, w.ifs(), w.log);
    for(size_t i = 0; i < w.txs.size(); i++)
        CHECKM(d.add_tx(w.txs[i]) == i, "transactions are numbered in order");
    CHECK(d.size() == w.txs.size());
    w.cbs(d);
    auto r = d.execute();
    CHECKM(r.has_value(), "without faults a distributed transaction finishes");
    w.check_result(*r);
    w.check_finished();
    for(auto& s : w.sh)
        if(!s->expect_txs.empty())
            CHECKM(s->n_lock == 1 && s->n_apply == 1 && s->n_discard == 1, "each shard is asked once");
    CHECKM(w.state() == ctl::coordinator_state{}, "a finished distributed transaction leaves the replicated state");
}
// Three shards, two transactions, no faults: the verdicts for all lock answers and all thread orders.
ENTRY(c07_verdicts) {
    world w;
    w.init({{0, 99}, {100, 199}, {200, 255}});
    w.txs.push_back(mktx(0, 10, {20, 120}, {130}));
    w.txs.push_back(mktx(1, 110, {140}, {210}));
    if(TIER == 1)
        w.txs.push_back(mktx(2, 220, {30}, {40}));
    w.expect();
    co::distributed_tx d(w.dtx, w.ifs(), w.log);
    for(const auto& t : w.txs)
        d.add_tx(t);
    w.cbs(d);
    auto r = d.execute();
    CHECK(r.has_value());
    w.check_result(*r);
    w.check_finished();
    if((*r)[0] && (*r)[1])
        sym_cover("both complete");
    if((*r)[0] && !(*r)[1])
        sym_cover("first completes alone");
}
// Crashes: any replication or shard call may fail, before or after it took effect; a new coordinator recovers from the
// replicated state, and may fail again; the last one runs without faults.
ENTRY(c07_crash) {
    world w;
    w.init({{0, 99}, {100, 199}, {200, 255}});
    w.txs.push_back(mktx(0, 10, {20}, {130}));
    w.txs.push_back(mktx(1, 110, {140}, {150}));
    w.expect();
    w.g.faulty = true;
    w.g.faults = TIER == 0 ? 3 : 4;
    std::optional<std::vector<bool>> res;
    {
        co::distributed_tx d(w.dtx, w.ifs(), w.log);
        for(const auto& t : w.txs)
            d.add_tx(t);
        w.cbs(d);
        res = d.execute();
    }
    bool was_logged = false;
    for(int attempt = 0; attempt < 6; attempt++) {
        w.check_verdicts_if_any();
        auto st = w.state();
        auto n = st.m_prepare_txs.size() + st.m_commit_txs.size() + st.m_discard_txs.size();
        CHECKM(n <= 1, "a distributed transaction is in one phase");
        if(n == 0)
            break;
        was_logged = true;
        co::distributed_tx d(w.dtx, w.ifs(), w.log);
        if(!st.m_prepare_txs.empty()) {
            CHECK(st.m_prepare_txs.begin()->first == w.dtx);
            d.recover_prepare(st.m_prepare_txs.begin()->second);
            sym_cover("recovered in prepare");
        } else if(!st.m_commit_txs.empty()) {
            CHECK(st.m_commit_txs.begin()->first == w.dtx);
            d.recover_commit(st.m_commit_txs.begin()->second.first, st.m_commit_txs.begin()->second.second);
            sym_cover("recovered in commit");
        } else {
            CHECK(*st.m_discard_txs.begin() == w.dtx);
            d.recover_discard();
            sym_cover("recovered in discard");
        }
        w.cbs(d);
        auto r = d.execute();
        if(r.has_value() && !r->empty())
            w.check_result(*r);
        if(w.g.faults == 0)
            CHECKM(r.has_value() || attempt < 5, "without further faults recovery finishes");
    }
    CHECKM(w.state() == ctl::coordinator_state{}, "recovery leaves nothing unfinished");
    if(res.has_value())
        w.check_result(*res);
    bool asked = false;
    for(auto& s : w.sh)
        asked = asked || s->n_lock != 0;
    if(was_logged || res.has_value() || asked)
        w.check_finished();
}
