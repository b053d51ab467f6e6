#include "c07.hpp"
using namespace c07;
namespace {
    struct log_world {
        sm rsm{quiet_log()};
        uint64_t idx{0};
        auto send(const ctl::sm_command& c) -> nuraft::ptr<nuraft::buffer> {
            auto n = cbdc::serialized_size(c);
            auto buf = nuraft::buffer::alloc(n);
            auto ser = cbdc::nuraft_serializer(*buf);
            ser << c;
            CHECKM(static_cast<bool>(ser) && ser.end_of_buffer(), "a command has the predicted size");
            buf->pos(0);
            auto r = rsm.commit(++idx, *buf);
            CHECKM(rsm.last_commit_index() == idx, "the commit index follows the log");
            return r;
        }
        auto get() -> ctl::coordinator_state {
            auto r = send({{sm::command::get, std::nullopt}, {}});
            CHECKM(r != nullptr, "reading the state is answered");
            ctl::coordinator_state st;
            auto d = cbdc::nuraft_serializer(*r);
            d >> st;
            CHECKM(static_cast<bool>(d) && d.end_of_buffer(), "the state decodes completely");
            return st;
        }
    };
    struct ref {
        hash_t id{};
        int phase{0}; // 0 none 1 prepare 2 commit 3 discard 4 done
        ctl::prepare_tx prep;
        ctl::commit_tx com;
    };
    bool same_tx(const cbdc::transaction::compact_tx& a, const cbdc::transaction::compact_tx& b) {
        return a.m_id == b.m_id && a.m_inputs == b.m_inputs && a.m_uhs_outputs == b.m_uhs_outputs && a.m_attestations == b.m_attestations;
    }
    void compare(const ctl::coordinator_state& st, const std::vector<ref>& rs) {
        size_t p = 0, c = 0, d = 0;
        for(const auto& r : rs) {
            auto ip = st.m_prepare_txs.find(r.id);
            auto ic = st.m_commit_txs.find(r.id);
            auto id = st.m_discard_txs.find(r.id);
            CHECKM((ip != st.m_prepare_txs.end()) == (r.phase == 1), "a transaction is in the prepare phase exactly after its prepare command");
            CHECKM((ic != st.m_commit_txs.end()) == (r.phase == 2), "a transaction is in the commit phase exactly after its commit command");
            CHECKM((id != st.m_discard_txs.end()) == (r.phase == 3), "a transaction is in the discard phase exactly after its discard command");
            if(r.phase == 1) {
                p++;
                CHECKM(ip->second.size() == r.prep.size(), "the prepare record has all transactions");
                for(size_t i = 0; i < r.prep.size(); i++)
                    CHECKM(same_tx(ip->second[i], r.prep[i]), "the prepare record returns the transactions unchanged");
            }
            if(r.phase == 2) {
                c++;
                CHECKM(ic->second.first == r.com.first, "the commit record returns the verdicts unchanged");
                CHECKM(ic->second.second == r.com.second, "the commit record returns the shard mapping unchanged");
            }
            if(r.phase == 3)
                d++;
        }
        CHECKM(st.m_prepare_txs.size() == p && st.m_commit_txs.size() == c && st.m_discard_txs.size() == d, "nothing else is reported");
    }
}
static void advance(log_world& w, ref& r) {
    if(r.phase == 0)
        w.send({{sm::command::prepare, r.id}, r.prep});
    else if(r.phase == 1)
        w.send({{sm::command::commit, r.id}, r.com});
    else if(r.phase == 2)
        w.send({{sm::command::discard, r.id}, {}});
    else
        w.send({{sm::command::done, r.id}, {}});
    r.phase++;
}
// Every interleaving of the phases of several distributed transactions, read back after every command.
ENTRY(c08_phases) {
    log_world w;
    std::vector<ref> rs(TIER == 0 ? 2 : 3);
    for(size_t i = 0; i < rs.size(); i++) {
        rs[i].id.fill(static_cast<uint8_t>(i + 1));
        for(size_t k = 0; k < 1 + i; k++) {
            rs[i].prep.push_back(mktx(static_cast<uint8_t>(4 * i + k), 1, {2}, {3}));
            rs[i].com.first.push_back(flip("verdict"));
        }
        rs[i].com.second = {{sym_u64_("index")}, {}, {sym_u64_("index"), 7}};
    }
    compare(w.get(), rs);
    for(size_t s = 0; s < 4 * rs.size(); s++) {
        std::vector<size_t> c;
        for(size_t i = 0; i < rs.size(); i++)
            if(rs[i].phase < 4)
                c.push_back(i);
        advance(w, rs[c[choose(c.size(), "who")]]);
        if(TIER == 0 || s % 3 == 2 || s + 1 == 4 * rs.size())
            compare(w.get(), rs);
    }
    sym_cover("all finished");
}
// Contents are symbolic: the recorded data come back bit for bit.
ENTRY(c08_data) {
    log_world w;
    std::vector<ref> rs(1);
    auto& r = rs[0];
    r.id = sym_hash_id("dtx");
    auto ntx = choose(3, "transactions");
    for(uint64_t i = 0; i < ntx; i++) {
        cbdc::transaction::compact_tx t;
        t.m_id = sym_hash_id("txid");
        for(uint64_t k = choose(3, "inputs"); k > 0; k--)
            t.m_inputs.push_back(sym_hash_id("input"));
        for(uint64_t k = choose(2, "outputs"); k > 0; k--)
            t.m_uhs_outputs.push_back(sym_hash_id("output"));
        if(flip("attested")) {
            cbdc::pubkey_t pk;
            cbdc::signature_t sg;
            sym_bytes(pk.data(), pk.size(), "key");
            sym_bytes(sg.data(), sg.size(), "signature");
            t.m_attestations.emplace(pk, sg);
        }
        r.prep.push_back(t);
    }
    for(uint64_t k = choose(4, "verdicts"); k > 0; k--)
        r.com.first.push_back(flip("verdict"));
    for(uint64_t k = choose(3, "shards"); k > 0; k--) {
        r.com.second.emplace_back();
        for(uint64_t j = choose(3, "indices"); j > 0; j--)
            r.com.second.back().push_back(sym_u64_("index"));
    }
    for(int i = 0; i < 4; i++) {
        advance(w, r);
        compare(w.get(), rs);
    }
}
// Any two distinct ids are kept apart.
ENTRY(c08_ids) {
    log_world w;
    std::vector<ref> rs(2);
    rs[0].id = sym_hash_id("first");
    rs[1].id = sym_hash_id("second");
    ASSUME(!heq(rs[0].id, rs[1].id));
    rs[0].prep.push_back(mktx(1, 1, {2}, {3}));
    rs[1].com.first = {true};
    advance(w, rs[0]);
    advance(w, rs[1]);
    compare(w.get(), rs);
    advance(w, rs[1]);
    compare(w.get(), rs);
    advance(w, rs[0]);
    advance(w, rs[0]);
    compare(w.get(), rs);
}
