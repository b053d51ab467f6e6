// The archiver on the database model: blocks in any order, restarts, requests.
#include "common.hpp"
#include "netstub.hpp"
#include "uhs/atomizer/archiver/controller.hpp"
#include "uhs/atomizer/atomizer/atomizer_raft.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/util.hpp"
#include <set>
using namespace vf;
namespace ar = cbdc::archiver;
namespace at = cbdc::atomizer;
namespace {
    auto same(const at::block& a, const at::block& b) -> bool {
        if(a.m_height != b.m_height || a.m_transactions.size() != b.m_transactions.size())
            return false;
        for(size_t i = 0; i < a.m_transactions.size(); i++) {
            const auto &x = a.m_transactions[i], &y = b.m_transactions[i];
            if(!heq(x.m_id, y.m_id) || x.m_inputs.size() != y.m_inputs.size() || x.m_uhs_outputs.size() != y.m_uhs_outputs.size())
                return false;
            for(size_t j = 0; j < x.m_inputs.size(); j++)
                if(!heq(x.m_inputs[j], y.m_inputs[j]))
                    return false;
            for(size_t j = 0; j < x.m_uhs_outputs.size(); j++)
                if(!heq(x.m_uhs_outputs[j], y.m_uhs_outputs[j]))
                    return false;
        }
        return true;
    }
    struct world {
        std::vector<at::block> chain; // chain[i] has height i+1
        std::set<uint64_t> early;     // received, not stored yet
        uint64_t best{0};
        std::unique_ptr<ar::controller> c;
        cbdc::config::options o;
        explicit world(uint64_t n) {
            for(uint64_t h = 1; h <= n; h++) {
                at::block b;
                b.m_height = h;
                for(uint64_t t = 0; t < h % 3; t++) {
                    cbdc::transaction::compact_tx x;
                    sym_bytes(x.m_id.data(), 32, "tx id");
                    x.m_inputs.push_back(id(0x21, static_cast<uint8_t>(h)));
                    if(t == 1)
                        x.m_inputs.push_back(sym_hash_id("input"));
                    x.m_uhs_outputs.push_back(sym_hash_id("output"));
                    b.m_transactions.push_back(x);
                }
                chain.push_back(b);
            }
            o.m_archiver_db_dirs.emplace_back("d");
            o.m_archiver_endpoints.emplace_back("a", 1);
            start();
        }
        void start(size_t samples = 0) {
            c.reset();
            c = std::make_unique<ar::controller>(0, o, quiet_log(), samples);
            CHECK(c->init_leveldb());
            CHECK(c->init_best_block());
        }
        void verify() {
            CHECKM(c->best_block_height() == best, "the best height is that of the longest gapless prefix received");
            for(uint64_t h = 1; h <= chain.size(); h++) {
                auto b = c->get_block(h);
                CHECKM(b.has_value() == (h <= best), "exactly the blocks of the prefix are stored");
                if(b)
                    CHECKM(same(*b, chain[h - 1]), "a stored block is returned as received");
            }
            CHECKM(!c->get_block(0).has_value(), "there is no block zero");
        }
        void receive(uint64_t h, bool truncated) {
            netstub::log().clear();
            auto old = best;
            auto buf = cbdc::make_shared_buffer(chain[h - 1]);
            if(truncated) {
                auto s = std::make_shared<cbdc::buffer>();
                s->append(buf->data(), buf->size() - 1);
                buf = s;
            }
            cbdc::network::message_t m;
            m.m_pkt = buf;
            CHECKM(!c->atomizer_handler(std::move(m)).has_value(), "blocks are not answered");
            bool known = early.count(h - 1) != 0;
            if(!truncated) {
                if(h > best)
                    early.insert(h);
                while(early.count(best + 1) != 0) {
                    best++;
                    early.erase(best);
                }
            } else
                sym_cover("truncated");
            uint64_t pruned = 0, asked = 0;
            for(const auto& s : netstub::log()) {
                auto q = cbdc::from_buffer<at::request>(*s.m_pkt);
                CHECKM(q.has_value(), "the archiver sends well-formed requests");
                if(std::holds_alternative<at::prune_request>(*q)) {
                    auto p = std::get<at::prune_request>(*q).m_block_height;
                    CHECKM(p <= best && p > old, "the atomizer is told to prune only what is stored");
                    pruned = p > pruned ? p : pruned;
                } else {
                    CHECKM(std::holds_alternative<at::get_block_request>(*q), "the archiver asks for blocks only");
                    asked = std::get<at::get_block_request>(*q).m_block_height;
                    CHECKM(asked == h - 1 && asked > old, "the block before an early one is asked for");
                }
            }
            if(best > old)
                CHECKM(pruned == best, "stored blocks are pruned at the atomizer");
            if(!truncated && h > old + 1 && best == old) {
                CHECKM((asked != 0) || known, "the block before an early one is asked for");
                sym_cover("early block");
            }
            if(best > old + 1)
                sym_cover("gap filled");
            if(!truncated && h <= old)
                sym_cover("duplicate");
        }
    };
}
ENTRY(c13_order) {
    world w(TIER ? 5 : 4);
    netstub::hook().reachable = choose(2, "atomizer reachable") == 1;
    int const n = TIER ? 7 : 5;
    for(int i = 0; i < n; i++) {
        auto h = 1 + choose(w.chain.size(), "height");
        w.receive(h, i == 1 && choose(2, "truncated") == 1);
        CHECKM(w.c->best_block_height() == w.best, "the best height is that of the longest gapless prefix received");
    }
    w.verify();
}
ENTRY(c13_restart) {
    world w(3);
    leveldb::disks()["d"]->track = true;
    int const n = TIER ? 5 : 4;
    for(int i = 0; i < n; i++)
        w.receive(1 + choose(w.chain.size(), "height"), false);
    w.c.reset();
    auto& d = *leveldb::disks()["d"];
    if(choose(2, "machine crash") == 1)
        d.crash(choose(d.undo.size() + 1, "lost writes"));
    w.early.clear(); // kept in memory only
    w.start();
    w.verify();
    w.receive(1 + choose(w.chain.size(), "height"), false);
    w.receive(1 + choose(w.chain.size(), "height"), false);
    w.verify();
    sym_cover("restarted");
}
ENTRY(c13_requests) {
    world w(2);
    auto n = choose(3, "blocks");
    for(uint64_t i = 0; i < n; i++)
        w.receive(i + 1, false);
    uint64_t h = sym_u64_("height asked");
    auto pick = choose(4, "near");
    if(pick < 3)
        h = pick;
    else {
        ASSUME(h > 2);
        h = sym_concretize(h % 2 == 0 ? 10 : UINT64_MAX);
    }
    cbdc::network::message_t m;
    m.m_pkt = cbdc::make_shared_buffer(h);
    auto r = w.c->server_handler(std::move(m));
    CHECKM(r.has_value(), "a request is answered");
    auto resp = cbdc::from_buffer<ar::response>(*r);
    CHECKM(resp.has_value(), "the answer is well formed");
    CHECKM(resp->has_value() == (h >= 1 && h <= w.best), "a block is returned exactly if it is stored");
    if(resp->has_value()) {
        CHECKM(same(resp->value(), w.chain[h - 1]), "the block returned is the one asked for");
        sym_cover("found");
    } else
        sym_cover("not found");
    auto s = std::make_shared<cbdc::buffer>();
    s->append("1234567", sym_concretize(sym_range_(0, 7, "short request")));
    m.m_pkt = s;
    CHECKM(!w.c->server_handler(std::move(m)).has_value(), "a malformed request is not answered");
}
