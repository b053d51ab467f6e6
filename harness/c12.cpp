// An atomizer shard on the database model, against a reference set of outputs.
#include "common.hpp"
#include "netstub.hpp"
#include "uhs/atomizer/shard/controller.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/atomizer/shard/shard.hpp"
#include <map>
#include <set>
#include <thread>
using namespace vf;
namespace sh = cbdc::shard;
namespace wt = cbdc::watchtower;
using tx_t = cbdc::transaction::compact_tx;
namespace {
    // outputs spread over the key space, so that the bounds of the range fall anywhere among and on them
    struct ref {
        uint8_t lo{}, hi{};
        std::vector<hash_t> pool;
        std::vector<cbdc::atomizer::block> blocks; // blocks[i] has height i+1
        std::vector<std::set<int>> held;           // held[h]: unspent after block h, whole key space
        ref() {
            lo = sym_u8_("range start");
            hi = sym_u8_("range end");
            ASSUME(lo <= hi);
            for(int i = 0; i < 6; i++)
                pool.push_back(id(static_cast<uint8_t>(0x20 + 0x28 * i), static_cast<uint8_t>(i + 1)));
            held.emplace_back();
        }
        auto mine(int o) const -> bool {
            return pool[o][0] >= lo && pool[o][0] <= hi;
        }
        auto unspent(int o, uint64_t h) const -> bool {
            return held[h].count(o) != 0;
        }
        // a block that creates the given outputs and spends some unspent one the solver picks
        auto extend(std::vector<std::vector<int>> create, int spend) -> const cbdc::atomizer::block& {
            cbdc::atomizer::block b;
            b.m_height = blocks.size() + 1;
            auto s = held.back();
            auto before = s;
            for(auto& c : create) {
                tx_t t;
                t.m_id = id(0x11, static_cast<uint8_t>(0x80 + 8 * blocks.size() + b.m_transactions.size()));
                if(spend == 2 && !before.empty()) {
                    int o = *before.begin();
                    t.m_inputs.push_back(pool[o]);
                    s.erase(o);
                    before.erase(o);
                } else if(spend == 1 && !before.empty()) {
                    std::vector<int> a(before.begin(), before.end());
                    auto p = choose(a.size() + 1, "input of block");
                    if(p < a.size()) {
                        t.m_inputs.push_back(pool[a[p]]);
                        s.erase(a[p]);
                        before.erase(a[p]);
                    }
                }
                for(int o : c) {
                    t.m_uhs_outputs.push_back(pool[o]);
                    s.insert(o);
                }
                b.m_transactions.push_back(t);
            }
            blocks.push_back(b);
            held.push_back(s);
            return blocks.back();
        }
        // the shard must answer as the reference does at height h
        void compare(const tx_t& t, const std::vector<int>& in, const std::variant<cbdc::atomizer::tx_notify_request, wt::tx_error>& r, uint64_t h, bool unreadable) {
            std::vector<int> dne;
            std::set<uint64_t> att;
            for(size_t i = 0; i < in.size(); i++)
                if(mine(in[i])) {
                    if(unspent(in[i], h))
                        att.insert(i);
                    else
                        dne.push_back(in[i]);
                }
            bool any = !att.empty() || !dne.empty();
            if(std::holds_alternative<wt::tx_error>(r)) {
                const auto& e = std::get<wt::tx_error>(r);
                CHECKM(heq(e.tx_id(), t.m_id), "the error names the transaction");
                if(h == 0) {
                    CHECKM(std::holds_alternative<wt::tx_error_sync>(e.info()), "before the first block a shard reports that it is not in sync");
                    sym_cover("not in sync");
                    return;
                }
                if(unreadable && any) {
                    sym_cover("unreadable database");
                    return;
                }
                CHECKM(in.empty() || !dne.empty(), "an error is reported only if an input does not exist");
                CHECKM(std::holds_alternative<wt::tx_error_inputs_dne>(e.info()), "missing inputs are reported as such");
                const auto x = std::get<wt::tx_error_inputs_dne>(e.info()).input_uhs_ids();
                CHECKM(x.size() == dne.size(), "exactly the missing inputs of the shard are reported");
                for(size_t i = 0; i < dne.size(); i++)
                    CHECKM(heq(x[i], pool[dne[i]]), "exactly the missing inputs of the shard are reported");
                sym_cover("missing input");
            } else {
                const auto& m = std::get<cbdc::atomizer::tx_notify_request>(r);
                CHECKM(h > 0, "before the first block nothing is attested");
                CHECKM(!in.empty(), "a transaction without inputs is not attested");
                CHECKM(!unreadable || !any, "nothing is attested that the database does not show");
                CHECKM(dne.empty(), "a transaction with a missing input is not attested");
                CHECKM(m.m_block_height == h, "attestations name the height they hold at");
                CHECKM(m.m_tx == t && m.m_tx.m_uhs_outputs == t.m_uhs_outputs, "the transaction is passed on unchanged");
                CHECKM(m.m_attestations.size() == att.size(), "exactly the inputs in the range are attested");
                for(auto a : att)
                    CHECKM(m.m_attestations.count(a) == 1, "exactly the inputs in the range are attested");
                if(!att.empty())
                    sym_cover("attested");
            }
        }
        auto pick(std::vector<int>& in, int most) -> tx_t {
            tx_t t;
            t.m_id = id(0x33, 0x77);
            for(int i = 0; i < most; i++) {
                auto p = choose(pool.size() + 1, "input");
                if(p < pool.size()) {
                    in.push_back(static_cast<int>(p));
                    t.m_inputs.push_back(pool[p]);
                }
            }
            t.m_uhs_outputs.push_back(id(0x44, 0x78));
            return t;
        }
        void ask(sh::shard& s, uint64_t h, int most, bool unreadable = false) {
            std::vector<int> in;
            auto t = pick(in, most);
            auto c = t;
            compare(t, in, s.digest_transaction(std::move(c)), h, unreadable);
        }
    };
    auto open(const ref& r, const char* dir) -> std::unique_ptr<sh::shard> {
        auto s = std::make_unique<sh::shard>(std::make_pair(r.lo, r.hi));
        CHECKM(!s->open_db(dir).has_value(), "the database opens");
        return s;
    }
    auto disk(const char* dir) -> leveldb::Disk& {
        return *leveldb::disks()[dir];
    }
}
// Blocks in any order: only the next one is applied.
ENTRY(c12_blocks) {
    ref r;
    auto s = open(r, "d");
    r.extend({{0, 2}, {1}}, 0);
    r.extend({{3}, {4}}, 2);
    r.extend({{5}}, 2);
    uint64_t h = 0;
    int const n = TIER ? 4 : 3;
    for(int i = 0; i < n; i++) {
        auto k = choose(r.blocks.size(), "block");
        bool fail = i > 0 && choose(2, "write fails") == 1;
        disk("d").fail = fail;
        bool ok = s->digest_block(r.blocks[k]);
        disk("d").fail = false;
        if(fail && k == h) {
            CHECKM(s->best_block_height() == h || ok, "a block that could not be stored is not counted");
            sym_cover("write fails");
        } else
            CHECKM(ok == (k == h), "exactly the next block is applied");
        if(k == h && !fail)
            h++;
        CHECKM(s->best_block_height() == h, "the height is that of the last applied block");
    }
    r.ask(*s, h, TIER ? 2 : 1);
    bool noread = choose(2, "unreadable") == 1;
    if(noread) {
        disk("d").fail_reads = true;
        r.ask(*s, h, 1, true);
    }
}
// Restart and machine crash: outputs and height stay consistent.
ENTRY(c12_restart) {
    ref r;
    auto s = open(r, "d");
    r.extend({{0, 1}}, 0);
    r.extend({{2}, {3}}, 2);
    r.extend({{4}}, 1);
    disk("d").track = true;
    uint64_t n = choose(4, "blocks before");
    for(uint64_t i = 0; i < n; i++)
        CHECKM(s->digest_block(r.blocks[i]), "the next block is applied");
    bool crash = choose(2, "machine crash") == 1;
    s.reset();
    if(crash)
        disk("d").crash(choose(disk("d").undo.size() + 1, "lost writes"));
    s = open(r, "d");
    auto h = s->best_block_height();
    CHECKM(h <= n, "no block is invented");
    if(!crash)
        CHECKM(h == n, "the height survives a restart");
    r.ask(*s, h, 1);
    for(uint64_t i = h; i < r.blocks.size(); i++) {
        CHECKM(s->digest_block(r.blocks[i]), "the next block is applied");
        sym_cover("continues");
    }
    r.ask(*s, r.blocks.size(), 1);
}
// A transaction while a block is being applied is judged by one height.
ENTRY(c12_concurrent) {
    ref r;
    r.lo = 0;
    r.hi = 255;
    auto s = open(r, "d");
    r.extend({{0, 1}}, 0);
    r.extend({{2}}, 1);
    CHECK(s->digest_block(r.blocks[0]));
    std::vector<int> in{static_cast<int>(choose(3, "first input")), static_cast<int>(choose(3, "second input"))};
    tx_t t;
    t.m_id = id(0x33, 0x77);
    for(int i : in)
        t.m_inputs.push_back(r.pool[i]);
    std::thread th([&]() {
        CHECKM(s->digest_block(r.blocks[1]), "the next block is applied");
    });
    auto c = t;
    auto res = s->digest_transaction(std::move(c));
    th.join();
    uint64_t h = 2;
    if(std::holds_alternative<cbdc::atomizer::tx_notify_request>(res))
        h = std::get<cbdc::atomizer::tx_notify_request>(res).m_block_height;
    else { // an error names no height: it must fit one of the two
        const auto x = std::get<wt::tx_error_inputs_dne>(std::get<wt::tx_error>(res).info()).input_uhs_ids();
        std::vector<hash_t> miss;
        for(int i : in)
            if(!r.unspent(i, 1))
                miss.push_back(r.pool[i]);
        if(x == miss)
            h = 1;
    }
    CHECKM(h == 1 || h == 2, "the height is one the shard has seen");
    if(h == 1)
        sym_cover("before the block");
    else
        sym_cover("after the block");
    r.compare(t, in, res, h, false);
}
// The controller: packets from the atomizer and from sentinels.
namespace {
    std::vector<cbdc::atomizer::block>* g_chain;
    uint64_t g_fail;
}
namespace cbdc::archiver {
    client::client(network::endpoint_t e, std::shared_ptr<logging::log> l) : m_endpoint(std::move(e)), m_logger(std::move(l)) {}
    auto client::init() -> bool { return true; }
    auto client::get_block(uint64_t h) -> std::optional<cbdc::atomizer::block> {
        if(g_fail > 0 && choose(2, "archiver has it") == 0) {
            g_fail--;
            sym_cover("archiver lags");
            return std::nullopt;
        }
        CHECKM(h >= 1 && h <= g_chain->size(), "only existing blocks are fetched");
        return (*g_chain)[h - 1];
    }
}
ENTRY(c12_controller) {
    ref r;
    r.lo = 0;
    r.hi = 0x60;
    g_chain = &r.blocks;
    g_fail = 1;
    r.extend({{0, 1}}, 0);
    r.extend({{2}, {3}}, TIER ? 1 : 2);
    r.extend({{4}}, TIER ? 1 : 2);
    cbdc::config::options o;
    o.m_shard_ranges.emplace_back(r.lo, r.hi);
    o.m_shard_db_dirs.emplace_back("d");
    o.m_shard_endpoints.emplace_back("s", 1);
    o.m_archiver_endpoints.emplace_back("a", 1);
    o.m_attestation_threshold = choose(2, "threshold");
    std::unique_ptr<secp256k1_context, decltype(&secp256k1_context_destroy)> ctx(secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY), &secp256k1_context_destroy);
    cbdc::privkey_t key{}, other{};
    key[0] = 1;
    other[0] = 2;
    o.m_sentinel_public_keys.insert(cbdc::pubkey_from_privkey(key, ctx.get()));
    auto c = std::make_unique<sh::controller>(0, o, quiet_log());
    CHECK(!c->m_shard.open_db("d").has_value());
    uint64_t h = 0;
    for(int i = 0; i < 2; i++) {
        auto k = choose(r.blocks.size(), "block");
        cbdc::network::message_t m;
        m.m_pkt = cbdc::make_shared_buffer(r.blocks[k]);
        auto reply = c->atomizer_handler(std::move(m));
        CHECKM(!reply.has_value(), "blocks are not answered");
        if(k + 1 > h)
            h = k + 1;
        CHECKM(c->m_shard.best_block_height() == h, "missed blocks are fetched, old ones ignored");
    }
    CHECKM(netstub::log().empty(), "blocks cause no messages");
    // one transaction, then an attested one without inputs that ends the consumer
    std::vector<int> in;
    auto t = r.pick(in, TIER ? 2 : 1);
    auto kind = choose(4, "packet"); // truncated, unattested, attested by a stranger, attested
    if(kind >= 2)
        t.m_attestations.insert(t.sign(ctx.get(), kind == 3 ? key : other));
    cbdc::network::message_t m;
    m.m_pkt = cbdc::make_shared_buffer(t);
    if(kind == 0) {
        auto cut = choose(2, "cut where") == 0 ? 31 : m.m_pkt->size() - 1;
        auto b = std::make_shared<cbdc::buffer>();
        b->append(m.m_pkt->data(), cut);
        m.m_pkt = b;
    }
    CHECKM(!c->server_handler(std::move(m)).has_value(), "transactions are answered by others");
    tx_t last;
    last.m_id = id(0x34, 0x79);
    last.m_attestations.insert(last.sign(ctx.get(), key));
    cbdc::network::message_t e;
    e.m_pkt = cbdc::make_shared_buffer(last);
    (void)c->server_handler(std::move(e));
    std::vector<netstub::sent> sent;
    netstub::hook().on_send = [&](const netstub::sent& x) {
        std::optional<std::vector<wt::tx_error>> q;
        if(x.m_all)
            q = cbdc::from_buffer<std::vector<wt::tx_error>>(*x.m_pkt);
        if(q.has_value() && q->size() == 1 && heq((*q)[0].tx_id(), last.m_id))
            c->m_request_queue.clear();
        else
            sent.push_back(x);
    };
    c->request_consumer();
    netstub::hook().on_send = nullptr;
    if(kind == 0 || (kind != 3 && o.m_attestation_threshold > 0) || kind == 2) {
        CHECKM(sent.empty(), "a malformed or unattested transaction is dropped");
        sym_cover("dropped");
        return;
    }
    CHECKM(sent.size() == 1, "each transaction causes one message");
    if(sent[0].m_net == &c->m_atomizer_network) {
        CHECKM(!sent[0].m_all, "a notification goes to one atomizer");
        auto q = cbdc::from_buffer<cbdc::atomizer::request>(*sent[0].m_pkt);
        CHECKM(q.has_value() && std::holds_alternative<cbdc::atomizer::tx_notify_request>(*q), "the atomizer receives a notification");
        r.compare(t, in, std::get<cbdc::atomizer::tx_notify_request>(*q), h, false);
        sym_cover("notified");
    } else {
        CHECKM(sent[0].m_net == &c->m_watchtower_network && sent[0].m_all, "errors go to every watchtower");
        auto q = cbdc::from_buffer<std::vector<wt::tx_error>>(*sent[0].m_pkt);
        CHECKM(q.has_value() && q->size() == 1, "the watchtower receives one error");
        r.compare(t, in, (*q)[0], h, false);
        sym_cover("error sent");
    }
}
