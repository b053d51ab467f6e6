// C29: shard ranges; C09: the sentinel of the atomizer architecture.
#include "c09.hpp"
#include "uhs/atomizer/sentinel/controller.hpp"
#include "uhs/atomizer/shard/shard.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/locking_shard.hpp"
#include "uhs/twophase/locking_shard/status_client.hpp"
#include "parsec/directory/impl.hpp"
#include "util/common/config.hpp"
using namespace vf;
namespace ls = cbdc::locking_shard;
namespace {
    auto in_range(const cbdc::config::shard_range_t& r, const hash_t& h) -> bool {
        return (h[0] >= r.first) & (h[0] <= r.second);
    }
    auto sym_range(const char* n) -> cbdc::config::shard_range_t {
        cbdc::config::shard_range_t r{sym_u8_(n), sym_u8_(n)};
        return r;
    }
    struct atomizer_world {
        cbdc::config::options opts;
        std::unique_ptr<cbdc::sentinel::controller> c;
        peers ps;
        size_t threshold;
        std::vector<bool> up;
        std::vector<std::pair<size_t, tx::compact_tx>> out; // what each shard received
        atomizer_world(size_t n, size_t t, const std::vector<cbdc::config::shard_range_t>& ranges) : threshold(t) {
            vf_any_random = true;
            opts.m_attestation_threshold = t;
            for(unsigned i = 0; i < n; i++) {
                opts.m_sentinel_endpoints.push_back(endpoint(10 + i));
                opts.m_sentinel_private_keys[i] = key(static_cast<uint8_t>(50 + i));
                opts.m_sentinel_public_keys.insert(cbdc::pubkey_from_privkey(key(static_cast<uint8_t>(50 + i)), ctx()));
            }
            for(unsigned i = 0; i < ranges.size(); i++)
                opts.m_shard_endpoints.push_back(endpoint(70 + i));
            opts.m_shard_ranges = ranges;
            up.assign(ranges.size(), true);
            c = std::make_unique<cbdc::sentinel::controller>(0, opts, quiet_log());
            CHECKM(c->init(), "a sentinel with a valid configuration starts");
            for(unsigned i = 1; i < n; i++)
                ps.keys[netstub::to(endpoint(10 + i))->m_net] = static_cast<uint8_t>(50 + i);
            netstub::hook().connected = [this](const cbdc::network::connection_manager*, size_t p) {
                return p < up.size() && up[p];
            };
            netstub::hook().on_send = [this](const netstub::sent& s) {
                if(ps.taken(s))
                    return;
                CHECKM(!s.m_all && s.m_peer < up.size(), "transactions go to shards");
                auto t = cbdc::from_buffer<tx::compact_tx>(*s.m_pkt);
                CHECKM(t.has_value(), "only well-formed transactions are sent");
                out.emplace_back(s.m_peer, *t);
            };
        }
        ~atomizer_world() {
            netstub::hook().on_send = nullptr;
            netstub::hook().connected = nullptr;
            vf_any_random = false;
            c.reset();
        }
    };
}
ENTRY(c29_rule) {
    auto r = sym_range("range");
    auto h = sym_hash_id("hash");
    CHECKM(cbdc::config::hash_in_shard_range(r, h) == in_range(r, h), "a hash belongs to the shard whose inclusive range holds its first byte");
    ls::locking_shard s(r, quiet_log(), 10, "", [&] {
        cbdc::config::options o;
        return o;
    }());
    CHECKM(s.hash_in_shard_range(h) == in_range(r, h), "a locking shard follows the rule");
    sym_cover("rule");
}
// Status queries go to a shard whose range holds the identifier, and its answer comes back.
ENTRY(c29_status) {
    size_t const n = TIER ? 4 : 3;
    std::vector<cbdc::config::shard_range_t> ranges;
    std::vector<std::vector<cbdc::network::endpoint_t>> eps;
    for(size_t i = 0; i < n; i++) {
        ranges.push_back(sym_range("range"));
        eps.push_back({endpoint(80 + static_cast<unsigned>(i))});
    }
    ls::rpc::status_client c(eps, ranges, std::chrono::milliseconds(5));
    CHECK(c.init());
    auto h = sym_hash_id("hash");
    bool tx_query = flip("transaction");
    size_t asked = n;
    bool verdict = flip("verdict");
    netstub::hook().on_send = [&](const netstub::sent& s) {
        CHECKM(asked == n, "one shard is asked");
        for(size_t i = 0; i < n; i++)
            if(netstub::to(endpoint(80 + static_cast<unsigned>(i)))->m_net == s.m_net)
                asked = i;
        CHECKM(asked < n, "a shard is asked");
        auto q = cbdc::from_buffer<cbdc::rpc::request<ls::rpc::status_request>>(*s.m_pkt);
        CHECKM(q.has_value(), "requests are well formed");
        CHECKM(std::holds_alternative<ls::rpc::tx_status_request>(q->m_payload) == tx_query, "the question is passed on");
        CHECKM(heq(tx_query ? std::get<ls::rpc::tx_status_request>(q->m_payload).m_tx_id : std::get<ls::rpc::uhs_status_request>(q->m_payload).m_uhs_id, h), "with its identifier");
        cbdc::rpc::response<ls::rpc::status_response> r;
        r.m_header.m_request_id = q->m_header.m_request_id;
        r.m_payload = verdict;
        (void)netstub::arrive(netstub::port_of(s.m_net), cbdc::make_buffer(r));
    };
    auto res = tx_query ? c.check_tx_id(h) : c.check_unspent(h);
    bool home = false;
    for(auto& r : ranges)
        home = home | in_range(r, h);
    CHECKM(res.has_value() == home, "an identifier that lies in some range gets an answer");
    CHECKM((asked < n) == home, "and one that lies in none is not asked for");
    if(home) {
        CHECKM(in_range(ranges[asked], h), "the shard asked is responsible for the identifier");
        CHECKM(*res == verdict, "its answer is returned");
        sym_cover("answered");
    } else
        sym_cover("no shard");
    netstub::hook().on_send = nullptr;
}
// A sentinel sends a transaction to connected shards so that each input reaches one that is responsible, if there is one.
ENTRY(c29_sentinel) {
    size_t const n = 1 + choose(TIER ? 4 : 3, "shards"), k = 1 + choose(TIER ? 3 : 2, "inputs");
    std::vector<cbdc::config::shard_range_t> ranges;
    for(size_t i = 0; i < n; i++)
        ranges.push_back(sym_range("range"));
    atomizer_world w(1, 1, ranges);
    for(size_t i = 0; i < n; i++)
        w.up[i] = choose(2, "connected") == 1;
    auto x = spend(static_cast<uint8_t>(1 + choose(2, "transaction")), 5, 5 * k, true, k);
    auto const t = tx::compact_tx(x);
    CHECK(t.m_inputs.size() == k && w.c->execute_transaction(x).has_value());
    for(size_t i = 0; i < k; i++) {
        bool home = false, reached = false;
        for(size_t j = 0; j < n; j++)
            home = home | (w.up[j] & in_range(ranges[j], t.m_inputs[i]));
        for(auto& o : w.out)
            reached = reached | in_range(ranges[o.first], t.m_inputs[i]);
        CHECKM(reached == home, "an input reaches a connected shard that is responsible for it, if there is one");
    }
    std::vector<int> times(n);
    for(auto& o : w.out) {
        CHECKM(w.up[o.first], "only connected shards are sent transactions");
        CHECKM(++times[o.first] == 1, "no shard is sent a transaction twice");
        CHECKM(same(o.second, t), "the transaction is sent as it is");
        bool any = false;
        for(auto& in : t.m_inputs)
            any = any | in_range(ranges[o.first], in);
        CHECKM(any, "a shard is sent only transactions with an input in its range");
    }
    if(w.out.size() > 1)
        sym_cover("several shards");
    if(w.out.empty())
        sym_cover("no shard");
}
// The whole way of a transaction through a sentinel of the atomizer architecture.
ENTRY(c09_atomizer) {
    auto n = 1 + choose(3, "sentinels");
    auto t = choose(n + 1, "threshold");
    atomizer_world w(n, t, {{0, 255}});
    w.ps.losses = 1;
    auto x = some_tx(1);
    auto err = tx::validation::check_tx(x);
    auto r = w.c->execute_transaction(x);
    CHECKM(r.has_value(), "a request is answered");
    CHECKM(r->m_tx_error == err, "with the error of the transaction, if any");
    CHECKM(r->m_tx_status == (err.has_value() ? se::tx_status::static_invalid : se::tx_status::pending), "a valid transaction is pending, an invalid one is refused");
    if(err.has_value()) {
        CHECKM(w.out.empty() && w.ps.open.empty(), "an invalid transaction goes no further");
        sym_cover("invalid");
        return;
    }
    size_t attested = 1; // by the sentinel itself
    bool refused = false;
    while(!w.ps.open.empty()) {
        CHECKM(w.out.empty(), "nothing is sent before the attestations are complete");
        CHECKM(tx::tx_id(w.ps.open[0].t) == tx::tx_id(x), "peers are asked about the transaction");
        if(w.ps.answer(0, choose(2, "attests") == 1))
            attested++;
        else
            refused = true;
    }
    if(refused) {
        CHECKM(w.out.empty(), "a transaction that a peer refused goes no further");
        sym_cover("refused");
        return;
    }
    CHECKM(w.out.size() == 1 && same(w.out[0].second, tx::compact_tx(x)), "a valid transaction is sent to the shard");
    auto& atts = w.out[0].second.m_attestations;
    CHECKM(atts.size() == attested && attested == std::max<size_t>(t, 1), "with the required number of attestations");
    for(const auto& a : atts)
        CHECKM(w.out[0].second.verify(ctx(), a), "each of them valid for it");
    sym_cover("sent");
}
ENTRY(c09_atomizer_validate) {
    atomizer_world w(1, 1, {{0, 255}});
    auto x = some_tx(1);
    auto v = w.c->validate_transaction(x);
    CHECKM(v.has_value() == !tx::validation::check_tx(x).has_value(), "a sentinel attests exactly to valid transactions");
    if(v.has_value()) {
        CHECKM(tx::compact_tx(x).verify(ctx(), *v), "with a valid attestation");
        CHECKM(v->first == cbdc::pubkey_from_privkey(key(50), ctx()), "made with its own key");
        sym_cover("attested");
    }
}
// The directory of the PArSEC runtime: every key has one home among the shards, the same in every directory.
#ifdef VERIF_NATIVE
static bool vf_siphash_uf;
#else
extern bool vf_siphash_uf;
#endif
ENTRY(c29_directory) {
    vf_siphash_uf = true;
    auto n = 1 + choose(TIER ? 8 : 4, "shards");
    cbdc::parsec::directory::impl a(n), b(n);
    auto key = [](const char* nm) {
        auto len = choose(4, "length");
        unsigned char c[4] = {};
        sym_bytes(c, len, nm);
        cbdc::buffer k;
        k.append(c, len);
        return k;
    };
    auto k = key("key"), other = key("other key");
    auto find = [&](cbdc::parsec::directory::impl& d, const cbdc::buffer& x) {
        uint64_t r = n;
        int calls = 0;
        CHECKM(d.key_location(x, [&](uint64_t s) {
            r = s;
            calls++;
        }), "a key is looked up");
        CHECKM(calls == 1, "one answer is given");
        return r;
    };
    auto x = find(a, k);
    (void)find(a, other);
    CHECKM(x < n, "a key lives in one of the shards");
    CHECKM(find(b, k) == x && find(a, k) == x, "every directory names the same shard, every time");
    sym_cover("directory");
}
