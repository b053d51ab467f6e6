#include "c05_shard.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/state_machine.hpp"
#include "uhs/twophase/locking_shard/status_server.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include <mutex>
#include <thread>
using namespace c05;
static cbdc::config::options opts0() {
    cbdc::config::options o;
    o.m_attestation_threshold = 0;
    return o;
}
static bool committed(const dtxm& d, size_t k) {
    return d.phase >= 2 && d.flags[k];
}
static void check_txids(world& w, const std::vector<dtxm>& d) {
    for(const auto& x : d)
        for(size_t k = 0; k < x.txs.size(); k++) {
            auto r = w.sh->check_tx_id(x.txs[k].id);
            CHECKM(r.has_value(), "a transaction status query is answered");
            if(*r)
                CHECKM(committed(x, k) && w.in_range(x.txs[k].id), "only a committed transaction is reported completed");
            else
                CHECKM(!(committed(x, k) && w.in_range(x.txs[k].id)), "a committed transaction is reported completed");
        }
    hash_t other{};
    other.fill(0x99);
    CHECKM(!w.sh->check_tx_id(other).value(), "an unknown transaction is not reported completed");
}
// Arbitrary histories: every step sends any request of one of two distributed transactions, repeats included.
ENTRY(c06_repeat) {
    world w;
    for(uint8_t i = 0; i < 4; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(4, 0, 255, opts0());
    w.seed({0, 1}, 1);
    std::vector<dtxm> d(2);
    d[0].txs.resize(2);
    d[0].txs[0].in = {0};
    d[0].txs[0].out = {2};
    d[0].txs[1].in = {1};
    d[1].txs.resize(1);
    d[1].txs[0].in = {0, 1};
    d[1].txs[0].out = {3};
    mk(d[0], 1);
    mk(d[1], 2);
    const int steps = TIER == 0 ? 6 : 8;
    for(int s = 0; s < steps; s++) {
        auto c = choose(5, "op");
        if(c == 4)
            break;
        auto& x = d[c / 2];
        if(c % 2 == 0) { // repeat the latest request of this transaction
            if(x.phase == 0)
                w.do_discard(x);
            else if(x.phase == 1)
                w.do_lock(x);
            else if(x.phase == 2)
                w.do_apply(x);
            else
                w.do_discard(x);
        } else { // next request
            if(x.phase == 0)
                w.do_lock(x);
            else if(x.phase == 1) {
                pick_flags(x);
                w.do_apply(x);
            } else if(x.phase == 2)
                w.do_discard(x);
            else
                break;
        }
        w.check_held();
        check_txids(w, d);
        if(d[0].phase == 3 && d[1].phase == 3)
            sym_cover("both transactions finished");
        if(d[0].phase == 1 && d[1].phase == 1)
            sym_cover("both prepared");
    }
}
// symbolic range: a shard vouches only for transaction ids in its range
ENTRY(c06_range) {
    world w;
    w.pool.push_back(id(sym_u8_("first"), 0));
    w.pool.push_back(id(sym_u8_("first"), 1));
    w.init(2, sym_u8_("lo"), sym_u8_("hi"), opts0());
    w.seed({0}, 1);
    std::vector<dtxm> d(1);
    d[0].txs.resize(1);
    d[0].txs[0].in = {0};
    d[0].txs[0].out = {1};
    mk(d[0], 1);
    d[0].txs[0].id[0] = sym_u8_("txfirst");
    w.do_lock(d[0]);
    check_txids(w, d);
    pick_flags(d[0]);
    w.do_apply(d[0]);
    w.check_held();
    check_txids(w, d);
    w.do_apply(d[0]);
    w.do_discard(d[0]);
    w.do_discard(d[0]);
    w.check_held();
    check_txids(w, d);
}
// applying something never prepared never reports success for it
ENTRY(c06_unprepared) {
    world w;
    w.pool.push_back(id(1, 0));
    w.init(1, 0, 255, opts0());
    w.seed({0}, 1);
    dtxm d;
    d.txs.resize(1);
    d.txs[0].out = {0};
    mk(d, 3);
    if(flip("discard first")) {
        w.do_discard(d);
        w.check_held();
    }
    bool r = w.sh->apply_outputs({true}, d.id); // terminates the process
    CHECKM(!r, "applying a transaction that was never prepared does not succeed");
}
// a stopped shard answers no request
ENTRY(c06_stopped) {
    world w;
    w.pool.push_back(id(1, 0));
    w.init(1, 0, 255, opts0());
    w.seed({0}, 1);
    dtxm d;
    d.txs.resize(1);
    d.txs[0].in = {0};
    mk(d, 3);
    bool prep = flip("prepared");
    if(prep)
        w.do_lock(d);
    w.sh->stop();
    CHECKM(!w.sh->lock_outputs(w.real(d), d.id).has_value(), "a stopped shard refuses lock requests");
    CHECKM(!w.sh->apply_outputs({false}, d.id), "a stopped shard refuses apply requests");
    CHECKM(!w.sh->discard_dtx(d.id), "a stopped shard refuses discard requests");
}
// The replicated state machine gives the answers of the shard it wraps, for requests decoded from the log.
ENTRY(c06_replica) {
    world w;
    for(uint8_t i = 0; i < 3; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(3, 0, 255, opts0());
    ls::state_machine sm({0, 255}, quiet_log(), 16, "", opts0());
    auto twin = sm.get_shard_instance();
    uint64_t idx = 0;
    auto call = [&](const ls::rpc::request& q, uint64_t n) {
        cbdc::rpc::request<ls::rpc::request> r{{n}, q};
        auto b = cbdc::make_buffer<decltype(r), nuraft::ptr<nuraft::buffer>>(r);
        auto res = sm.commit(++idx, *b);
        CHECKM(res != nullptr, "a well-formed request is answered");
        CHECKM(sm.last_commit_index() == idx, "the commit index follows the log");
        auto rs = cbdc::from_buffer<cbdc::rpc::response<ls::rpc::response>>(*res);
        CHECKM(rs.has_value(), "the answer can be decoded");
        CHECKM(rs->m_header.m_request_id == n, "the answer carries the request's number");
        CHECKM(rs->m_payload.has_value(), "the answer is present");
        return *rs->m_payload;
    };
    auto reqid = sym_u64_("request id");
    dtxm s;
    s.txs.resize(1);
    s.txs[0].out = {0};
    mk(s, 0);
    dtxm d;
    d.txs.resize(2);
    d.txs[0].in = {static_cast<int>(choose(2, "in"))};
    d.txs[0].out = {1};
    d.txs[1].in = {0};
    d.txs[1].out = {2};
    mk(d, 1);
    for(auto* x : {&s, &d}) {
        auto l = call({x->id, w.real(*x)}, reqid);
        CHECK(std::holds_alternative<ls::rpc::lock_response>(l));
        auto r = w.sh->lock_outputs(w.real(*x), x->id);
        CHECKM(std::get<ls::rpc::lock_response>(l) == *r, "the replica's lock answer is the shard's");
        x->res = *r;
        if(flip("retry")) {
            auto l2 = call({x->id, w.real(*x)}, reqid);
            CHECKM(l2 == l, "repeating a lock request returns the same answer");
        }
        if(x == &s)
            x->flags = {true};
        else
            pick_flags(*x);
        auto a = call({x->id, x->flags}, reqid);
        CHECK(std::holds_alternative<ls::rpc::apply_response>(a));
        CHECK(w.sh->apply_outputs(std::vector<bool>(x->flags), x->id));
        for(const auto& p : w.pool)
            CHECKM(twin->check_unspent(p) == w.sh->check_unspent(p), "replica and shard hold the same outputs");
        auto c = call({x->id, ls::rpc::discard_params{}}, reqid);
        CHECK(std::holds_alternative<ls::rpc::discard_response>(c));
        CHECK(w.sh->discard_dtx(x->id));
        for(const auto& t : x->txs)
            CHECKM(twin->check_tx_id(t.id) == w.sh->check_tx_id(t.id), "replica and shard know the same transactions");
    }
    // a request that does not decode is not answered and changes nothing
    auto junk = nuraft::buffer::alloc(3);
    CHECKM(sm.commit(++idx, *junk) == nullptr, "a malformed request is not answered");
    for(const auto& p : w.pool)
        CHECK(twin->check_unspent(p) == w.sh->check_unspent(p));
    sym_cover("replica done");
}
namespace {
    struct fake_srv : cbdc::rpc::blocking_server<ls::rpc::status_request, ls::rpc::status_response> {
        auto call(cbdc::buffer b) {
            return blocking_call(std::move(b));
        }
    };
}
// Status requests over the wire.
ENTRY(c06_status) {
    world w;
    w.pool.push_back(id(1, 0));
    w.pool.push_back(id(2, 1));
    w.init(2, 0, 255, opts0());
    w.seed({0}, 1);
    std::vector<dtxm> d(1);
    d[0].txs.resize(1);
    d[0].txs[0].in = {0};
    d[0].txs[0].out = {1};
    mk(d[0], 1);
    auto shp = std::shared_ptr<ls::locking_shard>(w.sh.get(), [](auto*) {});
    auto s = std::make_unique<fake_srv>();
    auto* sp = s.get();
    ls::rpc::status_server srv(shp, std::move(s));
    auto n = sym_u64_("request id");
    auto query = [&](ls::rpc::status_request q) {
        auto out = sp->call(cbdc::make_buffer(cbdc::rpc::request<ls::rpc::status_request>{{n}, q}));
        CHECKM(out.has_value(), "a status request is answered");
        auto r = cbdc::from_buffer<cbdc::rpc::response<ls::rpc::status_response>>(*out);
        CHECKM(r.has_value() && r->m_payload.has_value() && r->m_header.m_request_id == n, "the answer matches the request");
        return *r->m_payload;
    };
    int upto = static_cast<int>(choose(3, "progress"));
    if(upto >= 1)
        w.do_lock(d[0]);
    if(upto >= 2) {
        pick_flags(d[0]);
        w.do_apply(d[0]);
    }
    for(int i = 0; i < 2; i++)
        CHECKM(query(ls::rpc::uhs_status_request{w.pool[i]}) == w.held[i], "the status server reports held outputs");
    CHECKM(query(ls::rpc::tx_status_request{d[0].txs[0].id}) == committed(d[0], 0), "the status server reports completed transactions");
}
// Status queries while requests are being applied: never wrong in between.
ENTRY(c06_threads) {
    world w;
    for(uint8_t i = 0; i < 4; i++)
        w.pool.push_back(id(static_cast<uint8_t>(i * 40), i));
    w.init(4, 0, 255, opts0());
    w.seed({0, 1}, 1);
    std::vector<dtxm> d(1);
    d[0].txs.resize(1);
    d[0].txs[0].in = {0};
    d[0].txs[0].out = {2};
    mk(d[0], 1);
    bool want = flip("commit"), began = false, applied = false;
    std::mutex m;
    std::thread t([&] {
        auto r = w.sh->lock_outputs(w.real(d[0]), d[0].id);
        CHECK(r.has_value() && (*r)[0]);
        {
            std::unique_lock<std::mutex> l(m);
            began = true;
        }
        CHECK(w.sh->apply_outputs({want}, d[0].id));
        std::unique_lock<std::mutex> l(m);
        applied = true;
    });
    auto now = [&] {
        std::unique_lock<std::mutex> l(m);
        return std::make_pair(began, applied);
    };
    auto before = now();
    auto u0 = w.sh->check_unspent(w.pool[0]).value();
    auto u1 = w.sh->check_unspent(w.pool[1]).value();
    auto u2 = w.sh->check_unspent(w.pool[2]).value();
    auto u3 = w.sh->check_unspent(w.pool[3]).value();
    auto c = w.sh->check_tx_id(d[0].txs[0].id).value();
    auto after = now();
    CHECKM(u1 && !u3, "outputs not touched keep their status");
    if(!want)
        CHECKM(u0 && !u2 && !c, "an aborted transaction changes no status at any time");
    else {
        if(!after.first)
            CHECKM(u0 && !u2 && !c, "nothing changes before the transaction is applied");
        if(before.second) {
            CHECKM(!u0 && u2 && c, "an applied transaction is visible");
            sym_cover("after");
        }
        if(!u0)
            CHECKM(u2 && c, "an applied transaction is visible as a whole");
        if(before.first && !after.second)
            sym_cover("meanwhile");
    }
    t.join();
}
