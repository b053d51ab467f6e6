// The wallet: sends, receipts, confirmation, seeding, saving and loading.
#include "common.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/validation.hpp"
#include "uhs/transaction/wallet.hpp"
#include "util/serialization/util.hpp"
#include <secp256k1.h>
#include <thread>
using namespace vf;
namespace tx = cbdc::transaction;
namespace va = cbdc::transaction::validation;
namespace {
    auto point_eq(const tx::out_point& a, const tx::out_point& b) -> bool {
        return heq(a.m_tx_id, b.m_tx_id) && a.m_index == b.m_index;
    }
    // The wallet under test and what it ought to hold.
    struct world {
        std::unique_ptr<tx::wallet> w{std::make_unique<tx::wallet>()};
        std::vector<tx::input> held;
        std::vector<tx::input> used;
        uint64_t seeds{0};
        uint64_t seed_value{0};
        uint64_t seed_next{0};
        cbdc::pubkey_t own{};
        cbdc::pubkey_t payee{};
        uint8_t next{1};
        uint64_t width{TIER > 0 ? 0xfff : 0xff}; // of the values in sequences of operations
        world() {
            auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
            cbdc::privkey_t k;
            k.fill(0x33);
            payee = cbdc::pubkey_from_privkey(k, ctx);
            secp256k1_context_destroy(ctx);
        }
        void make_key() {
            own = w->generate_key();
        }
        void seed(uint64_t n) {
            if(n == 0)
                return;
            cbdc::privkey_t k;
            k.fill(0x44);
            seed_value = 1 + (sym_u32_("seed value") & static_cast<uint32_t>(width));
            seed_next = sym_range_(0, 3, "first seed");
            seeds = n;
            CHECKM(w->seed(k, static_cast<uint32_t>(seed_value), seed_next, seed_next + n), "an empty wallet can be seeded");
        }
        auto coin(const cbdc::pubkey_t& owner) -> tx::input {
            tx::input i;
            i.m_prevout.m_tx_id = id(static_cast<uint8_t>(next % 2 == 0 ? 0x40 - next : 0x40 + next), next);
            next++;
            i.m_prevout.m_index = next % 3;
            i.m_prevout_data.m_value = 1 + (sym_u64_("coin value") & width);
            i.m_prevout_data.m_witness_program_commitment = va::get_p2pk_witness_commitment(owner);
            return i;
        }
        void receive(const tx::input& i) {
            w->confirm_inputs({i});
            for(const auto& h : held)
                if(point_eq(h.m_prevout, i.m_prevout))
                    return;
            held.push_back(i);
        }
        auto total() const -> uint64_t {
            uint64_t s = seeds * seed_value;
            for(const auto& h : held)
                s += h.m_prevout_data.m_value;
            return s;
        }
        // The wallet holds exactly what it should, each output once.
        void audit() {
            CHECKM(w->balance() == total(), "the balance is the sum of the spendable outputs");
            CHECKM(w->count() == held.size() + seeds, "the count is the number of spendable outputs");
        }
        // A transaction the wallet built: uses held outputs once, conserves value, validates.
        void built(const tx::full_tx& t, bool is_signed) {
            uint64_t in = 0, out = 0;
            for(size_t i = 0; i < t.m_inputs.size(); i++) {
                const auto& x = t.m_inputs[i];
                in += x.m_prevout_data.m_value;
                for(size_t j = 0; j < i; j++)
                    CHECKM(!point_eq(x.m_prevout, t.m_inputs[j].m_prevout), "no output is used twice in a transaction");
                for(const auto& u : used)
                    CHECKM(!point_eq(x.m_prevout, u.m_prevout), "no output is offered again");
                bool found = false;
                for(auto it = held.begin(); it != held.end(); it++) {
                    if(*it == x) {
                        held.erase(it);
                        found = true;
                        break;
                    }
                }
                if(!found) {
                    CHECKM(seeds > 0, "only held outputs are used");
                    auto st = seed_tx(seed_next);
                    auto si = tx::input_from_output(st, 0);
                    CHECKM(si.has_value() && *si == x, "seeded outputs are used in order");
                    seed_next++;
                    seeds--;
                }
                used.push_back(x);
            }
            for(const auto& o : t.m_outputs)
                out += o.m_value;
            CHECKM(in == out, "a transaction conserves value");
            if(is_signed)
                CHECKM(!va::check_tx(t).has_value(), "a signed transaction validates");
        }
        auto seed_tx(uint64_t idx) -> tx::full_tx {
            tx::full_tx t;
            t.m_inputs.resize(1);
            t.m_inputs[0].m_prevout.m_tx_id = {0};
            t.m_inputs[0].m_prevout.m_index = idx;
            t.m_inputs[0].m_prevout_data.m_value = seed_value;
            cbdc::privkey_t k;
            k.fill(0x44);
            auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
            t.m_outputs.emplace_back(va::get_p2pk_witness_commitment(cbdc::pubkey_from_privkey(k, ctx)), seed_value);
            secp256k1_context_destroy(ctx);
            return t;
        }
        // What t pays to the key.
        static auto paid(const tx::full_tx& t, const cbdc::pubkey_t& k) -> std::vector<uint64_t> {
            std::vector<uint64_t> r;
            for(const auto& o : t.m_outputs)
                if(heq(o.m_witness_program_commitment, va::get_p2pk_witness_commitment(k)))
                    r.push_back(o.m_value);
            return r;
        }
        // One send of any kind; true if a transaction was built.
        auto send(uint64_t kind, bool is_signed, tx::full_tx& t) -> bool {
            auto before = total();
            if(kind == 0) {
                auto amount = sym_u32_("amount");
                ASSUME(amount > 0);
                if(width < 0xffffffff)
                    ASSUME(amount < 8 * width);
                auto r = w->send_to(amount, payee, is_signed);
                CHECKM(r.has_value() == (before >= amount), "a send is built exactly when it can be funded");
                if(!r.has_value()) {
                    sym_cover("cannot be funded");
                    audit();
                    return false;
                }
                t = *r;
                built(t, is_signed);
                auto p = paid(t, payee);
                CHECKM(p.size() == 1 && p[0] == amount, "the payee is paid the amount");
                CHECKM(t.m_outputs.size() <= 2, "one output and change");
                for(const auto& o : t.m_outputs)
                    if(!heq(o.m_witness_program_commitment, va::get_p2pk_witness_commitment(payee))) {
                        tx::input c;
                        c.m_prevout_data = o;
                        CHECKM(w->is_spendable(c), "the change belongs to the wallet");
                        sym_cover("change");
                    }
                CHECKM(total() + sum(t) == before, "the balance falls by what was spent");
            } else if(kind == 1) {
                auto in = 1 + choose(3, "inputs"), out = 1 + choose(3, "outputs");
                auto have = held.size() + seeds;
                auto r = w->send_to(in, out, payee, is_signed);
                if(have < in)
                    CHECKM(!r.has_value(), "not enough outputs");
                if(!r.has_value()) {
                    sym_cover("cannot be funded");
                    audit();
                    return false;
                }
                t = *r;
                CHECKM(t.m_inputs.size() == in && t.m_outputs.size() == out, "as many inputs and outputs as asked for");
                built(t, is_signed);
                CHECKM(paid(t, payee).size() == out, "the payee gets every output");
            } else {
                auto n = 1 + choose(3, "outputs");
                auto v = sym_u32_("value");
                ASSUME(v > 0);
                if(width < 0xffffffff)
                    ASSUME(v < 8 * width);
                uint64_t amount = n * v;
                auto r = w->fan(n, v, payee, is_signed);
                CHECKM(r.has_value() == (before >= amount), "a fan is built exactly when it can be funded");
                if(!r.has_value()) {
                    sym_cover("cannot be funded");
                    audit();
                    return false;
                }
                t = *r;
                built(t, is_signed);
                auto p = paid(t, payee);
                CHECKM(p.size() == n, "the payee gets every output");
                for(auto x : p)
                    CHECKM(x == v, "the payee is paid the amount");
                CHECKM(t.m_outputs.size() <= n + 1, "outputs and change");
            }
            sym_cover("sent");
            audit();
            return true;
        }
        static auto sum(const tx::full_tx& t) -> uint64_t {
            uint64_t s = 0;
            for(const auto& i : t.m_inputs)
                s += i.m_prevout_data.m_value;
            return s;
        }
        // The shards settled t.
        void confirm(const tx::full_tx& t) {
            w->confirm_transaction(t);
            auto tid = tx::tx_id(t);
            for(size_t i = 0; i < t.m_outputs.size(); i++) {
                tx::input c;
                c.m_prevout = tx::out_point(tid, i);
                c.m_prevout_data = t.m_outputs[i];
                if(!w->is_spendable(c))
                    continue;
                bool dup = false;
                for(const auto& h : held)
                    dup = dup || point_eq(h.m_prevout, c.m_prevout);
                if(!dup)
                    held.push_back(c);
            }
            for(const auto& i : t.m_inputs)
                for(auto it = held.begin(); it != held.end(); it++)
                    if(point_eq(it->m_prevout, i.m_prevout)) {
                        held.erase(it);
                        break;
                    }
        }
    };
}
// Any two sends over received outputs; the first is confirmed or not in between.
ENTRY(c04_sends) {
    world d;
    d.make_key();
    auto n = 1 + choose(TIER > 0 ? 4 : 3, "coins");
    for(uint64_t i = 0; i < n; i++)
        d.receive(d.coin(d.own));
    d.audit();
    tx::full_tx t, u;
    auto sent = d.send(choose(3, "kind"), true, t);
    if(sent && flip("confirmed")) {
        auto before = d.total();
        auto got = world::sum(t);
        d.confirm(t);
        d.audit();
        uint64_t out = 0;
        for(auto v : world::paid(t, d.payee))
            out += v;
        CHECKM(d.total() == before + got - out, "the change comes back");
        if(flip("confirmed again")) {
            d.confirm(t);
            d.audit();
            sym_cover("confirmed again");
        }
        sym_cover("confirmed");
    }
    d.send(choose(TIER > 0 ? 3 : 2, "kind"), false, u);
}
// Amounts of any size.
ENTRY(c04_wide) {
    world d;
    d.width = TIER > 0 ? 0xffffffffffff : 0x3ffffffff;
    d.make_key();
    auto n = 1 + choose(2, "coins");
    for(uint64_t i = 0; i < n; i++)
        d.receive(d.coin(d.own));
    tx::full_tx t;
    d.send(choose(2, "kind") * 2, true, t);
}
// Seeded outputs first, then received ones.
ENTRY(c04_seeded) {
    world d;
    d.seed(1 + choose(2, "seeds"));
    d.audit();
    d.make_key();
    if(flip("receives"))
        d.receive(d.coin(d.own));
    d.audit();
    tx::full_tx t, u;
    d.send(choose(3, "kind"), true, t);
    d.send(choose(TIER > 0 ? 3 : 2, "kind"), false, u);
}
// A recipient: several outputs to one key are exported, received once each however often they are announced, and spent.
ENTRY(c04_receive) {
    world a, b;
    a.make_key();
    b.make_key();
    for(int i = 0; i < 2; i++)
        a.receive(a.coin(a.own));
    a.payee = b.own;
    tx::full_tx t;
    if(!a.send(choose(3, "kind"), true, t))
        return;
    auto in = tx::wallet::export_send_inputs(t, b.own);
    uint64_t worth = 0;
    for(const auto& i : in)
        worth += i.m_prevout_data.m_value;
    auto p = world::paid(t, b.own);
    uint64_t due = 0;
    for(auto v : p)
        due += v;
    CHECKM(in.size() == p.size() && worth == due, "exported inputs are the outputs paid");
    CHECKM(tx::wallet::export_send_inputs(t, cbdc::pubkey_t{}).empty(), "nothing is exported to others");
    for(const auto& i : in)
        b.receive(i);
    b.audit();
    if(flip("announced again")) {
        for(const auto& i : in)
            b.receive(i);
        b.audit();
        sym_cover("announced again");
    }
    CHECKM(b.total() == due, "the recipient gets what was paid");
    tx::full_tx u;
    b.send(0, true, u);
}
// Saved, loaded, and going on from there; a transaction of one copy is confirmed by the other.
ENTRY(c04_saved) {
    world a, b;
    a.make_key();
    auto n = choose(3, "coins");
    for(uint64_t i = 0; i < n; i++)
        a.receive(a.coin(a.own));
    a.w->save("wallet.dat");
    b.own = a.own;
    b.held = a.held;
    if(flip("used before")) {
        auto k = b.w->generate_key();
        tx::input c;
        c.m_prevout.m_tx_id = id(9, 77);
        c.m_prevout_data = tx::output(va::get_p2pk_witness_commitment(k), 5);
        b.w->confirm_inputs({c});
    }
    b.w->load("wallet.dat");
    b.audit();
    a.audit();
    sym_cover("loaded");
    tx::full_tx t;
    if(flip("one copy sends")) {
        if(!a.send(choose(2, "kind"), true, t))
            return;
        a.confirm(t);
        a.audit();
        b.confirm(t);
        b.audit();
        sym_cover("confirmed by the other copy");
    }
    tx::full_tx u;
    b.send(choose(2, "kind"), true, u);
}
ENTRY(c04_nofile) {
    world a;
    a.make_key();
    a.receive(a.coin(a.own));
    a.w->load("no such file");
    a.audit();
    sym_cover("no file");
}
// Sends and receipts on several threads: nothing is used twice, nothing is lost.
ENTRY(c04_threads) {
    world d;
    if(flip("seeded"))
        d.seed(1);
    d.make_key();
    d.receive(d.coin(d.own));
    if(d.seeds == 0)
        d.receive(d.coin(d.own));
    auto extra = d.coin(d.own);
    auto before = d.total();
    auto kind = choose(3, "kind");
    std::optional<tx::full_tx> a, b;
    std::thread t([&] {
        if(kind == 0)
            a = d.w->send_to(1, d.payee, true);
        else if(kind == 1)
            a = d.w->send_to(1, 1, d.payee, true);
        else
            a = d.w->fan(1, 1, d.payee, true);
    });
    if(flip("receipt"))
        d.receive(extra);
    else {
        auto k = d.w->generate_key();
        tx::input c;
        c.m_prevout_data.m_witness_program_commitment = va::get_p2pk_witness_commitment(k);
        CHECKM(d.w->is_spendable(c), "a generated key belongs to the wallet");
        b = d.w->send_to(1, d.payee, true);
        CHECKM(b.has_value(), "a send is built when it can be funded");
    }
    CHECKM(d.w->balance() <= d.total(), "the balance never exceeds what is held");
    CHECKM(d.w->count() <= d.held.size() + d.seeds, "the count never exceeds what is held");
    t.join();
    CHECKM(a.has_value(), "a send is built when it can be funded");
    before = d.total();
    uint64_t spent = world::sum(*a);
    if(b.has_value()) {
        spent += world::sum(*b);
        for(const auto& x : a->m_inputs)
            for(const auto& y : b->m_inputs)
                CHECKM(!point_eq(x.m_prevout, y.m_prevout), "no output is offered twice");
        CHECKM(!va::check_tx(*b).has_value(), "a signed transaction validates");
        sym_cover("two sends");
    } else
        sym_cover("a send and a receipt");
    CHECKM(!va::check_tx(*a).has_value(), "a signed transaction validates");
    CHECKM(d.w->balance() + spent == before, "the balance falls by what was spent");
}
