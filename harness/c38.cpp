// The client: mints, sends, receives, confirms, abandons and is restarted.
#include "c09.hpp"
#include "uhs/client/client.hpp"
#include "uhs/transaction/wallet.hpp"
#include "bech32/bech32.h"
#include "bech32/util/strencodings.h"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/client/atomizer_client.hpp"
#include "uhs/client/twophase_client.hpp"
#include "uhs/transaction/messages.hpp"
#include "netstub.hpp"
#include <thread>
using namespace vf;
namespace va = cbdc::transaction::validation;
namespace {
    std::function<std::optional<se::execute_response>(const tx::full_tx&)> g_sentinel;
}
namespace cbdc::sentinel::rpc {
    client::client(std::vector<network::endpoint_t> e, std::shared_ptr<logging::log> l) : m_logger(std::move(l)), m_client(std::move(e)) {}
    auto client::init(std::optional<bool>) -> bool { return true; }
    auto client::execute_transaction(transaction::full_tx t) -> execute_result_type { return g_sentinel(t); }
    auto client::execute_transaction(transaction::full_tx, std::function<void(execute_result_type)>) -> bool { return false; }
    auto client::validate_transaction(transaction::full_tx) -> validate_result_type { return std::nullopt; }
    auto client::validate_transaction(transaction::full_tx, std::function<void(validate_result_type)>) -> bool { return false; }
}
namespace {
    struct client : cbdc::client {
        client() : cbdc::client(cbdc::config::options{}, quiet_log(), "wallet.dat", "client.dat") {}
        auto init_derived() -> bool override { return true; }
        auto sync() -> bool override { return true; }
        auto send_mint_tx(const tx::full_tx&) -> bool override { return choose(2, "mint sent") == 1; }
        auto txs() const { return pending_txs(); }
        auto inputs() const { return pending_inputs(); }
    };
    // What the client ought to hold.
    struct world {
        std::unique_ptr<client> c;
        cbdc::pubkey_t own{}, payee{};
        std::vector<tx::input> held;    // spendable
        std::vector<tx::full_tx> sent;  // pending
        std::vector<tx::input> coming;  // receipts not confirmed yet
        std::vector<hash_t> seen;
        uint8_t next{1};
        world() {
            payee = cbdc::pubkey_from_privkey(key(0x33), ctx());
            start();
            own = c->new_address();
        }
        void start() {
            c = std::make_unique<client>();
            CHECKM(c->init(), "a client starts");
        }
        auto mine(const hash_t& commit) -> bool {
            return !heq(commit, va::get_p2pk_witness_commitment(payee));
        }
        static auto total(const std::vector<tx::input>& v) -> uint64_t {
            uint64_t s = 0;
            for(const auto& i : v)
                s += i.m_prevout_data.m_value;
            return s;
        }
        void hold(const tx::input& i) {
            for(const auto& h : held)
                if(h == i)
                    return;
            held.push_back(i);
        }
        void audit() {
            CHECKM(c->balance() == total(held), "the balance is the sum of the spendable outputs");
            CHECKM(c->utxo_count() == held.size(), "the client holds every spendable output once");
            CHECKM(c->pending_tx_count() == sent.size(), "every transaction that is neither confirmed nor abandoned is pending");
            CHECKM(c->pending_input_count() == coming.size(), "every receipt that is not confirmed is pending");
            auto p = c->txs();
            for(const auto& t : sent) {
                auto i = p.find(tx::tx_id(t));
                CHECKM(i != p.end() && i->second == t, "pending transactions are kept as they were");
            }
        }
        // A transaction the client built and sent; its inputs are spoken for.
        void took(const tx::full_tx& t) {
            for(const auto& x : t.m_inputs) {
                size_t k = 0;
                while(k < held.size() && !(held[k] == x))
                    k++;
                CHECKM(k < held.size(), "a transaction uses outputs the client holds");
                held.erase(held.begin() + static_cast<long>(k));
            }
            CHECKM(!va::check_tx(t).has_value(), "a transaction the client sends is valid");
        }
        void mint(size_t n, uint32_t v) {
            auto t = c->mint(n, v);
            sent.push_back(t);
        }
        void send(bool fan, bool self, uint32_t v) {
            int asked = 0;
            auto verdict = choose(4, "sentinel");
            tx::full_tx told;
            g_sentinel = [&](const tx::full_tx& t) -> std::optional<se::execute_response> {
                asked++;
                told = t;
                if(verdict == 0)
                    return std::nullopt;
                return se::execute_response{verdict == 1 ? se::tx_status::confirmed : verdict == 2 ? se::tx_status::pending : se::tx_status::state_invalid, std::nullopt};
            };
            auto before = total(held);
            auto need = fan ? 2 * static_cast<uint64_t>(v) : v;
            auto r = fan ? c->fan(2, v, self ? own : payee) : c->send(v, self ? own : payee);
            CHECKM(asked == (before >= need ? 1 : 0), "a transaction is sent exactly if the funds suffice");
            if(asked == 0) {
                CHECKM(!r.first.has_value() && !r.second.has_value(), "nothing is reported as sent");
                sym_cover("funds do not suffice");
                return;
            }
            CHECKM(r.first.has_value() == (verdict != 0), "a sentinel that does not answer is reported");
            if(r.first.has_value())
                CHECKM(*r.first == told && r.second.has_value(), "the transaction sent is reported");
            took(told);
            sent.push_back(told);
            if(verdict == 1)
                confirmed(tx::tx_id(told));
        }
        void confirmed(const hash_t& id) {
            for(size_t k = 0; k < sent.size(); k++)
                if(heq(tx::tx_id(sent[k]), id)) {
                    for(uint64_t o = 0; o < sent[k].m_outputs.size(); o++)
                        if(mine(sent[k].m_outputs[o].m_witness_program_commitment))
                            hold(tx::input_from_output(sent[k], o).value());
                    sent.erase(sent.begin() + static_cast<long>(k));
                    break;
                }
            for(size_t k = 0; k < coming.size();)
                if(heq(coming[k].m_prevout.m_tx_id, id)) {
                    hold(coming[k]);
                    coming.erase(coming.begin() + static_cast<long>(k));
                } else {
                    k++;
                }
        }
        void receive() {
            tx::full_tx t;
            tx::input i;
            i.m_prevout.m_tx_id = id(static_cast<uint8_t>(0x60 + next), next);
            next++;
            t.m_inputs.push_back(i);
            auto n = 1 + choose(3, "outputs received");
            for(size_t k = 0; k < n; k++)
                t.m_outputs.push_back(tx::output{va::get_p2pk_witness_commitment(k == 2 ? payee : own), 2 + k});
            auto ins = cbdc::client::export_send_inputs(t, own);
            CHECKM(ins.size() == (n < 2 ? n : 2), "a payee is told of every output of a payment");
            for(const auto& x : ins) {
                c->import_send_input(x);
                coming.push_back(x);
            }
            if(ins.size() == 2)
                sym_cover("two outputs of a transaction");
            if(n == 3) {
                c->import_send_input(tx::input_from_output(t, 2).value());
                sym_cover("not spendable");
            }
            if(choose(2, "imported again") == 1)
                c->import_send_input(ins[0]);
            seen.push_back(ins[0].m_prevout.m_tx_id);
        }
        void confirm() {
            std::vector<hash_t> ids;
            for(const auto& t : sent)
                ids.push_back(tx::tx_id(t));
            for(const auto& i : coming)
                if(ids.empty() || !heq(ids.back(), i.m_prevout.m_tx_id))
                    ids.push_back(i.m_prevout.m_tx_id);
            ids.push_back(id(1, 0x7f));
            auto k = choose(ids.size(), "which");
            auto known = k + 1 < ids.size();
            CHECKM(c->confirm_transaction(ids[k]) == known, "only pending transactions are confirmed");
            confirmed(ids[k]);
            if(known)
                sym_cover("confirmed");
        }
        void abandon() {
            auto k = choose(sent.size() + 1, "which");
            auto known = k < sent.size();
            CHECKM(c->abandon_transaction(known ? tx::tx_id(sent[k]) : id(1, 0x7f)) == known, "only pending transactions are abandoned");
            if(known) {
                auto t = sent[k];
                sent.erase(sent.begin() + static_cast<long>(k));
                for(const auto& i : t.m_inputs)
                    hold(i);
                sym_cover("abandoned");
            }
        }
        void restart() {
            c.reset();
            start();
            sym_cover("restarted");
        }
        void some(const char* what) {
            switch(choose(7, what)) {
                case 0: mint(1 + choose(2, "minted"), 5); break;
                case 1: send(false, false, 3); break;
                case 2: send(false, true, 3); break;
                case 3: send(true, choose(2, "to itself") == 1, 2); break;
                case 4: receive(); break;
                case 5: confirm(); break;
                default: abandon();
            }
            audit();
        }
    };
}
// Operations in any order, and a restart at any point.
ENTRY(c38_history) {
    world w;
    w.audit();
    if(choose(2, "funded") == 1) {
        w.mint(1, 5);
        w.confirmed(tx::tx_id(w.sent[0]));
        CHECK(w.c->confirm_transaction(w.c->txs().begin()->first));
        w.audit();
    }
    const int n = TIER ? 3 : 2;
    auto r = choose(static_cast<uint64_t>(n) + 1, "restart after");
    for(int i = 0; i < n; i++) {
        w.some("operation");
        if(r == static_cast<uint64_t>(i)) {
            w.restart();
            w.audit();
        }
    }
}
// Two transactions with the same input: it is spendable again once both are abandoned, and not before.
ENTRY(c38_conflict) {
    world w;
    w.mint(1, 5);
    w.confirmed(tx::tx_id(w.sent[0]));
    CHECK(w.c->confirm_transaction(w.c->txs().begin()->first));
    g_sentinel = [](const tx::full_tx&) -> std::optional<se::execute_response> { return std::nullopt; };
    auto a = w.c->create_transaction(5, w.payee);
    CHECKM(a.has_value() && w.c->balance() == 0, "the output is spoken for");
    auto b = *a;
    b.m_outputs[0].m_witness_program_commitment = va::get_p2pk_witness_commitment(w.own);
    w.c->sign_transaction(b);
    CHECKM(!va::check_tx(b).has_value(), "a transaction the client signs is valid");
    tx::full_tx t[2] = {*a, b};
    for(const auto& x : t)
        w.c->send_transaction(x);
    CHECKM(w.c->pending_tx_count() == 2, "both are pending");
    int state[2] = {0, 0};
    for(int i = 0; i < 2; i++) {
        auto k = choose(2, "which");
        auto confirm = choose(2, "confirmed") == 1;
        if(confirm && state[1 - k] == 1)
            sym_end();
        CHECK((confirm ? w.c->confirm_transaction(tx::tx_id(t[k])) : w.c->abandon_transaction(tx::tx_id(t[k]))) == (state[k] == 0));
        if(state[k] == 0)
            state[k] = confirm ? 1 : 2;
        if(choose(2, "restart") == 1)
            w.restart();
        auto back = state[0] == 2 && state[1] == 2;
        CHECKM(w.c->balance() == (back || state[1] == 1 ? 5U : 0U), "the input returns once nothing pending or confirmed spends it");
        if(back)
            sym_cover("both abandoned");
        if(state[0] + state[1] == 3)
            sym_cover("one confirmed, one abandoned");
    }
}
// ---- the two-phase client ----
namespace {
    std::function<std::optional<bool>(const hash_t&)> g_status;
    bool g_sent{true};
    std::vector<std::pair<tx::compact_tx, std::function<void(std::optional<bool>)>>> g_submitted;
    std::function<void()> g_submit;
    auto options() -> cbdc::config::options {
        cbdc::config::options o;
        o.m_coordinator_endpoints = {{endpoint(1)}};
        o.m_locking_shard_readonly_endpoints = {{endpoint(2)}};
        o.m_shard_ranges = {{0, 255}};
        o.m_watchtower_client_endpoints = {endpoint(3)};
        o.m_atomizer_endpoints = {endpoint(4)};
        o.m_attestation_threshold = 2;
        o.m_sentinel_private_keys[0] = key(0x51);
        o.m_sentinel_private_keys[1] = key(0x52);
        return o;
    }
    // A payment that was submitted, and a receipt, both not confirmed yet.
    template<typename C>
    struct shown : C {
        shown() : C(options(), quiet_log(), "wallet.dat", "client.dat") {}
        auto mint_tx(const tx::full_tx& t) -> bool { return this->send_mint_tx(t); }
        auto txs() const { return this->pending_txs(); }
        auto inputs() const { return this->pending_inputs(); }
    };
    struct receipts {
        cbdc::pubkey_t own{};
        std::vector<tx::full_tx> sent;
        std::vector<tx::input> coming;
        std::vector<hash_t> ids;
        template<typename C>
        void fill(C& c, uint64_t n_in) {
            own = c.new_address();
            for(uint8_t k = 0; k < 2; k++) {
                tx::full_tx t;
                tx::input i;
                i.m_prevout.m_tx_id = id(static_cast<uint8_t>(0x70 + k), k);
                t.m_inputs.push_back(i);
                t.m_outputs.push_back(tx::output{va::get_p2pk_witness_commitment(own), 10U + k});
                t.m_outputs.push_back(tx::output{va::get_p2pk_witness_commitment(own), 20U + k});
                if(k == 0 || n_in == 0) {
                    g_sentinel = [](const tx::full_tx&) -> std::optional<se::execute_response> { return std::nullopt; };
                    c.send_transaction(t);
                    sent.push_back(t);
                } else {
                    for(uint64_t o = 0; o < n_in; o++) {
                        coming.push_back(tx::input_from_output(t, o).value());
                        c.import_send_input(coming.back());
                    }
                }
                ids.push_back(tx::tx_id(t));
            }
            CHECK(c.pending_tx_count() == sent.size() && c.pending_input_count() == coming.size());
        }
        // What is left once the transactions marked are confirmed.
        template<typename C>
        void audit(C& c, const bool* settled) {
            uint64_t bal = 0;
            size_t pend = 0;
            size_t in = 0;
            for(size_t k = 0; k < sent.size(); k++)
                if(settled[k])
                    bal += 30 + 2 * k;
                else
                    pend++;
            for(const auto& i : coming)
                if(settled[1])
                    bal += i.m_prevout_data.m_value;
                else
                    in++;
            CHECKM(c.balance() == bal && c.pending_tx_count() == pend && c.pending_input_count() == in,
                   "synchronising confirms exactly the transactions that are reported as settled");
        }
    };
}
namespace cbdc::coordinator::rpc {
    client::client(std::vector<network::endpoint_t>) {}
    auto client::init() -> bool { return choose(2, "coordinator reachable") == 1; }
    auto client::execute_transaction(transaction::compact_tx t, callback_type cb) -> bool {
        if(!g_sent)
            return false;
        g_submitted.emplace_back(t, cb);
        if(g_submit)
            g_submit();
        return true;
    }
}
namespace cbdc::locking_shard::rpc {
    status_client::status_client(std::vector<std::vector<network::endpoint_t>>, std::vector<config::shard_range_t>, std::chrono::milliseconds) {}
    auto status_client::init() -> bool { return true; }
    auto status_client::check_unspent(const hash_t& i) -> std::optional<bool> { return g_status(i); }
    auto status_client::check_tx_id(const hash_t& i) -> std::optional<bool> { return g_status(i); }
}
ENTRY(c38_twophase_sync) {
    shown<cbdc::twophase_client> c;
    CHECKM(c.init(), "a client starts");
    receipts r;
    r.fill(c, choose(3, "outputs received"));
    uint64_t answer[2];
    uint32_t asked[2] = {0, 0};
    for(auto& a : answer)
        a = choose(3, "shard answer");
    g_status = [&](const hash_t& i) -> std::optional<bool> {
        for(size_t k = 0; k < 2; k++)
            if(heq(i, r.ids[k])) {
                asked[k]++;
                if(answer[k] == 2)
                    return std::nullopt;
                return answer[k] == 1;
            }
        CHECKM(false, "only pending transactions are asked for");
        return std::nullopt;
    };
    auto ok = c.sync();
    CHECKM(asked[0] == 1 && asked[1] == 1, "every pending transaction is asked for once");
    CHECKM(ok == (answer[0] != 2 && answer[1] != 2), "a shard that does not answer is reported");
    bool settled[2] = {answer[0] == 1, answer[1] == 1};
    r.audit(c, settled);
    if(answer[0] == 2 && answer[1] == 1)
        sym_cover("the rest confirmed although an answer is missing");
}
// A mint: submitted with a quorum of attestations; confirmed exactly if the coordinator says so in time.
ENTRY(c38_twophase_mint) {
    g_sent = true;
    g_submitted.clear();
    std::thread late;
    std::thread::id me = std::this_thread::get_id();
    {
        shown<cbdc::twophase_client> c;
        CHECKM(c.init(), "a client starts");
        auto how = choose(6, "coordinator");
        std::optional<bool> verdict;
        if(how == 2 || how == 4)
            verdict = true;
        if(how == 3)
            verdict = false;
        g_sent = how != 0;
        g_submit = [&]() {
            if(how >= 2 && how <= 3)
                late = std::thread([&] { g_submitted[0].second(verdict); });
            else if(how == 1)
                g_submitted[0].second(std::nullopt);
        };
        auto t = c.mint(1, 7);
        auto now = c.balance();
        CHECKM(g_submitted.size() == (how != 0 ? 1 : 0), "a mint is submitted once");
        if(how != 0) {
            auto& s = g_submitted[0].first;
            CHECKM(heq(s.m_id, tx::tx_id(t)) && s.m_uhs_outputs.size() == 1, "what is minted is what is submitted");
            CHECKM(s.m_attestations.size() == 2, "a mint carries the attestations asked for");
            for(const auto& a : s.m_attestations)
                CHECKM(s.verify(ctx(), a), "attestations are valid");
        }
        if(late.joinable())
            late.join();
        if(how >= 4) // after the client gave up
            g_submitted[0].second(verdict);
        CHECKM(c.balance() == now || c.balance() == 7, "nothing else is added");
        CHECKM(now == 0 || (now == 7 && how == 2), "only a confirmed mint is spendable");
        CHECKM(c.balance() + (c.pending_tx_count() == 1 ? 7 : 0) == 7, "a mint is either pending or spendable");
        if(how == 2 && now == 7)
            sym_cover("confirmed");
        if(how == 2 && now == 0)
            sym_cover("confirmed too late");
        if(how == 4)
            sym_cover("answered after the client gave up");
        if(how == 5)
            sym_cover("refused after the client gave up");
        g_submitted.clear();
        g_submit = nullptr;
    }
}
// ---- the atomizer client ----
namespace {
    namespace wt = cbdc::watchtower;
    std::function<std::shared_ptr<wt::status_request_check_success>(const wt::status_update_request&)> g_update;
    std::optional<uint64_t> g_best;
}
namespace cbdc::watchtower {
    blocking_client::blocking_client(network::endpoint_t e) : m_ep(std::move(e)) {}
    blocking_client::~blocking_client() = default;
    auto blocking_client::init() -> bool { return choose(2, "watchtower reachable") == 1; }
    auto blocking_client::request_best_block_height() -> std::shared_ptr<best_block_height_response> {
        if(!g_best)
            return nullptr;
        return std::make_shared<best_block_height_response>(*g_best);
    }
    auto blocking_client::request_status_update(const status_update_request& r) -> std::shared_ptr<status_request_check_success> { return g_update(r); }
}
ENTRY(c38_atomizer_sync) {
    shown<cbdc::atomizer_client> c;
    CHECKM(c.init(), "a client starts");
    receipts r;
    auto n_in = choose(3, "outputs received");
    r.fill(c, n_in);
    bool answered = choose(2, "watchtower answers") == 1;
    bool settled[2] = {false, false};
    bool first = choose(2, "settled") == 1;
    bool second = choose(2, "settled") == 1;
    g_update = [&](const wt::status_update_request& q) -> std::shared_ptr<wt::status_request_check_success> {
        CHECKM(q.uhs_ids().size() == 2, "every pending transaction is asked for once");
        wt::tx_id_states st;
        for(size_t k = 0; k < 2; k++) {
            auto it = q.uhs_ids().find(r.ids[k]);
            CHECKM(it != q.uhs_ids().end(), "every pending transaction is asked for once");
            auto whole = k == 0 || n_in == 0;
            CHECKM(it->second.size() == (whole ? 3 : n_in), "all of its outputs are asked for");
            if(!whole)
                for(const auto& i : r.coming) {
                    auto found = false;
                    for(const auto& h : it->second)
                        found = found || heq(h, i.hash());
                    CHECKM(found, "all of its outputs are asked for");
                }
            auto yes = k == 0 ? first : second;
            for(const auto& h : it->second) {
                auto s = sym_u8_("status");
                ASSUME(yes ? s == 1 || s == 2 : s == 0 || (s >= 3 && s <= 5));
                st[r.ids[k]].push_back(wt::status_update_state{static_cast<wt::search_status>(s), 3, h});
            }
            settled[k] = yes && answered;
        }
        if(!answered)
            return nullptr;
        return std::make_shared<wt::status_request_check_success>(st);
    };
    auto ok = c.sync();
    CHECKM(ok == (settled[0] && settled[1]), "success is reported exactly if everything is confirmed");
    r.audit(c, settled);
    if(settled[0] != settled[1])
        sym_cover("one of two confirmed");
}
// A mint: to the atomizer with a quorum of attestations; pending until a block with it is seen.
ENTRY(c38_atomizer_mint) {
    shown<cbdc::atomizer_client> c;
    CHECKM(c.init(), "a client starts");
    if(choose(2, "watchtower answers") == 1)
        g_best = sym_u64_("height");
    else
        g_best.reset();
    netstub::hook().reachable = choose(2, "atomizer reachable") == 1;
    auto t = c.mint(2, 7);
    CHECKM(netstub::log().size() == (g_best ? 1 : 0), "a mint is sent once");
    if(g_best) {
        auto d = cbdc::buffer_serializer(*netstub::log()[0].m_pkt);
        cbdc::atomizer::request q;
        d >> q;
        CHECKM(std::holds_alternative<cbdc::atomizer::tx_notify_request>(q), "a mint is a notification");
        auto& n = std::get<cbdc::atomizer::tx_notify_request>(q);
        CHECKM(heq(n.m_tx.m_id, tx::tx_id(t)) && n.m_tx.m_uhs_outputs.size() == 2 && n.m_block_height == *g_best, "what is minted is what is sent");
        CHECKM(n.m_tx.m_attestations.size() == 2, "a mint carries the attestations asked for");
        for(const auto& a : n.m_tx.m_attestations)
            CHECKM(n.m_tx.verify(ctx(), a), "attestations are valid");
        sym_cover("sent");
    }
    CHECKM(c.balance() == 0 && c.pending_tx_count() == 1, "a mint is pending until it is confirmed");
    CHECKM(c.confirm_transaction(tx::tx_id(t)) && c.balance() == 14, "a confirmed mint is spendable");
}
// ---- addresses ----
namespace {
    auto encode(const std::vector<uint8_t>& raw, bool pad = true) -> std::string {
        std::vector<uint8_t> d;
        ConvertBits<cbdc::address::bits_per_byte, cbdc::address::bech32_bits_per_symbol, true>([&](uint8_t x) { d.push_back(x); }, raw.begin(), raw.end());
        if(!pad)
            d.pop_back();
        return bech32::Encode(cbdc::config::bech32_hrp, d);
    }
}
// Every key survives being written as an address; an address of another kind or size is refused.
ENTRY(c38_address) {
    auto bytes = choose(4, "size") ;
    size_t n = bytes == 0 ? 33 : bytes == 1 ? 32 : bytes == 2 ? 34 : choose(2, "short");
    std::vector<uint8_t> raw(n);
    auto at = bytes == 0 ? choose(TIER ? 11 : 2, "byte") * (TIER ? 3 : 16) : 0;
    auto bit = 1U << (TIER ? 2 * choose(4, "bit") : 5);
    for(size_t i = 0; i < n; i++)
        raw[i] = static_cast<uint8_t>((i == 0 ? 0 : 41 * i) ^ (i == at && flip("bit set") ? bit : 0));
    auto a = cbdc::address::decode(encode(raw));
    auto want = n == 33 && raw[0] == 0;
    CHECKM(a.has_value() == want, "exactly the addresses of public keys are accepted");
    if(a.has_value()) {
        auto same = true;
        for(size_t i = 0; i < 32; i++)
            same = same && (*a)[i] == raw[i + 1];
        CHECKM(same, "an address gives back the key it was made from");
        sym_cover("read back");
    }
}
// An address mistyped in one or two places is refused.
ENTRY(c38_address_typo) {
    std::vector<uint8_t> raw(33);
    for(size_t i = 1; i < 33; i++)
        raw[i] = static_cast<uint8_t>(37 * i);
    auto s = encode(raw);
    CHECK(cbdc::address::decode(s).has_value());
    const uint64_t step = TIER ? 1 : 20;
    auto p = choose(s.size() / step, "place") * step;
    auto q = TIER && choose(2, "second") == 1 ? (p + 1 + choose(TIER ? 3 : 1, "distance") * 7) % s.size() : p;
    auto was = std::make_pair(s[p], s[q]);
    s[p] = static_cast<char>(sym_u8_("typed"));
    if(q != p)
        s[q] = static_cast<char>(sym_u8_("typed"));
    auto low = [](char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c; };
    ASSUME(low(s[p]) != low(was.first) || low(s[q]) != low(was.second));
    CHECKM(!cbdc::address::decode(s).has_value(), "an address mistyped in one or two places is refused");
    sym_cover("refused");
}
