// C34: EVM transactions, accounts, receipts and logs in their encodings, and what a signature covers.
#include "common.hpp"
#include "parsec/agent/runners/evm/address.hpp"
#include "parsec/agent/runners/evm/format.hpp"
#include "parsec/agent/runners/evm/hash.hpp"
#include "parsec/agent/runners/evm/rlp.hpp"
#include "parsec/agent/runners/evm/serialization.hpp"
#include "parsec/agent/runners/evm/signature.hpp"
#include "parsec/agent/runners/evm/util.hpp"
using namespace vf;
using namespace cbdc::parsec::agent::runner;
using evmc::address;
using evmc::bytes32;
namespace {
    auto same(const uint8_t* a, const uint8_t* b, size_t n) -> bool {
        unsigned d = 0;
        for(size_t i = 0; i < n; i++)
            d |= static_cast<unsigned>(a[i] ^ b[i]);
        return d == 0;
    }
    auto eq(const bytes32& a, const bytes32& b) -> bool { return same(a.bytes, b.bytes, 32); }
    auto eq(const address& a, const address& b) -> bool { return same(a.bytes, b.bytes, 20); }
    auto eq(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) -> bool {
        return a.size() == b.size() && same(a.data(), b.data(), a.size());
    }
    auto eq(const std::vector<bytes32>& a, const std::vector<bytes32>& b) -> bool {
        if(a.size() != b.size())
            return false;
        bool r = true;
        for(size_t i = 0; i < a.size(); i++)
            r = r & eq(a[i], b[i]);
        return r;
    }
    auto eq(const evm_access_list& a, const evm_access_list& b) -> bool {
        if(a.size() != b.size())
            return false;
        bool r = true;
        for(size_t i = 0; i < a.size(); i++)
            r = r & eq(a[i].m_address, b[i].m_address) & eq(a[i].m_storage_keys, b[i].m_storage_keys);
        return r;
    }
    // A number of n significant bytes.
    auto num(size_t n, const char* name) -> bytes32 {
        bytes32 r;
        if(n > 0) {
            sym_bytes(r.bytes + 32 - n, n, name);
            ASSUME(r.bytes[32 - n] != 0);
        }
        return r;
    }
    auto addr(const char* name) -> address {
        address r;
        sym_bytes(r.bytes, 20, name);
        return r;
    }
    auto word(const char* name) -> bytes32 {
        bytes32 r;
        sym_bytes(r.bytes, 32, name);
        return r;
    }
    auto blob(size_t n, const char* name) -> std::vector<uint8_t> {
        std::vector<uint8_t> r(n);
        if(n > 0)
            sym_bytes(r.data(), n, name);
        return r;
    }
    // The fields of a transaction that its encoding carries.
    void check_tx(const evm_tx& a, const evm_tx& b) {
        CHECKM(a.m_type == b.m_type, "the type is kept");
        CHECKM(a.m_to.has_value() == b.m_to.has_value(), "a recipient is kept, and none stays none");
        CHECKM(!a.m_to || eq(*a.m_to, *b.m_to), "the recipient is kept");
        CHECKM(eq(a.m_value, b.m_value), "the value is kept");
        CHECKM(eq(a.m_nonce, b.m_nonce), "the nonce is kept");
        if(a.m_type == evm_tx_type::dynamic_fee) {
            CHECKM(eq(a.m_gas_tip_cap, b.m_gas_tip_cap), "the tip cap is kept");
            CHECKM(eq(a.m_gas_fee_cap, b.m_gas_fee_cap), "the fee cap is kept");
        } else
            CHECKM(eq(a.m_gas_price, b.m_gas_price), "the gas price is kept");
        CHECKM(eq(a.m_gas_limit, b.m_gas_limit), "the gas limit is kept");
        CHECKM(eq(a.m_input, b.m_input), "the input is kept");
        CHECKM(a.m_type == evm_tx_type::legacy || eq(a.m_access_list, b.m_access_list), "the access list is kept");
        CHECKM(eq(a.m_sig.m_r, b.m_sig.m_r), "r is kept");
        CHECKM(eq(a.m_sig.m_s, b.m_sig.m_s), "s is kept");
        CHECKM(eq(a.m_sig.m_v, b.m_sig.m_v), "v is kept");
    }
    auto sym_type() -> evm_tx_type {
        return static_cast<evm_tx_type>(choose(3, "type"));
    }
    // A transaction whose numbers have two bytes each, except the one in focus, which has any of a range of lengths.
    auto sym_tx(evm_tx_type type, size_t focus, size_t len, uint64_t chain) -> evm_tx {
        auto n = [&](size_t f, const char* name) {
            return num(f == focus ? len : 2, name);
        };
        evm_tx t;
        t.m_type = type;
        if(choose(2, "has to"))
            t.m_to = addr("to");
        t.m_value = n(0, "value");
        t.m_nonce = n(1, "nonce");
        if(type == evm_tx_type::dynamic_fee) {
            t.m_gas_tip_cap = n(2, "tip");
            t.m_gas_fee_cap = n(3, "fee cap");
        } else
            t.m_gas_price = n(2, "price");
        t.m_gas_limit = n(4, "limit");
        static constexpr size_t in_len[] = {2, 0, 1, 56};
        t.m_input = blob(in_len[choose(focus == 7 ? 4 : 1, "input length")], "input");
        if(type != evm_tx_type::legacy) {
            auto k = choose(focus == 7 ? 3 : 2, "tuples");
            for(size_t i = 0; i < k; i++) {
                evm_access_tuple a;
                a.m_address = addr("access");
                for(size_t j = choose(2, "keys"); j > 0; j--)
                    a.m_storage_keys.push_back(word("key"));
                t.m_access_list.push_back(a);
            }
        }
        t.m_sig.m_r = n(5, "r");
        t.m_sig.m_s = n(6, "s");
        uint64_t v = choose(2, "v");
        if(type == evm_tx_type::legacy)
            v += choose(2, "before eip155") ? pre_eip155_v_offset : eip155_v_offset + 2 * chain;
        t.m_sig.m_v = bytes32(v);
        return t;
    }
}
// Every type, every field in turn with every length class.
ENTRY(c34_tx) {
    auto type = sym_type();
    auto focus = choose(8, "focus");
    static constexpr size_t lens[] = {0, 1, 32, 31, 8, 9};
    auto len = lens[focus == 7 ? 0 : choose(TIER ? 6 : 3, "length")];
    static constexpr uint64_t chains[] = {opencbdc_chain_id, 1, 0x123456789aULL};
    auto chain = chains[focus == 7 ? choose(3, "chain") : 0];
    auto t = sym_tx(type, focus, len, chain);
    auto b = tx_encode(t, chain);
    auto r = tx_decode(b, nullptr, chain);
    CHECKM(r.has_value(), "an encoded transaction decodes");
    check_tx(t, **r);
    CHECKM(tx_encode(**r, chain) == b, "the decoded transaction encodes to the same bytes");
    sym_cover(type == evm_tx_type::legacy ? "legacy" : type == evm_tx_type::access_list ? "access list" : "dynamic fee");
    sym_end();
}
// A transaction made for another chain is refused.
ENTRY(c34_chain) {
    auto type = sym_type();
    auto mine = sym_range_(1, 200, "mine");
    auto other = sym_range_(1, 200, "other");
    auto t = sym_tx(type, 99, 0, 0);
    uint64_t y = choose(2, "y");
    t.m_sig.m_v = bytes32(type == evm_tx_type::legacy ? eip155_v_offset + 2 * other + y : y);
    auto r = tx_decode(tx_encode(t, other), nullptr, mine);
    CHECKM(r.has_value() == (mine == other), "exactly the transactions of this chain are accepted");
    sym_cover(r.has_value() ? "this chain" : "another chain");
    sym_end();
}
// The signing hash: two transactions have the same one exactly if every signed field agrees.
ENTRY(c34_sighash) {
    auto type = sym_type();
    auto t = sym_tx(type, 99, 0, 1);
    auto u = t;
    uint64_t ct = 1, cu = 1;
    auto f = choose(12, "field");
    auto other = num(choose(2, "length") ? 2 : 32, "other");
    bool differs = true, signs = true;
    auto set = [&](bytes32& w) {
        differs = !eq(w, other);
        w = other;
    };
    auto const dyn = type == evm_tx_type::dynamic_fee, legacy = type == evm_tx_type::legacy;
    switch(f) {
        case 0: set(u.m_value); break;
        case 1: set(u.m_nonce); break;
        case 2: set(u.m_gas_price); signs = !dyn; break;
        case 3: set(u.m_gas_tip_cap); signs = dyn; break;
        case 4: set(u.m_gas_fee_cap); signs = dyn; break;
        case 5: set(u.m_gas_limit); break;
        case 6:
            if(t.m_to && choose(2, "drop"))
                u.m_to.reset();
            else {
                auto a = addr("other to");
                differs = !t.m_to || !eq(*t.m_to, a);
                u.m_to = a;
            }
            break;
        case 7:
            u.m_input = blob(choose(2, "input length") ? 2 : 3, "other input");
            differs = !eq(u.m_input, t.m_input);
            break;
        case 8:
            signs = !legacy;
            if(!t.m_access_list.empty() && choose(2, "key"))
                u.m_access_list[0].m_storage_keys.push_back(word("other key"));
            else {
                evm_access_tuple a;
                a.m_address = addr("other access");
                u.m_access_list.push_back(a);
            }
            break;
        case 9:
            cu = sym_range_(1, 120, "chain");
            differs = cu != ct;
            break;
        case 10:
            u.m_type = static_cast<evm_tx_type>((static_cast<unsigned>(type) + 1 + choose(2, "type")) % 3);
            ASSUME(legacy || u.m_type == evm_tx_type::legacy || u.m_type != type);
            break;
        default:
            u.m_sig.m_r = other;
            u.m_sig.m_s = other;
            u.m_sig.m_v = other;
            signs = false;
    }
    auto a = sig_hash(t, ct), b = sig_hash(u, cu);
    CHECKM(heq(a, b) == !(differs && signs), "the signing hash changes exactly if a signed field changes");
    sym_cover(signs ? "signed" : "unsigned");
    sym_end();
}
// What a wallet signs is recovered as its address, before and after the transaction travels.
ENTRY(c34_signed) {
    auto type = sym_type();
    auto chain = choose(2, "large") ? sym_range_(1ULL << 48, (1ULL << 55) - 1, "chain") : sym_range_(1, 45, "chain");
    auto t = sym_tx(type, 99, 0, chain);
    cbdc::privkey_t key{};
    sym_bytes(key.data(), 32, "key");
    ASSUME(key[0] != 0);
    auto ctx = std::shared_ptr<secp256k1_context>(secp256k1_context_create(SECP256K1_CONTEXT_SIGN), &secp256k1_context_destroy);
    auto h = sig_hash(t, chain);
    t.m_sig = eth_sign(key, h, type, ctx, chain);
    // Numbers with leading zero bytes are c34_tx's.
    ASSUME(t.m_sig.m_r.bytes[0] != 0 && t.m_sig.m_s.bytes[0] != 0);
    auto from = eth_addr(key, ctx);
    auto got = check_signature(t, ctx, chain);
    CHECKM(got.has_value() && eq(*got, from), "the signer's address is recovered");
    auto r = tx_decode(tx_encode(t, chain), nullptr, chain);
    CHECKM(r.has_value(), "the signed transaction decodes");
    got = check_signature(**r, ctx, chain);
    CHECKM(got.has_value() && eq(*got, from), "the signer's address is recovered from the decoded transaction");
    sym_cover("signed");
    sym_end();
}
namespace {
    // Whatever decodes is a transaction that encodes and decodes to itself.
    void check_hostile(const cbdc::buffer& b) {
        auto r = tx_decode(b, nullptr, 1);
        if(!r.has_value()) {
            sym_cover("refused");
            return;
        }
        sym_cover("accepted");
        auto again = tx_decode(tx_encode(**r, 1), nullptr, 1);
        CHECKM(again.has_value(), "an accepted transaction encodes to one that is accepted");
        check_tx(**r, **again);
    }
    auto elem(size_t n, const char* name) -> cbdc::rlp_value {
        cbdc::buffer b;
        auto v = blob(n, name);
        b.append(v.data(), v.size());
        return cbdc::rlp_value(b);
    }
    auto list(std::vector<cbdc::rlp_value> v) -> cbdc::rlp_value {
        auto r = cbdc::rlp_value(cbdc::rlp_value_type::array);
        for(auto& x : v)
            r.push_back(x);
        return r;
    }
}
// Arbitrary short inputs.
ENTRY(c34_bytes) {
    auto n = choose(TIER ? 5 : 4, "bytes");
    cbdc::buffer b;
    auto v = blob(n, "in");
    b.append(v.data(), v.size());
    if(n == 3)
        ASSUME(v[2] < 0x80);
    for(size_t i = 0; i < n; i++)
        ASSUME(v[i] < 0x80 || (v[i] & 0x3f) <= n || (v[i] & 0x3f) == 0x3f);
    auto r = tx_decode(b, nullptr, 1);
    CHECKM(!r.has_value(), "no transaction is that short");
    sym_cover("refused");
    sym_end();
}
// Well-formed RLP that is no transaction, or barely one: each element in turn is replaced by something else.
ENTRY(c34_hostile) {
    auto type = sym_type();
    size_t const n = type == evm_tx_type::legacy ? 9 : type == evm_tx_type::access_list ? 11 : 12;
    auto k = choose(n + 3, "element");
    std::vector<cbdc::rlp_value> v;
    auto const al = n == 9 ? 99 : n - 4;
    for(size_t i = 0; i < n; i++) {
        if(i == al)
            v.push_back(list({}));
        else {
            cbdc::buffer one;
            one.append("\x01", 1);
            v.push_back(i == n - 6 - (n == 9 ? 0 : 1) + (n == 9 ? 0 : 0) ? elem(0, "to") : cbdc::rlp_value(one));
        }
    }
    auto odd = [&]() -> cbdc::rlp_value {
        switch(choose(9, "odd")) {
            case 0: return elem(0, "x");
            case 1: return elem(1, "x");
            case 2: return elem(19, "x");
            case 3: return elem(20, "x");
            case 4: return elem(21, "x");
            case 5: return elem(32, "x");
            case 6: return elem(33, "x");
            case 7: return list({});
            default: return list({elem(2, "x")});
        }
    };
    if(k < n && k == al) {
        switch(choose(8, "list")) {
            case 0: v[k] = elem(2, "x"); break;
            case 1: v[k] = list({elem(20, "x")}); break;
            case 2: v[k] = list({list({})}); break;
            case 3: v[k] = list({list({elem(20, "x")})}); break;
            case 4: v[k] = list({list({odd(), list({})})}); break;
            case 5: v[k] = list({list({elem(20, "x"), odd()})}); break;
            case 6: v[k] = list({list({elem(20, "x"), list({odd()})})}); break;
            default: v[k] = list({list({elem(20, "x"), list({}), elem(2, "y")})});
        }
    } else if(k < n)
        v[k] = odd();
    else if(k == n)
        v.push_back(elem(1, "extra"));
    else if(k == n + 1)
        v.pop_back();
    cbdc::buffer b;
    if(n > 9) {
        auto t = static_cast<uint8_t>(type);
        b.append(&t, 1);
    }
    auto body = cbdc::make_buffer(k == n + 2 ? elem(n, "string") : list(v));
    b.append(body.data(), body.size());
    if(k == n + 2) {
        CHECKM(!tx_decode(b, nullptr, 1).has_value(), "a byte string is no transaction");
    } else if(k >= n)
        CHECKM(!tx_decode(b, nullptr, 1).has_value(), "a list of another length is no transaction");
    else
        check_hostile(b);
    sym_end();
}
// The text form of a raw transaction.
ENTRY(c34_text) {
    auto n = choose(5, "characters");
    std::string s(n, '\0');
    if(n > 0)
        sym_bytes(s.data(), n, "text");
    CHECKM(!raw_tx_from_json(Json::Value(s)).has_value(), "no transaction is that short");
    CHECKM(!raw_tx_from_json(Json::Value()).has_value(), "nothing is no transaction");
    sym_cover("refused");
    sym_end();
}
namespace {
    template<typename T>
    auto again(const T& v) -> T {
        auto b = cbdc::make_buffer(v);
        auto r = cbdc::from_buffer<T>(b);
        CHECKM(r.has_value(), "the record decodes");
        CHECKM(cbdc::make_buffer(*r) == b, "the decoded record encodes to the same bytes");
        return *r;
    }
    auto sym_log() -> evm_log {
        evm_log l;
        l.m_addr = addr("log address");
        l.m_data = blob(choose(3, "data"), "log data");
        for(auto k = choose(3, "topics"); k > 0; k--)
            l.m_topics.push_back(word("topic"));
        return l;
    }
    void check_log(const evm_log& a, const evm_log& b) {
        CHECKM(eq(a.m_addr, b.m_addr) && eq(a.m_data, b.m_data) && eq(a.m_topics, b.m_topics), "the log is kept");
    }
    auto full_tx() -> evm_tx {
        evm_tx t;
        t.m_type = sym_type();
        if(choose(2, "to"))
            t.m_to = addr("to");
        t.m_value = word("value");
        t.m_nonce = word("nonce");
        t.m_gas_price = word("price");
        t.m_gas_limit = word("limit");
        t.m_gas_tip_cap = word("tip");
        t.m_gas_fee_cap = word("fee");
        t.m_input = blob(choose(3, "input"), "input");
        for(auto k = choose(2, "tuples"); k > 0; k--) {
            evm_access_tuple a;
            a.m_address = addr("access");
            for(auto j = choose(2, "keys"); j > 0; j--)
                a.m_storage_keys.push_back(word("key"));
            t.m_access_list.push_back(a);
        }
        t.m_sig.m_r = word("r");
        t.m_sig.m_s = word("s");
        t.m_sig.m_v = word("v");
        return t;
    }
    void check_full(const evm_tx& t, const evm_tx& r) {
        check_tx(t, r);
        CHECKM(eq(t.m_gas_price, r.m_gas_price) && eq(t.m_gas_tip_cap, r.m_gas_tip_cap) && eq(t.m_gas_fee_cap, r.m_gas_fee_cap) && eq(t.m_access_list, r.m_access_list), "all fees and the access list are kept");
    }
}
// The stored and transmitted forms.
ENTRY(c34_format) {
    switch(choose(7, "kind")) {
        case 0: {
            auto t = full_tx();
            check_full(t, again(t));
            sym_cover("transaction");
            break;
        }
        case 1: {
            evm_dryrun_tx d;
            d.m_from = addr("from");
            d.m_tx = full_tx();
            auto r = again(d);
            CHECKM(eq(r.m_from, d.m_from), "the sender is kept");
            check_full(d.m_tx, r.m_tx);
            sym_cover("dry run");
            break;
        }
        case 2: {
            evm_account a;
            a.m_balance = word("balance");
            a.m_nonce = word("nonce");
            auto r = again(a);
            CHECKM(eq(r.m_balance, a.m_balance) && eq(r.m_nonce, a.m_nonce), "the account is kept");
            sym_cover("account");
            break;
        }
        case 3: {
            evm_pretend_block b;
            b.m_ticket_number = sym_u64_("ticket");
            evm_tx_receipt c;
            c.m_tx.m_type = sym_type();
            c.m_tx.m_value = word("value");
            if(choose(2, "created"))
                c.m_create_address = addr("created");
            c.m_gas_used = word("gas");
            for(auto k = choose(2, "logs"); k > 0; k--)
                c.m_logs.push_back(sym_log());
            c.m_output_data = blob(choose(3, "output"), "output");
            c.m_ticket_number = sym_u64_("receipt ticket");
            c.m_timestamp = sym_u64_("time");
            c.m_success = choose(2, "success");
            b.m_transactions.push_back(c);
            auto rb = again(b);
            CHECKM(rb.m_ticket_number == b.m_ticket_number && rb.m_transactions.size() == 1, "the block is kept");
            auto& r = rb.m_transactions[0];
            CHECKM(eq(r.m_tx.m_value, c.m_tx.m_value) && r.m_tx.m_type == c.m_tx.m_type, "the transaction is kept");
            CHECKM(r.m_create_address.has_value() == c.m_create_address.has_value(), "a created address is kept");
            CHECKM(!r.m_create_address || eq(*r.m_create_address, *c.m_create_address), "the created address is kept");
            CHECKM(eq(r.m_gas_used, c.m_gas_used) && eq(r.m_output_data, c.m_output_data), "gas and output are kept");
            CHECKM(r.m_ticket_number == c.m_ticket_number && r.m_timestamp == c.m_timestamp && r.m_success == c.m_success, "ticket, time and outcome are kept");
            CHECKM(r.m_logs.size() == c.m_logs.size(), "the logs are kept");
            for(size_t i = 0; i < c.m_logs.size(); i++)
                check_log(c.m_logs[i], r.m_logs[i]);
            sym_cover("receipt");
            break;
        }
        case 4: {
            evm_log_query q;
            for(auto k = choose(3, "addresses"); k > 0; k--)
                q.m_addresses.push_back(addr("a"));
            for(auto k = choose(3, "topics"); k > 0; k--)
                q.m_topics.push_back(word("t"));
            q.m_from_block = sym_u64_("from");
            q.m_to_block = sym_u64_("until");
            auto r = again(q);
            CHECKM(r.m_from_block == q.m_from_block && r.m_to_block == q.m_to_block && eq(r.m_topics, q.m_topics), "the query is kept");
            CHECKM(r.m_addresses.size() == q.m_addresses.size(), "the addresses are kept");
            for(size_t i = 0; i < q.m_addresses.size(); i++)
                CHECKM(eq(r.m_addresses[i], q.m_addresses[i]), "each address is kept");
            sym_cover("query");
            break;
        }
        case 5: {
            evm_log_index x;
            x.m_ticket_number = sym_u64_("ticket");
            x.m_txid = sym_hash_id("txid");
            for(auto k = choose(3, "logs"); k > 0; k--)
                x.m_logs.push_back(sym_log());
            auto r = again(x);
            CHECKM(r.m_ticket_number == x.m_ticket_number && heq(r.m_txid, x.m_txid) && r.m_logs.size() == x.m_logs.size(), "the index is kept");
            for(size_t i = 0; i < x.m_logs.size(); i++)
                check_log(x.m_logs[i], r.m_logs[i]);
            sym_cover("log index");
            break;
        }
        default: {
            // The keys under which an account, its code and its storage are kept never coincide.
            code_key c{addr("a")};
            storage_key s{addr("b"), word("k")}, s2{addr("c"), word("l")};
            CHECKM(eq(again(c).m_addr, c.m_addr), "the code key is kept");
            auto r = again(s);
            CHECKM(eq(r.m_addr, s.m_addr) && eq(r.m_key, s.m_key), "the storage key is kept");
            auto ka = cbdc::make_buffer(addr("d")), kc = cbdc::make_buffer(c), ks = cbdc::make_buffer(s);
            CHECKM(ka.size() != kc.size() && ka.size() != ks.size() && kc.size() != ks.size(), "keys of different kinds differ");
            CHECKM((ks == cbdc::make_buffer(s2)) == (eq(s.m_addr, s2.m_addr) && eq(s.m_key, s2.m_key)), "different storage cells have different keys");
            sym_cover("keys");
        }
    }
    sym_end();
}
