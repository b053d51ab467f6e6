// Full and compact transaction validation, transaction and UHS identifiers.
#include "common.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/serialization/util.hpp"
#include <secp256k1.h>
#include <secp256k1_schnorrsig.h>
using namespace vf;
namespace tx = cbdc::transaction;
namespace va = cbdc::transaction::validation;
using witness_bytes = std::vector<std::byte>;
namespace {
    auto s_hash(const char* n) -> hash_t {
        return sym_hash_id(n);
    }
    // A point with a symbolic byte at either end.
    auto near(const char* n) -> hash_t {
        hash_t h{};
        h.fill(7);
        h[0] = sym_u8_(n);
        h[31] = sym_u8_(n);
        return h;
    }
    // What the documentation asks of the structure; -1: well formed.
    struct verdict {
        int kind{-1}; // 0 tx, 1 input, 2 output, 3 witness
        int code{0};
        uint64_t idx{0};
        bool data{false};
    };
    auto observe(const std::optional<va::tx_error>& e) -> verdict {
        verdict v;
        if(!e.has_value())
            return v;
        if(std::holds_alternative<va::tx_error_code>(*e)) {
            v.kind = 0;
            v.code = static_cast<int>(std::get<va::tx_error_code>(*e));
        } else if(std::holds_alternative<va::input_error>(*e)) {
            const auto& i = std::get<va::input_error>(*e);
            v.kind = 1;
            v.code = static_cast<int>(i.m_code);
            v.idx = i.m_idx;
            v.data = i.m_data_err.has_value();
        } else if(std::holds_alternative<va::output_error>(*e)) {
            const auto& i = std::get<va::output_error>(*e);
            v.kind = 2;
            v.code = static_cast<int>(i.m_code);
            v.idx = i.m_idx;
        } else {
            const auto& i = std::get<va::witness_error>(*e);
            v.kind = 3;
            v.code = static_cast<int>(i.m_code);
            v.idx = i.m_idx;
        }
        return v;
    }
    auto tx_err(va::tx_error_code c) -> verdict {
        return {0, static_cast<int>(c), 0, false};
    }
    auto wit_err(va::witness_error_code c, uint64_t i) -> verdict {
        return {3, static_cast<int>(c), i, false};
    }
    auto point_eq(const tx::out_point& a, const tx::out_point& b) -> bool {
        return static_cast<int>(heq(a.m_tx_id, b.m_tx_id)) & static_cast<int>(a.m_index == b.m_index);
    }
    auto reference(const tx::full_tx& t) -> verdict {
        if(t.m_inputs.empty())
            return tx_err(va::tx_error_code::no_inputs);
        if(t.m_outputs.empty())
            return tx_err(va::tx_error_code::no_outputs);
        if(t.m_witness.size() != t.m_inputs.size())
            return tx_err(va::tx_error_code::missing_witness);
        for(size_t i = 0; i < t.m_inputs.size(); i++)
            for(size_t j = 0; j < i; j++)
                if(point_eq(t.m_inputs[i].m_prevout, t.m_inputs[j].m_prevout))
                    return {1, static_cast<int>(va::input_error_code::duplicate), i, false};
        for(size_t i = 0; i < t.m_inputs.size(); i++)
            if(t.m_inputs[i].m_prevout_data.m_value == 0)
                return {1, static_cast<int>(va::input_error_code::data_error), i, true};
        for(size_t i = 0; i < t.m_outputs.size(); i++)
            if(t.m_outputs[i].m_value == 0)
                return {2, static_cast<int>(va::output_error_code::zero_value), i, false};
        unsigned __int128 in = 0, out = 0;
        for(const auto& i : t.m_inputs)
            in += i.m_prevout_data.m_value;
        for(const auto& o : t.m_outputs)
            out += o.m_value;
        if((in >> 64) != 0 || (out >> 64) != 0)
            return tx_err(va::tx_error_code::value_overflow);
        if(in != out)
            return tx_err(va::tx_error_code::asymmetric_values);
        for(size_t i = 0; i < t.m_witness.size(); i++) {
            const auto& w = t.m_witness[i];
            if(w.empty())
                return wit_err(va::witness_error_code::missing_witness_program_type, i);
            if(static_cast<uint8_t>(w[0]) != 0)
                return wit_err(va::witness_error_code::unknown_witness_program_type, i);
            if(w.size() != 1 + 32 + 64)
                return wit_err(va::witness_error_code::malformed, i);
            hash_t prog = cbdc::hash_data(w.data(), 33);
            if(!heq(prog, t.m_inputs[i].m_prevout_data.m_witness_program_commitment))
                return wit_err(va::witness_error_code::program_mismatch, i);
            secp256k1_xonly_pubkey pk{};
            if(secp256k1_xonly_pubkey_parse(nullptr, &pk, reinterpret_cast<const unsigned char*>(w.data()) + 1) != 1)
                return wit_err(va::witness_error_code::invalid_public_key, i);
            auto id = tx::tx_id(t);
            if(secp256k1_schnorrsig_verify(nullptr, reinterpret_cast<const unsigned char*>(w.data()) + 33, id.data(), &pk) != 1)
                return wit_err(va::witness_error_code::invalid_signature, i);
        }
        return {};
    }
    void compare(const tx::full_tx& t) {
        auto want = reference(t);
        auto copy = t;
        auto got = observe(va::check_tx(t));
        CHECKM((want.kind == -1) == (got.kind == -1), "check_tx accepts exactly the valid transactions");
        CHECKM(want.kind == got.kind, "the error names the right kind of component");
        CHECKM(want.code == got.code, "the error names the right failure");
        CHECKM(want.idx == got.idx, "the error names the first failing component");
        CHECKM(want.data == got.data, "the input error carries its data error");
        CHECKM(copy == t, "validation changes nothing");
        if(want.kind == -1)
            sym_cover("accepted");
        else
            sym_cover("rejected");
    }
}
ENTRY(c01_structure) {
    tx::full_tx t;
    auto ni = choose(TIER > 0 ? 5 : 4, "inputs"), no = choose(TIER > 0 ? 4 : 3, "outputs"), nw = choose(TIER > 0 ? 6 : 5, "witnesses");
    for(uint64_t i = 0; i < ni; i++) {
        tx::input in;
        in.m_prevout.m_tx_id = near("prevout");
        in.m_prevout.m_index = sym_u64_("index");
        in.m_prevout_data.m_value = sym_u64_("in value");
        in.m_prevout_data.m_witness_program_commitment = id(1, 1);
        t.m_inputs.push_back(in);
    }
    for(uint64_t i = 0; i < no; i++) {
        tx::output o;
        o.m_value = sym_u64_("out value");
        o.m_witness_program_commitment = id(2, 2);
        t.m_outputs.push_back(o);
    }
    t.m_witness.resize(nw);
    compare(t);
}
// Witnesses over any bytes and lengths around the right one.
ENTRY(c01_witness) {
    tx::full_tx t;
    auto n = 1 + choose(2, "inputs");
    for(uint64_t i = 0; i < n; i++) {
        tx::input in;
        in.m_prevout.m_tx_id = id(3, 3);
        in.m_prevout.m_index = i;
        in.m_prevout_data.m_value = 5;
        in.m_prevout_data.m_witness_program_commitment = s_hash("commitment");
        t.m_inputs.push_back(in);
        static const size_t lens[] = {97, 0, 96, 98, 1, 33};
        auto len = lens[i == 0 || n == 1 ? choose(6, "length") : choose(TIER > 0 ? 6 : 3, "length")];
        witness_bytes w(len);
        if(len > 0)
            sym_bytes(w.data(), len, "witness");
        t.m_witness.push_back(w);
    }
    tx::output o;
    o.m_value = 5 * n;
    o.m_witness_program_commitment = s_hash("payee");
    t.m_outputs.push_back(o);
    compare(t);
}
// A properly signed transaction is accepted, and no longer once anything in it changed after signing.
ENTRY(c01_signed) {
    auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
    cbdc::privkey_t keys[2];
    keys[0].fill(9);
    keys[1].fill(8);
    cbdc::pubkey_t pubs[2];
    for(int k = 0; k < 2; k++)
        pubs[k] = cbdc::pubkey_from_privkey(keys[k], ctx);
    tx::full_tx t;
    uint64_t owner[2];
    uint64_t v[2];
    for(uint64_t i = 0; i < 2; i++) {
        owner[i] = choose(2, "owner");
        tx::input in;
        in.m_prevout.m_tx_id = near("prevout");
        in.m_prevout.m_index = sym_u64_("index");
        v[i] = in.m_prevout_data.m_value = sym_u64_("value");
        in.m_prevout_data.m_witness_program_commitment = va::get_p2pk_witness_commitment(pubs[owner[i]]);
        t.m_inputs.push_back(in);
    }
    ASSUME(!point_eq(t.m_inputs[0].m_prevout, t.m_inputs[1].m_prevout));
    ASSUME(v[0] > 0);
    ASSUME(v[1] > 0);
    ASSUME(v[0] + v[1] > v[0]);
    tx::output o;
    o.m_witness_program_commitment = s_hash("payee");
    o.m_value = v[0] + v[1];
    t.m_outputs.push_back(o);
    auto id0 = tx::tx_id(t);
    for(uint64_t i = 0; i < 2; i++) {
        secp256k1_keypair kp;
        CHECK(secp256k1_keypair_create(ctx, &kp, keys[owner[i]].data()) == 1);
        unsigned char sig[64];
        secp256k1_schnorrsig_sign(ctx, sig, id0.data(), &kp, nullptr, nullptr);
        witness_bytes w(97);
        w[0] = std::byte(0);
        std::memcpy(&w[1], pubs[owner[i]].data(), 32);
        std::memcpy(&w[33], sig, 64);
        t.m_witness.push_back(w);
    }
    CHECKM(!va::check_tx(t).has_value(), "a signed transaction is valid");
    sym_cover("valid");
    bool same = false;
    switch(choose(5, "change")) {
        case 0: {
            auto old = t.m_outputs[0].m_witness_program_commitment;
            t.m_outputs[0].m_witness_program_commitment = s_hash("other payee");
            same = heq(old, t.m_outputs[0].m_witness_program_commitment);
            break;
        }
        case 1: { // split the output in two
            auto x = sym_u64_("split");
            ASSUME(x > 0);
            ASSUME(x < t.m_outputs[0].m_value);
            auto o2 = t.m_outputs[0];
            o2.m_value = x;
            t.m_outputs[0].m_value -= x;
            t.m_outputs.push_back(o2);
            break;
        }
        case 2: // swap the witnesses
            std::swap(t.m_witness[0], t.m_witness[1]);
            same = owner[0] == owner[1];
            break;
        case 3: { // spend something else
            auto old = t.m_inputs[0].m_prevout;
            t.m_inputs[0].m_prevout.m_index = sym_u64_("other index");
            same = point_eq(old, t.m_inputs[0].m_prevout);
            break;
        }
        default: { // another key's program in the place of the owner's
            std::memcpy(&t.m_witness[0][1], pubs[1 - owner[0]].data(), 32);
            break;
        }
    }
    CHECKM(same == !va::check_tx(t).has_value(), "what was signed cannot be changed");
    secp256k1_context_destroy(ctx);
}
namespace {
    auto compact(uint64_t ni, uint64_t no) -> tx::compact_tx {
        tx::compact_tx c;
        c.m_id = s_hash("id");
        for(uint64_t i = 0; i < ni; i++)
            c.m_inputs.push_back(s_hash("input"));
        for(uint64_t i = 0; i < no; i++)
            c.m_uhs_outputs.push_back(s_hash("output"));
        return c;
    }
    auto compact_same(const tx::compact_tx& a, const tx::compact_tx& b) -> bool {
        if(a.m_inputs.size() != b.m_inputs.size() || a.m_uhs_outputs.size() != b.m_uhs_outputs.size())
            return false;
        bool r = heq(a.m_id, b.m_id);
        for(size_t i = 0; i < a.m_inputs.size(); i++)
            r = static_cast<int>(r) & static_cast<int>(heq(a.m_inputs[i], b.m_inputs[i]));
        for(size_t i = 0; i < a.m_uhs_outputs.size(); i++)
            r = static_cast<int>(r) & static_cast<int>(heq(a.m_uhs_outputs[i], b.m_uhs_outputs[i]));
        return r;
    }
    auto key(uint8_t k) -> cbdc::privkey_t {
        cbdc::privkey_t p;
        p.fill(k);
        return p;
    }
}
// Attestations by authorised and other keys, over this or another compact transaction, with any threshold.
ENTRY(c02_quorum) {
    auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
    auto c = compact(1, 1);
    auto d = compact(1, 1);
    std::unordered_set<cbdc::pubkey_t, cbdc::hashing::null> allowed;
    // Keys with distinct leading bytes; the first na are authorised.
    constexpr uint64_t nk = 3;
    cbdc::pubkey_t pub[nk];
    auto na = choose(nk + 1, "authorised");
    for(uint64_t k = 0; k < nk; k++) {
        pub[k] = cbdc::pubkey_from_privkey(key(static_cast<uint8_t>(k + 1)), ctx);
        if(k < na)
            allowed.insert(pub[k]);
    }
    auto n = choose(TIER > 0 ? 4 : 3, "attestations");
    bool all_good = true;
    std::set<uint64_t> used;
    for(uint64_t i = 0; i < n; i++) {
        auto k = choose(nk, "key");
        if(used.count(k) != 0)
            sym_end();
        used.insert(k);
        cbdc::transaction::sentinel_attestation a;
        switch(choose(3, "signature")) {
            case 0:
                a = c.sign(ctx, key(static_cast<uint8_t>(k + 1)));
                break;
            case 1: {
                a = d.sign(ctx, key(static_cast<uint8_t>(k + 1)));
                if(!compact_same(c, d))
                    all_good = false;
                break;
            }
            default: { // arbitrary bytes
                a.first = pub[k];
                sym_bytes(a.second.data(), 64, "signature");
                auto right = c.sign(ctx, key(static_cast<uint8_t>(k + 1)));
                unsigned char diff = 0;
                for(size_t b = 0; b < 64; b++)
                    diff = static_cast<unsigned char>(diff | (right.second[b] ^ a.second[b]));
                if(diff != 0)
                    all_good = false;
                break;
            }
        }
        if(k >= na)
            all_good = false;
        c.m_attestations.insert(a);
    }
    auto threshold = sym_u64_("threshold");
    auto got = va::check_attestations(c, allowed, threshold);
    CHECKM(got == (all_good && n >= threshold), "attested exactly when enough authorised sentinels attested to this transaction");
    sym_cover(got ? "attested" : "not attested");
    secp256k1_context_destroy(ctx);
}
// The same sentinel cannot count twice, whatever signatures it presents.
ENTRY(c02_distinct) {
    auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
    auto c = compact(1, 1);
    auto pub = cbdc::pubkey_from_privkey(key(1), ctx);
    std::unordered_set<cbdc::pubkey_t, cbdc::hashing::null> allowed{pub};
    for(int i = 0; i < 2; i++) {
        cbdc::transaction::sentinel_attestation a;
        a.first = pub;
        sym_bytes(a.second.data(), 64, "signature");
        c.m_attestations.insert(a);
    }
    CHECKM(!va::check_attestations(c, allowed, 2), "one key is one sentinel");
    CHECKM(va::check_attestations(c, allowed, 0) == va::check_attestations(c, allowed, 1), "every attestation counts and has to verify");
    sym_cover("checked");
    secp256k1_context_destroy(ctx);
}
// Any key bytes that are not a point, or are not authorised.
ENTRY(c02_keys) {
    auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
    auto c = compact(1, 1);
    cbdc::pubkey_t p{};
    sym_bytes(p.data() + 8, 24, "key");
    auto bad = flip("not a point");
    if(bad)
        p[0] = 0xff;
    else
        p[0] = 1;
    cbdc::transaction::sentinel_attestation a;
    a.first = p;
    auto m = c.hash();
    secp_model::sig(p.data(), m.data(), a.second.data());
    c.m_attestations.insert(a);
    cbdc::pubkey_t q{};
    sym_bytes(q.data() + 8, 24, "authorised key");
    q[0] = p[0];
    std::unordered_set<cbdc::pubkey_t, cbdc::hashing::null> allowed{q};
    auto same = std::memcmp(p.data(), q.data(), 32) == 0;
    auto got = va::check_attestations(c, allowed, 1);
    CHECKM(got == (same && !bad), "only authorised, valid keys attest");
    sym_cover(got ? "attested" : "refused");
    secp256k1_context_destroy(ctx);
}
// What is signed binds the identifier, the inputs and the outputs, in order, and nothing else.
ENTRY(c02_payload) {
    auto ctx = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
    auto n = TIER > 0 ? 4 : 3;
    auto c = compact(choose(n, "inputs"), choose(n, "outputs"));
    auto d = compact(choose(n, "inputs"), choose(n, "outputs"));
    auto h = c.hash();
    if(flip("attested"))
        c.m_attestations.insert(c.sign(ctx, key(1)));
    CHECKM(heq(h, c.hash()), "attestations are not part of what is signed");
    auto same = compact_same(c, d);
    CHECKM(heq(c.hash(), d.hash()) == same, "what is signed binds identifier, inputs and outputs");
    sym_cover(same ? "equal" : "different");
    secp256k1_context_destroy(ctx);
}
namespace {
    auto full(uint64_t ni, uint64_t no) -> tx::full_tx {
        tx::full_tx t;
        for(uint64_t i = 0; i < ni; i++) {
            tx::input in;
            in.m_prevout.m_tx_id = s_hash("prevout");
            in.m_prevout.m_index = sym_u64_("index");
            in.m_prevout_data.m_value = sym_u64_("in value");
            in.m_prevout_data.m_witness_program_commitment = s_hash("commitment");
            t.m_inputs.push_back(in);
        }
        for(uint64_t i = 0; i < no; i++)
            t.m_outputs.emplace_back(s_hash("payee"), sym_u64_("out value"));
        return t;
    }
    auto out_same(const tx::output& a, const tx::output& b) -> bool {
        return static_cast<int>(heq(a.m_witness_program_commitment, b.m_witness_program_commitment)) & static_cast<int>(a.m_value == b.m_value);
    }
    auto in_same(const tx::input& a, const tx::input& b) -> bool {
        return static_cast<int>(point_eq(a.m_prevout, b.m_prevout)) & static_cast<int>(out_same(a.m_prevout_data, b.m_prevout_data));
    }
    auto full_same(const tx::full_tx& a, const tx::full_tx& b) -> bool {
        if(a.m_inputs.size() != b.m_inputs.size() || a.m_outputs.size() != b.m_outputs.size())
            return false;
        bool r = true;
        for(size_t i = 0; i < a.m_inputs.size(); i++)
            r = static_cast<int>(r) & static_cast<int>(in_same(a.m_inputs[i], b.m_inputs[i]));
        for(size_t i = 0; i < a.m_outputs.size(); i++)
            r = static_cast<int>(r) & static_cast<int>(out_same(a.m_outputs[i], b.m_outputs[i]));
        return r;
    }
}
ENTRY(c03_txid) {
    auto n = TIER > 0 ? 4 : 3;
    auto a = full(choose(n, "inputs"), choose(n, "outputs"));
    auto b = full(choose(n, "inputs"), choose(n, "outputs"));
    auto ia = tx::tx_id(a);
    auto nw = choose(2, "witnesses");
    for(uint64_t i = 0; i < nw; i++) {
        witness_bytes w(3);
        sym_bytes(w.data(), 3, "witness");
        a.m_witness.push_back(w);
    }
    CHECKM(heq(ia, tx::tx_id(a)), "witnesses do not affect the identifier");
    auto same = full_same(a, b);
    CHECKM(heq(ia, tx::tx_id(b)) == same, "the identifier binds the inputs and outputs");
    sym_cover(same ? "equal" : "different");
}
// A transaction's outputs are what their spenders present.
ENTRY(c03_compact) {
    auto n = TIER > 0 ? 4 : 3;
    auto t = full(choose(n, "inputs"), choose(n, "outputs"));
    tx::compact_tx c(t);
    auto id0 = tx::tx_id(t);
    CHECKM(heq(c.m_id, id0), "compaction keeps the identifier");
    CHECKM(c.m_attestations.empty(), "compaction adds no attestation");
    CHECKM(c.m_inputs.size() == t.m_inputs.size() && c.m_uhs_outputs.size() == t.m_outputs.size(), "compaction keeps every input and output");
    for(size_t i = 0; i < t.m_outputs.size(); i++) {
        auto in = tx::input_from_output(t, i);
        CHECK(in.has_value());
        CHECKM(point_eq(in->m_prevout, tx::out_point(id0, i)) && out_same(in->m_prevout_data, t.m_outputs[i]), "the input names its output");
        auto in2 = tx::input_from_output(t, i, id0);
        CHECK(in2.has_value() && in_same(*in, *in2));
        CHECKM(heq(in->hash(), c.m_uhs_outputs[i]), "the identifier created is the one its spender presents");
        tx::full_tx spend;
        spend.m_inputs.push_back(*in);
        spend.m_outputs.push_back(t.m_outputs[0]);
        tx::compact_tx sc(spend);
        CHECKM(heq(sc.m_inputs[0], c.m_uhs_outputs[i]), "the spender's compact transaction presents it");
        for(size_t j = 0; j < i; j++)
            CHECKM(!heq(c.m_uhs_outputs[i], c.m_uhs_outputs[j]), "outputs of one transaction are distinct");
    }
    CHECKM(!tx::input_from_output(t, t.m_outputs.size()).has_value(), "no input from an output that does not exist");
    CHECKM(!tx::input_from_output(t, ~uint64_t{0}, id0).has_value(), "no input from an output that does not exist");
    for(size_t i = 0; i < t.m_inputs.size(); i++)
        CHECKM(heq(c.m_inputs[i], t.m_inputs[i].hash()), "compaction keeps the inputs in order");
    sym_cover("compacted");
}
ENTRY(c03_uhs) {
    auto i = sym_u64_("index"), j = sym_u64_("index");
    auto a = s_hash("id"), b = s_hash("id");
    tx::output x(s_hash("payee"), sym_u64_("value")), y(s_hash("payee"), sym_u64_("value"));
    auto same = static_cast<int>(i == j) & static_cast<int>(heq(a, b)) & static_cast<int>(out_same(x, y));
    CHECKM(heq(tx::uhs_id_from_output(a, i, x), tx::uhs_id_from_output(b, j, y)) == (same != 0), "an identifier binds transaction, index and output");
    tx::input p, q;
    p.m_prevout = tx::out_point(a, i);
    q.m_prevout = tx::out_point(b, j);
    p.m_prevout_data = x;
    q.m_prevout_data = y;
    CHECKM(heq(p.hash(), tx::uhs_id_from_output(a, i, x)), "an input presents the identifier of its output");
    CHECKM(heq(p.hash(), q.hash()) == (same != 0), "inputs are equal exactly when their identifiers are");
    CHECKM((p == q) == (same != 0) && (p != q) == (same == 0), "input equality");
    sym_cover(same != 0 ? "equal" : "different");
}
