// Sentinels of either architecture between clients, peer sentinels and what lies behind them.
#include "common.hpp"
#include "netstub.hpp"
#include "uhs/sentinel/client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/transaction/transaction.hpp"
#include "uhs/transaction/validation.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <secp256k1.h>
#include <secp256k1_schnorrsig.h>
#ifdef VERIF_NATIVE
static bool vf_any_random;
static int vf_random_left;
#else
extern bool vf_any_random;
extern int vf_random_left;
#endif
namespace vf {
    namespace tx = cbdc::transaction;
    namespace se = cbdc::sentinel;
    inline auto key(uint8_t k) -> cbdc::privkey_t {
        cbdc::privkey_t r{};
        r.fill(k);
        return r;
    }
    inline auto ctx() -> secp256k1_context* {
        static auto* c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
        return c;
    }
    // A transaction with one input and one output that is well formed except possibly for its values and its signature.
    inline auto spend(uint8_t n, uint64_t in, uint64_t out, bool good_sig, size_t inputs = 1) -> tx::full_tx {
        tx::full_tx t;
        auto pub = cbdc::pubkey_from_privkey(key(40), ctx());
        auto commit = tx::validation::get_p2pk_witness_commitment(pub);
        for(size_t k = 0; k < inputs; k++) {
            tx::input i;
            i.m_prevout.m_tx_id = id(n, n);
            i.m_prevout.m_index = k;
            i.m_prevout_data.m_value = in;
            i.m_prevout_data.m_witness_program_commitment = commit;
            t.m_inputs.push_back(i);
        }
        t.m_outputs.push_back(tx::output{commit, out});
        auto h = tx::tx_id(t);
        secp256k1_keypair kp{};
        (void)secp256k1_keypair_create(ctx(), &kp, key(40).data());
        unsigned char sig[64];
        (void)secp256k1_schnorrsig_sign(ctx(), sig, h.data(), &kp, nullptr, nullptr);
        if(!good_sig)
            sig[5] = static_cast<unsigned char>(sig[5] ^ 1);
        cbdc::witness_t w(1 + 32 + 64, std::byte{});
        std::memcpy(w.data() + 1, pub.data(), 32);
        std::memcpy(w.data() + 33, sig, 64);
        t.m_witness.assign(inputs, w);
        return t;
    }
    // Nondeterministic choice among a valid transaction and invalid ones.
    inline auto some_tx(uint8_t n) -> tx::full_tx {
        auto in = 1 + (sym_u64_("value in") & 3), out = sym_u64_("value out") & 3;
        return spend(n, in, out, flip("signed"));
    }
    inline auto endpoint(unsigned k) -> cbdc::network::endpoint_t {
        return {"h", static_cast<unsigned short>(k)};
    }
    inline auto same(const tx::compact_tx& a, const tx::compact_tx& b) -> bool {
        auto x = a, y = b;
        x.m_attestations.clear();
        y.m_attestations.clear();
        return cbdc::make_buffer(x) == cbdc::make_buffer(y);
    }
    // Peer sentinels: answer validation requests in any order, with their attestation or a refusal.
    struct peers {
        struct ask {
            const cbdc::network::connection_manager* net;
            uint64_t id;
            tx::full_tx t;
            uint8_t key;
        };
        std::vector<ask> open;
        std::map<const cbdc::network::connection_manager*, uint8_t> keys;
        int losses{0};
        bool taken(const netstub::sent& s) {
            auto k = keys.find(s.m_net);
            if(k == keys.end())
                return false;
            netstub::hook().reachable = true;
            if(losses > 0 && choose(2, "peer unreachable") == 1) {
                losses--;
                netstub::hook().reachable = false;
                sym_cover("peer unreachable");
                return true;
            }
            auto q = cbdc::from_buffer<cbdc::rpc::request<se::request>>(*s.m_pkt);
            CHECKM(q.has_value() && std::holds_alternative<se::validate_request>(q->m_payload), "peers are asked to validate");
            open.push_back({s.m_net, q->m_header.m_request_id, std::get<se::validate_request>(q->m_payload), k->second});
            return true;
        }
        // Answers request i; returns whether it attested.
        bool answer(size_t i, bool attest, tx::compact_tx* covered = nullptr) {
            auto a = open[i];
            open.erase(open.begin() + static_cast<long>(i));
            cbdc::rpc::response<se::response> r;
            r.m_header.m_request_id = a.id;
            if(attest) {
                tx::compact_tx c(a.t);
                r.m_payload = se::response{se::validate_response{c.sign(ctx(), key(a.key))}};
                if(covered != nullptr)
                    *covered = c;
            } else
                sym_cover("peer refuses");
            (void)netstub::arrive(netstub::port_of(a.net), cbdc::make_buffer(r));
            return attest;
        }
    };
}
