// C09: the two-phase sentinel.
#include "c09.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/sentinel_2pc/controller.hpp"
using namespace vf;
namespace co = cbdc::coordinator;
namespace {
    struct asked {
        const cbdc::network::connection_manager* net;
        uint64_t id;
        tx::compact_tx t;
    };
    struct client_call {
        uint64_t id;
        size_t peer;
        tx::full_tx t;
        bool valid;
        tx::compact_tx c;
        int answers{0};
        int forwarded{0};
        int attested{0};
        bool refused{false};
        int verdict{-1}; // of the coordinator: 0 false, 1 true, 2 none
        se::execute_response resp{};
        bool null_resp{false};
    };
    struct world {
        cbdc::config::options opts;
        std::unique_ptr<cbdc::sentinel_2pc::controller> c;
        peers ps;
        std::vector<asked> open;
        std::vector<client_call> calls;
        size_t threshold;
        int coord_losses{0};
        netstub::port* server{nullptr};
        world(size_t n, size_t t, unsigned self = 0) : threshold(t) {
            vf_any_random = true;
            opts.m_twophase_mode = true;
            opts.m_attestation_threshold = t;
            for(unsigned i = 0; i < n; i++) {
                opts.m_sentinel_endpoints.push_back(endpoint(10 + i));
                opts.m_sentinel_private_keys[i] = key(static_cast<uint8_t>(50 + i));
                opts.m_sentinel_public_keys.insert(cbdc::pubkey_from_privkey(key(static_cast<uint8_t>(50 + i)), ctx()));
            }
            opts.m_coordinator_endpoints = {{endpoint(90)}, {endpoint(91)}};
            c = std::make_unique<cbdc::sentinel_2pc::controller>(self, opts, quiet_log());
            CHECKM(c->init(), "a sentinel with a valid configuration starts");
            for(unsigned i = 0; i < n; i++) {
                auto* p = netstub::to(endpoint(10 + i));
                if(i == self)
                    CHECKM(p == nullptr, "a sentinel does not connect to itself");
                else {
                    CHECKM(p != nullptr, "a sentinel connects to its peers");
                    ps.keys[p->m_net] = static_cast<uint8_t>(50 + i);
                }
            }
            netstub::hook().on_send = [this](const netstub::sent& s) {
                sent(s);
            };
        }
        ~world() {
            netstub::hook().on_send = nullptr;
            vf_any_random = false;
        }
        auto call_of(const tx::compact_tx& t) -> client_call* {
            for(auto& k : calls)
                if(same(k.c, t))
                    return &k;
            return nullptr;
        }
        void sent(const netstub::sent& s) {
            if(ps.taken(s))
                return;
            if(netstub::port_of(s.m_net).m_server) {
                answered(*s.m_pkt, s.m_peer);
                return;
            }
            netstub::hook().reachable = true;
            if(coord_losses > 0 && choose(2, "coordinator unreachable") == 1) {
                coord_losses--;
                netstub::hook().reachable = false;
                sym_cover("coordinator unreachable");
                return;
            }
            auto q = cbdc::from_buffer<cbdc::rpc::request<co::rpc::request>>(*s.m_pkt);
            CHECKM(q.has_value(), "only well-formed requests are sent");
            auto* k = call_of(q->m_payload);
            CHECKM(k != nullptr, "only transactions of clients are passed on, unchanged");
            CHECKM(k->valid, "only valid transactions are passed on");
            k->forwarded++;
            CHECKM(k->forwarded == 1, "a transaction is passed on once");
            CHECKM(!k->refused, "a transaction that a peer refused is not passed on");
            CHECKM(k->answers == 0, "a transaction is passed on before its client is answered");
            CHECKM(q->m_payload.m_attestations.size() == threshold, "with the required number of attestations");
            for(const auto& a : q->m_payload.m_attestations)
                CHECKM(q->m_payload.verify(ctx(), a), "each of them valid for it");
            CHECKM(static_cast<size_t>(k->attested) + (threshold > 0 ? 1 : 0) == threshold, "as gathered");
            open.push_back({s.m_net, q->m_header.m_request_id, q->m_payload});
        }
        void answered(cbdc::buffer b, size_t peer) {
            auto r = cbdc::from_buffer<cbdc::rpc::response<se::response>>(b);
            CHECKM(r.has_value(), "answers are well formed");
            for(auto& k : calls)
                if(k.id == r->m_header.m_request_id && k.peer == peer) {
                    k.answers++;
                    CHECKM(k.answers == 1, "a request is answered once");
                    if(r->m_payload.has_value()) {
                        CHECKM(std::holds_alternative<se::execute_response>(*r->m_payload), "with an answer of its kind");
                        k.resp = std::get<se::execute_response>(*r->m_payload);
                    } else
                        k.null_resp = true;
                    return;
                }
            CHECKM(false, "only requests are answered");
        }
        void submit(const tx::full_tx& t) {
            client_call k;
            k.id = 7 + calls.size() * 5;
            k.peer = calls.size();
            k.t = t;
            k.c = tx::compact_tx(t);
            k.valid = !tx::validation::check_tx(t).has_value();
            calls.push_back(k);
            cbdc::rpc::request<se::request> q{{k.id}, se::execute_request{t}};
            auto r = netstub::arrive(*netstub::to(opts.m_sentinel_endpoints[0], true), cbdc::make_buffer(q), k.peer);
            if(r.has_value())
                answered(*r, k.peer);
        }
        // Something happens: a peer or the coordinator answers.
        bool step() {
            auto n = ps.open.size() + open.size();
            if(n == 0)
                return false;
            auto i = choose(n, "who answers");
            if(i < ps.open.size()) {
                auto attest = choose(2, "attests") == 1;
                auto* k = call_of(tx::compact_tx(ps.open[i].t));
                CHECKM(k != nullptr, "peers are asked about transactions of clients");
                CHECKM(k->valid, "and only about valid ones");
                if(attest)
                    k->attested++;
                else
                    k->refused = true;
                ps.answer(i, attest);
            } else {
                auto a = open[i - ps.open.size()];
                open.erase(open.begin() + static_cast<long>(i - ps.open.size()));
                auto* k = call_of(a.t);
                auto v = choose(3, "verdict");
                k->verdict = static_cast<int>(v);
                cbdc::rpc::response<co::rpc::response> r;
                r.m_header.m_request_id = a.id;
                if(v < 2)
                    r.m_payload = v == 1;
                auto b = cbdc::make_buffer(r);
                (void)netstub::arrive(netstub::port_of(a.net), b);
                if(choose(2, "answer repeated") == 1)
                    (void)netstub::arrive(netstub::port_of(a.net), b);
            }
            return true;
        }
        void check() {
            for(auto& k : calls) {
                CHECKM(k.answers == 1, "every request is answered once");
                if(!k.valid) {
                    CHECKM(!k.null_resp && k.resp.m_tx_status == se::tx_status::static_invalid, "an invalid transaction is reported invalid");
                    CHECKM(k.resp.m_tx_error == tx::validation::check_tx(k.t), "with its error");
                    CHECKM(k.forwarded == 0, "and goes no further");
                    sym_cover("invalid");
                } else if(k.refused || k.verdict == 2) {
                    CHECKM(k.null_resp, "without a verdict the outcome is not claimed");
                    sym_cover("no verdict");
                } else {
                    CHECKM(k.verdict >= 0, "a valid transaction that was attested reaches the coordinator");
                    CHECKM(!k.null_resp && !k.resp.m_tx_error.has_value(), "a verdict is reported");
                    CHECKM(k.resp.m_tx_status == (k.verdict == 1 ? se::tx_status::confirmed : se::tx_status::state_invalid), "the coordinator's verdict is reported");
                    sym_cover(k.verdict == 1 ? "confirmed" : "rejected");
                }
            }
        }
    };
}
ENTRY(c09_execute) {
    auto n = 1 + choose(TIER ? 4 : 3, "sentinels");
    auto t = choose(n + 1, "threshold");
    world w(n, t);
    w.ps.losses = TIER ? 2 : 1;
    w.coord_losses = TIER ? 2 : 1;
    w.submit(some_tx(1));
    while(w.step()) {}
    w.check();
}
// Two clients at a time: each gets its own answer.
ENTRY(c09_two) {
    auto t = choose(TIER ? 4 : 3, "threshold");
    world w(3, t);
    w.ps.losses = 1;
    w.coord_losses = 1;
    w.submit(some_tx(1));
    bool early = choose(2, "a peer answers first") == 1;
    if(early)
        (void)w.step();
    w.submit(spend(2, 5, flip("balanced") ? 5 : 6, true));
    while(w.step()) {}
    w.check();
}
// Requests from peers: attested exactly if valid; malformed requests are not answered.
ENTRY(c09_validate) {
    world w(2, 1 + choose(2, "threshold"));
    auto t = some_tx(3);
    auto valid = !tx::validation::check_tx(t).has_value();
    auto& srv = *netstub::to(w.opts.m_sentinel_endpoints[0], true);
    std::vector<cbdc::buffer> out;
    netstub::hook().on_send = [&](const netstub::sent& s) {
        CHECKM(s.m_net == srv.m_net && s.m_peer == 4, "the asker is answered and nobody else is told");
        out.push_back(*s.m_pkt);
    };
    auto req = cbdc::make_buffer(cbdc::rpc::request<se::request>{{11}, se::validate_request{t}});
    auto r = netstub::arrive(srv, req, 4);
    if(r.has_value())
        out.push_back(*r);
    CHECKM(out.size() == 1, "a request is answered once");
    auto a = cbdc::from_buffer<cbdc::rpc::response<se::response>>(out[0]);
    CHECKM(a.has_value() && a->m_header.m_request_id == 11, "the answer names the request");
    CHECKM(a->m_payload.has_value() == valid, "a sentinel attests exactly to valid transactions");
    if(valid) {
        CHECKM(std::holds_alternative<se::validate_response>(*a->m_payload), "with an attestation");
        auto att = std::get<se::validate_response>(*a->m_payload);
        CHECKM(tx::compact_tx(t).verify(ctx(), att), "that is valid for the transaction");
        CHECKM(att.first == cbdc::pubkey_from_privkey(key(50), ctx()), "and made with its own key");
        sym_cover("attested");
    } else
        sym_cover("not attested");
    // cut off anywhere, it is no request
    cbdc::buffer cut;
    cut.append(req.data(), sym_choice_(req.size(), "cut"));
    out.clear();
    r = netstub::arrive(srv, cut, 4);
    CHECKM(!r.has_value() && out.empty(), "a malformed request is not answered");
}
