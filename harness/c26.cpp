// C26: remote calls.
#include "common.hpp"
#include "netstub.hpp"
#include "parsec/agent/client.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/runtime_locking_shard/client.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "uhs/sentinel/client.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/locking_shard/client.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/tcp_client.hpp"
#include "util/rpc/tcp_server.hpp"
#include "util/serialization/format.hpp"
#include <thread>
using namespace vf;
namespace {
    using answer_t = std::optional<uint64_t>;
    using tcp = cbdc::rpc::tcp_client<uint64_t, uint64_t>;
    const cbdc::network::endpoint_t ep{"s", 1};
    struct asked {
        uint64_t id, payload;
    };
    auto read_request(const cbdc::buffer& b) -> asked {
        cbdc::buffer c = b;
        auto q = cbdc::from_buffer<cbdc::rpc::request<uint64_t>>(c);
        CHECKM(q.has_value() && b.size() == 16, "a request is well formed");
        return {q->m_header.m_request_id, q->m_payload};
    }
    template<typename T>
    auto answer(uint64_t id, std::optional<T> v) -> cbdc::buffer {
        return cbdc::make_buffer<cbdc::rpc::response<T>>({{id}, std::move(v)});
    }
    auto cut(const cbdc::buffer& b, size_t n) -> cbdc::buffer {
        cbdc::buffer c;
        c.append(b.data(), n);
        return c;
    }
}
// One thread: calls that are sent or not, answers in any order, repeated, unknown, without content and cut short.
ENTRY(c26_async) {
    struct call {
        uint64_t id{0}, payload{0};
        bool sent{false}, answered{false};
        int seen{0};
        answer_t got;
    };
    std::vector<std::unique_ptr<call>> calls;
    std::vector<asked> out;
    netstub::hook().on_send = [&](const netstub::sent& s) {
        out.push_back(read_request(*s.m_pkt));
    };
    {
        tcp c({ep});
        CHECK(c.init());
        auto* port = netstub::to(ep);
        CHECKM(port != nullptr && port->m_handler, "the client listens for answers");
        int const n = TIER ? 5 : 4;
        bool garbled = false;
        for(int i = 0; i < n; i++) {
            if(choose(2, "step") == 0) {
                calls.push_back(std::make_unique<call>());
                auto* k = calls.back().get();
                k->payload = sym_u64_("request");
                netstub::hook().reachable = choose(2, "reachable") == 1;
                k->sent = c.call(k->payload, [k](answer_t a) {
                    k->seen++;
                    k->got = a;
                });
                CHECKM(k->sent == netstub::hook().reachable, "a call tells whether it was sent");
                CHECKM(out.size() == calls.size(), "each call is sent once");
                k->id = out.back().id;
                CHECKM(out.back().payload == k->payload, "with its content");
                for(auto& o : calls)
                    CHECKM(o.get() == k || o->id != k->id, "no two calls share an identifier");
                if(!k->sent)
                    sym_cover("not sent");
            } else {
                auto id = sym_u64_("answered");
                answer_t v;
                if(choose(2, "content") == 1)
                    v = sym_u64_("content");
                auto pkt = answer<uint64_t>(id, v);
                bool whole = true;
                if(!garbled && choose(3, "packet") == 0) { // one on each path
                    pkt = cut(pkt, choose(pkt.size(), "cut"));
                    whole = false;
                    garbled = true;
                    sym_cover("cut short");
                }
                (void)netstub::arrive(*port, std::move(pkt));
                for(auto& k : calls)
                    if(whole && k->sent && !k->answered && k->id == id) {
                        k->answered = true;
                        CHECKM(k->seen == 1, "an answer reaches its call");
                        CHECKM(k->got.has_value() == v.has_value(), "with its content");
                        CHECKM(!v.has_value() || *k->got == *v, "with its content");
                        sym_cover(v.has_value() ? "answered" : "failed");
                    }
            }
            for(auto& k : calls)
                CHECKM(k->seen == (k->answered ? 1 : 0), "a call is answered once, by its own answer");
        }
    }
    netstub::hook().on_send = nullptr;
    for(auto& k : calls)
        CHECKM(k->seen <= 1 && (k->seen == 1) >= k->answered, "a call is answered at most once");
}
// Two callers that wait, and the answers of the network in any order and number, under every schedule.
ENTRY(c26_sync) {
    tcp c({ep});
    CHECK(c.init());
    auto* port = netstub::to(ep);
    std::mutex m;
    std::condition_variable cv;
    std::vector<asked> out;
    netstub::hook().on_send = [&](const netstub::sent& s) {
        {
            std::unique_lock l(m);
            out.push_back(read_request(*s.m_pkt));
        }
        cv.notify_all();
    };
    auto pa = sym_u64_("a"), pb = sym_u64_("b");
    ASSUME(pa != pb);
    auto va = sym_u64_("answer to a"), vb = sym_u64_("answer to b"), bad = sym_u64_("unknown id");
    bool limited = choose(2, "timeout") == 1, fails = choose(2, "the server fails") == 1, twice = choose(2, "twice") == 1;
    answer_t ra, rb;
    std::thread ta([&] {
        ra = c.call(pa, std::chrono::milliseconds(limited ? 10 : 0));
    });
    std::thread tb([&] {
        rb = c.call(pb);
    });
    {
        std::unique_lock l(m);
        cv.wait(l, [&] {
            return out.size() == 2;
        });
    }
    CHECKM(out[0].id != out[1].id, "no two calls share an identifier");
    ASSUME(bad != out[0].id && bad != out[1].id);
    (void)netstub::arrive(*port, answer<uint64_t>(bad, va ^ vb));
    auto first = choose(2, "first");
    for(size_t i = 0; i < 2; i++) {
        auto& q = out[i ^ first];
        bool is_a = q.payload == pa;
        answer_t v = is_a ? answer_t(fails ? answer_t() : answer_t(va)) : answer_t(vb);
        (void)netstub::arrive(*port, answer<uint64_t>(q.id, v));
        if(twice)
            (void)netstub::arrive(*port, answer<uint64_t>(q.id, answer_t(bad)));
    }
    ta.join();
    tb.join();
    CHECKM(rb.has_value() && *rb == vb, "a call without a limit returns its own answer");
    CHECKM(!ra.has_value() || (!fails && *ra == va), "no call returns another answer");
    CHECKM(limited || ra.has_value() == !fails, "a call without a limit returns its own answer");
    if(!fails && !ra.has_value())
        sym_cover("timed out");
    if(fails)
        sym_cover("failed");
    if(ra.has_value())
        sym_cover("answered");
    netstub::hook().on_send = nullptr;
}
// Calls that cannot be sent, and callers that wait while the client is destroyed.
ENTRY(c26_closed) {
    auto c = std::make_unique<tcp>(std::vector<cbdc::network::endpoint_t>{ep});
    CHECK(c->init());
    netstub::hook().reachable = false;
    CHECKM(!c->call(sym_u64_("request")).has_value(), "a call that cannot be sent fails at once");
    int seen = 0;
    CHECKM(!c->call(sym_u64_("request"), [&](answer_t) {
        seen++;
    }),
           "a call that cannot be sent fails at once");
    netstub::hook().reachable = true;
    std::mutex m;
    std::condition_variable cv;
    uint64_t sent = 0;
    netstub::hook().on_send = [&](const netstub::sent&) {
        {
            std::unique_lock l(m);
            sent++;
        }
        cv.notify_all();
    };
    answer_t r = 1;
    auto* raw = c.get();
    std::thread t([&] {
        r = raw->call(7);
    });
    {
        std::unique_lock l(m);
        cv.wait(l, [&] {
            return sent == 1;
        });
    }
    c.reset();
    t.join();
    CHECKM(!r.has_value(), "a caller that waits is told when the client goes away");
    CHECKM(seen == 0, "a call that was not sent is not answered");
    sym_cover("closed");
    netstub::hook().on_send = nullptr;
}
namespace {
    auto sym_packet(size_t n) -> cbdc::buffer {
        cbdc::buffer b;
        b.extend(n);
        if(n > 0)
            sym_bytes(b.data(), n, "packet");
        return b;
    }
    void check_answer(const cbdc::buffer& got, const cbdc::buffer& req, bool some, uint64_t v) {
        CHECKM(got.size() == (some ? 17U : 9U), "the answer is well formed");
        bool same = true;
        for(size_t i = 0; i < 8; i++)
            same = same & (std::memcmp(got.data_at(i), req.data_at(i), 1) == 0);
        CHECKM(same, "the answer carries the identifier of the request");
        auto flag = std::to_integer<int>(*static_cast<const std::byte*>(got.data_at(8)));
        CHECKM(flag == (some ? 1 : 0), "the answer tells whether there is a result");
        if(some) {
            uint64_t x = 0;
            std::memcpy(&x, got.data_at(9), 8);
            CHECKM(x == v, "the answer is the result of the handler");
        }
    }
}
// A server that answers at once: each well-formed request once, garbage never.
ENTRY(c26_blocking) {
    cbdc::rpc::blocking_tcp_server<uint64_t, uint64_t> srv(ep);
    bool registered = choose(3, "handler") != 0;
    int calls = 0;
    uint64_t seen = 0, v = 0;
    bool some = false;
    if(registered)
        srv.register_handler_callback([&](uint64_t q) -> answer_t {
            calls++;
            seen = q;
            v = sym_u64_("result");
            some = choose(2, "some") == 1;
            return some ? answer_t(v) : answer_t();
        });
    CHECK(srv.init());
    auto* port = netstub::to(ep, true);
    CHECK(port != nullptr);
    for(int i = 0; i < 2; i++) {
        auto n = choose(17, "size");
        auto b = sym_packet(n);
        calls = 0;
        some = false;
        auto r = netstub::arrive(*port, b, sym_u64_("peer"));
        CHECKM(netstub::log().empty(), "the answer is returned, not sent");
        if(n < 16) {
            CHECKM(calls == 0 && !r.has_value(), "a malformed request is ignored");
            sym_cover("malformed");
            continue;
        }
        CHECKM(calls == (registered ? 1 : 0), "a request is handled once");
        CHECKM(r.has_value(), "a request is answered");
        if(registered) {
            uint64_t p = 0;
            std::memcpy(&p, b.data_at(8), 8);
            CHECKM(p == seen, "the handler sees what was asked");
        }
        check_answer(*r, b, some, v);
        sym_cover(some ? "answered" : "failed");
    }
}
// A server whose handlers answer later, in any order.
template<typename Server, bool Raw>
void async_server() {
    netstub::log().clear();
    using cb_t = typename Server::response_callback_type;
    struct req {
        cbdc::buffer b;
        uint64_t peer{0};
        cb_t cb;
        bool live{false};
    };
    std::vector<std::unique_ptr<req>> reqs;
    Server srv(ep);
    int calls = 0;
    bool ok = true;
    srv.register_handler_callback([&](auto q, cb_t cb) {
        calls++;
        if constexpr(Raw) {
            CHECKM(q.size() >= 8, "the handler sees a request with a header");
        } else {
            uint64_t p = 0;
            std::memcpy(&p, reqs.back()->b.data_at(8), 8);
            CHECKM(p == q, "the handler sees what was asked");
        }
        ok = choose(3, "accepted") != 0;
        if(ok)
            reqs.back()->cb = std::move(cb);
        return ok;
    });
    CHECK(srv.init());
    auto* port = netstub::to(ep, true);
    size_t sent = 0;
    int const n = TIER ? 4 : 3;
    for(int i = 0; i < n; i++) {
        if(reqs.empty() || choose(2, "step") == 0) {
            reqs.push_back(std::make_unique<req>());
            auto& r = *reqs.back();
            // every size was tried on the blocking server; here whole requests and some that are too short
            r.b = sym_packet(choose(3, "packet") == 0 ? (Raw ? choose(8, "size") : choose(16, "size")) : 16);
            r.peer = sym_u64_("peer");
            bool good = r.b.size() == 16;
            calls = 0;
            auto got = netstub::arrive(*port, r.b, r.peer);
            CHECKM(calls == (good ? 1 : 0), "well-formed requests, and only those, are handled once");
            if(good && !ok) {
                CHECKM(got.has_value(), "a request that cannot be handled is answered");
                check_answer(*got, r.b, false, 0);
                sym_cover("not accepted");
            } else {
                CHECKM(!got.has_value(), "no answer yet");
            }
            r.live = good && ok;
        } else {
            auto& r = *reqs[choose(reqs.size(), "which")];
            if(!r.live)
                sym_end();
            r.live = false;
            bool some = choose(2, "some") == 1;
            auto v = sym_u64_("result");
            if constexpr(Raw) {
                if(some)
                    r.cb(buf_u64(v));
                else
                    r.cb(std::nullopt);
            } else {
                r.cb(some ? answer_t(v) : answer_t());
            }
            sent++;
            CHECKM(netstub::log().size() == sent, "an answer is sent once");
            auto& s = netstub::log().back();
            CHECKM(!s.m_all && s.m_peer == r.peer, "to who asked");
            if(Raw && some) {
                uint64_t x = 0;
                CHECK(s.m_pkt->size() == 8);
                std::memcpy(&x, s.m_pkt->data(), 8);
                CHECKM(x == v, "as it is");
            } else {
                check_answer(*s.m_pkt, r.b, some, v);
            }
            sym_cover(some ? "answered" : "failed");
        }
        CHECKM(netstub::log().size() == sent, "nothing else is sent");
    }
}
ENTRY(c26_later) {
    async_server<cbdc::rpc::async_tcp_server<uint64_t, uint64_t>, false>();
}
ENTRY(c26_raw) {
    async_server<cbdc::rpc::tcp_server<cbdc::rpc::raw_async_server>, true>();
}
// ---- the clients of the services
namespace {
    namespace rls = cbdc::parsec::runtime_locking_shard;
    using rls_t = rls::rpc::response;
    auto sent_id() -> uint64_t {
        auto b = *netstub::log().back().m_pkt;
        auto h = cbdc::from_buffer<cbdc::rpc::header>(b);
        CHECK(h.has_value());
        return h->m_request_id;
    }
    auto rls_answer(size_t kind, uint64_t v) -> std::optional<rls_t> {
        using try_t = rls::interface::try_lock_return_type;
        using tickets_t = rls::interface::get_tickets_return_type;
        switch(kind) {
            case 0:
                return rls_t(try_t(buf_u64(v)));
            case 1:
                return rls_t(try_t(rls::shard_error{rls::error_code::wounded, std::nullopt}));
            case 2:
                return rls_t(rls::interface::prepare_return_type());
            case 3:
                return rls_t(rls::interface::prepare_return_type(rls::shard_error{rls::error_code::not_prepared, std::nullopt}));
            case 4:
                return rls_t(tickets_t(rls::interface::get_tickets_success_type{{v, rls::ticket_state::prepared}}));
            case 5:
                return rls_t(tickets_t(rls::error_code::unknown_ticket));
            default:
                return std::nullopt;
        }
    }
}
ENTRY(c26_shard_client) {
    rls::rpc::client c({ep});
    CHECK(c.init());
    auto* port = netstub::to(ep);
    auto what = sym_choice_(6, "call"), kind = sym_choice_(7, "answer");
    auto v = sym_u64_("number"), t = sym_u64_("ticket"), br = sym_u64_("broker");
    netstub::hook().reachable = choose(4, "reachable") != 0;
    int seen = 0;
    bool failed = false, content = false;
    auto plain = [&](const std::optional<rls::shard_error>& r) {
        seen++;
        failed = r.has_value() && r->m_error_code == rls::error_code::internal_error;
        content = kind == 2 ? !r.has_value() : kind == 3 && r.has_value() && r->m_error_code == rls::error_code::not_prepared;
    };
    bool ok = false;
    switch(what) {
        case 0:
            ok = c.try_lock(t, br, buf_u64(v), rls::lock_type::write, flip("first"), [&](rls::interface::try_lock_return_type r) {
                seen++;
                if(std::holds_alternative<rls::shard_error>(r)) {
                    auto e = std::get<rls::shard_error>(r).m_error_code;
                    failed = e == rls::error_code::internal_error;
                    content = kind == 1 && e == rls::error_code::wounded;
                } else {
                    content = kind == 0 && std::get<cbdc::buffer>(r) == buf_u64(v);
                }
            });
            break;
        case 1:
            ok = c.prepare(t, br, {}, plain);
            break;
        case 2:
            ok = c.commit(t, plain);
            break;
        case 3:
            ok = c.rollback(t, plain);
            break;
        case 4:
            ok = c.finish(t, plain);
            break;
        default:
            ok = c.get_tickets(br, [&](rls::interface::get_tickets_return_type r) {
                seen++;
                if(std::holds_alternative<rls::error_code>(r)) {
                    auto e = std::get<rls::error_code>(r);
                    failed = e == rls::error_code::internal_error;
                    content = kind == 5 && e == rls::error_code::unknown_ticket;
                } else {
                    auto& m = std::get<0>(r);
                    content = kind == 4 && m.size() == 1 && m.begin()->first == v && m.begin()->second == rls::ticket_state::prepared;
                }
            });
    }
    CHECKM(ok == netstub::hook().reachable, "a call tells whether it was sent");
    auto id = sent_id();
    (void)netstub::arrive(*port, answer<rls_t>(id, rls_answer(kind, v)));
    CHECKM(seen == (ok ? 1 : 0), "a call is answered once");
    bool mine = kind / 2 == (what == 0 ? 0U : what == 5 ? 2U : 1U);
    if(ok && mine) {
        CHECKM(content, "with what the shard answered");
        sym_cover("answered");
    }
    if(ok && !mine) {
        CHECKM(failed, "an answer without content or to another question is a failure");
        sym_cover(kind == 6 ? "no content" : "another kind");
    }
    (void)netstub::arrive(*port, answer<rls_t>(id, rls_answer(kind, v)));
    CHECKM(seen == (ok ? 1 : 0), "a call is answered once");
}
ENTRY(c26_agent_client) {
    namespace ag = cbdc::parsec::agent;
    ag::rpc::client c({ep});
    CHECK(c.init());
    auto* port = netstub::to(ep);
    auto kind = sym_choice_(3, "answer");
    int seen = 0;
    bool right = false, error = false;
    auto k = sym_u64_("key");
    auto ok = c.exec(buf_u64(1), buf_u64(2), flip("readonly"), [&](ag::interface::exec_return_type r) {
        seen++;
        if(std::holds_alternative<ag::interface::error_code>(r)) {
            error = true;
            right = kind == 1 && std::get<1>(r) == ag::interface::error_code::commit_error;
        } else {
            auto& m = std::get<0>(r);
            right = kind == 0 && m.size() == 1 && m.begin()->first == buf_u64(k) && m.begin()->second == buf_u64(3);
        }
    });
    CHECK(ok);
    std::optional<ag::rpc::response> a;
    if(kind == 0)
        a = ag::rpc::response(ag::return_type{{buf_u64(k), buf_u64(3)}});
    if(kind == 1)
        a = ag::rpc::response(ag::interface::error_code::commit_error);
    auto id = sent_id();
    for(int i = 0; i < 2; i++) {
        (void)netstub::arrive(*port, answer<ag::rpc::response>(id, a));
        CHECKM(seen == 1, "a call is answered once");
    }
    CHECKM(kind == 2 ? error : right, "with what the agent answered, or as failed");
    sym_cover(kind == 2 ? "no content" : "answered");
}
ENTRY(c26_sentinel_client) {
    namespace sn = cbdc::sentinel;
    sn::rpc::client c({ep}, quiet_log());
    CHECK(c.init());
    auto* port = netstub::to(ep);
    auto kind = sym_choice_(3, "answer");
    bool validate = choose(2, "call") == 1, wait = choose(2, "waits") == 1;
    sn::execute_response er{flip("confirmed") ? sn::tx_status::confirmed : sn::tx_status::pending, std::nullopt};
    sn::validate_response vr{};
    sym_bytes(vr.first.data(), vr.first.size(), "key");
    std::optional<sn::response> a;
    if(kind == 0)
        a = sn::response(er);
    if(kind == 1)
        a = sn::response(vr);
    netstub::hook().on_send = [&](const netstub::sent&) {
        if(wait)
            (void)netstub::arrive(*port, answer<sn::response>(sent_id(), a));
    };
    int seen = 0;
    bool none = false, right = false;
    auto on_exec = [&](std::optional<sn::execute_response> r) {
        seen++;
        none = !r.has_value();
        right = r.has_value() && kind == 0 && *r == er;
    };
    auto on_val = [&](std::optional<sn::validate_response> r) {
        seen++;
        none = !r.has_value();
        right = r.has_value() && kind == 1 && *r == vr;
    };
    cbdc::transaction::full_tx tx{};
    if(wait) {
        if(validate)
            on_val(c.validate_transaction(tx));
        else
            on_exec(c.execute_transaction(tx));
    } else {
        auto ok = validate ? c.validate_transaction(tx, on_val) : c.execute_transaction(tx, on_exec);
        CHECK(ok);
        auto id = sent_id();
        (void)netstub::arrive(*port, answer<sn::response>(id, a));
        (void)netstub::arrive(*port, answer<sn::response>(id, a));
    }
    CHECKM(seen == 1, "a call is answered once");
    CHECKM(kind == (validate ? 1U : 0U) ? right : none, "with what the sentinel answered, or as failed");
    sym_cover(kind == 2 ? "no content" : right ? "answered" : "another kind");
    netstub::hook().on_send = nullptr;
}
// The coordinator's client of a shard asks until it is answered, each time the same.
ENTRY(c26_retry) {
    namespace ls = cbdc::locking_shard;
    auto log = quiet_log();
    ls::rpc::client c({ep}, {0, 255}, *log);
    CHECK(c.init());
    auto* port = netstub::to(ep);
    auto what = sym_choice_(3, "call");
    auto dtx = sym_hash_id("dtx");
    std::vector<bool> flags{flip("a"), flip("b")};
    auto tries = 1 + sym_choice_(TIER ? 4 : 3, "attempts");
    size_t n = 0;
    uint64_t last = 0;
    bool other = choose(4, "another kind") == 0;
    netstub::hook().on_send = [&](const netstub::sent& s) {
        n++;
        cbdc::buffer b = *s.m_pkt;
        auto q = cbdc::from_buffer<cbdc::rpc::request<ls::rpc::request>>(b);
        CHECKM(q.has_value(), "requests are well formed");
        CHECKM(heq(q->m_payload.m_dtx_id, dtx), "each attempt names the same transaction");
        CHECKM(q->m_payload.m_params.index() == what, "each attempt asks the same");
        if(what == 1)
            CHECKM(std::get<1>(q->m_payload.m_params) == flags, "each attempt asks the same");
        CHECKM(n == 1 || last != q->m_header.m_request_id, "no two attempts share an identifier");
        last = q->m_header.m_request_id;
        netstub::hook().reachable = true;
        if(n == tries) {
            std::optional<ls::rpc::response> a;
            if(what == 0)
                a = other ? ls::rpc::response(ls::rpc::apply_response{}) : ls::rpc::response(flags);
            if(what == 1)
                a = ls::rpc::response(ls::rpc::apply_response{});
            if(what == 2)
                a = ls::rpc::response(ls::rpc::discard_response{});
            (void)netstub::arrive(*port, answer<ls::rpc::response>(last, a));
        } else if(choose(2, "failure") == 0) {
            (void)netstub::arrive(*port, answer<ls::rpc::response>(last, std::nullopt));
            sym_cover("the shard fails");
        } else {
            netstub::hook().reachable = false;
            sym_cover("not sent");
        }
    };
    if(what == 0) {
        auto r = c.lock_outputs({}, dtx);
        CHECKM(other ? !r.has_value() : r.has_value() && *r == flags, "the answer of the shard is returned");
    } else if(what == 1) {
        CHECKM(c.apply_outputs(std::vector<bool>(flags), dtx), "an answered call succeeds");
    } else {
        CHECKM(c.discard_dtx(dtx), "an answered call succeeds");
    }
    CHECKM(n == tries, "nothing is asked after the answer");
    netstub::hook().on_send = nullptr;
    netstub::hook().reachable = false;
    c.stop();
    sym_cover("answered");
}
// A client of a locking shard is stopped while other threads wait in it for the shard's answer.
ENTRY(c26_stop) {
    namespace ls = cbdc::locking_shard;
    auto log = quiet_log();
    ls::rpc::client c({ep}, {0, 255}, *log);
    CHECK(c.init());
    auto dtx = id(1, 1);
    netstub::hook().reachable = choose(2, "reachable") == 1;
    std::mutex m;
    std::condition_variable cv;
    int sent = 0;
    netstub::hook().on_send = [&](const netstub::sent&) {
        std::unique_lock<std::mutex> l(m);
        sent++;
        cv.notify_all();
    };
    auto what = choose(3, "call");
    std::thread t([&]() {
        if(what == 0)
            CHECKM(!c.lock_outputs({}, dtx).has_value(), "a request that was not answered fails");
        else if(what == 1)
            CHECKM(!c.apply_outputs({true}, dtx), "a request that was not answered fails");
        else
            CHECKM(!c.discard_dtx(dtx), "a request that was not answered fails");
    });
    if(choose(2, "after the request was sent") == 1) {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&]() { return sent > 0; });
        sym_cover("stopped while waiting");
    }
    c.stop();
    if(choose(2, "later calls") == 1)
        CHECKM(!c.discard_dtx(dtx), "a client that was stopped answers nothing");
    t.join();
    netstub::hook().on_send = nullptr;
}
