// Ticket numbers: the replicated machine and the caching client.
#include "common.hpp"
#include "netstub.hpp"
#include "parsec/ticket_machine/client.hpp"
#include "parsec/ticket_machine/impl.hpp"
#include "parsec/ticket_machine/state_machine.hpp"
#include "util/raft/serialization.hpp"
#include "util/raft/util.hpp"
#include "util/rpc/format.hpp"
#include "util/serialization/format.hpp"
#include <set>
#include <thread>
using namespace vf;
namespace tkm = cbdc::parsec::ticket_machine;
using range_t = tkm::interface::ticket_number_range_type;
using ret_t = tkm::interface::get_ticket_number_return_type;
namespace {
    auto ask(tkm::state_machine& sm, uint64_t& idx, uint64_t req_id) -> nuraft::ptr<nuraft::buffer> {
        auto b = cbdc::make_buffer<cbdc::rpc::request<tkm::rpc::request>, nuraft::ptr<nuraft::buffer>>({{req_id}, std::monostate{}});
        return sm.commit(++idx, *b);
    }
    auto range_of(const nuraft::ptr<nuraft::buffer>& b, uint64_t req_id) -> range_t {
        CHECKM(b != nullptr, "a request is answered");
        b->pos(0);
        auto r = cbdc::from_buffer<cbdc::rpc::response<tkm::rpc::response>>(*b);
        CHECKM(r.has_value() && r->m_payload.has_value(), "a request is answered with a range");
        CHECKM(r->m_header.m_request_id == req_id, "the answer names the request");
        CHECKM(std::holds_alternative<range_t>(*r->m_payload), "a request is answered with a range");
        return std::get<range_t>(*r->m_payload);
    }
}
ENTRY(c21_machine) {
    auto batch = sym_u64_("batch");
    int const n = TIER ? 6 : 4;
    ASSUME(batch > 0 && batch < UINT64_MAX / 8);
    tkm::state_machine a(quiet_log(), batch);
    std::unique_ptr<tkm::state_machine> b = std::make_unique<tkm::state_machine>(quiet_log(), batch);
    uint64_t ia = 0, ib = 0, next = 0;
    std::vector<bool> log;
    for(int i = 0; i < n; i++) {
        bool good = choose(3, "request") != 0;
        log.push_back(good);
        if(good) {
            auto id = sym_u64_("request id");
            auto r = range_of(ask(a, ia, id), id);
            CHECKM(r.first == next, "ranges are consecutive");
            CHECKM(r.second == r.first + batch, "a range holds one batch");
            next = r.second;
            auto s = range_of(ask(*b, ib, id), id);
            CHECKM(r == s, "replicas agree");
        } else {
            auto g = nuraft::buffer::alloc(4);
            CHECKM(a.commit(++ia, *g) == nullptr, "a malformed request is not answered");
            (void)b->commit(++ib, *g);
            sym_cover("malformed");
        }
        CHECKM(a.last_commit_index() == ia, "the committed index is reported");
        if(i == n / 2 && choose(2, "replica restarts") == 1) {
            // without snapshots, a replica replays the log from the start
            CHECKM(b->last_snapshot() == nullptr, "there is no snapshot that would shorten the replay");
            b = std::make_unique<tkm::state_machine>(quiet_log(), batch);
            ib = 0;
            for(bool l : log) {
                if(l)
                    (void)ask(*b, ib, 0);
                else {
                    auto g = nuraft::buffer::alloc(4);
                    (void)b->commit(++ib, *g);
                }
            }
            sym_cover("replayed");
        }
    }
}
namespace {
    struct world {
        std::unique_ptr<tkm::rpc::client> c;
        uint64_t next{0};       // of the machine
        std::set<uint64_t> got; // numbers handed out
        uint64_t last{0};
        bool any{false};
        struct call {
            int answers{0};
            bool failed{false}, refused{false};
        };
        std::vector<std::shared_ptr<call>> calls;
        std::vector<uint64_t> open; // requests the machine has not answered yet
        std::vector<uint64_t> done;
        world() {
            c = std::make_unique<tkm::rpc::client>(std::vector<cbdc::network::endpoint_t>{{"t", 1}});
            CHECK(c->init());
            netstub::hook().on_send = [this](const netstub::sent& s) {
                auto q = cbdc::from_buffer<cbdc::rpc::request<tkm::rpc::request>>(*s.m_pkt);
                CHECKM(q.has_value(), "requests are well formed");
                netstub::hook().reachable = !may_fail || choose(2, "reachable") == 1;
                if(netstub::hook().reachable)
                    open.push_back(q->m_header.m_request_id);
                else
                    sym_cover("unreachable");
            };
        }
        bool may_fail{true};
        ~world() {
            netstub::hook().on_send = nullptr;
        }
        void get() {
            auto k = std::make_shared<call>();
            calls.push_back(k);
            auto cb = [this, k](ret_t r) {
                k->answers++;
                CHECKM(k->answers == 1, "a caller is answered at most once");
                CHECKM(!k->refused, "a refused caller is not answered");
                if(std::holds_alternative<range_t>(r)) {
                    auto t = std::get<range_t>(r);
                    CHECKM(t.first == t.second, "a caller receives one number");
                    CHECKM(t.first < next, "only numbers of the machine are handed out");
                    CHECKM(got.insert(t.first).second, "a number is handed out once");
                    CHECKM(!any || t.first > last, "numbers grow");
                    last = t.first;
                    any = true;
                    sym_cover("number");
                } else {
                    k->failed = true;
                    sym_cover("failure reported");
                }
            };
            if(!c->get_ticket_number(cb)) {
                k->refused = true;
                CHECKM(k->answers == 0, "a refused caller is not answered");
                sym_cover("refused");
            }
        }
        void respond(uint64_t id, int kind) {
            cbdc::rpc::response<tkm::rpc::response> r;
            r.m_header.m_request_id = id;
            if(kind == 0) {
                next += choose(2, "taken by another client") * 2;
                auto n = 1 + choose(2, "range");
                r.m_payload = range_t{next, next + n};
                next += n;
            } else if(kind == 1)
                r.m_payload = tkm::interface::error_code{};
            cbdc::network::message_t m;
            m.m_pkt = cbdc::make_shared_buffer(r);
            c->m_client->response_handler(std::move(m));
        }
        void settle() {
            if(open.empty())
                for(const auto& k : calls)
                    CHECKM(k->refused || k->answers == 1, "nobody waits while no request is under way");
        }
        void step() {
            auto w = choose(3, "step");
            if(w == 0)
                get();
            else if(w == 1 && !open.empty()) {
                auto id = open.front();
                open.erase(open.begin());
                done.push_back(id);
                respond(id, static_cast<int>(choose(3, "answer")));
            } else if(w == 2 && !done.empty()) {
                respond(done.back(), 0); // a second answer to the same request
                sym_cover("repeated answer");
            } else
                sym_end();
            settle();
        }
    };
}
ENTRY(c21_client) {
    world w;
    int const n = TIER ? 7 : 5;
    w.get();
    w.settle();
    for(int i = 0; i < n; i++)
        w.step();
    w.may_fail = false;
    for(int i = 0; i < 3 && !w.open.empty(); i++) {
        auto id = w.open.front();
        w.open.erase(w.open.begin());
        w.respond(id, 1);
        w.settle();
    }
    CHECKM(w.open.empty(), "a failing machine is not asked for ever");
    for(const auto& k : w.calls)
        CHECKM(k->refused || k->answers == 1, "every caller is answered once");
}
// Two callers and the network thread at once.
ENTRY(c21_threads) {
    world w;
    w.may_fail = false;
    w.get();
    auto id = w.open.front();
    w.open.clear();
    auto kind = static_cast<int>(choose(3, "answer"));
    std::mutex mut;
    std::set<uint64_t> got;
    int answers = 0;
    auto cb = [&](ret_t r) {
        std::unique_lock<std::mutex> l(mut);
        answers++;
        if(std::holds_alternative<range_t>(r))
            CHECKM(got.insert(std::get<range_t>(r).first).second, "a number is handed out once");
    };
    w.next = 10;
    std::thread t([&]() {
        cbdc::rpc::response<tkm::rpc::response> r;
        r.m_header.m_request_id = id;
        if(kind == 0)
            r.m_payload = range_t{3, 5};
        else if(kind == 1)
            r.m_payload = tkm::interface::error_code{};
        cbdc::network::message_t m;
        m.m_pkt = cbdc::make_shared_buffer(r);
        w.c->m_client->response_handler(std::move(m));
    });
    CHECKM(w.c->get_ticket_number(cb), "a reachable machine is asked");
    t.join();
    for(int i = 0; i < 3 && !w.open.empty(); i++) {
        auto o = w.open.front();
        w.open.erase(w.open.begin());
        cbdc::rpc::response<tkm::rpc::response> r;
        r.m_header.m_request_id = o;
        r.m_payload = range_t{7 + i, 8 + i};
        cbdc::network::message_t m;
        m.m_pkt = cbdc::make_shared_buffer(r);
        w.c->m_client->response_handler(std::move(m));
    }
    CHECKM(w.calls[0]->answers == 1 && answers == 1, "every caller is answered once");
    for(auto g : got)
        CHECKM(w.got.count(g) == 0, "a number is handed out once");
    if(!got.empty() && !w.got.empty())
        sym_cover("both numbered");
}
