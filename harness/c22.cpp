// An agent: one function, executed as one transaction against a broker that answers at once, later, wrongly or not at all.
#include "common.hpp"
#include "parsec/agent/impl.hpp"
#include <deque>
#include <mutex>
#include <thread>
using namespace vf;
namespace ag = cbdc::parsec::agent;
namespace br = cbdc::parsec::broker;
namespace rs = cbdc::parsec::runtime_locking_shard;
using bi = br::interface;
using bec = bi::error_code;
using rr = ag::runner::interface;
using upd = br::state_update_type;
using astate = ag::impl::state;
namespace {
    auto bytes(uint8_t a, uint8_t b) -> cbdc::buffer {
        cbdc::buffer x;
        x.append(&a, 1);
        x.append(&b, 1);
        return x;
    }
    auto kind(const char* what, uint64_t n) -> uint64_t { return choose(n, what); }
    constexpr uint64_t ticket = 77;
    struct world {
        bool threads{false};
        bool wounded_once{false};
        int mode{2}; // the broker answers at once, later, or either
        bool readonly{false};
        int function{0}; // 0: a stored function; 1: one byte; 2: none
        br::lock_type first{br::lock_type::read};
        int faults{0};
        // what the broker knows of the ticket
        bool begun{false};
        bool fetched{false};
        bool running{false};
        bool committed{false};
        bool back{true};  // nothing is held
        bool finished{false};
        bool give_up{false}; // the last attempt failed for good
        bool retry_ok{false};
        bool outstanding{false};
        std::optional<upd> returned;
        std::optional<upd> stored;
        std::deque<std::function<void()>> later;
        // what the agent reported
        std::vector<ag::interface::exec_return_type> results;
        int attempts{0};
        std::mutex mut;
        std::vector<cbdc::buffer> waiting; // locks asked for and not answered
        std::vector<std::pair<cbdc::buffer, br::lock_type>> wanted;
        std::unique_ptr<ag::impl> agent;
        auto fault() -> bool { return faults > 0; }
        // Answers at once or later.
        void answer(std::function<void()> f) {
            if(mode == 2 ? kind("answered", 2) == 0 : mode == 0) {
                f();
            } else {
                outstanding = true;
                later.push_back([this, f = std::move(f)] {
                    outstanding = false;
                    f();
                });
            }
        }
        // What goes wrong, if anything may.
        auto trouble(const char* what, uint64_t n) -> uint64_t {
            if(!fault())
                return 0;
            auto k = kind(what, n + 1);
            if(k != 0)
                faults--;
            return k;
        }
    };
    world* w;
    struct runner : rr {
        std::function<bool()> go;
        runner(std::shared_ptr<cbdc::logging::log> l, const cbdc::parsec::config& c, run_callback_type r, try_lock_callback_type t)
            : rr(l, c, {}, {}, false, r, t, nullptr, nullptr, 0) {}
        auto run() -> bool override { return go(); }
    };
    // The function: asks for up to two locks, one after the other, then returns updates or fails.
    struct job : std::enable_shared_from_this<job> {
        rr::run_callback_type done;
        rr::try_lock_callback_type lock;
        uint64_t left{0};
        int no{0};
        void step() {
            if(no != w->attempts)
                return;
            if(left == 0) {
                auto t = w->wounded_once ? 1 : w->trouble("function", 3);
                w->wounded_once = false;
                w->running = false;
                if(t == 1) {
                    w->retry_ok = true;
                    done(rr::error_code::wounded);
                } else if(t == 2) {
                    w->give_up = true;
                    done(kind("error", 2) == 0 ? rr::error_code::exec_error : rr::error_code::internal_error);
                } else {
                    upd u;
                    auto k = kind("updates", 2);
                    for(uint64_t i = 0; i < k; i++)
                        u[bytes(9, static_cast<uint8_t>(i))] = bytes(static_cast<uint8_t>(no), 1);
                    w->returned = u;
                    done(u);
                }
                return;
            }
            left--;
            auto key = bytes(9, static_cast<uint8_t>(left));
            auto type = kind("lock", 2) == 0 ? br::lock_type::read : br::lock_type::write;
            auto self = shared_from_this();
            auto before = w->wanted.size();
            auto answers = std::make_shared<int>(0);
            w->wanted.emplace_back(key, type);
            auto ok = lock(key, type, [self, answers](bi::try_lock_return_type r) {
                CHECKM(++*answers == 1, "a lock request is answered once");
                if(std::holds_alternative<rs::shard_error>(r) && std::get<rs::shard_error>(r).m_error_code == rs::error_code::wounded) {
                    w->running = false;
                    w->retry_ok = true;
                    self->done(rr::error_code::wounded);
                } else if(!std::holds_alternative<br::value_type>(r)) {
                    w->running = false;
                    w->give_up = true;
                    self->done(rr::error_code::lock_error);
                } else {
                    self->step();
                }
            });
            if(w->readonly && type == br::lock_type::write) {
                CHECKM(!ok, "a function that may only read gets no write lock");
                sym_cover("write lock refused");
            }
            if(!ok) {
                if(w->wanted.size() > before)
                    w->wanted.resize(before);
                w->running = false;
                w->give_up = true;
                done(rr::error_code::lock_error);
            }
        }
    };
    struct broker : bi {
        auto begin(begin_callback_type cb) -> bool override {
            CHECKM(!w->begun, "one ticket is drawn");
            auto t = w->trouble("begin", 2);
            if(t == 1)
                return false;
            w->answer([=] {
                if(t == 2) {
                    cb(bec::ticket_number_assignment);
                } else {
                    w->begun = true;
                    cb(br::ticket_number_type{ticket});
                }
            });
            return true;
        }
        static void alive(uint64_t n) {
            CHECKM(w->begun && n == ticket, "the ticket drawn is used");
            CHECKM(!w->finished, "a finished ticket is not used");
        }
        auto try_lock(uint64_t n, br::key_type key, br::lock_type type, try_lock_callback_type cb) -> bool override {
            alive(n);
            CHECKM(!w->committed, "a committed ticket takes no locks");
            CHECKM(!(w->readonly && type == br::lock_type::write), "a read-only run takes no write locks");
            auto fn = key == bytes(1, 1);
            if(fn) {
                CHECKM(w->back && w->function == 0, "the function is fetched at the start of an attempt");
                CHECKM(type == w->first, "the function is locked as the runner asks");
            } else {
                CHECKM(w->fetched || w->function != 0, "the function is fetched before any of its locks is taken");
                auto asked = false;
                for(const auto& [k, t] : w->wanted)
                    asked = asked || (k == key && (t == type || w->readonly));
                CHECKM(asked, "only locks the function asked for are taken");
            }
            auto t = w->trouble("lock answer", 4);
            if(t == 1) {
                w->retry_ok = w->retry_ok || fn;
                if(!fn && !w->running)
                    w->retry_ok = true;
                w->back = false;
                return false;
            }
            w->back = false;
            {
                std::unique_lock l(w->mut);
                for(const auto& k : w->waiting)
                    CHECKM(!(k == key), "a lock that is waited for is not asked for again");
                w->waiting.push_back(key);
            }
            w->answer([=] {
                {
                    std::unique_lock l(w->mut);
                    for(auto i = w->waiting.begin(); i != w->waiting.end(); ++i)
                        if(*i == key) {
                            w->waiting.erase(i);
                            break;
                        }
                }
                if(t == 0) {
                    w->fetched = w->fetched || fn;
                    cb(fn ? bytes(7, 7) : bytes(8, 8));
                } else if(t == 2) {
                    w->retry_ok = w->retry_ok || fn;
                    cb(bec::shard_unreachable);
                } else if(t == 3) {
                    w->retry_ok = true;
                    cb(rs::shard_error{rs::error_code::wounded, std::nullopt});
                    sym_cover("wounded");
                } else {
                    w->give_up = w->give_up || fn;
                    cb(rs::shard_error{rs::error_code::prepared, std::nullopt});
                }
            });
            return true;
        }
        auto commit(uint64_t n, upd u, commit_callback_type cb) -> bool override {
            alive(n);
            CHECKM(!w->committed, "a ticket is committed once");
            CHECKM(w->returned.has_value(), "only what the function returned is committed");
            CHECKM(w->readonly ? u.empty() : u == *w->returned, "exactly the updates the function returned are committed");
            w->back = false;
            auto t = w->trouble("commit answer", 5);
            if(t == 1) {
                w->retry_ok = true;
                return false;
            }
            w->answer([=] {
                if(t == 0) {
                    w->committed = true;
                    w->stored = u;
                    cb(std::nullopt);
                } else if(t == 2) {
                    w->retry_ok = true;
                    cb(bec::shard_unreachable);
                } else if(t == 3) {
                    w->retry_ok = true;
                    cb(rs::shard_error{rs::error_code::wounded, std::nullopt});
                } else if(t == 4) {
                    w->give_up = true;
                    cb(bec::commit_hazard);
                } else {
                    w->give_up = true;
                    cb(rs::shard_error{rs::error_code::lock_not_held, std::nullopt});
                }
            });
            return true;
        }
        auto rollback(uint64_t n, rollback_callback_type cb) -> bool override {
            alive(n);
            CHECKM(!w->committed, "a committed ticket is not rolled back");
            CHECKM(w->give_up || w->retry_ok, "only a failed attempt is rolled back");
            auto t = w->trouble("rollback answer", 2);
            if(t == 1)
                return false;
            w->answer([=] {
                if(t == 0) {
                    w->back = true;
                    w->waiting.clear();
                    w->fetched = false;
                    cb(std::nullopt);
                } else {
                    cb(bec::rollback_error);
                }
            });
            return true;
        }
        auto finish(uint64_t n, finish_callback_type cb) -> bool override {
            alive(n);
            CHECKM(w->committed || (w->back && w->give_up), "a ticket is finished once it is committed, or rolled back for good");
            auto t = w->trouble("finish answer", 2);
            if(t == 1)
                return false;
            w->answer([=] {
                if(t == 0) {
                    w->finished = true;
                    cb(std::nullopt);
                } else {
                    cb(bec::finish_error);
                }
            });
            return true;
        }
        auto recover(recover_callback_type) -> bool override { return false; }
        auto highest_ticket() -> uint64_t override { return ticket; }
    };
    void drive(world& x, uint64_t locks) {
        w = &x;
        auto fn = x.function == 0 ? bytes(1, 1) : cbdc::buffer();
        if(x.function == 1) {
            uint8_t b = 5;
            fn.append(&b, 1);
        }
        auto make = [&, locks](std::shared_ptr<cbdc::logging::log> l, const cbdc::parsec::config& c, rs::value_type f, ag::parameter_type p, bool ro, rr::run_callback_type done,
                               rr::try_lock_callback_type lock, std::shared_ptr<secp256k1_context>, std::shared_ptr<cbdc::thread_pool>, uint64_t n) -> std::unique_ptr<rr> {
            CHECKM(n == ticket && p == bytes(3, 4) && ro == x.readonly, "the function runs with the parameters and the ticket it was given");
            CHECKM(!x.running, "one run at a time");
            if(x.function == 0) {
                CHECKM(x.fetched && f == bytes(7, 7), "the function that is run is the one stored");
            } else {
                CHECKM(f == fn, "the function that is run is the one asked for");
            }
            x.running = true;
            auto r = std::make_unique<runner>(l, c, done, lock);
            auto j = std::make_shared<job>();
            j->done = done;
            j->lock = lock;
            j->left = locks;
            j->no = x.attempts;
            r->go = [j, &x] {
                if(x.trouble("cannot run", 1) == 1) {
                    x.running = false;
                    x.retry_ok = true;
                    return false;
                }
                j->step();
                return true;
            };
            return r;
        };
        x.agent = std::make_unique<ag::impl>(quiet_log(), cbdc::parsec::config{}, make, std::make_shared<broker>(), fn, bytes(3, 4), [&](ag::interface::exec_return_type r) { x.results.push_back(r); },
                                             x.first, x.readonly, nullptr, nullptr);
        CHECKM(x.agent->exec(), "an agent starts");
        size_t seen = 0;
        for(;;) {
            if(!x.later.empty()) {
                if(x.threads && x.later.size() == 2) {
                    auto f = std::move(x.later[0]);
                    auto g = std::move(x.later[1]);
                    x.later.clear();
                    std::thread a(f);
                    std::thread b(g);
                    a.join();
                    b.join();
                    sym_cover("two answers at once");
                    continue;
                }
                auto at = static_cast<long>(x.later.size() > 1 ? kind("answered next", x.later.size()) : 0);
                auto f = std::move(x.later[static_cast<size_t>(at)]);
                x.later.erase(x.later.begin() + at);
                f();
                continue;
            }
            if(x.results.size() == seen) {
                CHECKM(seen > 0 && x.agent->get_state() == astate::finish_complete, "an agent that waits for nothing has reported");
                break;
            }
            CHECKM(x.results.size() == seen + 1, "an outcome is reported once");
            seen++;
            if(x.agent->get_state() == astate::finish_complete)
                break;
            auto& r = x.results.back();
            CHECKM(std::holds_alternative<ag::interface::error_code>(r), "success is reported once the ticket is finished");
            auto e = std::get<ag::interface::error_code>(r);
            if(e == ag::interface::error_code::retry) {
                CHECKM(x.retry_ok && !x.give_up, "a retry is asked for only if the attempt failed for the moment");
                CHECKM(x.back && !x.committed, "a retry is asked for once the attempt is rolled back");
                sym_cover("retried");
                x.give_up = x.retry_ok = false;
                x.returned.reset();
                x.attempts++;
            }
            CHECKM(x.agent->exec(), "an agent continues");
        }
        CHECKM(x.finished, "the ticket is finished");
        CHECKM(x.agent->exec() && x.results.size() == seen, "nothing more is reported");
        auto& last = x.results.back();
        CHECKM(std::holds_alternative<ag::return_type>(last) == x.committed, "the outcome reported is whether the function was committed");
        if(x.committed) {
            CHECKM(std::get<ag::return_type>(last) == *x.returned, "the updates reported are those the function returned");
            sym_cover("committed");
        } else {
            CHECKM(std::get<ag::interface::error_code>(last) != ag::interface::error_code::retry, "a failure is reported as such");
            sym_cover("failed");
        }
        x.agent.reset();
    }
}
namespace {
    void some(int faults, int mode, uint64_t locks) {
        world x;
        x.readonly = choose(2, "read only") == 1;
        x.function = x.readonly ? static_cast<int>(choose(3, "function")) : static_cast<int>(choose(2, "function"));
        if(!x.readonly && x.function == 0)
            x.first = choose(2, "first lock") == 1 ? br::lock_type::write : br::lock_type::read;
        x.faults = faults;
        x.mode = mode;
        drive(x, choose(locks + 1, "locks"));
    }
}
// One thing goes wrong (two in the deep tier), and every answer comes at once or later.
ENTRY(c22_agent) {
    some(TIER ? 2 : 1, 2, 1);
}
// Several things go wrong in a row.
ENTRY(c22_faults) {
    some(TIER ? 3 : 2, static_cast<int>(choose(2, "answers later")), TIER ? 2 : 1);
}
// Locks taken before are taken again when a function is retried; the answers come in any order.
ENTRY(c22_again) {
    world x;
    x.function = static_cast<int>(choose(2, "function"));
    x.faults = TIER ? 2 : 1;
    x.mode = 1;
    drive(x, 2);
}
// The same, with answers that arrive on two threads at once.
ENTRY(c22_threads) {
    world x;
    x.threads = x.wounded_once = true;
    x.mode = 1;
    drive(x, 2);
}
