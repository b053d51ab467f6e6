#include "c15.hpp"
#include <condition_variable>
#include <mutex>
#include <optional>
#include <thread>
using namespace c15;
// Any sequence of lock requests.
ENTRY(c15_locks) {
    rls::impl s(quiet_log());
    world w(s, 3, 2);
    for(int i = 0; i < (TIER == 0 ? 4 : 5); i++)
        w.any_lock();
    w.drain();
    sym_cover("done");
}
static void any_step(world& w, int i) {
    auto a = i == 0 ? 0 : choose(4, "what happens");
    if(a == 0)
        return w.any_lock();
    auto t = w.pick_ticket();
    if(w.ts[t].s == unknown)
        sym_end();
    if(a == 1) {
        if(w.ts[t].s == prepared || w.ts[t].s == committed)
            sym_end();
        w.prepare(t, w.write_updates(t, "new value"));
    } else if(a == 2) {
        if(w.ts[t].s == committed)
            w.finish(t);
        else if(w.ts[t].s == prepared)
            w.commit(t);
        else
            sym_end();
    } else if(w.ts[t].s != committed)
        w.rollback(t);
    else
        sym_end();
}
// Any sequence of lock, prepare, commit, finish and rollback.
ENTRY(c15_mixed) {
    rls::impl s(quiet_log());
    world w(s, 3, 2);
    for(int i = 0; i < (TIER == 0 ? 4 : 5); i++)
        any_step(w, i);
    w.drain();
    sym_cover("done");
}
// After a prepared holder: waiters of any age, then it commits or rolls back.
ENTRY(c15_prepared) {
    rls::impl s(quiet_log());
    world w(s, 3, 2);
    w.lock(0, 0, flip("write lock") ? lock_type::write : lock_type::read, true);
    if(flip("second lock"))
        w.lock(0, 1, lock_type::write, false);
    w.prepare(0, w.write_updates(0, "new value"));
    for(int i = 0; i < (TIER == 0 ? 2 : 4); i++) {
        auto t = 1 + static_cast<int>(choose(2, "which waiter"));
        w.lock(t, static_cast<int>(choose(2, "which key")), flip("write lock") ? lock_type::write : lock_type::read, w.ts[t].s == unknown);
    }
    if(flip("commits"))
        w.commit(0);
    else
        w.rollback(0);
    w.drain();
    sym_cover("done");
}
// Operations a ticket is not entitled to, in every state it can be in.
ENTRY(c15_misuse) {
    rls::impl s(quiet_log());
    world w(s, 2, 2);
    auto pre = choose(7, "state");
    auto ty = flip("write lock") ? lock_type::write : lock_type::read;
    if(pre >= 1)
        w.lock(0, 0, ty, true);
    if(pre == 2)
        w.prepare(0, w.write_updates(0, "new value"));
    if(pre == 3) {
        w.prepare(0, w.write_updates(0, "new value"));
        w.commit(0);
    }
    if(pre == 4 || pre == 5)
        w.lock(1, 0, lock_type::write, true); // wounds ticket 0 or waits for it
    if(pre == 5)
        w.lock(0, 1, lock_type::write, false);
    if(pre == 6)
        w.rollback(0);
    for(int i = 0; i < (TIER == 0 ? 1 : 2); i++)
        switch(choose(5, "operation")) {
            case 0: {
                std::map<int, uint64_t> u;
                for(int k = 0; k < 3; k++)
                    if(flip("writes key"))
                        u[k] = sym_u64_("value");
                w.prepare(0, u);
                break;
            }
            case 1:
                w.commit(0);
                break;
            case 2:
                w.rollback(0);
                break;
            case 3:
                w.finish(0);
                break;
            default:
                w.lock(0, static_cast<int>(choose(2, "which key")), flip("write lock") ? lock_type::write : lock_type::read, false);
        }
    w.drain();
    sym_cover("done");
}
// A writer of several keys with any part of them updated, a reader before, while it is prepared, and after.
ENTRY(c16_values) {
    rls::impl s(quiet_log());
    world w(s, 3, 3);
    // initial values
    w.lock(0, 0, lock_type::write, true);
    w.lock(0, 1, lock_type::write, false);
    w.prepare(0, w.write_updates(0, "initial value"));
    w.commit(0);
    w.finish(0);
    auto third = flip("third lock is a write lock");
    w.lock(1, 0, lock_type::write, true);
    w.lock(1, 1, lock_type::write, false);
    w.lock(1, 2, third ? lock_type::write : lock_type::read, false);
    auto u = w.write_updates(1, "new value");
    for(int k = 0; k < 3; k++)
        if(u.count(k) != 0 && flip("key not written"))
            u.erase(k);
    w.prepare(1, u);
    for(int k = 0; k < 3; k++)
        w.lock(2, k, flip("write lock") ? lock_type::write : lock_type::read, k == 0);
    if(flip("commits"))
        w.commit(1);
    else
        w.rollback(1);
    for(int k = 0; k < 3; k++)
        CHECKM(w.ts[2].held.count(k) == 1, "the waiting reader gets every lock");
    w.prepare(2, w.write_updates(2, "last value"));
    w.commit(2);
    w.finish(2);
    w.drain();
    sym_cover("done");
}
// A second transaction's values replace the first one's, whatever was read in between.
ENTRY(c16_history) {
    rls::impl s(quiet_log());
    world w(s, 2, 2);
    for(int i = 0; i < (TIER == 0 ? 3 : 4); i++) {
        auto t = static_cast<int>(choose(2, "which ticket"));
        for(int k = 0; k < 2; k++)
            if(flip("locks key"))
                w.lock(t, k, flip("write lock") ? lock_type::write : lock_type::read, w.ts[t].s == unknown);
        if(w.ts[t].s != begun)
            sym_end();
        w.prepare(t, w.write_updates(t, "value"));
        if(flip("commits")) {
            w.commit(t);
            w.finish(t);
        } else
            w.rollback(t);
    }
    w.drain();
    sym_cover("done");
}
// Read locks upgraded to write locks while others read, wait and upgrade too.
ENTRY(c17_upgrade) {
    rls::impl s(quiet_log());
    world w(s, 3, 1);
    auto n = 2 + choose(2, "readers");
    for(uint64_t i = 0; i < n; i++)
        w.lock(static_cast<int>(i), 0, lock_type::read, true);
    for(int i = 0; i < (TIER == 0 ? 3 : 4); i++) {
        auto t = static_cast<int>(choose(3, "which ticket"));
        if(flip("ends")) {
            if(w.ts[t].s == unknown)
                sym_end();
            w.rollback(t);
        } else
            w.lock(t, 0, lock_type::write, w.ts[t].s == unknown);
    }
    w.drain();
    sym_cover("done");
}
// A wounded or rolled back holder of several locks wakes a waiter on each of them.
ENTRY(c17_wakeups) {
    rls::impl s(quiet_log());
    world w(s, TIER == 0 ? 4 : 5, 2);
    w.lock(0, 0, flip("write lock") ? lock_type::write : lock_type::read, true);
    w.lock(0, 1, lock_type::write, false);
    w.lock(1, 0, flip("write lock") ? lock_type::write : lock_type::read, true);
    w.lock(2, 1, flip("write lock") ? lock_type::write : lock_type::read, true);
    if(TIER != 0)
        w.lock(3, static_cast<int>(choose(2, "which key")), flip("write lock") ? lock_type::write : lock_type::read, true);
    auto last = static_cast<int>(w.ts.size()) - 1;
    if(flip("rolled back"))
        w.rollback(0);
    else
        w.lock(last, static_cast<int>(choose(2, "which key")), flip("write lock") ? lock_type::write : lock_type::read, true);
    w.drain();
    sym_cover("done");
}
// Two tickets on threads of their own, each locking, adding to what it read, preparing and committing: as if they
// had run one after the other, and neither is stuck.
namespace {
    struct runner {
        rls::impl& s;
        uint64_t num;
        int order; // first key
        int keys;
        lock_type first;
        bool done{false}, wounded{false};
        uint64_t read[2]{}, wrote[2]{};
        std::mutex m;
        std::condition_variable cv;
        int answers{0};
        std::optional<rls::interface::try_lock_return_type> last;
        auto lock(int k, lock_type ty, bool is_first) -> bool {
            {
                std::unique_lock<std::mutex> l(m);
                last.reset();
                answers = 0;
            }
            CHECKM(s.try_lock(num, 7, world::key(k), ty, is_first, [this](rls::interface::try_lock_return_type r) {
                std::unique_lock<std::mutex> l(m);
                answers++;
                CHECKM(answers == 1, "a lock request is answered once");
                last = std::move(r);
                cv.notify_one();
            }), "try_lock is accepted");
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return last.has_value(); });
            if(std::holds_alternative<rls::shard_error>(*last)) {
                CHECKM(std::get<rls::shard_error>(*last).m_error_code == error_code::wounded, "only a wounded ticket is refused a lock");
                return false;
            }
            auto& v = std::get<rls::value_type>(*last);
            read[k] = 0;
            if(v.size() != 0)
                std::memcpy(&read[k], v.data(), sizeof(read[k]));
            return true;
        }
        void run(uint64_t add) {
            bool ok = lock(order, first, true);
            if(ok && first == lock_type::read)
                ok = lock(order, lock_type::write, false);
            if(ok && keys == 2)
                ok = lock(1 - order, lock_type::write, false);
            int calls = 0;
            std::optional<error_code> e;
            auto cb = [&](std::optional<rls::shard_error> r) {
                calls++;
                e.reset();
                if(r.has_value())
                    e = r->m_error_code;
            };
            if(ok) {
                rls::state_update_type u;
                for(int k = 0; k < 2; k++)
                    if(k == order || keys == 2) {
                        wrote[k] = read[k] + add;
                        u.emplace(world::key(k), buf_u64(wrote[k]));
                    }
                CHECK(s.prepare(num, 7, u, cb));
                CHECKM(calls == 1, "prepare is answered");
                if(e.has_value())
                    CHECKM(*e == error_code::wounded, "a ticket holding its locks is prepared unless it is wounded");
                ok = !e.has_value();
            }
            if(!ok) {
                wounded = true;
                CHECK(s.rollback(num, cb));
                CHECKM(!e.has_value(), "a wounded ticket rolls back");
                return;
            }
            CHECK(s.commit(num, cb));
            CHECKM(!e.has_value(), "a prepared ticket commits");
            int seen = 0;
            CHECK(s.get_tickets(7, [&](rls::interface::get_tickets_return_type r) {
                for(auto& [i, st] : std::get<rls::interface::get_tickets_success_type>(r))
                    if(i == num) {
                        seen++;
                        CHECKM(st == ticket_state::committed, "a committed ticket is reported so");
                    }
            }));
            CHECKM(seen == 1, "a committed ticket is reported once");
            CHECK(s.finish(num, cb));
            CHECKM(!e.has_value(), "a committed ticket finishes");
            done = true;
        }
    };
}
ENTRY(c15_threads) {
    rls::impl s(quiet_log());
    auto n0 = sym_u64_("ticket"), n1 = sym_u64_("ticket");
    ASSUME(n0 != n1);
    int keys = 1 + static_cast<int>(choose(2, "keys"));
    auto ty = flip("reads first") ? lock_type::read : lock_type::write;
    runner a{s, n0, 0, keys, ty}, b{s, n1, keys == 2 ? 1 : 0, keys, lock_type::write};
    auto va = sym_u64_("first's amount"), vb = sym_u64_("second's amount");
    std::thread t([&] { a.run(va); });
    b.run(vb);
    t.join();
    CHECKM(a.done || n1 < n0, "the older ticket is not wounded");
    CHECKM(b.done || n0 < n1, "the older ticket is not wounded");
    sym_cover(a.done && b.done ? "both commit" : "one is wounded");
    // what is there now is what the committed ones left, one after the other
    for(int k = 0; k < keys; k++) {
        uint64_t want = (a.done ? va : 0) + (b.done ? vb : 0), got = 0;
        s.try_lock(n0, 7, world::key(k), lock_type::read, k == 0, [&](rls::interface::try_lock_return_type r) {
            CHECKM(std::holds_alternative<rls::value_type>(r), "no lock is left behind");
            auto v = std::get<rls::value_type>(r);
            CHECKM(v.size() == sizeof(got), "a committed value is there");
            std::memcpy(&got, v.data(), sizeof(got));
        });
        CHECKM(got == want, "no committed update is lost");
    }
}
