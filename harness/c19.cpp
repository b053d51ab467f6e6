#include "c19.hpp"
#include <thread>
using namespace c19;
namespace {
    // A ticket with locks on the chosen shards.
    struct run {
        world& w;
        uint64_t n{};
        int locked{0};
        rls::state_update_type upd;
        int commits{0}, rollbacks{0}, finishes{0};
        bool commit_ok{false}, rollback_ok{false}, finish_ok{false};
        explicit run(world& ww) : w(ww) {}
        void setup() {
            n = w.begin();
            CHECKM(w.b->highest_ticket() >= n, "the highest ticket is tracked");
            lock();
        }
        void lock() {
            locked = 0;
            upd.clear();
            for(size_t s = 0; s < w.sh.size(); s++)
                if(flip("touches shard")) {
                    w.lock(n, static_cast<uint8_t>(s));
                    locked++;
                    w.sh[s]->ts[n].updates.clear();
                    if(flip("writes")) {
                        auto v = sym_u64_("value");
                        upd.emplace(key(static_cast<uint8_t>(s)), buf_u64(v));
                        w.sh[s]->ts[n].updates[static_cast<int>(s)] = v;
                    }
                }
        }
        auto all(bool tstate::*p) -> bool {
            for(auto& s : w.sh)
                if(s->ts[n].touched && !(s->ts[n].*p))
                    return false;
            return true;
        }
        void commit(std::function<void()> then = {}) {
            auto mine = commits;
            CHECKM(w.b->commit(n, upd, [this, mine, then](brk::interface::commit_return_type r) {
                commits++;
                CHECKM(commits == mine + 1, "a commit is answered at most once");
                commit_ok = !r.has_value();
                if(commit_ok)
                    CHECKM(all(&tstate::committed), "commit succeeds only after every touched shard has committed");
                if(then)
                    then();
            }), "commit is accepted");
        }
        void rollback() {
            auto mine = rollbacks;
            CHECKM(w.b->rollback(n, [this, mine](brk::interface::rollback_return_type r) {
                rollbacks++;
                CHECKM(rollbacks == mine + 1, "a rollback is answered at most once");
                rollback_ok = !r.has_value();
                if(rollback_ok)
                    for(auto& s : w.sh)
                        CHECKM(!s->ts[n].touched, "rollback succeeds only after every touched shard has rolled back");
            }), "rollback is accepted");
        }
        void finish() {
            auto mine = finishes;
            CHECKM(w.b->finish(n, [this, mine](brk::interface::finish_return_type r) {
                finishes++;
                CHECKM(finishes == mine + 1, "a finish is answered at most once");
                finish_ok = !r.has_value();
                if(finish_ok)
                    CHECKM(all(&tstate::finished), "finish succeeds only after every touched shard has finished");
            }), "finish is accepted");
        }
    };
}
// One commit, with every combination and order of answers; then rollback or finish.
ENTRY(c19_commit) {
    world w(TIER == 0 ? 2 : 3);
    run r(w);
    r.setup();
    w.faulty = true;
    w.fail_budget = TIER == 0 ? 3 : 4;
    r.commit();
    w.deliver_all();
    // A request that never reached a shard leaves nobody to answer; every other commit is answered.
    CHECKM(r.commits == 1, "a commit is answered exactly once");
    if(!r.commit_ok)
        sym_cover("the commit failed");
    else {
        sym_cover("the commit succeeded");
        r.finish();
        w.deliver_all();
        CHECKM(r.finishes == 1, "a finish is answered exactly once");
        if(r.finish_ok)
            sym_cover("the ticket finished");
        sym_end();
    }
    bool sent = false;
    for(auto& s : w.sh)
        sent = sent || s->ts[r.n].n_commit != 0;
    r.rollback();
    w.deliver_all();
    CHECKM(r.rollbacks == 1, "a rollback is answered exactly once");
    CHECKM(!sent || !r.rollback_ok, "a ticket told to commit is not rolled back");
    for(auto& s : w.sh)
        CHECKM(sent || s->ts[r.n].n_commit == 0, "after a failed prepare no shard commits");
    if(r.rollback_ok) {
        sym_cover("rolled back");
        r.finish();
        w.deliver_all();
        CHECKM(r.finishes == 1 && r.finish_ok, "a rolled back ticket finishes");
    } else if(!sent) {
        w.fail_budget = 0;
        r.rollback();
        w.deliver_all();
        CHECKM(r.rollbacks == 2 && r.rollback_ok, "a failed rollback can be repeated");
    } else {
        w.fail_budget = 0;
        r.commit();
        w.deliver_all();
        CHECKM(r.commits == 2, "a repeated commit is answered");
    }
}
// The caller rolls back and restarts the ticket from inside the commit callback, as an agent does.
ENTRY(c19_restart) {
    world w(2);
    run r(w);
    r.setup();
    w.faulty = true;
    w.fail_budget = TIER == 0 ? 1 : 2;
    bool restarted = false;
    r.commit([&] {
        if(r.commit_ok || restarted)
            return;
        restarted = true;
        auto f = w.faulty;
        w.faulty = false;
        r.rollback();
        w.faulty = f;
        if(r.rollback_ok) {
            for(auto& s : w.sh)
                s->ts.erase(r.n);
            r.lock();
            if(r.locked == 0)
                sym_end();
        }
    });
    w.deliver_all();
    CHECKM(r.commits == 1, "a commit is answered exactly once");
    if(restarted && r.rollback_ok) {
        sym_cover("restarted");
        w.fail_budget = 0;
        for(auto& s : w.sh) {
            CHECKM(s->ts[r.n].n_prepare == 0, "a restarted ticket starts afresh");
            s->ts[r.n].n_commit = 0;
        }
        r.commit();
        w.deliver_all();
        CHECKM(r.commits == 2 && r.commit_ok, "a restarted ticket can commit");
    }
}
// Rolling back while the shards still answer an earlier commit.
ENTRY(c19_late) {
    world w(2);
    run r(w);
    r.setup();
    w.faulty = true;
    w.fail_budget = TIER == 0 ? 1 : 3;
    r.commit();
    bool sent = false;
    for(auto& s : w.sh)
        sent = sent || s->ts[r.n].n_commit != 0;
    if(r.commits != 0 && r.commit_ok)
        sym_end();
    if(sent)
        sym_end();
    r.rollback();
    w.deliver_all();
    CHECKM(r.rollbacks == 1, "a rollback is answered exactly once");
    CHECKM(r.commits <= 1, "a commit is answered at most once");
    for(auto& s : w.sh)
        CHECKM(s->ts[r.n].n_commit == 0, "a ticket being rolled back does not commit");
    sym_cover("done");
}
// Requests that make no sense in the state of the ticket.
ENTRY(c19_refused) {
    world w(2);
    run r(w);
    w.tk->mode = static_cast<int>(choose(3, "ticket machine"));
    int calls = 0;
    bool got = false;
    CHECKM(w.b->begin([&](brk::interface::ticketnum_or_errcode_type x) {
        calls++;
        got = std::holds_alternative<uint64_t>(x);
        if(got)
            r.n = std::get<uint64_t>(x);
    }), "begin is accepted");
    CHECKM(calls == 1 && got == (w.tk->mode == 0), "begin is answered once, and without a number when there is none");
    if(!got) {
        sym_cover("no number");
        sym_end();
    }
    auto unknown = choose(2, "unknown ticket") == 1;
    if(unknown)
        r.n = 5;
    else
        r.lock();
    auto hazard = flip("update of a key that was never locked");
    if(hazard)
        r.upd.emplace(key(77), buf_u64(1));
    r.commit();
    CHECKM(r.commits == 1, "a commit is answered exactly once");
    CHECKM(r.commit_ok == (!unknown && !hazard), "unknown tickets and updates without a lock do not commit");
    if(!r.commit_ok)
        for(auto& s : w.sh)
            CHECKM(s->ts[r.n].n_prepare == 0, "no shard sees a refused commit");
    if(r.commit_ok) {
        r.commit();
        CHECKM(r.commits == 2 && !r.commit_ok, "a committed ticket does not commit again");
        r.rollback();
        CHECKM(r.rollbacks == 1 && !r.rollback_ok, "a committed ticket does not roll back");
        w.d->down = flip("directory down");
        int lc = 0;
        CHECKM(w.b->try_lock(r.n, key(0), rls::lock_type::read, [&](brk::interface::try_lock_return_type x) {
            lc++;
            CHECKM(!std::holds_alternative<rls::value_type>(x), "a committed ticket gets no locks");
        }), "try_lock is accepted");
        CHECKM(lc == 1, "try_lock is answered once");
        r.finish();
        CHECKM(r.finishes == 1 && r.finish_ok, "a committed ticket finishes");
        r.finish();
        CHECKM(r.finishes == 2 && !r.finish_ok, "a finished ticket is unknown");
    } else if(!unknown) {
        r.finish();
        CHECKM(r.finishes == 1 && !r.finish_ok, "a running ticket does not finish");
    }
    sym_cover("done");
}
// Recovery of tickets in every combination of per-shard states.
static void recover(size_t nsh, int ntk, bool faults) {
    world w(nsh);
    std::vector<uint64_t> nums;
    std::vector<int> kind; // 0 roll back, 1 commit the rest, 2 finish
    for(int i = 0; i < ntk; i++) {
        auto n = sym_u64_("ticket");
        for(auto o : nums)
            ASSUME(n != o);
        int present = 0, com = 0;
        for(auto& s : w.sh) {
            auto st = choose(5, "state on shard");
            if(st == 0)
                continue;
            present++;
            auto v = st == 1 ? ticket_state::begun : st == 2 ? ticket_state::wounded : st == 3 ? ticket_state::prepared : ticket_state::committed;
            s->stored.emplace(n, v);
            auto& t = s->ts[n];
            t.touched = true;
            t.prepared = st >= 3;
            t.committed = st == 4;
            com += st == 4 ? 1 : 0;
        }
        if(present == 0)
            sym_end();
        for(auto& s : w.sh)
            if(com > 0 && s->ts[n].touched && !s->ts[n].prepared)
                sym_end(); // a ticket commits nowhere before it has prepared everywhere
        nums.push_back(n);
        kind.push_back(com == 0 ? 0 : com < present ? 1 : 2);
    }
    w.faulty = faults;
    w.fail_budget = faults ? 1 : 0;
    int answers = 0;
    bool ok = false;
    auto acc = w.b->recover([&](brk::interface::recover_return_type r) {
        answers++;
        CHECKM(answers == 1, "recovery reports its outcome at most once");
        ok = !r.has_value();
    });
    w.deliver_all();
    CHECKM(!acc || answers == 1, "recovery reports its outcome exactly once");
    for(size_t i = 0; i < nums.size(); i++)
        for(auto& s : w.sh) {
            auto& t = s->ts[nums[i]];
            auto it = s->stored.find(nums[i]);
            CHECKM(t.n_prepare == 0, "recovery prepares nothing");
            CHECKM(t.n_commit == 0 || kind[i] == 1, "recovery commits only what some shard had committed");
            CHECKM(t.n_rollback == 0 || kind[i] == 0, "recovery rolls back only what no shard had committed");
            CHECKM(it != s->stored.end() || t.n_commit + t.n_rollback + t.n_finish == 0, "recovery contacts only shards that know the ticket");
            if(answers == 1 && ok && it != s->stored.end()) {
                CHECKM(kind[i] != 0 || t.rolled_back, "recovery rolls back what no shard had committed");
                CHECKM(kind[i] == 0 || t.committed, "recovery commits what some shard had committed");
                CHECKM(kind[i] == 0 || t.finished, "recovery finishes what was committed");
            }
        }
    if(answers == 1 && ok) {
        sym_cover("recovered");
        // the broker is usable again and recovering again finds nothing
        w.faulty = false;
        for(auto& s : w.sh)
            s->stored.clear();
        int again = 0;
        CHECKM(w.b->recover([&](brk::interface::recover_return_type r) {
            again++;
            CHECKM(!r.has_value(), "nothing is left to recover");
        }), "a second recovery is accepted");
        CHECKM(again == 1, "a second recovery is answered once");
    }
    if(answers == 0 || !ok)
        CHECKM(faults, "recovery succeeds when the shards answer");
}
ENTRY(c20_states) {
    recover(TIER == 0 ? 2 : 3, 2, false);
}
ENTRY(c20_faults) {
    recover(2, TIER == 0 ? 1 : 2, true);
}
// A new recovery sees the shards as they are then, not as an earlier recovery saw them.
ENTRY(c20_again) {
    world w(2);
    auto n = sym_u64_("ticket");
    bool bad = flip("first attempt cut short");
    int answers = 0;
    if(bad) {
        w.sh[0]->stored.emplace(n, ticket_state::prepared);
        w.sh[0]->ts[n].touched = w.sh[0]->ts[n].prepared = true;
        w.faulty = true;
        w.fail_budget = 1;
        auto acc = w.b->recover([&](brk::interface::recover_return_type r) {
            answers++;
            (void)r;
        });
        w.deliver_all();
        w.faulty = false;
        CHECKM(answers <= 1, "recovery reports its outcome at most once");
        auto& t = w.sh[0]->ts[n];
        if(acc && answers == 1 && (t.n_rollback != 0 || t.n_finish != 0))
            sym_end(); // it got past reading the tickets
        w.sh[0]->stored.clear();
    } else {
        CHECKM(w.b->recover([&](brk::interface::recover_return_type r) {
            answers++;
            CHECKM(!r.has_value(), "nothing to recover");
        }), "recovery is accepted");
        CHECKM(answers == 1, "recovery is answered");
    }
    auto n2 = sym_u64_("later ticket");
    ASSUME(n2 != n);
    w.sh[1]->stored.emplace(n2, ticket_state::prepared);
    w.sh[1]->ts[n2].touched = w.sh[1]->ts[n2].prepared = true;
    answers = 0;
    CHECKM(w.b->recover([&](brk::interface::recover_return_type r) {
        answers++;
        CHECKM(!r.has_value(), "recovery succeeds when the shards answer");
    }), "recovery is accepted");
    CHECKM(answers == 1, "recovery is answered");
    CHECKM(w.sh[1]->ts[n2].rolled_back, "recovery rolls back what the shards report now");
    sym_cover("done");
}
// The shards' answers to two tickets arrive on different threads while another ticket begins.
ENTRY(c19_threads) {
    world w(2);
    run r(w);
    r.n = w.begin();
    for(uint8_t s = 0; s < 2; s++) {
        w.lock(r.n, s);
        r.upd.emplace(key(s), buf_u64(s));
        w.sh[s]->ts[r.n].updates[s] = s;
    }
    bool refuse = flip("a shard refuses to prepare");
    for(auto& s : w.sh)
        s->mode = 1;
    if(refuse)
        w.sh[1]->mode = 2;
    auto both = [&](std::function<void()> also) {
        auto p = std::move(w.pending);
        w.pending.clear();
        std::thread t([&] {
            if(!p.empty())
                p[0]();
        });
        also();
        if(p.size() > 1)
            p[1]();
        t.join();
    };
    r.commit();
    uint64_t m = 0;
    both([&] {
        m = w.begin();
        CHECKM(m != r.n, "two tickets have different numbers");
        CHECKM(w.b->highest_ticket() >= m, "the highest ticket is tracked");
    });
    for(auto& s : w.sh)
        s->mode = 1;
    both([] {});
    CHECKM(r.commits == 1, "a commit is answered exactly once");
    CHECKM(r.commit_ok == !refuse, "a commit succeeds exactly when every shard prepares");
    if(refuse) {
        r.rollback();
        both([&] { w.lock(m, 0); });
        CHECKM(r.rollbacks == 1 && r.rollback_ok, "a rollback is answered exactly once");
        sym_cover("rolled back");
    } else {
        r.finish();
        both([&] { w.lock(m, 0); });
        CHECKM(r.finishes == 1 && r.finish_ok, "a finish is answered exactly once");
        sym_cover("finished");
    }
}
// Two tickets, each on a thread of its own, and a third whose answers arrive meanwhile.
ENTRY(c19_tickets) {
    world w(1);
    run a(w), b(w);
    bool refuse = flip("the shard refuses to prepare");
    auto whole = [&](run& r, uint8_t k, bool refused) {
        r.n = w.begin();
        w.lock(r.n, k);
        r.upd.emplace(key(k), buf_u64(k));
        w.sh[0]->ts[r.n].updates[k] = k;
        w.sh[0]->ts[r.n].refuse = refused;
        r.commit();
        CHECKM(r.commits == 1 && r.commit_ok == !refused, "a commit succeeds exactly when every shard prepares");
        if(refused) {
            r.rollback();
            CHECKM(r.rollbacks == 1 && r.rollback_ok, "a rollback is answered exactly once");
            sym_cover("rolled back");
        } else {
            r.finish();
            CHECKM(r.finishes == 1 && r.finish_ok, "a finish is answered exactly once");
            sym_cover("finished");
        }
    };
    std::thread t([&] { whole(a, 0, refuse); });
    whole(b, 1, false);
    auto seen = w.b->highest_ticket();
    t.join();
    CHECKM(a.n != b.n, "two tickets have different numbers");
    CHECKM(seen >= b.n, "the highest ticket is tracked");
    CHECKM(w.b->highest_ticket() == (a.n < b.n ? b.n : a.n), "the highest ticket is tracked");
}
// Recovery whose answers arrive on different threads.
ENTRY(c20_threads) {
    world w(2);
    auto n = sym_u64_("ticket");
    auto st = choose(3, "state");
    for(size_t i = 0; i < 2; i++) {
        auto v = st == 0 ? ticket_state::begun : st == 1 && i == 0 ? ticket_state::prepared : ticket_state::committed;
        auto& t = w.sh[i]->ts[n];
        t.touched = true;
        t.prepared = v != ticket_state::begun;
        t.committed = v == ticket_state::committed;
        w.sh[i]->stored.emplace(n, v);
        w.sh[i]->mode = 1;
    }
    if(st == 0 && flip("a second ticket")) {
        for(auto& s : w.sh) {
            s->stored.emplace(n + 1, ticket_state::wounded);
            s->ts[n + 1].touched = true;
        }
    }
    int answers = 0;
    bool ok = false;
    CHECKM(w.b->recover([&](brk::interface::recover_return_type r) {
        answers++;
        CHECKM(answers == 1, "recovery reports its outcome at most once");
        ok = !r.has_value();
    }), "recovery is accepted");
    while(!w.pending.empty()) {
        auto p = std::move(w.pending);
        w.pending.clear();
        std::thread t([&] {
            for(size_t i = 0; i < p.size(); i += 2)
                p[i]();
        });
        for(size_t i = 1; i < p.size(); i += 2)
            p[i]();
        t.join();
    }
    CHECKM(answers == 1 && ok, "recovery reports its outcome exactly once");
    for(auto& s : w.sh)
        for(auto& [k, v] : s->stored) {
            CHECKM(st != 0 || (s->ts[k].rolled_back && s->ts[k].n_commit == 0), "recovery rolls back what no shard had committed");
            CHECKM(st == 0 || (s->ts[k].committed && s->ts[k].finished), "recovery commits what some shard had committed");
        }
    sym_cover("recovered");
}
// Locations and locks for two tickets answered on different threads.
ENTRY(c19_locks) {
    world w(2);
    w.d->later = &w.pending;
    for(auto& s : w.sh)
        s->mode = 1;
    auto a = w.begin(), b = w.begin();
    int answers[2]{};
    auto one = [&](int i) {
        CHECKM(w.b->try_lock(i == 0 ? a : b, key(static_cast<uint8_t>(i)), rls::lock_type::write, [&answers, i](brk::interface::try_lock_return_type r) {
            answers[i]++;
            CHECKM(answers[i] == 1, "a lock request is answered once");
            CHECKM(std::holds_alternative<rls::value_type>(r), "a granted lock is passed on");
        }), "try_lock is accepted");
    };
    one(0);
    one(1);
    uint64_t c = 0;
    for(int round = 0; !w.pending.empty(); round++) {
        auto p = std::move(w.pending);
        w.pending.clear();
        std::thread t([&] { p[0](); });
        if(p.size() > 1)
            p[1]();
        if(round == 0)
            c = w.begin();
        CHECKM(w.b->highest_ticket() >= c, "the highest ticket is tracked");
        t.join();
    }
    CHECKM(answers[0] == 1 && answers[1] == 1, "a lock request is answered once");
    sym_cover("locked");
}
