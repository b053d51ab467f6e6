// C35: the Raft log store; C36: the Raft state manager.
#include "common.hpp"
#include "util/raft/index_comparator.hpp"
#include "util/raft/log_store.hpp"
#include "util/raft/state_manager.hpp"
#include <leveldb/db.h>
#include <libnuraft/nuraft.hxx>
#include <map>
#include <thread>
using namespace vf;
namespace raft = cbdc::raft;
struct rec {
    uint64_t term;
    uint8_t data, len;
};
// The log as it should be.
struct reference {
    uint64_t start = 1;
    std::vector<rec> e;
    uint64_t next() const { return start + e.size(); }
};
static bool lengths = false; // also entries without content
static auto fresh_rec() -> rec {
    return {sym_u64_("term"), sym_u8_("data"), static_cast<uint8_t>(lengths ? choose(2, "length") : 1)};
}
static auto entry(const rec& r) -> nuraft::ptr<nuraft::log_entry> {
    auto b = nuraft::buffer::alloc(r.len);
    if(r.len != 0)
        b->data_begin()[0] = r.data;
    return nuraft::cs_new<nuraft::log_entry>(r.term, b);
}
static bool is(const nuraft::ptr<nuraft::log_entry>& e, const rec& r) {
    if(!e || e->is_buf_null() || e->get_buf().size() != r.len)
        return false;
    return (e->get_term() == r.term) & (r.len == 0 || e->get_buf().data_begin()[0] == r.data);
}
static void agrees(raft::log_store& l, const reference& r) {
    CHECKM(l.start_index() == r.start, "the start index is that of the first entry kept");
    CHECKM(l.next_slot() == r.next(), "the next index follows the last entry");
    for(uint64_t i = 0; i < r.e.size(); i++) {
        CHECKM(is(l.entry_at(r.start + i), r.e[i]), "an index holds the last entry written there");
        CHECKM(l.term_at(r.start + i) == r.e[i].term, "with its term");
    }
    for(auto i : {uint64_t{0}, r.start - 1, r.next(), r.next() + 1}) {
        auto e = l.entry_at(i);
        CHECKM(e && e->is_buf_null() && e->get_term() == 0, "other indices hold nothing");
    }
    auto all = l.log_entries(r.start, r.next());
    CHECKM(all->size() == r.e.size(), "a range holds its entries");
    for(uint64_t i = 0; i < r.e.size(); i++)
        CHECKM(is((*all)[i], r.e[i]), "in order");
    if(r.e.size() > 1) {
        auto some = l.log_entries(r.start + 1, r.next());
        CHECKM(some->size() == r.e.size() - 1 && is((*some)[0], r.e[1]), "a part of the log holds its entries");
    }
    auto last = l.last_entry();
    if(r.e.empty())
        CHECKM(last && last->is_buf_null() && last->get_term() == 0, "an empty log has no last entry");
    else
        CHECKM(is(last, r.e.back()), "the last entry is the last one written");
}
struct world {
    std::unique_ptr<raft::log_store> l;
    reference r;
    explicit world(uint64_t first, const char* name = "log") : m_name(name) {
        reopen();
        agrees(*l, r);
        if(first > 1) { // as after the installation of a snapshot
            CHECK(l->compact(first - 1));
            r.start = first;
        }
    }
    void reopen() {
        l.reset();
        l = std::make_unique<raft::log_store>();
        CHECKM(l->load(m_name), "the log opens");
    }
    auto disk() -> leveldb::Disk& { return *leveldb::disks()[m_name]; }
    void append(const rec& x) {
        auto e = entry(x);
        CHECKM(l->append(e) == r.next(), "an entry is appended at the next index");
        r.e.push_back(x);
    }
    void write(uint64_t at, const rec& x) {
        auto e = entry(x);
        l->write_at(r.start + at, e);
        r.e.resize(at);
        r.e.push_back(x);
    }
    // removes the first n entries (more than there are: all of them, the log continues behind)
    void compact(uint64_t n) {
        CHECKM(l->compact(r.start - 1 + n), "compaction succeeds");
        r.e.erase(r.e.begin(), r.e.begin() + static_cast<long>(std::min<uint64_t>(n, r.e.size())));
        r.start += n;
    }
    void random_op() {
        switch(choose(4, "operation")) {
            case 0: append(fresh_rec()); break;
            case 1: {
                auto at = choose(r.e.size() + 1, "index");
                if(at + 1 < r.e.size())
                    sym_cover("overwritten");
                write(at, fresh_rec());
                break;
            }
            case 2: {
                auto n = choose(r.e.size() + 3, "compacted");
                if(n == r.e.size() + 2) { // below the start: nothing to do
                    CHECK(l->compact(r.start - 1));
                    if(r.start > 1)
                        CHECK(l->compact(r.start - 2));
                    break;
                }
                if(n >= r.e.size())
                    sym_cover("fully compacted");
                compact(n);
                break;
            }
            case 3: {
                auto n = 1 + choose(2, "packed");
                world from(7, "other");
                std::vector<rec> x;
                for(uint64_t i = 0; i <= n; i++) {
                    x.push_back(fresh_rec());
                    from.append(x.back());
                }
                auto p = from.l->pack(8, static_cast<int32_t>(n));
                agrees(*from.l, from.r);
                auto at = choose(r.e.size() + 1, "index");
                p->pos(0);
                l->apply_pack(r.start + at, *p);
                for(uint64_t i = 0; i < n; i++) {
                    if(at + i < r.e.size())
                        r.e[at + i] = x[1 + i];
                    else
                        r.e.push_back(x[1 + i]);
                }
                from.l.reset();
                leveldb::disks().erase("other");
                sym_cover("packed");
                break;
            }
        }
    }

  private:
    std::string m_name;
};
// Any sequence of operations, then again after reopening.
ENTRY(c35_history) {
    static const uint64_t starts[] = {254, 1, 65535, (1ULL << 32) - 1};
    world w(starts[choose(TIER ? 4 : 1, "start")]);
    size_t const n = TIER ? 4 : 3, filled = choose(3, "entries");
    for(size_t i = 0; i < filled; i++)
        w.append(fresh_rec());
    for(size_t i = 0; i < n; i++) {
        w.random_op();
        agrees(*w.l, w.r);
    }
    w.reopen();
    agrees(*w.l, w.r);
    w.append(fresh_rec());
    agrees(*w.l, w.r);
    sym_cover("history");
}
// Reopening between the operations.
ENTRY(c35_reopen) {
    lengths = true;
    world w(1 + choose(2, "start"));
    for(size_t i = 0; i < 2; i++)
        w.append(fresh_rec());
    for(int i = 0; i < (TIER ? 3 : 2); i++) {
        if(choose(2, "kind") == 0)
            w.compact(choose(w.r.e.size() + 2, "compacted"));
        else
            w.append(fresh_rec());
        w.reopen();
        agrees(*w.l, w.r);
    }
    sym_cover("reopened");
}
// What was flushed survives a machine crash; what was not is lost from the end of the history.
ENTRY(c35_crash) {
    world w(1);
    w.disk().track = true;
    std::map<uint64_t, reference> states; // by the number of writes so far
    states[w.disk().writes] = w.r;
    for(int i = 0; i < (TIER ? 3 : 2); i++) {
        if(choose(3, "flush") == 0) {
            CHECKM(w.l->flush(), "flushing succeeds");
            CHECKM(w.disk().undo.empty(), "and leaves nothing that can be lost");
            agrees(*w.l, w.r);
            sym_cover("flushed");
        } else
            w.random_op();
        states[w.disk().writes] = w.r;
    }
    auto lost = choose(w.disk().undo.size() + 1, "lost writes");
    auto left = w.disk().writes - lost;
    w.l.reset();
    w.disk().crash(lost);
    w.reopen();
    CHECKM(states.count(left) == 1, "an operation is one write");
    agrees(*w.l, states[left]);
    w.disk().fail = true;
    CHECKM(!w.l->flush(), "a flush that fails says so");
    w.disk().fail = false;
    sym_cover("crash");
}
ENTRY(c35_order) {
    raft::index_comparator c;
    uint64_t a = sym_u64_("a"), b = sym_u64_("b");
    leveldb::Slice x(reinterpret_cast<const char*>(&a), sizeof(a)), y(reinterpret_cast<const char*>(&b), sizeof(b));
    auto r = c.Compare(x, y);
    CHECKM((r < 0) == (a < b) && (r > 0) == (a > b) && (r == 0) == (a == b), "keys are ordered by index");
    CHECKM(c.Name() != nullptr && strcmp(c.Name(), "IndexComparator") == 0, "databases stay readable");
    sym_cover("order");
}
// Raft reads the log on one thread while it appends to it on another.
ENTRY(c35_threads) {
    world w(1);
    w.append({1, 10, 1});
    w.append({1, 11, 1});
    auto op = choose(5, "operation");
    rec x{2, sym_u8_("data"), 1};
    auto start = w.r.start, next = w.r.next();
    nuraft::ptr<nuraft::buffer> pack;
    if(op == 4) {
        world from(7, "other");
        from.append(x);
        pack = from.l->pack(7, 1);
        pack->pos(0);
        from.l.reset();
        leveldb::disks().erase("other");
    }
    std::thread t([&] {
        if(op == 0)
            w.append(x);
        else if(op == 1)
            w.write(1, x);
        else if(op == 2)
            w.compact(1);
        else if(op == 4) {
            w.l->apply_pack(3, *pack);
            w.r.e.push_back(x);
        } else
            CHECKM(w.l->flush(), "flushing succeeds");
    });
    auto what = choose(6, "query");
    if(what == 0) {
        auto n = w.l->next_slot();
        CHECKM(n == next || ((op == 0 || op == 4) && n == next + 1), "the next index follows the last entry");
    } else if(what == 1) {
        auto s = w.l->start_index();
        CHECKM(s == start || (op == 2 && s == start + 1), "the start index is that of the first entry kept");
    } else if(what == 2) {
        auto e = w.l->last_entry();
        CHECKM(is(e, {1, 11, 1}) || ((op < 2 || op == 4) && is(e, x)), "the last entry is the last one written");
    } else if(what == 3) {
        auto e = w.l->entry_at(2);
        CHECKM(is(e, {1, 11, 1}) || (op == 1 && is(e, x)), "an index holds the last entry written there");
        auto tm = w.l->term_at(2);
        CHECKM(tm == 1 || (op == 1 && tm == 2), "with its term");
    } else if(what == 4) {
        if(op == 2)
            sym_end(); // Raft asks for no entries it is compacting away
        auto es = w.l->log_entries(1, 3);
        CHECKM(es && es->size() == 2 && is((*es)[0], {1, 10, 1}) && (is((*es)[1], {1, 11, 1}) || (op == 1 && is((*es)[1], x))), "a range holds its entries");
    } else {
        auto p = w.l->pack(2, 1);
        CHECKM(p != nullptr, "a range can be packed");
    }
    t.join();
    agrees(*w.l, w.r);
    sym_cover("both");
}
