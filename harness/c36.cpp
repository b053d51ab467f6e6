// C36: the Raft state manager: votes and cluster configurations survive a crash at any point of a save.
#include "common.hpp"
#include "util/raft/state_manager.hpp"
#include <fstream>
using namespace vf;
namespace raft = cbdc::raft;
struct vote {
    bool there = false;
    uint64_t term = 0;
    int32_t voted = 0;
};
struct conf {
    bool there = false;
    uint64_t idx = 0;
    std::vector<std::pair<int32_t, std::string>> servers;
};
static auto manager() -> std::shared_ptr<raft::state_manager> {
    return std::make_shared<raft::state_manager>(2, "log", "config.dat", "state.dat", std::vector<cbdc::network::endpoint_t>{{"first", 1234}, {"second", 65535}});
}
static auto sym_vote() -> vote {
    return {true, sym_u64_("term"), static_cast<int32_t>(sym_u32_("vote"))};
}
static auto state(const vote& v) -> nuraft::srv_state {
    nuraft::srv_state s;
    s.set_term(v.term);
    s.set_voted_for(v.voted);
    return s;
}
static auto sym_conf() -> conf {
    conf c;
    c.there = true;
    c.idx = sym_u64_("index");
    auto n = choose(3, "servers");
    for(size_t i = 0; i < n; i++) {
        std::string ep(1 + choose(2, "name"), 'x');
        sym_bytes(ep.data(), ep.size(), "endpoint");
        c.servers.emplace_back(static_cast<int32_t>(sym_u32_("id")), ep);
    }
    return c;
}
static auto config(const conf& c) -> nuraft::cluster_config {
    nuraft::cluster_config r(c.idx);
    for(const auto& s : c.servers)
        r.get_servers().push_back(nuraft::cs_new<nuraft::srv_config>(s.first, s.second));
    return r;
}
static bool is(const nuraft::ptr<nuraft::srv_state>& s, const vote& v) {
    if(!v.there)
        return s == nullptr;
    return s != nullptr && ((s->get_term() == v.term) & (s->get_voted_for() == v.voted));
}
static bool is(const nuraft::ptr<nuraft::cluster_config>& s, const conf& c) {
    if(s == nullptr)
        return false;
    auto& l = s->get_servers();
    if(!c.there) { // the initial configuration
        if(l.size() != 2 || s->get_log_idx() != 0)
            return false;
        auto &a = l.front(), &b = l.back();
        return a->get_id() == 1 && a->get_endpoint() == "first:1234" && b->get_id() == 2 && b->get_endpoint() == "second:65535" && a->get_priority() > b->get_priority();
    }
    if(l.size() != c.servers.size())
        return false;
    bool same = s->get_log_idx() == c.idx;
    size_t i = 0;
    for(auto& x : l) {
        auto ep = x->get_endpoint();
        if(ep.size() != c.servers[i].second.size())
            return false;
        for(size_t k = 0; k < ep.size(); k++)
            same = same & (ep[k] == c.servers[i].second[k]);
        same = same & (x->get_id() == c.servers[i].first);
        i++;
    }
    return same;
}
// What is on the disk, and what may be there while a save goes on.
static vote old_vote, new_vote;
static conf old_conf, new_conf;
static bool checking = false, may_stop = false;
static vfs::fs before;
static bool have_before = false;
static int fail_at = -1, ops = 0;
static void check_disk(const vfs::fs& image) {
    checking = true;
    sym_may_refuse(false);
    auto other = image.image();
    std::swap(vfs::get(), other);
    {
        auto m = manager();
        auto s = m->read_state();
        CHECKM(is(s, old_vote) | is(s, new_vote), "a restarted node finds the previous or the new vote");
        auto c = m->load_config();
        CHECKM(is(c, old_conf) | is(c, new_conf), "a restarted node finds the previous or the new configuration");
    }
    std::swap(vfs::get(), other);
    sym_may_refuse(may_stop);
    checking = false;
}
// The state before an operation; and, once it is known what the operation wrote, every partial write.
static void at_op(const char* what) {
    if(checking)
        return;
    if(have_before) {
        auto now = vfs::get().image();
        for(auto& f : now.files) {
            auto* o = before.find(f.name);
            size_t from = o != nullptr ? (*o)->data.size() : 0, to = f.f->data.size();
            if(from >= to)
                continue;
            std::string all = f.f->data;
            for(auto k = from; k < to; k++) {
                f.f->data = all.substr(0, k);
                check_disk(now);
            }
            f.f->data = all;
            sym_cover("partial write");
        }
    }
    have_before = strcmp(what, "write") == 0;
    before = vfs::get().image();
    check_disk(before);
}
static bool fails(const char*) {
    if(checking)
        return false;
    return ops++ == fail_at;
}
static void save(bool st) {
    auto m = manager();
    vfs::on_op = at_op;
    vfs::fail_op = fails;
    have_before = false;
    if(st)
        m->save_state(state(new_vote));
    else
        m->save_config(config(new_conf));
    at_op("end");
    vfs::on_op = nullptr;
    vfs::fail_op = nullptr;
}
static void saves(bool failures) {
    int const n = TIER ? 3 : 2;
    auto failing = failures ? choose(static_cast<uint64_t>(n), "failing save") : 0;
    for(int i = 0; i < n; i++) {
        bool st = choose(2, "state") == 1;
        if(st)
            new_vote = sym_vote();
        else
            new_conf = sym_conf();
        ops = 0;
        fail_at = -1;
        bool failed = false;
        if(failures && failing == static_cast<uint64_t>(i)) {
            fail_at = static_cast<int>(choose(3, "failing operation"));
            failed = true;
            may_stop = true;
            sym_may_refuse(true);
        }
        save(st);
        may_stop = false;
        sym_may_refuse(false);
        if(!failed || ops <= fail_at) {
            old_vote = new_vote;
            old_conf = new_conf;
        }
        check_disk(vfs::get().image());
        if(failed) {
            sym_cover("failed save");
            return;
        }
    }
    sym_cover("saved");
}
ENTRY(c36_saves) {
    saves(false);
}
ENTRY(c36_failures) {
    saves(true);
}
// A save that was cut short does not disturb the next one.
ENTRY(c36_leftover) {
    std::string junk(choose(4, "leftover"), 'x');
    sym_bytes(junk.data(), junk.size(), "leftover");
    vfs::get().at("state.dat.tmp")->data = junk;
    vfs::get().at("config.dat.tmp")->data = junk;
    saves(false);
    CHECKM(manager()->server_id() == 2, "a node keeps its number");
}
