// C28: the bounded cache.
#include "common.hpp"
#include "util/common/cache_set.hpp"
#include "util/common/hashmap.hpp"
#include <thread>
using namespace vf;
namespace {
    int live = 0;
    struct value {
        uint64_t v;
        explicit value(uint64_t x) : v(x) {
            live++;
        }
        value(const value& o) : v(o.v) {
            live++;
        }
        value(value&& o) noexcept : v(o.v) {
            live++;
        }
        auto operator=(const value&) -> value& = default;
        ~value() {
            live--;
        }
        auto operator==(const value& o) const -> bool {
            return v == o.v;
        }
    };
    struct hasher {
        auto operator()(const value& v) const noexcept -> size_t {
            return v.v;
        }
    };
    // The distinct elements of a history, oldest first, at most `most` of them; an element that is present keeps its place.
    struct model {
        std::vector<uint64_t> in;
        auto has(uint64_t v) const -> bool {
            bool r = false;
            for(auto x : in)
                r = r | (x == v);
            return r;
        }
        auto add(uint64_t v, size_t most) -> bool {
            if(has(v))
                return false;
            in.push_back(v);
            if(in.size() > most)
                in.erase(in.begin());
            return true;
        }
    };
}
ENTRY(c28_history) {
    auto most = sym_choice_(TIER ? 5 : 4, "capacity");
    size_t const n = TIER ? 7 : 5;
    {
        cbdc::cache_set<value, hasher> c(most);
        model m;
        auto q = sym_u64_("asked");
        for(size_t i = 0; i < n; i++) {
            auto v = sym_u64_("added");
            bool fresh = m.add(v, most);
            bool got = false;
            if(flip("moved in")) {
                got = c.add(value(v));
            } else {
                value x(v);
                got = c.add(x);
            }
            CHECKM(got == fresh, "adding tells whether the element was absent");
            if(m.in.size() == most)
                sym_cover("full");
            if(!fresh)
                sym_cover("present already");
            CHECKM(live == static_cast<int>(m.in.size()), "the set holds exactly the elements it remembers");
            value x(q);
            CHECKM(c.contains(x) == m.has(q), "exactly the most recent distinct elements are present");
        }
    }
    CHECKM(live == 0, "nothing is left behind");
}
// The key types the system keeps in such sets.
ENTRY(c28_hashes) {
    auto most = 1 + sym_choice_(TIER ? 3 : 2, "capacity");
    cbdc::cache_set<hash_t, cbdc::hashing::null> c(most);
    std::vector<hash_t> in;
    size_t const n = TIER ? 6 : 4;
    auto q = id(sym_u8_("asked"), 1);
    for(size_t i = 0; i < n; i++) {
        auto h = id(sym_u8_("added"), 1);
        bool present = false;
        for(auto& x : in)
            present = present | heq(x, h);
        CHECKM(c.add(h) == !present, "adding tells whether the element was absent");
        if(!present) {
            in.push_back(h);
            if(in.size() > most)
                in.erase(in.begin());
        }
        bool has = false;
        for(auto& x : in)
            has = has | heq(x, q);
        CHECKM(c.contains(q) == has, "exactly the most recent distinct elements are present");
    }
    sym_cover("hashes");
}
// Threads adding at once: as if they had added one after the other.
ENTRY(c28_threads) {
    auto most = 1 + sym_choice_(2, "capacity");
    cbdc::cache_set<uint64_t> c(most);
    auto a = sym_u64_("first"), b = sym_u64_("second");
    bool ra = false, rb = false, seen = false;
    std::thread t([&] {
        ra = c.add(a);
    });
    std::thread u([&] {
        seen = c.contains(a);
    });
    rb = c.add(b);
    t.join();
    u.join();
    if(a == b) {
        CHECKM(ra != rb, "one of two equal additions is new");
        CHECKM(c.contains(a), "it is present");
        sym_cover("the same element twice");
    } else {
        CHECKM(ra && rb, "both are new");
        bool ia = c.contains(a), ib = c.contains(b);
        CHECKM(most == 1 ? ia != ib : ia && ib, "the most recent ones are present");
        sym_cover("two elements");
    }
}
