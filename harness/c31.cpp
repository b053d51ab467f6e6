// C31: the RLP encoding.
#include "common.hpp"
#include "parsec/agent/runners/evm/rlp.hpp"
using namespace vf;
using cbdc::rlp_value;
using cbdc::rlp_value_type;
namespace {
    using bytes = std::vector<uint8_t>;
    // A value as the harness sees it, with Ethereum's definition of its encoding.
    struct node {
        bool arr{false};
        bytes data;
        std::vector<node> kids;
    };
    void put_len(bytes& o, size_t n, uint8_t base) {
        if(n <= 55) {
            o.push_back(static_cast<uint8_t>(base + n));
            return;
        }
        bytes be;
        for(auto v = n; v != 0; v >>= 8)
            be.insert(be.begin(), static_cast<uint8_t>(v));
        o.push_back(static_cast<uint8_t>(base + 55 + be.size()));
        o.insert(o.end(), be.begin(), be.end());
    }
    auto encode(const node& v) -> bytes {
        bytes o;
        if(!v.arr) {
            if(v.data.size() == 1 && v.data[0] < 0x80)
                return v.data;
            put_len(o, v.data.size(), 0x80);
            o.insert(o.end(), v.data.begin(), v.data.end());
            return o;
        }
        bytes body;
        for(auto& k : v.kids) {
            auto e = encode(k);
            body.insert(body.end(), e.begin(), e.end());
        }
        put_len(o, body.size(), 0xc0);
        o.insert(o.end(), body.begin(), body.end());
        return o;
    }
    auto to_buf(const bytes& b) -> cbdc::buffer {
        cbdc::buffer r;
        r.append(b.data(), b.size());
        return r;
    }
    auto build(const node& v) -> rlp_value {
        if(!v.arr)
            return rlp_value(to_buf(v.data));
        auto r = rlp_value(rlp_value_type::array);
        for(auto& k : v.kids)
            CHECKM(r.push_back(build(k)), "a list takes another element");
        return r;
    }
    auto equal(const rlp_value& r, const node& v) -> bool {
        if((r.type() == rlp_value_type::array) != v.arr)
            return false;
        if(r.size() != (v.arr ? v.kids.size() : v.data.size()))
            return false;
        if(v.arr) {
            for(size_t i = 0; i < v.kids.size(); i++)
                if(!equal(r.value_at(i), v.kids[i]))
                    return false;
            return true;
        }
        unsigned d = 0;
        auto* p = static_cast<const uint8_t*>(r.data());
        for(size_t i = 0; i < v.data.size(); i++)
            d |= static_cast<unsigned>(p[i] ^ v.data[i]);
        return d == 0;
    }
    auto sym_node_bytes(size_t n, const char* name) -> node {
        node v;
        v.data.resize(n);
        if(n > 0)
            sym_bytes(v.data.data(), n, name);
        return v;
    }
    void check_both(const node& v) {
        auto want = encode(v);
        auto got = cbdc::make_buffer(build(v));
        CHECKM(got.size() == want.size(), "the encoding has the canonical length");
        CHECKM(std::memcmp(got.data(), want.data(), want.size()) == 0, "the encoding is the canonical one");
        auto back = cbdc::from_buffer<rlp_value>(got);
        CHECKM(back.has_value(), "an encoding decodes");
        CHECKM(equal(*back, v), "decoding the encoding gives the value back");
    }
    // A value of bounded depth: shapes are chosen by the solver, the contents are symbolic.
    auto sym_node(unsigned depth, unsigned& budget) -> node {
        node v;
        auto k = choose(depth == 0 ? 3 : 5, "shape");
        if(k < 3) {
            static constexpr size_t len[] = {1, 0, 2};
            return sym_node_bytes(len[k], "byte");
        }
        v.arr = true;
        auto n = k == 3 ? 0 : 1 + choose(2, "children");
        for(size_t i = 0; i < n && budget > 0; i++) {
            budget--;
            v.kids.push_back(sym_node(depth - 1, budget));
        }
        return v;
    }
}
// Byte strings of every length class.
ENTRY(c31_string) {
    static constexpr size_t len[] = {0, 1, 2, 32, 54, 55, 56, 57, 255, 256, 257, 300, 65535, 65536};
    auto k = choose(14, "length");
    auto v = sym_node_bytes(len[k] > 300 ? 0 : len[k], "byte");
    v.data.resize(len[k]);
    sym_cover(len[k] > 55 ? "long string" : "short string");
    check_both(v);
    sym_end();
}
// Nested lists.
ENTRY(c31_nested) {
    unsigned budget = TIER ? 6 : 4;
    node v;
    v.arr = true;
    auto n = choose(TIER ? 4 : 3, "elements");
    for(size_t i = 0; i < n; i++)
        v.kids.push_back(sym_node(TIER ? 3 : 2, budget));
    check_both(v);
    sym_cover("list");
    sym_end();
}
// Lists whose payload needs one or two length bytes.
ENTRY(c31_long_list) {
    node v;
    v.arr = true;
    static constexpr size_t len[] = {20, 24, 25, 26, 27, 100, 127};
    auto a = choose(7, "first"), b = choose(7, "second");
    v.kids.push_back(sym_node_bytes(len[a], "a"));
    v.kids.push_back(sym_node_bytes(len[b], "b"));
    auto w = v;
    if(choose(2, "nest"))
        w.kids = {v, sym_node_bytes(2, "c")};
    check_both(w);
    sym_cover("long list");
    sym_end();
}
// Every length, encoded and decoded alone.
ENTRY(c31_length) {
    auto n = sym_u64_("length");
    ASSUME(n < (1ULL << 56));
    auto b = cbdc::serialize_size(n);
    CHECKM(b.size() == (n == 0 ? 0U : (71U - static_cast<unsigned>(__builtin_clzll(n))) / 8U), "the length takes as many bytes as it needs");
    cbdc::buffer bb;
    bb.append(b.data(), b.size());
    if(n > 0)
        CHECKM(cbdc::deserialize_size(bb) == n, "the length reads back");
    for(size_t i = 0; i < b.size(); i++)
        CHECKM(static_cast<uint8_t>(b[i]) == static_cast<uint8_t>(n >> (8 * (b.size() - 1 - i))), "the most significant byte comes first");
    sym_cover("length");
    sym_end();
}
namespace {
    // Reads one value from p[at, end), strictly inside; false if the bytes are truncated. Lengths beyond the input are
    // all alike: of the short ones this takes one more than is left, and the longest.
    auto parse(const bytes& p, size_t& at, size_t end, node& out) -> bool {
        if(at >= end)
            return false;
        uint64_t const b = p[at++];
        if(b < 0x80) {
            out.data = {p[at - 1]};
            return true;
        }
        auto arr = b >= 0xc0;
        uint64_t n = b - (arr ? 0xc0 : 0x80);
        auto const left = end - at;
        if(n > 55) {
            auto k = sym_concretize(n - 55);
            n = 0;
            if(k > left)
                return false;
            for(size_t i = 0; i < k; i++)
                n = (n << 8) | p[at++];
            ASSUME((n <= end - at + 1) | (n == 0xff));
        } else
            ASSUME((n <= left + 1) | (n == 55));
        if(n > end - at)
            return false;
        n = sym_concretize(n);
        out.arr = arr;
        if(!arr) {
            out.data.assign(p.begin() + static_cast<long>(at), p.begin() + static_cast<long>(at + n));
            at += n;
            return true;
        }
        auto stop = at + n;
        while(at < stop) {
            node k;
            if(!parse(p, at, stop, k))
                return false;
            out.kids.push_back(k);
        }
        return true;
    }
}
// Arbitrary bytes.
ENTRY(c31_decode) {
    auto n = choose(TIER ? 7 : 5, "bytes");
    bytes in(n);
    if(n > 0)
        sym_bytes(in.data(), n, "in");
    node want;
    size_t at = 0;
    auto ok = parse(in, at, n, want);
    auto b = to_buf(in);
    auto r = cbdc::from_buffer<rlp_value>(b);
    CHECKM(r.has_value() == ok, "a value is read exactly if the bytes hold all of it");
    if(ok) {
        CHECKM(equal(*r, want), "the value read is the one the bytes encode");
        sym_cover("decoded");
        auto again = cbdc::make_buffer(*r);
        auto twice = cbdc::from_buffer<rlp_value>(again);
        CHECKM(twice.has_value() && equal(*twice, want), "a decoded value encodes and decodes to itself");
    } else
        sym_cover("refused");
    sym_end();
}
// Lengths of up to eight bytes, most of them far beyond the input.
ENTRY(c31_huge) {
    static constexpr uint64_t far[] = {0xff, 0x100, 0xffff, 0x10000, 0x10001, 0xffffff, 1ULL << 32, 1ULL << 63, ~0ULL, ~0ULL - 8, ~0ULL - 9, (1ULL << 32) + 2};
    auto k = 1 + choose(8, "length bytes");
    auto c = choose(2, "far");
    auto n = c ? far[choose(12, "which")] : sym_concretize(sym_range_(0, 6, "length"));
    if(k < 8)
        n &= (1ULL << (8 * k)) - 1;
    bytes in(1 + k + 4, 0x11);
    in[0] = static_cast<uint8_t>((choose(2, "list") ? 0xf7 : 0xb7) + k);
    for(size_t i = 0; i < k; i++)
        in[1 + i] = static_cast<uint8_t>(n >> (8 * (k - 1 - i)));
    auto b = to_buf(in);
    auto r = cbdc::from_buffer<rlp_value>(b);
    CHECKM(r.has_value() == (n <= 4), "a value is read exactly if the bytes hold all of it");
    CHECKM(!r.has_value() || r->size() == n, "all of the value is read");
    sym_cover(r.has_value() ? "fits" : "too long");
    sym_end();
}
// A number that does not fit its type is never copied outside it.
ENTRY(c31_value) {
    auto n = choose(35, "bytes");
    auto v = sym_node_bytes(n, "in");
    auto r = rlp_value(to_buf(v.data));
    auto t = r.value<evmc::bytes32>();
    if(n <= 32) {
        for(size_t i = 0; i < 32; i++)
            CHECKM(t.bytes[i] == (i < 32 - n ? 0 : v.data[i - (32 - n)]), "a short number is padded with leading zeros");
        sym_cover("number");
    }
    auto a = r.value<evmc::address>();
    if(n <= 20) {
        for(size_t i = 0; i < 20; i++)
            CHECKM(a.bytes[i] == (i < 20 - n ? 0 : v.data[i - (20 - n)]), "a short address is padded with leading zeros");
        sym_cover("address");
    }
    sym_end();
}
