// C32: 256-bit arithmetic of the EVM runner.
#include "common.hpp"
#include "parsec/agent/runners/evm/math.hpp"
#include "parsec/agent/runners/evm/util.hpp"
using namespace vf;
using namespace cbdc::parsec::agent::runner;
using evmc::uint256be;
namespace {
    using wide = unsigned __int128;
    struct limbs {
        uint64_t v[4];
    };
    auto load(const uint256be& w) -> limbs {
        limbs l{};
        for(int i = 0; i < 32; i++)
            l.v[i / 8] |= static_cast<uint64_t>(w.bytes[31 - i]) << (8 * (i % 8));
        return l;
    }
    auto same(const limbs& a, const limbs& b) -> bool {
        return ((a.v[0] ^ b.v[0]) | (a.v[1] ^ b.v[1]) | (a.v[2] ^ b.v[2]) | (a.v[3] ^ b.v[3])) == 0;
    }
    auto add(const limbs& a, const limbs& b) -> limbs {
        limbs r{};
        wide c = 0;
        for(int i = 0; i < 4; i++) {
            c += static_cast<wide>(a.v[i]) + b.v[i];
            r.v[i] = static_cast<uint64_t>(c);
            c >>= 64;
        }
        return r;
    }
    auto word(const char* name) -> uint256be {
        uint256be w;
        sym_bytes(w.bytes, 32, name);
        return w;
    }
}
ENTRY(c32_add) {
    auto a = word("a"), b = word("b");
    CHECKM(same(load(a + b), add(load(a), load(b))), "the sum is the sum modulo 2^256");
    sym_cover("sum");
    sym_end();
}
ENTRY(c32_sub) {
    auto a = word("a"), b = word("b");
    auto d = a - b;
    CHECKM(same(add(load(d), load(b)), load(a)), "the difference and the subtrahend add up to the minuend modulo 2^256");
    sym_cover("difference");
    sym_end();
}
ENTRY(c32_shift) {
    auto a = word("a");
    auto n = choose(35, "bytes");
    size_t k = n == 33 ? 256 : n == 34 ? ~size_t{0} : n;
    auto r = a << k;
    bool ok = true;
    for(size_t i = 0; i < 32; i++)
        ok = ok & (r.bytes[i] == (i + n < 32 && n < 33 ? a.bytes[i + n] : 0));
    CHECKM(ok, "the bytes move towards the most significant end");
    sym_cover("shift");
    sym_end();
}
// One byte of one factor, anywhere, times one or two bytes of the other, anywhere, of all values.
ENTRY(c32_mul) {
    uint256be a, b;
    auto i = choose(32, "i");
    a.bytes[i] = sym_u8_("a");
    auto j = choose(TIER ? 32 : 8, "j") * (TIER ? 1 : 4) + (TIER ? 0 : i % 4);
    b.bytes[j] = sym_u8_("b");
    if(j < 31)
        b.bytes[j + 1] = sym_u8_("c");
    auto r = load(a * b);
    limbs want{};
    auto put = [&](size_t k, unsigned v) {
        limbs t{};
        for(unsigned byte = 0; byte < 2; byte++)
            if(k + byte < 32)
                t.v[(k + byte) / 8] |= static_cast<uint64_t>((v >> (8 * byte)) & 255) << (8 * ((k + byte) % 8));
        want = add(want, t);
    };
    put((31 - i) + (31 - j), static_cast<unsigned>(a.bytes[i]) * b.bytes[j]);
    if(j < 31)
        put((31 - i) + (30 - j), static_cast<unsigned>(a.bytes[i]) * b.bytes[j + 1]);
    CHECKM(same(r, want), "the product is the product modulo 2^256");
    sym_cover("product");
    sym_end();
}
// Whole numbers of all bits, times numbers that make every row and every carry come up.
ENTRY(c32_mul_words) {
    static constexpr uint64_t small[] = {0, 1, 255, 256, 257, 0xffff, 0x010001, 10, 1000000, 1000000000000000000ULL};
    auto k = choose(10, "factor");
    uint256be a, b(small[k]);
    // The first factor has symbolic bytes in one window and ones elsewhere.
    auto w = choose(8, "window");
    for(auto& x : a.bytes)
        x = choose(1, "fill") ? 0 : 0xff;
    for(size_t i = 0; i < (TIER ? 2 : 1); i++)
        a.bytes[w * 4 + 1 + i] = sym_u8_("a");
    auto la = load(a);
    limbs want{};
    wide c = 0;
    for(int i = 0; i < 4; i++) {
        c += static_cast<wide>(la.v[i]) * small[k];
        want.v[i] = static_cast<uint64_t>(c);
        c >>= 64;
    }
    auto swap = choose(2, "swap");
    CHECKM(same(load(swap ? b * a : a * b), want), "the product is the product modulo 2^256");
    sym_cover("product");
    sym_end();
}
ENTRY(c32_integers) {
    auto v = sym_u64_("v");
    uint256be w(v);
    CHECKM(to_uint64(w) == v, "an integer survives");
    auto a = word("a");
    CHECKM(to_uint64(a) == load(a).v[0], "the low 64 bits are taken");
    sym_cover("integer");
    sym_end();
}
namespace {
    auto lower(unsigned v) -> char {
        return static_cast<char>(v < 10 ? '0' + v : 'a' + v - 10);
    }
    auto num(size_t n) -> uint256be {
        uint256be w;
        if(n > 0) {
            sym_bytes(w.bytes + 32 - n, n, "w");
            ASSUME(w.bytes[32 - n] != 0);
        }
        return w;
    }
    auto equal(const uint256be& a, const uint256be& b) -> bool {
        return same(load(a), load(b));
    }
}
ENTRY(c32_hex) {
    auto a = word("a");
    auto s = to_hex(a);
    CHECKM(s.size() == 64, "sixty-four digits");
    bool ok = true;
    for(size_t i = 0; i < 32; i++)
        ok = ok & (s[2 * i] == lower(a.bytes[i] >> 4)) & (s[2 * i + 1] == lower(a.bytes[i] & 15));
    CHECKM(ok, "the digits are those of the number");
    sym_cover("hex");
    sym_end();
}
// Numbers of every length, without leading zeros, and back.
ENTRY(c32_trimmed) {
    static constexpr size_t lens[] = {0, 1, 2, 7, 8, 9, 31, 32};
    auto n = lens[choose(8, "bytes")];
    auto w = num(n);
    auto s = to_hex_trimmed(w);
    CHECKM(s.size() >= 3 && s[0] == '0' && s[1] == 'x', "the text has its prefix");
    CHECKM(n == 0 ? s == "0x0" : s[2] != '0', "no leading zero, and zero is one digit");
    if(n > 0) {
        auto digits = s.size() - 2;
        CHECKM(digits == 2 * n - (w.bytes[32 - n] < 16 ? 1 : 0), "as many digits as it takes");
        bool ok = true;
        for(size_t i = 0; i < digits; i++) {
            auto p = digits - 1 - i;
            auto byte = w.bytes[31 - p / 2];
            ok = ok & (s[2 + i] == lower(p % 2 == 0 ? byte & 15 : byte >> 4));
        }
        CHECKM(ok, "the digits are those of the number");
    }
    sym_cover(n == 0 ? "zero" : "number");
    sym_end();
}
ENTRY(c32_parse) {
    // Text of n digits, of any case, with or without prefix.
    auto n = choose(TIER ? 8 : 6, "digits");
    std::string s(n, '0');
    if(n > 0)
        sym_bytes(s.data(), n, "digit");
    for(size_t i = 0; i < n; i++)
        ASSUME((s[i] >= '0' && s[i] <= '9') | (s[i] >= 'a' && s[i] <= 'f') | (s[i] >= 'A' && s[i] <= 'G'));
    auto r = uint256be_from_hex(choose(2, "prefix") ? "0x" + s : s);
    bool good = n > 0;
    uint64_t v = 0;
    for(auto c : s) {
        good = good & (c != 'G');
        v = v * 16 + static_cast<uint64_t>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    }
    CHECKM(r.has_value() == good, "exactly hexadecimal text is accepted");
    CHECKM(!good || equal(*r, uint256be(v)), "the number is the one the digits name");
    sym_cover(good ? "number" : "no number");
    sym_end();
}
// The largest numbers fit, longer text is refused.
ENTRY(c32_parse_long) {
    auto n = 62 + choose(5, "digits");
    std::string s(n, 'a');
    s[0] = static_cast<char>('1' + choose(2, "first"));
    s[n - 1] = 'F';
    auto r = uint256be_from_hex("0x" + s);
    CHECKM(r.has_value() == (n <= 64), "text is accepted exactly if the number fits");
    if(r) {
        uint256be w;
        for(size_t i = 0; i < n; i++) {
            auto p = n - 1 - i;
            auto d = static_cast<unsigned>(i == 0 ? s[0] - '0' : i == n - 1 ? 15 : 10);
            w.bytes[31 - p / 2] = static_cast<uint8_t>(w.bytes[31 - p / 2] | (d << (p % 2 * 4)));
        }
        CHECKM(equal(*r, w), "the number is the one the digits name");
    }
    auto f = from_hex<uint256be>("0x" + s);
    CHECKM(f.has_value() == (n == 64 || n == 63), "a full word needs all its digits");
    sym_cover(r ? "fits" : "too long");
    sym_end();
}
