// C27: hexadecimal text.
#include "common.hpp"
using namespace vf;
namespace {
    auto lower(unsigned char v) -> char {
        return static_cast<char>(v < 10 ? '0' + v : 'a' + v - 10);
    }
    // Value of a digit, 16 if it is none; written without branches.
    auto digit(unsigned char c) -> unsigned {
        unsigned const d = c - '0', l = c - 'a', u = c - 'A';
        return d < 10 ? d : l < 6 ? l + 10 : u < 6 ? u + 10 : 16;
    }
    auto sym_text(size_t n, const char* name) -> std::string {
        std::string s(n, '\0');
        sym_bytes(s.data(), n, name);
        return s;
    }
    void check_text(const std::string& s, const unsigned char* p, size_t n) {
        CHECKM(s.size() == 2 * n, "two digits per byte");
        bool ok = true;
        for(size_t i = 0; i < n; i++)
            ok = ok & (s[2 * i] == lower(p[i] >> 4)) & (s[2 * i + 1] == lower(p[i] & 15));
        CHECKM(ok, "the text has the lower-case digits of the bytes");
    }
    // What from_hex must say about a text.
    void check_decoded(const std::optional<cbdc::buffer>& r, const std::string& s) {
        bool good = !s.empty() && s.size() % 2 == 0;
        for(auto c : s)
            good = good & (digit(static_cast<unsigned char>(c)) < 16);
        CHECKM(r.has_value() == good, "text is accepted exactly if it is an even number of hexadecimal digits");
        if(!r.has_value()) {
            sym_cover("text refused");
            return;
        }
        sym_cover("text accepted");
        CHECKM(r->size() == s.size() / 2, "one byte per two digits");
        bool same = true;
        for(size_t i = 0; i < r->size(); i++)
            same = same & (r->c_ptr()[i] == digit(static_cast<unsigned char>(s[2 * i])) * 16 + digit(static_cast<unsigned char>(s[2 * i + 1])));
        CHECKM(same, "the bytes are those the digits name");
    }
}
ENTRY(c27_bytes) {
    auto n = sym_choice_(TIER ? 40 : 9, "bytes");
    cbdc::buffer b;
    if(n > 0) {
        b.extend(n);
        sym_bytes(b.data(), n, "byte");
    }
    auto s = b.to_hex();
    check_text(s, b.c_ptr(), n);
    auto r = cbdc::buffer::from_hex(s);
    CHECKM(r.has_value() == (n > 0), "the text of at least one byte decodes");
    if(n > 0)
        CHECKM(*r == b, "decoding the text gives the bytes back");
    auto p = b.to_hex_prefixed();
    CHECKM(p == "0x" + s, "the prefixed text is the prefix and the text");
    auto q = cbdc::buffer::from_hex_prefixed(p);
    CHECKM(q.has_value() == (n > 0), "the prefixed text of at least one byte decodes");
    if(n > 0) {
        CHECKM(*q == b, "decoding the prefixed text gives the bytes back");
        auto x = cbdc::buffer::from_hex_prefixed(s);
        CHECKM(x.has_value() && *x == b, "the prefix may be missing");
        sym_cover("round trip");
    }
}
ENTRY(c27_text) {
    auto s = sym_text(sym_choice_(TIER ? 7 : 5, "length"), "text");
    check_decoded(cbdc::buffer::from_hex(s), s);
}
// One foreign character anywhere in a longer text.
ENTRY(c27_long_text) {
    auto n = sym_choice_(TIER ? 70 : 34, "length");
    std::string s(n, '7');
    if(n > 0)
        s[sym_choice_(n, "position")] = static_cast<char>(sym_u8_("character"));
    check_decoded(cbdc::buffer::from_hex(s), s);
}
ENTRY(c27_prefixed) {
    auto s = sym_text(sym_choice_(TIER ? 7 : 5, "length"), "text");
    auto r = cbdc::buffer::from_hex_prefixed(s);
    auto rest = s.size() >= 2 && s[0] == '0' && s[1] == 'x' ? s.substr(2) : s;
    if(rest.size() % 2 == 1)
        rest = "0" + rest;
    check_decoded(r, rest);
}
ENTRY(c27_hash) {
    cbdc::hash_t h{};
    sym_bytes(h.data(), h.size(), "hash");
    auto s = cbdc::to_string(h);
    check_text(s, h.data(), h.size());
    CHECKM(heq(cbdc::hash_from_hex(s), h), "decoding the text of a hash gives the hash back");
    // upper-case text names the same hash
    for(auto& c : s)
        c = c >= 'a' ? static_cast<char>(c - 32) : c;
    CHECKM(heq(cbdc::hash_from_hex(s), h), "upper-case text names the same hash");
    sym_cover("hash round trip");
}
// Text of any length never touches memory outside the hash, and always gives the same hash.
ENTRY(c27_hash_text) {
    auto n = sym_choice_(TIER ? 200 : 72, "length");
    std::string s(n, '3');
    if(n > 0) {
        auto at = n < 66 ? sym_choice_(n, "position") : n - 1;
        s[at] = static_cast<char>(sym_u8_("character"));
    }
    auto h = cbdc::hash_from_hex(s);
    for(auto c : h)
        CHECKM(!sym_is_symbolic(c) || (c & 0x100) == 0, "a hash");
    CHECKM(heq(h, cbdc::hash_from_hex(s)), "the same text gives the same hash");
    sym_cover("hash from text");
}
