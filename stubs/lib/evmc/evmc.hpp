// Stand-in for evmc's C++ value types: the same layout, constructors and comparisons as evmc 10.
#ifndef VERIF_EVMC_HPP
#define VERIF_EVMC_HPP
#include "evmc.h"
#include <cstring>
#include <functional>
#include <string>
namespace evmc {
    using bytes = std::basic_string<uint8_t>;
    struct address : evmc_address {
        address() : evmc_address{} {}
        address(evmc_address v) : evmc_address{v} {}
        explicit address(uint64_t v) : evmc_address{} {
            for(int i = 0; i < 8; i++)
                bytes[19 - i] = static_cast<uint8_t>(v >> (8 * i));
        }
    };
    struct bytes32 : evmc_bytes32 {
        bytes32() : evmc_bytes32{} {}
        bytes32(evmc_bytes32 v) : evmc_bytes32{v} {}
        explicit bytes32(uint64_t v) : evmc_bytes32{} {
            for(int i = 0; i < 8; i++)
                bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
        }
    };
    using uint256be = bytes32;
    inline int cmp(const uint8_t* a, const uint8_t* b, size_t n) {
        return std::memcmp(a, b, n);
    }
    inline bool operator==(const address& a, const address& b) { return cmp(a.bytes, b.bytes, 20) == 0; }
    inline bool operator!=(const address& a, const address& b) { return !(a == b); }
    inline bool operator<(const address& a, const address& b) { return cmp(a.bytes, b.bytes, 20) < 0; }
    inline bool operator==(const bytes32& a, const bytes32& b) { return cmp(a.bytes, b.bytes, 32) == 0; }
    inline bool operator!=(const bytes32& a, const bytes32& b) { return !(a == b); }
    inline bool operator<(const bytes32& a, const bytes32& b) { return cmp(a.bytes, b.bytes, 32) < 0; }
    inline bool is_zero(const address& a) { return a == address{}; }
    inline bool is_zero(const bytes32& a) { return a == bytes32{}; }
    inline uint64_t load64be(const uint8_t* p) {
        uint64_t v = 0;
        for(int i = 0; i < 8; i++)
            v = (v << 8) | p[i];
        return v;
    }
    inline uint32_t load32be(const uint8_t* p) {
        return (uint32_t{p[0]} << 24) | (uint32_t{p[1]} << 16) | (uint32_t{p[2]} << 8) | p[3];
    }
}
#endif
