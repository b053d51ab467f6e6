// Stand-in for ethash's Keccak-256: a collision-free function of the bytes.
#ifndef VERIF_KECCAK_HPP
#define VERIF_KECCAK_HPP
#include <cstddef>
#include <cstdint>
#include <sym.h>
namespace ethash {
    union hash256 {
        uint64_t word64s[4];
        uint8_t bytes[32];
    };
    inline hash256 keccak256(const uint8_t* data, size_t size) {
        hash256 h;
        sym_hash(120, data, size, h.bytes);
        return h;
    }
}
#endif
