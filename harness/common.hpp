// Helpers shared by the harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "util/common/buffer.hpp"
#include "util/common/hash.hpp"
#include "util/common/logging.hpp"
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <sym.h>
#ifndef TIER
#define TIER 0
#endif
namespace vf {
    using cbdc::hash_t;
    inline auto quiet_log() -> std::shared_ptr<cbdc::logging::log> {
        return std::make_shared<cbdc::logging::log>(cbdc::logging::log_level::fatal, false);
    }
    // A hash with n symbolic leading bytes and n symbolic trailing ones; the rest is fixed.
    inline auto sym_hash_id(const char* name) -> hash_t {
        hash_t h{};
        sym_bytes(h.data(), h.size(), name);
        return h;
    }
    // Distinct fixed hash number k whose first byte is symbolic.
    inline auto id(uint8_t first, uint8_t k) -> hash_t {
        hash_t h{};
        h.fill(k);
        h[0] = first;
        h[31] = static_cast<uint8_t>(0xa0 + k);
        return h;
    }
    inline auto heq(const hash_t& a, const hash_t& b) -> bool {
        unsigned char d = 0;
        for(size_t i = 0; i < a.size(); i++)
            d = static_cast<unsigned char>(d | (a[i] ^ b[i]));
        return d == 0;
    }
    inline auto buf(const std::string& s) -> cbdc::buffer {
        cbdc::buffer b;
        b.append(s.data(), s.size());
        return b;
    }
    inline auto buf_u64(uint64_t v) -> cbdc::buffer {
        cbdc::buffer b;
        b.append(&v, sizeof(v));
        return b;
    }
    // A symbolic number below n, split by the solver into its feasible values.
    inline auto choose(uint64_t n, const char* name) -> uint64_t {
        if(n <= 1)
            return 0;
        return sym_concretize(sym_range_(0, n - 1, name));
    }
    // A symbolic truth value; paths split only where the code looks at it.
    inline auto flip(const char* name) -> bool {
        return sym_bool_(name);
    }
}
#define ENTRY(name) extern "C" void name()
#endif
