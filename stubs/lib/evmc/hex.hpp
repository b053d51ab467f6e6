#ifndef VERIF_EVMC_HEX_HPP
#define VERIF_EVMC_HEX_HPP
#include "evmc.hpp"
namespace evmc {
    inline std::string hex(const bytes& b) {
        std::string s(b.size() * 2, '0');
        for(size_t i = 0; i < b.size(); i++) {
            unsigned const h = b[i] >> 4, l = b[i] & 15;
            s[2 * i] = static_cast<char>(h < 10 ? '0' + h : 'a' + h - 10);
            s[2 * i + 1] = static_cast<char>(l < 10 ? '0' + l : 'a' + l - 10);
        }
        return s;
    }
}
#endif
