// Exact summaries of the hexadecimal formatters (the real ones are decided by C27): same text, computed without
// branching so that logging a symbolic hash does not multiply paths.
#include "util/common/buffer.hpp"
#include "util/common/hash.hpp"
namespace cbdc {
    namespace {
        void digits(std::string& r, unsigned char b) {
            unsigned h = b >> 4, l = b & 15;
            r.push_back(static_cast<char>('0' + h + 39 * (((h + 6) >> 4) & 1)));
            r.push_back(static_cast<char>('0' + l + 39 * (((l + 6) >> 4) & 1)));
        }
    }
    auto to_string(const hash_t& val) -> std::string {
        std::string r;
        r.reserve(64);
        for(const auto& b : val)
            digits(r, b);
        return r;
    }
    auto buffer::to_hex() const -> std::string {
        std::string r;
        r.reserve(2 * size());
        const auto* p = static_cast<const unsigned char*>(data());
        for(size_t i = 0; i < size(); i++)
            digits(r, p[i]);
        return r;
    }
}
