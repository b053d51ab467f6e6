// Replaces 3rdparty/crypto: SHA-256 as an injective uninterpreted function (over the whole message), SipHash as a
// constant (its value only selects buckets).
#include <cstring>
#include <sym.h>
#include <crypto/sha256.h>
#include <crypto/siphash.h>
namespace {
    struct msg {
        size_t n;
        unsigned char d[];
    };
    msg* get(const void* s) {
        msg* m;
        std::memcpy(&m, s, sizeof(m));
        return m;
    }
}
#define BUF reinterpret_cast<unsigned char*>(this)
CSHA256::CSHA256() {
    Reset();
}
CSHA256& CSHA256::Reset() {
    msg* m = nullptr;
    std::memcpy(buf, &m, sizeof(m));
    bytes = 0;
    return *this;
}
CSHA256& CSHA256::Write(const unsigned char* data, size_t len) {
    msg* o = get(buf);
    size_t k = o != nullptr ? o->n : 0;
    auto* m = static_cast<msg*>(::operator new(sizeof(msg) + k + len));
    m->n = k + len;
    if(k != 0)
        std::memcpy(m->d, o->d, k);
    if(len != 0)
        std::memcpy(m->d + k, data, len);
    std::memcpy(buf, &m, sizeof(m));
    bytes += len;
    return *this;
}
void CSHA256::Finalize(unsigned char hash[OUTPUT_SIZE]) {
    msg* m = get(buf);
    unsigned char e = 0;
    sym_hash(1, m != nullptr ? m->d : &e, m != nullptr ? m->n : 0, hash);
}
std::string SHA256AutoDetect() {
    return "model";
}
void SHA256D64(unsigned char* output, const unsigned char* input, size_t blocks) {
    for(size_t i = 0; i < blocks; i++)
        sym_hash(2, input + 64 * i, 64, output + 32 * i);
}
// With vf_siphash_uf set, SipHash is an uninterpreted function of the keys and the message.
bool vf_siphash_uf = false;
CSipHasher::CSipHasher(uint64_t k0, uint64_t k1) {
    v[0] = v[1] = 0;
    if(vf_siphash_uf) {
        Write(k0);
        Write(k1);
    }
}
CSipHasher& CSipHasher::Write(uint64_t d) {
    return Write(reinterpret_cast<const unsigned char*>(&d), sizeof(d));
}
CSipHasher& CSipHasher::Write(const unsigned char* data, size_t len) {
    if(!vf_siphash_uf)
        return *this;
    auto* o = reinterpret_cast<unsigned char*>(v[0]);
    auto* m = static_cast<unsigned char*>(::operator new(v[1] + len));
    if(v[1] != 0)
        std::memcpy(m, o, v[1]);
    if(len != 0)
        std::memcpy(m + v[1], data, len);
    v[0] = reinterpret_cast<uint64_t>(m);
    v[1] += len;
    return *this;
}
uint64_t CSipHasher::Finalize() const {
    return vf_siphash_uf ? sym_uf(78, reinterpret_cast<const unsigned char*>(v[0]), v[1], 64, "lib_siphash") : 0;
}
