// Model of libsecp256k1: keys, deterministic signatures and verification over an injective hash.
// sign(key, msg) is unique; verify accepts exactly sign(key, msg): an ideal (existentially unforgeable) scheme.
#ifndef VERIF_SECP
#define VERIF_SECP
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sym.h>
#define SECP256K1_CONTEXT_VERIFY 257
#define SECP256K1_CONTEXT_SIGN 513
#define SECP256K1_CONTEXT_NONE 1
#define SECP256K1_EC_COMPRESSED 258
#define SECP256K1_EC_UNCOMPRESSED 2
struct secp256k1_context_struct {
    int x;
};
typedef struct secp256k1_context_struct secp256k1_context;
typedef struct {
    unsigned char data[64];
} secp256k1_pubkey;
typedef struct {
    unsigned char data[64];
} secp256k1_ecdsa_signature;
typedef struct {
    unsigned char data[96];
} secp256k1_keypair;
typedef struct {
    unsigned char data[64];
} secp256k1_xonly_pubkey;
typedef struct {
    unsigned char data[65];
} secp256k1_ecdsa_recoverable_signature;
typedef int (*secp256k1_nonce_function_hardened)(unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, void*);
namespace secp_model {
    enum { TAG_PUB = 101, TAG_SIG0 = 102, TAG_SIG1 = 103, TAG_ESIG = 104 };
    inline void sig(const unsigned char* pub, const unsigned char* msg, unsigned char* out) {
        unsigned char b[64];
        std::memcpy(b, pub, 32);
        std::memcpy(b + 32, msg, 32);
        sym_hash(TAG_SIG0, b, 64, out);
        sym_hash(TAG_SIG1, b, 64, out + 32);
    }
    inline bool zero(const unsigned char* p, size_t n) {
        unsigned char a = 0;
        for(size_t i = 0; i < n; i++)
            a = static_cast<unsigned char>(a | p[i]);
        return a == 0;
    }
}
inline secp256k1_context* secp256k1_context_create(unsigned) {
    return new secp256k1_context{0};
}
inline void secp256k1_context_destroy(secp256k1_context* c) {
    delete c;
}
inline int secp256k1_context_randomize(secp256k1_context*, const unsigned char*) { return 1; }
inline int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char* k) {
    return secp_model::zero(k, 32) ? 0 : 1;
}
inline int secp256k1_keypair_create(const secp256k1_context*, secp256k1_keypair* kp, const unsigned char* k) {
    if(secp_model::zero(k, 32))
        return 0;
    std::memset(kp, 0, sizeof(*kp));
    std::memcpy(kp->data, k, 32);
    sym_hash(secp_model::TAG_PUB, k, 32, kp->data + 32);
    return 1;
}
inline int secp256k1_keypair_xonly_pub(const secp256k1_context*, secp256k1_xonly_pubkey* p, int* parity, const secp256k1_keypair* kp) {
    std::memset(p, 0, sizeof(*p));
    std::memcpy(p->data, kp->data + 32, 32);
    if(parity != nullptr)
        *parity = 0;
    return 1;
}
inline int secp256k1_xonly_pubkey_serialize(const secp256k1_context*, unsigned char* o, const secp256k1_xonly_pubkey* p) {
    std::memcpy(o, p->data, 32);
    return 1;
}
// Not every 32-byte string is the x coordinate of a point: all-zero ones and those starting with 0xff are not.
inline int secp256k1_xonly_pubkey_parse(const secp256k1_context*, secp256k1_xonly_pubkey* p, const unsigned char* in) {
    if(secp_model::zero(in, 32) || in[0] == 0xff) {
        return 0;
    }
    std::memset(p, 0, sizeof(*p));
    std::memcpy(p->data, in, 32);
    return 1;
}
inline int secp256k1_schnorrsig_sign(const secp256k1_context*, unsigned char* s, const unsigned char* msg, const secp256k1_keypair* kp, secp256k1_nonce_function_hardened, void*) {
    secp_model::sig(kp->data + 32, msg, s);
    return 1;
}
inline int secp256k1_schnorrsig_verify(const secp256k1_context*, const unsigned char* s, const unsigned char* msg, const secp256k1_xonly_pubkey* p) {
    unsigned char e[64];
    secp_model::sig(p->data, msg, e);
    unsigned char d = 0;
    for(int i = 0; i < 64; i++)
        d = static_cast<unsigned char>(d | (e[i] ^ s[i]));
    return d == 0 ? 1 : 0;
}
inline int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey* p, const unsigned char* k) {
    if(secp_model::zero(k, 32))
        return 0;
    std::memset(p, 0, sizeof(*p));
    sym_hash(secp_model::TAG_PUB, k, 32, p->data);
    sym_hash(secp_model::TAG_PUB + 50, k, 32, p->data + 32);
    return 1;
}
inline int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char* o, size_t* n, const secp256k1_pubkey* p, unsigned flags) {
    size_t need = flags == SECP256K1_EC_COMPRESSED ? 33 : 65;
    if(*n < need)
        return 0;
    *n = need;
    o[0] = need == 33 ? 2 : 4;
    std::memcpy(o + 1, p->data, need - 1);
    return 1;
}
#define secp256k1_nonce_function_rfc6979 nullptr
// Recoverable ECDSA: the signature carries the (masked) public key, so recover(sign(k, m), m) == pub(k).
inline int secp256k1_ecdsa_sign_recoverable(const secp256k1_context*, secp256k1_ecdsa_recoverable_signature* s, const unsigned char* msg, const unsigned char* k, void*, const void*) {
    unsigned char pub[32], pad[32];
    if(secp_model::zero(k, 32))
        return 0;
    sym_hash(secp_model::TAG_PUB, k, 32, pub);
    sym_hash(secp_model::TAG_ESIG, msg, 32, pad);
    std::memset(s, 0, sizeof(*s));
    for(int i = 0; i < 32; i++)
        s->data[i] = static_cast<unsigned char>(pub[i] ^ pad[i]);
    sym_hash(secp_model::TAG_PUB + 50, k, 32, pub);
    for(int i = 0; i < 32; i++)
        s->data[32 + i] = static_cast<unsigned char>(pub[i] ^ pad[i]);
    s->data[64] = pub[0] & 1;
    return 1;
}
inline int secp256k1_ecdsa_recover(const secp256k1_context*, secp256k1_pubkey* p, const secp256k1_ecdsa_recoverable_signature* s, const unsigned char* msg) {
    unsigned char pad[32];
    sym_hash(secp_model::TAG_ESIG, msg, 32, pad);
    if(secp_model::zero(s->data, 32))
        return 0;
    for(int i = 0; i < 64; i++)
        p->data[i] = static_cast<unsigned char>(s->data[i] ^ pad[i % 32]);
    if((p->data[32] & 1) != s->data[64])
        p->data[0] = static_cast<unsigned char>(p->data[0] ^ 0x80);
    return 1;
}
inline int secp256k1_ecdsa_recoverable_signature_serialize_compact(const secp256k1_context*, unsigned char* o, int* rec, const secp256k1_ecdsa_recoverable_signature* s) {
    std::memcpy(o, s->data, 64);
    *rec = s->data[64];
    return 1;
}
inline int secp256k1_ecdsa_recoverable_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_recoverable_signature* s, const unsigned char* in, int rec) {
    if(rec < 0 || rec > 3)
        return 0;
    std::memcpy(s->data, in, 64);
    s->data[64] = static_cast<unsigned char>(rec);
    return 1;
}
#endif
