// Hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <llvm/ADT/APInt.h>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum class Op : uint8_t {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Node {
    Op op;
    uint32_t w;
    uint32_t id;
    uint32_t aux;    // Extract: low bit; Sym: symbol index
    uint32_t symset; // interned set of symbols
    const Node *a, *b, *c;
    uint64_t val;            // Const, w<=64
    const llvm::APInt *wide; // Const, w>64
};

// A value: concrete (n==nullptr, w<=64) or a node.
struct V {
    const Node *n = nullptr;
    uint64_t c = 0;
    uint32_t w = 0;
    bool conc() const { return n == nullptr; }
};

static inline uint64_t maskw(uint32_t w) {
    return w >= 64 ? ~0ULL : ((1ULL << w) - 1);
}
static inline V cv(uint32_t w, uint64_t c) {
    V v;
    v.w = w;
    v.c = c & maskw(w);
    return v;
}
V mkWide(const llvm::APInt &x);
V fromNode(const Node *n);
const Node *toNode(const V &v);
V mkSym(uint32_t w, uint32_t idx);
V mkBin(Op op, const V &a, const V &b);
V mkIte(const V &c, const V &a, const V &b);
V mkConcat(const V &hi, const V &lo);
V mkExtract(const V &x, uint32_t lo, uint32_t w);
V mkZExt(const V &x, uint32_t w);
V mkSExt(const V &x, uint32_t w);
static inline V mkNot(const V &x) { // bitwise not
    if(x.conc())
        return cv(x.w, ~x.c);
    V ones = x.w <= 64 ? cv(x.w, ~0ULL) : mkWide(llvm::APInt::getAllOnes(x.w));
    return mkBin(Op::Xor, x, ones);
}
static inline V mkEq(const V &a, const V &b) { return mkBin(Op::Eq, a, b); }
static inline V mkAnd(const V &a, const V &b) { return mkBin(Op::And, a, b); }
static inline V mkOr(const V &a, const V &b) { return mkBin(Op::Or, a, b); }
bool isConst(const V &v);
llvm::APInt constAP(const V &v);
static inline bool isTrue(const V &v) { return v.conc() && v.c == 1; }
static inline bool isFalse(const V &v) { return v.conc() && v.c == 0; }

using Model = std::vector<uint64_t>; // symbol index -> value (missing = 0)
V evalNode(const Node *n, const Model &m); // result is constant
static inline bool evalBool(const V &v, const Model &m) {
    if(v.conc())
        return v.c & 1;
    return evalNode(v.n, m).c & 1;
}
const std::vector<uint32_t> &symsOf(const Node *n);
uint32_t symsetOf(const Node *n);
const std::vector<uint32_t> &symset(uint32_t id);
size_t numNodes();
std::string exprStr(const Node *n, int depth = 6);
uint32_t symWidth(uint32_t idx);
