#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include "expr.h"
#include <algorithm>
#include <cassert>
#include <deque>
#include <map>
#include <unordered_set>
using llvm::APInt;

namespace {
    struct Key {
        const Node *n;
    };
    uint64_t mix(uint64_t h, uint64_t x) {
        h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdULL;
    }
    uint64_t hashNode(const Node &n) {
        uint64_t h = (uint64_t)n.op * 1315423911u + n.w;
        h = mix(h, n.aux);
        h = mix(h, n.a ? n.a->id + 1 : 0);
        h = mix(h, n.b ? n.b->id + 1 : 0);
        h = mix(h, n.c ? n.c->id + 1 : 0);
        if(n.op == Op::Const) {
            if(n.w <= 64)
                h = mix(h, n.val);
            else
                h = mix(h, (uint64_t)llvm::hash_value(*n.wide));
        }
        return h ^ (h >> 29);
    }
    bool sameNode(const Node &x, const Node &y) {
        if(x.op != y.op || x.w != y.w || x.aux != y.aux || x.a != y.a || x.b != y.b || x.c != y.c)
            return false;
        if(x.op == Op::Const)
            return x.w <= 64 ? x.val == y.val : *x.wide == *y.wide;
        return true;
    }
    // open addressing table
    struct Table {
        std::vector<const Node *> t;
        size_t cnt = 0;
        Table() : t(1 << 16, nullptr) {}
        const Node **slot(const Node &k) {
            size_t m = t.size() - 1;
            size_t i = hashNode(k) & m;
            while(t[i] && !sameNode(*t[i], k))
                i = (i + 1) & m;
            return &t[i];
        }
        void grow() {
            std::vector<const Node *> o;
            o.swap(t);
            t.assign(o.size() * 2, nullptr);
            for(auto *n : o)
                if(n)
                    *slot(*n) = n;
        }
    };
    Table tab;
    std::deque<Node> arena;
    std::vector<uint32_t> symW;
    // interned symbol sets
    std::vector<std::vector<uint32_t>> sets{{}};
    std::map<std::vector<uint32_t>, uint32_t> setIds{{{}, 0}};
    std::unordered_map<uint64_t, uint32_t> unionCache;
    uint32_t internSet(std::vector<uint32_t> s) {
        auto it = setIds.find(s);
        if(it != setIds.end())
            return it->second;
        uint32_t id = sets.size();
        sets.push_back(s);
        setIds.emplace(std::move(s), id);
        return id;
    }
    uint32_t unionSet(uint32_t a, uint32_t b) {
        if(a == b || b == 0)
            return a;
        if(a == 0)
            return b;
        if(a > b)
            std::swap(a, b);
        uint64_t k = ((uint64_t)a << 32) | b;
        auto it = unionCache.find(k);
        if(it != unionCache.end())
            return it->second;
        std::vector<uint32_t> r;
        std::set_union(sets[a].begin(), sets[a].end(), sets[b].begin(), sets[b].end(), std::back_inserter(r));
        uint32_t id = internSet(std::move(r));
        unionCache[k] = id;
        return id;
    }
    const Node *intern(Node n) {
        auto **s = tab.slot(n);
        if(*s)
            return *s;
        n.id = arena.size();
        if(n.op == Op::Const)
            n.symset = 0;
        else if(n.op == Op::Sym)
            n.symset = internSet({n.aux});
        else {
            uint32_t u = n.a ? n.a->symset : 0;
            if(n.b)
                u = unionSet(u, n.b->symset);
            if(n.c)
                u = unionSet(u, n.c->symset);
            n.symset = u;
        }
        arena.push_back(n);
        *s = &arena.back();
        const Node *r = *s;
        if(++tab.cnt * 2 > tab.t.size())
            tab.grow();
        return r;
    }
    const Node *mk(Op op, uint32_t w, const Node *a, const Node *b = nullptr, const Node *c = nullptr, uint32_t aux = 0) {
        Node n{};
        n.op = op;
        n.w = w;
        n.a = a;
        n.b = b;
        n.c = c;
        n.aux = aux;
        return intern(n);
    }
    V N(const Node *n) { return fromNode(n); }
}

V mkWide(const APInt &x) {
    if(x.getBitWidth() <= 64)
        return cv(x.getBitWidth(), x.getZExtValue());
    Node n{};
    n.op = Op::Const;
    n.w = x.getBitWidth();
    APInt tmp = x;
    n.wide = &tmp;
    auto **s = tab.slot(n);
    V v;
    v.w = n.w;
    if(*s) {
        v.n = *s;
        return v;
    }
    n.wide = new APInt(x);
    v.n = intern(n);
    return v;
}
V fromNode(const Node *n) {
    V v;
    v.w = n->w;
    if(n->op == Op::Const && n->w <= 64) {
        v.c = n->val;
        return v;
    }
    v.n = n;
    return v;
}
const Node *toNode(const V &v) {
    if(v.n)
        return v.n;
    Node n{};
    n.op = Op::Const;
    n.w = v.w;
    n.val = v.c;
    return intern(n);
}
V mkSym(uint32_t w, uint32_t idx) {
    if(symW.size() <= idx)
        symW.resize(idx + 1, 0);
    assert(symW[idx] == 0 || symW[idx] == w);
    symW[idx] = w;
    Node n{};
    n.op = Op::Sym;
    n.w = w;
    n.aux = idx;
    return fromNode(intern(n));
}
uint32_t symWidth(uint32_t idx) { return idx < symW.size() ? symW[idx] : 0; }
bool isConst(const V &v) { return !v.n || v.n->op == Op::Const; }
APInt constAP(const V &v) {
    if(!v.n)
        return APInt(v.w, v.c);
    assert(v.n->op == Op::Const);
    return *v.n->wide;
}
const std::vector<uint32_t> &symsOf(const Node *n) { return sets[n->symset]; }
uint32_t symsetOf(const Node *n) { return n->symset; }
const std::vector<uint32_t> &symset(uint32_t id) { return sets[id]; }
size_t numNodes() { return arena.size(); }

static int64_t sx(uint64_t c, uint32_t w) {
    if(w >= 64)
        return (int64_t)c;
    uint64_t s = 1ULL << (w - 1);
    return (int64_t)((c ^ s) - s);
}

static V foldBin(Op op, const V &a, const V &b) {
    uint32_t w = a.w;
    if(w <= 64) {
        uint64_t x = a.c, y = b.c;
        switch(op) {
            case Op::Add: return cv(w, x + y);
            case Op::Sub: return cv(w, x - y);
            case Op::Mul: return cv(w, x * y);
            case Op::UDiv: return cv(w, y ? x / y : maskw(w));
            case Op::URem: return cv(w, y ? x % y : x);
            case Op::SDiv: {
                int64_t p = sx(x, w), q = sx(y, w);
                if(q == 0)
                    return cv(w, p < 0 ? 1 : ~0ULL);
                if(q == -1)
                    return cv(w, (uint64_t)0 - (uint64_t)p);
                return cv(w, (uint64_t)(p / q));
            }
            case Op::SRem: {
                int64_t p = sx(x, w), q = sx(y, w);
                if(q == 0)
                    return a;
                if(q == -1)
                    return cv(w, 0);
                return cv(w, (uint64_t)(p % q));
            }
            case Op::And: return cv(w, x & y);
            case Op::Or: return cv(w, x | y);
            case Op::Xor: return cv(w, x ^ y);
            case Op::Shl: return cv(w, y >= w ? 0 : x << y);
            case Op::LShr: return cv(w, y >= w ? 0 : x >> y);
            case Op::AShr: return cv(w, (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)));
            case Op::Eq: return cv(1, x == y);
            case Op::Ult: return cv(1, x < y);
            case Op::Ule: return cv(1, x <= y);
            case Op::Slt: return cv(1, sx(x, w) < sx(y, w));
            case Op::Sle: return cv(1, sx(x, w) <= sx(y, w));
            default: abort();
        }
    }
    APInt x = constAP(a), y = constAP(b);
    switch(op) {
        case Op::Add: return mkWide(x + y);
        case Op::Sub: return mkWide(x - y);
        case Op::Mul: return mkWide(x * y);
        case Op::UDiv: return mkWide(y.isZero() ? APInt::getAllOnes(w) : x.udiv(y));
        case Op::URem: return mkWide(y.isZero() ? x : x.urem(y));
        case Op::SDiv: return mkWide(y.isZero() ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : x.sdiv(y));
        case Op::SRem: return mkWide(y.isZero() ? x : x.srem(y));
        case Op::And: return mkWide(x & y);
        case Op::Or: return mkWide(x | y);
        case Op::Xor: return mkWide(x ^ y);
        case Op::Shl: return mkWide(y.uge(w) ? APInt(w, 0) : x.shl(y));
        case Op::LShr: return mkWide(y.uge(w) ? APInt(w, 0) : x.lshr(y));
        case Op::AShr: return mkWide(y.uge(w) ? x.ashr(w - 1) : x.ashr(y));
        case Op::Eq: return cv(1, x == y);
        case Op::Ult: return cv(1, x.ult(y));
        case Op::Ule: return cv(1, x.ule(y));
        case Op::Slt: return cv(1, x.slt(y));
        case Op::Sle: return cv(1, x.sle(y));
        default: abort();
    }
}

static bool isZero(const V &v) {
    if(!v.n)
        return v.c == 0;
    return v.n->op == Op::Const && v.n->wide->isZero();
}
static bool isOnes(const V &v) {
    if(!v.n)
        return v.c == maskw(v.w);
    return v.n->op == Op::Const && v.n->wide->isAllOnes();
}

// Split into segments, low first; a null V (w set, n null, c==0, flagged) = zero segment.
struct Seg {
    uint32_t lo, w;
    V v;
    bool zero;
};
static bool segs(const V &x, uint32_t lo, std::vector<Seg> &out, int depth = 0) {
    if(out.size() > 64)
        return false;
    if(isZero(x)) {
        out.push_back({lo, x.w, x, true});
        return true;
    }
    if(x.n && depth < 40) {
        if(x.n->op == Op::Concat) {
            return segs(N(x.n->b), lo, out, depth + 1) && segs(N(x.n->a), lo + x.n->b->w, out, depth + 1);
        }
        if(x.n->op == Op::ZExt) {
            if(!segs(N(x.n->a), lo, out, depth + 1))
                return false;
            out.push_back({lo + x.n->a->w, x.w - x.n->a->w, x, true});
            return true;
        }
    }
    out.push_back({lo, x.w, x, false});
    return true;
}
static bool hasZeroSeg(const V &x) {
    return x.n && (x.n->op == Op::ZExt || (x.n->op == Op::Concat));
}
// If a and b never have both non-zero segments at the same position, return concat.
static bool disjointOr(const V &a, const V &b, V &res) {
    if(!hasZeroSeg(a) || !hasZeroSeg(b))
        return false;
    std::vector<Seg> sa, sb;
    if(!segs(a, 0, sa) || !segs(b, 0, sb))
        return false;
    bool za = false, zb = false;
    for(auto &s : sa)
        za |= s.zero;
    for(auto &s : sb)
        zb |= s.zero;
    if(!za || !zb)
        return false;
    std::vector<uint32_t> cuts;
    for(auto &s : sa)
        cuts.push_back(s.lo);
    for(auto &s : sb)
        cuts.push_back(s.lo);
    cuts.push_back(a.w);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    auto at = [](std::vector<Seg> &s, uint32_t p) -> Seg & {
        for(auto &x : s)
            if(p >= x.lo && p < x.lo + x.w)
                return x;
        abort();
    };
    V r;
    bool first = true;
    for(size_t i = 0; i + 1 < cuts.size(); i++) {
        uint32_t lo = cuts[i], w = cuts[i + 1] - lo;
        Seg &x = at(sa, lo), &y = at(sb, lo);
        V p;
        if(x.zero && y.zero)
            p = w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
        else if(x.zero)
            p = mkExtract(y.v, lo - y.lo, w);
        else if(y.zero)
            p = mkExtract(x.v, lo - x.lo, w);
        else
            return false;
        r = first ? p : mkConcat(p, r);
        first = false;
    }
    res = r;
    return true;
}

static V andMask(const V &x, const APInt &m) { // x & const
    uint32_t w = x.w;
    // number of runs
    unsigned runs = 0;
    for(uint32_t i = 0; i < w; i++)
        if(m[i] && (i == 0 || !m[i - 1]))
            runs++;
    if(runs > 2)
        return V{};
    V r;
    bool first = true;
    uint32_t i = 0;
    while(i < w) {
        uint32_t j = i;
        while(j < w && m[j] == m[i])
            j++;
        V p;
        if(m[i])
            p = mkExtract(x, i, j - i);
        else
            p = (j - i) <= 64 ? cv(j - i, 0) : mkWide(APInt(j - i, 0));
        r = first ? p : mkConcat(p, r);
        first = false;
        i = j;
    }
    return r;
}

V mkBin(Op op, const V &a0, const V &b0) {
    if(a0.conc() && b0.conc())
        return foldBin(op, a0, b0);
    if(isConst(a0) && isConst(b0))
        return foldBin(op, a0, b0);
    V a = a0, b = b0;
    assert(a.w == b.w);
    uint32_t w = a.w;
    switch(op) { // constants to the right
        case Op::Add:
        case Op::Mul:
        case Op::And:
        case Op::Or:
        case Op::Xor:
        case Op::Eq:
            if(isConst(a))
                std::swap(a, b);
            else if(!isConst(b) && a.n->id > b.n->id)
                std::swap(a, b);
            break;
        default: break;
    }
    bool same = a.n && a.n == b.n;
    // a choice between two constants against a constant: compute both outcomes
    if(w > 1 && w <= 64 && (isConst(a) != isConst(b)) && op != Op::UDiv && op != Op::SDiv && op != Op::URem && op != Op::SRem) {
        const Node *t = isConst(a) ? b.n : a.n;
        if(t->op == Op::Ite) {
            bool cx = t->b->op == Op::Const, cy = t->c->op == Op::Const;
            if((cx && cy) || ((cx || cy) && (op == Op::Ult || op == Op::Ule))) {
                auto f = [&](const Node *x) {
                    return isConst(a) ? mkBin(op, a, N(x)) : mkBin(op, N(x), b);
                };
                V x = f(t->b), y = f(t->c);
                return mkIte(N(t->a), x, y);
            }
        }
    }
    switch(op) {
        case Op::Add:
            if(isZero(b))
                return a;
            if(w == 1)
                return mkBin(Op::Xor, a, b);
            if(isConst(b) && a.n->op == Op::Add && a.n->b->op == Op::Const)
                return mkBin(Op::Add, N(a.n->a), foldBin(Op::Add, N(a.n->b), b));
            {
                V r;
                if(!isConst(b) && disjointOr(a, b, r))
                    return r;
            }
            // hoist constants: (x+c)+y -> (x+y)+c
            if(!isConst(b)) {
                if(a.n->op == Op::Add && a.n->b->op == Op::Const)
                    return mkBin(Op::Add, mkBin(Op::Add, N(a.n->a), b), N(a.n->b));
                if(b.n->op == Op::Add && b.n->b->op == Op::Const)
                    return mkBin(Op::Add, mkBin(Op::Add, a, N(b.n->a)), N(b.n->b));
                // (x - y) + y -> x
                if(a.n->op == Op::Sub && a.n->b == b.n)
                    return N(a.n->a);
                if(b.n->op == Op::Sub && b.n->b == a.n)
                    return N(b.n->a);
            }
            break;
        case Op::Sub:
            if(same)
                return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
            if(isZero(b))
                return a;
            if(isConst(b))
                return mkBin(Op::Add, a, foldBin(Op::Sub, w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0)), b));
            if(a.n && a.n->op == Op::Add) {
                if(a.n->a == b.n)
                    return N(a.n->b);
                if(a.n->b == b.n)
                    return N(a.n->a);
                if(a.n->b->op == Op::Const)
                    return mkBin(Op::Add, mkBin(Op::Sub, N(a.n->a), b), N(a.n->b));
            }
            if(b.n && b.n->op == Op::Add && b.n->b->op == Op::Const) {
                V k = N(b.n->b);
                return mkBin(Op::Sub, mkBin(Op::Sub, a, k), N(b.n->a));
            }
            break;
        case Op::Mul:
            if(isZero(b))
                return b;
            if(isConst(b)) {
                APInt k = constAP(b);
                if(k == 1)
                    return a;
                if(k.isPowerOf2())
                    return mkBin(Op::Shl, a, w <= 64 ? cv(w, k.logBase2()) : mkWide(APInt(w, k.logBase2())));
            }
            break;
        case Op::UDiv:
            if(isConst(b)) {
                APInt k = constAP(b);
                if(k == 1)
                    return a;
                if(k.isPowerOf2())
                    return mkBin(Op::LShr, a, w <= 64 ? cv(w, k.logBase2()) : mkWide(APInt(w, k.logBase2())));
            }
            break;
        case Op::URem:
            if(isConst(b)) {
                APInt k = constAP(b);
                if(k.isPowerOf2())
                    return mkBin(Op::And, a, mkWide(k - 1));
            }
            break;
        case Op::And:
            if(same)
                return a;
            if(isZero(b))
                return b;
            if(isOnes(b))
                return a;
            if(isConst(b)) {
                V r = andMask(a, constAP(b));
                if(r.w)
                    return r;
            }
            if(w == 1 && !isConst(b)) { // x & !x
                if(a.n->op == Op::Xor && a.n->a == b.n && a.n->b->op == Op::Const)
                    return cv(1, 0);
                if(b.n->op == Op::Xor && b.n->a == a.n && b.n->b->op == Op::Const)
                    return cv(1, 0);
            }
            break;
        case Op::Or:
            if(same)
                return a;
            if(isZero(b))
                return a;
            if(isOnes(b))
                return b;
            if(w == 1 && !isConst(b)) {
                if(a.n->op == Op::Xor && a.n->a == b.n && a.n->b->op == Op::Const)
                    return cv(1, 1);
                if(b.n->op == Op::Xor && b.n->a == a.n && b.n->b->op == Op::Const)
                    return cv(1, 1);
            }
            {
                V r;
                if(!isConst(b) && disjointOr(a, b, r))
                    return r;
            }
            break;
        case Op::Xor:
            if(same)
                return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
            if(isZero(b))
                return a;
            if(isConst(b) && a.n->op == Op::Xor && a.n->b->op == Op::Const)
                return mkBin(Op::Xor, N(a.n->a), foldBin(Op::Xor, N(a.n->b), b));
            if(w == 1 && isTrue(b)) {
                // !(x<y) etc.
                const Node *n = a.n;
                switch(n->op) {
                    case Op::Ult: return mkBin(Op::Ule, N(n->b), N(n->a));
                    case Op::Ule: return mkBin(Op::Ult, N(n->b), N(n->a));
                    case Op::Slt: return mkBin(Op::Sle, N(n->b), N(n->a));
                    case Op::Sle: return mkBin(Op::Slt, N(n->b), N(n->a));
                    default: break;
                }
            }
            {
                V r;
                if(!isConst(b) && disjointOr(a, b, r))
                    return r;
            }
            break;
        case Op::Shl:
            if(isZero(b))
                return a;
            if(isConst(b)) {
                APInt k = constAP(b);
                if(k.uge(w))
                    return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
                uint32_t s = k.getZExtValue();
                return mkConcat(mkExtract(a, 0, w - s), s <= 64 ? cv(s, 0) : mkWide(APInt(s, 0)));
            }
            break;
        case Op::LShr:
            if(isZero(b))
                return a;
            if(isConst(b)) {
                APInt k = constAP(b);
                if(k.uge(w))
                    return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
                uint32_t s = k.getZExtValue();
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            break;
        case Op::AShr:
            if(isZero(b))
                return a;
            if(isConst(b)) {
                APInt k = constAP(b);
                uint32_t s = k.uge(w) ? w - 1 : k.getZExtValue();
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            break;
        case Op::Eq:
            if(same)
                return cv(1, 1);
            if(w == 1 && isConst(b))
                return isTrue(b) ? a : mkNot(a);
            if(isConst(b)) {
                const Node *n = a.n;
                switch(n->op) {
                    case Op::Ite: {
                        V x = N(n->b), y = N(n->c);
                        if(isConst(x) || isConst(y)) {
                            V ex = mkEq(x, b), ey = mkEq(y, b);
                            return mkIte(N(n->a), ex, ey);
                        }
                        break;
                    }
                    case Op::ZExt: {
                        APInt k = constAP(b);
                        uint32_t iw = n->a->w;
                        if(k.getActiveBits() > iw)
                            return cv(1, 0);
                        return mkEq(N(n->a), mkWide(k.trunc(iw)));
                    }
                    case Op::SExt: {
                        APInt k = constAP(b);
                        uint32_t iw = n->a->w;
                        if(k.trunc(iw).sext(w) != k)
                            return cv(1, 0);
                        return mkEq(N(n->a), mkWide(k.trunc(iw)));
                    }
                    case Op::Concat: {
                        APInt k = constAP(b);
                        uint32_t lw = n->b->w;
                        V lo = mkEq(N(n->b), mkWide(k.trunc(lw)));
                        if(isFalse(lo))
                            return lo;
                        V hi = mkEq(N(n->a), mkWide(k.lshr(lw).trunc(w - lw)));
                        return mkAnd(hi, lo);
                    }
                    case Op::Add:
                        if(n->b->op == Op::Const)
                            return mkEq(N(n->a), foldBin(Op::Sub, b, N(n->b)));
                        break;
                    case Op::Xor:
                        if(n->b->op == Op::Const)
                            return mkEq(N(n->a), foldBin(Op::Xor, b, N(n->b)));
                        if(isZero(b))
                            return mkEq(N(n->a), N(n->b));
                        break;
                    case Op::Sub:
                        if(isZero(b))
                            return mkEq(N(n->a), N(n->b));
                        break;
                    case Op::Or:
                        if(isZero(b))
                            return mkAnd(mkEq(N(n->a), b), mkEq(N(n->b), b));
                        break;
                    default: break;
                }
            } else {
                // Eq of two concats with the same split
                if(a.n->op == Op::Concat && b.n->op == Op::Concat && a.n->b->w == b.n->b->w) {
                    V lo = mkEq(N(a.n->b), N(b.n->b));
                    if(isFalse(lo))
                        return lo;
                    V hi = mkEq(N(a.n->a), N(b.n->a));
                    return mkAnd(hi, lo);
                }
                if(a.n->op == Op::ZExt && b.n->op == Op::ZExt && a.n->a->w == b.n->a->w)
                    return mkEq(N(a.n->a), N(b.n->a));
                if(a.n->op == Op::Add && b.n->op == Op::Add && a.n->b == b.n->b)
                    return mkEq(N(a.n->a), N(b.n->a));
            }
            break;
        case Op::Ult:
            if(same)
                return cv(1, 0);
            if(isZero(b))
                return cv(1, 0);
            if(isOnes(a))
                return cv(1, 0);
            if(isZero(a))
                return mkNot(mkEq(b, a));
            if(isConst(b) && constAP(b) == 1)
                return mkEq(a, w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0)));
            if(w == 1)
                return mkAnd(mkNot(a), b);
            if(isConst(b) && a.n->op == Op::ZExt) {
                APInt k = constAP(b);
                uint32_t iw = a.n->a->w;
                if(k.getActiveBits() > iw)
                    return cv(1, 1);
                return mkBin(Op::Ult, N(a.n->a), mkWide(k.trunc(iw)));
            }
            if(isConst(a) && b.n->op == Op::ZExt) {
                APInt k = constAP(a);
                uint32_t iw = b.n->a->w;
                if(k.getActiveBits() > iw)
                    return cv(1, 0);
                return mkBin(Op::Ult, mkWide(k.trunc(iw)), N(b.n->a));
            }
            if(!isConst(a) && !isConst(b) && a.n->op == Op::ZExt && b.n->op == Op::ZExt && a.n->a->w == b.n->a->w)
                return mkBin(Op::Ult, N(a.n->a), N(b.n->a));
            break;
        case Op::Ule:
            if(same)
                return cv(1, 1);
            if(isZero(a))
                return cv(1, 1);
            if(isOnes(b))
                return cv(1, 1);
            if(isZero(b))
                return mkEq(a, b);
            if(isConst(b) || isConst(a)) {
                // a <= k  ==  a < k+1 ; k <= b  ==  !(b < k)
                if(isConst(b))
                    return mkBin(Op::Ult, a, foldBin(Op::Add, b, w <= 64 ? cv(w, 1) : mkWide(APInt(w, 1))));
                // k <= b, k>0:  k-1 < b
                return mkBin(Op::Ult, foldBin(Op::Sub, a, w <= 64 ? cv(w, 1) : mkWide(APInt(w, 1))), b);
            }
            if(a.n->op == Op::ZExt && b.n->op == Op::ZExt && a.n->a->w == b.n->a->w)
                return mkBin(Op::Ule, N(a.n->a), N(b.n->a));
            break;
        case Op::Slt:
            if(same)
                return cv(1, 0);
            if(!isConst(a) && isConst(b) && a.n->op == Op::ZExt && !constAP(b).isNegative())
                return mkBin(Op::Ult, a, b);
            if(!isConst(a) && isConst(b) && a.n->op == Op::ZExt && constAP(b).isNegative())
                return cv(1, 0);
            if(isConst(a) && !isConst(b) && b.n->op == Op::ZExt) {
                if(constAP(a).isNegative())
                    return cv(1, 1);
                return mkBin(Op::Ult, a, b);
            }
            break;
        case Op::Sle:
            if(same)
                return cv(1, 1);
            if(!isConst(a) && isConst(b) && a.n->op == Op::ZExt) {
                if(constAP(b).isNegative())
                    return cv(1, 0);
                return mkBin(Op::Ule, a, b);
            }
            if(isConst(a) && !isConst(b) && b.n->op == Op::ZExt) {
                if(constAP(a).isNegative())
                    return cv(1, 1);
                return mkBin(Op::Ule, a, b);
            }
            break;
        default: break;
    }
    uint32_t rw = (op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle) ? 1 : w;
    return fromNode(mk(op, rw, toNode(a), toNode(b)));
}

V mkIte(const V &c, const V &a, const V &b) {
    if(c.conc())
        return c.c ? a : b;
    if(a.conc() && b.conc() && a.c == b.c)
        return a;
    if(a.n && a.n == b.n)
        return a;
    if(a.w == 1) {
        if(isTrue(a) && isFalse(b))
            return c;
        if(isFalse(a) && isTrue(b))
            return mkNot(c);
        if(isTrue(a))
            return mkOr(c, b);
        if(isFalse(a))
            return mkAnd(mkNot(c), b);
        if(isTrue(b))
            return mkOr(mkNot(c), a);
        if(isFalse(b))
            return mkAnd(c, a);
    }
    // nested same-condition
    V a2 = a, b2 = b;
    if(a2.n && a2.n->op == Op::Ite && a2.n->a == c.n)
        a2 = fromNode(a2.n->b);
    if(b2.n && b2.n->op == Op::Ite && b2.n->a == c.n)
        b2 = fromNode(b2.n->c);
    // ite(c, x ^ k, x) -> x ^ (c ? k : 0) for constant k
    if(a.n && b.n && a.w > 1 && a.w <= 64) {
        auto flip = [&](const Node *p, const Node *q, const V &on) -> V {
            if(p->op != Op::Xor)
                return V{};
            const Node *k = p->a == q ? p->b : p->b == q ? p->a : nullptr;
            if(!k || !fromNode(k).conc())
                return V{};
            return mkBin(Op::Xor, fromNode(q), mkBin(Op::And, mkSExt(on, a.w), fromNode(k)));
        };
        if(auto r = flip(a.n, b.n, c); r.w)
            return r;
        if(auto r = flip(b.n, a.n, mkNot(c)); r.w)
            return r;
    }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    return fromNode(mk(Op::Ite, a.w, toNode(c), toNode(a2), toNode(b2)));
}

V mkConcat(const V &hi, const V &lo) {
    uint32_t w = hi.w + lo.w;
    if(isConst(hi) && isConst(lo)) {
        if(w <= 64)
            return cv(w, (hi.c << lo.w) | lo.c);
        APInt x = constAP(hi).zext(w).shl(lo.w) | constAP(lo).zext(w);
        return mkWide(x);
    }
    if(isZero(hi))
        return mkZExt(lo, w);
    const Node *h = hi.n, *l = lo.n;
    // adjacent extracts
    auto ext = [](const Node *n, const Node *&src, uint32_t &off) {
        if(n->op == Op::Extract) {
            src = n->a;
            off = n->aux;
        } else {
            src = n;
            off = 0;
        }
    };
    if(h && l) {
        const Node *hs, *ls;
        uint32_t ho, lo_;
        ext(h, hs, ho);
        ext(l, ls, lo_);
        if(hs == ls && ho == lo_ + l->w && h->op == Op::Extract)
            return mkExtract(fromNode(hs), lo_, w);
        // lo = Concat(x, y): merge hi with x if adjacent
        if(l->op == Op::Concat) {
            const Node *xs;
            uint32_t xo;
            ext(l->a, xs, xo);
            if(h->op == Op::Extract && hs == xs && ho == xo + l->a->w)
                return mkConcat(mkExtract(fromNode(hs), xo, h->w + l->a->w), fromNode(l->b));
        }
        if(l->op == Op::ZExt && false)
            return hi;
    }
    if(h && l && h->op == Op::Ite && l->op == Op::Ite && h->a == l->a && w <= 64 && (h->b->op == Op::Const || h->c->op == Op::Const))
        return mkIte(fromNode(h->a), mkConcat(fromNode(h->b), fromNode(l->b)), mkConcat(fromNode(h->c), fromNode(l->c)));
    // right-associate: Concat(Concat(a,b),c) -> Concat(a,Concat(b,c))
    if(h && h->op == Op::Concat)
        return mkConcat(fromNode(h->a), mkConcat(fromNode(h->b), lo));
    if(h && h->op == Op::ZExt) { // 0..x : lo -> zext(x:lo)
        return mkZExt(mkConcat(fromNode(h->a), lo), w);
    }
    // constants adjacent
    if(isConst(hi) && l && l->op == Op::Concat && l->a->op == Op::Const)
        return mkConcat(mkConcat(hi, fromNode(l->a)), fromNode(l->b));
    return fromNode(mk(Op::Concat, w, toNode(hi), toNode(lo)));
}

V mkExtract(const V &x, uint32_t lo, uint32_t w) {
    if(x.conc())
        return cv(w, x.c >> lo);
    if(w == x.w)
        return x;
    const Node *n = x.n;
    switch(n->op) {
        case Op::Const: return mkWide(n->wide->extractBits(w, lo));
        case Op::Extract: return mkExtract(fromNode(n->a), n->aux + lo, w);
        case Op::Concat: {
            uint32_t lw = n->b->w;
            if(lo + w <= lw)
                return mkExtract(fromNode(n->b), lo, w);
            if(lo >= lw)
                return mkExtract(fromNode(n->a), lo - lw, w);
            return mkConcat(mkExtract(fromNode(n->a), 0, lo + w - lw), mkExtract(fromNode(n->b), lo, lw - lo));
        }
        case Op::ZExt: {
            uint32_t iw = n->a->w;
            if(lo >= iw)
                return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0));
            if(lo + w <= iw)
                return mkExtract(fromNode(n->a), lo, w);
            return mkZExt(mkExtract(fromNode(n->a), lo, iw - lo), w);
        }
        case Op::SExt: {
            uint32_t iw = n->a->w;
            if(lo + w <= iw)
                return mkExtract(fromNode(n->a), lo, w);
            break;
        }
        case Op::Ite:
            if(n->b->op == Op::Const || n->c->op == Op::Const)
                return mkIte(fromNode(n->a), mkExtract(fromNode(n->b), lo, w), mkExtract(fromNode(n->c), lo, w));
            break;
        case Op::And:
        case Op::Or:
        case Op::Xor:
            return mkBin(n->op, mkExtract(fromNode(n->a), lo, w), mkExtract(fromNode(n->b), lo, w));
        case Op::Add:
        case Op::Sub:
        case Op::Mul:
            if(lo == 0 && w != 8) // single bytes are kept as they are: they are put together again later
                return mkBin(n->op, mkExtract(fromNode(n->a), 0, w), mkExtract(fromNode(n->b), 0, w));
            break;
        default: break;
    }
    return fromNode(mk(Op::Extract, w, n, nullptr, nullptr, lo));
}

V mkZExt(const V &x, uint32_t w) {
    if(w == x.w)
        return x;
    if(isConst(x)) {
        if(w <= 64)
            return cv(w, x.c);
        return mkWide(constAP(x).zext(w));
    }
    if(x.n->op == Op::ZExt)
        return mkZExt(fromNode(x.n->a), w);
    return fromNode(mk(Op::ZExt, w, x.n));
}
V mkSExt(const V &x, uint32_t w) {
    if(w == x.w)
        return x;
    if(isConst(x)) {
        if(w <= 64)
            return cv(w, (uint64_t)sx(x.c, x.w));
        return mkWide(constAP(x).sext(w));
    }
    if(x.n->op == Op::SExt)
        return mkSExt(fromNode(x.n->a), w);
    if(x.n->op == Op::ZExt)
        return mkZExt(fromNode(x.n->a), w);
    return fromNode(mk(Op::SExt, w, x.n));
}

// evaluation under a model
static std::unordered_map<const Node *, V> *memo;
static V ev(const Node *n, const Model &m) {
    switch(n->op) {
        case Op::Const: return fromNode(n);
        case Op::Sym: return cv(n->w, n->aux < m.size() ? m[n->aux] : 0);
        default: break;
    }
    auto it = memo->find(n);
    if(it != memo->end())
        return it->second;
    V r;
    switch(n->op) {
        case Op::Ite: {
            V c = ev(n->a, m);
            r = c.c ? ev(n->b, m) : ev(n->c, m);
            break;
        }
        case Op::Concat: r = mkConcat(ev(n->a, m), ev(n->b, m)); break;
        case Op::Extract: r = mkExtract(ev(n->a, m), n->aux, n->w); break;
        case Op::ZExt: r = mkZExt(ev(n->a, m), n->w); break;
        case Op::SExt: r = mkSExt(ev(n->a, m), n->w); break;
        default: r = foldBin(n->op, ev(n->a, m), ev(n->b, m));
    }
    memo->emplace(n, r);
    return r;
}
V evalNode(const Node *n, const Model &m) {
    std::unordered_map<const Node *, V> mm;
    auto *old = memo;
    memo = &mm;
    V r = ev(n, m);
    memo = old;
    return r;
}

std::string exprStr(const Node *n, int d) {
    static const char *nm[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext"};
    if(n->op == Op::Const) {
        if(n->w <= 64)
            return std::to_string(n->val);
        llvm::SmallString<64> s;
        n->wide->toString(s, 16, false);
        return "0x" + std::string(s.c_str());
    }
    if(n->op == Op::Sym)
        return "s" + std::to_string(n->aux);
    if(d == 0)
        return "...";
    std::string r = std::string("(") + nm[(int)n->op];
    if(n->op == Op::Extract)
        r += ":" + std::to_string(n->aux) + "," + std::to_string(n->w);
    for(auto *k : {n->a, n->b, n->c})
        if(k)
            r += " " + exprStr(k, d - 1);
    return r + ")";
}
