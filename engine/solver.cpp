#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <z3.h>

SolverStats gStats;
static Z3_context ctx;
static Z3_solver fast, slow;
static unsigned tmo = 60000;
static std::vector<Z3_ast> conv; // node id -> ast

static void errh(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(3);
}
void solverInit(unsigned timeoutMs, unsigned seed) {
    tmo = timeoutMs;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, errh);
    Z3_del_config(cfg);
    fast = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, fast);
    Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
    Z3_tactic_inc_ref(ctx, t);
    slow = Z3_mk_solver_from_tactic(ctx, t);
    Z3_solver_inc_ref(ctx, slow);
    auto setp = [&](Z3_solver s, unsigned ms) {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), seed);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    };
    setp(fast, std::min(200u, tmo));
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
    Z3_solver_set_params(ctx, slow, p);
}
static std::vector<Z3_ast> convB; // node id -> bool ast
static std::unordered_map<unsigned, Z3_sort> sorts;
static Z3_sort bvSort(unsigned w) {
    auto &s = sorts[w];
    if(!s) {
        s = Z3_mk_bv_sort(ctx, w);
        Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
    }
    return s;
}
static Z3_ast one, zero;
static Z3_ast bv(Z3_ast b) { // bool (ref held by caller) -> bv1
    if(!one) {
        one = Z3_mk_unsigned_int64(ctx, 1, bvSort(1));
        Z3_inc_ref(ctx, one);
        zero = Z3_mk_unsigned_int64(ctx, 0, bvSort(1));
        Z3_inc_ref(ctx, zero);
    }
    return Z3_mk_ite(ctx, b, one, zero);
}
static Z3_ast toz(const Node *n);
static Z3_ast toBool1(const Node *n);
static Z3_ast toBool(const Node *n) {
    if(convB.size() <= n->id)
        convB.resize(std::max<size_t>(n->id + 1, convB.size() * 2), nullptr);
    if(convB[n->id])
        return convB[n->id];
    Z3_ast a = toBool1(n);
    Z3_inc_ref(ctx, a);
    if(convB.size() <= n->id)
        convB.resize(std::max<size_t>(n->id + 1, convB.size() * 2), nullptr);
    convB[n->id] = a;
    return a;
}
static Z3_ast toBool1(const Node *n) {
    // width-1 node as z3 Bool
    switch(n->op) {
        case Op::Const: return n->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        case Op::Eq:
            if(n->a->w == 1)
                return Z3_mk_iff(ctx, toBool(n->a), toBool(n->b));
            return Z3_mk_eq(ctx, toz(n->a), toz(n->b));
        case Op::Ult: return Z3_mk_bvult(ctx, toz(n->a), toz(n->b));
        case Op::Ule: return Z3_mk_bvule(ctx, toz(n->a), toz(n->b));
        case Op::Slt: return Z3_mk_bvslt(ctx, toz(n->a), toz(n->b));
        case Op::Sle: return Z3_mk_bvsle(ctx, toz(n->a), toz(n->b));
        case Op::And: {
            Z3_ast x[2] = {toBool(n->a), toBool(n->b)};
            return Z3_mk_and(ctx, 2, x);
        }
        case Op::Or: {
            Z3_ast x[2] = {toBool(n->a), toBool(n->b)};
            return Z3_mk_or(ctx, 2, x);
        }
        case Op::Xor:
            if(n->b->op == Op::Const && n->b->val == 1)
                return Z3_mk_not(ctx, toBool(n->a));
            return Z3_mk_xor(ctx, toBool(n->a), toBool(n->b));
        case Op::Ite: return Z3_mk_ite(ctx, toBool(n->a), toBool(n->b), toBool(n->c));
        default: {
            Z3_ast x = toz(n);
            bv(Z3_mk_true(ctx));
            return Z3_mk_eq(ctx, x, one);
        }
    }
}
static Z3_ast toz1(const Node *n) {
    switch(n->op) {
        case Op::Const: {
            Z3_sort s = bvSort(n->w);
            if(n->w <= 64)
                return Z3_mk_unsigned_int64(ctx, n->val, s);
            llvm::SmallString<80> str;
            n->wide->toString(str, 10, false);
            return Z3_mk_numeral(ctx, str.c_str(), s);
        }
        case Op::Sym: {
            std::string nm = "s" + std::to_string(n->aux);
            return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), bvSort(n->w));
        }
        case Op::Add: return Z3_mk_bvadd(ctx, toz(n->a), toz(n->b));
        case Op::Sub: return Z3_mk_bvsub(ctx, toz(n->a), toz(n->b));
        case Op::Mul: return Z3_mk_bvmul(ctx, toz(n->a), toz(n->b));
        case Op::UDiv: return Z3_mk_bvudiv(ctx, toz(n->a), toz(n->b));
        case Op::SDiv: return Z3_mk_bvsdiv(ctx, toz(n->a), toz(n->b));
        case Op::URem: return Z3_mk_bvurem(ctx, toz(n->a), toz(n->b));
        case Op::SRem: return Z3_mk_bvsrem(ctx, toz(n->a), toz(n->b));
        case Op::Shl: return Z3_mk_bvshl(ctx, toz(n->a), toz(n->b));
        case Op::LShr: return Z3_mk_bvlshr(ctx, toz(n->a), toz(n->b));
        case Op::AShr: return Z3_mk_bvashr(ctx, toz(n->a), toz(n->b));
        case Op::And:
        case Op::Or:
        case Op::Xor:
            if(n->w == 1)
                return bv(toBool(n));
            if(n->op == Op::And)
                return Z3_mk_bvand(ctx, toz(n->a), toz(n->b));
            if(n->op == Op::Or)
                return Z3_mk_bvor(ctx, toz(n->a), toz(n->b));
            return Z3_mk_bvxor(ctx, toz(n->a), toz(n->b));
        case Op::Eq:
        case Op::Ult:
        case Op::Ule:
        case Op::Slt:
        case Op::Sle: return bv(toBool(n));
        case Op::Ite: return Z3_mk_ite(ctx, toBool(n->a), toz(n->b), toz(n->c));
        case Op::Concat: return Z3_mk_concat(ctx, toz(n->a), toz(n->b));
        case Op::Extract: return Z3_mk_extract(ctx, n->aux + n->w - 1, n->aux, toz(n->a));
        case Op::ZExt: return Z3_mk_zero_ext(ctx, n->w - n->a->w, toz(n->a));
        case Op::SExt: return Z3_mk_sign_ext(ctx, n->w - n->a->w, toz(n->a));
    }
    abort();
}
static Z3_ast toz(const Node *n) {
    if(conv.size() <= n->id)
        conv.resize(std::max<size_t>(n->id + 1, conv.size() * 2), nullptr);
    if(conv[n->id])
        return conv[n->id];
    Z3_ast a = toz1(n);
    Z3_inc_ref(ctx, a);
    if(conv.size() <= n->id)
        conv.resize(std::max<size_t>(n->id + 1, conv.size() * 2), nullptr);
    conv[n->id] = a;
    return a;
}

struct CacheEnt {
    std::vector<uint32_t> key;
    Res r;
    std::vector<std::pair<uint32_t, uint64_t>> sol;
};
static std::unordered_map<uint64_t, std::vector<CacheEnt>> cache;

static Res z3check(const std::vector<const Node *> &cs, std::vector<std::pair<uint32_t, uint64_t>> &sol) {
    auto t0 = std::chrono::steady_clock::now();
    gStats.solverCalls++;
    std::vector<uint32_t> syms;
    {
        std::unordered_set<uint32_t> seen;
        for(auto *c : cs)
            if(seen.insert(c->symset).second)
                for(auto s : symsOf(c))
                    syms.push_back(s);
        std::sort(syms.begin(), syms.end());
        syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
    }
    Res res = Res::Unknown;
    static const bool trace = getenv("VERIF_SLOW") != nullptr;
    for(int k = 0; k < 2 && res == Res::Unknown; k++) {
        Z3_solver s = k == 0 ? fast : slow;
        auto t1 = std::chrono::steady_clock::now();
        Z3_solver_push(ctx, s);
        for(auto *c : cs) {
            Z3_solver_assert(ctx, s, toBool(c));
        }
        Z3_lbool r = Z3_solver_check(ctx, s);
        if(r == Z3_L_TRUE) {
            res = Res::Sat;
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            for(auto si : syms) {
                V sv = mkSym(symWidth(si), si);
                Z3_ast out;
                uint64_t val = 0;
                if(Z3_model_eval(ctx, m, toz(sv.n), true, &out)) {
                    Z3_inc_ref(ctx, out);
                    Z3_get_numeral_uint64(ctx, out, &val);
                    Z3_dec_ref(ctx, out);
                }
                sol.emplace_back(si, val);
            }
            Z3_model_dec_ref(ctx, m);
        } else if(r == Z3_L_FALSE)
            res = Res::Unsat;
        Z3_solver_pop(ctx, s, 1);
        if(trace && std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > 0.5)
            fprintf(stderr, "SOLVE %d %d %.2f\n", k, (int)res, std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count());
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.time += dt;
    gStats.maxTime = std::max(gStats.maxTime, dt);
    if(const char *d = getenv("VERIF_SLOW"); d && dt > (getenv("VERIF_SLOW_S") ? atof(getenv("VERIF_SLOW_S")) : 0.5)) {
        static int k = 0;
        dumpSmt2(cs, cv(1, 1), std::string(d) + "/" + std::to_string(getpid()) + "-" + std::to_string(k++) + "-" + std::to_string((int)(dt * 1000)) + (res == Res::Sat ? "-sat" : "-unsat") + ".smt2");
    }
    return res;
}

static Res cached(std::vector<const Node *> &cs, std::vector<std::pair<uint32_t, uint64_t>> &sol) {
    std::sort(cs.begin(), cs.end(), [](auto *a, auto *b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key;
    uint64_t h = 1469598103934665603ULL;
    for(auto *c : cs) {
        key.push_back(c->id);
        h = (h ^ c->id) * 1099511628211ULL;
        h ^= h >> 31;
    }
    auto &bucket = cache[h];
    for(auto &e : bucket)
        if(e.key == key) {
            gStats.cacheHits++;
            sol = e.sol;
            return e.r;
        }
    CacheEnt e;
    e.key = key;
    e.r = z3check(cs, e.sol);
    sol = e.sol;
    Res r = e.r;
    bucket.push_back(std::move(e));
    return r;
}

struct Fixed {
    static std::vector<uint64_t> value;
    static std::vector<uint8_t> set;
    std::vector<uint32_t> syms;
    std::unordered_map<uint32_t, bool> touches; // symbol set -> has a fixed symbol
    std::unordered_map<const Node *, V> memo;
    void fix(const Node *sym, uint64_t v) {
        uint32_t i = sym->aux;
        if(set.size() <= i) {
            set.resize(i * 2 + 16, 0);
            value.resize(i * 2 + 16, 0);
        }
        if(!set[i]) {
            set[i] = 1;
            value[i] = v;
            syms.push_back(i);
        }
    }
    explicit Fixed(const std::vector<const Node *> &constraints) {
        for(auto *n : constraints) {
            if(n->op == Op::Eq && n->a->op == Op::Sym && n->b->op == Op::Const && n->a->w <= 64)
                fix(n->a, n->b->val);
            else if(n->op == Op::Sym && n->w == 1)
                fix(n, 1);
            else if(n->op == Op::Xor && n->w == 1 && n->a->op == Op::Sym && n->b->op == Op::Const && n->b->val == 1)
                fix(n->a, 0);
        }
    }
    ~Fixed() {
        for(auto i : syms)
            set[i] = 0;
    }
    bool touched(const Node *n) {
        auto [it, fresh] = touches.emplace(n->symset, false);
        if(fresh)
            for(auto s : symsOf(n))
                if(s < set.size() && set[s]) {
                    it->second = true;
                    break;
                }
        return it->second;
    }
    V subst(const V &v) {
        if(v.conc() || syms.empty() || !touched(v.n))
            return v;
        return go(v.n);
    }
    V go(const Node *n) {
        if(n->op == Op::Const || !touched(n))
            return fromNode(n);
        if(n->op == Op::Sym)
            return cv(n->w, value[n->aux]);
        auto it = memo.find(n);
        if(it != memo.end())
            return it->second;
        V r;
        switch(n->op) {
            case Op::Ite: {
                V c = go(n->a);
                r = c.conc() ? go(c.c ? n->b : n->c) : mkIte(c, go(n->b), go(n->c));
                break;
            }
            case Op::Concat: r = mkConcat(go(n->a), go(n->b)); break;
            case Op::Extract: r = mkExtract(go(n->a), n->aux, n->w); break;
            case Op::ZExt: r = mkZExt(go(n->a), n->w); break;
            case Op::SExt: r = mkSExt(go(n->a), n->w); break;
            case Op::And:
            case Op::Or: {
                V x = go(n->a);
                if(n->w == 1 && x.conc() && x.c == (n->op == Op::Or ? 1 : 0))
                    r = x;
                else
                    r = mkBin(n->op, x, go(n->b));
                break;
            }
            default: r = mkBin(n->op, go(n->a), go(n->b));
        }
        memo.emplace(n, r);
        return r;
    }
};
std::vector<uint64_t> Fixed::value;
std::vector<uint8_t> Fixed::set;

Res solve(const std::vector<const Node *> &constraints, const V &cond, const Model &base, Model *model) {
    gStats.queries++;
    if(cond.conc()) {
        if(cond.c && model)
            *model = base;
        return cond.c ? Res::Sat : Res::Unsat;
    }
    // Symbols that the constraints give one value are replaced by it, and do not connect constraints.
    Fixed fx(constraints);
    V q = fx.subst(cond);
    if(q.conc()) {
        if(q.c && model)
            *model = base;
        if(q.c)
            gStats.sat++;
        else
            gStats.unsat++;
        return q.c ? Res::Sat : Res::Unsat;
    }
    // slice
    std::vector<const Node *> cs{q.n};
    std::vector<char> taken(constraints.size(), 0);
    static std::vector<uint8_t> mark;
    std::vector<uint32_t> marked;
    auto add = [&](const Node *n) {
        for(auto s : symsOf(n)) {
            if(mark.size() <= s)
                mark.resize(s * 2 + 16, 0);
            if(!mark[s]) {
                mark[s] = 1;
                marked.push_back(s);
            }
        }
    };
    add(q.n);
    bool ch = true;
    while(ch) {
        ch = false;
        for(size_t i = 0; i < constraints.size(); i++) {
            if(taken[i])
                continue;
            bool hit = false;
            for(auto s : symsOf(constraints[i]))
                if(s < mark.size() && mark[s]) {
                    hit = true;
                    break;
                }
            if(hit) {
                taken[i] = 1;
                V c = fx.subst(fromNode(constraints[i]));
                if(c.conc()) // holds on this path
                    continue;
                cs.push_back(c.n);
                add(c.n);
                ch = true;
            }
        }
    }
    for(auto s : marked)
        mark[s] = 0;
    std::vector<std::pair<uint32_t, uint64_t>> sol;
    Res r = cached(cs, sol);
    if(r == Res::Sat) {
        gStats.sat++;
        if(model) {
            *model = base;
            for(auto &p : sol) {
                if(model->size() <= p.first)
                    model->resize(p.first + 1, 0);
                (*model)[p.first] = p.second;
            }
        }
    } else if(r == Res::Unsat)
        gStats.unsat++;
    else
        gStats.unknown++;
    return r;
}
Res solveFull(const std::vector<const Node *> &constraints, const V &cond, Model *model) {
    gStats.queries++;
    std::vector<const Node *> cs = constraints;
    if(!cond.conc())
        cs.push_back(cond.n);
    else if(!cond.c)
        return Res::Unsat;
    std::vector<std::pair<uint32_t, uint64_t>> sol;
    Res r = cached(cs, sol);
    if(r == Res::Sat && model) {
        model->clear();
        for(auto &p : sol) {
            if(model->size() <= p.first)
                model->resize(p.first + 1, 0);
            (*model)[p.first] = p.second;
        }
    }
    return r;
}
void dumpSmt2(const std::vector<const Node *> &cs, const V &cond, const std::string &file) {
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    for(auto *c : cs)
        Z3_solver_assert(ctx, s, toBool(c));
    if(!cond.conc())
        Z3_solver_assert(ctx, s, toBool(cond.n));
    std::ofstream f(file);
    f << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
    Z3_solver_dec_ref(ctx, s);
}
