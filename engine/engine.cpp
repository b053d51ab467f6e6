#include <llvm/IR/InlineAsm.h>
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <csignal>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
static std::string demangle(const std::string &s) {
    int st;
    char *r = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if(!r)
        return s;
    std::string o = r;
    free(r);
    return o;
}
void sha256(const std::vector<uint8_t> &in, uint8_t *out);

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if(c == '\n')
            o += "\\n";
        else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

struct Engine {
    Options opt;
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    std::unordered_map<const Function *, CFunc *> cfuncs;
    std::unordered_map<const GlobalValue *, uint64_t> gaddr;
    std::unordered_map<uint32_t, const Function *> fnById;
    std::unordered_map<std::string, Native> natives;
    std::vector<State *> work;
    std::vector<Violation> violations;
    std::set<std::string> vioKeys;
    std::set<std::string> covers;
    std::set<std::string> coverExpected;
    std::vector<std::string> incomplete;
    std::set<std::string> interned;
    std::set<std::string> encFns;
    std::set<const void *> encScopes;
    std::unordered_map<std::string, uint32_t> symIds;
    uint64_t paths = 0, pathsAssumed = 0, pathsViol = 0, forks = 0, totalSteps = 0, asserts = 0, assertQueries = 0, maxDepth = 0, ctxSwitch = 0, threadsMax = 1;
    std::set<uint64_t> pathSigs;
    std::vector<std::string> samples;
    double t0 = now(), deadline = 0;
    std::string harness;
    bool dead = false; // current state terminated
    State *curS = nullptr;

    const std::string *intern(const std::string &s) { return &*interned.insert(s).first; }

    // ---------- setup
    bool load(const std::vector<std::string> &files, const std::vector<std::string> &overrides) {
        SMDiagnostic err;
        for(size_t i = 0; i < files.size() + overrides.size(); i++) {
            bool ov = i >= files.size();
            const auto &f = ov ? overrides[i - files.size()] : files[i];
            auto m = parseIRFile(f, err, ctx);
            if(!m) {
                fprintf(stderr, "cannot load %s: %s\n", f.c_str(), err.getMessage().str().c_str());
                return false;
            }
            if(!M)
                M = std::move(m);
            else if(Linker::linkModules(*M, std::move(m), ov ? Linker::OverrideFromSrc : Linker::None)) {
                fprintf(stderr, "link error: %s\n", f.c_str());
                return false;
            }
        }
        DL = &M->getDataLayout();
        return true;
    }
    // ---------- types
    void flat(Type *t, uint64_t off, std::vector<std::pair<uint64_t, uint32_t>> &o) {
        if(auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for(unsigned i = 0; i < st->getNumElements(); i++)
                flat(st->getElementType(i), off + sl->getElementOffset(i), o);
        } else if(auto *at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for(uint64_t i = 0; i < at->getNumElements(); i++)
                flat(at->getElementType(), off + i * es, o);
        } else if(auto *vt = dyn_cast<FixedVectorType>(t)) {
            uint64_t bits = DL->getTypeSizeInBits(vt->getElementType());
            if(bits % 8)
                die("vector of sub-byte elements in memory");
            for(unsigned i = 0; i < vt->getNumElements(); i++)
                o.emplace_back(off + i * bits / 8, (uint32_t)bits);
        } else if(t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {
        } else
            o.emplace_back(off, (uint32_t)DL->getTypeSizeInBits(t));
    }
    uint32_t count(Type *t) {
        if(auto *st = dyn_cast<StructType>(t)) {
            uint32_t n = 0;
            for(auto *e : st->elements())
                n += count(e);
            return n;
        }
        if(auto *at = dyn_cast<ArrayType>(t))
            return at->getNumElements() * count(at->getElementType());
        if(auto *vt = dyn_cast<FixedVectorType>(t))
            return vt->getNumElements();
        if(t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy())
            return 0;
        return 1;
    }
    uint32_t elemW(Type *t) {
        if(auto *vt = dyn_cast<FixedVectorType>(t))
            t = vt->getElementType();
        if(t->isStructTy() || t->isArrayTy() || t->isVoidTy() || t->isMetadataTy() || t->isLabelTy())
            return 0;
        return DL->getTypeSizeInBits(t);
    }
    static V zeroV(uint32_t w) { return w <= 64 ? cv(w, 0) : mkWide(APInt(w, 0)); }
    [[noreturn]] void die(const std::string &m) {
        fprintf(stderr, "engine: %s\n", m.c_str());
        if(curS)
            fprintf(stderr, "%s\n", backtrace(*curS).c_str());
        _exit(3);
    }
    uint64_t globalAddr(const GlobalValue *g) {
        if(auto *a = dyn_cast<GlobalAlias>(g))
            return globalAddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
        auto it = gaddr.find(g);
        if(it == gaddr.end()) {
            if(g->hasExternalWeakLinkage())
                return 0;
            die("no address for global " + g->getName().str());
        }
        return it->second;
    }
    void constVal(const Constant *c, std::vector<V> &o) {
        Type *t = c->getType();
        if(auto *ci = dyn_cast<ConstantInt>(c)) {
            o.push_back(mkWide(ci->getValue()));
        } else if(isa<ConstantPointerNull>(c)) {
            o.push_back(cv(64, 0));
        } else if(auto *cf = dyn_cast<ConstantFP>(c)) {
            o.push_back(mkWide(cf->getValueAPF().bitcastToAPInt()));
        } else if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            std::vector<std::pair<uint64_t, uint32_t>> l;
            if(auto *vt = dyn_cast<FixedVectorType>(t)) {
                for(unsigned i = 0; i < vt->getNumElements(); i++)
                    o.push_back(zeroV(elemW(t)));
            } else {
                flat(t, 0, l);
                for(auto &p : l)
                    o.push_back(zeroV(p.second));
            }
        } else if(auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            for(unsigned i = 0; i < cd->getNumElements(); i++)
                constVal(cd->getElementAsConstant(i), o);
        } else if(auto *ca = dyn_cast<ConstantAggregate>(c)) {
            for(auto &op : ca->operands())
                constVal(cast<Constant>(op), o);
        } else if(auto *g = dyn_cast<GlobalValue>(c)) {
            o.push_back(cv(64, globalAddr(g)));
        } else if(auto *e = dyn_cast<ConstantExpr>(c)) {
            switch(e->getOpcode()) {
                case Instruction::GetElementPtr: {
                    std::vector<V> b;
                    constVal(e->getOperand(0), b);
                    APInt off(64, 0);
                    if(!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off))
                        die("non-constant gep constexpr");
                    o.push_back(cv(64, b[0].c + off.getSExtValue()));
                    break;
                }
                case Instruction::BitCast:
                case Instruction::IntToPtr:
                case Instruction::PtrToInt:
                case Instruction::AddrSpaceCast: {
                    std::vector<V> b;
                    constVal(e->getOperand(0), b);
                    uint32_t w = elemW(t);
                    if(b.size() != 1)
                        die("constexpr cast of vector");
                    o.push_back(w < b[0].w ? mkExtract(b[0], 0, w) : mkZExt(b[0], w));
                    break;
                }
                case Instruction::Add:
                case Instruction::Sub:
                case Instruction::And:
                case Instruction::Or:
                case Instruction::Xor:
                case Instruction::Mul:
                case Instruction::LShr:
                case Instruction::Shl: {
                    std::vector<V> a, b;
                    constVal(e->getOperand(0), a);
                    constVal(e->getOperand(1), b);
                    o.push_back(mkBin(binop(e->getOpcode()), a[0], b[0]));
                    break;
                }
                case Instruction::Trunc: {
                    std::vector<V> a;
                    constVal(e->getOperand(0), a);
                    o.push_back(mkExtract(a[0], 0, elemW(t)));
                    break;
                }
                case Instruction::ICmp: {
                    std::vector<V> a, b;
                    constVal(e->getOperand(0), a);
                    constVal(e->getOperand(1), b);
                    o.push_back(icmp(e->getPredicate(), a[0], b[0]));
                    break;
                }
                default: die(std::string("constexpr ") + e->getOpcodeName());
            }
        } else if(isa<BlockAddress>(c))
            die("blockaddress");
        else
            die("unknown constant");
    }
    static Op binop(unsigned opc) {
        switch(opc) {
            case Instruction::Add: return Op::Add;
            case Instruction::Sub: return Op::Sub;
            case Instruction::Mul: return Op::Mul;
            case Instruction::UDiv: return Op::UDiv;
            case Instruction::SDiv: return Op::SDiv;
            case Instruction::URem: return Op::URem;
            case Instruction::SRem: return Op::SRem;
            case Instruction::And: return Op::And;
            case Instruction::Or: return Op::Or;
            case Instruction::Xor: return Op::Xor;
            case Instruction::Shl: return Op::Shl;
            case Instruction::LShr: return Op::LShr;
            case Instruction::AShr: return Op::AShr;
        }
        abort();
    }
    static V icmp(unsigned p, const V &a, const V &b) {
        switch(p) {
            case CmpInst::ICMP_EQ: return mkBin(Op::Eq, a, b);
            case CmpInst::ICMP_NE: return mkNot(mkBin(Op::Eq, a, b));
            case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
            case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
            case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
            case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
            case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
            case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
            case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
            case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
        }
        abort();
    }
    // write a constant initialiser into an object
    void initConst(Obj *o, uint64_t off, const Constant *c) {
        Type *t = c->getType();
        if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
            return;
        if(auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            StringRef r = cd->getRawDataValues();
            o->writeConc(off, r.size(), (const uint8_t *)r.data());
            return;
        }
        if(auto *ca = dyn_cast<ConstantAggregate>(c)) {
            if(auto *st = dyn_cast<StructType>(t)) {
                auto *sl = DL->getStructLayout(st);
                for(unsigned i = 0; i < ca->getNumOperands(); i++)
                    initConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
            } else {
                Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
                uint64_t es = DL->getTypeAllocSize(et);
                for(unsigned i = 0; i < ca->getNumOperands(); i++)
                    initConst(o, off + i * es, ca->getOperand(i));
            }
            return;
        }
        std::vector<V> v;
        constVal(c, v);
        uint64_t bytes = DL->getTypeStoreSize(t);
        V x = v[0];
        x = mkZExt(x, bytes * 8);
        for(uint64_t i = 0; i < bytes; i++)
            o->setConc(off + i, mkExtract(x, i * 8, 8).c);
    }
    uint64_t thrNextId = 1;
    State *initState(const Function *entry) {
        auto *s = new State;
        gaddr.clear();
        fnById.clear();
        for(auto &f : *M) {
            if(f.isIntrinsic())
                continue;
            uint32_t id = s->mem.alloc(16, OK::Func, 0, "function");
            gaddr[&f] = addrOf(id);
            fnById[id] = &f;
        }
        for(auto &g : M->globals()) {
            if(g.getName().starts_with("llvm."))
                continue;
            uint64_t sz = DL->getTypeAllocSize(g.getValueType());
            if(g.isDeclaration() && g.hasExternalWeakLinkage()) {
                gaddr[&g] = 0;
                continue;
            }
            if(g.isDeclaration())
                sz = std::max<uint64_t>(sz, 256);
            uint32_t id = s->mem.alloc(sz, OK::Global, 0, intern(g.getName().str())->c_str());
            gaddr[&g] = addrOf(id);
        }
        for(auto &g : M->globals()) {
            if(g.getName().starts_with("llvm."))
                continue;
            auto it = gaddr.find(&g);
            if(it == gaddr.end() || !it->second)
                continue;
            uint32_t id = idOf(it->second);
            if(g.hasInitializer())
                initConst(s->mem.wr(id), 0, g.getInitializer());
            if(g.isConstant() && g.hasInitializer())
                s->mem.wr(id)->ro = true;
        }
        s->th.emplace_back();
        (void)entry;
        return s;
    }
    std::vector<const Function *> ctors() {
        std::vector<std::pair<uint64_t, const Function *>> v;
        if(auto *g = M->getGlobalVariable("llvm.global_ctors"))
            if(g->hasInitializer())
                if(auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
                    for(auto &o : a->operands()) {
                        auto *st = cast<ConstantStruct>(o);
                        if(auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
                            v.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f);
                    }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        std::vector<const Function *> r;
        for(auto &p : v)
            r.push_back(p.second);
        return r;
    }
    // ---------- compile
    CFunc *compile(const Function *F) {
        auto it = cfuncs.find(F);
        if(it != cfuncs.end())
            return it->second;
        auto *c = new CFunc;
        cfuncs[F] = c;
        c->F = F;
        std::unordered_map<const Value *, int32_t> slot;
        std::unordered_map<const Value *, int32_t> constIdx;
        std::unordered_map<const BasicBlock *, uint32_t> bidx;
        uint32_t ns = 0;
        for(auto &a : F->args()) {
            uint32_t n = count(a.getType());
            slot[&a] = ns;
            c->args.emplace_back(ns, n);
            ns += n;
        }
        for(auto &bb : *F) {
            bidx[&bb] = bidx.size();
            for(auto &I : bb) {
                uint32_t n = count(I.getType());
                if(n) {
                    slot[&I] = ns;
                    ns += n;
                }
            }
        }
        c->nslots = ns;
        auto operand = [&](const Value *v) -> Operand {
            auto s = slot.find(v);
            if(s != slot.end())
                return {s->second};
            if(auto *k = dyn_cast<Constant>(v)) {
                auto ci = constIdx.find(v);
                if(ci != constIdx.end())
                    return {~ci->second};
                int32_t idx = c->consts.size();
                constVal(k, c->consts);
                constIdx[v] = idx;
                return {~idx};
            }
            if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
                return {0};
            if(count(v->getType()) == 0)
                return {0};
            die("operand without slot");
        };
        c->blocks.resize(F->size());
        uint32_t bi = 0;
        for(auto &bb : *F) {
            auto &B = c->blocks[bi++];
            B.bb = &bb;
            for(auto &I : bb) {
                if(auto *p = dyn_cast<PHINode>(&I)) {
                    CPhi ph;
                    ph.dst = slot[&I];
                    ph.n = count(I.getType());
                    for(unsigned k = 0; k < p->getNumIncomingValues(); k++)
                        ph.in.emplace_back(bidx[p->getIncomingBlock(k)], operand(p->getIncomingValue(k)));
                    B.phis.push_back(ph);
                    continue;
                }
                if(auto *ii = dyn_cast<IntrinsicInst>(&I)) {
                    switch(ii->getIntrinsicID()) {
                        case Intrinsic::lifetime_start:
                        case Intrinsic::lifetime_end:
                        case Intrinsic::dbg_declare:
                        case Intrinsic::dbg_value:
                        case Intrinsic::dbg_label:
                        case Intrinsic::assume:
                        case Intrinsic::experimental_noalias_scope_decl:
                        case Intrinsic::invariant_start:
                        case Intrinsic::invariant_end:
                        case Intrinsic::prefetch:
                        case Intrinsic::donothing:
                            continue;
                        default: break;
                    }
                }
                CInst ci;
                ci.opc = I.getOpcode();
                ci.I = &I;
                ci.nd = count(I.getType());
                ci.w = elemW(I.getType());
                if(ci.nd)
                    ci.dst = slot[&I];
                auto add = [&](const Value *v) {
                    ci.ops.push_back(operand(v));
                    ci.n.push_back(count(v->getType()));
                };
                if(auto *br = dyn_cast<BranchInst>(&I)) {
                    if(br->isConditional())
                        add(br->getCondition());
                    for(unsigned k = 0; k < br->getNumSuccessors(); k++)
                        ci.succ.push_back(bidx[br->getSuccessor(k)]);
                } else if(auto *sw = dyn_cast<SwitchInst>(&I)) {
                    add(sw->getCondition());
                    ci.succ.push_back(bidx[sw->getDefaultDest()]);
                    for(auto &cs : sw->cases()) {
                        ci.cases.push_back(mkWide(cs.getCaseValue()->getValue()));
                        ci.succ.push_back(bidx[cs.getCaseSuccessor()]);
                    }
                } else if(auto *call = dyn_cast<CallBase>(&I)) {
                    for(auto &a : call->args())
                        add(a.get());
                    const Value *cal = call->getCalledOperand()->stripPointerCasts();
                    if(auto *al = dyn_cast<GlobalAlias>(cal))
                        cal = al->getAliaseeObject();
                    if(auto *f = dyn_cast<Function>(cal)) {
                        ci.callee = f;
                    } else if(!isa<InlineAsm>(cal))
                        add(cal);
                    else {
                        // empty inline asm (compiler barriers) is skipped
                        auto *ia = cast<InlineAsm>(cal);
                        if(ia->getAsmString().empty() && ci.nd == 0)
                            continue;
                        die("inline asm in " + F->getName().str() + ": " + ia->getAsmString());
                    }
                    if(auto *iv = dyn_cast<InvokeInst>(&I))
                        ci.succ.push_back(bidx[iv->getNormalDest()]);
                } else if(auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                    add(g->getPointerOperand());
                    for(auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                        const Value *idx = ti.getOperand();
                        if(auto *st = ti.getStructTypeOrNull()) {
                            ci.gepc += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        uint64_t sc = DL->getTypeAllocSize(ti.getIndexedType());
                        if(auto *k = dyn_cast<ConstantInt>(idx)) {
                            ci.gepc += (uint64_t)k->getSExtValue() * sc;
                            continue;
                        }
                        add(idx);
                        ci.gep.emplace_back(ci.ops.size() - 1, sc);
                    }
                    if(I.getType()->isVectorTy())
                        die("vector gep");
                } else if(isa<LoadInst>(&I)) {
                    add(I.getOperand(0));
                    flat(I.getType(), 0, ci.lay);
                } else if(isa<StoreInst>(&I)) {
                    add(I.getOperand(0));
                    add(I.getOperand(1));
                    flat(I.getOperand(0)->getType(), 0, ci.lay);
                } else if(auto *al = dyn_cast<AllocaInst>(&I)) {
                    add(al->getArraySize());
                    ci.sz = DL->getTypeAllocSize(al->getAllocatedType());
                } else if(auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                    add(ev->getAggregateOperand());
                    ci.gepc = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
                } else if(auto *iv = dyn_cast<InsertValueInst>(&I)) {
                    add(iv->getAggregateOperand());
                    add(iv->getInsertedValueOperand());
                    ci.gepc = aggIndex(iv->getAggregateOperand()->getType(), iv->getIndices());
                } else {
                    for(auto &o : I.operands())
                        add(o.get());
                    if(auto *cm = dyn_cast<CmpInst>(&I))
                        ci.pred = cm->getPredicate();
                }
                B.ins.push_back(std::move(ci));
            }
        }
        return c;
    }
    uint64_t aggIndex(Type *t, ArrayRef<unsigned> idx) {
        uint64_t r = 0;
        for(unsigned i : idx) {
            if(auto *st = dyn_cast<StructType>(t)) {
                for(unsigned k = 0; k < i; k++)
                    r += count(st->getElementType(k));
                t = st->getElementType(i);
            } else {
                auto *at = cast<ArrayType>(t);
                r += (uint64_t)i * count(at->getElementType());
                t = at->getElementType();
            }
        }
        return r;
    }
    // ---------- errors and paths
    std::string locOf(const Instruction *I) {
        if(!I)
            return "?";
        if(auto dl = I->getDebugLoc()) {
            auto *sc = cast<DIScope>(dl.getScope());
            return sc->getFilename().str() + ":" + std::to_string(dl.getLine());
        }
        return "?";
    }
    const CInst *curInst(State &s) {
        auto &t = s.th[s.cur];
        if(t.st.empty())
            return nullptr;
        auto &f = t.st.back();
        if(f.bb >= f.f->blocks.size() || f.ip >= f.f->blocks[f.bb].ins.size())
            return nullptr;
        return &f.f->blocks[f.bb].ins[f.ip];
    }
    std::string backtrace(State &s, bool repoOnly = false) {
        std::string r;
        auto &t = s.th[s.cur];
        int n = 0;
        for(int i = (int)t.st.size() - 1; i >= 0 && n < 40; i--) {
            auto &f = t.st[i];
            auto &B = f.f->blocks[f.bb];
            const Instruction *I = f.ip < B.ins.size() ? B.ins[f.ip].I : nullptr;
            // inlined frames
            if(I)
                if(const DILocation *d = I->getDebugLoc().get()) {
                    while(d) {
                        auto *sp = d->getScope()->getSubprogram();
                        std::string nm = sp ? demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "?";
                        if(!repoOnly || inRepo(pathOf(d))) {
                            r += "  at " + nm.substr(0, 160) + " (" + d->getFilename().str() + ":" + std::to_string(d->getLine()) + ")\n";
                            n++;
                        }
                        d = d->getInlinedAt();
                    }
                    continue;
                }
            r += "  at " + demangle(f.f->F->getName().str()).substr(0, 160) + "\n";
            n++;
        }
        return r;
    }
    static std::string word(std::string n) {
        for(auto &c : n)
            if(c == ' ')
                c = '_';
        return n;
    }
    std::string replayText(State &s, const Model &m, const std::string &kind, const std::string &msg) {
        std::ostringstream o;
        o << "# harness " << harness << "\n# " << kind << ": " << msg << "\n";
        for(auto &n : s.notes)
            o << "# note " << n << "\n";
        for(auto &r : s.recs) {
            auto val = [&](uint32_t i) { return i < m.size() ? m[i] : 0; };
            if(r.kind == 0)
                o << "v " << word(*r.name) << " " << r.w << " " << val(r.syms[0]) << "\n";
            else if(r.kind == 2)
                o << "c " << word(*r.name) << " 64 " << r.val << "\n";
            else if(r.kind == 3)
                o << "h " << *r.name << " 32 " << r.hex << "\n";
            else {
                o << "b " << word(*r.name) << " " << r.syms.size() << " ";
                for(auto i : r.syms) {
                    char b[4];
                    snprintf(b, 4, "%02x", (unsigned)val(i) & 255);
                    o << b;
                }
                o << "\n";
            }
        }
        if(!s.sched.empty()) {
            o << "s sched " << s.sched.size();
            for(auto x : s.sched)
                o << " " << x;
            o << "\n";
        }
        return o.str();
    }
    void report(State &s, const Model &m, const std::string &kind, const std::string &msg) {
        pathsViol++;
        const CInst *ci = curInst(s);
        std::string where = ci ? locOf(ci->I) : "?";
        std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : where);
        if(!vioKeys.insert(key).second || violations.size() >= opt.maxViolations)
            return;
        Violation v;
        v.kind = kind;
        v.msg = msg;
        v.where = where;
        v.trace = backtrace(s);
        v.replay = replayText(s, m, kind, msg);
        v.harness = harness;
        violations.push_back(v);
        if(opt.verbose)
            fprintf(stderr, "VIOL %s: %s at %s\n%s%s", kind.c_str(), msg.c_str(), where.c_str(), v.trace.c_str(), v.replay.c_str());
    }
    // program error on the current path
    void error(State &s, const std::string &kind, const std::string &msg) {
        report(s, *s.model, kind, msg);
        dead = true;
    }
    // the program stops itself: an error, unless the harness said it may
    void refuse(State &s, const std::string &msg) {
        std::shared_ptr<Model> m;
        Res r = isTrue(s.refuse) ? Res::Unsat : mayBe(s, mkNot(s.refuse), m);
        if(r == Res::Unknown)
            return unsupported(s, "solver timeout");
        if(r == Res::Sat)
            report(s, *m, "abort", msg);
        covers.insert("refused");
        finishPath(s, true);
    }
    void unsupported(State &s, const std::string &msg) {
        const CInst *ci = curInst(s);
        std::string m = msg + " at " + (ci ? locOf(ci->I) : "?");
        if(std::find(incomplete.begin(), incomplete.end(), m) == incomplete.end()) {
            if(incomplete.size() < 20)
                incomplete.push_back(m);
            if(opt.verbose)
                fprintf(stderr, "INCOMPLETE %s\n%s", m.c_str(), backtrace(s).c_str());
        }
        dead = true;
    }
    bool replaying = false, replayDiverged = false;
    std::vector<std::pair<std::string, uint64_t>> replayVals;
    std::vector<uint32_t> replaySched;
    size_t replayPos = 0;
    unsigned part = 0, parts = 1;
    bool loadReplay(const std::string &fn) {
        std::ifstream f(fn);
        std::string l;
        if(!f)
            return false;
        while(std::getline(f, l)) {
            std::istringstream is(l);
            std::string k, n, x;
            uint64_t w, v;
            is >> k;
            if(k == "v" || k == "c") {
                is >> n >> w >> v;
                replayVals.push_back({n, v});
            } else if(k == "b") {
                is >> n >> w >> x;
                for(uint64_t i = 0; i < w; i++)
                    replayVals.push_back({n, std::stoul(x.substr(2 * i, 2), nullptr, 16)});
            } else if(k == "s") {
                is >> n >> w;
                while(is >> v)
                    replaySched.push_back(v);
            }
        }
        replaying = true;
        return true;
    }
    void stepLimit(State &s) {
        if(opt.stepsViol && s.th.size() < 2)
            error(s, "nontermination", "no end within " + std::to_string(opt.maxSteps) + " instructions");
        else
            unsupported(s, "step limit reached");
    }
    void addPc(State &s, const V &c) {
        if(c.conc())
            return;
        const Node *n = c.n;
        if(n->op == Op::And && n->w == 1) {
            addPc(s, fromNode(n->a));
            addPc(s, fromNode(n->b));
            return;
        }
        for(auto *x : s.pc)
            if(x == n)
                return;
        s.pc.push_back(n);
    }
    bool known(State &s, const V &c, bool &val) {
        V nc = mkNot(c);
        for(size_t i = s.pc.size(); i-- > 0;) {
            if(s.pc[i] == c.n) {
                val = true;
                return true;
            }
            if(nc.n && s.pc[i] == nc.n) {
                val = false;
                return true;
            }
        }
        return false;
    }
    State *fork(State &s) {
        forks++;
        auto *q = new State(s);
        work.push_back(q);
        return q;
    }
    // Decide a boolean; forks when both values are feasible.  Must be called before the instruction's side effects.
    bool decide(State &s, const V &c) {
        if(c.conc())
            return c.c & 1;
        bool v;
        if(known(s, c, v))
            return v;
        bool cur = evalBool(c, *s.model);
        V other = cur ? mkNot(c) : c;
        auto m2 = std::make_shared<Model>();
        Res r = solve(s.pc, other, *s.model, m2.get());
        if(r == Res::Unknown) {
            unsupported(s, "solver timeout");
            return cur;
        }
        if(r == Res::Sat) {
            auto *q = fork(s);
            q->depth++;
            s.depth++;
            addPc(*q, other);
            q->model = m2;
            addPc(s, cur ? c : mkNot(c));
        }
        // when the other side is infeasible the condition is implied; no constraint needed
        return cur;
    }
    // Is c true on every completion of this path? (no fork)
    Res mayBe(State &s, const V &c, std::shared_ptr<Model> &m2) {
        if(c.conc())
            return c.c ? (m2 = s.model, Res::Sat) : Res::Unsat;
        if(evalBool(c, *s.model)) {
            m2 = s.model;
            gStats.modelHits++;
            return Res::Sat;
        }
        bool v;
        if(known(s, c, v) && !v)
            return Res::Unsat;
        m2 = std::make_shared<Model>();
        return solve(s.pc, c, *s.model, m2.get());
    }
    bool assume(State &s, const V &c) {
        std::shared_ptr<Model> m;
        Res r = mayBe(s, c, m);
        if(r == Res::Unknown) {
            unsupported(s, "solver timeout");
            return false;
        }
        if(r == Res::Unsat) {
            pathsAssumed++;
            dead = true;
            return false;
        }
        s.model = m;
        addPc(s, c);
        return true;
    }
    // Returns a concrete value for v, forking over all feasible values.
    bool concretize(State &s, const V &v, uint64_t &out) {
        if(v.conc()) {
            out = v.c;
            return true;
        }
        if(v.w > 64)
            die("concretize wide");
        V k = evalNode(v.n, *s.model);
        decide(s, mkEq(v, k));
        if(dead)
            return false;
        out = k.c;
        return true;
    }
    // The size of a block: forked over its values up to a threshold, above that one upper bound stands for all of them.
    bool bulk(State &s, const V &v, uint64_t &out) {
        if(v.conc()) {
            out = v.c;
            return true;
        }
        bool small = decide(s, mkNot(mkBin(Op::Ult, cv(64, opt.bulk), v)));
        if(dead)
            return false;
        if(small)
            return concretize(s, v, out);
        std::shared_ptr<Model> m;
        uint64_t hi = 1 << 16;
        for(; hi; hi <<= 2) { // any upper bound will do: memory is only materialised where it is written
            Res r = mayBe(s, mkBin(Op::Ult, cv(64, hi), v), m);
            if(r == Res::Unknown) {
                unsupported(s, "solver timeout");
                return false;
            }
            if(r == Res::Unsat)
                break;
        }
        if(!hi)
            hi = ~0ULL;
        out = hi;
        return true;
    }
    // ---------- data races
    // Accesses count where the code that makes them is the repository's (library code counts for its caller).
    bool atomicAccess = false;
    std::unordered_map<const DIFile *, std::string> filePaths;
    template<typename T>
    const std::string &pathOf(const T *d) { // of the file, with its directory
        const DIFile *f = d->getFile();
        auto it = filePaths.find(f);
        if(it != filePaths.end())
            return it->second;
        std::string n = f ? f->getFilename().str() : "";
        if(f && (n.empty() || n[0] != '/'))
            n = f->getDirectory().str() + "/" + n;
        return filePaths[f] = n;
    }
    bool inRepo(const std::string &f) const { return f.compare(0, opt.srcPrefix.size(), opt.srcPrefix) == 0; }
    uint64_t raceChecks = 0;
    int originOf(const DILocation *d) {
        for(; d; d = d->getInlinedAt()) {
            auto &f = pathOf(d);
            auto has = [&](const char *x) { return f.find(x) != std::string::npos; };
            if(has("/usr/") || has("/3rdparty/") || has("/rt/"))
                continue;
            return inRepo(f);
        }
        return -1;
    }
    std::unordered_map<const Instruction *, int> originCache;
    const Instruction *raceOrigin(State &s) { // the repository's instruction that makes the access, if it is one
        auto &t = s.th[s.cur];
        for(int i = (int)t.st.size() - 1; i >= 0; i--) {
            auto &f = t.st[i];
            auto &B = f.f->blocks[f.bb];
            const Instruction *I = f.ip < B.ins.size() ? B.ins[f.ip].I : nullptr;
            if(!I)
                continue;
            auto it = originCache.find(I);
            int o = it != originCache.end() ? it->second : (originCache[I] = originOf(I->getDebugLoc().get()));
            if(o >= 0)
                return o ? I : nullptr;
        }
        return nullptr;
    }
    Race &raceW(State &s) {
        if(s.race.use_count() > 1)
            s.race = std::make_shared<Race>(*s.race);
        return *s.race;
    }
    std::string srcLoc(const Instruction *I) {
        for(const DILocation *d = I->getDebugLoc().get(); d; d = d->getInlinedAt())
            if(inRepo(pathOf(d)))
                return pathOf(d) + ":" + std::to_string(d->getLine());
        return "?";
    }
    bool raceAccess(State &s, uint32_t id, const Obj *o, uint64_t off, uint64_t n, bool write) {
        if(atomicAccess || o->ro || (o->name && strncmp(o->name, "_ZGV", 4) == 0))
            return true;
        int me = s.cur;
        if(me >= RT || n > 4096)
            return true;
        uint32_t now = s.race->vc[me].c[me];
        // fast path: this thread accessed the same bytes already and let nobody in since
        auto itO = s.race->obj.find(id);
        uint64_t w0 = off / 8, w1 = (off + n - 1) / 8;
        auto maskOf = [&](uint64_t w) {
            uint8_t m = 0xff;
            if(w == w0)
                m &= 0xff << (off % 8);
            if(w == w1)
                m &= 0xff >> (7 - (off + n - 1) % 8);
            return m;
        };
        if(itO != s.race->obj.end()) {
            bool all = true;
            for(uint64_t w = w0; w <= w1 && all; w++) {
                auto c = itO->second->w.find(w);
                if(c == itO->second->w.end()) {
                    all = false;
                    break;
                }
                uint8_t m = maskOf(w);
                auto &x = c->second;
                bool wr = x.clk[1][me] == now && (x.mask[1][me] & m) == m;
                bool rd = x.clk[0][me] == now && (x.mask[0][me] & m) == m;
                all = write ? wr : wr || rd;
            }
            if(all)
                return true;
        }
        const Instruction *I = raceOrigin(s);
        if(!I)
            return true;
        raceChecks++;
        if(getenv("VERIF_RACE"))
            fprintf(stderr, "race t%d %c %u+%lu..%lu %s\n", me, write ? (char)87 : (char)82, id, off, n, srcLoc(I).c_str());
        Race &r = raceW(s);
        auto &po = r.obj[id];
        if(!po)
            po = std::make_shared<RObj>();
        else if(po.use_count() > 1)
            po = std::make_shared<RObj>(*po);
        for(uint64_t w = w0; w <= w1; w++) {
            auto &x = po->w[w];
            uint8_t m = maskOf(w);
            for(size_t t = 0; t < s.th.size() && t < RT; t++) {
                if((int)t == me)
                    continue;
                for(int k = write ? 0 : 1; k < 2; k++)
                    if(x.clk[k][t] > r.vc[me].c[t] && (x.mask[k][t] & m)) {
                        error(s, "data race",
                              std::string(write ? "write" : "read") + " at " + srcLoc(I) + " and " + (k ? "write" : "read") + " at " + srcLoc(x.at[k][t])
                                  + " by another thread are not ordered");
                        return false;
                    }
            }
            if(x.clk[write][me] != now)
                x.mask[write][me] = 0;
            x.clk[write][me] = now;
            x.mask[write][me] |= m;
            x.at[write][me] = I;
        }
        return true;
    }
    void raceKill(State &s, uint32_t id) {
        if(!s.race)
            return;
        auto it = s.race->obj.find(id);
        if(it == s.race->obj.end())
            return;
        Race &r = raceW(s);
        auto po = r.obj[id];
        r.obj.erase(id);
        if(s.cur >= RT)
            return;
        for(auto &[w, x] : po->w)
            for(size_t t = 0; t < s.th.size() && t < RT; t++)
                for(int k = 0; k < 2; k++)
                    if((int)t != s.cur && x.clk[k][t] > r.vc[s.cur].c[t]) {
                        const Instruction *I = raceOrigin(s);
                        if(!I)
                            return;
                        error(s, "data race",
                              "the end of the lifetime of an object at " + srcLoc(I) + " and the " + (k ? "write" : "read") + " at " + srcLoc(x.at[k][t])
                                  + " by another thread are not ordered");
                        return;
                    }
    }
    void acquire(State &s, uint64_t key) {
        if(!s.race || s.cur >= RT)
            return;
        auto it = s.race->sync.find(key);
        if(it == s.race->sync.end())
            return;
        VC v = it->second;
        raceW(s).vc[s.cur].join(v);
    }
    void release(State &s, uint64_t key) {
        if(!s.race || s.cur >= RT)
            return;
        Race &r = raceW(s);
        r.sync[key].join(r.vc[s.cur]);
        r.vc[s.cur].c[s.cur]++;
    }
    void atomicOp(State &s, const V &p, bool rd, bool wr) {
        if(!s.race || !p.conc())
            return;
        if(rd)
            acquire(s, p.c);
        if(wr)
            release(s, p.c);
    }
    void raceStart(State &s, int child) {
        if(!opt.races || child >= RT)
            return;
        if(!s.race) {
            s.race = std::make_shared<Race>();
            s.race->vc.resize(RT);
            for(int i = 0; i < RT; i++)
                s.race->vc[i].c[i] = 1;
        }
        Race &r = raceW(s);
        if(s.cur < RT) {
            r.vc[child].join(r.vc[s.cur]);
            r.vc[s.cur].c[s.cur]++;
        }
    }
    void raceJoin(State &s, int child) {
        if(!s.race || child >= RT || s.cur >= RT)
            return;
        Race &r = raceW(s);
        r.vc[s.cur].join(r.vc[child]);
    }
    // ---------- memory
    // Resolve address a for n bytes to object id; off may stay symbolic.
    bool resolve(State &s, const V &a, uint64_t n, bool write, uint32_t &id, V &off) {
        uint64_t ca;
        if(a.conc())
            ca = a.c;
        else {
            V k = evalNode(a.n, *s.model);
            ca = k.c;
        }
        id = idOf(ca);
        const Obj *o = s.mem.get(id);
        if(!a.conc()) {
            // restrict to this object
            V hi = mkExtract(a, 32, 32);
            V same = mkEq(hi, cv(32, id));
            if(!isTrue(same)) {
                if(!decide(s, same) || dead) {
                    if(!dead)
                        unsupported(s, "pointer resolution");
                    return false;
                }
            }
        }
        if(!o || id == 0) {
            error(s, "memory", ca < 65536 ? "null pointer dereference" : "wild pointer dereference");
            return false;
        }
        if(!o->alive) {
            error(s, "memory", std::string("use after free (") + (o->kind == OK::Stack ? "stack" : "heap") + ")");
            return false;
        }
        if(o->kind == OK::Func) {
            error(s, "memory", "access to a function");
            return false;
        }
        if(write && o->ro) {
            error(s, "memory", "write to read-only object");
            return false;
        }
        if(a.conc()) {
            int64_t of = offOf(ca);
            if(of < 0 || (uint64_t)of + n > o->size) {
                error(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
                return false;
            }
            off = cv(64, of);
            if(s.race && n > 0 && !raceAccess(s, id, o, of, n, write))
                return false;
            return true;
        }
        off = mkBin(Op::Sub, a, cv(64, addrOf(id)));
        if(n > o->size) {
            error(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
            return false;
        }
        V in = mkBin(Op::Ule, off, cv(64, o->size - n));
        if(!isTrue(in)) {
            std::shared_ptr<Model> m;
            Res r = mayBe(s, mkNot(in), m);
            if(r == Res::Unknown) {
                unsupported(s, "solver timeout");
                return false;
            }
            if(r == Res::Sat)
                report(s, *m, "memory", std::string("out-of-bounds ") + (write ? "write" : "read"));
            if(!assume(s, in))
                return false;
        }
        if(off.conc())
            return true;
        return true;
    }
    // range of a symbolic offset [lo,hi] w.r.t. object; tries to find the feasible offsets
    bool offsets(State &s, const V &off, uint64_t maxOff, std::vector<uint64_t> &out, size_t limit) {
        // known-zero low bits
        uint64_t stride = 1;
        if(off.n) {
            V lo = off;
            while(stride < 4096) {
                V bit = mkExtract(off, __builtin_ctzll(stride), 1);
                if(isFalse(bit))
                    stride <<= 1;
                else
                    break;
            }
        }
        // enumerate feasible values by solver when few, else range
        std::vector<uint64_t> vals;
        V c = cv(1, 1);
        Model m;
        uint64_t v = evalNode(off.n, *s.model).c;
        for(size_t i = 0; i < 9; i++) {
            vals.push_back(v);
            c = mkAnd(c, mkNot(mkEq(off, cv(64, v))));
            Res r = solve(s.pc, c, *s.model, &m);
            if(r == Res::Unknown)
                return false;
            if(r == Res::Unsat) {
                out = vals;
                std::sort(out.begin(), out.end());
                return true;
            }
            v = evalNode(off.n, m).c;
        }
        uint64_t base = v % stride;
        if(maxOff / stride + 1 > limit)
            return false;
        for(uint64_t x = base; x <= maxOff; x += stride)
            out.push_back(x);
        return true;
    }
    V readObj(const Obj *o, uint64_t off, uint32_t w) {
        uint32_t nb = (w + 7) / 8;
        V r;
        if(!o->anySym(off, nb)) {
            if(nb <= 8) {
                uint64_t x = 0;
                o->readConc(off, nb, (uint8_t *)&x);
                return cv(w, x);
            }
            std::vector<uint8_t> b(nb);
            o->readConc(off, nb, b.data());
            std::vector<uint64_t> ws((nb + 7) / 8, 0);
            memcpy(ws.data(), b.data(), nb);
            return mkWide(APInt(nb * 8, ws).trunc(w));
        }
        r = o->byteV(off + nb - 1);
        for(int i = (int)nb - 2; i >= 0; i--)
            r = mkConcat(r, o->byteV(off + i));
        if(r.w != w)
            r = mkExtract(r, 0, w);
        return r;
    }
    void writeObj(Obj *o, uint64_t off, const V &v) {
        uint32_t nb = (v.w + 7) / 8;
        if(v.conc()) {
            o->writeConc(off, nb, (const uint8_t *)&v.c);
            return;
        }
        V x = mkZExt(v, nb * 8);
        for(uint32_t i = 0; i < nb; i++)
            o->setByteV(off + i, mkExtract(x, i * 8, 8));
    }
    bool loadV(State &s, const V &a, uint32_t w, V &out) {
        uint32_t nb = (w + 7) / 8;
        uint32_t id;
        V off;
        if(!resolve(s, a, nb, false, id, off))
            return false;
        const Obj *o = s.mem.get(id);
        if(off.conc()) {
            out = readObj(o, off.c, w);
            return true;
        }
        std::vector<uint64_t> offs;
        if(!offsets(s, off, o->size - nb, offs, opt.maxObjIte)) {
            uint64_t c;
            if(!concretize(s, off, c))
                return false;
            out = readObj(o, c, w);
            return true;
        }
        V r = readObj(o, offs.back(), w);
        for(int i = (int)offs.size() - 2; i >= 0; i--)
            r = mkIte(mkEq(off, cv(64, offs[i])), readObj(o, offs[i], w), r);
        out = r;
        return true;
    }
    bool storeV(State &s, const V &a, const V &v) {
        uint32_t nb = (v.w + 7) / 8;
        uint32_t id;
        V off;
        if(!resolve(s, a, nb, true, id, off))
            return false;
        if(off.conc()) {
            writeObj(s.mem.wr(id), off.c, v);
            return true;
        }
        std::vector<uint64_t> offs;
        if(!offsets(s, off, s.mem.get(id)->size - nb, offs, 256)) {
            uint64_t c;
            if(!concretize(s, off, c))
                return false;
            writeObj(s.mem.wr(id), c, v);
            return true;
        }
        Obj *o = s.mem.wr(id);
        V x = mkZExt(v, nb * 8);
        std::vector<std::pair<uint64_t, V>> nw;
        for(auto of : offs) {
            V c = mkEq(off, cv(64, of));
            for(uint32_t i = 0; i < nb; i++) {
                V old = o->byteV(of + i);
                // combine with earlier updates of the same byte
                for(auto &p : nw)
                    if(p.first == of + i)
                        old = p.second;
                V nv = mkIte(c, mkExtract(x, i * 8, 8), old);
                bool f = false;
                for(auto &p : nw)
                    if(p.first == of + i) {
                        p.second = nv;
                        f = true;
                    }
                if(!f)
                    nw.emplace_back(of + i, nv);
            }
        }
        for(auto &p : nw)
            o->setByteV(p.first, p.second);
        return true;
    }
    // bytes of a region with concrete length
    bool readBytes(State &s, const V &a, uint64_t n, std::vector<V> &out) {
        out.clear();
        if(n == 0)
            return true;
        uint64_t ca;
        V aa = a;
        if(!a.conc()) {
            if(!concretize(s, a, ca))
                return false;
            aa = cv(64, ca);
        }
        uint32_t id;
        V off;
        if(!resolve(s, aa, n, false, id, off))
            return false;
        const Obj *o = s.mem.get(id);
        out.resize(n);
        for(uint64_t i = 0; i < n; i++)
            out[i] = o->byteV(off.c + i);
        return true;
    }
    bool writeBytes(State &s, const V &a, const std::vector<V> &b) {
        if(b.empty())
            return true;
        uint64_t ca;
        V aa = a;
        if(!a.conc()) {
            if(!concretize(s, a, ca))
                return false;
            aa = cv(64, ca);
        }
        uint32_t id;
        V off;
        if(!resolve(s, aa, b.size(), true, id, off))
            return false;
        Obj *o = s.mem.wr(id);
        for(size_t i = 0; i < b.size(); i++)
            o->setByteV(off.c + i, b[i]);
        return true;
    }
    bool readCStr(State &s, const V &a, std::string &out) {
        uint64_t ca;
        if(!concretize(s, a, ca))
            return false;
        out.clear();
        for(int i = 0; i < 100000; i++) {
            V b;
            if(!loadV(s, cv(64, ca + i), 8, b))
                return false;
            if(!b.conc()) {
                out += '?';
                continue;
            }
            if(b.c == 0)
                return true;
            out += (char)b.c;
        }
        return true;
    }
    bool doMemcpy(State &s, const V &d, const V &sr, uint64_t n) {
        if(n == 0)
            return true;
        uint64_t da, sa;
        if(!concretize(s, d, da) || !concretize(s, sr, sa))
            return false;
        uint32_t di, si;
        V doff, soff;
        if(!resolve(s, cv(64, sa), n, false, si, soff) || !resolve(s, cv(64, da), n, true, di, doff))
            return false;
        const Obj *so = s.mem.get(si);
        if(!so->anySym(soff.c, n)) {
            std::vector<uint8_t> tmp(n);
            so->readConc(soff.c, n, tmp.data());
            s.mem.wr(di)->writeConc(doff.c, n, tmp.data());
            return true;
        }
        std::vector<V> tmp(n);
        for(uint64_t i = 0; i < n; i++)
            tmp[i] = so->byteV(soff.c + i);
        Obj *o = s.mem.wr(di);
        for(uint64_t i = 0; i < n; i++)
            o->setByteV(doff.c + i, tmp[i]);
        return true;
    }
    bool doMemset(State &s, const V &d, const V &val, uint64_t n) {
        if(n == 0)
            return true;
        uint64_t da;
        if(!concretize(s, d, da))
            return false;
        uint32_t id;
        V off;
        if(!resolve(s, cv(64, da), n, true, id, off))
            return false;
        Obj *o = s.mem.wr(id);
        if(val.conc())
            o->fillRange(off.c, n, val.c);
        else
            for(uint64_t i = 0; i < n; i++)
                o->setByteV(off.c + i, val);
        return true;
    }
    bool doMemsetV(State &s, const V &d, const V &val, const V &len) {
        uint64_t n, da;
        if(!bulk(s, len, n))
            return false;
        if(len.conc() || n <= opt.bulk)
            return doMemset(s, d, val, n);
        if(!concretize(s, d, da))
            return false;
        const Obj *o = s.mem.get(idOf(da));
        if(!o || !o->alive || offOf(da) < 0 || (uint64_t)offOf(da) > o->size)
            return doMemset(s, d, val, n); // reports the error
        uint64_t room = o->size - offOf(da);
        if(n <= room)
            return doMemset(s, d, val, n);
        std::shared_ptr<Model> m;
        Res r = mayBe(s, mkBin(Op::Ult, cv(64, room), len), m);
        if(r == Res::Unknown) {
            unsupported(s, "solver timeout");
            return false;
        }
        return doMemset(s, d, val, r == Res::Sat ? n : room);
    }
    // ---------- symbols
    V newSym(State &s, const std::string &name, uint32_t w, uint32_t &idx) {
        uint32_t k = s.symCount[name]++;
        std::string key = name + "#" + std::to_string(k) + "/" + std::to_string(w);
        auto it = symIds.find(key);
        if(it == symIds.end())
            it = symIds.emplace(key, symIds.size()).first;
        idx = it->second;
        if(replaying)
            return cv(w, nextReplay(name));
        return mkSym(w, idx);
    }
    uint64_t nextReplay(const std::string &name) {
        if(replayPos < replayVals.size() && replayVals[replayPos].first == word(name))
            return replayVals[replayPos++].second;
        replayDiverged = true;
        return 0;
    }
    // ---------- frames
    bool pushFrame(State &s, Thread &t, CFunc *f, const std::vector<V> &args, const CInst *call) {
        if(t.st.size() > 3000) {
            error(s, "abort", "stack overflow");
            return false;
        }
        f->calls++;
        t.st.emplace_back();
        Frame &fr = t.st.back();
        fr.f = f;
        fr.call = call;
        fr.regs.resize(f->nslots);
        size_t k = 0;
        for(auto &a : f->args)
            for(uint32_t i = 0; i < a.second; i++) {
                if(k >= args.size())
                    die("argument count mismatch calling " + f->F->getName().str());
                fr.regs[a.first + i] = args[k++];
            }
        enterBlock(s, fr, 0, 0);
        return true;
    }
    void popAllocas(State &s, Frame &f) {
        for(auto id : f.allocas) {
            raceKill(s, id);
            s.mem.kill(id);
        }
    }
    void enterBlock(State &s, Frame &f, uint32_t to, uint32_t from) {
        auto &B = f.f->blocks[to];
        if(!B.executed) {
            B.executed = true;
            noteScopes(B);
        }
        if(!B.phis.empty()) {
            static std::vector<V> tmp;
            tmp.clear();
            for(auto &p : B.phis)
                for(auto &in : p.in)
                    if(in.first == from) {
                        const V *v = opv(f, in.second);
                        for(uint32_t i = 0; i < p.n; i++)
                            tmp.push_back(v[i]);
                        break;
                    }
            size_t k = 0;
            for(auto &p : B.phis)
                for(uint32_t i = 0; i < p.n; i++)
                    f.regs[p.dst + i] = tmp[k++];
        }
        f.bb = to;
        f.ip = 0;
        (void)s;
    }
    void noteScopes(CBlock &B) {
        for(auto &I : *B.bb) {
            const DILocation *d = I.getDebugLoc().get();
            while(d) {
                auto *sp = d->getScope()->getSubprogram();
                if(sp && encScopes.insert(sp).second && inRepo(pathOf(sp))) {
                    std::string f = pathOf(sp).substr(opt.srcPrefix.size());
                    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
                    encFns.insert(f + ":" + nm);
                }
                d = d->getInlinedAt();
            }
        }
    }
    const V *opv(Frame &f, Operand o) { return o.idx >= 0 ? &f.regs[o.idx] : &f.f->consts[~o.idx]; }

    void finishPath(State &s, bool ok) {
        dead = true;
        if(ok) {
            paths++;
            if(samples.size() < 3 || (samples.size() < 6 && (paths & (paths - 1)) == 0))
                samples.push_back(replayText(s, *s.model, "path", "sample"));
        }
    }
    // ---------- threads
    bool runnable(State &s, Thread &t) {
        if(t.ts == TS::Done)
            return false;
        if(t.ts == TS::Run)
            return true;
        int tid = &t - s.th.data();
        switch(t.wkind) {
            case 1: {
                auto &m = s.mutexes[t.waddr];
                return m.owner == -1 && m.readers.empty();
            }
            case 2: {
                auto &m = s.mutexes[t.waddr];
                return m.owner == -1;
            }
            case 3: {
                auto &m = s.mutexes[t.waddr];
                return m.owner == -1 && m.readers.empty();
            }
            case 4: // cond
                if(t.phase == 2 || t.timedOut) {
                    auto &m = s.mutexes[t.wmutex];
                    return m.owner == -1 && m.readers.empty();
                }
                if(t.canTimeout) {
                    auto &m = s.mutexes[t.wmutex];
                    return m.owner == -1 && m.readers.empty();
                }
                return false;
            case 5: return s.th[t.joinId].ts == TS::Done;
            case 6: {
                const Obj *o = s.mem.get(idOf(t.waddr));
                if(!o || !o->alive)
                    return true;
                V v = readObj(o, offOf(t.waddr), 32);
                return !v.conc() || v.c != t.joinId;
            }
            case 7: return s.switches > t.waddr; // yielded: not before another thread ran
        }
        (void)tid;
        return false;
    }
    bool others(State &s) {
        for(size_t i = 0; i < s.th.size(); i++)
            if((int)i != (int)s.cur && runnable(s, s.th[i]))
                return true;
        return false;
    }
    // current thread cannot continue (blocked/done): pick another; forks over the choices
    void schedule(State &s) {
        std::vector<int> r;
        for(size_t i = 0; i < s.th.size(); i++)
            if(runnable(s, s.th[i]))
                r.push_back(i);
        if(r.empty()) {
            if(s.th[0].ts == TS::Done) {
                finishPath(s, true);
                return;
            }
            error(s, "deadlock", "all threads are blocked");
            return;
        }
        if(replaying) {
            uint32_t ch = r.size() > 1 ? nextSched(s) : r[0];
            if(std::find(r.begin(), r.end(), (int)ch) == r.end())
                ch = r[0];
            if(r.size() > 1)
                s.sched.push_back(ch);
            ctxSwitch++;
            s.switches++;
            s.cur = ch;
            s.th[ch].ts = TS::Run;
            return;
        }
        s.switches++;
        // With a bound on delays, threads take turns, and letting one pass costs a delay.
        if(opt.delayBound != UINT32_MAX)
            std::rotate(r.begin(), std::upper_bound(r.begin(), r.end(), (int)s.cur), r.end());
        for(size_t i = 1; i < r.size() && !opt.oneSched; i++) {
            if(opt.delayBound != UINT32_MAX && s.delays + i > opt.delayBound)
                break;
            auto *q = fork(s);
            q->delays += i;
            q->sched.push_back(r[i]);
            q->cur = r[i];
            q->th[r[i]].ts = TS::Run;
        }
        if(r.size() > 1)
            s.sched.push_back(r[0]);
        ctxSwitch++;
        s.cur = r[0];
        s.th[r[0]].ts = TS::Run;
    }
    // preemption point before a visible operation
    void preempt(State &s) {
        if(s.th.size() < 2)
            return;
        Thread &t = s.th[s.cur];
        if(t.noPreempt) {
            t.noPreempt = false;
            return;
        }
        if(s.preempts >= opt.preemptBound)
            return;
        uint32_t alts = 0;
        if(replaying)
            for(size_t i = 0; i < s.th.size(); i++)
                alts += (int)i != s.cur && runnable(s, s.th[i]);
        if(replaying) {
            if(alts == 0)
                return;
            uint32_t ch = nextSched(s);
            s.sched.push_back(ch);
            if(ch >= 1000 && ch < 2000) {
                s.preempts++;
                s.switches++;
                t.noPreempt = true;
                s.cur = ch - 1000;
                s.th[s.cur].ts = TS::Run;
                dead = true;
                work.push_back(new State(s));
            }
            return;
        }
        for(size_t i = 0; i < s.th.size(); i++) {
            if((int)i == s.cur || !runnable(s, s.th[i]))
                continue;
            alts++;
            auto *q = fork(s);
            q->preempts++;
            q->switches++;
            q->th[q->cur].noPreempt = true;
            q->sched.push_back(1000 + i);
            q->cur = i;
            q->th[i].ts = TS::Run;
        }
        if(alts > 0)
            s.sched.push_back(2000);
    }
    uint32_t nextSched(State &s) {
        if(s.sched.size() < replaySched.size())
            return replaySched[s.sched.size()];
        return 2000;
    }
    void block(State &s, uint8_t kind, uint64_t addr) {
        Thread &t = s.th[s.cur];
        t.ts = TS::Blocked;
        t.wkind = kind;
        t.waddr = addr;
        t.noPreempt = true;
        schedule(s);
    }

    void initNatives();
    NR callNative(State &s, const Native &n, const CInst &ci, std::vector<V> &args, V *dst) { return n.fn(*this, s, ci, args, dst); }

    // ---------- main loop
    void step(State &s);
    void execCall(State &s, Frame &f, const CInst &ci);
    bool intrinsic(State &s, Frame &f, const CInst &ci, unsigned id);
    void runEntry(const Function *F);
    bool fpOp(State &s, const CInst &ci, const std::vector<const V *> &o, V *dst);
    void collectCovers(const Function *F);
    void ret(State &s, Thread &t, const V *v, uint32_t n) {
        Frame &f = t.st.back();
        popAllocas(s, f);
        const CInst *call = f.call;
        std::vector<V> rv(v, v + n);
        t.st.pop_back();
        if(t.st.empty()) {
            t.ts = TS::Done;
            if(s.cur == 0)
                finishPath(s, true);
            else
                schedule(s);
            return;
        }
        Frame &c = t.st.back();
        if(call) {
            for(uint32_t i = 0; i < call->nd && i < n; i++)
                c.regs[call->dst + i] = rv[i];
            if(!call->succ.empty())
                enterBlock(s, c, call->succ[0], c.bb);
            else
                c.ip++;
        }
    }
};

bool Engine::intrinsic(State &s, Frame &f, const CInst &ci, unsigned id) {
    auto A = [&](unsigned i) -> const V & { return *opv(f, ci.ops[i]); };
    V *dst = ci.nd ? &f.regs[ci.dst] : nullptr;
    auto each2 = [&](auto fn) {
        std::vector<V> r(ci.nd);
        const V *a = opv(f, ci.ops[0]), *b = ci.ops.size() > 1 ? opv(f, ci.ops[1]) : a;
        for(uint32_t i = 0; i < ci.nd; i++)
            r[i] = fn(a[i], b[i]);
        for(uint32_t i = 0; i < ci.nd; i++)
            dst[i] = r[i];
    };
    switch(id) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: {
            uint64_t n;
            if(!concretize(s, A(2), n))
                return false;
            return doMemcpy(s, A(0), A(1), n);
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline: {
            return doMemsetV(s, A(0), A(1), A(2));
        }
        case Intrinsic::umax: each2([](V a, V b) { return mkIte(mkBin(Op::Ult, a, b), b, a); }); return true;
        case Intrinsic::umin: each2([](V a, V b) { return mkIte(mkBin(Op::Ult, a, b), a, b); }); return true;
        case Intrinsic::smax: each2([](V a, V b) { return mkIte(mkBin(Op::Slt, a, b), b, a); }); return true;
        case Intrinsic::smin: each2([](V a, V b) { return mkIte(mkBin(Op::Slt, a, b), a, b); }); return true;
        case Intrinsic::abs: each2([](V a, V) { return mkIte(mkBin(Op::Slt, a, zeroV(a.w)), mkBin(Op::Sub, zeroV(a.w), a), a); }); return true;
        case Intrinsic::bswap:
            each2([](V a, V) {
                V r = mkExtract(a, 0, 8);
                for(uint32_t i = 8; i < a.w; i += 8)
                    r = mkConcat(r, mkExtract(a, i, 8));
                return r;
            });
            return true;
        case Intrinsic::ctpop:
            each2([](V a, V) {
                V r = zeroV(a.w);
                for(uint32_t i = 0; i < a.w; i++)
                    r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), a.w));
                return r;
            });
            return true;
        case Intrinsic::ctlz:
        case Intrinsic::cttz: {
            V a = A(0);
            V r = mkWide(APInt(a.w, a.w));
            for(uint32_t k = 0; k < a.w; k++) {
                uint32_t i = id == Intrinsic::ctlz ? k : a.w - 1 - k;
                uint32_t val = id == Intrinsic::ctlz ? a.w - 1 - i : i;
                r = mkIte(mkExtract(a, i, 1), mkWide(APInt(a.w, val)), r);
            }
            dst[0] = r;
            return true;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            std::vector<V> r(ci.nd);
            for(uint32_t i = 0; i < ci.nd; i++) {
                V a = opv(f, ci.ops[0])[i], b = opv(f, ci.ops[1])[i], c = opv(f, ci.ops[2])[i];
                V sh = mkBin(Op::URem, c, mkWide(APInt(c.w, c.w)));
                V cat = mkConcat(a, b);
                V s2 = mkZExt(sh, cat.w);
                if(id == Intrinsic::fshl)
                    r[i] = mkExtract(mkBin(Op::Shl, cat, s2), a.w, a.w);
                else
                    r[i] = mkExtract(mkBin(Op::LShr, cat, s2), 0, a.w);
            }
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = r[i];
            return true;
        }
        case Intrinsic::usub_sat: each2([](V a, V b) { return mkIte(mkBin(Op::Ult, a, b), zeroV(a.w), mkBin(Op::Sub, a, b)); }); return true;
        case Intrinsic::uadd_sat:
            each2([](V a, V b) {
                V sum = mkBin(Op::Add, a, b);
                return mkIte(mkBin(Op::Ult, sum, a), mkWide(APInt::getAllOnes(a.w)), sum);
            });
            return true;
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow: {
            V a = A(0), b = A(1), r, ov;
            uint32_t w = a.w;
            if(id == Intrinsic::uadd_with_overflow) {
                r = mkBin(Op::Add, a, b);
                ov = mkBin(Op::Ult, r, a);
            } else if(id == Intrinsic::usub_with_overflow) {
                r = mkBin(Op::Sub, a, b);
                ov = mkBin(Op::Ult, a, b);
            } else if(id == Intrinsic::umul_with_overflow) {
                V p = mkBin(Op::Mul, mkZExt(a, 2 * w), mkZExt(b, 2 * w));
                r = mkBin(Op::Mul, a, b);
                ov = mkNot(mkEq(mkExtract(p, w, w), zeroV(w)));
            } else {
                V sa = mkSExt(a, 2 * w), sb = mkSExt(b, 2 * w);
                Op o = id == Intrinsic::sadd_with_overflow ? Op::Add : id == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul;
                V p = mkBin(o, sa, sb);
                r = mkBin(o, a, b);
                ov = mkNot(mkEq(p, mkSExt(r, 2 * w)));
            }
            dst[0] = r;
            dst[1] = ov;
            return true;
        }
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy:
        case Intrinsic::annotation:
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = opv(f, ci.ops[0])[i];
            return true;
        case Intrinsic::ptrmask: dst[0] = mkBin(Op::And, A(0), A(1)); return true;
        case Intrinsic::is_constant: dst[0] = cv(1, 0); return true;
        case Intrinsic::objectsize: dst[0] = cv(ci.w, ~0ULL); return true;
        case Intrinsic::stacksave: dst[0] = cv(64, 0); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap: error(s, "abort", "trap"); return false;
        case Intrinsic::threadlocal_address: {
            auto *g = cast<GlobalVariable>(cast<CallBase>(ci.I)->getArgOperand(0));
            if(s.cur == 0) {
                dst[0] = cv(64, globalAddr(g));
                return true;
            }
            auto key = std::make_pair(s.cur, (const GlobalVariable *)g);
            auto it = s.tls.find(key);
            if(it == s.tls.end()) {
                uint32_t nid = s.mem.alloc(DL->getTypeAllocSize(g->getValueType()), OK::Global, 0, "tls");
                if(g->hasInitializer())
                    initConst(s.mem.wr(nid), 0, g->getInitializer());
                it = s.tls.emplace(key, nid).first;
            }
            dst[0] = cv(64, addrOf(it->second));
            return true;
        }
        case Intrinsic::vector_reduce_add:
        case Intrinsic::vector_reduce_or:
        case Intrinsic::vector_reduce_and:
        case Intrinsic::vector_reduce_xor: {
            const V *a = opv(f, ci.ops[0]);
            V r = a[0];
            Op o = id == Intrinsic::vector_reduce_add ? Op::Add : id == Intrinsic::vector_reduce_or ? Op::Or : id == Intrinsic::vector_reduce_and ? Op::And : Op::Xor;
            for(uint32_t i = 1; i < ci.n[0]; i++)
                r = mkBin(o, r, a[i]);
            dst[0] = r;
            return true;
        }
        case Intrinsic::fabs:
        case Intrinsic::ceil:
        case Intrinsic::floor:
        case Intrinsic::fmuladd: {
            std::vector<const V *> o;
            for(auto &x : ci.ops)
                o.push_back(opv(f, x));
            V r;
            for(auto *x : o)
                if(!isConst(*x)) {
                    unsupported(s, "symbolic floating point");
                    return false;
                }
            auto d = [&](const V &v) {
                double r;
                if(v.w == 32) {
                    float q;
                    uint32_t c = v.c;
                    memcpy(&q, &c, 4);
                    r = q;
                } else
                    memcpy(&r, &v.c, 8);
                return r;
            };
            double x = d(*o[0]);
            x = id == Intrinsic::fabs ? std::abs(x) : id == Intrinsic::ceil ? __builtin_ceil(x) : id == Intrinsic::floor ? __builtin_floor(x) : x * d(*o[1]) + d(*o[2]);
            if(ci.w == 32) {
                float q = x;
                uint32_t c;
                memcpy(&c, &q, 4);
                dst[0] = cv(32, c);
            } else {
                uint64_t c;
                memcpy(&c, &x, 8);
                dst[0] = cv(64, c);
            }
            return true;
        }
        default: break;
    }
    unsupported(s, "intrinsic " + ci.callee->getName().str());
    return false;
}

bool Engine::fpOp(State &s, const CInst &ci, const std::vector<const V *> &o, V *dst) {
    for(size_t k = 0; k < o.size(); k++)
        for(uint32_t i = 0; i < ci.n[k]; i++)
            if(!isConst(o[k][i])) {
                unsupported(s, "symbolic floating point");
                return false;
            }
    auto d = [](const V &v) -> double {
        if(v.w == 32) {
            float q;
            uint32_t c = v.c;
            memcpy(&q, &c, 4);
            return q;
        }
        double r;
        memcpy(&r, &v.c, 8);
        return r;
    };
    auto mkf = [](double x, uint32_t w) {
        if(w == 32) {
            float q = x;
            uint32_t c;
            memcpy(&c, &q, 4);
            return cv(32, c);
        }
        uint64_t c;
        memcpy(&c, &x, 8);
        return cv(64, c);
    };
    for(uint32_t i = 0; i < ci.nd; i++) {
        const V &a = o[0][i];
        if(a.w > 64 || ci.w > 64) {
            unsupported(s, "long double");
            return false;
        }
        switch(ci.opc) {
            case Instruction::FAdd: dst[i] = mkf(d(a) + d(o[1][i]), ci.w); break;
            case Instruction::FSub: dst[i] = mkf(d(a) - d(o[1][i]), ci.w); break;
            case Instruction::FMul: dst[i] = mkf(d(a) * d(o[1][i]), ci.w); break;
            case Instruction::FDiv: dst[i] = mkf(d(a) / d(o[1][i]), ci.w); break;
            case Instruction::FRem: dst[i] = mkf(__builtin_fmod(d(a), d(o[1][i])), ci.w); break;
            case Instruction::FNeg: dst[i] = mkf(-d(a), ci.w); break;
            case Instruction::FPExt:
            case Instruction::FPTrunc: dst[i] = mkf(d(a), ci.w); break;
            case Instruction::UIToFP: dst[i] = mkf(ci.w == 32 ? (double)(float)a.c : (double)a.c, ci.w); break;
            case Instruction::SIToFP: {
                int64_t x = mkSExt(a, 64).c;
                dst[i] = mkf(ci.w == 32 ? (double)(float)x : (double)x, ci.w);
                break;
            }
            case Instruction::FPToUI: dst[i] = cv(ci.w, (uint64_t)d(a)); break;
            case Instruction::FPToSI: dst[i] = cv(ci.w, (uint64_t)(int64_t)d(a)); break;
            case Instruction::FCmp: {
                double x = d(a), y = d(o[1][i]);
                bool un = __builtin_isnan(x) || __builtin_isnan(y), r = false;
                switch(ci.pred) {
                    case CmpInst::FCMP_FALSE: r = false; break;
                    case CmpInst::FCMP_TRUE: r = true; break;
                    case CmpInst::FCMP_OEQ: r = !un && x == y; break;
                    case CmpInst::FCMP_OGT: r = !un && x > y; break;
                    case CmpInst::FCMP_OGE: r = !un && x >= y; break;
                    case CmpInst::FCMP_OLT: r = !un && x < y; break;
                    case CmpInst::FCMP_OLE: r = !un && x <= y; break;
                    case CmpInst::FCMP_ONE: r = !un && x != y; break;
                    case CmpInst::FCMP_ORD: r = !un; break;
                    case CmpInst::FCMP_UNO: r = un; break;
                    case CmpInst::FCMP_UEQ: r = un || x == y; break;
                    case CmpInst::FCMP_UGT: r = un || x > y; break;
                    case CmpInst::FCMP_UGE: r = un || x >= y; break;
                    case CmpInst::FCMP_ULT: r = un || x < y; break;
                    case CmpInst::FCMP_ULE: r = un || x <= y; break;
                    case CmpInst::FCMP_UNE: r = un || x != y; break;
                }
                dst[i] = cv(1, r);
                break;
            }
            default: die("fp");
        }
    }
    return true;
}

void Engine::execCall(State &s, Frame &f, const CInst &ci) {
    const Function *F = ci.callee;
    uint32_t nargs = ci.ops.size();
    if(!F) {
        nargs--;
        V a = *opv(f, ci.ops.back());
        uint64_t addr;
        if(!concretize(s, a, addr))
            return;
        auto it = fnById.find(idOf(addr));
        if(it == fnById.end() || offOf(addr) != 0) {
            error(s, "memory", "call through an invalid function pointer");
            return;
        }
        F = it->second;
    } else if(F->isIntrinsic()) {
        if(intrinsic(s, f, ci, F->getIntrinsicID())) {
            if(!dead)
                f.ip++;
        }
        return;
    }
    std::vector<V> args;
    for(uint32_t i = 0; i < nargs; i++) {
        const V *v = opv(f, ci.ops[i]);
        for(uint32_t k = 0; k < ci.n[i]; k++)
            args.push_back(v[k]);
    }
    const Native *nat = nullptr;
    if(ci.callee && ci.nat)
        nat = ci.nat;
    else {
        auto it = natives.find(F->getName().str());
        if(it != natives.end()) {
            nat = &it->second;
            if(ci.callee)
                const_cast<CInst &>(ci).nat = nat;
        }
    }
    if(nat) {
        V tmp[8];
        uint64_t fi = s.th[s.cur].st.size();
        int cur0 = s.cur;
        NR r = nat->fn(*this, s, ci, args, tmp);
        if(dead || r != NR::Next)
            return;
        Frame &g = s.th[cur0].st[fi - 1];
        for(uint32_t i = 0; i < ci.nd && i < 8; i++) {
            if(tmp[i].w == 0)
                tmp[i] = zeroV(ci.nd == 1 && ci.w ? ci.w : 64);
            g.regs[ci.dst + i] = tmp[i];
        }
        if(!ci.succ.empty())
            enterBlock(s, g, ci.succ[0], g.bb);
        else
            g.ip++;
        return;
    }
    if(F->isDeclaration()) {
        std::string nm = F->getName().str();
        if(nm.find("__throw_") != std::string::npos || nm == "__cxa_throw") {
            refuse(s, "uncaught exception: " + demangle(nm));
            return;
        }
        unsupported(s, "call to external function " + nm + " [" + demangle(nm) + "]");
        return;
    }
    CFunc *cf = ci.callee && ci.cf ? ci.cf : compile(F);
    if(ci.callee)
        const_cast<CInst &>(ci).cf = cf;
    pushFrame(s, s.th[s.cur], cf, args, &ci);
}

void Engine::step(State &s) {
    Thread &t = s.th[s.cur];
    Frame &f = t.st.back();
    const CInst &ci = f.f->blocks[f.bb].ins[f.ip];
    s.steps++;
    totalSteps++;
    auto A = [&](unsigned i) -> const V * { return opv(f, ci.ops[i]); };
    V *dst = ci.nd ? &f.regs[ci.dst] : nullptr;
    switch(ci.opc) {
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Mul:
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor: {
            Op o = binop(ci.opc);
            const V *a = A(0), *b = A(1);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkBin(o, a[i], b[i]);
            f.ip++;
            return;
        }
        case Instruction::Shl:
        case Instruction::LShr:
        case Instruction::AShr: {
            Op o = binop(ci.opc);
            const V *a = A(0), *b = A(1);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkBin(o, a[i], b[i]);
            f.ip++;
            return;
        }
        case Instruction::UDiv:
        case Instruction::SDiv:
        case Instruction::URem:
        case Instruction::SRem: {
            Op o = binop(ci.opc);
            const V *a = A(0), *b = A(1);
            for(uint32_t i = 0; i < ci.nd; i++) {
                V z = mkEq(b[i], zeroV(b[i].w));
                if(!isFalse(z)) {
                    if(decide(s, z)) {
                        if(!dead)
                            error(s, "arith", "division by zero");
                        return;
                    }
                    if(dead)
                        return;
                }
            }
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkBin(o, a[i], b[i]);
            f.ip++;
            return;
        }
        case Instruction::ICmp: {
            const V *a = A(0), *b = A(1);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = icmp(ci.pred, a[i], b[i]);
            f.ip++;
            return;
        }
        case Instruction::Trunc: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkExtract(a[i], 0, ci.w);
            f.ip++;
            return;
        }
        case Instruction::ZExt: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkZExt(a[i], ci.w);
            f.ip++;
            return;
        }
        case Instruction::SExt: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkSExt(a[i], ci.w);
            f.ip++;
            return;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = ci.w < a[i].w ? mkExtract(a[i], 0, ci.w) : mkZExt(a[i], ci.w);
            f.ip++;
            return;
        }
        case Instruction::BitCast: {
            const V *a = A(0);
            if(ci.nd == ci.n[0] && a[0].w == ci.w) {
                for(uint32_t i = 0; i < ci.nd; i++)
                    dst[i] = a[i];
            } else {
                V x = a[0];
                for(uint32_t i = 1; i < ci.n[0]; i++)
                    x = mkConcat(a[i], x);
                for(uint32_t i = 0; i < ci.nd; i++)
                    dst[i] = mkExtract(x, i * ci.w, ci.w);
            }
            f.ip++;
            return;
        }
        case Instruction::Freeze: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = a[i];
            f.ip++;
            return;
        }
        case Instruction::Select: {
            const V *c = A(0), *a = A(1), *b = A(2);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = mkIte(ci.n[0] == 1 ? c[0] : c[i], a[i], b[i]);
            f.ip++;
            return;
        }
        case Instruction::GetElementPtr: {
            V p = *A(0);
            if(ci.gepc)
                p = mkBin(Op::Add, p, cv(64, ci.gepc));
            for(auto &g : ci.gep) {
                V x = *A(g.first);
                x = x.w < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64);
                p = mkBin(Op::Add, p, mkBin(Op::Mul, x, cv(64, g.second)));
            }
            dst[0] = p;
            f.ip++;
            return;
        }
        case Instruction::Load: {
            V p = *A(0);
            if(cast<LoadInst>(ci.I)->isAtomic() && s.th.size() > 1) {
                preempt(s);
                if(dead)
                    return;
                atomicOp(s, p, true, false);
                atomicAccess = true;
            }
            struct Reset {
                bool &b;
                ~Reset() { b = false; }
            } reset{atomicAccess};
            if(ci.lay.size() == 1) {
                V r;
                if(!loadV(s, p, ci.lay[0].second, r) || dead)
                    return;
                f.regs[ci.dst] = r;
            } else {
                std::vector<V> r(ci.lay.size());
                for(size_t i = 0; i < ci.lay.size(); i++)
                    if(!loadV(s, mkBin(Op::Add, p, cv(64, ci.lay[i].first)), ci.lay[i].second, r[i]) || dead)
                        return;
                for(size_t i = 0; i < r.size(); i++)
                    dst[i] = r[i];
            }
            f.ip++;
            return;
        }
        case Instruction::Store: {
            V p = *A(1);
            const V *v = A(0);
            if(cast<StoreInst>(ci.I)->isAtomic() && s.th.size() > 1) {
                preempt(s);
                if(dead)
                    return;
                atomicOp(s, p, false, true);
                atomicAccess = true;
            }
            struct Reset {
                bool &b;
                ~Reset() { b = false; }
            } reset{atomicAccess};
            for(size_t i = 0; i < ci.lay.size(); i++) {
                V x = v[i];
                if(x.w % 8)
                    x = mkZExt(x, (x.w + 7) / 8 * 8);
                if(!storeV(s, ci.lay[i].first ? mkBin(Op::Add, p, cv(64, ci.lay[i].first)) : p, x) || dead)
                    return;
            }
            f.ip++;
            return;
        }
        case Instruction::Alloca: {
            uint64_t n;
            if(!concretize(s, *A(0), n))
                return;
            uint32_t id = s.mem.alloc(n * ci.sz, OK::Stack, 0xCD, "stack");
            f.allocas.push_back(id);
            f.regs[ci.dst] = cv(64, addrOf(id));
            f.ip++;
            return;
        }
        case Instruction::Br: {
            if(ci.succ.size() == 1) {
                enterBlock(s, f, ci.succ[0], f.bb);
                return;
            }
            bool c = decide(s, *A(0));
            if(dead)
                return;
            enterBlock(s, f, c ? ci.succ[0] : ci.succ[1], f.bb);
            return;
        }
        case Instruction::Switch: {
            V x = *A(0);
            uint32_t to = ci.succ[0];
            if(x.conc()) {
                for(size_t i = 0; i < ci.cases.size(); i++)
                    if(ci.cases[i].c == x.c) {
                        to = ci.succ[i + 1];
                        break;
                    }
            } else
                for(size_t i = 0; i < ci.cases.size(); i++) {
                    bool e = decide(s, mkEq(x, ci.cases[i]));
                    if(dead)
                        return;
                    if(e) {
                        to = ci.succ[i + 1];
                        break;
                    }
                }
            enterBlock(s, f, to, f.bb);
            return;
        }
        case Instruction::Ret: {
            if(ci.ops.empty())
                ret(s, t, nullptr, 0);
            else {
                const V *v = A(0);
                ret(s, t, v, ci.n[0]);
            }
            return;
        }
        case Instruction::Unreachable: error(s, "abort", "unreachable code reached (undefined behaviour)"); return;
        case Instruction::ExtractValue: {
            const V *a = A(0);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = a[ci.gepc + i];
            f.ip++;
            return;
        }
        case Instruction::InsertValue: {
            const V *a = A(0), *b = A(1);
            std::vector<V> r(a, a + ci.n[0]);
            for(uint32_t i = 0; i < ci.n[1]; i++)
                r[ci.gepc + i] = b[i];
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = r[i];
            f.ip++;
            return;
        }
        case Instruction::ExtractElement: {
            const V *a = A(0);
            uint64_t k;
            if(!concretize(s, *A(1), k))
                return;
            dst[0] = k < ci.n[0] ? a[k] : zeroV(ci.w);
            f.ip++;
            return;
        }
        case Instruction::InsertElement: {
            const V *a = A(0);
            uint64_t k;
            if(!concretize(s, *A(2), k))
                return;
            std::vector<V> r(a, a + ci.n[0]);
            if(k < r.size())
                r[k] = *A(1);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = r[i];
            f.ip++;
            return;
        }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(ci.I);
            const V *a = A(0), *b = A(1);
            std::vector<V> r;
            for(int m : sv->getShuffleMask())
                r.push_back(m < 0 ? zeroV(ci.w) : (uint32_t)m < ci.n[0] ? a[m] : b[m - ci.n[0]]);
            for(uint32_t i = 0; i < ci.nd; i++)
                dst[i] = r[i];
            f.ip++;
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke: execCall(s, f, ci); return;
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(ci.I);
            preempt(s);
            if(dead)
                return;
            V p = *A(0), v = *A(1), old;
            atomicOp(s, p, true, true);
            atomicAccess = true;
            struct Reset {
                bool &b;
                ~Reset() { b = false; }
            } reset{atomicAccess};
            if(!loadV(s, p, v.w, old) || dead)
                return;
            V nv;
            switch(rm->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = mkBin(Op::Add, old, v); break;
                case AtomicRMWInst::Sub: nv = mkBin(Op::Sub, old, v); break;
                case AtomicRMWInst::And: nv = mkBin(Op::And, old, v); break;
                case AtomicRMWInst::Or: nv = mkBin(Op::Or, old, v); break;
                case AtomicRMWInst::Xor: nv = mkBin(Op::Xor, old, v); break;
                default: unsupported(s, "atomicrmw"); return;
            }
            if(!storeV(s, p, nv) || dead)
                return;
            f.regs[ci.dst] = old;
            f.ip++;
            return;
        }
        case Instruction::AtomicCmpXchg: {
            preempt(s);
            if(dead)
                return;
            V p = *A(0), c = *A(1), v = *A(2), old;
            atomicOp(s, p, true, true);
            atomicAccess = true;
            struct Reset {
                bool &b;
                ~Reset() { b = false; }
            } reset{atomicAccess};
            if(!loadV(s, p, c.w, old) || dead)
                return;
            V eq = mkEq(old, c);
            if(!storeV(s, p, mkIte(eq, v, old)) || dead)
                return;
            f.regs[ci.dst] = old;
            f.regs[ci.dst + 1] = eq;
            f.ip++;
            return;
        }
        case Instruction::Fence: f.ip++; return;
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem:
        case Instruction::FNeg:
        case Instruction::FCmp:
        case Instruction::FPExt:
        case Instruction::FPTrunc:
        case Instruction::UIToFP:
        case Instruction::SIToFP:
        case Instruction::FPToUI:
        case Instruction::FPToSI: {
            std::vector<const V *> o;
            for(size_t i = 0; i < ci.ops.size(); i++)
                o.push_back(A(i));
            std::vector<V> r(ci.nd);
            if(fpOp(s, ci, o, r.data())) {
                for(uint32_t i = 0; i < ci.nd; i++)
                    dst[i] = r[i];
                f.ip++;
            }
            return;
        }
        default: unsupported(s, std::string("instruction ") + ci.I->getOpcodeName()); return;
    }
}

void Engine::collectCovers(const Function *F) {
    // every sym_cover name used in functions reachable from F through direct calls and address-taken references
    std::set<const Function *> seen;
    std::vector<const Function *> st{F};
    while(!st.empty()) {
        auto *f = st.back();
        st.pop_back();
        if(!seen.insert(f).second)
            continue;
        for(auto &I : instructions(f)) {
            for(auto &o : I.operands())
                if(auto *g = dyn_cast<Function>(o.get()->stripPointerCasts()))
                    st.push_back(g);
            if(auto *c = dyn_cast<CallBase>(&I))
                if(auto *g = c->getCalledFunction())
                    if(g->getName() == "sym_cover") {
                        if(auto *gv = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts()))
                            if(gv->hasInitializer())
                                if(auto *cd = dyn_cast<ConstantDataArray>(gv->getInitializer()))
                                    if(cd->isCString())
                                        coverExpected.insert(cd->getAsCString().str());
                    }
        }
    }
}

void Engine::runEntry(const Function *F) {
    harness = F->getName().str();
    collectCovers(F);
    for(auto &kv : cfuncs)
        delete kv.second;
    cfuncs.clear();
    State *s = initState(F);
    auto cs = ctors();
    // run constructors then the harness: push frames in reverse order
    auto &t = s->th[0];
    curS = s;
    dead = false;
    pushFrame(*s, t, compile(F), {}, nullptr);
    // constructors
    {
        State *init = s;
        for(auto *c : cs) {
            size_t base = init->th[0].st.size();
            pushFrame(*init, init->th[0], compile(c), {}, nullptr);
            while(!dead && init->th[0].st.size() > base)
                step(*init);
            if(dead || !work.empty())
                die("constructor failed: " + c->getName().str() + (violations.empty() ? "" : " " + violations[0].kind + " " + violations[0].msg) + (incomplete.empty() ? "" : " " + incomplete[0]));
        }
        init->steps = 0;
    }
    work.push_back(s);
    // Split the exploration over processes: every process expands the same breadth-first prefix and keeps its share.
    if(parts > 1) {
        gStats = {};
        while(!work.empty() && work.size() < 24 * parts && now() < deadline) {
            State *c = work.front();
            work.erase(work.begin());
            curS = c;
            dead = false;
            size_t n0 = work.size();
            while(!dead && work.size() == n0) {
                step(*c);
                if(c->steps > opt.maxSteps)
                    stepLimit(*c);
                if(now() > deadline)
                    unsupported(*c, "time limit reached");
            }
            maxDepth = std::max<uint64_t>(maxDepth, c->pc.size());
            curS = nullptr;
            if(dead)
                delete c;
            else
                work.push_back(c);
        }
        std::vector<State *> mine;
        for(size_t i = 0; i < work.size(); i++)
            if(i % parts == part)
                mine.push_back(work[i]);
            else
                delete work[i];
        work.swap(mine);
        if(part != 0) {
            paths = 0;
            forks = 0;
            totalSteps = 0;
            asserts = 0;
            assertQueries = 0;
            pathsAssumed = 0;
        }
    }
    double lastPrint = now();
    while(!work.empty()) {
        State *c = work.back();
        work.pop_back();
        curS = c;
        dead = false;
        uint64_t k = 0;
        while(!dead) {
            step(*c);
            if((++k & 0x3ff) == 0) {
                if(c->steps > opt.maxSteps)
                    stepLimit(*c);
                if((k & 0xffff) == 0 && now() > deadline)
                    unsupported(*c, "time limit reached");
            }
        }
        maxDepth = std::max<uint64_t>(maxDepth, c->pc.size());
        curS = nullptr;
        delete c;
        if(opt.verbose && now() - lastPrint > 5) {
            lastPrint = now();
            fprintf(stderr, "[%.0fs] %s paths=%lu work=%zu steps=%lu queries=%lu z3=%lu (%.1fs) nodes=%zu viol=%zu\n", now() - t0, harness.c_str(), paths, work.size(), totalSteps, gStats.queries, gStats.solverCalls, gStats.time, numNodes(), violations.size());
        }
        if(now() > deadline) {
            if(!work.empty())
                incomplete.push_back("time limit reached in " + harness + " with " + std::to_string(work.size()) + " states pending");
            break;
        }
        if(paths > opt.maxPaths) {
            incomplete.push_back("path limit");
            break;
        }
        if(violations.size() >= opt.maxViolations)
            break;
    }
    for(auto *w : work)
        delete w;
    work.clear();
}

#include "natives.inc"

int main(int argc, char **argv) {
    Engine E;
    std::vector<std::string> files, ovs, entries;
    std::string out = "-";
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char *p) { return a.substr(strlen(p)); };
        if(a.rfind("-entry=", 0) == 0)
            entries.push_back(val("-entry="));
        else if(a.rfind("-override=", 0) == 0)
            ovs.push_back(val("-override="));
        else if(a.rfind("-time=", 0) == 0)
            E.opt.timeLimit = std::stod(val("-time="));
        else if(a.rfind("-steps=", 0) == 0)
            E.opt.maxSteps = std::stoull(val("-steps="));
        else if(a.rfind("-preempt=", 0) == 0)
            E.opt.preemptBound = std::stoul(val("-preempt="));
        else if(a.rfind("-part=", 0) == 0) {
            auto v = val("-part=");
            E.part = std::stoul(v);
            E.parts = std::stoul(v.substr(v.find('/') + 1));
        } else if(a.rfind("-replay=", 0) == 0) {
            if(!E.loadReplay(val("-replay=")))
                return 3;
        } else if(a.rfind("-solver-ms=", 0) == 0)
            E.opt.solverMs = std::stoul(val("-solver-ms="));
        else if(a.rfind("-seed=", 0) == 0)
            E.opt.seed = std::stoul(val("-seed="));
        else if(a.rfind("-src=", 0) == 0)
            E.opt.srcPrefix = val("-src=");
        else if(a.rfind("-out=", 0) == 0)
            out = val("-out=");
        else if(a.rfind("-max-viol=", 0) == 0)
            E.opt.maxViolations = std::stoul(val("-max-viol="));
        else if(a.rfind("-max-alloc=", 0) == 0)
            E.opt.maxAlloc = std::stoull(val("-max-alloc="));
        else if(a.rfind("-bulk=", 0) == 0)
            E.opt.bulk = std::stoull(val("-bulk="));
        else if(a == "-exit-ok")
            E.opt.exitOk = true;
        else if(a == "-no-races")
            E.opt.races = false;
        else if(a.rfind("-delays=", 0) == 0)
            E.opt.delayBound = std::stoul(a.substr(8));
        else if(a == "-one-sched")
            E.opt.oneSched = true;
        else if(a == "-steps-ok")
            E.opt.stepsViol = false;
        else if(a == "-v")
            E.opt.verbose = true;
        else
            files.push_back(a);
    }
    if(!E.load(files, ovs))
        return 3;
    solverInit(E.opt.solverMs, E.opt.seed);
    E.initNatives();
    E.t0 = now();
    E.deadline = now() + E.opt.timeLimit;
    for(auto &e : entries) {
        auto *F = E.M->getFunction(e);
        if(!F || F->isDeclaration()) {
            fprintf(stderr, "no entry %s\n", e.c_str());
            return 3;
        }
        E.runEntry(F);
    }
    std::ostringstream o;
    o << "{\"entries\":[";
    for(size_t i = 0; i < entries.size(); i++)
        o << (i ? "," : "") << jstr(entries[i]);
    o << "],\"paths\":" << E.paths << ",\"paths_assumed_away\":" << E.pathsAssumed << ",\"forks\":" << E.forks << ",\"instructions\":" << E.totalSteps
      << ",\"asserts_evaluated\":" << E.asserts << ",\"assert_queries\":" << E.assertQueries << ",\"max_path_constraints\":" << E.maxDepth << ",\"context_switches\":" << E.ctxSwitch << ",\"max_threads\":" << E.threadsMax
      << ",\"queries\":" << gStats.queries << ",\"solver_calls\":" << gStats.solverCalls << ",\"cache_hits\":" << gStats.cacheHits << ",\"sat\":" << gStats.sat
      << ",\"unsat\":" << gStats.unsat << ",\"unknown\":" << gStats.unknown << ",\"solver_s\":" << gStats.time << ",\"solver_max_s\":" << gStats.maxTime
      << ",\"nodes\":" << numNodes() << ",\"wall_s\":" << (now() - E.t0);
    o << ",\"covers\":[";
    bool first = true;
    for(auto &c : E.covers) {
        o << (first ? "" : ",") << jstr(c);
        first = false;
    }
    o << "],\"replay_diverged\":" << (E.replayDiverged ? "true" : "false") << ",\"covers_missing\":[";
    first = true;
    for(auto &c : E.coverExpected)
        if(!E.covers.count(c)) {
            o << (first ? "" : ",") << jstr(c);
            first = false;
        }
    o << "],\"incomplete\":[";
    first = true;
    for(auto &c : E.incomplete) {
        o << (first ? "" : ",") << jstr(c);
        first = false;
    }
    o << "],\"functions\":[";
    first = true;
    for(auto &c : E.encFns) {
        auto p = c.find(':');
        o << (first ? "" : ",") << jstr(c.substr(0, p) + ": " + demangle(c.substr(p + 1)).substr(0, 200));
        first = false;
    }
    o << "],\"samples\":[";
    for(size_t i = 0; i < E.samples.size(); i++)
        o << (i ? "," : "") << jstr(E.samples[i]);
    o << "],\"violations\":[";
    for(size_t i = 0; i < E.violations.size(); i++) {
        auto &v = E.violations[i];
        o << (i ? "," : "") << "{\"harness\":" << jstr(v.harness) << ",\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"trace\":" << jstr(v.trace) << ",\"replay\":" << jstr(v.replay) << "}";
    }
    o << "]}\n";
    if(out == "-")
        std::cout << o.str();
    else {
        std::ofstream f(out);
        f << o.str();
    }
    fflush(stdout);
    _exit(E.violations.empty() ? (E.incomplete.empty() ? 0 : 2) : 1);
}
