#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <functional>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>

struct Operand {
    int32_t idx; // >=0: register slot, <0: ~index into constants
};
struct CBlock;
struct CFunc;
struct CInst {
    unsigned opc;
    unsigned pred = 0;
    const llvm::Instruction *I;
    int32_t dst = -1;
    uint32_t nd = 0; // scalars produced
    uint32_t w = 0;  // element width
    std::vector<Operand> ops;
    std::vector<uint32_t> n; // scalars per operand
    // type-specific
    std::vector<uint32_t> succ;                          // block indices
    std::vector<std::pair<uint64_t, uint32_t>> lay;      // load/store: (offset,width) per scalar
    std::vector<std::pair<int, uint64_t>> gep;           // (operand, scale)
    uint64_t gepc = 0;                                   // constant offset
    std::vector<V> cases;
    const llvm::Function *callee = nullptr;
    CFunc *cf = nullptr;
    const struct Native *nat = nullptr;
    uint64_t sz = 0; // alloca elem size
};
struct CPhi {
    int32_t dst;
    uint32_t n;
    std::vector<std::pair<uint32_t, Operand>> in; // (pred block, operand)
};
struct CBlock {
    std::vector<CPhi> phis;
    std::vector<CInst> ins;
    bool executed = false;
    const llvm::BasicBlock *bb;
};
struct CFunc {
    const llvm::Function *F;
    std::vector<CBlock> blocks;
    std::vector<V> consts;
    uint32_t nslots = 0;
    std::vector<std::pair<int32_t, uint32_t>> args; // slot,count
    uint64_t calls = 0;
};
struct Frame {
    CFunc *f;
    uint32_t bb = 0, ip = 0;
    std::vector<V> regs;
    std::vector<uint32_t> allocas;
    const CInst *call = nullptr; // call instruction in the caller
    Frame() = default;
};
enum class TS : uint8_t { Run, Blocked, Done };
struct Thread {
    std::vector<Frame> st;
    TS ts = TS::Run;
    uint8_t wkind = 0; // 1 mutex 2 rwlock rd 3 rwlock wr 4 cond 5 join
    uint64_t waddr = 0, wmutex = 0;
    uint8_t phase = 0;    // cond wait: 0 not started, 1 waiting, 2 woken
    bool canTimeout = false;
    bool timedOut = false;
    bool noPreempt = false;
    uint64_t joinId = 0;
};
struct Mutex {
    int owner = -1;
    uint32_t count = 0;
    std::vector<int> readers;
};
struct Rec {
    const std::string *name;
    uint8_t kind; // 0 value, 1 bytes, 2 concrete choice
    uint32_t w = 0;
    std::vector<uint32_t> syms;
    uint64_t val = 0;
    std::string hex = "";
};
struct HashEnt {
    uint32_t tag;
    std::vector<V> in;
    std::vector<V> out;
};
// Happens-before order of the threads (vector clocks), to find data races.
constexpr int RT = 6;
struct VC {
    uint32_t c[RT] = {};
    void join(const VC &o) {
        for(int i = 0; i < RT; i++)
            c[i] = std::max(c[i], o.c[i]);
    }
};
struct RCell { // the last accesses of a thread to a word
    uint32_t clk[2][RT] = {};
    uint8_t mask[2][RT] = {};
    const llvm::Instruction *at[2][RT] = {};
};
struct RObj {
    std::map<uint32_t, RCell> w;
};
struct Race {
    std::vector<VC> vc;
    std::map<uint64_t, VC> sync;
    std::map<uint32_t, std::shared_ptr<RObj>> obj;
};
struct State {
    std::shared_ptr<Race> race;
    Mem mem;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<const Node *> pc;
    std::shared_ptr<Model> model = std::make_shared<Model>();
    std::vector<Rec> recs;
    std::vector<HashEnt> hashes;
    std::map<uint64_t, Mutex> mutexes;
    std::map<std::pair<int, const llvm::GlobalVariable *>, uint32_t> tls;
    std::map<uint64_t, uint64_t> ctrs;
    uint64_t steps = 0;
    uint32_t preempts = 0;
    uint32_t delays = 0;
    uint64_t sites = 0;
    std::map<std::string, uint32_t> symCount;
    std::vector<std::string> notes;
    std::vector<uint32_t> sched; // schedule choices
    uint64_t switches = 0;       // how often another thread went on
    uint64_t depth = 0;
    V refuse = cv(1, 0);
};
enum class NR { Next, Stop, Redo };
struct Engine;
using NatFn = std::function<NR(Engine &, State &, const CInst &, std::vector<V> &args, V *dst)>;
struct Native {
    std::string name;
    NatFn fn;
};

struct Options {
    double timeLimit = 600;
    uint64_t maxSteps = 200000000;
    uint64_t maxPaths = 100000000;
    uint32_t preemptBound = 2;
    unsigned solverMs = 60000;
    unsigned seed = 1;
    bool verbose = false;
    bool oneSched = false;
    uint32_t delayBound = UINT32_MAX; // how often a thread may be let pass where another stops
    bool races = true;
    bool exitOk = false, stepsViol = true;
    uint64_t maxAlloc = 256ULL << 20;
    uint64_t bulk = 4096; // sizes up to this are told apart
    uint32_t maxViolations = 8;
    size_t maxObjIte = 4096;
    std::string outdir = ".";
    std::string srcPrefix = "/repo/";
    bool dumpQueries = false;
};
struct Violation {
    std::string kind, msg, where, trace;
    std::string replay; // file content
    std::string harness;
};
