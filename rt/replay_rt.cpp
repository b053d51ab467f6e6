// Native implementation of the symbolic interface: replays the values of a counterexample against the real code.
// Exit code 1 and a "REPLAY-FAILED" line when the assertion fails, 0 when the run ends well, 3 when it diverged.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include "sym.h"
namespace {
    struct rec {
        char k;
        std::string name;
        uint64_t v;
        std::vector<unsigned char> b;
    };
    std::vector<rec> recs;
    std::vector<rec> hashes;
    size_t pos = 0, hpos = 0;
    bool loaded = false;
    void load() {
        if(loaded)
            return;
        loaded = true;
        const char* fn = getenv("VERIF_REPLAY");
        if(fn == nullptr)
            return;
        std::ifstream f(fn);
        std::string l;
        while(std::getline(f, l)) {
            std::istringstream is(l);
            std::string k, x;
            rec r;
            uint64_t w;
            is >> k >> r.name >> w;
            if(k == "v" || k == "c")
                is >> r.v;
            else if(k == "b" || k == "h") {
                is >> x;
                for(size_t i = 0; 2 * i + 1 < x.size(); i++)
                    r.b.push_back(static_cast<unsigned char>(std::stoul(x.substr(2 * i, 2), nullptr, 16)));
            } else
                continue;
            r.k = k[0];
            (r.k == 'h' ? hashes : recs).push_back(r);
        }
    }
    [[noreturn]] void diverged(const char* name) {
        load();
        printf("REPLAY-DIVERGED at %s\n", name);
        fflush(stdout);
        _exit(3);
    }
    rec& next(const char* nm) {
        load();
        std::string name = nm;
        for(auto& c : name)
            if(c == ' ')
                c = '_';
        while(pos < recs.size() && recs[pos].name.rfind("lib_", 0) == 0)
        pos++; // values of modelled library functions
    if(pos >= recs.size() || recs[pos].name != name)
            diverged(nm);
        return recs[pos++];
    }
}
extern "C" {
uint64_t sym_u64_(const char* n) { return next(n).v; }
uint32_t sym_u32_(const char* n) { return static_cast<uint32_t>(next(n).v); }
uint8_t sym_u8_(const char* n) { return static_cast<uint8_t>(next(n).v); }
bool sym_bool_(const char* n) { return next(n).v != 0; }
uint64_t sym_range_(uint64_t, uint64_t, const char* n) { return next(n).v; }
void sym_bytes(void* p, size_t n, const char* name) {
    auto& r = next(name);
    if(r.b.size() != n)
        diverged(name);
    if(n != 0)
        memcpy(p, r.b.data(), n);
}
uint64_t sym_choice_(uint64_t, const char* n) { return next(n).v; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume_(bool c) {
    if(!c)
        diverged("assumption");
}
void sym_assert_(bool c, const char* msg) {
    if(!c) {
        printf("REPLAY-FAILED %s\n", msg);
        fflush(stdout);
        _exit(1);
    }
}
void sym_cover(const char*) {}
void sym_note(const char* m) { printf("note %s\n", m); }
void sym_print(const char* n, uint64_t v) { printf("%s = %llu\n", n, static_cast<unsigned long long>(v)); }
void sym_end() {
    printf("REPLAY-OK\n");
    fflush(stdout);
    _exit(0);
}
void sym_may_refuse(bool c) {
    signal(SIGABRT, c ? [](int) {
        static const char ok[] = "REPLAY-OK\n";
        (void)!write(1, ok, sizeof(ok) - 1);
        _exit(0);
    } : SIG_DFL);
}
bool sym_is_symbolic(uint64_t) { return false; }
void sym_hash(uint64_t tag, const void* in, size_t len, void* out) {
    load();
    (void)tag;
    (void)in;
    (void)len;
    if(hpos >= hashes.size())
        diverged("hash");
    memcpy(out, hashes[hpos++].b.data(), 32);
}
uint64_t sym_uf(uint64_t, const void*, size_t, uint64_t, const char* n) { return next(n).v; }
uint64_t sym_thread_create(void* (*)(void*), void*) { diverged("thread"); }
void sym_thread_join(uint64_t) {}
uint64_t sym_thread_self() { return 0; }
void sym_yield() {}
int sym_cond_wait(void*, void*, int) { return 0; }
void sym_cond_notify(void*, int) {}
void sym_futex_wait(void*, uint32_t) {}
}
extern "C" void VERIF_ENTRY();
int main() {
    load();
    atexit([] {
        printf("REPLAY-EXIT\n");
    });
    VERIF_ENTRY();
    printf("REPLAY-OK\n");
    fflush(stdout);
    _exit(0);
}
