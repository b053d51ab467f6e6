// Interface between harnesses and the symbolic executor.  The same functions have a native implementation
// (replay_rt.cpp) that reads the values of a counterexample from a file.
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_u64_(const char* name);
uint32_t sym_u32_(const char* name);
uint8_t sym_u8_(const char* name);
bool sym_bool_(const char* name);
uint64_t sym_range_(uint64_t lo, uint64_t hi, const char* name);
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_choice_(uint64_t n, const char* name); // concrete, forks
uint64_t sym_concretize(uint64_t v);
void sym_assume_(bool c);
void sym_assert_(bool c, const char* msg);
void sym_cover(const char* name); // must be reached on some path
void sym_note(const char* msg);
void sym_print(const char* name, uint64_t v);
[[noreturn]] void sym_end();
void sym_may_refuse(bool c); // the program may stop itself exactly where c holds
bool sym_is_symbolic(uint64_t v);
void sym_hash(uint64_t tag, const void* in, size_t len, void* out32);
uint64_t sym_uf(uint64_t tag, const void* in, size_t len, uint64_t width, const char* name);
uint64_t sym_thread_create(void* (*fn)(void*), void* arg);
void sym_thread_join(uint64_t id);
uint64_t sym_thread_self();
void sym_yield();
int sym_cond_wait(void* cv, void* mutex, int timed);
void sym_cond_notify(void* cv, int all);
void sym_futex_wait(void* addr, uint32_t val); // block while *addr == val
}
#define CHECK(c) sym_assert_((c), #c)
#define CHECKM(c, m) sym_assert_((c), m)
#define ASSUME(c) sym_assume_(c)
#endif
