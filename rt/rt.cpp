// Bitcode models of the library functions that are not templates: red-black trees, hash tables, threads, futures,
// clocks and streams.  Compiled with the shadow stream headers.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <random>
#include <shared_mutex>
#include <string>
#include <sym.h>
#include <system_error>
#include <thread>
#include <unordered_map>
#include "shadow_streams.hpp"

bool vf_any_random = false; // whether every value of a random choice is explored
int vf_random_left = 6;
extern "C" {
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
int __cxa_thread_atexit(void (*)(void*), void*, void*) {
    return 0;
}
}
// ---- streams
namespace vfs {
    void (*on_op)(const char*) = nullptr;
    bool (*fail_op)(const char*) = nullptr;
    fs& get() {
        static fs f;
        return f;
    }
}
namespace std {
    static basic_streambuf<char> g_null;
    ostream cout(&g_null);
    ostream cerr(&g_null);
    ostream clog(&g_null);
    istream cin(nullptr);
    template<>
    basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d) {
        s.clear();
        if(!in.good()) {
            in.setstate(ios_base::failbit);
            return in;
        }
        bool any = false;
        while(true) {
            if(!in.more()) {
                in.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit));
                return in;
            }
            char c = in.cur();
            in.adv();
            any = true;
            if(c == d)
                return in;
            s.push_back(c);
        }
    }
    template<>
    basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s) {
        s.clear();
        if(!in.good()) {
            in.setstate(ios_base::failbit);
            return in;
        }
        in.skip();
        while(in.more()) {
            char c = in.cur();
            if(c == ' ' || (c >= '\t' && c <= '\r'))
                break;
            s.push_back(c);
            in.adv();
        }
        if(!in.more())
            in.setstate(ios_base::eofbit);
        if(s.empty())
            in.setstate(ios_base::failbit);
        return in;
    }
    // ---- trees: an unbalanced binary search tree with the same interface (balance affects only cost)
    static _Rb_tree_node_base* tmin(_Rb_tree_node_base* x) {
        while(x->_M_left != nullptr)
            x = x->_M_left;
        return x;
    }
    static _Rb_tree_node_base* tmax(_Rb_tree_node_base* x) {
        while(x->_M_right != nullptr)
            x = x->_M_right;
        return x;
    }
    // The header is the only red node whose grandparent is itself; every other node is black here.
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
        if(x->_M_right != nullptr)
            return tmin(x->_M_right);
        auto* y = x->_M_parent;
        while(x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if(x->_M_right != y)
            x = y;
        return x;
    }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
        return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
    }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
        if(x->_M_color == _S_red && x->_M_parent->_M_parent == x)
            return x->_M_right;
        if(x->_M_left != nullptr)
            return tmax(x->_M_left);
        auto* y = x->_M_parent;
        while(x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
        return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
        x->_M_parent = p;
        x->_M_left = nullptr;
        x->_M_right = nullptr;
        x->_M_color = _S_black;
        if(left) {
            p->_M_left = x;
            if(p == &h) {
                h._M_parent = x;
                h._M_right = x;
            } else if(p == h._M_left)
                h._M_left = x;
        } else {
            p->_M_right = x;
            if(p == h._M_right)
                h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) throw() {
        auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
            if(h._M_parent == a)
                h._M_parent = b;
            else if(a->_M_parent->_M_left == a)
                a->_M_parent->_M_left = b;
            else
                a->_M_parent->_M_right = b;
            if(b != nullptr)
                b->_M_parent = a->_M_parent;
        };
        if(z->_M_left == nullptr)
            repl(z, z->_M_right);
        else if(z->_M_right == nullptr)
            repl(z, z->_M_left);
        else {
            auto* y = tmin(z->_M_right);
            if(y->_M_parent != z) {
                repl(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            repl(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        if(h._M_parent == nullptr) {
            h._M_left = &h;
            h._M_right = &h;
        } else {
            if(h._M_left == z)
                h._M_left = tmin(h._M_parent);
            if(h._M_right == z)
                h._M_right = tmax(h._M_parent);
        }
        return z;
    }
    // ---- hash tables: one bucket, so lookups compare keys and never branch on hash values
    namespace __detail {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t) const {
            return 1;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const {
            return {false, 0};
        }
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept {
            _M_next->_M_prev = _M_prev;
            _M_prev->_M_next = _M_next;
        }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
            if(this != l) {
                l->_M_prev->_M_next = this;
                f->_M_prev->_M_next = l;
                _M_prev->_M_next = f;
                auto* t = _M_prev;
                _M_prev = l->_M_prev;
                l->_M_prev = f->_M_prev;
                f->_M_prev = t;
            }
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
            if(x._M_next != &x) {
                if(y._M_next != &y) {
                    std::swap(x._M_next, y._M_next);
                    std::swap(x._M_prev, y._M_prev);
                    x._M_next->_M_prev = x._M_prev->_M_next = &x;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                } else {
                    y._M_next = x._M_next;
                    y._M_prev = x._M_prev;
                    y._M_next->_M_prev = y._M_prev->_M_next = &y;
                    x._M_next = x._M_prev = &x;
                }
            } else if(y._M_next != &y) {
                x._M_next = y._M_next;
                x._M_prev = y._M_prev;
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
                y._M_next = y._M_prev = &y;
            }
        }
    }
    size_t _Hash_bytes(const void*, size_t n, size_t) {
        return n;
    }
    void __throw_bad_function_call() {
        __builtin_abort();
    }
    // ---- threads
    struct shadow_thread {
        thread::_State* st;
    };
    static void* thread_main(void* p) {
        auto* s = static_cast<thread::_State*>(p);
        s->_M_run();
        delete s;
        return nullptr;
    }
    thread::_State::~_State() = default;
    void thread::_M_start_thread(_State_ptr s, void (*)()) {
        auto id = sym_thread_create(thread_main, s.release());
        static_assert(sizeof(_M_id) == sizeof(id));
        __builtin_memcpy(&_M_id, &id, sizeof(id));
    }
    void thread::join() {
        uint64_t id;
        __builtin_memcpy(&id, &_M_id, sizeof(id));
        if(id == 0)
            __builtin_abort();
        sym_thread_join(id);
        _M_id = thread::id();
    }
    void thread::detach() {
        _M_id = thread::id();
    }
    unsigned int thread::hardware_concurrency() noexcept {
        return 2;
    }
    namespace this_thread {
        void __sleep_for(chrono::seconds, chrono::nanoseconds) {
            sym_yield();
        }
    }
    condition_variable::condition_variable() noexcept = default;
    condition_variable::~condition_variable() noexcept = default;
    void condition_variable::wait(unique_lock<mutex>& l) {
        sym_cond_wait(this, l.mutex()->native_handle(), 0);
    }
    void condition_variable::notify_one() noexcept {
        sym_cond_notify(this, 0);
    }
    void condition_variable::notify_all() noexcept {
        sym_cond_notify(this, 1);
    }
    void notify_all_at_thread_exit(condition_variable& c, unique_lock<mutex> l) {
        l.unlock();
        c.notify_all();
    }
    // ---- futures
    bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
        if(timed) {
            sym_yield();
            return false;
        }
        sym_futex_wait(a, v);
        return true;
    }
    bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
        return _M_futex_wait_until(a, v, timed, s, n);
    }
    void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
    __future_base::_Result_base::_Result_base() = default;
    __future_base::_Result_base::~_Result_base() = default;
    struct shadow_cat : error_category {
        const char* name() const noexcept override { return "cat"; }
        string message(int) const override { return "error"; }
    };
    const error_category& future_category() noexcept {
        static shadow_cat c;
        return c;
    }
    namespace _V2 {
        error_category::~error_category() = default;
        bool error_category::equivalent(int c, const error_condition& e) const noexcept {
            return default_error_condition(c) == e;
        }
        bool error_category::equivalent(const error_code& e, int c) const noexcept {
            return *this == e.category() && e.value() == c;
        }
        error_condition error_category::default_error_condition(int i) const noexcept {
            return {i, *this};
        }
        __cow_string error_category::_M_message(int) const {
            return {};
        }
        const error_category& system_category() noexcept {
            static shadow_cat c;
            return c;
        }
        const error_category& generic_category() noexcept {
            static shadow_cat c;
            return c;
        }
    }
    __cow_string::__cow_string() {}
    __cow_string::~__cow_string() {}
    __cow_string::__cow_string(__cow_string&&) noexcept {}
    // ---- clocks: every reading advances by one millisecond
    static uint64_t g_now = 1600000000ULL * 1000000000ULL;
    namespace chrono {
        inline namespace _V2 {
            system_clock::time_point system_clock::now() noexcept {
                g_now += 1000000;
                return time_point(duration(static_cast<int64_t>(g_now)));
            }
            steady_clock::time_point steady_clock::now() noexcept {
                g_now += 1000000;
                return time_point(duration(static_cast<int64_t>(g_now)));
            }
        }
    }
    // ---- randomness (see stubs/std/bits/uniform_int_dist.h)
    void random_device::_M_init(const string&) {}
    void random_device::_M_init_pretr1(const string&) {}
    void random_device::_M_fini() {}
    random_device::result_type random_device::_M_getval() {
        static unsigned v = 12345;
        v = v * 1664525U + 1013904223U;
        return v;
    }
    random_device::result_type random_device::_M_getval_pretr1() {
        return _M_getval();
    }
    bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept {
        return false;
    }
    //_Sp_locker::_Sp_locker(const void*) noexcept {}
    //_Sp_locker::_Sp_locker(const void*, const void*) noexcept {}
    //_Sp_locker::~_Sp_locker() {}
    exception::~exception() noexcept {}
    const char* exception::what() const noexcept {
        return "";
    }
    __thread void* __once_callable;
    __thread void (*__once_call)();
    extern "C" void __once_proxy() {
        __once_call();
    }
}
extern "C" {
void verif_set_now(uint64_t ns) {
    std::g_now = ns;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if(*o != 2) {
        *o = 2;
        f();
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    sym_cond_wait(c, m, 0);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    return sym_cond_wait(c, m, 1) != 0 ? 110 : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
    return sym_cond_wait(c, m, 1) != 0 ? 110 : 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    sym_cond_notify(c, 0);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    sym_cond_notify(c, 1);
    return 0;
}
struct tm* localtime(const time_t*) {
    static struct tm t;
    return &t;
}
int* __errno_location() {
    static int e;
    return &e;
}
int tolower(int c) {
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
int toupper(int c) {
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}
int isxdigit(int c) {
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
int isspace(int c) {
    return c == ' ' || (c >= 9 && c <= 13);
}
int isdigit(int c) {
    return c >= '0' && c <= '9';
}
unsigned long long strtoull(const char* s, char** e, int base) {
    const char* p = s;
    while(*p == ' ' || (*p >= '\t' && *p <= '\r'))
        p++;
    bool neg = false;
    if(*p == '+' || *p == '-') {
        neg = *p == '-';
        p++;
    }
    auto digit = [](char ch) -> unsigned {
        auto c = static_cast<unsigned char>(ch);
        auto l = static_cast<unsigned>(c | 32U);
        unsigned d = static_cast<unsigned>(c) - '0', a = l - 'a';
        return d < 10 ? d : (a < 26 ? a + 10 : 99);
    };
    auto b = static_cast<unsigned>(base);
    if((b == 0 || b == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) {
        p += 2;
        b = 16;
    }
    if(b == 0)
        b = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    bool any = false, ovf = false;
    int n = 0;
    for(;;) {
        auto d = digit(*p);
        if(d >= b)
            break;
        if(++n > 12) // fewer digits fit in any base up to 36
            ovf = ovf | (v > ~0ULL / b) | (v * b > ~0ULL - d);
        v = v * b + d;
        any = true;
        p++;
    }
    if(e != nullptr)
        *e = const_cast<char*>(any ? p : s);
    if(ovf) {
        *__errno_location() = 34;
        return ~0ULL;
    }
    return neg ? 0 - v : v;
}
uint64_t vf_strtod(const char*);
// Decimal numbers: where the number ends follows the grammar, its value is that of the text if it is known, else an
// uninterpreted function of it.
double strtod(const char* s, char** e) {
    const char* p = s;
    while(*p == ' ' || (*p >= '\t' && *p <= '\r'))
        p++;
    const char* b = p;
    if(*p == '+' || *p == '-')
        p++;
    auto is = [](char c) {
        return static_cast<unsigned>(static_cast<unsigned char>(c)) - '0' < 10;
    };
    auto isx = [&](char c) {
        return is(c) || static_cast<unsigned>(static_cast<unsigned char>(c) | 32U) - 'a' < 6;
    };
    bool any = false;
    auto word = [&](const char* w) {
        const char* q = p;
        for(; *w != 0; w++, q++)
            if((*q | 32) != *w)
                return false;
        p = q;
        return true;
    };
    if((*p | 32) == 'i' && word("inf")) {
        (void)word("inity");
        any = true;
    } else if((*p | 32) == 'n' && word("nan"))
        any = true;
    else {
        bool hex = *p == '0' && (p[1] | 32) == 'x' && (isx(p[2]) || (p[2] == '.' && isx(p[3])));
        if(hex)
            p += 2;
        for(; hex ? isx(*p) : is(*p); p++)
            any = true;
        if(*p == '.' && (any || is(p[1]) || (hex && isx(p[1]))))
            for(p++; hex ? isx(*p) : is(*p); p++)
                any = true;
        if(any && (*p | 32) == (hex ? 'p' : 'e')) {
            const char* q = p + 1;
            if(*q == '+' || *q == '-')
                q++;
            if(is(*q)) {
                while(is(*q))
                    q++;
                p = q;
            }
        }
    }
    if(e != nullptr)
        *e = const_cast<char*>(any ? p : s);
    if(!any)
        return 0;
    bool known = true;
    for(const char* q = b; q < p; q++)
        known = known && !sym_is_symbolic(static_cast<uint64_t>(*q));
    uint64_t r = known ? vf_strtod(b) : sym_uf(77, b, static_cast<size_t>(p - b), 64, "lib_strtod");
    double d;
    memcpy(&d, &r, sizeof(d));
    return d;
}
const char* vf_env_name[8];
const char* vf_env_value[8];
char* getenv(const char* n) {
    for(int i = 0; i < 8; i++)
        if(vf_env_name[i] != nullptr && strcmp(vf_env_name[i], n) == 0)
            return const_cast<char*>(vf_env_value[i]);
    return nullptr;
}
unsigned long strtoul(const char* s, char** e, int b) {
    return strtoull(s, e, b);
}
long strtol(const char* s, char** e, int b) {
    return static_cast<long>(strtoull(s, e, b));
}
long long strtoll(const char* s, char** e, int b) {
    return static_cast<long long>(strtoull(s, e, b));
}
}

namespace vf_rt {
    void reserve_buckets(std::size_t n) {
        ::operator delete(::operator new(n * sizeof(void*)));
    }
}
