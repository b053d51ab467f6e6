// Executable model of the stream and filesystem parts of the C++ library, small enough to be executed symbolically.
// Only used when compiling to bitcode; native replays use the real library.
#ifndef VERIF_SHADOW_STREAMS
#define VERIF_SHADOW_STREAMS
#include <cstdint>
#include <cstring>
#include <ctime>
#include <iosfwd>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
extern "C" bool sym_is_symbolic(uint64_t);

namespace vfs {
    // One file: its contents, reference counted so that an open stream keeps a renamed or removed file alive.
    struct file {
        std::string data;
        int rc = 0;
    };
    class ref {
      public:
        ref() = default;
        explicit ref(file* f) : m_f(f) { inc(); }
        ref(const ref& o) : m_f(o.m_f) { inc(); }
        ref(ref&& o) noexcept : m_f(o.m_f) { o.m_f = nullptr; }
        ref& operator=(const ref& o) {
            ref t(o);
            std::swap(m_f, t.m_f);
            return *this;
        }
        ~ref() { reset(); }
        void reset() {
            if(m_f != nullptr && --m_f->rc == 0)
                delete m_f;
            m_f = nullptr;
        }
        file* operator->() const { return m_f; }
        file& operator*() const { return *m_f; }
        explicit operator bool() const { return m_f != nullptr; }

      private:
        void inc() {
            if(m_f != nullptr)
                m_f->rc++;
        }
        file* m_f = nullptr;
    };
    struct entry {
        std::string name;
        ref f;
    };
    struct fs {
        std::vector<entry> files;
        std::vector<std::string> dirs;
        ref* find(const std::string& n) {
            for(auto& e : files)
                if(e.name == n)
                    return &e.f;
            if(n == "/dev/urandom") { // some bytes; what is drawn from them stands for fresh values
                files.push_back({n, ref(new file)});
                for(int i = 0; i < 256; i++)
                    files.back().f->data.push_back(static_cast<char>(17 * i + 3));
                return &files.back().f;
            }
            return nullptr;
        }
        ref& at(const std::string& n) {
            if(auto* r = find(n))
                return *r;
            files.push_back({n, ref(new file)});
            return files.back().f;
        }
        bool erase(const std::string& n) {
            for(size_t i = 0; i < files.size(); i++)
                if(files[i].name == n) {
                    files.erase(files.begin() + static_cast<long>(i));
                    return true;
                }
            return false;
        }
        bool has_dir(const std::string& n) const {
            for(auto& d : dirs)
                if(d == n)
                    return true;
            return false;
        }
        // a copy with the same contents (crash image)
        fs image() const {
            fs r;
            for(auto& e : files) {
                r.files.push_back({e.name, ref(new file)});
                r.files.back().f->data = e.f->data;
            }
            r.dirs = dirs;
            return r;
        }
    };
    fs& get();
    // Called before every operation that changes durable state: the harness may take a copy (crash point).
    extern void (*on_op)(const char* what);
    // When set, called to ask whether an operation fails.
    extern bool (*fail_op)(const char* what);
    inline void op(const char* w) {
        if(on_op != nullptr)
            on_op(w);
    }
    inline bool fails(const char* w) {
        return fail_op != nullptr && fail_op(w);
    }
}

namespace std {
    using streamsize = ptrdiff_t;
    class ios_base {
      public:
        using fmtflags = unsigned;
        using iostate = unsigned;
        using openmode = unsigned;
        using seekdir = unsigned;
        static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, showbase = 8, uppercase = 16, skipws = 32, left = 64, right = 128, internal = 256, adjustfield = 448, boolalpha = 512, fixed = 1024, scientific = 2048, floatfield = 3072, showpoint = 4096, showpos = 8192, unitbuf = 16384;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr openmode in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        struct Init {};
        virtual ~ios_base() = default;
        fmtflags flags() const { return m_flags; }
        fmtflags flags(fmtflags f) {
            auto o = m_flags;
            m_flags = f;
            return o;
        }
        fmtflags setf(fmtflags f) {
            auto o = m_flags;
            m_flags |= f;
            return o;
        }
        fmtflags setf(fmtflags f, fmtflags m) {
            auto o = m_flags;
            m_flags = (m_flags & ~m) | (f & m);
            return o;
        }
        void unsetf(fmtflags m) { m_flags &= ~m; }
        streamsize width() const { return m_width; }
        streamsize width(streamsize w) {
            auto o = m_width;
            m_width = w;
            return o;
        }
        streamsize precision() const { return 6; }
        streamsize precision(streamsize) { return 6; }
        static bool sync_with_stdio(bool = true) { return true; }

      protected:
        fmtflags m_flags = dec | skipws;
        streamsize m_width = 0;
    };
    template<class C, class T>
    class basic_streambuf {
      public:
        virtual ~basic_streambuf() = default;
        std::basic_string<C>* sink = nullptr;
    };
    template<class C, class T>
    class basic_ios : public ios_base {
      public:
        using char_type = C;
        using traits_type = T;
        using off_type = long;
        using pos_type = long;
        using int_type = int;
        bool good() const { return m_state == 0; }
        bool eof() const { return (m_state & eofbit) != 0; }
        bool fail() const { return (m_state & (failbit | badbit)) != 0; }
        bool bad() const { return (m_state & badbit) != 0; }
        explicit operator bool() const { return !fail(); }
        bool operator!() const { return fail(); }
        iostate rdstate() const { return m_state; }
        void clear(iostate s = goodbit) { m_state = s; }
        void setstate(iostate s) { m_state |= s; }
        void exceptions(iostate) {}
        C widen(char c) const { return c; }
        C fill() const { return m_fill; }
        C fill(C c) {
            C o = m_fill;
            m_fill = c;
            return o;
        }
        basic_streambuf<C, T>* rdbuf() const { return nullptr; }

      protected:
        iostate m_state = 0;
        C m_fill = ' ';
    };
    template<class C, class T>
    class basic_ostream : virtual public basic_ios<C, T> {
      public:
        using char_type = C;
        using traits_type = T;
        using off_type = long;
        using pos_type = long;
        using int_type = int;
        explicit basic_ostream(basic_streambuf<C, T>* b) {
            if(b != nullptr)
                m_sink = b->sink;
            else
                this->m_state = ios_base::badbit;
        }
        basic_ostream(basic_ostream&&) = default;
        basic_ostream& operator=(basic_ostream&&) = default;
        virtual ~basic_ostream() = default;
        struct sentry {
            explicit sentry(basic_ostream& o) : m_ok(o.good()) {}
            explicit operator bool() const { return m_ok; }
            bool m_ok;
        };
        basic_ostream& raw(const C* p, size_t n) {
            if(this->good() && m_sink != nullptr) {
                if(m_overwrite && m_wpos < m_sink->size()) {
                    size_t k = std::min(n, m_sink->size() - m_wpos);
                    for(size_t i = 0; i < k; i++)
                        (*m_sink)[m_wpos + i] = p[i];
                    m_wpos += k;
                    p += k;
                    n -= k;
                }
                m_sink->append(p, n);
                m_wpos += n;
            }
            return *this;
        }
        basic_ostream& padded(const C* p, size_t n) {
            size_t w = this->m_width > 0 ? static_cast<size_t>(this->m_width) : 0;
            this->m_width = 0;
            bool l = (this->m_flags & ios_base::left) != 0;
            if(l)
                raw(p, n);
            for(; w > n; w--)
                raw(&this->m_fill, 1);
            if(!l)
                raw(p, n);
            return *this;
        }
        basic_ostream& num(unsigned long long v, bool neg) {
            C b[70];
            unsigned base = (this->m_flags & ios_base::hex) != 0 ? 16 : ((this->m_flags & ios_base::oct) != 0 ? 8 : 10);
            if(m_sink == nullptr || !this->good()) {
                this->m_width = 0;
                return *this;
            }
            C alpha = (this->m_flags & ios_base::uppercase) != 0 ? 'A' : 'a';
            int i = 70;
            if(base == 16 && this->m_width == 2 && this->m_fill == '0' && !neg && sym_is_symbolic(v) && v < 256) {
                for(int k = 0; k < 2; k++) {
                    unsigned d = static_cast<unsigned>((v >> (4 * k)) & 15U);
                    b[--i] = static_cast<C>('0' + d + (alpha - '0' - 10U) * (((d + 6) >> 4) & 1));
                }
            } else {
                do {
                    unsigned d = static_cast<unsigned>(v % base);
                    b[--i] = static_cast<C>('0' + d + (alpha - '0' - 10U) * (((d + 6) >> 4) & 1));
                    v /= base;
                } while(v != 0);
                if((this->m_flags & ios_base::showbase) != 0 && base == 16) {
                    b[--i] = 'x';
                    b[--i] = '0';
                }
                if(neg)
                    b[--i] = '-';
            }
            return padded(b + i, static_cast<size_t>(70 - i));
        }
        template<class I>
        basic_ostream& snum(I v, unsigned long long u) {
            if((this->m_flags & (ios_base::hex | ios_base::oct)) != 0)
                return num(u, false);
            return v < 0 ? num(0ULL - static_cast<unsigned long long>(v), true) : num(static_cast<unsigned long long>(v), false);
        }
        basic_ostream& operator<<(bool v) { return num(v ? 1 : 0, false); }
        basic_ostream& operator<<(short v) { return snum(v, static_cast<unsigned short>(v)); }
        basic_ostream& operator<<(unsigned short v) { return num(v, false); }
        basic_ostream& operator<<(int v) { return snum(v, static_cast<unsigned int>(v)); }
        basic_ostream& operator<<(unsigned int v) { return num(v, false); }
        basic_ostream& operator<<(long v) { return snum(v, static_cast<unsigned long>(v)); }
        basic_ostream& operator<<(unsigned long v) { return num(v, false); }
        basic_ostream& operator<<(long long v) { return snum(v, static_cast<unsigned long long>(v)); }
        basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
        basic_ostream& operator<<(double) { return raw("<double>", 8); }
        basic_ostream& operator<<(float) { return raw("<float>", 7); }
        basic_ostream& operator<<(long double) { return raw("<double>", 8); }
        basic_ostream& operator<<(const void*) { return raw("<ptr>", 5); }
        basic_ostream& operator<<(std::nullptr_t) { return raw("nullptr", 7); }
        basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
        basic_ostream& operator<<(ios_base& (*f)(ios_base&)) {
            f(*this);
            return *this;
        }
        basic_ostream& operator<<(basic_streambuf<C, T>*) { return *this; }
        basic_ostream& write(const C* p, streamsize n) { return raw(p, static_cast<size_t>(n)); }
        basic_ostream& put(C c) { return raw(&c, 1); }
        basic_ostream& flush() { return *this; }
        basic_ostream& seekp(long o, ios_base::seekdir d) {
            long base = d == ios_base::beg ? 0 : (d == ios_base::cur ? tellp() : static_cast<long>(m_sink != nullptr ? m_sink->size() : 0));
            return seekp(base + o);
        }
        basic_ostream& seekp(long p) {
            m_overwrite = true;
            m_wpos = static_cast<size_t>(p);
            return *this;
        }
        long tellp() { return m_sink != nullptr ? static_cast<long>(m_overwrite ? m_wpos : m_sink->size()) : -1; }

      protected:
        basic_ostream() = default;
        std::basic_string<C>* m_sink = nullptr;
        bool m_overwrite = false;
        size_t m_wpos = 0;
    };
    template<class C, class T>
    class basic_istream : virtual public basic_ios<C, T> {
      public:
        using char_type = C;
        using traits_type = T;
        using off_type = long;
        using pos_type = long;
        using int_type = int;
        explicit basic_istream(basic_streambuf<C, T>*) {}
        basic_istream(basic_istream&&) = default;
        basic_istream& operator=(basic_istream&&) = default;
        virtual ~basic_istream() = default;
        struct sentry {
            explicit sentry(basic_istream& o, bool = false) : m_ok(o.good()) {}
            explicit operator bool() const { return m_ok; }
            bool m_ok;
        };
        bool more() const { return m_src != nullptr && m_pos < m_src->size(); }
        C cur() const { return (*m_src)[m_pos]; }
        void adv() { m_pos++; }
        basic_istream& read(C* p, streamsize n) {
            m_gcount = 0;
            if(!this->good()) {
                this->setstate(ios_base::failbit);
                return *this;
            }
            size_t left = m_src != nullptr && m_pos < m_src->size() ? m_src->size() - m_pos : 0;
            size_t k = std::min(left, static_cast<size_t>(n));
            if(k != 0)
                std::memcpy(p, m_src->data() + m_pos, k);
            m_pos += k;
            m_gcount = static_cast<streamsize>(k);
            if(k < static_cast<size_t>(n))
                this->setstate(ios_base::eofbit | ios_base::failbit);
            return *this;
        }
        int get() {
            if(!this->good() || !more()) {
                this->setstate(ios_base::eofbit | ios_base::failbit);
                m_gcount = 0;
                return -1;
            }
            m_gcount = 1;
            return static_cast<unsigned char>((*m_src)[m_pos++]);
        }
        basic_istream& get(C& c) {
            int v = get();
            if(v >= 0)
                c = static_cast<C>(v);
            return *this;
        }
        int peek() {
            if(!this->good())
                return -1;
            if(!more()) {
                this->setstate(ios_base::eofbit);
                return -1;
            }
            return static_cast<unsigned char>(cur());
        }
        basic_istream& ignore(streamsize n = 1) {
            for(; n > 0 && more(); n--)
                adv();
            return *this;
        }
        streamsize gcount() const { return m_gcount; }
        basic_istream& seekg(long p) {
            this->m_state &= ~ios_base::eofbit;
            m_pos = static_cast<size_t>(p);
            return *this;
        }
        basic_istream& seekg(long o, ios_base::seekdir d) {
            this->m_state &= ~ios_base::eofbit;
            long base = d == ios_base::beg ? 0 : (d == ios_base::cur ? static_cast<long>(m_pos) : static_cast<long>(m_src != nullptr ? m_src->size() : 0));
            m_pos = static_cast<size_t>(base + o);
            return *this;
        }
        long tellg() { return this->fail() ? -1 : static_cast<long>(m_pos); }
        void skip() {
            while(more() && (cur() == ' ' || (cur() >= '\t' && cur() <= '\r')))
                adv();
        }
        // num_get for integers: optional sign, 0x prefix in base 16, overflow sets failbit
        bool integer(unsigned long long& v, bool& neg, unsigned long long max) {
            v = 0;
            neg = false;
            if(!this->good()) {
                this->setstate(ios_base::failbit);
                return false;
            }
            if((this->m_flags & ios_base::skipws) != 0)
                skip();
            unsigned base = (this->m_flags & ios_base::hex) != 0 ? 16 : ((this->m_flags & ios_base::oct) != 0 ? 8 : 10);
            if(more() && (cur() == '+' || cur() == '-')) {
                neg = cur() == '-';
                adv();
            }
            bool any = false, ovf = false;
            if(base == 16 && m_pos + 1 < m_src->size() && ((*m_src)[m_pos + 1] | 32) == 'x' && cur() == '0') {
                adv();
                adv();
            }
            while(more()) {
                // the value of the digit, computed without branches
                unsigned const c = static_cast<unsigned char>(cur());
                unsigned const isd = c - '0' < 10U, isa = (c | 32U) - 'a' < 6U;
                if(((isd | (isa & (base == 16))) & (base != 8 | c < '8')) == 0)
                    break;
                unsigned const d = isd * (c - '0') + isa * ((c | 32U) - 'a' + 10U);
                any = true;
                if(base == 10)
                    ovf = ovf | (v > (max - d) / 10);
                else
                    ovf = ovf | ((v >> (base == 16 ? 60 : 61)) != 0) | (((v << (base == 16 ? 4 : 3)) | d) > max);
                v = base == 10 ? v * 10 + d : (v << (base == 16 ? 4 : 3)) | d;
                adv();
            }
            if(!more())
                this->setstate(ios_base::eofbit);
            if(!any) {
                v = 0;
                this->setstate(ios_base::failbit);
                return true;
            }
            if(ovf) {
                v = max;
                neg = false;
                this->setstate(ios_base::failbit);
            }
            return true;
        }
        template<class U>
        basic_istream& uget(U& o) {
            unsigned long long v;
            bool neg;
            if(integer(v, neg, static_cast<U>(~U{0})))
                o = static_cast<U>(neg ? 0 - v : v);
            return *this;
        }
        template<class I>
        basic_istream& iget(I& o) {
            unsigned long long v;
            bool neg;
            if(integer(v, neg, static_cast<unsigned long long>(~0ULL) >> (65 - 8 * sizeof(I) == 1 ? 1 : 65 - 8 * sizeof(I))))
                o = static_cast<I>(neg ? 0 - v : v);
            return *this;
        }
        basic_istream& operator>>(unsigned short& v) { return uget(v); }
        basic_istream& operator>>(unsigned int& v) { return uget(v); }
        basic_istream& operator>>(unsigned long& v) { return uget(v); }
        basic_istream& operator>>(unsigned long long& v) { return uget(v); }
        basic_istream& operator>>(int& v) { return iget(v); }
        basic_istream& operator>>(long& v) { return iget(v); }
        basic_istream& operator>>(double&);
        basic_istream& operator>>(float&);
        basic_istream& operator>>(bool& v) {
            unsigned long x;
            *this >> x;
            v = x != 0;
            return *this;
        }
        basic_istream& operator>>(ios_base& (*f)(ios_base&)) {
            f(*this);
            return *this;
        }
        basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }

      protected:
        basic_istream() = default;
        const std::basic_string<C>* m_src = nullptr;
        size_t m_pos = 0;
        streamsize m_gcount = 0;
    };
    template<class C, class T>
    class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
      protected:
        basic_iostream() = default;

      public:
        using char_type = C;
        using traits_type = T;
        using off_type = long;
        using pos_type = long;
        using int_type = int;
        virtual ~basic_iostream() = default;
    };
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { return o.padded(&c, 1); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c) { return o << static_cast<char>(c); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { return o << static_cast<char>(c); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* c) { return o.padded(c, std::strlen(c)); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const unsigned char* c) { return o << reinterpret_cast<const char*>(c); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const std::string& s) { return o.padded(s.data(), s.size()); }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, std::string_view s) { return o.padded(s.data(), s.size()); }
    template<class O, class X, class = std::enable_if_t<std::is_base_of_v<basic_ostream<char>, std::remove_reference_t<O>> && !std::is_lvalue_reference_v<O>>>
    inline O&& operator<<(O&& o, const X& x) {
        static_cast<basic_ostream<char>&>(o) << x;
        return static_cast<O&&>(o);
    }
    inline basic_istream<char>& operator>>(basic_istream<char>& i, char& c) {
        if((i.flags() & ios_base::skipws) != 0)
            i.skip();
        return i.get(c);
    }
    inline basic_istream<char>& operator>>(basic_istream<char>& i, unsigned char& c) { return i >> reinterpret_cast<char&>(c); }
    inline ios_base& hex(ios_base& b) {
        b.setf(ios_base::hex, ios_base::basefield);
        return b;
    }
    inline ios_base& dec(ios_base& b) {
        b.setf(ios_base::dec, ios_base::basefield);
        return b;
    }
    inline ios_base& left(ios_base& b) {
        b.setf(ios_base::left, ios_base::adjustfield);
        return b;
    }
    inline ios_base& right(ios_base& b) {
        b.setf(ios_base::right, ios_base::adjustfield);
        return b;
    }
    inline ios_base& uppercase(ios_base& b) {
        b.setf(ios_base::uppercase);
        return b;
    }
    inline ios_base& showbase(ios_base& b) {
        b.setf(ios_base::showbase);
        return b;
    }
    inline ios_base& boolalpha(ios_base& b) { return b; }
    inline ios_base& fixed(ios_base& b) { return b; }
    inline ios_base& noskipws(ios_base& b) {
        b.unsetf(ios_base::skipws);
        return b;
    }
    inline ios_base& skipws(ios_base& b) {
        b.setf(ios_base::skipws);
        return b;
    }
    template<class C, class T>
    basic_ostream<C, T>& endl(basic_ostream<C, T>& o) {
        return o.put('\n');
    }
    template<class C, class T>
    basic_ostream<C, T>& flush(basic_ostream<C, T>& o) {
        return o.flush();
    }
    template<class C, class T>
    basic_istream<C, T>& ws(basic_istream<C, T>& i) {
        i.skip();
        return i;
    }
    struct shadow_setw {
        int n;
    };
    struct shadow_setfill {
        char c;
    };
    struct shadow_none {};
    inline shadow_setw setw(int n) { return {n}; }
    inline shadow_setfill setfill(char c) { return {c}; }
    inline shadow_none setprecision(int) { return {}; }
    struct shadow_setbase {
        int b;
    };
    inline shadow_setbase setbase(int b) { return {b}; }
    template<class C>
    inline shadow_none put_time(const std::tm*, const C*) {
        return {};
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, shadow_setw s) {
        o.width(s.n);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, shadow_setfill s) {
        o.fill(s.c);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, shadow_setbase s) {
        o.setf(s.b == 16 ? ios_base::hex : (s.b == 8 ? ios_base::oct : ios_base::dec), ios_base::basefield);
        return o;
    }
    inline basic_ostream<char>& operator<<(basic_ostream<char>& o, shadow_none) { return o; }
    inline basic_istream<char>& operator>>(basic_istream<char>& o, shadow_setw) { return o; }

    inline namespace __cxx11 {
    template<class C, class T, class A>
    class basic_stringbuf : public basic_streambuf<C, T> {};
    template<class C, class T, class A>
    class basic_stringstream : public basic_iostream<C, T> {
      public:
        basic_stringstream() { wire(); }
        explicit basic_stringstream(ios_base::openmode) { wire(); }
        explicit basic_stringstream(const std::basic_string<C>& s, ios_base::openmode = 3) : m_buf(s) {
            wire();
            this->m_overwrite = true;
        }
        basic_stringstream(basic_stringstream&& o) : m_buf(std::move(o.m_buf)) {
            this->m_flags = o.m_flags;
            this->m_pos = o.m_pos;
            this->m_wpos = o.m_wpos;
            wire();
        }
        std::basic_string<C> str() const { return m_buf; }
        std::string_view view() const { return m_buf; }
        void str(const std::basic_string<C>& s) {
            m_buf = s;
            this->m_pos = 0;
            this->m_wpos = 0;
            this->m_overwrite = true;
        }

      private:
        void wire() {
            this->m_sink = &m_buf;
            this->m_src = &m_buf;
        }
        std::basic_string<C> m_buf;
    };
    template<class C, class T, class A>
    class basic_ostringstream : public basic_ostream<C, T> {
      public:
        basic_ostringstream() { this->m_sink = &m_buf; }
        explicit basic_ostringstream(const std::basic_string<C>& s) : m_buf(s) { this->m_sink = &m_buf; }
        std::basic_string<C> str() const { return m_buf; }
        void str(const std::basic_string<C>& s) { m_buf = s; }

      private:
        std::basic_string<C> m_buf;
    };
    template<class C, class T, class A>
    class basic_istringstream : public basic_istream<C, T> {
      public:
        basic_istringstream() { this->m_src = &m_buf; }
        explicit basic_istringstream(const std::basic_string<C>& s, ios_base::openmode = 1) : m_buf(s) { this->m_src = &m_buf; }
        std::basic_string<C> str() const { return m_buf; }
        void str(const std::basic_string<C>& s) {
            m_buf = s;
            this->m_pos = 0;
        }

      private:
        std::basic_string<C> m_buf;
    };
    }
    template<class C, class T>
    class basic_filebuf : public basic_streambuf<C, T> {};
    template<class C, class T>
    class basic_ofstream : public basic_ostream<C, T> {
      public:
        basic_ofstream() = default;
        explicit basic_ofstream(const std::string& n, ios_base::openmode m = ios_base::out) { open(n, m); }
        explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) { open(std::string(n), m); }
        basic_ofstream(basic_ofstream&& o) : m_file(std::move(o.m_file)), m_pending(std::move(o.m_pending)) {
            this->m_state = o.m_state;
            this->m_sink = m_file ? &m_pending : nullptr;
        }
        basic_ofstream& operator=(basic_ofstream&& o) {
            close();
            m_file = std::move(o.m_file);
            m_pending = std::move(o.m_pending);
            this->m_state = o.m_state;
            this->m_sink = m_file ? &m_pending : nullptr;
            return *this;
        }
        template<class P, class = decltype(std::declval<const P&>().make_preferred_tag())>
        explicit basic_ofstream(const P& p, ios_base::openmode m = ios_base::out) {
            open(p.string(), m);
        }
        void open(const std::string& n, ios_base::openmode m = ios_base::out) {
            if(vfs::fails("open")) {
                this->setstate(ios_base::failbit);
                return;
            }
            vfs::op("open");
            auto& f = vfs::get().at(n);
            if((m & ios_base::app) == 0)
                f->data.clear();
            m_file = f;
            this->m_sink = &m_pending;
        }
        bool is_open() const { return static_cast<bool>(m_file); }
        basic_ostream<C, T>& flush() {
            sync();
            return *this;
        }
        void close() {
            if(m_file) {
                sync();
                m_file.reset();
                this->m_sink = nullptr;
            }
        }
        ~basic_ofstream() override { close(); }

      private:
        void sync() {
            if(m_file && !m_pending.empty()) {
                if(vfs::fails("write")) {
                    this->setstate(ios_base::badbit | ios_base::failbit);
                    m_pending.clear();
                    return;
                }
                vfs::op("write");
                m_file->data.append(m_pending);
                m_pending.clear();
            }
        }
        vfs::ref m_file;
        std::string m_pending;
    };
    template<class C, class T>
    class basic_ifstream : public basic_istream<C, T> {
      public:
        basic_ifstream() = default;
        explicit basic_ifstream(const std::string& n, ios_base::openmode m = ios_base::in) { open(n, m); }
        explicit basic_ifstream(const char* n, ios_base::openmode m = ios_base::in) { open(std::string(n), m); }
        basic_ifstream(basic_ifstream&&) = default;
        template<class P, class = decltype(std::declval<const P&>().make_preferred_tag())>
        explicit basic_ifstream(const P& p, ios_base::openmode m = ios_base::in) {
            open(p.string(), m);
        }
        void open(const std::string& n, ios_base::openmode = ios_base::in) {
            auto* it = vfs::get().find(n);
            if(it == nullptr || vfs::fails("open-read")) {
                this->setstate(ios_base::failbit);
                return;
            }
            m_file = *it;
            this->m_src = &m_file->data;
            this->m_pos = 0;
        }
        bool is_open() const { return static_cast<bool>(m_file); }
        void close() {
            m_file.reset();
            this->m_src = nullptr;
        }

      private:
        vfs::ref m_file;
    };
    template<class C, class T>
    class basic_fstream : public basic_iostream<C, T> {};
    extern ostream cout;
    extern ostream cerr;
    extern ostream clog;
    extern istream cin;
}
#endif
