// Symbolic values of arbitrary message types, structural equality, and the checks that serialisation is decided by.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "common.hpp"
#include "util/serialization/buffer_serializer.hpp"
#include "util/serialization/format.hpp"
#include "util/serialization/util.hpp"
#include <array>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <variant>
namespace vf {
    // ---------- number of members of a type
    struct any_field {
        template<class T> operator T() const;
    };
    template<class T, class... A> constexpr auto count_fields() -> size_t {
        if constexpr(requires { T{A{}..., any_field{}}; })
            return count_fields<T, A..., any_field>();
        else
            return sizeof...(A);
    }
    template<class T> struct n_fields { static constexpr size_t value = count_fields<T>(); };
    template<class T> struct base_of { using type = T; }; // a type that only derives from another is taken as its base
    template<class T, class F> void each(T& x, F f) {
        constexpr size_t n = n_fields<std::remove_const_t<T>>::value;
        if constexpr(n == 0) {
        } else if constexpr(n == 1) {
            auto& [a] = x;
            f(a);
        } else if constexpr(n == 2) {
            auto& [a, b] = x;
            f(a), f(b);
        } else if constexpr(n == 3) {
            auto& [a, b, c] = x;
            f(a), f(b), f(c);
        } else if constexpr(n == 4) {
            auto& [a, b, c, d] = x;
            f(a), f(b), f(c), f(d);
        } else {
            static_assert(n == 5);
            auto& [a, b, c, d, e] = x;
            f(a), f(b), f(c), f(d), f(e);
        }
    }
    template<class T, class F> void each2(T& x, T& y, F f) {
        constexpr size_t n = n_fields<std::remove_const_t<T>>::value;
        if constexpr(n == 0) {
        } else if constexpr(n == 1) {
            auto& [a] = x;
            auto& [a2] = y;
            f(a, a2);
        } else if constexpr(n == 2) {
            auto& [a, b] = x;
            auto& [a2, b2] = y;
            f(a, a2), f(b, b2);
        } else if constexpr(n == 3) {
            auto& [a, b, c] = x;
            auto& [a2, b2, c2] = y;
            f(a, a2), f(b, b2), f(c, c2);
        } else if constexpr(n == 4) {
            auto& [a, b, c, d] = x;
            auto& [a2, b2, c2, d2] = y;
            f(a, a2), f(b, b2), f(c, c2), f(d, d2);
        } else {
            auto& [a, b, c, d, e] = x;
            auto& [a2, b2, c2, d2, e2] = y;
            f(a, a2), f(b, b2), f(c, c2), f(d, d2), f(e, e2);
        }
    }
    // ---------- symbolic values; `n` bounds every collection
    struct shape {
        size_t n{1};     // largest number of elements of a collection
        size_t lo{0};    // smallest
        size_t bytes{2}; // largest size of a byte string
        // Collections inside collections are one element smaller, down to at most one element.
        auto inner() const -> shape {
            shape r = *this;
            r.n = n > 1 ? n - 1 : n;
            r.lo = lo < r.n ? lo : r.n;
            return r;
        }
        auto len() const -> size_t {
            return lo == n ? n : lo + choose(n - lo + 1, "number of elements");
        }
    };
    template<class T> struct G;
    template<class T> auto gen(const shape& s) -> T {
        return G<T>::make(s);
    }
    template<class T> auto eq(const T& a, const T& b) -> bool {
        return G<T>::same(a, b);
    }
    template<class T> struct G { // structures
        static auto make(const shape& s) -> T {
            T x{};
            if constexpr(!std::is_same_v<typename base_of<T>::type, T>) {
                static_cast<typename base_of<T>::type&>(x) = gen<typename base_of<T>::type>(s);
            } else {
                each(x, [&](auto& f) {
                    f = gen<std::remove_reference_t<decltype(f)>>(s);
                });
            }
            return x;
        }
        static auto same(const T& a, const T& b) -> bool {
            if constexpr(!std::is_same_v<typename base_of<T>::type, T>) {
                using B = typename base_of<T>::type;
                return eq<B>(a, b);
            } else {
                bool r = true;
                each2(a, b, [&](auto& f, auto& g) {
                    r = static_cast<bool>(static_cast<unsigned>(r) & static_cast<unsigned>(eq(f, g)));
                });
                return r;
            }
        }
    };
    template<class T>
        requires std::is_integral_v<T>
    struct G<T> {
        static auto make(const shape&) -> T {
            if constexpr(std::is_same_v<T, bool>)
                return sym_bool_("bool");
            T x{};
            sym_bytes(&x, sizeof(x), "integer");
            return x;
        }
        static auto same(T a, T b) -> bool { return a == b; }
    };
    template<class T> struct enum_count { static constexpr uint64_t value = 0; };
    template<class T>
        requires std::is_enum_v<T>
    struct G<T> {
        static auto make(const shape&) -> T {
            using U = std::underlying_type_t<T>;
            if constexpr(enum_count<T>::value != 0)
                return static_cast<T>(sym_range_(0, enum_count<T>::value - 1, "enum"));
            U x{};
            sym_bytes(&x, sizeof(x), "enum");
            return static_cast<T>(x);
        }
        static auto same(T a, T b) -> bool { return a == b; }
    };
    template<class T, size_t N> struct G<std::array<T, N>> {
        static auto make(const shape&) -> std::array<T, N> {
            std::array<T, N> x{};
            sym_bytes(x.data(), sizeof(T) * N, "array");
            return x;
        }
        static auto same(const std::array<T, N>& a, const std::array<T, N>& b) -> bool {
            unsigned d = 0;
            for(size_t i = 0; i < N; i++)
                d |= static_cast<unsigned>(a[i] ^ b[i]);
            return d == 0;
        }
    };
    template<> struct G<cbdc::buffer> {
        static auto make(const shape& s) -> cbdc::buffer {
            cbdc::buffer b;
            auto n = choose(s.bytes + 1, "buffer size");
            b.extend(n);
            if(n != 0)
                sym_bytes(b.data(), n, "buffer");
            return b;
        }
        static auto same(const cbdc::buffer& a, const cbdc::buffer& b) -> bool {
            if(a.size() != b.size())
                return false;
            unsigned d = 0;
            for(size_t i = 0; i < a.size(); i++)
                d |= static_cast<unsigned>(a.c_ptr()[i] != b.c_ptr()[i]);
            return d == 0;
        }
    };
    template<> struct G<std::monostate> {
        static auto make(const shape&) -> std::monostate { return {}; }
        static auto same(const std::monostate&, const std::monostate&) -> bool { return true; }
    };
    template<class T> struct G<std::optional<T>> {
        static auto make(const shape& s) -> std::optional<T> {
            if(choose(2, "has a value") != 0)
                return gen<T>(s);
            return std::nullopt;
        }
        static auto same(const std::optional<T>& a, const std::optional<T>& b) -> bool {
            return a.has_value() == b.has_value() && (!a.has_value() || eq(*a, *b));
        }
    };
    template<class A, class B> struct G<std::pair<A, B>> {
        static auto make(const shape& s) -> std::pair<A, B> {
            auto a = gen<std::remove_const_t<A>>(s);
            return {a, gen<B>(s)};
        }
        static auto same(const std::pair<A, B>& a, const std::pair<A, B>& b) -> bool {
            return eq(a.first, b.first) && eq(a.second, b.second);
        }
    };
    template<class T> struct G<std::vector<T>> {
        static auto make(const shape& s) -> std::vector<T> {
            std::vector<T> v;
            auto n = s.len();
            for(size_t i = 0; i < n; i++)
                v.push_back(gen<T>(s.inner()));
            return v;
        }
        static auto same(const std::vector<T>& a, const std::vector<T>& b) -> bool {
            if(a.size() != b.size())
                return false;
            for(size_t i = 0; i < a.size(); i++) {
                const T x = a[i];
                const T y = b[i];
                if(!eq(x, y))
                    return false;
            }
            return true;
        }
    };
    template<class C> struct set_gen {
        using K = typename C::key_type;
        static auto make(const shape& s) -> C {
            C c;
            auto n = s.len();
            for(size_t i = 0; i < n; i++)
                c.insert(gen<K>(s.inner()));
            return c;
        }
        static auto same(const C& a, const C& b) -> bool {
            if(a.size() != b.size())
                return false;
            for(const auto& x : a) {
                bool found = false;
                for(const auto& y : b)
                    found = found || eq(x, y);
                if(!found)
                    return false;
            }
            return true;
        }
    };
    template<class K, class... R> struct G<std::set<K, R...>> : set_gen<std::set<K, R...>> {};
    template<class K, class... R> struct G<std::unordered_set<K, R...>> : set_gen<std::unordered_set<K, R...>> {};
    template<class K, class T, class... R> struct G<std::unordered_map<K, T, R...>> {
        using C = std::unordered_map<K, T, R...>;
        static auto make(const shape& s) -> C {
            C c;
            auto n = s.len();
            for(size_t i = 0; i < n; i++) {
                auto k = gen<K>(s.inner());
                c.emplace(k, gen<T>(s.inner()));
            }
            return c;
        }
        static auto same(const C& a, const C& b) -> bool {
            if(a.size() != b.size())
                return false;
            for(const auto& x : a) {
                bool found = false;
                for(const auto& y : b)
                    found = found || (eq(x.first, y.first) && eq(x.second, y.second));
                if(!found)
                    return false;
            }
            return true;
        }
    };
    template<class... Ts> struct G<std::variant<Ts...>> {
        using T = std::variant<Ts...>;
        template<size_t I> static auto pick(size_t k, const shape& s) -> T {
            if constexpr(I + 1 < sizeof...(Ts)) {
                if(k != I)
                    return pick<I + 1>(k, s);
            }
            return T{std::in_place_index<I>, gen<std::variant_alternative_t<I, T>>(s)};
        }
        static auto make(const shape& s) -> T {
            return pick<0>(choose(sizeof...(Ts), "alternative"), s);
        }
        template<size_t I> static auto cmp(const T& a, const T& b) -> bool {
            if(a.index() == I)
                return eq(std::get<I>(a), std::get<I>(b));
            if constexpr(I + 1 < sizeof...(Ts))
                return cmp<I + 1>(a, b);
            return false;
        }
        static auto same(const T& a, const T& b) -> bool {
            return a.index() == b.index() && cmp<0>(a, b);
        }
    };
    // ---------- reading a value: by operator>>, or by its constructor
    template<class T, class F> void decode(cbdc::serializer& deser, F f) {
        if constexpr(requires { T{}; }) {
            T y{};
            deser >> y;
            f(y);
        } else {
            auto y = T(deser);
            f(y);
        }
    }
    // Decoding the encoding gives the same value and consumes exactly the bytes that were written.
    template<class T> void roundtrip(const shape& s) {
        const auto x = gen<T>(s);
        auto sz = cbdc::serialized_size(x);
        auto b = cbdc::make_buffer(x);
        CHECKM(b.size() == sz, "the predicted size differs from the encoded size");
        auto shared = cbdc::make_shared_buffer(x);
        CHECKM(shared->size() == sz && std::memcmp(shared->data(), b.data(), sz) == 0, "the same value has two encodings");
        uint8_t tail = 0x5a;
        b.append(&tail, 1); // whatever follows must not be consumed
        auto deser = cbdc::buffer_serializer(b);
        decode<T>(deser, [&](const T& y) {
            CHECKM(static_cast<bool>(deser), "an encoded value is refused");
            CHECKM(eq(x, y), "a decoded value differs from the one encoded");
            CHECKM(!deser.end_of_buffer(), "decoding reads past the encoding");
            uint8_t t = 0;
            CHECKM(deser.read(&t, 1) && deser.end_of_buffer() && t == 0x5a, "decoding does not consume the whole encoding");
            sym_cover("decoded");
        });
    }
    // Every proper prefix of an encoding is refused.
    template<class T> void truncated(const shape& s) {
        const auto x = gen<T>(s);
        auto b = cbdc::make_buffer(x);
        if(b.size() == 0)
            return;
        auto n = sym_choice_(b.size(), "bytes that arrive");
        cbdc::buffer cut;
        cut.append(b.data(), n);
        auto deser = cbdc::buffer_serializer(cut);
        decode<T>(deser, [&](const T&) {
            CHECKM(!deser, "truncated data is accepted");
            sym_cover("truncated");
        });
    }
    // Any bytes: safe, and what is accepted is what those bytes encode.
    template<class T> void garbage(size_t len, bool canonical = true) {
        cbdc::buffer b;
        b.extend(len);
        if(len != 0)
            sym_bytes(b.data(), len, "received");
        auto deser = cbdc::buffer_serializer(b);
        decode<T>(deser, [&](const T& y) {
            if(!deser)
                return;
            auto out = cbdc::make_buffer(y);
            CHECKM(out.size() <= len, "decoding invented data");
            if(canonical)
                CHECKM(std::memcmp(out.data(), b.data(), out.size()) == 0, "what was accepted encodes to different bytes");
            sym_cover("accepted");
        });
    }
}
#endif
