// Generators, an equality and a reference encoder for the types that awl::io serializes. The encoder is written from the
// description of the format alone: it shares no code with Awl/Io/Rw.
#pragma once

#include "pbt.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/Rw/PointerReadWrite.h"
#include "Awl/Io/Rw/VariantReadWrite.h"
#include "Awl/Io/Rw/AtomicReadWrite.h"
#include "Awl/Io/Rw/DecimalReadWrite.h"
#include "Awl/Io/Rw/BitMapReadWrite.h"
#include "Awl/Io/Rw/ChronoReadWrite.h"
#include "Awl/Io/Rw/OptionalReadWrite.h"
#include "Awl/Io/Rw/EnumReadWrite.h"
#include "Awl/Io/Rw/CollectionReadWrite.h"
#include "Awl/EnumTraits.h"
#include "Awl/BitMap.h"
#include "Awl/Reflection.h"
#include "Awl/Decimal.h"

#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cstring>
#include <memory>
#include <optional>
#include <variant>

namespace sg
{
    using Bytes = std::vector<uint8_t>;
    using pbt::Src;

    template <class U>
    void put_int(Bytes& b, U v, size_t n = sizeof(U))
    {
        for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(static_cast<uint64_t>(v) >> (8 * i)));
    }
    inline void put_count(Bytes& b, size_t n) { put_int<uint64_t>(b, n); }

    template <class T> struct G;

    template <class T> void fill(Src& s, T& v) { G<T>::fill(s, v); }
    template <class T> void enc(Bytes& b, const T& v) { G<T>::enc(b, v); }
    template <class T> bool eq(const T& a, const T& b) { return G<T>::eq(a, b); }
    // The greatest size in bytes of a string inside of the value.
    template <class T> size_t longest(const T& v) { return G<T>::longest(v); }

    inline size_t small_len(Src& s) { return s.length(12); }

    template <class T> requires std::is_arithmetic_v<T>
    struct G<T>
    {
        static void fill(Src& s, T& v)
        {
            if constexpr (std::is_same_v<T, bool>) v = s.flag();
            else if constexpr (std::is_integral_v<T>) v = s.integer<T>();
            else if (s.chance(1, 3))
            {
                using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
                U u = s.integer<U>();
                std::memcpy(&v, &u, sizeof(T));
            }
            else v = static_cast<T>(s.integer<int32_t>()) / 16;
        }
        static void enc(Bytes& b, const T& v)
        {
            if constexpr (std::is_same_v<T, bool>) b.push_back(v ? 1 : 0);
            else if constexpr (std::is_integral_v<T>) put_int(b, static_cast<uint64_t>(v), sizeof(T));
            else
            {
                using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
                U u;
                std::memcpy(&u, &v, sizeof(T));
                put_int(b, u);
            }
        }
        static bool eq(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
        static size_t longest(const T&) { return 0; }
    };

    template <class C>
    struct G<std::basic_string<C>>
    {
        using T = std::basic_string<C>;
        static void fill(Src& s, T& v)
        {
            v.clear();
            for (size_t n = s.length(s.chance(1, 20) ? 300 : 20); n != 0; --n) v.push_back(s.chance(1, 4) ? s.integer<C>() : static_cast<C>('a' + s.draw(25)));
        }
        static void enc(Bytes& b, const T& v)
        {
            put_count(b, v.size());
            for (C c : v) put_int(b, static_cast<uint64_t>(c), sizeof(C));
        }
        static bool eq(const T& a, const T& b) { return a == b; }
        static size_t longest(const T& v) { return v.size() * sizeof(C); }
    };

    template <class It, class E>
    void enc_bits(Bytes& b, size_t n, E bit)
    {
        for (size_t i = 0; i < n; i += 8)
        {
            unsigned x = 0;
            for (size_t k = 0; k < 8 && i + k < n; ++k) x |= unsigned(bit(i + k)) << k;
            b.push_back(static_cast<uint8_t>(x));
        }
    }

    template <class T>
    struct G<std::vector<T>>
    {
        using V = std::vector<T>;
        static void fill(Src& s, V& v)
        {
            v.clear();
            v.resize(std::is_same_v<T, bool> ? s.length(40) : small_len(s));
            if constexpr (std::is_same_v<T, bool>) for (size_t i = 0; i < v.size(); ++i) v[i] = s.flag();
            else for (auto& e : v) sg::fill(s, e);
        }
        static void enc(Bytes& b, const V& v)
        {
            put_count(b, v.size());
            if constexpr (std::is_same_v<T, bool>) enc_bits<void>(b, v.size(), [&](size_t i) { return bool(v[i]); });
            else for (auto& e : v) sg::enc(b, e);
        }
        static bool eq(const V& a, const V& b)
        {
            if (a.size() != b.size()) return false;
            if constexpr (std::is_same_v<T, bool>) return a == b;
            else
            {
                for (size_t i = 0; i < a.size(); ++i) if (!sg::eq(a[i], b[i])) return false;
                return true;
            }
        }
        static size_t longest(const V& v)
        {
            size_t n = 0;
            if constexpr (!std::is_same_v<T, bool>) for (auto& e : v) n = std::max(n, sg::longest(e));
            return n;
        }
    };

    template <class T, size_t N>
    struct G<std::array<T, N>>
    {
        using V = std::array<T, N>;
        static void fill(Src& s, V& v) { for (auto& e : v) sg::fill(s, e); }
        static void enc(Bytes& b, const V& v)
        {
            if constexpr (std::is_same_v<T, bool>) enc_bits<void>(b, N, [&](size_t i) { return v[i]; });
            else for (auto& e : v) sg::enc(b, e);
        }
        static bool eq(const V& a, const V& b)
        {
            for (size_t i = 0; i < N; ++i) if (!sg::eq(a[i], b[i])) return false;
            return true;
        }
        static size_t longest(const V& v) { size_t n = 0; for (auto& e : v) n = std::max(n, sg::longest(e)); return n; }
    };

    // A sequence with push_back.
    template <class V, bool has_capacity = false>
    struct SeqG
    {
        using T = std::decay_t<decltype(*std::declval<V&>().begin())>;
        static void fill(Src& s, V& v)
        {
            size_t n = small_len(s);
            if constexpr (has_capacity) { v.reserve(16); if (s.chance(1, 4)) n += 9; }
            v.clear();
            for (; n != 0; --n) { T e{}; sg::fill(s, e); v.push_back(std::move(e)); }
        }
        static void enc(Bytes& b, const V& v) { put_count(b, v.size()); for (auto& e : v) sg::enc(b, e); }
        static bool eq(const V& a, const V& b)
        {
            if (a.size() != b.size()) return false;
            auto j = b.begin();
            for (auto& e : a) { if (!sg::eq(e, *j)) return false; ++j; }
            return true;
        }
        static size_t longest(const V& v) { size_t n = 0; for (auto& e : v) n = std::max(n, sg::longest(e)); return n; }
    };
    template <class T> struct G<std::deque<T>> : SeqG<std::deque<T>> {};
    template <class T> struct G<awl::ring<T>> : SeqG<awl::ring<T>, true> {};

    template <class V>
    struct SetG
    {
        using T = typename V::value_type;
        static void fill(Src& s, V& v)
        {
            v.clear();
            for (size_t n = small_len(s); n != 0; --n) { T e{}; sg::fill(s, e); v.insert(e); }
        }
        static void enc(Bytes& b, const V& v) { put_count(b, v.size()); for (auto& e : v) sg::enc(b, e); }
        static bool eq(const V& a, const V& b)
        {
            if (a.size() != b.size()) return false;
            for (auto& e : a) if (b.find(e) == b.end()) return false;
            return true;
        }
        static size_t longest(const V& v) { size_t n = 0; for (auto& e : v) n = std::max(n, sg::longest(e)); return n; }
    };
    template <class T> struct G<std::set<T>> : SetG<std::set<T>> {};
    template <class T> struct G<std::unordered_set<T>> : SetG<std::unordered_set<T>> {};
    template <class T> struct G<awl::vector_set<T>> : SetG<awl::vector_set<T>> {};
    template <class T> struct G<awl::observable_set<T>> : SetG<awl::observable_set<T>> {};

    template <class V>
    struct MapG
    {
        static void fill(Src& s, V& v)
        {
            v.clear();
            for (size_t n = small_len(s); n != 0; --n)
            {
                typename V::key_type k{};
                sg::fill(s, k);
                sg::fill(s, v[k]);
            }
        }
        static void enc(Bytes& b, const V& v) { put_count(b, v.size()); for (auto& e : v) { sg::enc(b, e.first); sg::enc(b, e.second); } }
        static bool eq(const V& a, const V& b)
        {
            if (a.size() != b.size()) return false;
            for (auto& e : a) { auto i = b.find(e.first); if (i == b.end() || !sg::eq(e.second, i->second)) return false; }
            return true;
        }
        static size_t longest(const V& v) { size_t n = 0; for (auto& e : v) n = std::max({n, sg::longest(e.first), sg::longest(e.second)}); return n; }
    };
    template <class K, class T> struct G<std::map<K, T>> : MapG<std::map<K, T>> {};
    template <class K, class T> struct G<std::unordered_map<K, T>> : MapG<std::unordered_map<K, T>> {};

    template <class P, class T>
    struct OptG
    {
        template <class Q> static void set(std::optional<Q>& p, Q&& v) { p = std::move(v); }
        template <class Q> static void set(std::shared_ptr<Q>& p, Q&& v) { p = std::make_shared<Q>(std::move(v)); }
        template <class Q> static void set(std::unique_ptr<Q>& p, Q&& v) { p = std::make_unique<Q>(std::move(v)); }
        static void fill(Src& s, P& p)
        {
            p.reset();
            if (s.chance(2, 3)) { T v{}; sg::fill(s, v); set(p, std::move(v)); }
        }
        static void enc(Bytes& b, const P& p) { b.push_back(p ? 1 : 0); if (p) sg::enc(b, *p); }
        static bool eq(const P& a, const P& b) { return bool(a) == bool(b) && (!a || sg::eq(*a, *b)); }
        static size_t longest(const P& p) { return p ? sg::longest(*p) : 0; }
    };
    template <class T> struct G<std::optional<T>> : OptG<std::optional<T>, T> {};
    template <class T> struct G<std::shared_ptr<T>> : OptG<std::shared_ptr<T>, T> {};
    template <class T> struct G<std::unique_ptr<T>> : OptG<std::unique_ptr<T>, T> {};

    template <class... Ts>
    struct G<std::variant<Ts...>>
    {
        using V = std::variant<Ts...>;
        template <size_t I> static void emplace(Src& s, V& v) { std::variant_alternative_t<I, V> x{}; sg::fill(s, x); v.template emplace<I>(std::move(x)); }
        template <size_t... I> static void at(Src& s, V& v, size_t k, std::index_sequence<I...>) { ((k == I ? emplace<I>(s, v) : void()), ...); }
        static void fill(Src& s, V& v) { at(s, v, s.below(sizeof...(Ts)), std::index_sequence_for<Ts...>()); }
        static void enc(Bytes& b, const V& v) { put_count(b, v.index()); std::visit([&](auto& x) { sg::enc(b, x); }, v); }
        template <size_t I> static bool eq_at(const V& a, const V& b) { return sg::eq(std::get<I>(a), std::get<I>(b)); }
        template <size_t... I> static bool eq_all(const V& a, const V& b, std::index_sequence<I...>) { return ((a.index() != I || eq_at<I>(a, b)) && ...); }
        static bool eq(const V& a, const V& b) { return a.index() == b.index() && eq_all(a, b, std::index_sequence_for<Ts...>()); }
        static size_t longest(const V& v) { return std::visit([](auto& x) { return sg::longest(x); }, v); }
    };

    template <size_t N>
    struct G<std::bitset<N>>
    {
        using V = std::bitset<N>;
        static void fill(Src& s, V& v) { for (size_t i = 0; i < N; ++i) v[i] = s.flag(); }
        static void enc(Bytes& b, const V& v) { enc_bits<void>(b, N, [&](size_t i) { return bool(v[i]); }); }
        static bool eq(const V& a, const V& b) { return a == b; }
        static size_t longest(const V&) { return 0; }
    };

    template <class E>
    struct G<awl::bitmap<E>>
    {
        using V = awl::bitmap<E>;
        static constexpr size_t N = V().size();
        static void fill(Src& s, V& v) { for (size_t i = 0; i < N; ++i) v[static_cast<E>(i)] = s.flag(); }
        static void enc(Bytes& b, const V& v) { enc_bits<void>(b, N, [&](size_t i) { return bool(v[static_cast<E>(i)]); }); }
        static bool eq(const V& a, const V& b) { return a == b; }
        static size_t longest(const V&) { return 0; }
    };

    template <class E> requires std::is_enum_v<E>
    struct G<E>
    {
        using U = std::underlying_type_t<E>;
        static void fill(Src& s, E& v)
        {
            if constexpr (awl::is_sequential_enum<E>) v = static_cast<E>(s.below(static_cast<size_t>(awl::EnumTraits<E>::count())));
            else v = static_cast<E>(s.integer<U>());
        }
        static void enc(Bytes& b, const E& v)
        {
            if constexpr (awl::is_sequential_enum<E>) PBT_CHECK(static_cast<size_t>(v) < static_cast<size_t>(awl::EnumTraits<E>::count()), "a wrong enumerator ", static_cast<size_t>(v));
            put_int(b, static_cast<uint64_t>(static_cast<U>(v)), sizeof(U));
        }
        static bool eq(const E& a, const E& b) { return a == b; }
        static size_t longest(const E&) { return 0; }
    };

    template <class C, class D>
    struct G<std::chrono::time_point<C, D>>
    {
        using V = std::chrono::time_point<C, D>;
        static constexpr int64_t factor = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
        static void fill(Src& s, V& v) { v = V(D(s.integer<int64_t>() / factor)); }
        static void enc(Bytes& b, const V& v) { put_int(b, static_cast<uint64_t>(static_cast<int64_t>(v.time_since_epoch().count()) * factor)); }
        static bool eq(const V& a, const V& b) { return a == b; }
        static size_t longest(const V&) { return 0; }
    };

    template <class U, uint8_t L, template <typename, uint8_t> class D>
    struct G<awl::decimal<U, L, D>>
    {
        using V = awl::decimal<U, L, D>;
        static void fill(Src& s, V& v)
        {
            using M = typename V::Int;
            uint8_t digits = static_cast<uint8_t>(s.draw(V::max_exponent()));
            M m = static_cast<M>(s.wide(unsigned(s.draw(sizeof(U) * 8 - L - 2))));
            if (s.flag()) m = static_cast<M>(-m);
            v = V(m, digits);
        }
        static void enc(Bytes& b, const V& v) { auto u = v.to_bits(); for (size_t i = 0; i < sizeof(u); ++i) b.push_back(static_cast<uint8_t>(u >> (8 * i))); }
        static bool eq(const V& a, const V& b) { return a.to_bits() == b.to_bits(); }
        static size_t longest(const V&) { return 0; }
    };

    template <class T>
    struct G<std::atomic<T>>
    {
        using V = std::atomic<T>;
        static void fill(Src& s, V& v) { T x{}; sg::fill(s, x); v = x; }
        static void enc(Bytes& b, const V& v) { sg::enc(b, v.load()); }
        static bool eq(const V& a, const V& b) { return sg::eq(a.load(), b.load()); }
        static size_t longest(const V&) { return 0; }
    };

    template <class T> requires awl::is_tuplizable_v<T>
    struct G<T>
    {
        template <class F> static void each(T& v, F f) { std::apply([&](auto&... x) { (f(x), ...); }, v.as_tuple()); }
        template <class F> static void each(const T& v, F f) { std::apply([&](auto&... x) { (f(x), ...); }, v.as_const_tuple()); }
        static void fill(Src& s, T& v) { each(v, [&](auto& x) { sg::fill(s, x); }); }
        static void enc(Bytes& b, const T& v) { each(v, [&](auto& x) { sg::enc(b, x); }); }
        template <size_t... I> static bool eq_all(const T& a, const T& b, std::index_sequence<I...>) { return (sg::eq(std::get<I>(a.as_const_tuple()), std::get<I>(b.as_const_tuple())) && ...); }
        static bool eq(const T& a, const T& b) { return eq_all(a, b, std::make_index_sequence<std::tuple_size_v<decltype(a.as_const_tuple())>>()); }
        static size_t longest(const T& v) { size_t n = 0; each(v, [&](auto& x) { n = std::max(n, sg::longest(x)); }); return n; }
    };

    // --- the types ---

    AWL_SEQUENTIAL_ENUM(Color, Red, Green, Blue, White, Black, Grey, Cyan, Magenta, Orange)
}

AWL_ENUM_TRAITS(sg, Color)

namespace sg
{

    enum class Plain16 : int16_t { A = -5, B = 7 };
    enum PlainOld : uint32_t { Old };

    struct Small
    {
        uint8_t a = 0;
        int64_t b = 0;
        bool c = false;
        AWL_TUPLIZABLE(a, b, c)
    };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Small)

    struct Named
    {
        std::string name;
        std::optional<Small> small;
        std::vector<std::string> list;
        AWL_REFLECT(name, small, list)
    };

    struct Deep
    {
        Named named;
        std::map<std::string, Named> by_name;
        std::array<Small, 3> three;
        std::variant<int, std::string, Small, std::vector<uint16_t>> v;
        double d = 0;
        AWL_REFLECT(named, by_name, three, v, d)
    };

    struct WithAtomic
    {
        std::atomic<int> i{ 0 };
        std::atomic<uint64_t> u{ 0 };
        std::atomic<bool> b{ false };
        std::string s;
        AWL_REFLECT(i, u, b, s)
    };

    struct Texts
    {
        std::string a;
        std::wstring w;
        std::vector<std::string> list;
        std::map<std::string, std::u16string> m;
        std::optional<std::wstring> o;
        std::variant<int, std::string> v;
        std::shared_ptr<std::string> p;
        AWL_REFLECT(a, w, list, m, o, v, p)
    };

    using Types = std::tuple<
        bool, char, signed char, unsigned char, wchar_t, char16_t, short, unsigned short, int, unsigned, int64_t, uint64_t, float, double,
        std::string, std::wstring, std::u16string,
        std::vector<uint8_t>, std::vector<int32_t>, std::vector<double>, std::vector<bool>, std::vector<std::string>, std::vector<std::vector<bool>>,
        std::array<uint16_t, 5>, std::array<bool, 13>, std::array<std::string, 2>,
        std::deque<int>, std::deque<bool>, std::deque<std::string>, std::set<int>, std::set<std::string>, std::map<int, std::string>, std::map<std::string, std::vector<int>>,
        std::unordered_set<uint64_t>, std::unordered_map<std::string, double>, awl::vector_set<int>, awl::vector_set<std::string>, awl::observable_set<int>,
        awl::ring<int>, awl::ring<std::string>,
        std::optional<int>, std::optional<std::string>, std::optional<std::optional<bool>>, std::shared_ptr<std::vector<int>>, std::unique_ptr<std::string>,
        std::variant<int, std::string, bool>, std::variant<std::vector<int>, std::optional<double>, Small>,
        std::bitset<5>, std::bitset<8>, std::bitset<67>, awl::bitmap<Color>, Color, Plain16, PlainOld,
        std::chrono::system_clock::time_point, std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>,
        awl::decimal<uint64_t, 4>, awl::decimal<uint32_t, 3>,
        Small, Named, Deep, WithAtomic, Texts, std::vector<Small>, std::vector<Named>, std::set<Small>, std::vector<std::map<int, Small>>, std::vector<std::optional<Deep>>>;

    inline constexpr size_t type_count = std::tuple_size_v<Types>;

    // Calls f.operator()<T>() with a type chosen by the generator.
    template <class F, size_t... I>
    void with_type(size_t k, F&& f, std::index_sequence<I...>) { ((k == I ? f.template operator()<std::tuple_element_t<I, Types>>() : void()), ...); }
    template <class F>
    void with_type(Src& s, F&& f)
    {
        size_t k = s.below(type_count);
        with_type(k, std::forward<F>(f), std::make_index_sequence<type_count>());
    }

    template <class T> inline constexpr bool is_ring = false;
    template <class T> inline constexpr bool is_ring<awl::ring<T>> = true;

    template <class T>
    void prepare(T& v)
    {
        // "awl::ring should be initialized with a limit before it is read."
        if constexpr (is_ring<T>) v.reserve(16);
    }

    // Some streams of ours: a static one, and a virtual one that reads in a way of its own.
    struct StaticOut
    {
        Bytes b;
        void Write(const uint8_t* p, size_t n) { b.insert(b.end(), p, p + n); }
    };
    struct StaticIn
    {
        const Bytes& b;
        size_t pos = 0;
        bool End() { return pos == b.size(); }
        size_t Read(uint8_t* p, size_t n)
        {
            n = std::min(n, b.size() - pos);
            if (n != 0) std::memcpy(p, b.data() + pos, n);
            pos += n;
            return n;
        }
    };

    inline std::string hex(const Bytes& b)
    {
        std::string r;
        char buf[4];
        for (size_t i = 0; i < b.size() && i < 60; ++i) { snprintf(buf, sizeof buf, "%02x ", b[i]); r += buf; }
        return r + (b.size() > 60 ? "..." : "") + "(" + std::to_string(b.size()) + " bytes)";
    }
}
