// P31: descriptions of types. The types, and what must be true about them, are written by bin/gen_types.py when the check is built.
// PART 0..7: the types of a part. PART 8: the checks.
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

struct Row
{
    int part;
    size_t size;
    std::string type, expected, actual;
    uint64_t hash;
    bool collected, one, several, split, contains;
    std::vector<size_t> expected_indices, indices;
};

#if PART == 8

#include "pbt.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/FixedString.h"
#include <algorithm>
#include <sstream>

void rows_0(std::vector<Row>&); void rows_1(std::vector<Row>&); void rows_2(std::vector<Row>&); void rows_3(std::vector<Row>&);
void rows_4(std::vector<Row>&); void rows_5(std::vector<Row>&); void rows_6(std::vector<Row>&); void rows_7(std::vector<Row>&);

namespace
{
    const std::vector<Row>& rows()
    {
        static const std::vector<Row> all = []
        {
            std::vector<Row> r;
            rows_0(r); rows_1(r); rows_2(r); rows_3(r); rows_4(r); rows_5(r); rows_6(r); rows_7(r);
            std::stable_sort(r.begin(), r.end(), [](const Row& a, const Row& b) { return a.size < b.size; });
            return r;
        }();
        return all;
    }

    uint64_t crc64(const std::string& b)
    {
        uint64_t crc = 0;
        for (const char c : b)
        {
            crc ^= static_cast<uint8_t>(c);
            for (int k = 0; k < 8; ++k) crc = crc & 1 ? (crc >> 1) ^ 0x95ac9329ac4bc9b5ull : crc >> 1;
        }
        return crc;
    }

    PBT_PROPERTY(types, 20000, 100000)
    {
        const Row& r = rows()[s.below(rows().size())];
        s.note(r.type);
        PBT_CHECK(r.actual == r.expected, "the name of ", r.type, " is ", r.actual, ", not ", r.expected);
        PBT_CHECK(r.hash == crc64(r.expected), "the hash of ", r.type, " is ", r.hash);
        PBT_CHECK(r.collected, "the types of ", r.type, " are not what they are");
        PBT_CHECK(r.one, "variant_from_struct<", r.type, ">");
        PBT_CHECK(r.several, "variant_from_structs<", r.type, ", ...>");
        PBT_CHECK(r.contains, "variant_contains of the types of ", r.type);
        PBT_CHECK(r.split, "split_variant of the types of ", r.type);
        PBT_CHECK(r.indices == r.expected_indices, "the positions of the types of ", r.type, " are ", pbt::str(r.indices.size()));
        // Two types have the same description exactly if they are written in the same way.
        const Row& q = rows()[s.below(rows().size())];
        PBT_CHECK((q.actual == r.actual) == (q.expected == r.expected), r.type, " and ", q.type);
        PBT_CHECK((q.hash == r.hash) == (q.expected == r.expected), r.type, " and ", q.type, " by hash");
        s.maximum("types", rows().size());
        s.maximum("size of a type", r.size);
        s.maximum("inner types", r.indices.size());
        if (r.size > 2) s.nontrivial();
    }

    // --- fixed strings ---

    template <size_t N>
    awl::fixed_string<char, N> make(const std::string& v)
    {
        awl::fixed_string<char, N> r;
        for (size_t i = 0; i < N; ++i) r[i] = v[i];
        return r;
    }

    template <size_t N, size_t M>
    void strings_of(pbt::Src& s)
    {
        std::string a, b;
        for (size_t i = 0; i < N; ++i) a += static_cast<char>('a' + s.draw(2));
        for (size_t i = 0; i < M; ++i) b += static_cast<char>('a' + s.draw(2));
        if (s.flag()) for (size_t i = 0; i < std::min(N, M); ++i) b[i] = a[i];
        if (M && s.chance(1, 4)) b[s.below(M)] = 'z';
        const auto x = make<N>(a);
        const auto y = make<M>(b);
        PBT_CHECK((x == y) == (a == b) && (x != y) == (a != b), "'", a, "' and '", b, "' as fixed strings");
        const auto z = x + y;
        PBT_CHECK(z.size() == N + M && std::string(z.begin(), z.end()) == a + b && std::string(z.c_str()) == a + b && z.data()[z.size()] == 0, "'", a, "' + '", b, "'");
        PBT_CHECK(static_cast<std::string>(x) == a && x == x && !(x != x), "'", a, "'");
        auto w = x;
        w = x;
        PBT_CHECK(static_cast<std::string>(w) == a, "a copy of '", a, "'");
        if constexpr (N > 0)
        {
            const size_t i = s.below(N);
            w[i] = '!';
            PBT_CHECK(w[i] == '!' && !(w == x) && w != x && x[i] == a[i], "a changed copy of '", a, "'");
        }
        char raw[N + 1];
        std::copy(a.c_str(), a.c_str() + N + 1, raw);
        const awl::fixed_string f(raw);
        PBT_CHECK(f == x && f.size() == N, "a literal '", a, "'");
        const auto wide = awl::fixed_string<wchar_t, N>::from_ascii(raw);
        for (size_t i = 0; i < N; ++i) PBT_CHECK(wide[i] == static_cast<wchar_t>(a[i]), "wide '", a, "'");
        if (N && M) s.nontrivial();
    }

    PBT_PROPERTY(fixed_strings, 20000, 200000)
    {
        switch (s.draw(6))
        {
        case 0: strings_of<1, 1>(s); break;
        case 1: strings_of<3, 3>(s); break;
        case 2: strings_of<2, 3>(s); break;
        case 3: strings_of<5, 2>(s); break;
        case 4: strings_of<8, 8>(s); break;
        case 5: strings_of<16, 3>(s); break;
        default: strings_of<4, 4>(s); break;
        }
    }
}

#else

#include "Awl/Decimal.h"
#include "Awl/VectorSet.h"
#include "Awl/Mp/Mp.h"
#include "Awl/Mp/TypeHash.h"

namespace
{
    template <class... Ts> struct Types {};

    template <class L, class R> struct Joined;
    template <class... Ls, class... Rs> struct Joined<Types<Ls...>, Types<Rs...>> { using type = Types<Ls..., Rs...>; };

    template <template <class> class P, bool yes, class V> struct Where;
    template <template <class> class P, bool yes> struct Where<P, yes, std::variant<>> { using type = Types<>; };
    template <template <class> class P, bool yes, class T, class... Ts> struct Where<P, yes, std::variant<T, Ts...>>
    {
        using type = typename Joined<std::conditional_t<P<T>::value == yes, Types<T>, Types<>>, typename Where<P, yes, std::variant<Ts...>>::type>::type;
    };

    template <class L> struct As;
    template <class... Ts> struct As<Types<Ts...>> { using type = std::variant<Ts...>; };
    template <> struct As<Types<>> { using type = std::variant<std::monostate>; };

    template <class V, template <class> class P>
    constexpr bool split_right = std::is_same_v<typename awl::mp::split_variant<V, P>::matching, typename As<typename Where<P, true, V>::type>::type> &&
        std::is_same_v<typename awl::mp::split_variant<V, P>::non_matching, typename As<typename Where<P, false, V>::type>::type> &&
        std::is_same_v<awl::mp::filter_variant<V, P>, typename As<typename Where<P, true, V>::type>::type>;

    struct Absent {};

    template <class V, class W> struct ContainsAll;
    template <class... Ts, class W> struct ContainsAll<std::variant<Ts...>, W> { static constexpr bool value = (awl::mp::variant_contains<W, Ts> && ...); };

    template <class T, class Collected, class One, class Several, class Result>
    void check(std::vector<Row>& out, int part, size_t size, const char* type, const char* expected, std::vector<size_t> indices)
    {
        using namespace awl::mp;
        constexpr auto name = make_type_name<T>();
        constexpr uint64_t hash = make_type_hash<T>();
        Row r{ part, size, type, expected, std::string(name.begin(), name.end()), hash };
        r.collected = std::is_same_v<typename type_collector<T>::Tuple, Collected>;
        r.one = std::is_same_v<variant_from_struct<T>, One> && std::is_same_v<tuple_to_variant<Collected>, One>;
        r.several = std::is_same_v<Result, Several>;
        r.split = split_right<One, std::is_arithmetic> && split_right<One, std::is_class> && split_right<Several, std::is_enum>;
        r.contains = ContainsAll<One, Several>::value && !variant_contains<Several, Absent> && ContainsAll<Several, One>::value == (std::variant_size_v<One> == std::variant_size_v<Several>);
        if constexpr (std::is_same_v<typename type_collector<T>::Tuple, Collected>)
        {
            constexpr auto map = awl::map_types_t2v<Collected, One>();
            r.indices.assign(map.begin(), map.end());
        }
        r.expected_indices = std::move(indices);
        out.push_back(std::move(r));
    }
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#define FILE_NAME STR(CAT(types_, PART).h)
#include FILE_NAME

void CAT(rows_, PART)(std::vector<Row>& out) { CAT(types, PART)::add(out); }

#endif
