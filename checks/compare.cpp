// P20 (PART 1): orders, equality and hashes of structures. P21 (PART 2): checksums and hashes of integers and strings.
#include "pbt.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/KeyCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/Hashable.h"
#include "Awl/Reflection.h"
#include "Awl/VectorSet.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/FixedString.h"

#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>

#if PART == 1
struct Inner
{
    int x = 0;
    std::string y;
    AWL_TUPLIZABLE(x, y)
};
AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Inner)
AWL_HASHABLE(Inner)

struct Rec
{
    int a = 0;
    std::string b;
    int64_t c = 0;
    Inner in;
    std::vector<int> v;
    int get_a() const { return a; }
    const std::string& get_b() const { return b; }
    int64_t sum() const { return a + c; }
    AWL_TUPLIZABLE(a, b, c, in, v)
};
AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Rec)
AWL_HASHABLE(Rec)

namespace
{
    template <class T> int sign(const T& x, const T& y) { return x < y ? -1 : y < x ? 1 : 0; }
    int by_a(const Rec& x, const Rec& y) { return sign(x.a, y.a); }
    int by_b(const Rec& x, const Rec& y) { return x.b.compare(y.b) < 0 ? -1 : x.b.compare(y.b) > 0 ? 1 : 0; }
    int by_c(const Rec& x, const Rec& y) { return sign(x.c, y.c); }
    int by_sum(const Rec& x, const Rec& y) { return sign(x.a + x.c, y.a + y.c); }

    using Ref = int (*)(const Rec&, const Rec&);

    std::vector<Rec> records(pbt::Src& s, size_t max = 24)
    {
        std::vector<Rec> r(1 + s.length(max));
        for (auto& x : r)
        {
            if (&x != &r[0] && s.chance(1, 4)) { x = r[s.below(static_cast<size_t>(&x - &r[0]))]; if (s.flag()) continue; }
            if (s.flag()) x.a = static_cast<int>(s.below(4)) - 1;
            if (s.flag()) x.b = s.pick<std::string>({ "", "a", "b", "ab", "b\x80", std::string("a\0b", 3) });
            if (s.flag()) x.c = s.chance(1, 8) ? s.integer<int32_t>() : static_cast<int64_t>(s.below(4));
            if (s.flag()) x.in.x = static_cast<int>(s.below(3));
            if (s.flag()) x.in.y = s.pick<std::string>({ "", "x", "y" });
            if (s.flag()) x.v.assign(s.below(3), static_cast<int>(s.below(2)));
        }
        return r;
    }

    // The same question in both directions, for every pair.
    template <class Comp, class Get>
    void order(const char* what, const std::vector<Rec>& r, const Comp& comp, Ref ref, Get get)
    {
        for (auto& x : r)
        {
            for (auto& y : r)
            {
                const bool less = comp(get(x), get(y));
                PBT_CHECK(less == (ref(x, y) < 0), what, ": {", x.a, ",", x.b, ",", x.c, "} < {", y.a, ",", y.b, ",", y.c, "} is ", less);
            }
        }
    }

    // Lookup by a key against a scan.
    template <class Comp, class Key, class Match>
    void lookup(const char* what, const std::vector<Rec>& r, Comp comp, const Key& key, Match match)
    {
        std::multiset<Rec, Comp> m(comp);
        awl::vector_set<Rec, Comp> v(comp);
        for (auto& x : r) { m.insert(x); v.insert(x); }
        const size_t n = static_cast<size_t>(std::count_if(r.begin(), r.end(), match));
        auto [b, e] = m.equal_range(key);
        PBT_CHECK(static_cast<size_t>(std::distance(b, e)) == n, what, ": ", std::distance(b, e), " elements were found, ", n, " have the key");
        for (auto i = b; i != e; ++i) PBT_CHECK(match(*i), what, ": an element with another key was found");
        auto i = v.find(key);
        PBT_CHECK((i != v.end()) == (n != 0), what, ": vector_set::find() ", i != v.end());
        if (n) PBT_CHECK(match(*i), what, ": vector_set::find() found another key");
        auto lower = v.lower_bound(key), upper = v.upper_bound(key);
        size_t between = 0;
        for (; lower != upper; ++lower) { PBT_CHECK(lower != v.end() && match(*lower), what, ": lower_bound()"); ++between; }
        PBT_CHECK((between != 0) == (n != 0), what, ": an empty range");
    }

    int lex_ab(const Rec& x, const Rec& y) { int r = by_a(x, y); return r ? r : by_b(x, y); }
    int lex_aBc(const Rec& x, const Rec& y) { int r = by_a(x, y); if (!r) r = -by_b(x, y); if (!r) r = by_c(x, y); return r; }
    int neg_a(const Rec& x, const Rec& y) { return -by_a(x, y); }
    int lex_sum_ab(const Rec& x, const Rec& y) { int r = by_sum(x, y); return r ? r : lex_ab(x, y); }
    int neg_lex_ab(const Rec& x, const Rec& y) { return -lex_ab(x, y); }
    int lex_abc(const Rec& x, const Rec& y) { int r = lex_ab(x, y); return r ? r : by_c(x, y); }
}

PBT_PROPERTY(orders, 12000, 200000)
{
    const std::vector<Rec> r = records(s);
    if (r.size() > 4) s.nontrivial();
    for (const Rec& x : r) s.note(x.a, " ", x.b, " ", x.c);
    auto self = [](const Rec& x) -> const Rec& { return x; };
    auto ptr = [](const Rec& x) { return &x; };

    auto a = awl::make_compare(&Rec::a);
    auto b = awl::make_compare(&Rec::b);
    auto c = awl::make_compare(&Rec::c);
    auto fa = awl::make_compare(&Rec::get_a);
    auto fsum = awl::make_compare(&Rec::sum);
    auto ga = awl::make_compare(&Rec::a, std::greater<>());
    auto rb = awl::reverse_transparent_comparer<Rec>(b);
    auto Rb = awl::reverse_comparer<Rec>(b);
    switch (s.draw(5))
    {
    case 0:
        order("a field", r, a, by_a, self);
        order("a getter", r, fa, by_a, self);
        order("a sum", r, fsum, by_sum, self);
        order("greater", r, ga, neg_a, self);
        order("reversed greater", r, awl::reverse_comparer<Rec>(ga), by_a, self);
        order("tuplizable_compare 1", r, awl::tuplizable_compare<Rec, 1>(), by_b, self);
        order("tuplizable_compare 2", r, awl::tuplizable_compare<Rec, 2>(), by_c, self);
        break;
    case 1:
        order("composite of two", r, awl::compose_comparers<Rec>(a, b), lex_ab, self);
        order("composite of three", r, awl::compose_comparers<Rec>(a, Rb, c), lex_aBc, self);
        order("composite in composite", r, awl::compose_comparers<Rec>(fsum, awl::compose_comparers<Rec>(a, b)), lex_sum_ab, self);
        order("reversed composite", r, awl::reverse_comparer<Rec>(awl::compose_comparers<Rec>(a, b)), neg_lex_ab, self);
        order("transparent composite of two", r, awl::compose_transparent_comparers<Rec>(a, b), lex_ab, self);
        order("transparent composite of three", r, awl::compose_transparent_comparers<Rec>(a, rb, c), lex_aBc, self);
        order("stateless composite", r, awl::CompositeCompare<Rec, awl::member_compare<&Rec::a>, awl::member_compare<&Rec::b>, awl::member_compare<&Rec::c>>(), lex_abc, self);
        break;
    case 2:
    {
        std::vector<std::shared_ptr<Rec>> sp;
        std::vector<std::unique_ptr<Rec>> up;
        std::map<const Rec*, size_t> at;
        for (auto& x : r) { at[&x] = sp.size(); sp.push_back(std::make_shared<Rec>(x)); up.push_back(std::make_unique<Rec>(x)); }
        order("pointers", r, awl::pointer_compare<&Rec::a>(), by_a, ptr);
        order("shared pointers", r, awl::shared_compare<&Rec::b>(), by_b, [&](const Rec& x) { return sp[at[&x]]; });
        order("unique pointers", r, awl::unique_compare<&Rec::c>(), by_c, [&](const Rec& x) -> auto& { return up[at[&x]]; });
        order("unique pointers, greater", r, awl::unique_compare<&Rec::a, std::greater<>>(), neg_a, [&](const Rec& x) -> auto& { return up[at[&x]]; });
        order("smart pointers", r, awl::smart_compare<std::shared_ptr<Rec>, &Rec::a>(), by_a, [&](const Rec& x) { return sp[at[&x]]; });
        order("shared pointers by a getter", r, awl::make_shared_compare(&Rec::sum), by_sum, [&](const Rec& x) { return sp[at[&x]]; });
        const Rec& k = s.pick(r);
        for (auto& x : r)
        {
            PBT_CHECK(awl::pointer_compare<&Rec::a>()(&x, k.a) == (x.a < k.a) && awl::pointer_compare<&Rec::a>()(k.a, &x) == (k.a < x.a), "a pointer and a key");
            PBT_CHECK(awl::shared_compare<&Rec::b>()(sp[at[&x]], k.b) == (x.b < k.b) && awl::shared_compare<&Rec::b>()(k.b, sp[at[&x]]) == (k.b < x.b), "a shared pointer and a key");
            PBT_CHECK(awl::unique_compare<&Rec::c>()(up[at[&x]], k.c) == (x.c < k.c) && awl::unique_compare<&Rec::c>()(k.c, up[at[&x]]) == (k.c < x.c), "a unique pointer and a key");
        }
        break;
    }
    case 3:
    {
        Rec k = s.flag() ? s.pick(r) : records(s, 1)[0];
        lookup("by a field", r, a, k.a, [&](const Rec& x) { return x.a == k.a; });
        lookup("by a string", r, b, k.b, [&](const Rec& x) { return x.b == k.b; });
        lookup("by a reversed string", r, rb, k.b, [&](const Rec& x) { return x.b == k.b; });
        lookup("by a getter", r, fsum, k.sum(), [&](const Rec& x) { return x.sum() == k.sum(); });
        auto ab = awl::compose_transparent_comparers<Rec>(a, b);
        lookup("by two fields", r, ab, ab.make_key(k.a, k.b), [&](const Rec& x) { return x.a == k.a && x.b == k.b; });
        auto abc = awl::compose_transparent_comparers<Rec>(a, rb, c);
        lookup("by three fields", r, abc, abc.make_key(k.a, k.b, k.c), [&](const Rec& x) { return x.a == k.a && x.b == k.b && x.c == k.c; });
        lookup("by three values", r, abc, abc.make_key(int(k.a), std::string(k.b), int64_t(k.c)), [&](const Rec& x) { return x.a == k.a && x.b == k.b && x.c == k.c; });
        break;
    }
    case 4:
    {
        auto comp = awl::compose_comparers<Rec>(a, Rb, c);
        std::vector<Rec> x = r, y = r;
        std::stable_sort(x.begin(), x.end(), comp);
        std::stable_sort(y.begin(), y.end(), [](const Rec& p, const Rec& q) { return lex_aBc(p, q) < 0; });
        PBT_CHECK(x == y, "sorting");
        break;
    }
    default:
        for (auto& x : r)
        {
            for (auto& y : r)
            {
                const auto tx = std::tie(x.a, x.b, x.c), ty = std::tie(y.a, y.b, y.c);
                int sgn = sign(tx, ty);
                if (!sgn) sgn = sign(std::tie(x.in.x, x.in.y), std::tie(y.in.x, y.in.y));
                if (!sgn) sgn = sign(x.v, y.v);
                PBT_CHECK((x == y) == (sgn == 0) && (x != y) == (sgn != 0) && (x < y) == (sgn < 0) && (x > y) == (sgn > 0) && (x <= y) == (sgn <= 0) && (x >= y) == (sgn >= 0), "memberwise operators, sign ", sgn);
                PBT_CHECK(awl::objects_equal(x, y) == (sgn == 0) && awl::objects_less(x, y) == (sgn < 0) && awl::objects_greater(x, y) == (sgn > 0), "objects_*, sign ", sgn);
                if (sgn == 0)
                {
                    PBT_CHECK(std::hash<Rec>()(x) == std::hash<Rec>()(y), "equal structures have different hashes");
                    PBT_CHECK(awl::GetTupleHash(x.as_tuple()) == awl::GetTupleHash(y.as_const_tuple()), "equal tuples have different hashes");
                }
            }
        }
        {
            std::unordered_set<Rec> u(r.begin(), r.end());
            std::set<Rec> t(r.begin(), r.end());
            PBT_CHECK(u.size() == t.size(), "an unordered set has ", u.size(), " elements instead of ", t.size());
            for (auto& x : t) PBT_CHECK(u.count(x) == 1, "an element is not found");
        }
        break;
    }
}

// Different structures seldom have the same hash, whichever field they differ in.
PBT_PROPERTY(hashes_are_spread, 1500, 20000)
{
    const size_t n = 40;
    const Rec base = records(s, 1)[0];
    const unsigned f1 = static_cast<unsigned>(s.draw(5)), f2 = static_cast<unsigned>(s.draw(5));
    std::set<size_t> hashes;
    size_t count = 0;
    auto change = [](Rec& x, unsigned f, size_t k)
    {
        switch (f)
        {
        case 0: x.a = static_cast<int>(k); break;
        case 1: x.b = std::to_string(k); break;
        case 2: x.c = static_cast<int64_t>(k); break;
        case 3: x.in.x = static_cast<int>(k); break;
        case 4: x.in.y = std::to_string(k); break;
        default: x.v = { 1, static_cast<int>(k), 2 }; break;
        }
    };
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < (f1 == f2 ? 1 : n); ++j)
        {
            Rec x = base;
            change(x, f1, i);
            if (f1 != f2) change(x, f2, j);
            hashes.insert(std::hash<Rec>()(x));
            ++count;
        }
    }
    PBT_CHECK(hashes.size() * 2 > count, count, " structures that differ in the fields ", f1, " and ", f2, " have only ", hashes.size(), " hashes");
    if (f1 != f2) s.nontrivial();
}
#else
namespace
{
    using Bytes = std::vector<uint8_t>;

    // CRC-64/Jones bit by bit.
    uint64_t crc64(const Bytes& b, uint64_t crc)
    {
        for (uint8_t c : b)
        {
            crc ^= c;
            for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (crc & 1 ? 0x95ac9329ac4bc9b5ull : 0);
        }
        return crc;
    }
    std::array<uint8_t, 8> big_endian(uint64_t v)
    {
        std::array<uint8_t, 8> a;
        for (int i = 0; i < 8; ++i) a[static_cast<size_t>(i)] = static_cast<uint8_t>(v >> (56 - 8 * i));
        return a;
    }
    Bytes bytes_of(const Bytes& b) { return b; }

    template <class T>
    void arrays(pbt::Src& s)
    {
        const T v = s.integer<T>();
        std::array<uint8_t, sizeof(T)> a = awl::to_array(v);
        uint64_t u = 0;
        for (uint8_t c : a) u = (u << 8) | c;
        PBT_CHECK(static_cast<T>(u) == v, "to_array: most significant byte first");
        if constexpr (std::is_unsigned_v<T>) PBT_CHECK(awl::from_array<T>(a) == v, "from_array(to_array(", +v, ")) is ", +awl::from_array<T>(a));
        std::array<uint8_t, sizeof(T)> r;
        for (auto& c : r) c = s.integer<uint8_t>();
        if constexpr (std::is_unsigned_v<T>) PBT_CHECK(awl::to_array(awl::from_array<T>(r)) == r, "to_array(from_array)");
    }

    template <class T>
    void wide(pbt::Src& s, uint64_t seed)
    {
        std::vector<T> v(s.length(20));
        Bytes b;
        for (auto& x : v)
        {
            x = s.integer<T>();
            for (size_t i = sizeof(T); i; --i) b.push_back(static_cast<uint8_t>(static_cast<std::make_unsigned_t<T>>(x) >> (8 * (i - 1))));
        }
        PBT_CHECK(awl::crypto::Crc64(seed)(v.begin(), v.end()) == big_endian(crc64(b, seed)), "a sum of ", v.size(), " elements of ", sizeof(T), " bytes");
    }

    constexpr awl::crypto::FixedHash<awl::crypto::Int64Hash> fixed{};
    constexpr uint64_t literal = fixed("123456789");
    static_assert(fixed(awl::fixed_string("123456789")) == literal);
}

PBT_PROPERTY(checksums, 30000, 400000)
{
    const uint64_t seed = s.flag() ? s.pick<uint64_t>({ 0, 127, ~uint64_t(0) }) : s.integer<uint64_t>();
    const awl::crypto::Crc64 crc(seed);
    PBT_CHECK(awl::crypto::Crc64::size() == 8, "size()");
    const size_t n = s.chance(1, 20) ? s.below(3000) : s.length(100);
    Bytes b(n);
    const bool zero = s.chance(1, 6);
    for (auto& c : b) c = zero ? 0 : s.integer<uint8_t>();
    const uint64_t ref = crc64(b, seed);
    PBT_CHECK(crc(b.begin(), b.end()) == big_endian(ref), "Crc64 with seed ", seed, " of ", n, " bytes is not ", ref);
    PBT_CHECK(crc(b.data(), b.data() + n) == big_endian(ref), "pointers");
    std::string str(b.begin(), b.end());
    PBT_CHECK(crc(str.begin(), str.end()) == big_endian(ref), "chars");
    std::list<uint8_t> l(b.begin(), b.end());
    PBT_CHECK(crc(l.begin(), l.end()) == big_endian(ref), "a list");
    std::deque<int8_t> dq(b.begin(), b.end());
    PBT_CHECK(crc(dq.begin(), dq.end()) == big_endian(ref), "a deque of int8_t");
    PBT_CHECK(awl::crypto::Int64Hash(seed)(b.begin(), b.end()) == ref, "Int64Hash");

    // In two pieces: the first one is the seed of the second one.
    const size_t cut = s.below(n + 1);
    const uint64_t first = awl::crypto::Int64Hash(seed)(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(cut));
    PBT_CHECK(awl::crypto::Int64Hash(first)(b.begin() + static_cast<std::ptrdiff_t>(cut), b.end()) == ref, "in two pieces");

    // A change of up to 64 bits in a row is always noticed.
    if (n)
    {
        Bytes bad = b;
        const size_t at = s.below(n);
        const size_t len = 1 + s.below(std::min<size_t>(8, n - at));
        for (size_t i = 0; i < len; ++i) bad[at + i] ^= s.integer<uint8_t>();
        if (bad != b) PBT_CHECK(crc(bad.begin(), bad.end()) != crc(b.begin(), b.end()), "a change of ", len, " bytes at ", at, " of ", n, " was not noticed");
    }
    if (n > 8) s.nontrivial();
}

PBT_PROPERTY(hashes_of_integers_and_strings, 12000, 200000)
{
    arrays<uint8_t>(s);
    arrays<uint16_t>(s);
    arrays<uint32_t>(s);
    arrays<uint64_t>(s);
    arrays<int32_t>(s);
    arrays<int64_t>(s);
    const uint64_t seed = s.flag() ? 0 : s.integer<uint64_t>();
    switch (s.draw(3))
    {
    case 0: wide<uint16_t>(s, seed); break;
    case 1: wide<uint32_t>(s, seed); break;
    case 2: wide<uint64_t>(s, seed); break;
    default: wide<int32_t>(s, seed); break;
    }
    // The same string in different clothes.
    const std::string str(s.length(30), s.pick<char>({ 'a', '\x80', '\0', 'z' }));
    const awl::crypto::FixedHash<awl::crypto::Int64Hash> h{ awl::crypto::Int64Hash(seed) };
    const Bytes b(str.begin(), str.end());
    PBT_CHECK(h(str) == crc64(b, seed), "FixedHash of a string");
    PBT_CHECK(h(std::string_view(str)) == crc64(b, seed), "FixedHash of a view");
    PBT_CHECK(h(str.begin(), str.end()) == crc64(b, seed), "FixedHash of a range");
    const char lit[] = { 'a', static_cast<char>(s.integer<uint8_t>()), static_cast<char>(s.integer<uint8_t>()), 0 };
    const Bytes lb = { 'a', static_cast<uint8_t>(lit[1]), static_cast<uint8_t>(lit[2]) };
    PBT_CHECK(h(lit) == crc64(lb, seed), "FixedHash of a literal");
    PBT_CHECK(h(awl::fixed_string<char, 3>(lit)) == crc64(lb, seed), "FixedHash of a fixed string");
    PBT_CHECK(literal == crc64(Bytes{ '1', '2', '3', '4', '5', '6', '7', '8', '9' }, 0) && literal == 0xe9c6d914c4b8d9caull, "the check value of CRC-64/Jones");
    if (str.size() > 2) s.nontrivial();
}
#endif
