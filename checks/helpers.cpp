// P32: helpers of text, numbers, tuples, registries and singletons.
#include "pbt.h"
#include "tracked.h"
#include "Awl/Math.h"
#include "Awl/RangeUtil.h"
#include "Awl/String.h"
#include "Awl/StringFormat.h"
#include "Awl/TupleHelpers.h"
#include "Awl/Combinator.h"
#include "Awl/StaticChain.h"
#include "Awl/StaticFactory.h"
#include "Awl/SharedSingleton.h"
#include "Awl/ConsoleLogger.h"
#include "Awl/Exception.h"
#include "Awl/FunctionTraits.h"
#include "Awl/Getters.h"
#include "Awl/OptionalMutex.h"
#include "Awl/Random.h"
#include "Awl/Io/IoException.h"
#include "Awl/TypeTraits.h"

#include <algorithm>
#include <array>
#include <clocale>
#include <cmath>
#include <deque>
#include <functional>
#include <future>
#include <iomanip>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

namespace
{
#if PART == 0
    // --- numbers ---

    template <class I, class F>
    void rounding(pbt::Src& s)
    {
        // Numbers near to a half, and others.
        const F limit = static_cast<F>(std::min<double>(static_cast<double>(std::numeric_limits<I>::max()) / 2, sizeof(F) == 4 ? 1e6 : 1e14));
        F f;
        switch (s.draw(3))
        {
        case 0: f = static_cast<F>(static_cast<double>(s.draw(200)) - 100) + F(0.5); break;
        case 1: f = (static_cast<F>(s.draw(2000)) - 1000) / 8; break;
        case 2: f = std::nextafter(static_cast<F>(static_cast<double>(s.draw(20)) - 10) + F(0.5), s.flag() ? F(1e6) : F(-1e6)); break;
        default: f = (static_cast<F>(s.draw(1000000)) / 1000000 - F(0.5)) * 2 * limit; break;
        }
        if (std::is_unsigned_v<I>) f = std::fabs(f);
        if (std::fabs(f) > limit) f = 0;
        s.note("round ", f);
        const I got = awl::math::round<I>(f);
        // The nearest integer; of two, that which is farther from zero.
        const long double exact = f;
        const long double distance = fabsl(exact - static_cast<long double>(got));
        PBT_CHECK(distance <= 0.5L, "round(", f, ") = ", pbt::str(+got));
        if (distance == 0.5L) PBT_CHECK(fabsl(static_cast<long double>(got)) > fabsl(exact), "round(", f, ") = ", pbt::str(+got));
        if (f != std::trunc(f)) s.nontrivial();
        if (f < 0) s.label("negative");
    }

    template <class T>
    T number(pbt::Src& s)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            switch (s.draw(4))
            {
            case 0: return static_cast<T>(s.draw(6)) - 3;
            case 1: return s.flag() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
            case 2: return s.flag() ? std::numeric_limits<T>::denorm_min() : -std::numeric_limits<T>::min();
            case 3: return s.flag() ? T(0) : -T(0);
            default: return (static_cast<T>(s.draw(1000000)) - 500000) / 1000;
            }
        }
        else return s.integer<T>();
    }

    template <class T>
    void signs(pbt::Src& s)
    {
        const T v = number<T>(s);
        const int expected = v == 0 ? 0 : (v > 0 ? 1 : -1);
        PBT_CHECK(awl::math::sign(v) == expected, "sign(", +v, ") = ", awl::math::sign(v));

        T lo = number<T>(s), hi = number<T>(s);
        if (hi < lo) std::swap(lo, hi);
        s.note("sign and clamp ", +v, " to ", +lo, ", ", +hi);
        T c = v;
        awl::math::clamp(c, lo, hi);
        const T wanted = v < lo ? lo : (v > hi ? hi : v);
        PBT_CHECK(c == wanted, "clamp(", +v, ", ", +lo, ", ", +hi, ") = ", +c);
        // With the reverse order.
        c = v;
        awl::math::clamp(c, hi, lo, std::greater<>());
        PBT_CHECK(c == wanted, "reverse clamp(", +v, ", ", +hi, ", ", +lo, ") = ", +c);
        // Elements that are equal for the comparator are left alone.
        struct Item { T key; int id; };
        Item item{ v, 1 };
        awl::math::clamp(item, Item{ lo, 2 }, Item{ hi, 3 }, [](const Item& a, const Item& b) { return a.key < b.key; });
        PBT_CHECK(item.key == wanted && item.id == (v < lo ? 2 : v > hi ? 3 : 1), "clamp of ", +v, " takes item ", item.id);
        if (lo < hi && v != 0) s.nontrivial();
    }

    PBT_PROPERTY(numbers, 40000, 1000000)
    {
        switch (s.draw(11))
        {
        case 0: rounding<int, double>(s); break;
        case 1: rounding<int64_t, double>(s); break;
        case 2: rounding<int64_t, float>(s); break;
        case 3: rounding<int8_t, float>(s); break;
        case 4: rounding<uint16_t, double>(s); break;
        case 5: rounding<int64_t, long double>(s); break;
        case 6: signs<int>(s); break;
        case 7: signs<int8_t>(s); break;
        case 8: signs<uint64_t>(s); break;
        case 9: signs<double>(s); break;
        case 10: signs<float>(s); break;
        default:
        {
            const double d = (static_cast<double>(s.draw(1000000)) - 500000) / 500;
            const double r = awl::math::degrees_to_radians(d);
            PBT_CHECK(std::fabs(r * 180 - d * M_PI) <= 1e-9, d, " degrees are ", r);
            PBT_CHECK(std::fabs(awl::math::raidans_to_degrees(r) - d) <= 1e-9, d, " degrees come back as ", awl::math::raidans_to_degrees(r));
            const float f = awl::math::degrees_to_radians(static_cast<float>(d));
            PBT_CHECK(std::fabs(f - r) <= 1e-3, d, " degrees are ", f);
            PBT_CHECK(std::fabs(awl::math::pi<double>() - 2 * awl::math::half_pi<double>()) < 1e-15 && std::fabs(awl::math::half_pi<float>() - 2 * awl::math::quarter_pi<float>()) < 1e-6f, "pi");
            break;
        }
        }
    }
#endif

#if PART == 0
    // --- an element of a sorted range that has changed ---

    template <class Coll, class Compare>
    void position_of(pbt::Src& s, Compare comp)
    {
        std::vector<int> values;
        for (size_t k = 1 + s.length(10); k; --k) values.push_back(static_cast<int>(s.draw(30)));
        std::sort(values.begin(), values.end(), comp);
        values.erase(std::unique(values.begin(), values.end()), values.end());
        for (int x : values) s.note(x);
        Coll coll(values.begin(), values.end());
        const size_t i = s.below(values.size());
        const int now = static_cast<int>(s.draw(32)) - 1;
        auto iter = coll.begin();
        std::advance(iter, static_cast<std::ptrdiff_t>(i));
        *iter = now;
        s.note("element ", i, " becomes ", now);
        // Where would it be now?
        size_t before = 0, same = 0;
        for (size_t k = 0; k < values.size(); ++k) if (k != i) { if (comp(values[k], now)) ++before; else if (!comp(now, values[k])) ++same; }
        const bool expected = before != i || same != 0;
        const bool got = awl::position_changed(coll, comp, iter);
        PBT_CHECK(got == expected, "position_changed is ", got, " when element ", i, " of ", values.size(), " becomes ", now, " and ", before, " others are before it, ", same, " equal");
        if (expected) s.label("changed");
        if (values.size() > 2) s.nontrivial();
    }

    PBT_PROPERTY(positions, 20000, 500000)
    {
        switch (s.draw(3))
        {
        case 0: position_of<std::vector<int>>(s, std::less<>()); break;
        case 1: position_of<std::list<int>>(s, std::less<>()); break;
        case 2: position_of<std::deque<int>>(s, std::greater<>()); break;
        default: position_of<std::list<int>>(s, [](int a, int b) { return a < b; }); break;
        }
    }
#endif

#if PART == 1
    // --- text ---

    template <class C>
    std::basic_string<C> word(pbt::Src& s, bool high = false)
    {
        std::basic_string<C> r;
        for (size_t k = s.length(6); k; --k)
        {
            static const char few[] = "aAbBzZ[@`{_0";
            if (s.chance(2, 3)) r += static_cast<C>(few[s.below(sizeof(few) - 1)]);
            else r += static_cast<C>(1 + s.draw(high ? 254 : 126));
        }
        return r;
    }

    template <class C>
    C lower(C c) { return c >= 'A' && c <= 'Z' ? static_cast<C>(c - 'A' + 'a') : c; }

    template <class C>
    std::basic_string<C> lower(std::basic_string<C> t)
    {
        for (auto& c : t) c = lower(c);
        return t;
    }

    template <class C>
    std::basic_string<C> variation(pbt::Src& s, std::basic_string<C> t)
    {
        for (auto& c : t) if (s.flag()) c = lower(c);
        switch (s.draw(4))
        {
        case 0: if (!t.empty()) t.pop_back(); break;
        case 1: t += static_cast<C>('a'); break;
        case 2: if (!t.empty()) t[s.below(t.size())] = static_cast<C>('a' + s.draw(3)); break;
        default: break;
        }
        return t;
    }

    template <class C>
    void comparison(pbt::Src& s)
    {
        std::array<std::basic_string<C>, 3> w;
        for (size_t i = 0; i < 3; ++i) w[i] = i && s.chance(2, 3) ? variation(s, w[i - 1]) : word<C>(s);
        const awl::CStringLess<C> less{};
        const awl::CStringInsensitiveLess<C> iless{};
        const awl::StringEqual<C> equal{};
        const awl::StringInsensitiveEqual<C> iequal{};
        size_t close = 0;
        for (const auto& a : w)
            for (const auto& b : w)
            {
                std::string text;
                for (C c : a) text += pbt::str(static_cast<int>(c), " ");
                text += "| ";
                if (&b == w.data()) s.note("compare ", text);
                for (C c : b) text += pbt::str(static_cast<int>(c), " ");
                PBT_CHECK(less(a.c_str(), b.c_str()) == (a < b), "CStringLess of ", text);
                PBT_CHECK(iless(a.c_str(), b.c_str()) == (lower(a) < lower(b)), "CStringInsensitiveLess of ", text);
                PBT_CHECK(equal(a, b) == (a == b), "StringEqual of ", text);
                PBT_CHECK(iequal(a, b) == (lower(a) == lower(b)), "StringInsensitiveEqual of ", text);
                if (a != b && lower(a) == lower(b)) ++close;
                if (!a.empty() && !b.empty()) PBT_CHECK(awl::CharInsensitiveEqual<C>()(a[0], b[0]) == (lower(a[0]) == lower(b[0])), "CharInsensitiveEqual of ", text);
            }
        s.count("differing by case only", close);
        if (w[0] != w[1] && w[1] != w[2]) s.nontrivial();
    }

    void bytes_in_order(pbt::Src& s)
    {
        // Strings of any bytes are in some strict weak order.
        std::array<std::string, 3> w;
        for (size_t i = 0; i < 3; ++i) w[i] = i && s.flag() ? variation(s, w[i - 1]) : word<char>(s, true);
        const awl::CStringLess<char> less{};
        const awl::CStringInsensitiveLess<char> iless{};
        auto strict_weak = [&](auto& lt, const char* name)
        {
            for (auto& a : w)
            {
                PBT_CHECK(!lt(a.c_str(), a.c_str()), name, " is reflexive");
                for (auto& b : w)
                {
                    PBT_CHECK(!(lt(a.c_str(), b.c_str()) && lt(b.c_str(), a.c_str())), name, " is not antisymmetric");
                    for (auto& c : w)
                    {
                        PBT_CHECK(!(lt(a.c_str(), b.c_str()) && lt(b.c_str(), c.c_str())) || lt(a.c_str(), c.c_str()), name, " is not transitive");
                        auto eq = [&](auto& x, auto& y) { return !lt(x.c_str(), y.c_str()) && !lt(y.c_str(), x.c_str()); };
                        PBT_CHECK(!(eq(a, b) && eq(b, c)) || eq(a, c), name, " has no transitive equivalence");
                    }
                }
            }
        };
        strict_weak(less, "CStringLess");
        strict_weak(iless, "CStringInsensitiveLess");
        s.nontrivial();
    }

    std::string utf8(const std::vector<uint32_t>& points)
    {
        std::string r;
        for (uint32_t c : points)
        {
            if (c < 0x80) r += static_cast<char>(c);
            else if (c < 0x800) { r += static_cast<char>(0xC0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
            else if (c < 0x10000) { r += static_cast<char>(0xE0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
            else { r += static_cast<char>(0xF0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
        }
        return r;
    }

    void encoding(pbt::Src& s)
    {
        static const bool ready = std::setlocale(LC_CTYPE, "C.UTF-8") != nullptr;
        std::vector<uint32_t> points;
        for (size_t k = s.length(40); k; --k)
        {
            uint32_t c;
            switch (s.draw(3))
            {
            case 0: c = 1 + static_cast<uint32_t>(s.draw(126)); break;
            case 1: c = 0x80 + static_cast<uint32_t>(s.draw(0x77f)); break;
            case 2: c = 0x800 + static_cast<uint32_t>(s.draw(0xd7ff - 0x800)); break;
            default: c = 0x10000 + static_cast<uint32_t>(s.draw(0xfffff)); break;
            }
            if (!ready && c > 127) c = 'x';
            points.push_back(c);
        }
        const std::string narrow = utf8(points);
        const std::wstring wide(points.begin(), points.end());
        PBT_CHECK(awl::EncodeString(wide.c_str()) == narrow, "a wide string of ", wide.size(), " is encoded wrong");
        PBT_CHECK(awl::DecodeString(narrow.c_str()) == wide, "a string of ", narrow.size(), " bytes is decoded wrong");
        PBT_CHECK(awl::StringConvertor<wchar_t>::Decode(narrow.c_str()) == wide && awl::StringConvertor<char>::Encode(wide.c_str()) == narrow, "StringConvertor");
        PBT_CHECK(awl::StringConvertor<char>::Decode(narrow.c_str()) == narrow && awl::StringConvertor<wchar_t>::Encode(wide.c_str()) == wide, "StringConvertor of the same characters");
        PBT_CHECK(awl::StringConvertor<wchar_t>::EncodeToA(wide.c_str()) == narrow && awl::StringConvertor<char>::EncodeToA(narrow.c_str()) == narrow, "EncodeToA");
        PBT_CHECK(awl::ToAString(awl::FromAString(narrow)) == narrow && awl::ToAString(awl::FromWString(wide)) == narrow && awl::ToAString(awl::FromACString(narrow.c_str())) == narrow, "from a string and back");
        std::wostringstream out;
        awl::operator<<(out, narrow);
        PBT_CHECK(out.str() == wide, "a string in a wide stream");
        const awl::LogString log(wide), log2(narrow), log3(narrow.c_str()), log4(wide.c_str());
        PBT_CHECK(awl::ToAString(log.str()) == narrow && log2.str() == log.str() && log3.str() == log.str() && log4.str() == log.str(), "LogString");
        s.count("characters that are not ASCII", static_cast<uint64_t>(std::count_if(points.begin(), points.end(), [](uint32_t c) { return c > 127; })));
        if (points.size() > 1) s.nontrivial();
    }

    std::string decimal128(unsigned __int128 v)
    {
        std::string r;
        do r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); while (v /= 10);
        return r;
    }

    void wide_integers(pbt::Src& s)
    {
        using awl::operator<<;
        unsigned __int128 v = (static_cast<unsigned __int128>(s.integer<uint64_t>()) << 64) | s.integer<uint64_t>();
        switch (s.draw(3))
        {
        case 0: v >>= s.draw(127); break;
        case 1:
            v = 1;
            for (size_t k = s.draw(38); k; --k) v *= 10;
            v += s.draw(2); v -= s.draw(2);
            break;
        default: break;
        }
        const std::string expected = decimal128(v);
        s.note("print ", expected);
        {
            std::ostringstream out;
            out << v;
            PBT_CHECK(out.str() == expected, "an unsigned integer ", expected, " is written as ", out.str());
            std::wostringstream wout;
            wout << v;
            PBT_CHECK(wout.str() == std::wstring(expected.begin(), expected.end()), "an unsigned integer ", expected, " in a wide stream");
        }
        {
            const size_t width = s.draw(45);
            std::ostringstream out;
            out << std::setfill('0') << std::setw(static_cast<int>(width)) << v << "|";
            const std::string padded = (width > expected.size() ? std::string(width - expected.size(), '0') : "") + expected + "|";
            PBT_CHECK(out.str() == padded, expected, " in ", width, " characters is written as ", out.str());
        }
        const __int128 i = static_cast<__int128>(v);
        std::ostringstream out;
        out << i << "|";
        const std::string e = (i < 0 ? "-" + decimal128(-static_cast<unsigned __int128>(i)) : decimal128(v)) + "|";
        PBT_CHECK(out.str() == e, "a signed integer ", e, " is written as ", out.str());
        if (expected.size() > 19) s.nontrivial();
    }

    struct Log : awl::Logger
    {
        std::vector<std::pair<awl::LogLevel, std::string>> lines;
        void log(awl::LogLevel level, awl::LogString message) override { lines.emplace_back(level, awl::ToAString(message.str())); }
    };

    AWL_DEFINE_EXCEPTION(BaseError)
    AWL_DEFINE_DERIVED_EXCEPTION(DerivedError, BaseError)

    void formats(pbt::Src& s)
    {
        using awl::operator<<;
        std::string expected;
        awl::format f;
        awl::wformat w;
        for (size_t k = s.length(6); k; --k)
        {
            switch (s.draw(4))
            {
            case 0: { const int v = s.integer<int>(); f << v; w << v; expected += std::to_string(v); break; }
            case 1: { const std::string v = lower(word<char>(s)); f << v; w << std::wstring(v.begin(), v.end()); expected += v; break; }
            case 2: f << awl::format::endl; w << awl::wformat::endl; expected += '\n'; break;
            case 3: { const char v = static_cast<char>('a' + s.draw(25)); f << v; w << static_cast<wchar_t>(v); expected += v; break; }
            default:
            {
                std::optional<int> v;
                if (s.flag()) v = s.integer<int>();
                std::ostringstream out;
                out << v;
                PBT_CHECK(out.str() == (v ? std::to_string(*v) : "empty"), "an optional is written as ", out.str());
                f << v; w << v;
                expected += out.str();
                break;
            }
            }
        }
        PBT_CHECK(f.str() == expected && static_cast<std::string>(f) == expected, "format gives ", f.str(), ", not ", expected);
        PBT_CHECK(w.str() == std::wstring(expected.begin(), expected.end()), "wformat of ", expected);

        // Loggers.
        Log log;
        std::vector<std::pair<awl::LogLevel, std::string>> lines;
        std::ostringstream console_out;
        awl::ConsoleLogger console(console_out);
        for (size_t k = s.length(5); k; --k)
        {
            const std::string m = lower(word<char>(s)) + pbt::str(k);
            const auto level = static_cast<awl::LogLevel>(s.draw(4));
            lines.emplace_back(level, m);
            for (awl::Logger* l : { static_cast<awl::Logger*>(&log), static_cast<awl::Logger*>(&console) })
                switch (level)
                {
                case awl::LogLevel::Debug: l->debug(m); break;
                case awl::LogLevel::Trace: l->trace(m); break;
                case awl::LogLevel::Info: l->info(m); break;
                case awl::LogLevel::Warning: l->warning(m); break;
                default: l->error(m); break;
                }
        }
        PBT_CHECK(log.lines == lines, "the messages of a logger");
        std::string text = console_out.str();
        size_t at = 0;
        static const char* names[] = { "Debug", "Trace", "Info", "Warning", "Error" };
        for (const auto& [level, m] : lines)
        {
            const std::string tail = pbt::str("\t", names[static_cast<size_t>(level)], "\t", m, "\n");
            const size_t found = text.find(tail, at);
            PBT_CHECK(found != std::string::npos && text.substr(at, found - at).find('\t') == std::string::npos, "the console has not the line", tail, "but ", text.substr(at));
            at = found + tail.size();
        }
        PBT_CHECK(at == text.size(), "the console has more lines: ", text.substr(at));

        // Exceptions keep their messages.
        try
        {
            throw DerivedError(expected);
        }
        catch (const BaseError& e)
        {
            PBT_CHECK(e.What() == expected, "the message of an exception is ", e.What());
            PBT_CHECK(std::string(e.what()) == typeid(DerivedError).name() && e.GetClassName() == awl::FromACString(typeid(DerivedError).name()), "the class of an exception is ", e.what());
        }
        if (lines.size() > 1 && expected.size() > 3) s.nontrivial();
    }

    PBT_PROPERTY(text, 40000, 1000000)
    {
        switch (s.draw(5))
        {
        case 0: comparison<char>(s); break;
        case 1: comparison<wchar_t>(s); break;
        case 2: bytes_in_order(s); break;
        case 3: encoding(s); break;
        case 4: wide_integers(s); break;
        default: formats(s); break;
        }
    }
#endif

#if PART == 2
    // --- tuples ---

    struct Shape
    {
        virtual ~Shape() = default;
        virtual int64_t area() const = 0;
    };
    template <int k>
    struct Square : Shape
    {
        int64_t v;
        explicit Square(int64_t x = 0) : v(x) {}
        int64_t area() const override { return v * k; }
    };

    template <class T> struct Boxed { T value; explicit Boxed(const T& v) : value(v) {} };
    template <size_t i> struct Numbered { int64_t value; template <class T> explicit Numbered(const T& v) : value(static_cast<int64_t>(v) * 10 + static_cast<int64_t>(i)) {} };
    template <class T> struct Sized { size_t size = sizeof(T); };
    template <size_t i> struct Index { size_t index = i; };

    template <class... Ts>
    void tuple_of(pbt::Src& s)
    {
        using T = std::tuple<Ts...>;
        constexpr size_t n = sizeof...(Ts);
        T t{ static_cast<Ts>(s.draw(100))... };
        const T& c = t;
        std::array<int64_t, n> values;
        {
            size_t i = 0;
            std::apply([&](const auto&... v) { ((values[i++] = static_cast<int64_t>(v)), ...); }, c);
        }
        std::vector<int64_t> seen;
        awl::for_each(c, [&](const auto& v) { seen.push_back(static_cast<int64_t>(v)); });
        PBT_CHECK(std::equal(seen.begin(), seen.end(), values.begin(), values.end()), "for_each of ", n, " elements");
        seen.clear();
        size_t wrong = 0;
        awl::for_each_index(c, [&](const auto& v, size_t i) { wrong += i != seen.size(); seen.push_back(static_cast<int64_t>(v)); });
        PBT_CHECK(!wrong && std::equal(seen.begin(), seen.end(), values.begin(), values.end()), "for_each_index of ", n, " elements");
        // They change the elements of a tuple.
        const int64_t add = static_cast<int64_t>(s.draw(5));
        awl::for_each(t, [&](auto& v) { v = static_cast<std::decay_t<decltype(v)>>(v + add); });
        awl::for_each_index(t, [&](auto& v, size_t i) { v = static_cast<std::decay_t<decltype(v)>>(v + i); });
        for (size_t i = 0; i < n; ++i) values[i] += add + static_cast<int64_t>(i);
        const auto array = awl::tuple_to_array(c, [](const auto& v) { return static_cast<int64_t>(v); });
        const auto array2 = awl::tuple_to_array(t, [](auto& v) { return static_cast<int64_t>(v); });
        PBT_CHECK(array == values && array2 == values, "tuple_to_array of ", n, " elements");
        size_t calls = 0;
        const auto twice = awl::transform_tuple(c, [&](const auto& v) { ++calls; return static_cast<int64_t>(v) * 2; });
        const auto pointers = awl::transform_tuple(t, [&](auto& v) { ++calls; return &v; });
        PBT_CHECK(calls == 2 * n, "transform_tuple of ", n, " elements makes ", calls, " calls");
        {
            size_t i = 0;
            std::apply([&](const auto&... v) { ((wrong += v != values[i] * 2, ++i), ...); }, twice);
            i = 0;
            std::apply([&](auto*... p) { ((wrong += static_cast<int64_t>(*p) != values[i], ++i), ...); }, pointers);
            PBT_CHECK(!wrong && static_cast<const void*>(std::get<0>(pointers)) == &std::get<0>(t), "transform_tuple of ", n, " elements");
            i = 0;
            std::apply([&](const auto&... b) { ((wrong += static_cast<int64_t>(b.value) != values[i], ++i), ...); }, awl::transform_t2t<Boxed>(c));
            i = 0;
            std::apply([&](const auto&... b) { ((wrong += b.value != values[i] * 10 + static_cast<int64_t>(i), ++i), ...); }, awl::transform_t2ti<Numbered>(c));
            PBT_CHECK(!wrong, "transform_t2t of ", n, " elements");
        }
        PBT_CHECK(awl::sizeof_tuple(c) == (sizeof(Ts) + ...), "sizeof_tuple of ", n, " elements");
        // References stay references, values become values.
        int64_t x = static_cast<int64_t>(s.draw(50));
        const int64_t before = x;
        auto u = awl::make_universal_tuple(x, static_cast<int64_t>(x));
        static_assert(std::is_same_v<decltype(u), std::tuple<int64_t&, int64_t>>);
        x += 7;
        PBT_CHECK(std::get<0>(u) == x && std::get<1>(u) == before, "make_universal_tuple");
        auto similar = awl::make_similar_tuple<std::tuple<int64_t, int64_t>>(x, static_cast<int64_t>(before));
        PBT_CHECK(&std::get<0>(similar) == &x && std::get<1>(similar) == before, "make_similar_tuple");
        s.nontrivial();
    }

    PBT_PROPERTY(tuples, 10000, 200000)
    {
        switch (s.draw(3))
        {
        case 0: tuple_of<int>(s); break;
        case 1: tuple_of<int, double>(s); break;
        case 2: tuple_of<uint8_t, int64_t, float, int>(s); break;
        default: tuple_of<long, short, unsigned, double, float, int64_t, uint16_t>(s); break;
        }
        std::tuple<Square<1>, Square<2>, Square<3>> shapes{ Square<1>(static_cast<int64_t>(s.draw(9))), Square<2>(static_cast<int64_t>(s.draw(9))), Square<3>(static_cast<int64_t>(s.draw(9))) };
        const auto& const_shapes = shapes;
        const auto a = awl::tuple_cast<Shape>(shapes);
        const auto b = awl::tuple_cast<const Shape>(const_shapes);
        const Shape* expected[] = { &std::get<0>(shapes), &std::get<1>(shapes), &std::get<2>(shapes) };
        for (size_t i = 0; i < 3; ++i) PBT_CHECK(a[i] == expected[i] && b[i] == expected[i] && a[i]->area() == expected[i]->area(), "tuple_cast element ", i);
        using V = std::variant<char, int64_t, int16_t>;
        const auto sized = awl::transform_v2t<V, Sized>();
        PBT_CHECK(std::get<0>(sized).size == 1 && std::get<1>(sized).size == 8 && std::get<2>(sized).size == 2, "transform_v2t");
        const auto numbered = awl::transform_v2ti<V, Index>();
        PBT_CHECK(std::get<0>(numbered).index == 0 && std::get<1>(numbered).index == 1 && std::get<2>(numbered).index == 2, "transform_v2ti");
        static_assert(awl::find_tuple_type_v<int&, std::tuple<char, int, double>> == 1 && awl::find_variant_type_v<int16_t, V> == 2);
        static_assert(awl::map_types_t2t<std::tuple<double, char>, std::tuple<char, int, double>>() == std::array<size_t, 2>{ 2, 0 });

        // A recursive function without a name.
        const auto binomial = awl::y_combinator<uint64_t, uint64_t, uint64_t>([](auto self, uint64_t m, uint64_t k) -> uint64_t
        {
            return k == 0 || k == m ? 1 : self(m - 1, k - 1) + self(m - 1, k);
        });
        const uint64_t m = s.draw(10), k = s.draw(m);
        s.note("tuples, ", k, " of ", m);
        uint64_t c = 1;
        for (uint64_t i = 0; i < k; ++i) c = c * (m - i) / (i + 1);
        PBT_CHECK(binomial(uint64_t(m), uint64_t(k)) == c, "binomial ", m, " over ", k);
    }
#endif

#if PART == 0
    // --- getters, pointers and locks ---

    struct Item
    {
        int number;
        std::string name;
        int64_t doubled() const { return int64_t(number) * 2; }
        AWL_REFLECT(number, name)
    };

    struct CountingMutex
    {
        int locked = 0, locks = 0;
        void lock() { ++locked; ++locks; }
        void unlock() { --locked; }
    };

    PBT_PROPERTY(access, 5000, 50000)
    {
        Item item{ s.integer<int>(), std::string(s.length(12), static_cast<char>('a' + s.below(26))) };
        const auto a = awl::make_getter(&Item::number);
        const auto b = awl::make_getter(&Item::doubled);
        PBT_CHECK(&a(item) == &item.number && b(item) == item.doubled(), "make_getter");
        PBT_CHECK(&awl::getter<&Item::name>()(item) == &item.name && awl::getter<&Item::doubled>()(item) == item.doubled(), "getter");
        PBT_CHECK((&awl::tuplizable_getter<Item, 1>()(item) == &item.name && &awl::tuplizable_getter<Item, 0>()(item) == &item.number), "tuplizable_getter");
        auto lambda = [](int, const std::string&) { return 'x'; };
        using traits = awl::function_traits<decltype(lambda)>;
        static_assert(traits::arity == 2 && std::is_same_v<traits::result_type, char> && std::is_same_v<traits::arg<0>::type, int> && std::is_same_v<traits::arg<1>::type, const std::string&>);

        Item* p = s.flag() ? &item : nullptr;
        const auto shared = s.flag() ? std::make_shared<Item>(item) : nullptr;
        const auto unique = s.flag() ? std::make_unique<Item>(item) : nullptr;
        PBT_CHECK(awl::object_address(item) == &item && awl::object_address(p) == p && awl::object_address(shared) == shared.get() && awl::object_address(unique) == unique.get(), "object_address");
        static_assert(awl::is_pointer_v<Item*> && awl::is_pointer_v<std::shared_ptr<int>> && awl::is_pointer_v<std::unique_ptr<int>> && !awl::is_pointer_v<Item> && !awl::is_copyable_pointer_v<std::unique_ptr<int>>
            && awl::is_copyable_pointer_v<std::shared_ptr<int>> && std::is_same_v<awl::remove_pointer_t<std::unique_ptr<Item>>, Item> && std::is_same_v<awl::remove_pointer_t<Item* const>, Item>);

        CountingMutex m;
        awl::MutexWrapper<CountingMutex> wrapper(m);
        const bool none = s.flag();
        s.note("item ", item.number, " '", item.name, "'", p ? "" : ", null", shared ? ", shared" : "", unique ? ", unique" : "", none ? ", no mutex" : "");
        awl::OptionalMutex<awl::IMutex> optional(none ? nullptr : &wrapper);
        const size_t k = s.draw(4);
        for (size_t i = 0; i < k; ++i)
        {
            std::lock_guard lock(optional);
            PBT_CHECK(m.locked == (none ? 0 : 1), "an optional mutex locks ", m.locked);
        }
        PBT_CHECK(m.locked == 0 && m.locks == (none ? 0 : static_cast<int>(k)), "an optional mutex was locked ", m.locks, " times");
        s.nontrivial();
    }
#endif

#if PART == 3
    // --- registries ---

    struct Registered
    {
        uint64_t id;
        Tracked value;
        Registered(uint64_t i, int v) : id(i), value(v) {}
    };

    template <size_t k> struct Product { uint64_t made = 0; uint64_t arg = 0; };

    template <size_t k, uint64_t mark>
    Product<k> make_product(uint64_t arg) { return { mark, arg }; }
    template <size_t k, uint64_t mark>
    Product<k> make_plain() { return { mark, 0 }; }

    uint64_t runs = 0; // The chains are never emptied, so every case uses its own names.

    template <size_t k>
    void factories(pbt::Src& s)
    {
        using P = Product<k>;
        using With = awl::FactoryFuncPtr<P, uint64_t>;
        using Plain = awl::FactoryFuncPtr<P>;
        static const With with[] = { &make_product<k, 0>, &make_product<k, 1>, &make_product<k, 2>, &make_product<k, 3> };
        static const Plain plain[] = { &make_plain<k, 0>, &make_plain<k, 1>, &make_plain<k, 2>, &make_plain<k, 3> };
        const uint64_t run = ++runs;
        static std::deque<std::string> names; // They are referred to by the links.
        std::vector<std::pair<std::string, uint64_t>> expected[2];
        auto unused = [&](size_t kind, const std::string& name)
        {
            for (const auto& [n, v] : expected[kind]) if (n == name) return false;
            return true;
        };
        auto name = [&] { return pbt::str("r", run, "_", "abc"[s.draw(2)], s.draw(3) ? "" : "x"); };
        size_t found = 0, missing = 0;
        for (size_t ops = 1 + s.length(12); ops; --ops)
        {
            const size_t kind = s.draw(1);
            const std::string n = name();
            if (s.flag() && unused(kind, n))
            {
                const uint64_t mark = s.draw(3);
                names.push_back(n);
                if (kind) new awl::StaticLink<With>(names.back().c_str(), with[mark]);
                else new awl::StaticLink<Plain>(names.back().c_str(), plain[mark]);
                expected[kind].emplace_back(n, mark);
                continue;
            }
            const uint64_t arg = s.draw(1000);
            std::optional<P> p;
            std::string error;
            try
            {
                if (kind) p = awl::create<P>(n.c_str(), uint64_t(arg));
                else p = awl::create<P>(n.c_str());
            }
            catch (const awl::FactoryException& e)
            {
                error = e.What();
            }
            if (unused(kind, n))
            {
                ++missing;
                PBT_CHECK(!p && error.find(n) != std::string::npos, "creating by the unknown name ", n, p ? " gives an object" : " says: " + error);
            }
            else
            {
                ++found;
                uint64_t mark = 9;
                for (const auto& [x, v] : expected[kind]) if (x == n) mark = v;
                PBT_CHECK(p && p->made == mark && p->arg == (kind ? arg : 0), "creating by the name ", n, " gives ", p ? "another object" : "an error: " + error);
            }
        }
        // Every link is in the chain once, with its name.
        size_t in_chain = 0;
        for (const auto* link : awl::static_chain<With>())
        {
            const std::string n = link->name();
            if (n.rfind(pbt::str("r", run, "_"), 0) != 0) continue;
            ++in_chain;
            PBT_CHECK(!unused(1, n), "the chain has ", n);
            auto i = awl::static_chain<With>().find(n);
            PBT_CHECK(i != awl::static_chain<With>().end() && *i == link, "find(", n, ")");
        }
        PBT_CHECK(in_chain == expected[1].size(), "the chain has ", in_chain, " links, not ", expected[1].size());
        PBT_CHECK(awl::static_chain<With>().find("no such name") == awl::static_chain<With>().end(), "a link that was not made is found");
        s.count("found", found);
        s.count("missing", missing);
        if (found && missing) s.nontrivial();
    }

    PBT_PROPERTY(registries, 4000, 20000)
    {
        switch (runs % 4)
        {
        case 0: factories<0>(s); break;
        case 1: factories<1>(s); break;
        case 2: factories<2>(s); break;
        default: factories<3>(s); break;
        }
    }
#endif

#if PART == 4
    // --- errors ---

    std::string word(pbt::Src& s)
    {
        std::string w;
        for (size_t k = s.length(20); k; --k) w += static_cast<char>(s.flag() ? 'a' + s.below(26) : 32 + s.below(95));
        return w;
    }

    // The numbers that are in the text, in their order.
    std::vector<std::string> numbers_of(const std::string& text)
    {
        std::vector<std::string> r;
        bool in = false;
        for (char c : text)
        {
            const bool digit = c >= '0' && c <= '9';
            if (digit) { if (!in) r.emplace_back(); r.back() += c; }
            in = digit;
        }
        return r;
    }

    PBT_PROPERTY(errors, 20000, 300000)
    {
        const size_t a = s.flag() ? s.draw(20) : s.integer<size_t>() / 2, b = s.flag() ? s.draw(20) : s.integer<size_t>() / 2;
        const std::string name = word(s);
        const auto same = [&](const char* what, const std::vector<std::string>& got, std::vector<size_t> expected)
        {
            std::vector<std::string> e;
            for (size_t x : expected) e.push_back(std::to_string(x));
            PBT_CHECK(got == e, what, ": the numbers in the text are not ", expected.size() > 0 ? e[0] : "none", expected.size() > 1 ? " and " + e[1] : "");
        };
        // The text of an error without its name.
        const auto without = [&](const char* what, std::string text)
        {
            const auto i = text.find("'" + name + "'");
            PBT_CHECK(i != text.npos, what, ": the name '", name, "' is not in '", text, "'");
            return text.erase(i, name.size() + 2);
        };
        // It is caught as any of its bases, and says the same there.
        const auto thrown = [&](const char* what, auto thrower)
        {
            std::string texts[3];
            try { thrower(); } catch (const awl::io::IoException& e) { texts[0] = e.What(); }
            try { thrower(); } catch (const awl::Exception& e) { texts[1] = e.What(); }
            try { thrower(); } catch (const std::exception& e) { const auto* p = dynamic_cast<const awl::Exception*>(&e); PBT_CHECK(p && e.what() == p->GetClassName(), what, ": another class name"); texts[2] = p->What(); }
            PBT_CHECK(texts[0] == texts[1] && texts[1] == texts[2], what, ": the text depends on how it is caught");
            return texts[0];
        };
        using namespace awl::io;
        same("the end of a file", numbers_of(thrown("the end of a file", [&] { throw EndOfFileException(a, b); })), { a, b });
        same("a corruption with a position", numbers_of(thrown("a corruption with a position", [&] { throw CorruptionException(a); })), { a });
        same("a corruption", numbers_of(thrown("a corruption", [&] { throw CorruptionException(); })), {});
        PBT_CHECK(thrown("an error", [&] { throw IoError(name); }) == name, "the message of an error is changed");
        same("a missing field", numbers_of(without("a missing field", thrown("a missing field", [&] { throw FieldNotFoundException(name); }))), {});
        // The expected type, and the actual one.
        const std::string mismatch = thrown("another type", [&] { throw TypeMismatchException(name, a, b); });
        same("another type", numbers_of(without("another type", mismatch)), { b, a });

        // A message that is made of parts is what a stream makes of them.
        std::ostringstream out;
        awl::format f;
        std::string sample;
        for (size_t k = s.length(8); k; --k)
        {
            switch (s.draw(4))
            {
            case 0: { const auto w = word(s); f << w; out << w; break; }
            case 1: { const auto n = s.integer<int64_t>(); f << n; out << n; break; }
            case 2: { const char c = static_cast<char>('a' + s.below(26)); f << c; out << c; break; }
            case 3: { const bool x = s.flag(); f << x; out << x; break; }
            default: { const double x = static_cast<double>(s.integer<int32_t>()) / 8; f << x; out << x; break; }
            }
        }
        const std::string made = f;
        PBT_CHECK(made == out.str() && f.str() == made, "a message is '", made, "' instead of '", out.str(), "'");
        try { throw awl::GeneralException(f); } catch (const awl::Exception& e) { PBT_CHECK(e.What() == made, "the message of an exception is changed"); }
        if (a != b && !name.empty() && made.size() > 3) s.nontrivial();
    }

    // Every thread has its own engine, which gives the numbers of the standard generator.
    PBT_PROPERTY(random_engines, 400, 4000)
    {
        const size_t threads = 1 + s.draw(4), count = 1 + s.length(50);
        std::vector<std::thread> t;
        std::vector<const void*> engine(threads + 1);
        std::vector<char> good(threads + 1, 1);
        std::vector<std::vector<uint32_t>> got(threads + 1);
        std::vector<std::promise<void>> ready(threads);
        std::promise<void> go;
        auto started = go.get_future().share();
        const auto work = [&](size_t i)
        {
            engine[i] = &awl::random();
            std::mt19937 same = awl::random();
            for (size_t k = 0; k < count; ++k)
            {
                const uint32_t x = awl::random()();
                got[i].push_back(x);
                if (x != same() || &awl::random() != engine[i]) good[i] = 0;
            }
        };
        for (size_t i = 0; i < threads; ++i) t.emplace_back([&, i] { ready[i].set_value(); started.wait(); work(i); started.wait(); });
        for (auto& r : ready) r.get_future().wait();
        go.set_value();
        work(threads);
        for (auto& x : t) x.join();
        for (size_t i = 0; i <= threads; ++i)
        {
            PBT_CHECK(good[i], "the engine of a thread was used by another one");
            for (size_t j = 0; j < i; ++j) if (count >= 8) PBT_CHECK(got[i] != got[j], "two threads get the same random numbers");
        }
        if (threads > 1 && count > 8) s.nontrivial();
    }
#endif

#if PART == 4
    // --- singletons ---

    struct Refused {};

    template <size_t k> struct Single
    {
        static inline int alive = 0, made = 0;
        static inline bool refuse = false;
        int id;
        Single() : id(0)
        {
            if (std::exchange(refuse, false)) throw Refused();
            id = ++made;
            ++alive;
        }
        Single(const Single&) = delete;
        ~Single() { --alive; }
    };

    size_t next_single = 0;
    constexpr size_t singles = 256;

    // One of the types.
    struct SingleType
    {
        struct Instance { std::shared_ptr<void> p; int id; };
        Instance (*get)(bool ondemand);
        int* made;
        int* alive;
        bool* refuse;
    };
    template <size_t k> SingleType::Instance get_single(bool ondemand)
    {
        auto p = ondemand ? awl::ondemand_singleton<Single<k>>() : awl::shared_singleton<Single<k>>();
        const int id = p ? p->id : 0;
        return { std::move(p), id };
    }
    template <size_t... k> std::array<SingleType, singles> single_types(std::index_sequence<k...>)
    {
        return { SingleType{ &get_single<k>, &Single<k>::made, &Single<k>::alive, &Single<k>::refuse }... };
    }

    void singleton_of(pbt::Src& s, const SingleType& t, bool ondemand)
    {
        PBT_CHECK(*t.made == 0 && *t.alive == 0, "an instance of a singleton exists before it is asked for");
        std::vector<std::shared_ptr<void>> held;
        int expected_made = 0;
        size_t again = 0, none = 0, refused = 0;
        for (size_t ops = 1 + s.length(10); ops; --ops)
        {
            const unsigned what = static_cast<unsigned>(s.draw(3));
            if (what == 3)
            {
                // The construction fails, if there is one: nothing has happened then.
                const bool makes = held.empty() && (ondemand || expected_made == 0);
                bool thrown = false;
                *t.refuse = true;
                try { t.get(ondemand); }
                catch (const Refused&) { thrown = true; }
                *t.refuse = false;
                PBT_CHECK(thrown == makes, "the construction was ", thrown ? "" : "not ", "tried");
                PBT_CHECK(*t.made == expected_made, "instances made: ", *t.made, ", not ", expected_made);
                refused += thrown;
            }
            else if (what)
            {
                auto [p, id] = t.get(ondemand);
                if (held.empty() && (ondemand || expected_made == 0)) { ++expected_made; again += expected_made > 1; }
                const bool exists = ondemand || !held.empty() || (expected_made == 1 && *t.alive == 1);
                PBT_CHECK((p != nullptr) == exists, "a singleton ", p ? "is" : "is not", " given");
                PBT_CHECK(*t.made == expected_made, "instances made: ", *t.made, ", not ", expected_made);
                none += !p;
                if (p)
                {
                    PBT_CHECK(id == expected_made && (held.empty() || p == held.front()), "it is another instance");
                    held.push_back(std::move(p));
                }
            }
            else if (!held.empty()) held.erase(held.begin() + static_cast<std::ptrdiff_t>(s.below(held.size())));
            PBT_CHECK(*t.alive == (held.empty() ? 0 : 1), "instances alive: ", *t.alive, " with ", held.size(), " owners");
        }
        s.count("made again", again);
        s.count("not given", none);
        s.count("construction failed", refused);
        if (again || none) s.nontrivial();
    }

    PBT_PROPERTY(singletons, 240, 240)
    {
        // A singleton that has been destroyed is not made again, so every case uses its own type.
        if (next_single == singles) return;
        static const auto types = single_types(std::make_index_sequence<singles>());
        singleton_of(s, types[next_single++], s.flag());
    }
#endif
}
