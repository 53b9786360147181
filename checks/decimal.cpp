// P09 (text), P10 (arithmetic and order), P11 (scale and conversions): decimals against numbers kept as strings of decimal digits.
#include "pbt.h"
#include "Awl/Decimal.h"
#include "Awl/DecimalTime.h"
#ifdef AWL_BOOST
#include "BoostExtras/MultiprecisionDecimalData.h"
#endif

#include <algorithm>
#include <cmath>
#include <compare>
#include <stdexcept>

namespace
{
    using u128 = unsigned __int128;

    // A natural number as its decimal digits without leading zeros; zero is the empty string.
    using Nat = std::string;

    Nat trim(Nat a) { a.erase(0, std::min(a.find_first_not_of('0'), a.size())); return a; }

    Nat nat(u128 v)
    {
        Nat a;
        for (; v != 0; v /= 10) a.insert(a.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        return a;
    }

    template <class N> N num_of(const Nat& a) { N v = 0; for (char c : a) v = v * 10 + static_cast<unsigned>(c - '0'); return v; }

    int cmp(const Nat& a, const Nat& b) { return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a < b ? -1 : a == b ? 0 : 1; }

    Nat add(const Nat& a, const Nat& b)
    {
        Nat r;
        int carry = 0;
        for (size_t i = 0; i < std::max(a.size(), b.size()) || carry; ++i)
        {
            int d = carry + (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
            r.insert(r.begin(), static_cast<char>('0' + d % 10));
            carry = d / 10;
        }
        return trim(r);
    }

    Nat sub(const Nat& a, const Nat& b) // a >= b
    {
        Nat r;
        int borrow = 0;
        for (size_t i = 0; i < a.size(); ++i)
        {
            int d = a[a.size() - 1 - i] - '0' - borrow - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
            borrow = d < 0;
            r.insert(r.begin(), static_cast<char>('0' + (d + 10) % 10));
        }
        return trim(r);
    }

    Nat mul(const Nat& a, const Nat& b)
    {
        Nat r;
        for (char c : b)
        {
            if (!r.empty()) r += '0';
            for (int i = 0; i < c - '0'; ++i) r = add(r, a);
        }
        return trim(r);
    }

    Nat shift(const Nat& a, int n) { return a.empty() ? a : a + std::string(static_cast<size_t>(n), '0'); }

    // Drops n digits.
    Nat drop(const Nat& a, int n) { return a.size() <= static_cast<size_t>(n) ? Nat() : a.substr(0, a.size() - static_cast<size_t>(n)); }
    bool drops_nonzero(const Nat& a, int n)
    {
        for (size_t i = 0; i < a.size() && i < static_cast<size_t>(n); ++i) if (a[a.size() - 1 - i] != '0') return true;
        return false;
    }

    // (-1)^neg * man / 10^exp
    struct V
    {
        bool neg = false;
        Nat man;
        int exp = 0;
        V norm() const
        {
            V v = *this;
            while (v.exp > 0 && !v.man.empty() && v.man.back() == '0') { v.man.pop_back(); --v.exp; }
            if (v.man.empty()) { v.exp = 0; v.neg = false; }
            return v;
        }
        bool same(const V& o) const { V a = norm(), b = o.norm(); return a.neg == b.neg && a.man == b.man && a.exp == b.exp; }
        std::string text() const
        {
            std::string t = man.empty() ? "0" : man;
            if (t.size() <= static_cast<size_t>(exp)) t.insert(0, static_cast<size_t>(exp) + 1 - t.size(), '0');
            if (exp > 0) t.insert(t.size() - static_cast<size_t>(exp), ".");
            return (neg ? "-" : "") + t;
        }
        long double approx() const { long double r = 0; for (char c : man) r = r * 10 + (c - '0'); for (int i = 0; i < exp; ++i) r /= 10; return neg ? -r : r; }
    };

    int compare(const V& a, const V& b)
    {
        const int e = std::max(a.exp, b.exp);
        const Nat x = shift(a.man, e - a.exp), y = shift(b.man, e - b.exp);
        const bool an = a.neg && !x.empty(), bn = b.neg && !y.empty();
        if (an != bn) return an ? -1 : 1;
        const int c = cmp(x, y);
        return an ? -c : c;
    }

    V sum(const V& a, const V& b)
    {
        V r;
        r.exp = std::max(a.exp, b.exp);
        const Nat x = shift(a.man, r.exp - a.exp), y = shift(b.man, r.exp - b.exp);
        if (a.neg == b.neg) { r.man = add(x, y); r.neg = a.neg; }
        else if (cmp(x, y) >= 0) { r.man = sub(x, y); r.neg = a.neg; }
        else { r.man = sub(y, x); r.neg = b.neg; }
        return r;
    }

    template <class D> struct Info;
    template <class U, uint8_t L> struct Info<awl::decimal<U, L>>
    {
        using Num = u128;
        static constexpr int bits = sizeof(U) * 8;
        static Nat max_man() { return nat((u128(1) << (bits - 1 - L)) - 1); }
        static Nat power_of_two(unsigned n) { return nat(u128(1) << n); }
        // The digits the exponent field can count, among those for which ten to that power exists in the integer.
        static int max_exp()
        {
            const int digits = bits == 32 ? 9 : bits == 64 ? 19 : 38;
            return std::min((1 << L) - 1, digits);
        }
    };

#ifdef AWL_BOOST
    namespace bmp = boost::multiprecision;
    template <uint8_t L> using Wide = awl::decimal<bmp::uint128_t, L, awl::MultiprecisionDecimalData>;
    template <uint8_t L> struct Info<Wide<L>> : Info<awl::decimal<__uint128_t, L>> {};
    template <uint8_t L> using Wider = awl::decimal<bmp::uint256_t, L, awl::MultiprecisionDecimalData>;
    template <uint8_t L> using Widest = awl::decimal<bmp::uint512_t, L, awl::MultiprecisionDecimalData>;
    Nat nat(const bmp::uint128_t& v) { return trim(v.str()); }
    Nat nat(const bmp::uint256_t& v) { return trim(v.str()); }
    Nat nat(const bmp::uint512_t& v) { return trim(v.str()); }
    template <class U, int b, int digits, uint8_t L> struct WideInfo
    {
        using Num = U;
        static constexpr int bits = b;
        static Nat power_of_two(unsigned n) { return nat(U(U(1) << n)); }
        static Nat max_man() { return sub(power_of_two(bits - 1 - L), "1"); }
        static int max_exp() { return std::min((1 << L) - 1, digits); }
    };
    template <uint8_t L> struct Info<Wider<L>> : WideInfo<bmp::uint256_t, 256, 77, L> {};
    template <uint8_t L> struct Info<Widest<L>> : WideInfo<bmp::uint512_t, 512, 154, L> {};
#endif

    template <class D>
    struct T
    {
        pbt::Src& s;
        using I = Info<D>;
        using Num = typename I::Num;
        static Num num(const Nat& a) { return num_of<Num>(a); }
        using Int = typename D::Int;

        const Nat max_man = I::max_man();
        const int max_exp = I::max_exp();

        bool fits(const Nat& m) const { return cmp(m, max_man) <= 0; }

        V val(const D& d) const { return V{ d.negative(), nat(d.unsigned_mantissa()), d.exponent() }; }

        D make(const V& v) const
        {
            const Int m = static_cast<Int>(num(v.man));
            D d(v.neg ? static_cast<Int>(-m) : m, static_cast<uint8_t>(v.exp));
            if (v.neg && v.man.empty()) d.negate();
            return d;
        }

        Nat draw_nat(size_t digits)
        {
            Nat a;
            const unsigned style = static_cast<unsigned>(s.below(4));
            for (size_t i = 0; i < digits; ++i)
            {
                a += static_cast<char>('0' + (style == 0 ? s.draw(9) : style == 1 ? 9 : style == 2 ? (i == 0 ? 1 : 0) : s.chance(1, 3) ? s.draw(9) : 0));
            }
            return trim(a);
        }

        Nat draw_man()
        {
            Nat a;
            switch (s.below(5))
            {
            case 0: a = nat(s.draw(120)); break;
            case 1: a = draw_nat(1 + s.below(max_man.size())); break;
            case 2: a = sub(max_man, nat(s.draw(20))); break;
            case 3: a = I::power_of_two(static_cast<unsigned>(s.below(I::bits - 1))); if (s.flag()) a = sub(a, "1"); break;
            default: a = draw_nat(max_man.size()); break;
            }
            while (!fits(a)) a = drop(a, 1);
            return a;
        }

        V draw_val()
        {
            V v;
            v.man = draw_man();
            v.exp = s.flag() ? static_cast<int>(s.draw(static_cast<uint64_t>(max_exp))) : std::min(max_exp, static_cast<int>(s.draw(4)));
            v.neg = s.flag();
            return v;
        }

        // Something near v.
        V draw_near(const V& v)
        {
            V w = v;
            switch (s.below(5))
            {
            case 0: return draw_val();
            case 1: w.neg = !w.neg; break;
            case 2: // the same value at another scale
            {
                const int e = static_cast<int>(s.draw(static_cast<uint64_t>(max_exp)));
                if (e >= w.exp) { Nat m = shift(w.man, e - w.exp); if (fits(m)) { w.man = m; w.exp = e; } }
                else if (!drops_nonzero(w.man, w.exp - e)) { w.man = drop(w.man, w.exp - e); w.exp = e; }
                break;
            }
            case 3: // almost the same value
            {
                V u = draw_near(v);
                if (s.flag()) { Nat m = add(u.man, "1"); if (fits(m)) u.man = m; }
                else if (!u.man.empty()) u.man = sub(u.man, "1");
                return u;
            }
            default: w.exp = static_cast<int>(s.draw(static_cast<uint64_t>(max_exp))); break;
            }
            return w;
        }

        // Returns whether it was made; a refusal must be a logic_error.
        template <class F> bool attempt(F f)
        {
            try { f(); return true; }
            catch (const std::logic_error&) { return false; }
        }

        template <class C> static std::basic_string<C> widen(const std::string& t) { return std::basic_string<C>(t.begin(), t.end()); }

        // ---- P09 ----

        template <class C>
        void parse(const std::string& text)
        {
            // The grammar.
            size_t i = 0;
            V v;
            bool ok = true, digits = false;
            if (i < text.size() && (text[i] == '+' || text[i] == '-')) { v.neg = text[i] == '-'; ++i; }
            bool point = false;
            for (; i < text.size(); ++i)
            {
                if (text[i] == '.' && !point) point = true;
                else if (text[i] >= '0' && text[i] <= '9') { v.man += text[i]; digits = true; if (point) ++v.exp; }
                else ok = false;
            }
            while (v.exp > 0 && v.man.back() == '0') { v.man.pop_back(); --v.exp; }
            v.man = trim(v.man);
            std::basic_string<C> t = widen<C>(text);
            if (!t.empty() && s.chance(1, 8))
            {
                // A character that differs from a right one in its upper bits only.
                const size_t pos = s.draw(t.size() - 1);
                const unsigned bit = sizeof(C) == 1 ? 7 : 8 + static_cast<unsigned>(s.draw(12));
                t[pos] = static_cast<C>(static_cast<std::make_unsigned_t<C>>(t[pos]) | (1u << bit));
                ok = false;
                s.note("bit ", bit, " of character ", pos, " is set");
                s.label("a character like a digit");
            }
            // The exact size, so that reading past the end is seen.
            std::vector<C> exact(t.begin(), t.end());
            D d;
            const bool made = attempt([&] { d = s.flag() ? D(std::basic_string_view<C>(exact.data(), exact.size())) : D::from_string(std::basic_string_view<C>(exact.data(), exact.size())); });
            s.note("parsing '", text, "' ", made ? "made " + val(d).text() : "refused");
            if (!ok) { PBT_CHECK(!made, "a wrong text was accepted: '", text, "'"); s.label("wrong text"); return; }
            if (!digits) { if (made) PBT_CHECK(val(d).man.empty(), "no digits"); s.label("no digits"); return; }
            const bool expected = v.exp <= max_exp && fits(v.man);
            PBT_CHECK(made == expected, "'", text, "' was ", made ? "accepted" : "refused");
            if (!made) { s.label("does not fit"); return; }
            PBT_CHECK(val(d).same(v), "'", text, "' was parsed as ", val(d).text());
            PBT_CHECK(d.exponent() == (v.man.empty() ? 0 : v.exp), "not normalized: exponent ", int(d.exponent()));
            if (v.man.empty()) { s.label("zero"); return; }
            s.nontrivial();
            check_text(d, v);
            s.label("parsed");
        }

        void check_text(const D& d, const V& v)
        {
            const std::string text = v.text();
            PBT_CHECK(d.to_astring() == text, "printed as ", d.to_astring(), " instead of ", text);
            PBT_CHECK(d.to_wstring() == widen<wchar_t>(text), "printed wide, instead of ", text);
            PBT_CHECK(d.template to_basic_string<char>() == text && d.to_string() == widen<awl::Char>(text), "to_string");
            std::ostringstream a;
            a << d;
            PBT_CHECK(a.str() == text, "streamed as ", a.str());
        }

        void text()
        {
            PBT_CHECK(nat(D::max_mantissa()) == max_man, "max_mantissa()");
            PBT_CHECK(D::max_exponent() == max_exp, "max_exponent() ", int(D::max_exponent()));
            for (int k = 0; k < 4; ++k)
            {
                // A value, printed and parsed.
                V v = draw_val();
                if (v.man.empty()) v.neg = false;
                const D d = make(v);
                PBT_CHECK(val(d).man == v.man && val(d).exp == v.exp && val(d).neg == v.neg, "the parts of ", v.text(), " are ", val(d).text());
                check_text(d, v);
                const std::string t = v.text();
                D back = D::from_string(std::string_view(t));
                PBT_CHECK(val(back).same(v) && back == d, t, " parsed as ", val(back).text());
                D bits = D::from_bits(d.to_bits());
                PBT_CHECK(val(bits).man == v.man && val(bits).exp == v.exp && val(bits).neg == v.neg, "to_bits and from_bits of ", t);

                // A text.
                std::string text = s.pick<const char*>({ "", "-", "+" });
                if (s.chance(1, 4)) text += std::string(s.flag() ? s.draw(3) : s.draw(600), '0');
                switch (s.below(4))
                {
                case 0: text += draw_nat(s.draw(max_man.size() + 2)); break;
                case 1: text += draw_man(); break;
                case 2: text += add(max_man, nat(s.draw(10))); break;
                default: text += s.flag() ? "0" : ""; break;
                }
                if (s.chance(1, 2))
                {
                    // Move some digits behind the point.
                    size_t digits = std::min(text.size() - text.find_first_not_of("+-", 0) > text.size() ? 0 : text.size() - text.find_first_not_of("+-", 0), s.below(24));
                    text.insert(text.size() - digits, ".");
                }
                else if (s.chance(2, 3))
                {
                    text += ".";
                    if (s.chance(1, 3)) text += std::string(s.flag() ? s.draw(20) : s.draw(600), '0');
                    text += draw_nat(s.draw(static_cast<uint64_t>(max_exp + 2)));
                }
                if (s.chance(1, 4) && text.find('.') != std::string::npos) text += std::string(s.flag() ? s.draw(20) : s.draw(600), '0');
                if (s.chance(1, 8)) text.insert(text.begin() + static_cast<std::ptrdiff_t>(s.draw(text.size())), s.pick<char>({ '.', '-', '+', ' ', ',', 'e', '/', ':', '\0' }));
                if (s.flag()) parse<char>(text); else parse<wchar_t>(text);
            }
        }

        // ---- P10 ----

        void check_sum(const D& d, bool made, const V& a, const V& b, const char* op)
        {
            const V r = sum(a, b);
            const bool must = fits(shift(a.man, r.exp - a.exp)) && fits(shift(b.man, r.exp - b.exp)) && fits(r.man);
            if (must) PBT_CHECK(made, a.text(), op, b.text(), " was refused");
            if (!made) { s.label("sum overflows"); return; }
            PBT_CHECK(val(d).same(r), a.text(), op, b.text(), " made ", val(d).text(), " instead of ", r.text());
        }

        void arithmetic()
        {
            for (int k = 0; k < 4; ++k)
            {
                const V a = draw_val(), b = draw_near(a);
                const D x = make(a), y = make(b);
                s.note("a = ", a.text(), ", b = ", b.text());
                V nb = b;
                nb.neg = !nb.neg;
                D r;
                bool made = attempt([&] { r = x + y; });
                check_sum(r, made, a, b, " + ");
                made = attempt([&] { r = x - y; });
                check_sum(r, made, a, nb, " - ");
                r = x;
                made = attempt([&] { r += y; });
                check_sum(r, made, a, b, " += ");
                if (!made) PBT_CHECK(val(r).same(a), "a refused += changed the value");
                r = x;
                made = attempt([&] { r -= y; });
                check_sum(r, made, a, nb, " -= ");
                if (!made) PBT_CHECK(val(r).same(a), "a refused -= changed the value");
                r = x;
                made = attempt([&] { r += r; });
                check_sum(r, made, a, a, " += itself, ");
                r = y;
                made = attempt([&] { r -= r; });
                check_sum(r, made, b, nb, " -= itself, ");
                PBT_CHECK(val(-y).same(nb), "-", b.text(), " made ", val(-y).text());

                V p;
                p.man = mul(a.man, b.man);
                p.exp = a.exp + b.exp;
                p.neg = a.neg != b.neg;
                const bool must = p.exp <= max_exp && fits(p.man);
                made = attempt([&] { r = awl::multiply(x, y); });
                if (must) PBT_CHECK(made, a.text(), " * ", b.text(), " was refused");
                if (made) PBT_CHECK(val(r).same(p), a.text(), " * ", b.text(), " made ", val(r).text(), " instead of ", p.text());
                else s.label("product overflows");

                const int c = compare(a, b);
                PBT_CHECK((x == y) == (c == 0), a.text(), " == ", b.text());
                PBT_CHECK((x != y) == (c != 0), a.text(), " != ", b.text());
                PBT_CHECK((x < y) == (c < 0), a.text(), " < ", b.text());
                PBT_CHECK((x > y) == (c > 0), a.text(), " > ", b.text());
                PBT_CHECK((x <= y) == (c <= 0), a.text(), " <= ", b.text());
                PBT_CHECK((x >= y) == (c >= 0), a.text(), " >= ", b.text());
                PBT_CHECK(x == x && x <= x && x >= x && !(x < x) && !(x > x) && !(x != x), "a number and itself");
                PBT_CHECK(std::numeric_limits<D>::min() <= x && x <= std::numeric_limits<D>::max(), "limits");
                s.label(c == 0 ? (a.exp != b.exp ? "equal at different scales" : "equal") : c < 0 ? "less" : "greater");
                if (a.exp != b.exp && !a.man.empty() && !b.man.empty()) s.nontrivial();
            }
            // A chain.
            V total;
            D acc;
            for (size_t i = s.length(20); i-- > 0;)
            {
                const V a = draw_val();
                const V t = sum(total, a);
                D next;
                if (!attempt([&] { next = acc + make(a); })) continue;
                acc = next;
                total = t;
                PBT_CHECK(val(acc).same(total), "after adding ", a.text(), " there is ", val(acc).text(), " instead of ", total.text());
                s.count("links of chains");
            }
        }

        // Too many digits given to a constructor.
        void too_many_digits()
        {
            const int digits = static_cast<int>(s.range(max_exp + 1, 255));
            const V v{ false, draw_man(), digits };
            D d;
            if (!attempt([&] { d = D(static_cast<Int>(num(v.man)), static_cast<uint8_t>(digits)); })) return;
            if (val(d).same(v)) return;
            s.known("KF-P10-digits-over-max", pbt::str("a decimal made of ", v.man, " and ", digits, " digits is ", val(d).text()));
        }

        // ---- P11 ----

        template <class F>
        void check_float(const V& v, const D& d)
        {
            const long double exact = v.approx();
            const F got = d.template cast<F>();
            const long double eps = 2 * static_cast<long double>(std::numeric_limits<F>::epsilon()) + 4e-16L;
            PBT_CHECK(std::fabs(static_cast<long double>(got) - exact) <= std::fabs(exact) * eps, v.text(), " was cast to ", got);
        }

        template <class N>
        void check_int_cast(const V& v, const D& d)
        {
            const Nat i = drop(v.man, v.exp);
            const bool neg = v.neg && !i.empty();
            if (i.size() > 30) return;
            u128 m = num_of<u128>(i);
            if (neg ? (std::is_unsigned_v<N> || m > u128(std::numeric_limits<N>::max()) + 1) : m > u128(std::numeric_limits<N>::max())) return; // does not fit
            const N expected = static_cast<N>(neg ? u128(0) - m : m);
            const N got = d.template cast<N>();
            PBT_CHECK(got == expected, v.text(), " was cast to the integer ", +got);
            s.label("cast to an integer");
        }

        // x: the real value of the mantissa; lo <= man - x <= hi is required up to the precision of a double.
        template <class F>
        void check_made(const char* what, long double val_x, uint8_t digits, double lo, double hi, F f)
        {
            D d;
            const bool made = attempt([&] { d = f(); });
            long double x = val_x;
            for (int i = 0; i < digits; ++i) x *= 10;
            const long double slack = std::fabs(x) * 4e-16L;
            const long double max = static_cast<long double>(num(max_man));
            if (made)
            {
                const V v = val(d);
                PBT_CHECK(v.exp == digits, what, " made ", v.exp, " digits");
                const long double m = (v.neg ? -1 : 1) * static_cast<long double>(num(v.man));
                PBT_CHECK(m - x >= lo - slack && m - x <= hi + slack, what, " of ", static_cast<double>(val_x), " with ", int(digits), " digits made ", v.text());
                s.label("made from a float");
            }
            else
            {
                PBT_CHECK(!(std::fabs(x) + 1 + slack < max), what, " of ", static_cast<double>(val_x), " with ", int(digits), " digits was refused");
                s.label("float refused");
            }
            if (std::fabs(x) - 2 - slack > max) PBT_CHECK(!made, what, " of ", static_cast<double>(val_x), " was accepted: ", val(d).text());
        }

        template <class N>
        void check_make_int()
        {
            const N n = s.integer<N>();
            const int digits = static_cast<int>(s.draw(static_cast<uint64_t>(max_exp)));
            V v;
            v.neg = n < 0;
            v.man = shift(nat(v.neg ? u128(0) - u128(n) : u128(n)), digits);
            v.exp = digits;
            const bool expected = fits(v.man);
            D d;
            for (int how = 0; how < 6; ++how)
            {
                const uint8_t g = static_cast<uint8_t>(digits);
                const bool made = attempt([&]
                {
                    d = how == 0 ? D::make_decimal(n, g) : how == 1 ? D::make_rounded(n, g) : how == 2 ? D::make_ceiled(n, g) : how == 3 ? D::make_floored(n, g) : D::make_truncated(n, g);
                    if (how == 5) { D e(g); e = n; d = e; }
                });
                PBT_CHECK(made == expected, "an integer ", +n, " with ", digits, " digits was ", made ? "accepted" : "refused");
                if (made) PBT_CHECK(val(d).same(v) && d.exponent() == digits, "an integer ", +n, " with ", digits, " digits made ", val(d).text());
            }
            s.label(expected ? "made from an integer" : "integer refused");
        }

        void scale()
        {
            for (int k = 0; k < 3; ++k)
            {
                V v = draw_val();
                D d = make(v);
                const int g = static_cast<int>(s.chance(1, 8) ? s.draw(255) : s.draw(static_cast<uint64_t>(max_exp)));
                const uint8_t digits = static_cast<uint8_t>(g);
                s.note(v.text(), " and ", g, " digits");
                const int up = g - v.exp;
                D r;

                // rescale, with and without the check
                for (int check = 0; check < 2; ++check)
                {
                    const bool made = attempt([&] { r = check ? (s.flag() ? d.rescale(digits) : d.rescale(digits, true)) : d.rescale(digits, false); });
                    const bool expected = up <= 0 ? !check || !drops_nonzero(v.man, -up) : g <= max_exp && fits(shift(v.man, up));
                    PBT_CHECK(made == expected, "rescaling ", v.text(), " to ", g, " digits was ", made ? "done" : "refused");
                    if (!made) { s.label("rescale refused"); continue; }
                    V e = v;
                    e.man = up >= 0 ? shift(v.man, up) : drop(v.man, -up);
                    e.exp = g;
                    PBT_CHECK(val(r).man == e.man && val(r).exp == g && (e.man.empty() || val(r).neg == e.neg), "rescaling ", v.text(), " to ", g, " digits made ", val(r).text());
                    s.label(up > 0 ? "extended" : "trimmed");
                    if (up != 0) s.nontrivial();
                }
                {
                    Int m{};
                    const bool made = attempt([&] { m = d.rescaled_mantissa(digits); });
                    const bool expected = up <= 0 ? !drops_nonzero(v.man, -up) : g <= max_exp && fits(shift(v.man, up));
                    PBT_CHECK(made == expected, "rescaled_mantissa");
                    if (made)
                    {
                        const Nat e = up >= 0 ? shift(v.man, up) : drop(v.man, -up);
                        PBT_CHECK(m == (v.neg ? -static_cast<Int>(num(e)) : static_cast<Int>(num(e))), "rescaled_mantissa of ", v.text(), " to ", g, " digits");
                    }
                }
                {
                    const bool made = attempt([&] { r = d.extend(digits); });
                    PBT_CHECK(made == (up <= 0 || (g <= max_exp && fits(shift(v.man, up)))), "extending ", v.text(), " to ", g, " digits was ", made ? "done" : "refused");
                    if (made) PBT_CHECK(val(r).same(v) && r.exponent() == std::max(g, v.exp), "extending ", v.text(), " to ", g, " digits made ", val(r).text());
                }
                {
                    V e = v;
                    if (up < 0) { e.man = drop(v.man, -up); e.exp = g; }
                    PBT_CHECK(val(d.truncate(digits)).same(e), "truncating ", v.text(), " to ", g, " digits made ", val(d.truncate(digits)).text());
                    PBT_CHECK(d.truncate(digits).exponent() == e.exp, "exponent after truncate");
                    if (!v.neg)
                    {
                        PBT_CHECK(val(d.floor(digits)).same(e), "floor of ", v.text(), " to ", g, " digits made ", val(d.floor(digits)).text());
                        if (up < 0 && drops_nonzero(v.man, -up)) { e.man = add(e.man, "1"); s.label("ceiled up"); }
                        PBT_CHECK(val(d.ceil(digits)).same(e), "ceil of ", v.text(), " to ", g, " digits made ", val(d.ceil(digits)).text());
                    }
                }
                {
                    const D n = d.normalize();
                    PBT_CHECK(val(n).same(v) && n.exponent() == v.norm().exp && n == d, "normalizing ", v.text(), " made ", val(n).text());
                }

                // casts
                check_float<double>(v, d);
                if (v.man.size() <= 38 && v.exp <= 30) check_float<float>(v, d); // Others do not fit into a normal float.
                check_float<long double>(v, d);
                const double conv = d;
                PBT_CHECK(conv == d.template cast<double>(), "the conversion to double");
                check_int_cast<int8_t>(v, d);
                check_int_cast<uint8_t>(v, d);
                check_int_cast<int>(v, d);
                check_int_cast<uint32_t>(v, d);
                check_int_cast<int64_t>(v, d);
                check_int_cast<uint64_t>(v, d);

                check_make_int<int>();
                check_make_int<int64_t>();
                check_make_int<uint64_t>();
                check_make_int<uint8_t>();
                check_make_int<int16_t>();

                // floats
                double f;
                switch (s.below(6))
                {
                case 0: f = static_cast<double>(static_cast<int64_t>(s.draw(2000)) - 1000) / 8; break;
                case 1: f = conv; break;
                case 2: f = std::ldexp(static_cast<double>(s.wide(53)), -static_cast<int>(s.draw(100))); break;
                case 3: f = std::ldexp(1.0, static_cast<int>(s.draw(140))) - static_cast<double>(s.draw(1)); break;
                case 4: f = s.pick<double>({ 0.0, -0.0, 1e300, -1e300, 1e19, 1.5e-300, HUGE_VAL, -HUGE_VAL, std::nan(""), 0.1, 1e15 }); break;
                default: f = static_cast<double>(s.wide(64)); break;
                }
                if (s.flag()) f = -f;
                const uint8_t fd = static_cast<uint8_t>(s.draw(static_cast<uint64_t>(max_exp)));
                s.note("float ", f, " with ", int(fd), " digits");
                if (!std::isfinite(f))
                {
                    PBT_CHECK(!attempt([&] { r = D::make_decimal(f, fd); }) && !attempt([&] { r = D::make_rounded(f, fd); }) &&
                        !attempt([&] { r = D::make_ceiled(f, fd); }) && !attempt([&] { r = D::make_floored(f, fd); }), "a decimal was made of ", f);
                    s.label("not a number");
                }
                else
                {
                    check_made("make_rounded", f, fd, -0.5, 0.5, [&] { return D::make_rounded(f, fd); });
                    check_made("make_ceiled", f, fd, 0, 1, [&] { return D::make_ceiled(f, fd); });
                    check_made("make_floored", f, fd, -1, 0, [&] { return D::make_floored(f, fd); });
                    check_made("make_truncated", f, fd, f >= 0 ? -1 : 0, f >= 0 ? 0 : 1, [&] { return D::make_truncated(f, fd); });
                    check_made("make_decimal", f, fd, f >= 0 ? -1 : 0, f >= 0 ? 0 : 1, [&] { return D::make_decimal(f, fd); });
                    check_made("operator =", f, fd, f >= 0 ? -1 : 0, f >= 0 ? 0 : 1, [&] { D e(fd); e = f; return e; });
                    const float ff = static_cast<float>(f);
                    if (std::isfinite(ff)) check_made("make_rounded of a float", ff, fd, -0.5, 0.5, [&] { return D::make_rounded(ff, fd); });

                    // arithmetic through double
                    if (std::fabs(f) < 1e30)
                    {
                        const long double p = static_cast<long double>(conv) * f;
                        PBT_CHECK(std::fabs((d * f) - p) <= std::fabs(p) * 1e-15L + 1e-300L, v.text(), " * ", f, " is ", d * f);
                        if (f != 0 && std::fabs(f) > 1e-100) PBT_CHECK(std::fabs((d / f) - static_cast<long double>(conv) / f) <= std::fabs(conv / f) * 1e-15, v.text(), " / ", f, " is ", d / f);
                        check_made("*=", p, static_cast<uint8_t>(v.exp), -1, 1, [&] { D e = d; e *= f; return e; });
                        if (std::fabs(f) * std::pow(10.0L, v.exp) < 0.999L * static_cast<long double>(num(max_man))) check_made("+=", v.approx() + f, static_cast<uint8_t>(v.exp), -1 - std::fabs(f) * std::pow(10.0, v.exp) * 1e-15, 1 + std::fabs(f) * std::pow(10.0, v.exp) * 1e-15, [&] { D e = d; e += f; return e; });
                        if (std::fabs(f) * std::pow(10.0L, v.exp) < 0.999L * static_cast<long double>(num(max_man))) check_made("-", v.approx() - f, static_cast<uint8_t>(v.exp), -1 - std::fabs(f) * std::pow(10.0, v.exp) * 1e-15, 1 + std::fabs(f) * std::pow(10.0, v.exp) * 1e-15, [&] { return d - f; });
                    }
                }

                // time
                if (max_exp >= 9)
                {
                    const Nat ns = v.exp >= 9 ? drop(v.man, v.exp - 9) : shift(v.man, 9 - v.exp);
                    if (fits(ns) && ns.size() <= 18)
                    {
                        const int64_t expected = static_cast<int64_t>(num_of<u128>(ns)) * (v.neg ? -1 : 1);
                        PBT_CHECK(awl::decimal_to_nanoseconds(d).count() == expected, v.text(), " seconds are ", awl::decimal_to_nanoseconds(d).count(), " ns");
                        s.label("nanoseconds");
                    }
                }
            }
        }
    };

    template <class F> void with_type(pbt::Src& s, F f)
    {
#ifdef AWL_BOOST
        switch (s.below(9))
        {
        case 7: f(T<Widest<5>>{ s }); break;
        case 8: f(T<Widest<7>>{ s }); break;
        case 4: f(T<Wider<5>>{ s }); break;
        case 5: f(T<Wider<6>>{ s }); break;
        case 6: f(T<Wider<7>>{ s }); break;
        case 0: f(T<Wide<4>>{ s }); break;
        case 1: f(T<Wide<5>>{ s }); break;
        case 2: f(T<Wide<6>>{ s }); break;
        default: f(T<Wide<3>>{ s }); break;
        }
#else
        switch (s.below(8))
        {
        case 0: f(T<awl::decimal<uint64_t, 4>>{ s }); break;
        case 1: f(T<awl::decimal<__uint128_t, 4>>{ s }); break;
        case 2: f(T<awl::decimal<uint64_t, 5>>{ s }); break;
        case 3: f(T<awl::decimal<uint64_t, 6>>{ s }); break;
        case 4: f(T<awl::decimal<__uint128_t, 5>>{ s }); break;
        case 5: f(T<awl::decimal<__uint128_t, 6>>{ s }); break;
        case 6: f(T<awl::decimal<uint32_t, 3>>{ s }); break;
        default: f(T<awl::decimal<uint64_t, 3>>{ s }); break;
        }
#endif
    }
}

#if PART == 1
PBT_PROPERTY(decimal_text, 48000, 800000) { with_type(s, [](auto t) { t.text(); }); }

PBT_PROPERTY(wide_integers, 16000, 400000)
{
    u128 v = (u128(s.integer<uint64_t>()) << 64) | s.integer<uint64_t>();
    if (s.flag()) v >>= s.draw(127);
    if (s.chance(1, 8)) v = 0;
    const Nat text = v == 0 ? "0" : nat(v);
    const int w = s.flag() ? 0 : static_cast<int>(s.draw(45));
    const char fill = s.pick<char>({ ' ', '0', '*' });
    const std::string padded = text.size() >= static_cast<size_t>(w) ? text : std::string(static_cast<size_t>(w) - text.size(), fill) + text;
    s.note(text, " in a field of ", w);
    // These operators live in the namespace of the library.
    std::ostringstream out;
    out << std::setfill(fill) << std::setw(w);
    awl::operator<<(out, static_cast<__uint128_t>(v));
    PBT_CHECK(out.str() == padded, "printed ", out.str(), " instead of ", padded);
    std::wostringstream wout;
    wout << std::setfill(static_cast<wchar_t>(fill)) << std::setw(w);
    awl::operator<<(wout, static_cast<__uint128_t>(v));
    PBT_CHECK(wout.str() == std::wstring(padded.begin(), padded.end()), "wide");
    const __int128 i = static_cast<__int128>(v);
    std::ostringstream iout;
    awl::operator<<(iout, static_cast<__int128_t>(i));
    const std::string itext = i == 0 ? "0" : i < 0 ? "-" + nat(u128(0) - v) : nat(v);
    PBT_CHECK(iout.str() == itext, "printed ", iout.str(), " instead of ", itext);
    if (text.size() > 19) s.nontrivial();
}
#elif PART == 2
PBT_PROPERTY(decimal_arithmetic, 20000, 700000) { with_type(s, [](auto t) { t.arithmetic(); }); }
PBT_PROPERTY(decimal_too_many_digits, 2000, 20000) { with_type(s, [](auto t) { t.too_many_digits(); }); s.nontrivial(); }
#else
PBT_PROPERTY(decimal_scale, 24000, 700000) { with_type(s, [](auto t) { t.scale(); }); }
#endif
