// P33: integers of boost::multiprecision and the parts of decimals over them.
#include "pbt.h"
#include "Awl/Io/IoException.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Decimal.h"
#include "BoostExtras/MultiprecisionDecimalData.h"
#include "BoostExtras/Io/Rw/MultiprecisionReadWrite.h"
#include "BoostExtras/Io/MultiprecisionTypeName.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/VersionTolerantSerializable.h"

#include <map>
#include <optional>
#include <vector>

namespace
{
    namespace bmp = boost::multiprecision;
    using Bytes = std::vector<uint8_t>;

    template <class N> constexpr int bits_of = std::numeric_limits<N>::digits;

    // The value as a sign and big-endian bytes without leading zeros.
    struct V
    {
        bool neg = false;
        Bytes mag;
        template <class N> N make() const
        {
            N n = 0;
            for (uint8_t b : mag) { n <<= 8; n |= b; }
            if constexpr (std::numeric_limits<N>::is_signed) { if (neg) n = -n; }
            return n;
        }
        bool operator==(const V&) const = default;
    };

    template <class N> V value(N n)
    {
        V v;
        v.neg = n < 0;
        if constexpr (std::numeric_limits<N>::is_signed) { if (v.neg) n = -n; }
        for (; n != 0; n >>= 8) v.mag.insert(v.mag.begin(), static_cast<uint8_t>(static_cast<unsigned>(n & 0xFF)));
        return v;
    }

    V draw(pbt::Src& s, int bits, bool sign)
    {
        V v;
        const int n = static_cast<int>(s.chance(1, 3) ? static_cast<uint64_t>(bits) - s.draw(std::min<uint64_t>(9, static_cast<uint64_t>(bits))) : s.draw(static_cast<uint64_t>(bits))); // the number of significant bits
        if (n > 0)
        {
            v.mag.resize(static_cast<size_t>((n + 7) / 8));
            const unsigned style = static_cast<unsigned>(s.below(4));
            for (uint8_t& b : v.mag) b = static_cast<uint8_t>(style == 0 ? s.draw(255) : style == 1 ? 0xFF : style == 2 ? 0 : s.chance(1, 4) ? s.draw(255) : 0);
            const int top = (n - 1) % 8;
            v.mag[0] = static_cast<uint8_t>((v.mag[0] & ((1 << top) - 1)) | (1 << top));
            v.neg = sign && s.flag();
        }
        return v;
    }

    template <class T> Bytes write(const T& t)
    {
        Bytes out;
        awl::io::VectorOutputStream stream(out);
        awl::io::Write(stream, t);
        return out;
    }

    template <class N> void check_number(pbt::Src& s)
    {
        const V v = draw(s, bits_of<N>, std::numeric_limits<N>::is_signed);
        const N n = v.make<N>();
        s.note(bits_of<N>, " bits, ", n.str());
        PBT_CHECK(value(n) == v, "the harness");
        Bytes out{ 7, 8, 9 };
        bool written = true;
        try { awl::io::VectorOutputStream stream(out); awl::io::Write(stream, n); }
        catch (const awl::io::CorruptionException&) { written = false; }
        PBT_CHECK(written == (v.mag.size() <= 127), "a number of ", v.mag.size(), " bytes was ", written ? "written" : "refused");
        if (!written) { PBT_CHECK(out.size() == 3, "a refused number left bytes in the stream"); s.label("too long"); return; }
        out.erase(out.begin(), out.begin() + 3);
        if (!v.mag.empty())
        {
            Bytes expected{ static_cast<uint8_t>(v.mag.size() | (v.neg ? 0x80 : 0)) };
            expected.insert(expected.end(), v.mag.begin(), v.mag.end());
            PBT_CHECK(out == expected, "the bytes of ", n.str());
        }
        awl::io::MeasureStream measure;
        awl::io::Write(measure, n);
        PBT_CHECK(measure.GetLength() == out.size(), "the measured length");
        const size_t length = out.size();
        out.push_back(0xA5);
        awl::io::VectorInputStream in(out);
        N back = s.flag() ? N(12345) : std::numeric_limits<N>::max();
        awl::io::Read(in, back);
        PBT_CHECK(back == n && value(back) == v, n.str(), " was read as ", back.str());
        uint8_t next = 0;
        awl::io::Read(in, next);
        PBT_CHECK(next == 0xA5 && in.End(), "the reader did not stop behind the number");
        // An incomplete number is refused.
        Bytes part(out.begin(), out.begin() + static_cast<std::ptrdiff_t>(s.below(length)));
        awl::io::VectorInputStream partial(part);
        bool refused = false;
        try { awl::io::Read(partial, back); }
        catch (const awl::io::IoException&) { refused = true; }
        PBT_CHECK(refused, "an incomplete number was read");
        if (v.mag.size() > 8) s.nontrivial();
        s.label(v.mag.empty() ? "zero" : v.neg ? "negative" : "positive");
    }

    template <class N> void check_garbage(pbt::Src& s)
    {
        Bytes bytes(s.length(140));
        for (uint8_t& b : bytes) b = static_cast<uint8_t>(s.draw(255));
        if (!bytes.empty() && s.flag()) bytes[0] = static_cast<uint8_t>(s.draw(bits_of<N> / 8 + 2) | (s.flag() ? 0x80 : 0));
        awl::io::VectorInputStream in(bytes);
        N n = 5;
        const size_t size = bytes.empty() ? 0 : bytes[0] & 0x7F;
        s.note(bytes.size(), " bytes, length ", size, ", ", bits_of<N>, " bits");
        bool read = true;
        try { awl::io::Read(in, n); }
        catch (const awl::io::IoException&) { read = false; }
        if (bytes.size() < 1 + size || bytes.empty()) { PBT_CHECK(!read, "a number was read past the end"); s.label("short"); return; }
        if (size * 8 <= static_cast<size_t>(bits_of<N>))
        {
            // Zero is written with one byte.
            PBT_CHECK(read || size == 0, "a number of ", size, " bytes was refused");
            if (!read) { s.label("no bytes"); return; }
            V v;
            v.mag.assign(bytes.begin() + 1, bytes.begin() + 1 + static_cast<std::ptrdiff_t>(size));
            while (!v.mag.empty() && v.mag.front() == 0) v.mag.erase(v.mag.begin());
            v.neg = (bytes[0] & 0x80) != 0 && !v.mag.empty();
            if (!v.neg || std::numeric_limits<N>::is_signed) PBT_CHECK(value(n) == v, "wrong value ", n.str());
            s.nontrivial();
        }
        else PBT_CHECK(!read, "a number of ", size, " bytes was cut to ", bits_of<N>, " bits");
        if (!read) { s.label("refused"); return; }
        if (value(n).mag.size() > 127) return;
        const Bytes again = write(n);
        awl::io::VectorInputStream second(again);
        N m = 0;
        awl::io::Read(second, m);
        PBT_CHECK(m == n, "what was read is not written back");
        s.label("accepted");
    }

    // The parts of a decimal in one integer.
    template <class U, uint8_t L> void check_data(pbt::Src& s)
    {
        using Data = awl::MultiprecisionDecimalData<U, L>;
        const int man_bits = bits_of<U> - 1 - L;
        bool pos = true;
        unsigned exp = 0;
        V man;
        Data d;
        if (s.flag())
        {
            pos = s.flag();
            exp = static_cast<unsigned>(s.draw((1u << L) - 1));
            man = draw(s, man_bits, false);
            d = Data(pos, static_cast<uint8_t>(exp), man.make<U>());
        }
        for (size_t k = 1 + s.length(8); k-- > 0;)
        {
            switch (s.below(4))
            {
            case 0: pos = s.flag(); d.set_positive(pos); s.note("sign ", pos); break;
            case 1: exp = static_cast<unsigned>(s.draw((1u << L) - 1)); d.set_exp(static_cast<uint8_t>(exp)); s.note("exp ", exp); break;
            case 2: man = draw(s, man_bits, false); d.set_man(man.make<U>()); s.note("man ", man.make<U>().str()); break;
            default:
            {
                const U rep = d.to_bits();
                Data copy = Data::from_bits(rep);
                PBT_CHECK(copy.to_bits() == rep, "bits");
                Data assigned(false, 1, 77);
                assigned = copy;
                d = assigned;
                s.note("bits");
                break;
            }
            }
            PBT_CHECK(d.positive() == pos, "the sign");
            PBT_CHECK(d.exp() == exp, "the exponent ", int(d.exp()), " instead of ", exp);
            PBT_CHECK(value(d.man()) == man, "the mantissa ", d.man().str(), " instead of ", man.make<U>().str());
            if (man.mag.size() > 8 && exp != 0 && !pos) s.nontrivial();
        }
    }

    template <class U, uint8_t L> void check_decimal(pbt::Src& s)
    {
        using D = awl::decimal<U, L, awl::MultiprecisionDecimalData>;
        const V man = draw(s, bits_of<U> - 1 - L, false);
        D d;
        d.set_unsigned_mantissa(man.make<U>());
        D e(typename D::Int(man.make<U>()), static_cast<uint8_t>(s.draw(D::max_exponent())));
        if (s.flag()) e.negate();
        std::vector<D> v{ d, e, -d };
        const Bytes out = write(v);
        awl::io::VectorInputStream in(out);
        std::vector<D> back;
        awl::io::Read(in, back);
        PBT_CHECK(in.End() && back.size() == 3, "decimals");
        for (size_t i = 0; i < 3; ++i)
            PBT_CHECK(back[i].to_bits() == v[i].to_bits() && back[i].positive() == v[i].positive() && back[i].exponent() == v[i].exponent() && back[i].unsigned_mantissa() == v[i].unsigned_mantissa(), "a decimal ", v[i].to_astring(), " was read as ", back[i].to_astring());
        if (man.mag.size() > 8) s.nontrivial();
        s.note(e.to_astring());
    }

    template <class N> void check_containers(pbt::Src& s)
    {
        std::vector<N> v(s.length(6));
        for (N& n : v) n = draw(s, std::min(bits_of<N>, 1016), std::numeric_limits<N>::is_signed).template make<N>();
        std::optional<N> o;
        if (s.flag()) o = draw(s, 64, false).make<N>();
        std::map<N, N> m;
        for (const N& n : v) m[n] = N(n / 3);
        Bytes out;
        awl::io::VectorOutputStream stream(out);
        awl::io::Write(stream, v);
        awl::io::Write(stream, o);
        awl::io::Write(stream, m);
        awl::io::VectorInputStream in(out);
        std::vector<N> v2{ N(1) };
        std::optional<N> o2{ N(2) };
        std::map<N, N> m2;
        awl::io::Read(in, v2);
        awl::io::Read(in, o2);
        awl::io::Read(in, m2);
        PBT_CHECK(in.End() && v == v2 && o == o2 && m == m2, "containers of ", v.size(), " numbers");
        s.note(v.size(), " numbers of ", bits_of<N>, " bits");
        if (v.size() > 1) s.nontrivial();
    }

    using Dec = awl::decimal<bmp::uint256_t, 5, awl::MultiprecisionDecimalData>;

    // Two versions of a structure.
    struct First { bmp::int256_t a = 1; std::string text = "first"; bmp::uint1024_t removed = 2; Dec c; std::vector<bmp::uint128_t> d; AWL_REFLECT(a, text, removed, c, d) };
    struct Second { std::vector<bmp::uint128_t> d; int added = 77; Dec c; std::optional<bmp::int512_t> more = bmp::int512_t(5); bmp::int256_t a = 3; std::string text; AWL_REFLECT(d, added, c, more, a, text) };
    using All = awl::mp::variant_from_structs<First, Second>;

    template <class T> void fill(pbt::Src& s, T& v)
    {
        v.a = draw(s, 256, true).make<bmp::int256_t>();
        v.text.assign(s.length(3), 'x');
        const V man = draw(s, 200, false);
        v.c.set_unsigned_mantissa(man.make<bmp::uint256_t>());
        if (s.flag()) v.c = -v.c;
        v.d.clear();
        for (size_t k = s.length(3); k-- > 0;) v.d.push_back(draw(s, 128, false).make<bmp::uint128_t>());
        if (man.mag.size() > 8 && !v.d.empty()) s.nontrivial();
    }

    template <class F, class T> void migrate(pbt::Src& s, const F& from, T& to)
    {
        Bytes out;
        awl::io::VectorOutputStream stream(out);
        awl::io::WriteV<F, awl::io::VectorOutputStream, All>(stream, from);
        awl::io::VectorInputStream in(out);
        awl::io::ReadV<T, awl::io::VectorInputStream, All>(in, to);
        PBT_CHECK(in.End(), "the document was not read to its end");
        PBT_CHECK(from.a == to.a && from.text == to.text && from.c.to_bits() == to.c.to_bits() && from.d == to.d, "a migrated structure");
        s.note("a = ", from.a.str(), ", ", from.d.size(), " elements");
    }

    template <class N> void check_name(pbt::Src&)
    {
        using awl::mp::make_type_name;
        const auto text = [](const auto& n) { return std::string(n.begin(), n.end()); };
        PBT_CHECK(text(make_type_name<N>()) == "multi_int", "the name is ", text(make_type_name<N>()));
        PBT_CHECK((text(make_type_name<std::vector<std::optional<N>>>()) == "sequence<optional<multi_int>>"), "the name of a composed type");
        PBT_CHECK((text(make_type_name<std::map<N, bool>>()) == "sequence<pair<multi_int, int8_t>>"), "the name of a map");
    }

#define EACH_INT(f) \
    switch (s.below(8)) \
    { \
    case 0: f<bmp::uint128_t>(s); break; \
    case 1: f<bmp::int128_t>(s); break; \
    case 2: f<bmp::uint256_t>(s); break; \
    case 3: f<bmp::int256_t>(s); break; \
    case 4: f<bmp::uint512_t>(s); break; \
    case 5: f<bmp::int512_t>(s); break; \
    case 6: f<bmp::uint1024_t>(s); break; \
    default: f<bmp::int1024_t>(s); break; \
    }
}

PBT_PROPERTY(numbers, 60000, 2000000) { EACH_INT(check_number) }
PBT_PROPERTY(garbage, 40000, 1500000) { EACH_INT(check_garbage) }
PBT_PROPERTY(names, 2000, 2000) { EACH_INT(check_name) }

PBT_PROPERTY(versions, 8000, 200000)
{
    const bool forward = s.flag();
    s.label(forward ? "older document" : "newer document");
    First f;
    Second t;
    if (forward)
    {
        fill(s, f);
        migrate(s, f, t);
        PBT_CHECK(t.added == 77 && t.more == bmp::int512_t(5), "the added fields were changed");
    }
    else
    {
        fill(s, t);
        if (s.flag()) t.more = draw(s, 512, true).make<bmp::int512_t>(); else t.more.reset();
        migrate(s, t, f);
        PBT_CHECK(f.removed == 2, "the added field was changed");
    }
}

PBT_PROPERTY(containers, 10000, 300000) { EACH_INT(check_containers) }

PBT_PROPERTY(parts, 40000, 1000000)
{
    switch (s.below(6))
    {
    case 0: check_data<bmp::uint128_t, 4>(s); break;
    case 1: check_data<bmp::uint128_t, 6>(s); break;
    case 2: check_data<bmp::uint256_t, 5>(s); break;
    case 3: check_data<bmp::uint512_t, 6>(s); break;
    case 4: check_data<bmp::uint256_t, 3>(s); break;
    default: check_data<bmp::uint1024_t, 5>(s); break;
    }
}

PBT_PROPERTY(decimals, 20000, 500000)
{
    switch (s.below(6))
    {
    case 3: check_decimal<bmp::uint256_t, 5>(s); break;
    case 4: check_decimal<bmp::uint256_t, 6>(s); break;
    case 5: check_decimal<bmp::uint512_t, 7>(s); break;
    case 0: check_decimal<bmp::uint128_t, 4>(s); break;
    case 1: check_decimal<bmp::uint128_t, 5>(s); break;
    default: check_decimal<bmp::uint128_t, 6>(s); break;
    }
}
