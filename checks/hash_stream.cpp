// P15 (PART 1): hash streams. P16 (PART 2): headers, versions, snapshots.
#include "pbt.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Crypto/Crc64.h"

#include <algorithm>
#include <map>
#include <memory>
#include <string>

namespace io = awl::io;
using Bytes = std::vector<uint8_t>;

namespace
{
    std::string hex(const Bytes& b)
    {
        std::string r;
        char buf[4];
        for (size_t i = 0; i < b.size() && i < 48; ++i) { snprintf(buf, sizeof buf, "%02x ", b[i]); r += buf; }
        return r + "(" + std::to_string(b.size()) + " bytes)";
    }

    // CRC-64/Jones bit by bit, the result with the most significant byte first.
    Bytes crc64(const uint8_t* p, size_t n, uint64_t crc)
    {
        for (size_t i = 0; i < n; ++i)
        {
            crc ^= p[i];
            for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (crc & 1 ? 0x95ac9329ac4bc9b5ull : 0);
        }
        Bytes b;
        for (int i = 7; i >= 0; --i) b.push_back(static_cast<uint8_t>(crc >> (8 * i)));
        return b;
    }

    // A hash of our own, three bytes long.
    struct Sum3 : awl::crypto::BasicHash<3>
    {
        template <class It>
        value_type operator()(It begin, It end) const
        {
            uint32_t h = 12345;
            for (It i = begin; i != end; ++i) h = (h * 31 + *i) % 16777213;
            return { static_cast<uint8_t>(h), static_cast<uint8_t>(h >> 8), static_cast<uint8_t>(h >> 16) };
        }
    };

    template <class H> Bytes reference_hash(const uint8_t* p, size_t n, uint64_t seed)
    {
        if constexpr (std::is_same_v<H, awl::crypto::Crc64>) return crc64(p, n, seed);
        else if constexpr (std::is_same_v<H, awl::crypto::FakeHash>) return {};
        else { auto v = Sum3{}(p, p + n); return Bytes(v.begin(), v.end()); }
    }

    template <class H> H make_hash(uint64_t seed)
    {
        if constexpr (std::is_same_v<H, awl::crypto::Crc64>) return H(seed);
        else return H();
    }

    // Full blocks of bs bytes, each with its hash at the end.
    template <class H>
    Bytes blocks(const Bytes& data, size_t bs, uint64_t seed)
    {
        Bytes r;
        size_t payload = bs - H::size();
        for (size_t i = 0; i < data.size(); i += payload)
        {
            size_t n = std::min(payload, data.size() - i);
            r.insert(r.end(), data.begin() + static_cast<std::ptrdiff_t>(i), data.begin() + static_cast<std::ptrdiff_t>(i + n));
            Bytes h = reference_hash<H>(data.data() + i, n, seed);
            r.insert(r.end(), h.begin(), h.end());
        }
        return r;
    }

    Bytes random_bytes(pbt::Src& s, size_t n)
    {
        Bytes b(n);
        uint64_t x = s.integer<uint64_t>();
        unsigned style = static_cast<unsigned>(s.draw(2));
        for (auto& c : b)
        {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            c = style == 0 ? 0 : style == 1 ? static_cast<uint8_t>(x >> 56) : static_cast<uint8_t>((x >> 60) == 0);
        }
        return b;
    }

    // An output that fails when more than limit bytes are written; with `once` only the first time.
    struct FailingOut : io::SequentialOutputStream
    {
        Bytes b;
        size_t limit;
        int kind;
        size_t failures = 0;
        bool once = false;
        FailingOut(size_t limit, int kind) : limit(limit), kind(kind) {}
        void Write(const uint8_t* p, size_t n) override
        {
            if (b.size() + n > limit && !(once && failures != 0))
            {
                ++failures;
                if (kind == 0) throw io::WriteFailException();
                throw std::runtime_error("disk full");
            }
            b.insert(b.end(), p, p + n);
        }
    };

    template <class F>
    int outcome(F f)
    {
        try { f(); }
        catch (const io::CorruptionException&) { return 1; }
        catch (const io::EndOfFileException&) { return 2; }
        catch (const io::IoError&) { return 3; }
        catch (const io::IoException&) { return 4; }
        catch (const std::exception&) { return 5; }
        return 0;
    }

    struct Item
    {
        std::string name = "item";
        int32_t n = 0;
        std::vector<uint16_t> v;
        AWL_REFLECT(name, n, v)
        bool operator==(const Item& o) const { return name == o.name && n == o.n && v == o.v; }
    };
    struct Doc
    {
        std::string title = "doc";
        std::map<std::string, Item> items;
        std::vector<Item> list;
        uint64_t x = 7;
        AWL_REFLECT(title, items, list, x)
        bool operator==(const Doc& o) const { return title == o.title && items == o.items && list == o.list && x == o.x; }
    };

    void fill(pbt::Src& s, std::string& t) { t.clear(); for (size_t n = s.length(12); n; --n) t.push_back(static_cast<char>('a' + s.draw(25))); }
    void fill(pbt::Src& s, Item& i)
    {
        fill(s, i.name);
        i.n = s.integer<int32_t>();
        i.v.clear();
        for (size_t n = s.length(8); n; --n) i.v.push_back(s.integer<uint16_t>());
    }
    Doc make_doc(pbt::Src& s)
    {
        Doc d;
        fill(s, d.title);
        for (size_t n = s.length(6); n; --n) { std::string k; fill(s, k); fill(s, d.items[k]); }
        for (size_t n = s.length(6); n; --n) { d.list.emplace_back(); fill(s, d.list.back()); }
        d.x = s.integer<uint64_t>();
        return d;
    }

    // Damages that leave something that was never written.
    Bytes damage(pbt::Src& s, const Bytes& b, std::string& what, size_t bs = 0)
    {
        Bytes g = b;
        size_t pos = s.below(b.size());
        switch (s.draw(3))
        {
        case 0:
            g[pos] ^= static_cast<uint8_t>(1u << s.draw(7));
            what = pbt::str("bit flipped at ", pos);
            break;
        case 1:
        {
            size_t n = 1 + s.below(std::min<size_t>(8, b.size() - pos));
            for (size_t i = 0; i < n; ++i) g[pos + i] ^= static_cast<uint8_t>(1 + s.draw(254));
            what = pbt::str(n, " bytes changed at ", pos);
            break;
        }
        case 2:
            for (size_t k = 2 + s.below(4); k; --k) g[s.below(b.size())] ^= static_cast<uint8_t>(1 + s.draw(254));
            what = "several bytes changed";
            break;
        default:
            if (s.flag() && bs != 0) pos = std::min(b.size() - 1, b.size() / bs * bs + s.draw(9)); // Near the start of the last block.
            g.resize(pos);
            what = pbt::str("truncated to ", pos);
            break;
        }
        return g;
    }
}

#if PART == 1
namespace
{
    template <class H>
    void round_trip(pbt::Src& s)
    {
        const uint64_t seed = s.flag() ? 127 : s.integer<uint64_t>();
        const bool big = s.chance(1, 60);
        const size_t bs = big ? io::defaultBlockSize : H::size() + 1 + (s.flag() ? s.below(12) : s.below(300));
        const size_t payload = bs - H::size();
        size_t size = big ? payload * s.below(3) + s.below(payload) : s.flag() ? payload * s.below(6) : s.below(payload * 5 + 1);
        const Bytes data = random_bytes(s, size);
        s.note("block of ", bs, " bytes, hash of ", H::size(), ", ", size, " bytes of data");
        if (size > payload) s.nontrivial();

        Bytes out_bytes;
        io::VectorOutputStream vec(out_bytes);
        io::MeasureStream measure;
        {
            io::HashOutputStream<H> out(vec, bs, make_hash<H>(seed));
            io::HashOutputStream<H, io::MeasureStream> mout(measure, bs, make_hash<H>(seed));
            size_t pos = 0;
            while (pos != size)
            {
                size_t n = std::min(size - pos, s.chance(1, 8) ? s.below(2) : 1 + s.below(s.chance(1, 3) ? 3 * payload + 2 : payload + 2));
                out.Write(data.data() + pos, n);
                mout.Write(data.data() + pos, n);
                pos += n;
            }
        }
        const Bytes expected = blocks<H>(data, bs, seed);
        PBT_CHECK(out_bytes == expected, "the blocks: ", hex(out_bytes), ", expected ", hex(expected));
        PBT_CHECK(measure.GetLength() == expected.size(), "measured ", measure.GetLength());

        io::VectorInputStream vin(out_bytes);
        io::HashInputStream<H> in(vin, bs, make_hash<H>(seed));
        Bytes got;
        size_t calls = 0;
        while (got.size() < size || calls == 0)
        {
            ++calls;
            if (s.chance(1, 4)) PBT_CHECK(in.End() == (got.size() == size), "End() after ", got.size(), " of ", size, " bytes");
            size_t n = s.chance(1, 8) ? 0 : 1 + s.below(s.chance(1, 3) ? 3 * payload + 2 : payload + 2);
            Bytes buf(n + 1, 0xee);
            size_t r = in.Read(buf.data(), n);
            PBT_CHECK(r == std::min(n, size - got.size()), "Read(", n, ") after ", got.size(), " of ", size, " bytes returned ", r);
            PBT_CHECK(buf[r] == 0xee, "Read wrote beyond the bytes it returned");
            got.insert(got.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(r));
        }
        PBT_CHECK(got == data, "read other data: ", hex(got), " instead of ", hex(data));
        PBT_CHECK(in.End(), "End() is false at the end");
        uint8_t c;
        PBT_CHECK(in.Read(&c, 1) == 0, "a byte was read after the end");
    }

    // The reader does not give up after an exception: what is delivered between two of them are whole blocks of the data.
    template <class H>
    void go_on(pbt::Src& s, io::HashInputStream<H>& in, const Bytes& data, size_t payload)
    {
        Bytes got;
        auto segment = [&]
        {
            bool found = got.empty();
            for (size_t k = 0; !found && k + got.size() <= data.size(); k += payload) found = std::equal(got.begin(), got.end(), data.begin() + static_cast<std::ptrdiff_t>(k));
            PBT_CHECK(found, "after an exception data was read that was never written: ", hex(got));
            got.clear();
        };
        for (size_t i = 2 + s.below(6); i; --i)
        {
            const int r = outcome([&]
            {
                if (s.flag() && in.End()) return;
                Bytes buf(1 + s.below(2 * payload));
                const size_t n = in.Read(buf.data(), buf.size());
                got.insert(got.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(n));
            });
            if (r != 0) segment();
        }
        segment();
        s.label("read on after an exception");
    }

    struct FlakyIn : io::SequentialInputStream
    {
        io::VectorInputStream in;
        size_t calls = 0, fails_at = 0;
        explicit FlakyIn(const Bytes& b) : in(b) {}
        void call() { if (++calls == fails_at) throw io::ReadFailException(); }
        bool End() override { call(); return in.End(); }
        size_t Read(uint8_t* p, size_t n) override { call(); return in.Read(p, n); }
    };

    // A failure of the input is reported, and what is read afterwards is data that was written.
    template <class H>
    void failing_input(pbt::Src& s)
    {
        const size_t bs = H::size() + 1 + s.below(60);
        const size_t payload = bs - H::size();
        const Bytes data = random_bytes(s, 1 + s.below(payload * 5));
        const Bytes good = blocks<H>(data, bs, 127);
        FlakyIn flaky(good);
        flaky.fails_at = 1 + s.below(good.size() / bs + 2);
        s.note("block of ", bs, " bytes, ", data.size(), " bytes of data, the input fails at call ", flaky.fails_at);
        io::HashInputStream<H> in(flaky, bs, make_hash<H>(127));
        Bytes got;
        bool end = false;
        const int r = outcome([&]
        {
            while (!(end = in.End()))
            {
                Bytes buf(1 + s.below(2 * bs));
                const size_t n = in.Read(buf.data(), buf.size());
                got.insert(got.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(n));
            }
        });
        PBT_CHECK(got.size() <= data.size() && std::equal(got.begin(), got.end(), data.begin()), "data that was never written was read: ", hex(got));
        if (flaky.calls < flaky.fails_at) PBT_CHECK(r == 0 && end && got == data, "outcome ", r, ", ", got.size(), " bytes");
        else
        {
            PBT_CHECK(r == 4, "the failure of the input: outcome ", r);
            if (data.size() > payload) s.nontrivial();
            go_on<H>(s, in, data, payload);
        }
    }

    template <class H>
    void corruption(pbt::Src& s)
    {
        const uint64_t seed = 127;
        const size_t bs = H::size() + 1 + s.below(60);
        const size_t payload = bs - H::size();
        const Bytes data = random_bytes(s, 1 + s.below(payload * 5));
        const Bytes good = blocks<H>(data, bs, seed);
        std::string what;
        const Bytes bad = damage(s, good, what, bs);
        s.note("block of ", bs, " bytes, ", data.size(), " bytes of data, ", what);
        if (good.size() > bs) s.nontrivial();

        io::VectorInputStream vin(bad);
        io::HashInputStream<H> in(vin, bs, make_hash<H>(seed));
        Bytes got;
        int r = outcome([&]
        {
            while (!in.End())
            {
                Bytes buf(1 + s.below(2 * bs));
                size_t n = in.Read(buf.data(), buf.size());
                got.insert(got.end(), buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(n));
            }
        });
        PBT_CHECK(got.size() <= data.size() && std::equal(got.begin(), got.end(), data.begin()), what, ": data that was never written was read: ", hex(got));
        if (r == 1 && bad.size() == good.size()) go_on<H>(s, in, data, payload);
        if (bad == good) return;
        if (bad.size() == good.size()) PBT_CHECK(r == 1, what, ": not noticed (outcome ", r, ")");
        else if (bad.size() % bs == 0) PBT_CHECK(r == 0 && got.size() == bad.size() / bs * payload, what, " (whole blocks): outcome ", r, ", ", got.size(), " bytes read");
        else PBT_CHECK(r == 1, what, ": the rest of a block was not noticed (outcome ", r, ", ", got.size(), " bytes read)");
        s.label(r == 1 ? "CorruptionException" : "shorter data");
    }

    template <class H>
    void failing_output(pbt::Src& s)
    {
        const size_t bs = H::size() + 1 + s.below(40);
        const Bytes data = random_bytes(s, 1 + s.below(200));
        const Bytes good = blocks<H>(data, bs, 127);
        const size_t limit = s.below(good.size() + 4);
        FailingOut sink(limit, static_cast<int>(s.draw(1)));
        sink.once = s.flag();
        bool thrown = false;
        {
            io::HashOutputStream<H> out(sink, bs, make_hash<H>(127));
            try { out.Write(data.data(), data.size()); }
            catch (const std::exception&) { thrown = true; }
        }
        PBT_CHECK(sink.b.size() <= good.size() && std::equal(sink.b.begin(), sink.b.end(), good.begin()), sink.once ? "after one failure" : "before the failure",
            " something else than the blocks was written: ", hex(sink.b), " instead of ", hex(good));
        PBT_CHECK(!thrown || sink.failures != 0, "an exception out of nowhere");
        if (limit >= good.size()) PBT_CHECK(sink.b == good && !thrown, "not all the blocks were written");
        else { PBT_CHECK(sink.failures != 0, "no failure"); s.nontrivial(); }
    }

    // Values under a hash.
    void serializable(pbt::Src& s)
    {
        const size_t bs = s.chance(1, 4) ? io::defaultBlockSize : 9 + s.below(200);
        const Doc doc = make_doc(s);
        Doc src = doc, dst = make_doc(s);
        const Doc before = dst;
        const bool vts = s.flag();
        using HI = io::HashInputStream<awl::crypto::Crc64, io::SequentialInputStream>;
        using HO = io::HashOutputStream<awl::crypto::Crc64, io::SequentialOutputStream>;
        io::PlainSerializable<Doc, HI, HO> plain_src(src), plain_dst(dst);
        io::HashingSerializable<> hash_src(plain_src, bs), hash_dst(plain_dst, bs);
        io::EuphoricallySerializable<Doc> e_src(src, bs), e_dst(dst, bs);
        io::Serializable<>& w = vts ? static_cast<io::Serializable<>&>(e_src) : hash_src;
        io::Serializable<>& r = vts ? static_cast<io::Serializable<>&>(e_dst) : hash_dst;

        Bytes good;
        io::VectorOutputStream out(good);
        w.Write(out);
        PBT_CHECK(src == doc, "writing changed the object");
        if (good.size() > bs) s.nontrivial();
        if (!vts)
        {
            // The hash of a default constructed Crc64 starts from 127.
            Bytes plain;
            io::VectorOutputStream pout(plain);
            io::Write(pout, src);
            PBT_CHECK(good == blocks<awl::crypto::Crc64>(plain, bs, 127), "the hashed value was written as ", hex(good));
        }

        if (vts)
        {
            // A snapshot taken before is written as the same bytes later, whatever happens to the object meanwhile.
            const io::Snapshot snap = e_src.MakeShanshot();
            src = make_doc(s);
            Bytes b;
            io::VectorOutputStream o(b);
            e_src.WriteSnapshot(o, snap);
            PBT_CHECK(b == good, "the snapshot was written as ", hex(b), " instead of ", hex(good));
            src = doc;
        }

        switch (s.draw(2))
        {
        case 0:
        {
            io::VectorInputStream in(good);
            int res = outcome([&] { r.Read(in); });
            PBT_CHECK(res == 0 && dst == doc, "the value was not read (outcome ", res, ")");
            PBT_CHECK(in.End(), "not all was read");
            break;
        }
        case 1:
        {
            std::string what;
            Bytes bad = damage(s, good, what);
            if (bad == good) break;
            io::VectorInputStream in(bad);
            int res = outcome([&] { r.Read(in); });
            PBT_CHECK(res == 1 || (bad.size() != good.size() && res == 2), what, " of ", good.size(), " bytes: outcome ", res);
            PBT_CHECK(dst == before, what, ": the object was changed although the reading failed");
            s.count("damaged values");
            break;
        }
        default:
        {
            const size_t limit = s.below(good.size());
            FailingOut sink(limit, static_cast<int>(s.draw(1)));
            int res = vts && s.flag() ? outcome([&] { e_src.WriteSnapshot(sink, e_src.MakeShanshot()); }) : outcome([&] { w.Write(sink); });
            PBT_CHECK(res == (sink.kind == 0 ? 4 : 5), "the output failed after ", limit, " of ", good.size(), " bytes, the writer reported ", res);
            PBT_CHECK(std::equal(sink.b.begin(), sink.b.end(), good.begin()), "something else was written before the failure");
            s.count("failed writings");
            break;
        }
        }
    }
}

PBT_PROPERTY(streams_round_trip, 20000, 400000)
{
    switch (s.draw(2))
    {
    case 0: round_trip<awl::crypto::Crc64>(s); break;
    case 1: round_trip<awl::crypto::FakeHash>(s); break;
    default: round_trip<Sum3>(s); break;
    }
}

PBT_PROPERTY(damage_is_noticed, 30000, 600000)
{
    corruption<awl::crypto::Crc64>(s);
}

PBT_PROPERTY(a_failing_output, 10000, 200000)
{
    switch (s.draw(2))
    {
    case 0: failing_output<awl::crypto::Crc64>(s); break;
    case 1: failing_output<awl::crypto::FakeHash>(s); break;
    default: failing_output<Sum3>(s); break;
    }
}

PBT_PROPERTY(a_failing_input, 10000, 200000)
{
    switch (s.draw(2))
    {
    case 0: failing_input<awl::crypto::Crc64>(s); break;
    case 1: failing_input<awl::crypto::FakeHash>(s); break;
    default: failing_input<Sum3>(s); break;
    }
}

PBT_PROPERTY(values_under_a_hash, 12000, 240000)
{
    serializable(s);
}

#else
namespace
{
    struct OldDoc
    {
        std::string title = "old";
        uint64_t x = 1;
        std::string gone = "gone";
        AWL_REFLECT(title, x, gone)
    };

    using Headered = io::HeaderedSerializable<Doc, io::SequentialInputStream, io::SequentialOutputStream, awl::crypto::Crc64,
        std::variant<Doc, Item, std::string, int32_t, uint64_t, std::vector<uint16_t>, std::map<std::string, Item>, std::vector<Item>>>;

    // Accepts old versions.
    struct Lenient : Headered
    {
        Lenient(const io::Header& h, Doc& d, size_t bs, awl::crypto::Crc64 hash, size_t limit) : Headered(h, d, bs, hash, limit) {}
        std::vector<size_t> old_versions;
    protected:
        void ReadOldVersion(size_t version) override { old_versions.push_back(version); }
    };

    std::string format_name(pbt::Src& s)
    {
        switch (s.draw(3))
        {
        case 0: return s.pick<std::string>({ "awl", "AWL", "aw", "awl2", "" });
        case 1: return std::string(60 + s.below(10), 'x');
        default: { std::string t; for (size_t n = s.length(70); n; --n) t.push_back(static_cast<char>(s.integer<uint8_t>())); return t; }
        }
    }
}

PBT_PROPERTY(headers_gate_the_reading, 15000, 300000)
{
    const size_t bs = s.chance(1, 4) ? io::defaultBlockSize : 9 + s.below(150);
    const std::string wf = format_name(s);
    const std::string rf = s.chance(2, 3) ? wf : format_name(s);
    const size_t wv = s.flag() ? s.below(4) : s.integer<size_t>();
    const size_t rv = s.flag() ? wv : s.flag() ? s.below(4) : s.integer<size_t>();
    const size_t wl = s.chance(3, 4) ? 64 : s.below(80), rl = s.chance(3, 4) ? 64 : s.below(80);
    const Doc doc = make_doc(s);
    Doc src = doc, dst = make_doc(s);
    const Doc before = dst;
    s.note("written as '", wf, "' ", wv, ", limit ", wl, "; expected '", rf, "' ", rv, ", limit ", rl);

    Headered w({ wf, wv }, src, bs, {}, wl);
    Bytes good;
    io::VectorOutputStream out(good);
    int res = outcome([&] { w.Write(out); });
    PBT_CHECK(res == (wf.size() > wl ? 3 : 0), "writing a format name of ", wf.size(), " bytes, limit ", wl, ": outcome ", res);
    const io::Snapshot snap = w.MakeShanshot();
    src = make_doc(s);
    Bytes from_snapshot;
    io::VectorOutputStream sout(from_snapshot);
    int res2 = outcome([&] { w.WriteSnapshot(sout, snap); });
    PBT_CHECK(res2 == res && (res != 0 || from_snapshot == good), "a snapshot was written as ", hex(from_snapshot), " instead of ", hex(good));
    src = doc;
    if (res != 0) return;

    int expected = wf.size() > rl ? 3 : wf != rf ? 3 : wv != rv ? 3 : 0;
    {
        Headered r({ rf, rv }, dst, bs, {}, rl);
        io::VectorInputStream in(good);
        int got = outcome([&] { r.Read(in); });
        PBT_CHECK(got == expected, "reading: outcome ", got, " instead of ", expected);
        PBT_CHECK(dst == (expected ? before : doc), expected ? "the object was changed although the header does not match" : "another value was read");
        if (expected == 0) PBT_CHECK(in.End(), "not all was read");
    }
    {
        dst = before;
        Lenient r({ rf, rv }, dst, bs, {}, rl);
        io::VectorInputStream in(good);
        int got = outcome([&] { r.Read(in); });
        bool old = wf.size() <= rl && wf == rf && wv < rv;
        PBT_CHECK(got == (old ? 0 : expected), "reading with old versions: outcome ", got);
        PBT_CHECK(r.old_versions == (old ? std::vector<size_t>{ wv } : std::vector<size_t>{}), "ReadOldVersion");
        PBT_CHECK(dst == (got == 0 && !old ? doc : before), "the value after reading with old versions");
        if (old) s.label("old version");
    }
    // Damaged.
    {
        dst = before;
        std::string what;
        Bytes bad = damage(s, good, what);
        if (bad != good)
        {
            Lenient r({ rf, rv }, dst, bs, {}, rl);
            io::VectorInputStream in(bad);
            int got = outcome([&] { r.Read(in); });
            PBT_CHECK(dst == before || (wf == rf && wv == rv && got == 0 && bad.size() == good.size()), what, ": the object was changed");
            if (expected == 0) PBT_CHECK(got == 1 || got == 2, what, " of ", good.size(), " bytes: outcome ", got);
        }
    }
    if (expected == 3 && wf.size() <= rl) s.label(wf != rf ? "wrong format" : wv > rv ? "newer version" : "older version");
    if (wf.size() > rl) s.label("name too long");
    if (good.size() > 60) s.nontrivial();
}

// A schema change under the same header.
PBT_PROPERTY(old_schema_under_the_same_header, 4000, 60000)
{
    const size_t bs = 9 + s.below(150);
    OldDoc old;
    fill(s, old.title);
    fill(s, old.gone);
    old.x = s.integer<uint64_t>();
    io::HeaderedSerializable<OldDoc> w({ "awl", 3 }, old, bs);
    Bytes b;
    io::VectorOutputStream out(b);
    w.Write(out);
    Doc dst = make_doc(s);
    Headered r({ "awl", 3 }, dst, bs);
    io::VectorInputStream in(b);
    r.Read(in);
    Doc expected;
    expected.title = old.title;
    expected.x = old.x;
    PBT_CHECK(dst == expected, "an old document was read as something else");
    s.nontrivial();
}
#endif
