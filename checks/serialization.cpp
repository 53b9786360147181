// P12 (PART 1): the format and the round trip. P13 (PART 2): truncated and garbled input, limits.
#include "serial_gen.h"
#include <map>
#include <new>
#include <set>
#include <sstream>

namespace io = awl::io;
using namespace sg;

#if PART == 2
namespace
{
    constexpr size_t memory_limit = 4 * 1024 * 1024;
    bool limit_memory = false;
    void* limited(size_t n)
    {
        if (limit_memory && n > memory_limit) throw std::bad_alloc();
        if (void* p = std::malloc(n ? n : 1)) return p;
        throw std::bad_alloc();
    }
}
void* operator new(size_t n) { return limited(n); }
void* operator new[](size_t n) { return limited(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
#endif

namespace
{
    // All the ways to write a value give the same bytes.
    template <class T>
    Bytes write_all(Src&, const T& v, const Bytes& expected)
    {
        Bytes b;
        {
            io::VectorOutputStream out(b);
            io::Write(out, v);
        }
        PBT_CHECK(b == expected, "wrote ", hex(b), ", the format says ", hex(expected));

        io::MeasureStream m;
        io::Write(m, v);
        PBT_CHECK(m.GetLength() == b.size(), "measured ", m.GetLength(), " bytes, wrote ", b.size());

        StaticOut st;
        io::Write(st, v);
        PBT_CHECK(st.b == b, "a static stream got other bytes: ", hex(st.b));

        Bytes b2;
        io::VectorOutputStream out2(b2);
        io::SequentialOutputStream& base = out2;
        io::Write(base, v);
        PBT_CHECK(b2 == b, "a virtual stream got other bytes: ", hex(b2));

        std::ostringstream os;
        io::StdOutputStream std_out(os);
        io::Write(std_out, v);
        std::string str = os.str();
        PBT_CHECK(Bytes(str.begin(), str.end()) == b, "a standard stream got other bytes");
        return b;
    }

    template <class In>
    Bytes rest(In& in)
    {
        Bytes r;
        uint8_t buf[7];
        while (size_t n = in.Read(buf, sizeof buf)) r.insert(r.end(), buf, buf + n);
        return r;
    }

#if PART == 1
    struct RoundTrip
    {
        Src& s;
        template <class T>
        void operator()()
        {
            T v{};
            fill(s, v);
            Bytes expected;
            enc(expected, v);
            s.note("type #", typeid(T).name(), " ", hex(expected));
            Bytes b = write_all(s, v, expected);
            if (b.size() > 1) s.nontrivial();
            s.maximum("bytes", b.size());

            Bytes tail;
            for (size_t n = s.below(10); n != 0; --n) tail.push_back(s.integer<uint8_t>());
            Bytes all = b;
            all.insert(all.end(), tail.begin(), tail.end());

            // Into an object that already holds something else, through each kind of stream.
            for (int kind = 0; kind < 4; ++kind)
            {
                T r{};
                if (kind != 0) { fill(s, r); s.count("reads into a used object"); }
                else prepare(r);
                Bytes left;
                if (kind == 0 || kind == 1)
                {
                    io::VectorInputStream in(all);
                    PBT_CHECK(in.End() == all.empty(), "End() at the beginning");
                    io::Read(in, r);
                    PBT_CHECK(in.End() == tail.empty(), "End() after the value is ", in.End());
                    left = rest(in);
                    PBT_CHECK(in.End(), "End() is false at the end");
                }
                else if (kind == 2)
                {
                    StaticIn in{ all };
                    io::Read(in, r);
                    left = rest(in);
                }
                else
                {
                    std::istringstream is(std::string(all.begin(), all.end()));
                    io::StdInputStream std_in(is);
                    io::SequentialInputStream& in = std_in;
                    io::Read(in, r);
                    PBT_CHECK(in.End() == tail.empty(), "End() of a standard stream after the value is ", in.End());
                    left = rest(in);
                }
                Bytes again;
                enc(again, r);
                PBT_CHECK(eq(v, r), "stream ", kind, ": read ", hex(again), " instead of ", hex(b));
                PBT_CHECK(left == tail, "stream ", kind, ": ", left.size(), " bytes left instead of ", tail.size());
            }

            if constexpr (std::is_move_assignable_v<T> && !is_ring<T>)
            {
                T r{};
                fill(s, r);
                io::PlainSerializable<T> ser(r);
                io::PlainSerializable<T, io::VectorInputStream, io::VectorOutputStream> src(v);
                Bytes c;
                io::VectorOutputStream out(c);
                src.Write(out);
                PBT_CHECK(c == b, "PlainSerializable wrote ", hex(c));
                io::VectorInputStream in(all);
                ser.Read(in);
                PBT_CHECK(eq(v, r), "PlainSerializable read another value");
                PBT_CHECK(rest(in) == tail, "PlainSerializable did not stop at the end of the value");
            }
        }
    };

    struct Step
    {
        Src& s;
        Bytes& b;
        std::vector<std::function<void(io::SequentialInputStream&)>>& readers;
        template <class T>
        void operator()()
        {
            auto v = std::make_shared<T>();
            fill(s, *v);
            io::VectorOutputStream out(b);
            io::Write(static_cast<io::SequentialOutputStream&>(out), *v);
            readers.push_back([v](io::SequentialInputStream& in)
            {
                T r{};
                prepare(r);
                io::Read(in, r);
                PBT_CHECK(eq(*v, r), "one of several values in a stream was read wrong");
            });
        }
    };
#else
    struct Robust
    {
        Src& s;

        // Reads; anything but a normal end or an exception ends the process.
        template <class T>
        bool read(const Bytes& b, T& r, std::string& what, bool& io_error)
        {
            StaticIn in{ b };
            io_error = false;
            limit_memory = true;
            try
            {
                io::Read(in, r);
            }
            catch (const io::IoException&) { limit_memory = false; io_error = true; return false; }
            catch (const std::exception& e) { limit_memory = false; what = typeid(e).name(); return false; }
            limit_memory = false;
            return true;
        }

        template <class T>
        void operator()()
        {
            T v{};
            fill(s, v);
            Bytes b;
            enc(b, v);
            s.note("type ", typeid(T).name(), " ", hex(b));
            std::string what;
            bool io_error;

            // Every truncation is noticed, and the atomic reader leaves the object as it was.
            if (!b.empty())
            {
                for (int i = 0; i < 4; ++i)
                {
                    Bytes cut(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(i == 0 ? b.size() - 1 : s.below(b.size())));
                    T r{};
                    fill(s, r);
                    bool ok = read(cut, r, what, io_error);
                    PBT_CHECK(!ok, "read a value from ", cut.size(), " of its ", b.size(), " bytes");
                    PBT_CHECK(io_error, "truncated input ended in ", what, " instead of an IoException");
                    s.count("truncated inputs");
                    if (b.size() > 9) s.nontrivial();
                    if constexpr (std::is_move_assignable_v<T> && !is_ring<T>)
                    {
                        T u{};
                        fill(s, u);
                        Bytes before;
                        enc(before, u);
                        io::PlainSerializable<T> ser(u);
                        io::VectorInputStream in(cut);
                        bool thrown = false;
                        try { ser.Read(in); }
                        catch (const io::IoException&) { thrown = true; }
                        PBT_CHECK(thrown, "PlainSerializable read a truncated value");
                        Bytes after;
                        enc(after, u);
                        PBT_CHECK(before == after, "PlainSerializable changed the object although the reading failed: ", hex(before), " became ", hex(after));
                    }
                }
            }

            // Garbled bytes: a value or an exception.
            for (int i = 0; i < 3; ++i)
            {
                Bytes g = b;
                size_t changes = 1 + s.below(3);
                for (size_t k = 0; k < changes; ++k)
                {
                    size_t pos = g.empty() ? 0 : s.below(g.size());
                    switch (g.empty() ? 2 : s.draw(4))
                    {
                    case 0: g[pos] = s.integer<uint8_t>(); break;
                    case 1: g[pos] ^= static_cast<uint8_t>(1u << s.draw(7)); break;
                    case 2: g.insert(g.begin() + static_cast<std::ptrdiff_t>(pos), s.integer<uint8_t>()); break;
                    case 3: g.erase(g.begin() + static_cast<std::ptrdiff_t>(pos)); break;
                    default:
                        // What may be a count.
                        for (size_t j = pos - pos % 8; j < g.size() && j < pos - pos % 8 + 8; ++j) g[j] = s.pick<uint8_t>({ 0, 0xff, 0x7f, 0x80, 1 });
                        break;
                    }
                }
                T r{};
                prepare(r);
                if (read(g, r, what, io_error))
                {
                    s.label("garbled input accepted");
                    // What was accepted is a value like any other.
                    Bytes again;
                    io::VectorOutputStream out(again);
                    io::Write(out, r);
                    Bytes ref;
                    enc(ref, r);
                    PBT_CHECK(again == ref, "a value read from garbled input is written as ", hex(again), " instead of ", hex(ref));
                    T r2{};
                    prepare(r2);
                    PBT_CHECK(read(again, r2, what, io_error) && eq(r, r2), "a value read from garbled input cannot be written and read again");
                }
                else
                {
                    s.label(io_error ? "garbled input: IoException" : "garbled input: other exception");
                }
            }
        }
    };
#endif
}

#if PART == 1
PBT_PROPERTY(values_survive_and_the_format_is_exact, 40000, 900000)
{
    with_type(s, RoundTrip{ s });
}

// Numbers of elements that do not fit into a byte or into two.
namespace
{
    template <class T, class Make>
    void large(pbt::Src& s, size_t n, const char* name, Make make)
    {
        T v{}, r{};
        for (size_t i = 0; i < n; ++i) v.insert(v.end(), make(i));
        for (size_t i = s.below(3) * 1000; i; --i) r.insert(r.end(), make(i + 7));
        s.note(name, " of ", v.size(), " elements");
        Bytes expected;
        enc(expected, v);
        const Bytes b = write_all(s, v, expected);
        io::VectorInputStream in(b);
        io::Read(in, r);
        PBT_CHECK(r == v && in.End(), name, " of ", n, " elements is read as another one");
        Bytes cut(b.begin(), b.end() - 1);
        io::VectorInputStream cut_in(cut);
        T u{};
        bool thrown = false;
        try { io::Read(cut_in, u); } catch (const io::IoException&) { thrown = true; }
        PBT_CHECK(thrown, name, " of ", n, " elements without the last byte is not refused");
    }
}

PBT_PROPERTY(large_values, 240, 4000)
{
    static const size_t sizes[] = { 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537 };
    const size_t n = s.flag() ? sizes[s.below(std::size(sizes))] : s.below(70000);
    switch (s.draw(8))
    {
    case 0: large<std::vector<uint8_t>>(s, n, "vector<uint8_t>", [](size_t i) { return static_cast<uint8_t>(i * 31 >> 3); }); break;
    case 1: large<std::vector<int32_t>>(s, n, "vector<int32_t>", [](size_t i) { return static_cast<int32_t>(i * 2654435761u); }); break;
    case 2: large<std::vector<bool>>(s, n, "vector<bool>", [](size_t i) { return (i * 2654435761u >> 13 & 1) != 0; }); break;
    case 3: large<std::string>(s, n, "string", [](size_t i) { return static_cast<char>(i * 7 >> 2); }); break;
    case 4: large<std::wstring>(s, n, "wstring", [](size_t i) { return static_cast<wchar_t>(1 + i % 60000); }); break;
    case 5: large<std::vector<std::string>>(s, n, "vector<string>", [](size_t i) { return std::string(i % 5, static_cast<char>('a' + i % 26)); }); break;
    case 6: large<std::set<uint32_t>>(s, n, "set<uint32_t>", [](size_t i) { return static_cast<uint32_t>(i * 3); }); break;
    case 7: large<std::map<uint32_t, uint16_t>>(s, n, "map", [](size_t i) { return std::make_pair(static_cast<uint32_t>(i), static_cast<uint16_t>(i * 5)); }); break;
    default: large<std::vector<int64_t>>(s, n, "vector<int64_t>", [](size_t i) { return static_cast<int64_t>(i * 0x9E3779B97F4A7C15u); }); break;
    }
    s.maximum("elements", n);
    if (n > 255) s.nontrivial();
}

PBT_PROPERTY(several_values_in_one_stream, 8000, 120000)
{
    Bytes b;
    std::vector<std::function<void(io::SequentialInputStream&)>> readers;
    size_t n = 2 + s.below(5);
    for (size_t i = 0; i < n; ++i) with_type(s, Step{ s, b, readers });
    io::VectorInputStream in(b);
    for (auto& r : readers) r(in);
    PBT_CHECK(in.End(), "not at the end after all the values");
    if (b.size() > 16) s.nontrivial();
}
#else
PBT_PROPERTY(bad_input_is_an_exception, 60000, 900000)
{
    with_type(s, Robust{ s });
}

PBT_PROPERTY(string_limits, 20000, 300000)
{
    Texts v;
    fill(s, v);
    Bytes b;
    enc(b, v);
    size_t longest = sg::longest(v);
    size_t limit = s.flag() ? (longest == 0 ? 0 : longest - s.draw(1)) : s.below(64);
    bool fits = longest <= limit;
    if (!fits && longest > 8) s.nontrivial();
    {
        Bytes w;
        io::VectorOutputStream out(w);
        bool thrown = false;
        try { io::Write(out, v, io::LimitedContext(limit)); }
        catch (const io::IoError&) { thrown = true; }
        PBT_CHECK(thrown == !fits, "limit ", limit, ", longest string ", longest, ": writing ", thrown ? "failed" : "succeeded");
        if (fits) PBT_CHECK(w == b, "other bytes were written under a limit");
    }
    {
        io::VectorInputStream in(b);
        Texts r;
        fill(s, r);
        bool thrown = false;
        try { io::Read(in, r, io::LimitedContext(limit)); }
        catch (const io::IoError&) { thrown = true; }
        PBT_CHECK(thrown == !fits, "limit ", limit, ", longest string ", longest, ": reading ", thrown ? "failed" : "succeeded");
        if (fits) PBT_CHECK(eq(v, r), "another value was read under a limit");
    }
    {
        // A length that the stream claims to have: it is refused before anything is allocated.
        uint64_t claimed = s.integer<uint64_t>();
        bool wide = s.flag();
        size_t ch = wide ? sizeof(wchar_t) : 1;
        Bytes c;
        put_count(c, claimed);
        size_t have = s.below(40);
        c.resize(c.size() + have, 'x');
        io::VectorInputStream in(c);
        std::string n;
        std::wstring w;
        int outcome = 0;
        limit_memory = true;
        try
        {
            if (wide) io::Read(in, w, io::LimitedContext(limit));
            else io::Read(in, n, io::LimitedContext(limit));
        }
        catch (const io::IoError&) { outcome = 1; }
        catch (const io::EndOfFileException&) { outcome = 2; }
        catch (const std::exception& e) { outcome = 3; }
        limit_memory = false;
        int expected = claimed > limit / ch ? 1 : claimed * ch > have ? 2 : 0;
        PBT_CHECK(outcome == expected, "a string of ", claimed, " characters of ", ch, " bytes, limit ", limit, ": outcome ", outcome, " instead of ", expected,
            " (0 read, 1 refused, 2 end of the stream, 3 other)");
    }
}
#endif
