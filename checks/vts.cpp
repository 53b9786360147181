// P14: version tolerant serialization between random versions of a family of structures (vts_schemas.h).
#include "vts.h"

using namespace vts;

namespace
{
    bool limit_memory = false;
    void* limited(size_t n)
    {
        if (limit_memory && n > 4 * 1024 * 1024) throw std::bad_alloc();
        if (void* p = std::malloc(n ? n : 1)) return p;
        throw std::bad_alloc();
    }
}
void* operator new(size_t n) { return limited(n); }
void* operator new[](size_t n) { return limited(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

namespace vts
{
    template <> const Version& version<0>();
    template <> const Version& version<1>();
    template <> const Version& version<2>();
    template <> const Version& version<3>();
    template <> const Version& version<4>();
    template <> const Version& version<5>();
    template <> const Version& version<6>();
    template <> const Version& version<7>();
}

namespace
{
    const Version& version(size_t k)
    {
        switch (k)
        {
        case 0: return vts::version<0>();
        case 1: return vts::version<1>();
        case 2: return vts::version<2>();
        case 3: return vts::version<3>();
        case 4: return vts::version<4>();
        case 5: return vts::version<5>();
        case 6: return vts::version<6>();
        default: return vts::version<7>();
        }
    }
}

PBT_PROPERTY(any_version_reads_any_other, 12000, 200000)
{
    std::vector<Written> docs;
    for (size_t n = s.chance(1, 4) ? 2 + s.draw(1) : 1; n; --n) docs.push_back(version(s.below(8)).write(s, s.chance(1, 4)));
    version(s.below(7)).read(s, docs, s.chance(1, 4));
}

PBT_PROPERTY(the_same_version_in_other_ways, 4000, 60000)
{
    version(s.below(7)).same(s);
}

namespace
{
    // A stream that breaks with an exception of its own.
    struct Broken : io::SequentialInputStream
    {
        const Bytes& b;
        size_t pos = 0, limit;
        int kind;
        Broken(const Bytes& b, size_t limit, int kind) : b(b), limit(limit), kind(kind) {}
        bool End() override { return pos == b.size(); }
        size_t Read(uint8_t* p, size_t n) override
        {
            if (pos + n > limit)
            {
                if (kind == 1) throw std::runtime_error("broken");
                if (kind == 2) throw io::ReadFailException();
                n = limit - pos;
            }
            if (n) std::memcpy(p, b.data() + pos, n);
            pos += n;
            return n;
        }
    };

    struct Atomic1
    {
        std::atomic<int32_t> a{ 1 };
        std::string s = "one";
        std::set<int32_t> c = { 1 };
        std::map<std::string, std::vector<int32_t>> m = { {"x", {1}} };
        std::optional<std::string> o = "o";
        std::shared_ptr<int32_t> p = std::make_shared<int32_t>(5);
        std::deque<int32_t> d = { 4 };
        std::atomic<uint64_t> u{ 2 };
        AWL_REFLECT(a, s, c, m, o, p, d, u)
    };
    struct Atomic2
    {
        std::atomic<uint64_t> u{ 2 };
        std::set<int32_t> c = { 1 };
        std::optional<std::string> o = "o";
        std::deque<int32_t> d = { 4 };
        std::shared_ptr<int32_t> p = std::make_shared<int32_t>(5);
        std::string added = "added";
        std::map<std::string, std::vector<int32_t>> m = { {"x", {1}} };
        std::atomic<bool> b{ true };
        std::string s = "one";
        std::atomic<int32_t> a{ 1 };
        AWL_REFLECT(u, c, o, d, p, added, m, b, s, a)
    };

    template <class T, class From>
    void serializable(Src& s)
    {
        From src{};
        fill(s, src);
        Bytes b;
        {
            io::VersionTolerantSerializable<From> ser(src);
            io::VectorOutputStream out(b);
            ser.Write(out);
        }
        T dst{};
        fill(s, dst);
        const Tree before = to_tree(dst);
        io::VersionTolerantSerializable<T> ser(dst);
        if (s.chance(2, 3))
        {
            size_t limit = s.below(b.size());
            int kind = static_cast<int>(s.draw(2));
            Broken in(b, limit, kind);
            int outcome = 0;
            try { ser.Read(in); }
            catch (const io::IoException&) { outcome = 1; }
            catch (const std::exception&) { outcome = 2; }
            PBT_CHECK(outcome == (kind == 1 ? 2 : 1), "a stream that breaks at ", limit, " of ", b.size(), " bytes: outcome ", outcome);
            PBT_CHECK(to_tree(dst) == before, "the reading failed (kind ", kind, ", ", limit, " of ", b.size(), " bytes) and the object changed from ", before.text(), " to ", to_tree(dst).text());
            if (limit > b.size() / 2) s.nontrivial();
        }
        else
        {
            io::VectorInputStream in(b);
            ser.Read(in);
            PBT_CHECK(in.End(), "not all was read");
            Tree now = to_tree(dst);
            Flags f;
            Tree expected = expect<T>(to_tree(src), f);
            if constexpr (!std::is_move_assignable_v<T>)
            {
                // Fields that are not in the stream stay as they were.
                Tree old = to_tree(src);
                for (size_t i = 0; i < expected.names.size(); ++i)
                {
                    if (std::find(old.names.begin(), old.names.end(), expected.names[i]) == old.names.end()) expected.items[i] = before.items[i];
                }
            }
            PBT_CHECK(now == expected, "read ", now.text(), " instead of ", expected.text());
        }
    }

    template <class From, class To>
    void copy(Src& s)
    {
        From a{};
        fill(s, a);
        To b{};
        Flags f;
        Tree expected = expect<To>(to_tree(a), f);
        io::CopyV(a, b);
        PBT_CHECK(to_tree(b) == expected, "copied ", to_tree(b).text(), " instead of ", expected.text());
    }
}

PBT_PROPERTY(a_failed_reading_changes_nothing, 6000, 120000)
{
    switch (s.draw(6))
    {
    case 0: serializable<Atomic1, Atomic1>(s); break;
    case 5: serializable<s2::R, s1::R>(s); break;
    case 1: serializable<Atomic2, Atomic1>(s); break;
    case 2: serializable<Atomic2, Atomic2>(s); break;
    case 3: serializable<s1::R, s1::R>(s); break;
    case 4: serializable<s1::R, s0::R>(s); break;
    default: copy<s0::R, s1::R>(s); copy<s1::R, s0::R>(s); break;
    }
}

// Different types can have the same name in the format. A removed field of such a type is skipped by the first type with that name.
namespace same_name
{
    using namespace sg;
    namespace a1
    {
        struct R { std::vector<bool> bits = { true }; int32_t x = 1; AWL_REFLECT(bits, x) };
        using V = std::variant<R, std::vector<bool>, std::string, int32_t>;
    }
    namespace a2
    {
        struct R { std::string s; int32_t x = 2; AWL_REFLECT(s, x) };
        using V = std::variant<R, std::string, std::vector<bool>, int32_t>;
    }
    namespace b1
    {
        struct R { uint8_t n = 1; int32_t x = 1; AWL_REFLECT(n, x) };
        using V = std::variant<R, uint8_t, Color, int32_t>;
    }
    namespace b2
    {
        struct R { Color c = Color::Red; int32_t x = 2; AWL_REFLECT(c, x) };
        using V = std::variant<R, Color, uint8_t, int32_t>;
    }
    namespace c1
    {
        struct A { int32_t id = 1; AWL_REFLECT(id) };
        struct B { std::string id; AWL_REFLECT(id) };
        struct R { std::vector<A> a; std::vector<B> b; int32_t x = 1; AWL_REFLECT(a, b, x) };
        using V = std::variant<R, A, B, std::vector<A>, std::vector<B>, int32_t, std::string>;
    }
    namespace c2
    {
        using c1::A; using c1::B;
        struct R { std::vector<A> a; int32_t x = 1; AWL_REFLECT(a, x) };
        using V = std::variant<R, A, B, std::vector<A>, std::vector<B>, int32_t, std::string>;
    }

    template <class R1, class V1, class R2, class V2>
    void removed(Src& s, const char* id)
    {
        R1 old{};
        fill(s, old);
        Bytes b;
        io::VectorOutputStream out(b);
        io::WriteV<R1, io::SequentialOutputStream, V1>(out, old);
        Flags f;
        Tree expected = expect<R2>(to_tree(old), f);
        R2 r{};
        io::VectorInputStream in(b);
        std::string problem;
        limit_memory = true;
        try
        {
            io::ReadV<R2, io::SequentialInputStream, V2>(in, r);
            if (!(to_tree(r) == expected)) problem = "read " + to_tree(r).text() + " instead of " + expected.text();
        }
        catch (const std::exception& e) { problem = std::string("exception ") + typeid(e).name(); }
        limit_memory = false;
        if (!problem.empty()) s.known(id, problem);
    }
}

PBT_PROPERTY(a_removed_field_whose_type_shares_its_name, 300, 3000)
{
    switch (s.draw(2))
    {
    case 0: same_name::removed<same_name::a1::R, same_name::a1::V, same_name::a2::R, same_name::a2::V>(s, "KF-P14-vector-bool-name"); break;
    case 1: same_name::removed<same_name::b1::R, same_name::b1::V, same_name::b2::R, same_name::b2::V>(s, "KF-P14-enum-name"); break;
    default: same_name::removed<same_name::c1::R, same_name::c1::V, same_name::c2::R, same_name::c2::V>(s, "KF-P14-struct-sequence-name"); break;
    }
}
