// P13: garbled documents of version tolerant serialization: metadata that lies, indices that point nowhere, bytes that changed.
#include "serial_gen.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/PlainReader.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include <deque>
#include <map>
#include <new>
#include <set>

namespace io = awl::io;
using namespace sg;

namespace
{
    constexpr size_t memory_limit = 4 * 1024 * 1024;
    bool limit_memory = false;
    void* limited(size_t n)
    {
        if (limit_memory && n > memory_limit) throw std::bad_alloc();
        if (void* p = std::malloc(n ? n : 1)) return p;
        throw std::bad_alloc();
    }
}
void* operator new(size_t n) { return limited(n); }
void* operator new[](size_t n) { return limited(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

namespace
{
    // Two versions of the same structures.
    namespace v1
    {
        struct Leaf { int32_t id = 1; std::string name = "n"; AWL_REFLECT(id, name) };
        struct Pair { Leaf a; Leaf b; AWL_REFLECT(a, b) };
        struct Root
        {
            int32_t first = 1;
            Leaf leaf;
            std::vector<Leaf> leaves;
            std::optional<Pair> maybe;
            std::map<int32_t, std::string> names;
            std::variant<int32_t, Leaf> either;
            std::shared_ptr<Leaf> shared;
            std::set<int16_t> set;
            std::string last = "end";
            AWL_REFLECT(first, leaf, leaves, maybe, names, either, shared, set, last)
        };
    }
    namespace v2
    {
        struct Leaf { std::string name = "new"; double weight = 1; int32_t id = 7; AWL_REFLECT(name, weight, id) };
        struct Pair { Leaf b; std::vector<uint8_t> between; Leaf a; AWL_REFLECT(b, between, a) };
        struct Empty { AWL_REFLECT() };
        struct Root
        {
            std::vector<Leaf> leaves;
            std::string last = "last";
            std::optional<Pair> maybe;
            std::deque<int64_t> numbers;
            Leaf leaf;
            int32_t first = 2;
            AWL_REFLECT(leaves, last, maybe, numbers, leaf, first)
        };
    }

    // The reader has to know the types of the fields that it skips.
    using All1 = awl::mp::variant_from_structs<v1::Root, v2::Root>;

    template <class T> Bytes write(const T& v)
    {
        Bytes b;
        io::VectorOutputStream out(b);
        io::WriteV<T, io::VectorOutputStream, All1>(out, v);
        return b;
    }

    // An object of a structure, written with its own metadata, both apart.
    template <class T> void make(Src& s, io::Metadata& meta, Bytes& body)
    {
        T v{};
        fill(s, v);
        io::Writer<All1, io::VectorOutputStream> w;
        Bytes m;
        io::VectorOutputStream mo(m);
        w.WriteNewPrototypes(mo);
        io::VectorInputStream mi(m);
        io::Read(mi, meta);
        io::VectorOutputStream bo(body);
        w.WriteV(bo, v);
    }

    // Changes the description of the document as a whole.
    void garble(Src& s, io::Metadata& meta)
    {
        using Fields = std::vector<awl::DetachedPrototype::FieldContainer>;
        auto& protos = meta.prototypes;
        auto& names = meta.typeNames;
        const auto fields_of = [](const awl::DetachedPrototype& p)
        {
            Fields f;
            for (size_t i = 0; i < p.GetCount(); ++i) f.push_back({ std::string(p.GetField(i).name), p.GetField(i).type });
            return f;
        };
        const auto a_type = [&]() -> size_t { return s.chance(1, 4) ? awl::Field::NoType : s.chance(1, 6) ? s.pick<size_t>({ names.size(), names.size() + 1, 0x7fffffff, awl::Field::NoType - 1 }) : s.below(names.size() + 1); };
        const auto a_name = [&]() -> std::string { return s.pick<const char*>({ "id", "name", "leaf", "leaves", "a", "b", "first", "last", "maybe", "weight", "", "nobody" }); };
        switch (s.below(9))
        {
        case 0: if (!names.empty()) names[s.below(names.size())] = names[s.below(names.size())]; s.label("a type under the name of another"); break;
        case 1: if (!names.empty()) names.pop_back(); s.label("a type less"); break;
        case 2: if (names.size() > 1) std::swap(names[s.below(names.size())], names[s.below(names.size())]); s.label("swapped types"); break;
        case 3: if (!protos.empty()) protos.erase(protos.begin() + static_cast<std::ptrdiff_t>(s.below(protos.size()))); s.label("a prototype less"); break;
        case 4: if (protos.size() > 1) std::swap(protos[s.below(protos.size())], protos[s.below(protos.size())]); s.label("swapped prototypes"); break;
        case 5: protos.clear(); s.label("no prototypes"); break;
        default:
            if (!protos.empty())
            {
                auto& p = protos[s.below(protos.size())];
                Fields f = fields_of(p);
                for (size_t k = 1 + s.below(2); k-- > 0;)
                {
                    const size_t at = f.empty() ? 0 : s.below(f.size());
                    switch (f.empty() ? 0 : s.below(5))
                    {
                    case 0: f.insert(f.begin() + static_cast<std::ptrdiff_t>(at), { a_name(), a_type() }); break;
                    case 1: f.erase(f.begin() + static_cast<std::ptrdiff_t>(at)); break;
                    case 2: f[at].type = a_type(); break;
                    case 3: f[at].name = a_name(); break;
                    default: std::swap(f[at], f[s.below(f.size())]); break;
                    }
                }
                p = awl::DetachedPrototype(f);
                s.label("other fields");
            }
            break;
        }
    }

    void garble(Src& s, Bytes& g)
    {
        for (size_t k = 1 + s.below(3); k-- > 0;)
        {
            const size_t pos = g.empty() ? 0 : s.below(g.size());
            switch (g.empty() ? 2 : s.draw(5))
            {
            case 0: g[pos] = s.integer<uint8_t>(); break;
            case 1: g[pos] ^= static_cast<uint8_t>(1u << s.draw(7)); break;
            case 2: g.insert(g.begin() + static_cast<std::ptrdiff_t>(pos), s.integer<uint8_t>()); break;
            case 3: g.erase(g.begin() + static_cast<std::ptrdiff_t>(pos)); break;
            case 4: g[pos] = static_cast<uint8_t>(s.draw(8)); break; // May be an index.
            default:
                for (size_t j = pos; j < g.size() && j < pos + 8; ++j) g[j] = s.pick<uint8_t>({ 0, 0xff, 0x7f, 0x80, 1 });
                break;
            }
        }
    }

    // 0 - a value, 1 - IoException, 2 - another exception
    template <class F> int outcome(F f)
    {
        limit_memory = true;
        int r = 0;
        try { f(); }
        catch (const io::IoException&) { r = 1; }
        catch (const std::exception&) { r = 2; }
        limit_memory = false;
        return r;
    }

    template <class T> using Ser = io::VersionTolerantSerializable<T, io::VectorInputStream, io::VectorOutputStream, true, All1>;

    template <class To> void read(Src& s, const Bytes& doc)
    {
        To r{};
        fill(s, r);
        const Bytes before = write(r);
        int how;
        {
            io::VectorInputStream in(doc);
            Ser<To> ser(r);
            how = outcome([&] { ser.Read(in); });
        }
        s.note(doc.size(), " bytes: ", how == 0 ? "read" : how == 1 ? "IoException" : "other exception");
        s.label(how == 0 ? "accepted" : how == 1 ? "IoException" : "other exception");
        const Bytes after = write(r);
        if (how != 0) { PBT_CHECK(before == after, "the reading failed and the object changed"); return; }
        // What was accepted is a value like any other.
        To again{};
        io::VectorInputStream in(after);
        PBT_CHECK(outcome([&] { io::ReadV<To, io::VectorInputStream, All1>(in, again); }) == 0 && in.End(), "what was read from garbage cannot be written and read");
        PBT_CHECK(write(again) == after, "what was read from garbage is written in another way after it was read again");
    }

    template <class From> void document(Src& s, Bytes& doc, bool& lies)
    {
        io::Metadata meta;
        Bytes body;
        make<From>(s, meta, body);
        lies = s.flag();
        if (lies) for (size_t k = 1 + s.below(2); k-- > 0;) garble(s, meta);
        if (!lies || s.chance(1, 3)) garble(s, body);
        io::VectorOutputStream out(doc);
        io::Write(out, meta);
        doc.insert(doc.end(), body.begin(), body.end());
        if (s.chance(1, 6)) { garble(s, doc); s.label("the whole document garbled"); }
    }
}

PBT_PROPERTY(garbled_documents, 30000, 700000)
{
    Bytes doc;
    bool lies = false;
    if (s.flag()) document<v1::Root>(s, doc, lies); else document<v2::Root>(s, doc, lies);
    switch (s.below(4))
    {
    case 0: read<v1::Root>(s, doc); break;
    case 1: read<v2::Root>(s, doc); break;
    case 2: read<v1::Pair>(s, doc); break;
    default: read<v2::Leaf>(s, doc); break;
    }
    s.label(lies ? "metadata changed" : "body changed");
    if (doc.size() > 600) s.nontrivial();
}

// The bytes of one value without its metadata.
PBT_PROPERTY(garbled_plain_values, 10000, 200000)
{
    io::Metadata meta;
    Bytes body;
    make<v1::Root>(s, meta, body);
    garble(s, body);
    v1::Root r{};
    io::VectorInputStream in(body);
    io::PlainReader<All1, io::VectorInputStream> reader;
    const int how = outcome([&] { reader.ReadV(in, r); });
    s.label(how == 0 ? "accepted" : "refused");
    if (how == 0)
    {
        const Bytes doc = write(r);
        v1::Root again{};
        io::VectorInputStream second(doc);
        io::ReadV<v1::Root, io::VectorInputStream, All1>(second, again);
        PBT_CHECK(second.End() && write(again) == doc, "what was read from garbage cannot be written and read");
    }
    if (body.size() > 40) s.nontrivial();
}
