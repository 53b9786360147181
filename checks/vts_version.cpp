// P14: one version of the family (VERSION_NO).
#include "vts.h"

using namespace vts;

namespace
{
    template <class R, class V>
    Written write(Src& s, const char* mode, int number)
    {
        Written w;
        w.types = Names<V>::used();
        w.from = pbt::str("version ", number, mode);
        io::Writer<V> ctx;
        io::VectorOutputStream out(w.bytes);
        io::MeasureStream measure;
        ctx.WriteNewPrototypes(out);
        io::Writer<V, io::MeasureStream> mctx;
        mctx.WriteNewPrototypes(measure);
        size_t n = 1 + s.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            R v{};
            fill(s, v);
            ctx.WriteV(out, v);
            mctx.WriteV(measure, v);
            w.values.push_back(to_tree(v));
        }
        PBT_CHECK(measure.GetLength() == w.bytes.size(), "measured ", measure.GetLength(), " bytes, wrote ", w.bytes.size());
        return w;
    }

    template <class R, class V>
    void read_one(Src& s, io::Reader<V>& ctx, const Written& w, const char* mode, int number)
    {
        std::string pair = w.from + " read as version " + std::to_string(number) + mode;
        s.note(pair);
        for (auto& v : w.values) s.note("  ", v.text());
        Bytes b = w.bytes;
        Bytes tail = { 0xde, 0xad, 0xbe };
        b.insert(b.end(), tail.begin(), tail.end());

        bool unknown = false;
        auto known = Names<V>::known();
        for (auto& t : w.types) if (!known.count(t)) unknown = true;

        const bool allow = ctx.allowDelete;
        io::VectorInputStream in(b);
        try
        {
            ctx.ReadOldPrototypes(in);
            PBT_CHECK(!unknown, pair, ": an unknown type was accepted");
        }
        catch (const io::TypeMismatchException&)
        {
            PBT_CHECK(unknown, pair, ": a known type was refused");
            s.label("unknown type refused");
            return;
        }

        Bytes rest(b);
        for (auto& v : w.values)
        {
            Flags f;
            Tree expected = expect<R>(v, f);
            R r{};
            io::VectorInputStream retry = in;
            bool thrown = false;
            bool missing = false;
            try { ctx.ReadV(in, r); }
            catch (const io::FieldNotFoundException&) { thrown = missing = true; }
            catch (const io::IoException&) { thrown = true; }
            if (f.deleted && f.added) s.label("removed and added fields");
            if (f.renamed) s.label("renamed fields");
            if (f.clash || f.maybe) s.label("type clash");
            if (f.deleted && f.added && expected.items.size() > 2) s.nontrivial();
            if (f.clash)
            {
                PBT_CHECK(thrown, pair, ": a field of another type was read");
                // Also if one tries again with the same reader.
                bool again = false;
                R r2{};
                try { ctx.ReadV(retry, r2); }
                catch (const io::IoException&) { again = true; }
                PBT_CHECK(again, pair, ": the second attempt to read a field of another type succeeded");
                return;
            }
            if (thrown && f.maybe) return;
            if (f.deleted && !allow)
            {
                PBT_CHECK(thrown && missing, pair, ": a removed field was skipped although it is not allowed");
                return;
            }
            PBT_CHECK(!thrown, pair, ": an exception");
            Tree actual = to_tree(r);
            PBT_CHECK(actual == expected, pair, ": read ", actual.text(), " instead of ", expected.text());
        }
        Bytes left(4);
        PBT_CHECK(in.Read(left.data(), 4) == 3 && left[0] == 0xde && left[2] == 0xbe, pair, ": the reader did not stop at the end of the values");
    }

    template <class R, class V>
    void read(Src& s, const std::vector<Written>& docs, const char* mode, int number)
    {
        io::Reader<V> ctx;
        ctx.allowDelete = !s.chance(1, 5);
        for (size_t i = 0; i < docs.size(); ++i)
        {
            // The documents that one reader has read before, or refused, mean nothing to the next one.
            if (i) { ctx.ClearPrototypes(); s.label("a reader of several documents"); }
            read_one<R, V>(s, ctx, docs[i], mode, number);
        }
    }

    template <class R> using AutoV = awl::mp::variant_from_struct<R>;

#if VERSION_NO != 7
    template <class S>
    void same_version(Src& s)
    {
        using R = typename S::R;
        R v{}, r{};
        fill(s, v);
        const Tree t = to_tree(v);
        Bytes b;
        io::VectorOutputStream out(b);
        io::Writer<typename S::V> w;
        w.WriteNewPrototypes(out);
        Bytes meta_bytes = b;
        w.WriteV(out, v);
        Bytes body(b.begin() + static_cast<std::ptrdiff_t>(meta_bytes.size()), b.end());

        // Without the metadata.
        {
            io::PlainReader<typename S::V> reader;
            io::VectorInputStream in(body);
            reader.ReadV(in, r);
            PBT_CHECK(in.End() && to_tree(r) == t, "PlainReader read ", to_tree(r).text(), " instead of ", t.text());
        }
        {
            io::Reader<typename S::V> reader;
            reader.Initialize();
            io::VectorInputStream in(body);
            R x{};
            reader.ReadV(in, x);
            PBT_CHECK(in.End() && to_tree(x) == t, "a reader of the same prototypes read ", to_tree(x).text(), " instead of ", t.text());
        }
        // A type that had another name.
        {
            io::Metadata meta;
            io::VectorInputStream in(meta_bytes);
            io::Read(in, meta);
            PBT_CHECK(in.End(), "Metadata and WriteNewPrototypes disagree");
            auto& name = meta.typeNames[s.below(meta.typeNames.size())];
            const std::string original = name;
            name = "QType";
            Bytes renamed;
            io::VectorOutputStream o(renamed);
            io::Write(o, meta);
            renamed.insert(renamed.end(), body.begin(), body.end());
            {
                io::Reader<typename S::V> reader;
                io::VectorInputStream rin(renamed);
                reader.ReadOldPrototypes(rin, { {"QType", original}, {"Other", "int32_t"} });
                R x{};
                reader.ReadV(rin, x);
                PBT_CHECK(rin.End() && to_tree(x) == t, "with the type map read ", to_tree(x).text(), " instead of ", t.text());
            }
        }
        // Every truncation is noticed.
        for (int i = 0; i < 3; ++i)
        {
            Bytes cut(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(i == 0 ? b.size() - 1 : s.below(b.size())));
            io::VectorInputStream in(cut);
            R x{};
            bool thrown = false;
            try { io::ReadV<R, io::SequentialInputStream, typename S::V>(in, x); }
            catch (const io::IoException&) { thrown = true; }
            PBT_CHECK(thrown, "read ", cut.size(), " of ", b.size(), " bytes");
        }
        s.nontrivial();
    }
#endif
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
using S = CAT(S, VERSION_NO);

template <>
const Version& vts::version<VERSION_NO>()
{
    using R = S::R;
    static const Version v = {
        [](Src& s, bool own) { return own ? write<R, AutoV<R>>(s, " (own types)", S::number) : write<R, S::V>(s, "", S::number); },
#if VERSION_NO != 7
        [](Src& s, const std::vector<Written>& w, bool own) { own ? read<R, AutoV<R>>(s, w, " (own types)", S::number) : read<R, S::V>(s, w, "", S::number); },
        [](Src& s) { same_version<S>(s); }
#else
        nullptr, nullptr
#endif
    };
    return v;
}
