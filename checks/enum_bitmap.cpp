// P08: enum traits and bitmaps against sets of numbers; names of enumerators and members.
#include "pbt.h"
#include "Awl/BitMap.h"
#include "Awl/EnumTraits.h"
#include "Awl/IntRange.h"
#include "Awl/Reflection.h"

#include <set>
#include <sstream>
#include <stdexcept>

namespace Enums
{
    AWL_SEQUENTIAL_ENUM(One, Only)
    AWL_SEQUENTIAL_ENUM(Vehicle, Car, Train, AirPlain)
    AWL_SEQUENTIAL_ENUM(Tight, alpha,beta , gamma,   delta
        ,epsilon)
    AWL_SEQUENTIAL_ENUM(E8, a0, a1, a2, a3, a4, a5, a6, a7)
    AWL_SEQUENTIAL_ENUM(E33, item_0, item_1, item_2, item_3, item_4, item_5, item_6, item_7, item_8, item_9, item_10, item_11, item_12, item_13, item_14, item_15, item_16, item_17, item_18, item_19, item_20, item_21, item_22, item_23, item_24, item_25, item_26, item_27, item_28, item_29, item_30, item_31, item_32)
    AWL_SEQUENTIAL_ENUM(E64, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, b33, b34, b35, b36, b37, b38, b39, b40, b41, b42, b43, b44, b45, b46, b47, b48, b49, b50, b51, b52, b53, b54, b55, b56, b57, b58, b59, b60, b61, b62, b63)
    AWL_SEQUENTIAL_ENUM(E65, Value0, Value1, Value2, Value3, Value4, Value5, Value6, Value7, Value8, Value9, Value10, Value11, Value12, Value13, Value14, Value15, Value16, Value17, Value18, Value19, Value20, Value21, Value22, Value23, Value24, Value25, Value26, Value27, Value28, Value29, Value30, Value31, Value32, Value33, Value34, Value35, Value36, Value37, Value38, Value39, Value40, Value41, Value42, Value43, Value44, Value45, Value46, Value47, Value48, Value49, Value50, Value51, Value52, Value53, Value54, Value55, Value56, Value57, Value58, Value59, Value60, Value61, Value62, Value63, Value64)
    AWL_SEQUENTIAL_ENUM(E255, Name0, Name1, Name2, Name3, Name4, Name5, Name6, Name7, Name8, Name9, Name10, Name11, Name12, Name13, Name14, Name15, Name16, Name17, Name18, Name19, Name20, Name21, Name22, Name23, Name24, Name25, Name26, Name27, Name28, Name29, Name30, Name31, Name32, Name33, Name34, Name35, Name36, Name37, Name38, Name39, Name40, Name41, Name42, Name43, Name44, Name45, Name46, Name47, Name48, Name49, Name50, Name51, Name52, Name53, Name54, Name55, Name56, Name57, Name58, Name59, Name60, Name61, Name62, Name63, Name64, Name65, Name66, Name67, Name68, Name69, Name70, Name71, Name72, Name73, Name74, Name75, Name76, Name77, Name78, Name79, Name80, Name81, Name82, Name83, Name84, Name85, Name86, Name87, Name88, Name89, Name90, Name91, Name92, Name93, Name94, Name95, Name96, Name97, Name98, Name99, Name100, Name101, Name102, Name103, Name104, Name105, Name106, Name107, Name108, Name109, Name110, Name111, Name112, Name113, Name114, Name115, Name116, Name117, Name118, Name119, Name120, Name121, Name122, Name123, Name124, Name125, Name126, Name127, Name128, Name129, Name130, Name131, Name132, Name133, Name134, Name135, Name136, Name137, Name138, Name139, Name140, Name141, Name142, Name143, Name144, Name145, Name146, Name147, Name148, Name149, Name150, Name151, Name152, Name153, Name154, Name155, Name156, Name157, Name158, Name159, Name160, Name161, Name162, Name163, Name164, Name165, Name166, Name167, Name168, Name169, Name170, Name171, Name172, Name173, Name174, Name175, Name176, Name177, Name178, Name179, Name180, Name181, Name182, Name183, Name184, Name185, Name186, Name187, Name188, Name189, Name190, Name191, Name192, Name193, Name194, Name195, Name196, Name197, Name198, Name199, Name200, Name201, Name202, Name203, Name204, Name205, Name206, Name207, Name208, Name209, Name210, Name211, Name212, Name213, Name214, Name215, Name216, Name217, Name218, Name219, Name220, Name221, Name222, Name223, Name224, Name225, Name226, Name227, Name228, Name229, Name230, Name231, Name232, Name233, Name234, Name235, Name236, Name237, Name238, Name239, Name240, Name241, Name242, Name243, Name244, Name245, Name246, Name247, Name248, Name249, Name250, Name251, Name252, Name253, Name254)
    AWL_BITMAP(Color, Red, Green, Blue)
}
AWL_ENUM_TRAITS(Enums, One)
AWL_ENUM_TRAITS(Enums, Vehicle)
AWL_ENUM_TRAITS(Enums, Tight)
AWL_ENUM_TRAITS(Enums, E8)
AWL_ENUM_TRAITS(Enums, E33)
AWL_ENUM_TRAITS(Enums, E64)
AWL_ENUM_TRAITS(Enums, E65)
AWL_ENUM_TRAITS(Enums, E255)

using namespace Enums;

namespace
{
    template <class E> std::vector<std::string> names_of(const char* prefix, int n)
    {
        std::vector<std::string> v;
        for (int i = 0; i < n; ++i) v.push_back(prefix + std::to_string(i));
        return v;
    }

    struct Spaced
    {
        int x = 1; double y = 2; std::string long_name; int z1 = 0, z2 = 0;
        AWL_REFLECT(x,y , long_name,
            z1,z2)
    };

    std::string lower(std::string t) { for (char& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }

    template <class E>
    void conversions(pbt::Src& s, const std::vector<std::string>& names)
    {
        const size_t n = names.size();
        PBT_CHECK(awl::EnumTraits<E>::count() == n, "count()");
        auto& ml = awl::EnumTraits<E>::names();
        PBT_CHECK(ml.size() == n && std::equal(ml.begin(), ml.end(), names.begin(), names.end()), "the names of the enumerators");

        for (int k = 0; k < 8; ++k)
        {
            const size_t i = s.draw(255);
            const E raw = static_cast<E>(i);
            bool ok = true;
            E back{};
            s.note("index ", i, " of ", n);
            try { back = awl::enum_from_index<E>(static_cast<uint8_t>(i)); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (i < n), "enum_from_index(", i, ") ", ok ? "accepted" : "rejected");
            if (ok) PBT_CHECK(back == raw, "enum_from_index(", i, ")");
            ok = true;
            size_t index = 0;
            try { index = awl::enum_to_index(raw); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (i < n), "enum_to_index(", i, ") ", ok ? "accepted" : "rejected");
            if (ok) PBT_CHECK(index == i, "enum_to_index(", i, ")");
            ok = true;
            try { awl::validate_enum(raw); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (i < n), "validate_enum(", i, ") ", ok ? "accepted" : "rejected");
            ok = true;
            try { awl::validate_enum_index<E>(static_cast<uint8_t>(i)); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (i < n), "validate_enum_index(", i, ") ", ok ? "accepted" : "rejected");
            ok = true;
            std::string name;
            try { name = awl::enum_to_string(raw); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (i < n), "enum_to_string(", i, ") ", ok ? "accepted" : "rejected");
            if (ok) PBT_CHECK(name == names[i], "enum_to_string(", i, ") is ", name);
            if (i >= n) s.label("index out of range");
        }

        for (int k = 0; k < 8; ++k)
        {
            // A name, or something close to one.
            const size_t i = s.below(n);
            std::string t = names[i];
            switch (s.below(8))
            {
            case 0: break;
            case 1: for (char& c : t) if (s.flag()) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); break;
            case 2: t.pop_back(); break;
            case 3: t += s.pick<char>({ ' ', '0', '1', 'x', '\0' }); break;
            case 4: t.insert(t.begin() + s.draw(t.size()), s.pick<char>({ ' ', ',', '_' })); break;
            case 5: t[s.below(t.size())] = static_cast<char>(' ' + s.below(95)); break;
            case 6: t.clear(); break;
            case 7: t = t + ", " + names[(i + 1) % n]; break;
            }
            s.note("name '", t, "'");
            size_t exact = n, loose = n;
            for (size_t q = n; q-- > 0;) { if (names[q] == t) exact = q; if (lower(names[q]) == lower(t)) loose = q; }
            bool ok = true;
            E e{};
            try { e = awl::enum_from_string<E>(t); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (exact < n), "enum_from_string('", t, "') ", ok ? "accepted" : "rejected");
            if (ok) PBT_CHECK(static_cast<size_t>(e) == exact, "enum_from_string('", t, "')");
            ok = true;
            try { e = awl::enum_from_string_i<E>(t); } catch (const std::runtime_error&) { ok = false; }
            PBT_CHECK(ok == (loose < n), "enum_from_string_i('", t, "') ", ok ? "accepted" : "rejected");
            if (ok) PBT_CHECK(static_cast<size_t>(e) == loose, "enum_from_string_i('", t, "')");
            if (exact == n && loose < n) s.label("name in another case");
            if (loose == n) s.label("wrong name");
        }
        s.nontrivial();
    }

    template <class E, size_t N>
    void set_ops(pbt::Src& s)
    {
        using Map = awl::bitmap<E>;
        using Model = std::set<size_t>;
        std::vector<Map> maps(3);
        std::vector<Model> models(3);

        auto value = [&] { return s.flag() ? s.below(N) : s.pick<size_t>({ 0, N - 1, N / 2, N > 63 ? size_t(63) : N - 1, N > 31 ? size_t(31) : 0, N > 64 ? size_t(64) : 0 }); };
        auto check = [&](const Map& m, const Model& v, const char* what)
        {
            PBT_CHECK(m.size() == N, what, ": size()");
            PBT_CHECK(m.count() == v.size(), what, ": count() is ", int(m.count()), " instead of ", v.size());
            PBT_CHECK(m.any() == !v.empty() && m.none() == v.empty() && m.all() == (v.size() == N) && static_cast<bool>(m) == !v.empty(), what, ": any/none/all");
            for (size_t i = 0; i < N; ++i)
            {
                PBT_CHECK(m.test(static_cast<E>(i)) == (v.count(i) != 0), what, ": value ", i);
                PBT_CHECK(m[static_cast<E>(i)] == (v.count(i) != 0), what, ": [", i, "]");
            }
        };

        const size_t ops = 1 + s.length(30);
        for (size_t k = 0; k < ops; ++k)
        {
            const size_t xi = s.below(3), yi = s.below(3);
            Map& x = maps[xi];
            Model& m = models[xi];
            const Model o = models[yi];
            const Map& y = maps[yi];
            const size_t v = value();
            const E e = static_cast<E>(v);
            Model r;
            Map res;
            switch (s.below(16))
            {
            case 0:
            {
                const size_t a = value(), b = value(), c = value();
                s.note("m", xi, " = {", a, ", ", b, ", ", c, "}");
                x = Map{ static_cast<E>(a), static_cast<E>(b), static_cast<E>(c) };
                m = { a, b, c };
                break;
            }
            case 1: s.note("m", xi, " |= ", v); x |= e; m.insert(v); break;
            case 2: s.note("m", xi, " &= ", v); x &= e; r = m; m.clear(); if (r.count(v)) m.insert(v); break;
            case 3: s.note("m", xi, " ^= ", v); x ^= e; if (!m.insert(v).second) m.erase(v); break;
            case 4: { const bool b = s.flag(); s.note("m", xi, ".set(", v, ", ", b, ")"); PBT_CHECK(&x.set(e, b) == &x, "set()"); if (b) m.insert(v); else m.erase(v); break; }
            case 5: { const bool b = s.flag(); s.note("m", xi, "[", v, "] = ", b); x[e] = b; if (b) m.insert(v); else m.erase(v); break; }
            case 6: s.note("~m", xi); res = ~x; check(x, m, "operand of ~"); r = m; m.clear(); for (size_t i = 0; i < N; ++i) if (!r.count(i)) m.insert(i); x = res; break;
            case 7: s.note("m", xi, " | ", v); res = x | e; r = m; r.insert(v); check(res, r, "map | value"); break;
            case 8: s.note("m", xi, " & ", v); res = x & e; if (m.count(v)) r.insert(v); check(res, r, "map & value"); break;
            case 9: s.note("m", xi, " ^ ", v); res = x ^ e; r = m; if (!r.insert(v).second) r.erase(v); check(res, r, "map ^ value"); break;
            case 10: s.note("m", xi, " | m", yi); res = x | y; r = m; r.insert(o.begin(), o.end()); check(res, r, "map | map"); check(x, m, "operand"); break;
            case 11: s.note("m", xi, " & m", yi); res = x & y; for (size_t i : m) if (o.count(i)) r.insert(i); check(res, r, "map & map"); break;
            case 12: s.note("m", xi, " ^ m", yi); res = x ^ y; for (size_t i = 0; i < N; ++i) if (m.count(i) != o.count(i)) r.insert(i); check(res, r, "map ^ map"); break;
            case 13: s.note("m", xi, " |= m", yi); x |= y; m.insert(o.begin(), o.end()); break;
            case 14: s.note("m", xi, " &= m", yi); x &= y; r = m; m.clear(); for (size_t i : r) if (o.count(i)) m.insert(i); break;
            case 15: s.note("m", xi, " ^= m", yi); x ^= y; r = m; m.clear(); for (size_t i = 0; i < N; ++i) if (r.count(i) != o.count(i)) m.insert(i); break;
            }
            check(x, m, "map");
            PBT_CHECK((x == y) == (m == models[yi]) && (x != y) == (m != models[yi]), "operator ==");
            if (m.size() > 1 && m.size() < N) s.nontrivial();
        }
    }
}

PBT_PROPERTY(enum_conversions, 16000, 200000)
{
    switch (s.below(8))
    {
    case 0: conversions<One>(s, { "Only" }); break;
    case 1: conversions<Vehicle>(s, { "Car", "Train", "AirPlain" }); break;
    case 2: conversions<Tight>(s, { "alpha", "beta", "gamma", "delta", "epsilon" }); break;
    case 3: conversions<E8>(s, names_of<E8>("a", 8)); break;
    case 4: conversions<E33>(s, names_of<E33>("item_", 33)); break;
    case 5: conversions<E64>(s, names_of<E64>("b", 64)); break;
    case 6: conversions<E65>(s, names_of<E65>("Value", 65)); break;
    case 7: conversions<E255>(s, names_of<E255>("Name", 255)); break;
    }
}

PBT_PROPERTY(bitmap_is_a_set, 16000, 200000)
{
    switch (s.below(6))
    {
    case 0: set_ops<Vehicle, 3>(s); break;
    case 1: set_ops<E8, 8>(s); break;
    case 2: set_ops<E33, 33>(s); break;
    case 3: set_ops<E64, 64>(s); break;
    case 4: set_ops<E65, 65>(s); break;
    case 5: set_ops<E255, 255>(s); break;
    }
}

PBT_PROPERTY(member_names, 20000, 200000)
{
    std::vector<std::string> names;
    const size_t n = s.length(12);
    std::string text;
    for (size_t i = 0; i < n; ++i)
    {
        std::string name;
        const size_t len = 1 + s.length(10);
        for (size_t k = 0; k < len; ++k) name += s.pick<char>({ 'a', 'B', '_', 'z', '9', 'x' });
        // What the preprocessor can leave between two names.
        if (i) text += s.pick<const char*>({ ", ", ",", " , ", " ," });
        text += name;
        names.push_back(name);
    }
    s.note("'", text, "'");
    awl::helpers::MemberList ml(text.c_str());
    PBT_CHECK(ml.size() == n, ml.size(), " names instead of ", n);
    size_t i = 0;
    for (auto& x : ml) { PBT_CHECK(x == names[i], "name ", i, " is '", x, "' instead of '", names[i], "'"); ++i; }
    for (size_t k = 0; k < n; ++k)
    {
        PBT_CHECK(ml[k] == names[k], "[", k, "]");
        const size_t first = std::find(names.begin(), names.end(), names[k]) - names.begin();
        PBT_CHECK(ml.find_index(names[k]) == first, "find_index('", names[k], "')");
        PBT_CHECK(static_cast<size_t>(ml.find(names[k]) - ml.begin()) == first && static_cast<size_t>(ml.find_cstr(names[k].c_str()) - ml.begin()) == first, "find('", names[k], "')");
        std::string other = names[k] + "q";
        PBT_CHECK(ml.find_index(other) == awl::helpers::MemberList::NotAnIndex && ml.find(other) == ml.end() && ml.find_cstr(other.c_str()) == ml.end(), "a missing name is found");
    }
    const std::vector<std::string> spaced{ "x", "y", "long_name", "z1", "z2" };
    PBT_CHECK(std::equal(Spaced::get_member_names().begin(), Spaced::get_member_names().end(), spaced.begin(), spaced.end()), "the names of the members of a structure");
    if (n > 1) s.nontrivial();
}

PBT_PROPERTY(int_ranges, 8000, 100000)
{
    auto run = [&]<class T>(T)
    {
        const T b = s.integer<T>();
        const uint64_t n = std::min<uint64_t>(s.below(300), static_cast<uint64_t>(std::numeric_limits<T>::max()) - static_cast<uint64_t>(static_cast<int64_t>(b) > 0 || std::is_unsigned_v<T> ? b : 0));
        const T e = static_cast<T>(b + static_cast<T>(std::min<uint64_t>(n, std::numeric_limits<T>::max())));
        if (e < b) return;
        s.note("[", int64_t(b), ", ", int64_t(e), ")");
        T x = b;
        for (T i : awl::make_int_range(b, e)) { PBT_CHECK(x < e && i == x, "element ", int64_t(i)); ++x; }
        PBT_CHECK(x == e, "the range is too short");
        const T c = static_cast<T>(s.below(100));
        x = 0;
        for (T i : awl::make_count(c)) { PBT_CHECK(x < c && i == x, "element ", int64_t(i)); ++x; }
        PBT_CHECK(x == c, "the count is too short");
        if (e > b) s.nontrivial();
    };
    switch (s.below(4))
    {
    case 0: run(int{}); break;
    case 1: run(size_t{}); break;
    case 2: run(int8_t{}); break;
    case 3: run(uint16_t{}); break;
    }
}
