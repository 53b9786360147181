// P34: structures as the list of their members. The structures, and what must be true about them, are written by bin/gen_fields.py when the check is built.
// PART 0..3: the structures of a part. PART 4: the checks.
#include <algorithm>
#include <array>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include "pbt.h"

struct Row
{
    size_t leaves, fields, counted;
    std::vector<int> expected_positions, positions;
    std::vector<std::string> queries, expected_names, names;
    size_t prototype; // what is wrong with the prototype
    bool reflectable;
    size_t size;
    void (*values)(pbt::Src&);
};

#if PART == 4

void rows_0(std::vector<Row>&); void rows_1(std::vector<Row>&); void rows_2(std::vector<Row>&); void rows_3(std::vector<Row>&);

namespace
{
    const std::vector<Row>& rows()
    {
        static const std::vector<Row> all = []
        {
            std::vector<Row> r;
            rows_0(r); rows_1(r); rows_2(r); rows_3(r);
            std::stable_sort(r.begin(), r.end(), [](const Row& a, const Row& b) { return a.leaves < b.leaves; });
            return r;
        }();
        return all;
    }

    PBT_PROPERTY(declared_members, 20000, 100000)
    {
        const Row& r = rows()[s.below(rows().size())];
        PBT_CHECK(r.counted == r.leaves, "a structure of ", r.leaves, " fields has ", r.counted);
        PBT_CHECK(r.size == r.fields, "a structure of ", r.fields, " members has ", r.size);
        for (size_t i = 0; i < r.queries.size(); ++i)
            PBT_CHECK(r.positions[i] == r.expected_positions[i], "the position of ", r.queries[i], " is ", r.positions[i], ", not ", r.expected_positions[i]);
        PBT_CHECK(r.reflectable == !r.expected_names.empty(), "reflectable: ", r.reflectable);
        PBT_CHECK(r.prototype == 0, "the prototype of ", r.fields, " members, ", r.prototype);
        PBT_CHECK(r.names == r.expected_names, "the names of ", r.fields, " members");
        s.maximum("structures", rows().size());
        s.maximum("fields", r.leaves);
        for (size_t i = 0; i < r.names.size(); ++i) s.note(r.names[i]);
        s.note(r.fields, " members, ", r.leaves, " fields");
        if (r.leaves > r.fields) s.nontrivial();
    }

    PBT_PROPERTY(values_of_members, 60000, 600000)
    {
        rows()[s.below(rows().size())].values(s);
    }
}

#else

#include "Awl/Tuplizable.h"
#include "Awl/Reflection.h"
#include "Awl/Prototype.h"
#include "Awl/Getters.h"
#include "Awl/KeyCompare.h"
#include "Awl/Io/TypeIndex.h"

namespace
{
    template <class S, class F> int position()
    {
        constexpr size_t i = awl::io::indexof_type<S, F>();
        return i == awl::io::no_type_index ? -1 : static_cast<int>(i);
    }

    int draw(pbt::Src& s, std::vector<int>& keys, unsigned bound) { keys.push_back(static_cast<int>(s.below(bound))); return keys.back(); }

    [[maybe_unused]] void draw_value(pbt::Src& s, bool& v, std::vector<int>& keys, unsigned) { v = draw(s, keys, 2) != 0; }
    template <class T> requires (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
    void draw_value(pbt::Src& s, T& v, std::vector<int>& keys, unsigned bound) { v = static_cast<T>(draw(s, keys, bound)); }
    [[maybe_unused]] void draw_value(pbt::Src& s, std::string& v, std::vector<int>& keys, unsigned bound) { v.assign(static_cast<size_t>(draw(s, keys, bound)), 'q'); }
    [[maybe_unused]] void draw_value(pbt::Src& s, std::vector<int>& v, std::vector<int>& keys, unsigned bound) { v.assign(static_cast<size_t>(draw(s, keys, bound)), 3); }
    [[maybe_unused]] void draw_value(pbt::Src& s, std::vector<std::string>& v, std::vector<int>& keys, unsigned bound) { v.assign(static_cast<size_t>(draw(s, keys, bound)), "s"); }
    [[maybe_unused]] void draw_value(pbt::Src& s, std::optional<int>& v, std::vector<int>& keys, unsigned bound) { const int k = draw(s, keys, bound); if (k) v = k; else v.reset(); }

    template <class Tuple> std::vector<const void*> elements(const Tuple& t)
    {
        std::vector<const void*> out;
        std::apply([&](auto&... x) { (out.push_back(&x), ...); }, t);
        return out;
    }

    template <class S, size_t... i> bool getters_right(const S& v, const std::vector<const void*>& where, std::index_sequence<i...>)
    {
        return ((static_cast<const void*>(&awl::tuplizable_getter<S, i>()(v)) == where[i]) && ...);
    }

    // One pair of values.
    template <class S> void values(pbt::Src& s)
    {
        const unsigned bound = 1 + static_cast<unsigned>(s.below(4));
        std::vector<int> ka, kb;
        S a{}, b{};
        draw_value(s, a, ka, bound);
        if (s.chance(1, 2))
        {
            draw_value(s, b, kb, bound);
        }
        else // They differ late, or not at all.
        {
            b = a; kb = ka;
            std::vector<int> tail;
            if (s.chance(2, 3))
            {
                // Draws from a prepared tape are not possible here: the last member alone is drawn again.
                auto t = awl::object_as_tuple(b);
                auto& last = std::get<std::tuple_size_v<decltype(t)> - 1>(t);
                draw_value(s, last, tail, bound);
                std::copy(tail.begin(), tail.end(), kb.end() - static_cast<std::ptrdiff_t>(tail.size()));
            }
        }
        const S& ca = a;
        const auto where = addresses(a);
        PBT_CHECK(elements(awl::object_as_tuple(a)) == where, "the tuple does not refer to the members in order");
        PBT_CHECK(elements(awl::object_as_tuple(ca)) == where && elements(awl::object_as_const_tuple(a)) == where, "the constant tuple does not refer to the members in order");
        PBT_CHECK((std::is_same_v<decltype(awl::object_as_tuple(ca)), decltype(awl::object_as_const_tuple(ca))>), "the types of the tuples");
        PBT_CHECK((std::is_same_v<typename awl::tuplizable_traits<S>::Tie, decltype(a.as_tuple())> && std::is_same_v<typename awl::tuplizable_traits<S>::ConstTie, decltype(ca.as_tuple())>), "the traits");
        std::vector<const void*> visited;
        std::vector<size_t> indices;
        awl::for_each(awl::object_as_tuple(ca), [&](auto& x) { visited.push_back(&x); });
        PBT_CHECK(visited == where, "for_each");
        visited.clear();
        awl::for_each_index(awl::object_as_tuple(a), [&](auto& x, auto i) { visited.push_back(&x); indices.push_back(i); });
        PBT_CHECK(visited == where, "for_each_index");
        for (size_t i = 0; i < indices.size(); ++i) PBT_CHECK(indices[i] == i, "index ", i, " is ", indices[i]);
        auto t = awl::object_as_tuple(a);
        visited.clear();
        awl::for_each(t, [&](auto& x) { visited.push_back(&x); });
        PBT_CHECK(visited == where, "for_each of a variable tuple");
        PBT_CHECK(getters_right(ca, where, std::make_index_sequence<std::tuple_size_v<decltype(t)>>()), "tuplizable_getter");
        const auto array = awl::tuple_to_array(t, [](auto& x) -> const void* { return &x; });
        PBT_CHECK(std::vector<const void*>(array.begin(), array.end()) == where, "tuple_to_array");
        const auto transformed = awl::transform_tuple(t, [](auto& x) -> const void* { return &x; });
        std::vector<const void*> u;
        std::apply([&](auto... x) { (u.push_back(x), ...); }, transformed);
        PBT_CHECK(u == where, "transform_tuple");

        PBT_CHECK((a == b) == (ka == kb) && (a != b) == (ka != kb) && (a < b) == (ka < kb) && (a > b) == (ka > kb) && (a <= b) == (ka <= kb) && (a >= b) == (ka >= kb),
            "operators of ", pbt::str(ka.size()), " fields");
        PBT_CHECK(awl::objects_equal(a, b) == (ka == kb) && awl::objects_less(a, b) == (ka < kb) && awl::objects_greater(a, b) == (ka > kb), "objects_equal, _less, _greater");
        awl::object_as_tuple(a) = awl::object_as_const_tuple(b);
        PBT_CHECK(a == b, "an assignment through the tuples");
        if (ka != kb && ka.size() > 2) s.nontrivial();
    }

    // The prototype of S with the indices of the types in the variant; the answer is a mask of what is wrong.
    template <class V, class S> size_t prototype(const std::vector<int>& expected)
    {
        const awl::AttachedPrototype<V, S> attached;
        const awl::Prototype& p = attached;
        size_t wrong = p.GetCount() != expected.size();
        std::vector<awl::DetachedPrototype::FieldContainer> fields;
        for (size_t i = 0; i < expected.size() && !wrong; ++i)
        {
            const awl::Field f = p.GetField(i);
            if (f.name != S::get_member_names()[i]) wrong |= 2;
            if (f.type != (expected[i] < 0 ? awl::Field::NoType : static_cast<size_t>(expected[i]))) wrong |= 4;
            if (!(f == awl::Field{ S::get_member_names()[i], f.type }) || f == awl::Field{ S::get_member_names()[i], f.type + 1 } || f == awl::Field{ "nobody", f.type }) wrong |= 8;
            fields.push_back({ std::string(f.name), f.type });
        }
        if (wrong) return wrong;
        const awl::DetachedPrototype detached(p), made(fields);
        if (!(detached == made) || detached != made || detached.GetCount() != expected.size()) wrong |= 16;
        for (size_t i = 0; i < expected.size(); ++i)
        {
            if (!(detached.GetField(i) == p.GetField(i))) wrong |= 32;
            auto other = fields;
            other[i].name += 'x';
            if (awl::DetachedPrototype(other) == detached) wrong |= 64;
            if (expected[i] < 0) continue;
            awl::DetachedPrototype mapped(p);
            mapped.SetFieldType(i, static_cast<size_t>(expected[i]) + 1);
            if (mapped == detached || mapped.GetField(i).type != static_cast<size_t>(expected[i]) + 1) wrong |= 128;
            mapped.SetFieldType(i, static_cast<size_t>(expected[i]));
            if (!(mapped == detached)) wrong |= 256;
        }
        fields.pop_back();
        if (awl::DetachedPrototype(fields) == detached) wrong |= 512;
        return wrong;
    }

    template <class S> Row row(size_t leaves, size_t fields, std::vector<int> expected, std::vector<int> positions, std::vector<std::string> queries, std::vector<std::string> names, size_t wrong)
    {
        constexpr size_t counted = awl::io::countof_fields<S>();
        Row r{ leaves, fields, counted, std::move(expected), std::move(positions), std::move(queries), std::move(names), {}, wrong, awl::is_reflectable_v<S>,
            std::tuple_size_v<typename awl::tuplizable_traits<S>::Tie>, &values<S> };
        if constexpr (awl::is_reflectable_v<S>)
        {
            const auto& list = S::get_member_names();
            for (size_t i = 0; i < list.size(); ++i) r.names.push_back(list[i]);
            bool found = std::equal(list.begin(), list.end(), r.names.begin(), r.names.end());
            for (size_t i = 0; i < r.names.size(); ++i)
                found = found && list.find(r.names[i]) - list.begin() == static_cast<std::ptrdiff_t>(i) && list.find_cstr(r.names[i].c_str()) - list.begin() == static_cast<std::ptrdiff_t>(i);
            found = found && list.find("nobody") == list.end() && list.find_cstr("nobody") == list.end();
            if (!found) r.names.push_back("(lookup)");
        }
        return r;
    }
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#define FILE_NAME STR(CAT(fields_, PART).h)
#include FILE_NAME

void CAT(rows_, PART)(std::vector<Row>& out) { CAT(fields, PART)::add(out); }

#endif
