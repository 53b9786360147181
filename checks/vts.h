// P14, common part: values as trees, and what a value becomes when another version reads it.
#pragma once
#include "vts_schemas.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/PlainReader.h"
#include "Awl/Io/VersionTolerantSerializable.h"

namespace io = awl::io;
using namespace sg;

namespace vts
{
    // A value with its structure, whatever its C++ types.
    struct Tree
    {
        std::vector<std::string> names;     // of the fields of a structure
        std::vector<std::string> types;
        std::vector<Tree> items;            // the fields, or the elements of a container of structures
        Bytes leaf;
        bool is_struct = false;

        bool operator==(const Tree& t) const { return leaf == t.leaf && is_struct == t.is_struct && names == t.names && items == t.items; }

        std::string text() const
        {
            std::string r = leaf.empty() ? "" : hex(leaf);
            if (is_struct || !items.empty())
            {
                r += "{";
                for (size_t i = 0; i < items.size(); ++i) r += (i ? ", " : "") + (is_struct ? names[i] + "=" : "") + items[i].text();
                r += "}";
            }
            return r;
        }
    };

    template <class T> struct Elem { using type = void; };
    template <class T> struct Elem<std::vector<T>> { using type = T; };
    template <class T> struct Elem<std::optional<T>> { using type = T; };
    template <class T> struct Elem<std::shared_ptr<T>> { using type = T; };
    template <class T, size_t N> struct Elem<std::array<T, N>> { using type = T; };
    template <class K, class T> struct Elem<std::map<K, T>> { using type = T; };
    template <class A, class T> struct Elem<std::variant<A, T>> { using type = T; };
    template <class T> using elem = typename Elem<T>::type;

    template <class T> constexpr bool holds_struct()
    {
        if constexpr (!std::is_void_v<elem<T>>) return awl::is_reflectable_v<elem<T>>;
        else return false;
    }

    template <class T> std::string type_name() { return std::string(awl::mp::make_type_name<T>()); }

    template <class T>
    Tree to_tree(const T& v)
    {
        Tree t;
        if constexpr (awl::is_reflectable_v<T>)
        {
            t.is_struct = true;
            for (auto& n : T::get_member_names()) t.names.push_back(n);
            std::apply([&](auto&... x) { (t.types.push_back(type_name<std::decay_t<decltype(x)>>()), ...); (t.items.push_back(to_tree(x)), ...); }, v.as_const_tuple());
        }
        else if constexpr (holds_struct<T>())
        {
            if constexpr (requires { v.index(); })
            {
                t.leaf.push_back(static_cast<uint8_t>(v.index()));
                if (v.index() == 0) enc(t.leaf, std::get<0>(v)); else t.items.push_back(to_tree(std::get<1>(v)));
            }
            else if constexpr (requires { v.begin()->second; })
            {
                for (auto& e : v) { enc(t.leaf, e.first); t.items.push_back(to_tree(e.second)); }
            }
            else if constexpr (requires { v.begin(); })
            {
                for (auto& e : v) t.items.push_back(to_tree(e));
            }
            else if (v) t.items.push_back(to_tree(*v));
        }
        else enc(t.leaf, v);
        return t;
    }

    struct Flags
    {
        bool deleted = false, added = false, renamed = false, clash = false, maybe = false;
    };

    inline bool mentions_clash(const Tree& t)
    {
        if (std::find(t.names.begin(), t.names.end(), "cl") != t.names.end()) return true;
        for (auto& i : t.items) if (mentions_clash(i)) return true;
        return false;
    }

    // What a value written as `old` is when it is read as New.
    template <class New>
    Tree expect(const Tree& old, Flags& f)
    {
        if constexpr (awl::is_reflectable_v<New>)
        {
            Tree t = to_tree(New{});
            std::vector<bool> found(t.names.size());
            auto one = [&]<class Field>(Field*, size_t i)
            {
                for (size_t k = 0; k < old.names.size(); ++k)
                {
                    if (io::FieldMap<New>::GetNewName(old.names[k]) == t.names[i])
                    {
                        found[i] = true;
                        if (old.names[k] != t.names[i]) f.renamed = true;
                        if (old.types[k] != t.types[i]) { f.clash = true; return; }
                        t.items[i] = expect<Field>(old.items[k], f);
                        return;
                    }
                }
                f.added = true;
            };
            New v{};
            size_t i = 0;
            std::apply([&](auto&... x) { (one(&x, i++), ...); }, v.as_tuple());
            for (size_t k = 0; k < old.names.size(); ++k)
            {
                if (std::find(t.names.begin(), t.names.end(), io::FieldMap<New>::GetNewName(old.names[k])) == t.names.end())
                {
                    f.deleted = true;
                    if (mentions_clash(old.items[k])) f.maybe = true;
                }
            }
            return t;
        }
        else if constexpr (holds_struct<New>())
        {
            Tree t = old;
            for (auto& i : t.items) i = expect<elem<New>>(i, f);
            return t;
        }
        else return old;
    }

    // The names of the types of the (non-structure) fields of the structures of a variant.
    template <class V> struct Names;
    template <class... Ts>
    struct Names<std::variant<Ts...>>
    {
        template <class T> static void used(std::set<std::string>& n)
        {
            if constexpr (awl::is_reflectable_v<T>)
            {
                std::apply([&]<class... F>(const F&...) { ((awl::is_reflectable_v<F> ? void() : void(n.insert(type_name<F>()))), ...); }, T{}.as_const_tuple());
            }
        }
        static std::set<std::string> used() { std::set<std::string> n; (used<Ts>(n), ...); return n; }
        static std::set<std::string> known() { std::set<std::string> n; ((awl::is_reflectable_v<Ts> ? void() : void(n.insert(type_name<Ts>()))), ...); return n; }
    };

    struct Written
    {
        Bytes bytes;
        std::vector<Tree> values;
        std::set<std::string> types;
        std::string from;
    };

    // One version of the family; the functions are in vts_version.cpp, which is compiled for each of them.
    struct Version
    {
        Written (*write)(Src& s, bool own_types);
        void (*read)(Src& s, const std::vector<Written>&, bool own_types);
        void (*same)(Src& s);
    };
    template <int K> const Version& version();
}
