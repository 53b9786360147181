// Generated by bin/gen_schemas.py.
#pragma once
#include "serial_gen.h"
#include "Awl/Io/FieldMap.h"
#include "Awl/Mp/Mp.h"

namespace s0
{
    using namespace sg;
    struct L
    {
        bool l_b = true;
        std::string n_old = "renamed";
        AWL_REFLECT(l_b, n_old)
    };
    struct M
    {
        std::variant<int32_t, std::string> m_var = std::string("v");
        std::map<std::string, L> m_map = {{"k", L{}}};
        awl::decimal<uint64_t, 4> m_dec = {};
        L m_leaf = {};
        std::optional<L> m_opt = L{};
        std::chrono::system_clock::time_point m_time = {};
        AWL_REFLECT(m_var, m_map, m_dec, m_leaf, m_opt, m_time)
    };
    struct R
    {
        uint64_t rn_old = 77;
        std::wstring r_x7 = L"x7";
        std::map<int32_t, M> r_mm = {};
        std::vector<uint8_t> r_u8 = {9};
        Plain16 r_e = Plain16::B;
        uint16_t r_x2 = 22;
        std::deque<std::string> r_deque = {"d"};
        int32_t r_x0 = 20;
        int64_t r_x5 = 25;
        M r_mid = {};
        std::string r_x1 = "x1";
        awl::vector_set<int32_t> r_vset = {};
        std::shared_ptr<M> r_ptr = {};
        std::string r_s = "root";
        L r_leaf = {};
        AWL_REFLECT(rn_old, r_x7, r_mm, r_u8, r_e, r_x2, r_deque, r_x0, r_x5, r_mid, r_x1, r_vset, r_ptr, r_s, r_leaf)
    };
    using V = std::variant<awl::vector_set<int32_t>, std::vector<L>, M, awl::decimal<uint64_t, 4>, std::vector<std::string>, int32_t, std::shared_ptr<M>, std::map<int32_t, M>, uint32_t, std::optional<L>, uint16_t, std::variant<int32_t, std::string>, std::optional<int64_t>, std::variant<int32_t, L>, std::array<L, 2>, bool, std::set<std::string>, uint64_t, std::chrono::system_clock::time_point, std::string, std::deque<std::string>, R, std::map<int32_t, std::string>, L, std::vector<uint8_t>, double, std::wstring, float, std::vector<int32_t>, std::map<std::string, L>, int64_t, Plain16>;
}
struct S0 { static constexpr int number = 0; using L = s0::L; using M = s0::M; using R = s0::R; using V = s0::V; };

namespace s1
{
    using namespace sg;
    struct L
    {
        bool l_b = true;
        std::string n_old = "renamed";
        AWL_REFLECT(l_b, n_old)
    };
    struct M
    {
        std::optional<L> m_opt = L{};
        std::variant<int32_t, std::string> m_var = std::string("v");
        std::map<std::string, L> m_map = {{"k", L{}}};
        awl::decimal<uint64_t, 4> m_dec = {};
        L m_leaf = {};
        std::chrono::system_clock::time_point m_time = {};
        AWL_REFLECT(m_opt, m_var, m_map, m_dec, m_leaf, m_time)
    };
    struct R
    {
        std::wstring r_x7 = L"x7";
        uint64_t rn_old = 77;
        std::map<int32_t, M> r_mm = {};
        std::vector<uint8_t> r_u8 = {9};
        Plain16 r_e = Plain16::B;
        uint16_t r_x2 = 22;
        std::deque<std::string> r_deque = {"d"};
        int32_t r_x0 = 20;
        int64_t r_x5 = 25;
        M r_mid = {};
        std::string r_x1 = "x1";
        awl::vector_set<int32_t> r_vset = {};
        std::shared_ptr<M> r_ptr = {};
        std::string r_s = "root";
        L r_leaf = {};
        AWL_REFLECT(r_x7, rn_old, r_mm, r_u8, r_e, r_x2, r_deque, r_x0, r_x5, r_mid, r_x1, r_vset, r_ptr, r_s, r_leaf)
    };
    using V = std::variant<L, std::variant<int32_t, std::string>, std::array<L, 2>, uint64_t, float, std::chrono::system_clock::time_point, double, std::variant<int32_t, L>, std::map<int32_t, std::string>, int32_t, std::vector<L>, bool, std::vector<uint8_t>, uint32_t, R, std::optional<int64_t>, std::deque<std::string>, M, std::map<int32_t, M>, uint16_t, Plain16, std::set<std::string>, int64_t, awl::decimal<uint64_t, 4>, std::vector<std::string>, std::vector<int32_t>, std::string, std::wstring, awl::vector_set<int32_t>, std::map<std::string, L>, std::optional<L>, std::shared_ptr<M>>;
}
struct S1 { static constexpr int number = 1; using L = s1::L; using M = s1::M; using R = s1::R; using V = s1::V; };

namespace s2
{
    using namespace sg;
    struct L
    {
        std::string n_old = "renamed";
        int32_t cl = 1;
        bool l_b = true;
        std::vector<int32_t> l_v = {1, 2};
        AWL_REFLECT(n_old, cl, l_b, l_v)
    };
    struct M
    {
        std::optional<L> m_opt = L{};
        std::variant<int32_t, std::string> m_var = std::string("v");
        std::map<std::string, L> m_map = {{"k", L{}}};
        awl::decimal<uint64_t, 4> m_dec = {};
        L m_leaf = {};
        std::chrono::system_clock::time_point m_time = {};
        std::wstring m_w = L"wide";
        AWL_REFLECT(m_opt, m_var, m_map, m_dec, m_leaf, m_time, m_w)
    };
    struct R
    {
        std::wstring r_x7 = L"x7";
        std::map<int32_t, M> r_mm = {};
        uint64_t rn_old = 77;
        std::vector<uint8_t> r_u8 = {9};
        Plain16 r_e = Plain16::B;
        uint16_t r_x2 = 22;
        std::deque<std::string> r_deque = {"d"};
        int32_t r_x0 = 20;
        int64_t r_x5 = 25;
        M r_mid = {};
        std::string r_x1 = "x1";
        awl::vector_set<int32_t> r_vset = {};
        std::shared_ptr<M> r_ptr = {};
        std::string r_s = "root";
        L r_leaf = {};
        float r_f = 1.5f;
        AWL_REFLECT(r_x7, r_mm, rn_old, r_u8, r_e, r_x2, r_deque, r_x0, r_x5, r_mid, r_x1, r_vset, r_ptr, r_s, r_leaf, r_f)
    };
    using V = std::variant<bool, std::variant<int32_t, L>, std::map<int32_t, std::string>, uint32_t, std::string, M, float, std::vector<int32_t>, std::vector<std::string>, int64_t, std::map<std::string, L>, int32_t, std::map<int32_t, M>, std::optional<int64_t>, std::chrono::system_clock::time_point, awl::decimal<uint64_t, 4>, std::vector<L>, std::deque<std::string>, Plain16, std::variant<int32_t, std::string>, awl::vector_set<int32_t>, R, uint16_t, L, std::vector<uint8_t>, double, std::set<std::string>, std::optional<L>, std::array<L, 2>, std::wstring, uint64_t, std::shared_ptr<M>>;
}
struct S2 { static constexpr int number = 2; using L = s2::L; using M = s2::M; using R = s2::R; using V = s2::V; };

namespace s3
{
    using namespace sg;
    struct L
    {
        bool l_b = true;
        std::map<int32_t, std::string> l_m = {{1, "one"}};
        std::vector<int32_t> l_v = {1, 2};
        std::optional<int64_t> l_o = 5;
        AWL_REFLECT(l_b, l_m, l_v, l_o)
    };
    struct M
    {
        std::set<std::string> m_set = {"a", "b"};
        std::map<std::string, L> m_map = {{"k", L{}}};
        std::variant<int32_t, std::string> m_var = std::string("v");
        std::chrono::system_clock::time_point m_time = {};
        std::optional<L> m_opt = L{};
        std::wstring m_w = L"wide";
        std::vector<L> m_vec = {L{}};
        awl::decimal<uint64_t, 4> m_dec = {};
        AWL_REFLECT(m_set, m_map, m_var, m_time, m_opt, m_w, m_vec, m_dec)
    };
    struct R
    {
        std::string r_x1 = "x1";
        uint32_t r_u = 11;
        uint16_t r_x2 = 22;
        std::array<L, 2> r_arr = {};
        std::map<int32_t, M> r_mm = {};
        std::variant<int32_t, L> r_vv = 3;
        M r_mid = {};
        std::shared_ptr<M> r_ptr = {};
        float r_f = 1.5f;
        std::vector<int32_t> r_x6 = {26};
        L r_leaf = {};
        std::vector<std::string> r_vs = {};
        AWL_REFLECT(r_x1, r_u, r_x2, r_arr, r_mm, r_vv, r_mid, r_ptr, r_f, r_x6, r_leaf, r_vs)
    };
    using V = std::variant<std::optional<int64_t>, std::set<std::string>, std::deque<std::string>, std::map<int32_t, std::string>, int32_t, std::wstring, std::map<std::string, L>, int64_t, std::vector<int32_t>, bool, std::string, std::vector<std::string>, awl::decimal<uint64_t, 4>, float, std::vector<uint8_t>, Plain16, std::variant<int32_t, std::string>, uint64_t, std::variant<int32_t, L>, R, uint16_t, std::map<int32_t, M>, uint32_t, double, awl::vector_set<int32_t>, std::chrono::system_clock::time_point, std::vector<L>, std::optional<L>, std::array<L, 2>, M, std::shared_ptr<M>, L>;
}
struct S3 { static constexpr int number = 3; using L = s3::L; using M = s3::M; using R = s3::R; using V = s3::V; };

template <> class awl::io::FieldMap<s3::L> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s3::M> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s3::R> { public: static std::string_view GetNewName(std::string_view n) { return n == "rn_old" ? "rn_new" : n; } };

namespace s4
{
    using namespace sg;
    struct L
    {
        std::string cl = "c";
        std::optional<int64_t> l_o = 5;
        std::string n_new = "renamed";
        int32_t l_i = 7;
        std::vector<int32_t> l_v = {1, 2};
        std::string l_s = "leaf";
        bool l_b = true;
        double l_d = 0.5;
        AWL_REFLECT(cl, l_o, n_new, l_i, l_v, l_s, l_b, l_d)
    };
    struct M
    {
        L m_leaf = {};
        std::set<std::string> m_set = {"a", "b"};
        int64_t m_i = -1;
        std::variant<int32_t, std::string> m_var = std::string("v");
        std::chrono::system_clock::time_point m_time = {};
        std::map<std::string, L> m_map = {{"k", L{}}};
        AWL_REFLECT(m_leaf, m_set, m_i, m_var, m_time, m_map)
    };
    struct R
    {
        double r_x3 = 2.5;
        uint64_t rn_new = 77;
        std::vector<std::string> r_vs = {};
        M r_mid = {};
        L r_leaf = {};
        awl::vector_set<int32_t> r_vset = {};
        std::deque<std::string> r_deque = {"d"};
        std::wstring r_x7 = L"x7";
        uint32_t r_u = 11;
        uint16_t r_x2 = 22;
        bool r_x4 = true;
        float r_f = 1.5f;
        std::shared_ptr<M> r_ptr = {};
        std::string r_s = "root";
        std::array<L, 2> r_arr = {};
        int64_t r_x5 = 25;
        AWL_REFLECT(r_x3, rn_new, r_vs, r_mid, r_leaf, r_vset, r_deque, r_x7, r_u, r_x2, r_x4, r_f, r_ptr, r_s, r_arr, r_x5)
    };
    using V = std::variant<std::optional<int64_t>, std::shared_ptr<M>, std::set<std::string>, double, std::map<int32_t, M>, std::deque<std::string>, std::array<L, 2>, Plain16, uint32_t, std::wstring, std::vector<int32_t>, std::vector<std::string>, uint16_t, R, float, std::vector<L>, bool, L, std::chrono::system_clock::time_point, M, std::optional<L>, std::variant<int32_t, L>, std::map<int32_t, std::string>, int32_t, std::string, int64_t, std::map<std::string, L>, awl::decimal<uint64_t, 4>, std::vector<uint8_t>, std::variant<int32_t, std::string>, uint64_t, awl::vector_set<int32_t>>;
}
struct S4 { static constexpr int number = 4; using L = s4::L; using M = s4::M; using R = s4::R; using V = s4::V; };

template <> class awl::io::FieldMap<s4::L> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s4::M> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s4::R> { public: static std::string_view GetNewName(std::string_view n) { return n == "rn_old" ? "rn_new" : n; } };

namespace s5
{
    using namespace sg;
    struct L
    {
        std::vector<int32_t> l_v = {1, 2};
        std::string n_new = "renamed";
        int32_t cl = 1;
        double l_d = 0.5;
        uint16_t l_u = 3;
        std::optional<int64_t> l_o = 5;
        std::map<int32_t, std::string> l_m = {{1, "one"}};
        std::string l_s = "leaf";
        bool l_b = true;
        AWL_REFLECT(l_v, n_new, cl, l_d, l_u, l_o, l_m, l_s, l_b)
    };
    struct M
    {
        std::wstring m_w = L"wide";
        std::map<std::string, L> m_map = {{"k", L{}}};
        std::chrono::system_clock::time_point m_time = {};
        std::set<std::string> m_set = {"a", "b"};
        std::optional<L> m_opt = L{};
        AWL_REFLECT(m_w, m_map, m_time, m_set, m_opt)
    };
    struct R
    {
        std::string r_x1 = "x1";
        uint64_t rn_new = 77;
        int64_t r_x5 = 25;
        std::variant<int32_t, L> r_vv = 3;
        std::shared_ptr<M> r_ptr = {};
        int32_t r_x0 = 20;
        Plain16 r_e = Plain16::B;
        std::vector<uint8_t> r_u8 = {9};
        std::map<int32_t, M> r_mm = {};
        uint32_t r_u = 11;
        bool r_x4 = true;
        M r_mid = {};
        awl::vector_set<int32_t> r_vset = {};
        std::wstring r_x7 = L"x7";
        AWL_REFLECT(r_x1, rn_new, r_x5, r_vv, r_ptr, r_x0, r_e, r_u8, r_mm, r_u, r_x4, r_mid, r_vset, r_x7)
    };
    using V = std::variant<std::vector<L>, std::vector<uint8_t>, std::optional<int64_t>, std::array<L, 2>, awl::decimal<uint64_t, 4>, uint64_t, double, Plain16, bool, uint16_t, std::deque<std::string>, awl::vector_set<int32_t>, M, std::vector<int32_t>, float, std::vector<std::string>, R, int64_t, std::set<std::string>, std::wstring, std::map<int32_t, M>, int32_t, std::shared_ptr<M>, L, std::variant<int32_t, L>, std::optional<L>, std::chrono::system_clock::time_point, std::variant<int32_t, std::string>, uint32_t, std::string, std::map<std::string, L>, std::map<int32_t, std::string>>;
}
struct S5 { static constexpr int number = 5; using L = s5::L; using M = s5::M; using R = s5::R; using V = s5::V; };

template <> class awl::io::FieldMap<s5::L> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s5::M> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s5::R> { public: static std::string_view GetNewName(std::string_view n) { return n == "rn_old" ? "rn_new" : n; } };

namespace s6
{
    using namespace sg;
    struct L
    {
        int32_t l_i = 7;
        double l_d = 0.5;
        std::string cl = "c";
        std::optional<int64_t> l_o = 5;
        AWL_REFLECT(l_i, l_d, cl, l_o)
    };
    struct M
    {
        std::variant<int32_t, std::string> m_var = std::string("v");
        awl::decimal<uint64_t, 4> m_dec = {};
        std::map<std::string, L> m_map = {{"k", L{}}};
        std::vector<L> m_vec = {L{}};
        std::wstring m_w = L"wide";
        AWL_REFLECT(m_var, m_dec, m_map, m_vec, m_w)
    };
    struct R
    {
        bool r_x4 = true;
        uint32_t r_u = 11;
        std::wstring r_x7 = L"x7";
        std::array<L, 2> r_arr = {};
        std::shared_ptr<M> r_ptr = {};
        int64_t r_x5 = 25;
        std::string r_x1 = "x1";
        std::deque<std::string> r_deque = {"d"};
        L r_leaf = {};
        std::variant<int32_t, L> r_vv = 3;
        float r_f = 1.5f;
        Plain16 r_e = Plain16::B;
        std::vector<uint8_t> r_u8 = {9};
        awl::vector_set<int32_t> r_vset = {};
        int32_t r_x0 = 20;
        std::map<int32_t, M> r_mm = {};
        std::vector<std::string> r_vs = {};
        AWL_REFLECT(r_x4, r_u, r_x7, r_arr, r_ptr, r_x5, r_x1, r_deque, r_leaf, r_vv, r_f, r_e, r_u8, r_vset, r_x0, r_mm, r_vs)
    };
    using V = std::variant<awl::decimal<uint64_t, 4>, std::variant<int32_t, L>, std::vector<int32_t>, std::map<std::string, L>, std::shared_ptr<M>, std::map<int32_t, M>, double, std::vector<L>, M, uint16_t, std::set<std::string>, std::variant<int32_t, std::string>, std::array<L, 2>, bool, int64_t, std::vector<uint8_t>, std::vector<std::string>, std::wstring, std::string, awl::vector_set<int32_t>, float, std::optional<L>, R, uint64_t, uint32_t, int32_t, std::chrono::system_clock::time_point, L, std::deque<std::string>, std::optional<int64_t>, Plain16, std::map<int32_t, std::string>>;
}
struct S6 { static constexpr int number = 6; using L = s6::L; using M = s6::M; using R = s6::R; using V = s6::V; };

template <> class awl::io::FieldMap<s6::L> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s6::M> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s6::R> { public: static std::string_view GetNewName(std::string_view n) { return n == "rn_old" ? "rn_new" : n; } };

namespace s7
{
    using namespace sg;
    struct L
    {
        AWL_REFLECT()
    };
    struct M
    {
        std::string n_new = "renamed";
        std::optional<L> m_opt = L{};
        int64_t m_i = -1;
        std::variant<int32_t, std::string> m_var = std::string("v");
        awl::decimal<uint64_t, 4> m_dec = {};
        std::set<std::string> m_set = {"a", "b"};
        AWL_REFLECT(n_new, m_opt, m_i, m_var, m_dec, m_set)
    };
    struct R
    {
        uint64_t rn_new = 77;
        uint32_t r_u = 11;
        std::vector<std::string> r_vs = {};
        bool r_x4 = true;
        Plain16 r_e = Plain16::B;
        int64_t r_x5 = 25;
        std::shared_ptr<M> r_ptr = {};
        M r_mid = {};
        std::vector<int32_t> r_x6 = {26};
        std::string r_s = "root";
        std::deque<std::string> r_deque = {"d"};
        float r_f = 1.5f;
        int32_t r_x0 = 20;
        L r_leaf = {};
        std::wstring r_x7 = L"x7";
        AWL_REFLECT(rn_new, r_u, r_vs, r_x4, r_e, r_x5, r_ptr, r_mid, r_x6, r_s, r_deque, r_f, r_x0, r_leaf, r_x7)
    };
    using V = std::variant<uint64_t, std::vector<int32_t>, uint32_t, std::vector<L>, std::deque<std::string>, double, std::chrono::system_clock::time_point, std::variant<int32_t, std::string>, bool, awl::decimal<uint64_t, 4>, awl::vector_set<int32_t>, std::map<int32_t, M>, std::string, std::variant<int32_t, L>, std::optional<int64_t>, R, std::array<L, 2>, int32_t, std::vector<std::string>, uint16_t, float, Plain16, std::vector<uint8_t>, M, std::set<std::string>, std::map<std::string, L>, std::wstring, L, std::optional<L>, std::shared_ptr<M>, std::map<int32_t, std::string>, int64_t>;
}
struct S7 { static constexpr int number = 7; using L = s7::L; using M = s7::M; using R = s7::R; using V = s7::V; };

template <> class awl::io::FieldMap<s7::L> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s7::M> { public: static std::string_view GetNewName(std::string_view n) { return n == "n_old" ? "n_new" : n; } };
template <> class awl::io::FieldMap<s7::R> { public: static std::string_view GetNewName(std::string_view n) { return n == "rn_old" ? "rn_new" : n; } };

using Readable = std::tuple<S0, S1, S2, S3, S4, S5, S6>;
using Writable = std::tuple<S0, S1, S2, S3, S4, S5, S6, S7>;
