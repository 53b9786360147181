#!/usr/bin/env python3
"""Writes checks/vts_schemas.h: versions of one family of structures, with random subsets and orders of fields (fixed seed)."""
import os
import random

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "vts_schemas.h")
rnd = random.Random(20261119)
N = 7

L = [("l_i", "int32_t", "7"), ("l_s", "std::string", '"leaf"'), ("l_d", "double", "0.5"), ("l_u", "uint16_t", "3"), ("l_v", "std::vector<int32_t>", "{1, 2}"),
     ("l_o", "std::optional<int64_t>", "5"), ("l_b", "bool", "true"), ("l_m", "std::map<int32_t, std::string>", '{{1, "one"}}')]
M = [("m_leaf", "L", "{}"), ("m_vec", "std::vector<L>", "{L{}}"), ("m_opt", "std::optional<L>", "L{}"), ("m_map", "std::map<std::string, L>", '{{"k", L{}}}'),
     ("m_i", "int64_t", "-1"), ("m_w", "std::wstring", 'L"wide"'), ("m_dec", "awl::decimal<uint64_t, 4>", "{}"), ("m_time", "std::chrono::system_clock::time_point", "{}"),
     ("m_var", "std::variant<int32_t, std::string>", "std::string(\"v\")"), ("m_set", "std::set<std::string>", '{"a", "b"}')]
R = [("r_mid", "M", "{}"), ("r_leaf", "L", "{}"), ("r_arr", "std::array<L, 2>", "{}"), ("r_ptr", "std::shared_ptr<M>", "{}"), ("r_mm", "std::map<int32_t, M>", "{}"),
     ("r_vv", "std::variant<int32_t, L>", "3"), ("r_deque", "std::deque<std::string>", '{"d"}'), ("r_vs", "std::vector<std::string>", "{}"), ("r_u8", "std::vector<uint8_t>", "{9}"),
     ("r_vset", "awl::vector_set<int32_t>", "{}"), ("r_u", "uint32_t", "11"), ("r_s", "std::string", '"root"'), ("r_f", "float", "1.5f"), ("r_e", "Plain16", "Plain16::B"),
     ("r_x0", "int32_t", "20"), ("r_x1", "std::string", '"x1"'), ("r_x2", "uint16_t", "22"), ("r_x3", "double", "2.5"), ("r_x4", "bool", "true"), ("r_x5", "int64_t", "25"),
     ("r_x6", "std::vector<int32_t>", "{26}"), ("r_x7", "std::wstring", 'L"x7"')]


def subset(pool, keep):
    p = [f for f in pool if rnd.random() < keep]
    if not p:
        p = [rnd.choice(pool)]
    rnd.shuffle(p)
    return p


out = ["// Generated by bin/gen_schemas.py.", "#pragma once", '#include "serial_gen.h"', '#include "Awl/Io/FieldMap.h"', '#include "Awl/Mp/Mp.h"', ""]
for k in range(N + 1):
    last = k == N           # written only: L is empty
    leaf, mid, root = subset(L, 0.6), subset(M, 0.65), subset(R, 0.65)
    if k == 1:              # the same fields as in version 0, some in another order
        leaf, mid, root = [list(x) for x in prev]
        rnd.shuffle(mid)
    if k == 2:              # one field appended to each
        leaf, mid, root = [list(x) for x in prev]
        for fields, pool in ((leaf, L), (mid, M), (root, R)):
            rest = [f for f in pool if f not in fields and f[0] not in ("cl", "rn")]
            if rest:
                fields.append(rnd.choice(rest))
    prev = (leaf, mid, root)
    leaf, mid, root = list(leaf), list(mid), list(root)
    newer = k >= 3
    if k % 3 != 0 or k == 0:
        (leaf if not last else mid).insert(rnd.randint(0, 2), ("n_new" if newer else "n_old", "std::string", '"renamed"'))
        root.insert(rnd.randint(0, 2), ("rn_new" if newer else "rn_old", "uint64_t", "77"))
    if k in (2, 5):
        leaf.insert(rnd.randint(0, 2), ("cl", "int32_t", "1"))
    if k in (4, 6):
        leaf.insert(rnd.randint(0, 2), ("cl", "std::string", '"c"'))
    if last:
        leaf = []
    out.append("namespace s%d\n{\n    using namespace sg;" % k)
    for name, fields in (("L", leaf), ("M", mid), ("R", root)):
        out.append("    struct %s\n    {" % name)
        for f, t, d in fields:
            out.append("        %s %s = %s;" % (t, f, d))
        out.append("        AWL_REFLECT(%s)\n    };" % ", ".join(f for f, t, d in fields))
    types = ["L", "M", "R"]
    for pool in (L, M, R, [("", "uint64_t", "")]):
        for f, t, d in pool:
            if t not in types:
                types.append(t)
    rnd.shuffle(types)
    out.append("    using V = std::variant<%s>;\n}" % ", ".join(types))
    out.append("struct S%d { static constexpr int number = %d; using L = s%d::L; using M = s%d::M; using R = s%d::R; using V = s%d::V; };\n" % ((k,) * 6))
    if newer:
        for name, o, n in (("L", "n_old", "n_new"), ("M", "n_old", "n_new"), ("R", "rn_old", "rn_new")):
            out.append("template <> class awl::io::FieldMap<s%d::%s> { public: static std::string_view GetNewName(std::string_view n) { return n == \"%s\" ? \"%s\" : n; } };" % (k, name, o, n))
        out.append("")
out.append("using Readable = std::tuple<%s>;" % ", ".join("S%d" % k for k in range(N)))
out.append("using Writable = std::tuple<%s>;" % ", ".join("S%d" % k for k in range(N + 1)))
open(OUT, "w").write("\n".join(out) + "\n")
