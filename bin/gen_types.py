#!/usr/bin/env python3
"""usage: gen_types.py OUTDIR SEED THOROUGH(0|1) - writes types_0.h .. types_7.h: random C++ types with what must be true about them.

The names, the lists of inner types and the lists of alternatives are computed here, from the rules of the documents, not from the code."""
import random
import sys

OUT, SEED, THOROUGH = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PARTS = 8
PER_PART = 500 if THOROUGH else 80


class T:
    """spelling, name by the rules, the list of collected types, size"""

    def __init__(self, cpp, name, inner, size=1, final=False, arithmetic=False, transparent=False):
        self.cpp, self.name, self.size, self.arithmetic, self.hashable = cpp, name, size, arithmetic, False
        rest = [t for i in inner for t in i.collected]
        self.collected = ([] if transparent else [cpp]) + ([] if final else rest)


ARITH = [("bool", "int8_t"), ("char", "int8_t"), ("int8_t", "int8_t"), ("uint8_t", "int8_t"), ("int16_t", "int16_t"), ("uint16_t", "int16_t"), ("char16_t", "int16_t"),
         ("int32_t", "int32_t"), ("uint32_t", "int32_t"), ("wchar_t", "int32_t"), ("char32_t", "int32_t"), ("int64_t", "int64_t"), ("uint64_t", "int64_t"),
         ("long long", "int64_t"), ("unsigned long long", "int64_t"), ("float", "float32_t"), ("double", "float64_t"), ("char8_t", "int8_t"), ("long double", "float128_t")]


class Part:
    def __init__(self, index):
        self.rnd = random.Random("types %d %d" % (SEED, index))
        self.index = index
        self.decls = []
        self.structs = []
        self.enums = []

    def arith(self):
        c, n = self.rnd.choice(ARITH)
        return T(c, n, [], arithmetic=True, final=True)

    def enum(self):
        if self.enums and self.rnd.random() < 0.5:
            return self.rnd.choice(self.enums)
        u = self.rnd.choice([a for a in ARITH if a[1].startswith("int") and a[0] not in ("bool", "char16_t", "char32_t", "wchar_t", "char8_t")])
        n = "E%d" % len(self.enums)
        self.decls.append("enum %s%s : %s { %s_a, %s_b };" % (self.rnd.choice(["class ", ""]), n, u[0], n, n))
        t = T("types%d::%s" % (self.index, n), u[1], [], final=True)
        self.enums.append(t)
        return t

    def struct(self, depth):
        if self.structs and self.rnd.random() < 0.5:
            return self.rnd.choice(self.structs)
        fields = [self.type(depth - 1) for _ in range(self.rnd.randint(1, 5))]
        extra = [self.type(0) for _ in range(self.rnd.randint(1, 3))] if self.rnd.random() < 0.3 else []
        n = "S%d" % len(self.structs)
        decl = "struct %s { %s AWL_REFLECT(%s) };" % (n, " ".join("%s f%d;" % (f.cpp, i) for i, f in enumerate(fields)), ", ".join("f%d" % i for i in range(len(fields))))
        ns = "types%d" % self.index
        if extra:
            # The types of deleted fields.
            decl += "\n} template <> struct awl::mp::type_converter<%s::%s> { using extra_tuple = std::tuple<%s>; }; namespace %s {" % (
                ns, n, ", ".join(e.cpp for e in extra), ns)
        self.decls.append(decl)
        t = T(ns + "::" + n, "struct", fields, 1 + sum(f.size for f in fields))
        # Only the types of the deleted fields themselves are added.
        t.collected = [t.cpp] + [c for f in fields for c in f.collected] + [e.cpp for e in extra]
        self.structs.append(t)
        return t

    def number(self, large):
        if large and self.rnd.random() < 0.5:
            if self.rnd.random() < 0.5:
                return self.rnd.choice([0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 10000, 65535, 1000000]) + self.rnd.choice([0, 0, 1])
            return self.rnd.randint(0, 1 << self.rnd.randint(1, 32))
        return self.rnd.randint(1, 300)

    def final_string(self, c, n):
        return T({"char": "std::string", "wchar_t": "std::wstring", "char16_t": "std::u16string"}[c], "sequence<%s>" % n, [], final=True)

    def key(self):
        return self.rnd.choice([lambda: T("int32_t", "int32_t", [], final=True, arithmetic=True), lambda: T("uint64_t", "int64_t", [], final=True, arithmetic=True),
                                lambda: T("std::string", "sequence<int8_t>", [], final=True), lambda: T("int16_t", "int16_t", [], final=True, arithmetic=True)])()

    def type(self, depth, kind=None):
        r = self.rnd
        if depth <= 0:
            return r.choice([self.arith, self.arith, self.enum, lambda: T("std::string", "sequence<int8_t>", [], final=True),
                             lambda: self.decimal(), lambda: T("std::wstring", "sequence<int32_t>", [], final=True)])()
        k = kind if kind is not None else r.randint(0, 17)
        if k <= 1:
            return self.arith()
        if k <= 5:  # a sequence of one kind
            t = self.type(depth - 1)
            if r.random() < 0.15 and t.arithmetic and t.cpp not in ("bool", "char8_t", "long double"):
                c = self.rnd.choice(["char", "wchar_t", "char16_t"])
                return self.final_string(c, dict(ARITH)[c])
            c = r.choice(["std::vector", "std::vector", "std::list", "std::deque", "std::forward_list", "std::span"])
            if c == "std::vector" and t.arithmetic:
                return T("std::vector<%s>" % t.cpp, "sequence<%s>" % t.name, [], 1 + t.size, final=True)
            return T("%s<%s>" % (c, t.cpp), "sequence<%s>" % t.name, [t], 1 + t.size)
        if k == 6:
            t = self.key()
            return T("%s<%s>" % (r.choice(["std::set", "std::multiset", "std::unordered_set", "awl::vector_set"]), t.cpp), "sequence<%s>" % t.name, [t], 1 + t.size)
        if k <= 8:
            a, b = self.key(), self.type(depth - 1)
            return T("%s<%s, %s>" % (r.choice(["std::map", "std::multimap", "std::unordered_map"]), a.cpp, b.cpp), "sequence<pair<%s, %s>>" % (a.name, b.name), [a, b], 2 + a.size + b.size)
        if k == 9:
            a, b = self.type(depth - 1), self.type(depth - 1)
            ca, cb = [x.cpp + (" const" if r.random() < 0.25 else "") for x in (a, b)]
            return T("std::pair<%s, %s>" % (ca, cb), "pair<%s, %s>" % (a.name, b.name), [a, b], 1 + a.size + b.size, transparent=True)
        if k == 10:
            t = self.type(depth - 1)
            n = self.number(t.arithmetic)
            return T("std::array<%s, %d>" % (t.cpp, n), "array<%s, %d>" % (t.name, n), [t], 1 + t.size, final=t.arithmetic)
        if k == 11:
            t = self.type(depth - 1)
            return T("std::optional<%s>" % t.cpp, "optional<%s>" % t.name, [t], 1 + t.size)
        if k == 12:
            t = self.type(depth - 1)
            return T(r.choice(["std::shared_ptr<%s>", "std::unique_ptr<%s>", "%s *"]) % t.cpp, "pointer<%s>" % t.name, [t], 1 + t.size)
        if k == 13:
            t = r.choice([self.arith, self.enum])()
            return T("std::atomic<%s>" % t.cpp, t.name, [t], 1 + t.size)
        if k == 14:
            ts = [self.type(depth - 1) for _ in range(r.randint(1, 4))]
            return T("std::variant<%s>" % ", ".join(t.cpp for t in ts), "variant<%s>" % "".join(t.name + ", " for t in ts), ts, 1 + sum(t.size for t in ts))
        if k == 15:
            c = r.choice(["std::chrono::system_clock", "std::chrono::steady_clock"])
            d = r.choice(["std::chrono::nanoseconds", "std::chrono::seconds", "std::chrono::duration<double>"])
            return T("std::chrono::time_point<%s, %s>" % (c, d), "int64_t", [T("int64_t", "int64_t", [], final=True)])
        if k == 16:
            return self.decimal()
        return self.struct(depth)

    def decimal(self):
        u = self.rnd.choice([("uint64_t", "int64_t"), ("uint64_t", "int64_t"), ("uint32_t", "int32_t"), ("uint16_t", "int16_t")])
        e = self.rnd.choice([4, 4, 5, 3]) if u[0] == "uint64_t" else (4 if u[0] == "uint32_t" else 3)
        name = "decimal" if u[0] == "uint64_t" and e == 4 else "decimal<%s, %d>" % (u[1], e)
        return T("awl::decimal<%s, %d>" % (u[0], e), name, [], final=True)

    def write(self):
        r = self.rnd
        types = []
        while len(types) < PER_PART:
            # Half of the types are of every kind in turn.
            kind = len(types) // 2 % 18 if len(types) % 2 else None
            t = self.type(r.randint(0 if kind is None else 1, 4), kind)
            if len(t.collected) <= 40 and len(t.name) < 600:
                types.append(t)
        types.sort(key=lambda t: (t.size, len(t.cpp)))
        out = ["namespace types%d\n{" % self.index] + self.decls
        calls = []
        for i, t in enumerate(types):
            group = [t] + [r.choice(types) for _ in range(r.randint(1, 3))]
            own = list(dict.fromkeys(t.collected))
            several = list(dict.fromkeys(c for g in group for c in g.collected))
            out.append("using A%d = %s;" % (i, t.cpp))
            out.append("using C%d = std::tuple<%s>;" % (i, ", ".join(t.collected)))
            out.append("using V%d = std::variant<%s>;" % (i, ", ".join(own)))
            out.append("using W%d = std::variant<%s>;" % (i, ", ".join(several)))
            out.append("using R%d = awl::mp::variant_from_structs<%s>;" % (i, ", ".join(g.cpp for g in group)))
            calls.append('check<A%d, C%d, V%d, W%d, R%d>(out, %d, %d, %s, %s, {%s});' % (
                i, i, i, i, i, self.index, t.size, quoted(t.cpp), quoted(t.name), ", ".join(str(own.index(c)) for c in t.collected)))
        out.append("inline void add(std::vector<Row>& out)\n{\n" + "\n".join(calls) + "\n}\n}")
        with open("%s/types_%d.h" % (OUT, self.index), "w") as f:
            f.write("\n".join(out) + "\n")


def quoted(s):
    return '"' + s + '"'


for p in range(PARTS):
    Part(p).write()
