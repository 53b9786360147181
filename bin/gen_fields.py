#!/usr/bin/env python3
"""usage: gen_fields.py OUTDIR SEED THOROUGH(0|1) - writes fields_0.h .. fields_3.h: random structures with what must be true about their members.

The numbers of fields and their positions are computed here from the declarations, not from the code."""
import random
import sys

OUT, SEED, THOROUGH = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
PARTS = 4
PER_PART = 160 if THOROUGH else 30

LEAVES = ["bool", "int", "unsigned char", "short", "long long", "double", "std::string", "std::vector<int>", "std::vector<std::string>", "std::optional<int>"]
ABSENT = ["float", "std::wstring", "std::vector<bool>"]


class Struct:
    def __init__(self, name, fields, reflected):
        self.name, self.fields, self.reflected = name, fields, reflected
        self.leaves = [l for f in fields for l in (f.leaves if isinstance(f, Struct) else [f])]  # in order

    @property
    def depth(self):
        return 1 + max([f.depth for f in self.fields if isinstance(f, Struct)], default=0)


def spelled(r, names):
    """The macro's arguments, spaced at random."""
    out = []
    for n in names:
        out.append(r.choice(["", "", " ", "  ", "\t"]) + n + r.choice(["", "", " ", "  "]))
    return ",".join(out)


def identifier(r, used):
    while True:
        n = r.choice("abcxyzm_") + "".join(r.choice("ab_Z09") for _ in range(r.choice([0, 1, 2, 3, 8, 20])))
        if n[:2] != "__" and not (n[0] == "_" and n[1:2].isupper()) and n not in used and "__" not in n and n not in ("_",):
            used.add(n)
            return n


for part in range(PARTS):
    r = random.Random("fields %d %d" % (SEED, part))
    structs, out = [], ["namespace fields%d\n{\nusing ::draw_value;" % part]
    calls = []
    for i in range(PER_PART):
        fields = []
        for _ in range(r.choice([1, 1, 2, 3, 3, 4, 5, 7])):
            inner = [s for s in structs if s.depth < 5 and len(s.leaves) <= 14]
            # A structure whose fields come all from the same few types has many repetitions.
            fields.append(r.choice(inner) if inner and r.random() < 0.4 else r.choice(LEAVES[:3] if i % 3 == 0 else LEAVES))
        s = Struct("S%d" % i, fields, r.random() < 0.5)
        structs.append(s)
        used = set()
        names = [identifier(r, used) for _ in fields]
        out.append("struct S%d { %s %s(%s) };" % (i, " ".join("%s %s;" % (f.name if isinstance(f, Struct) else f, n) for f, n in zip(fields, names)),
                                                  "AWL_REFLECT" if s.reflected else "AWL_TUPLIZABLE", spelled(r, names)))
        out.append("AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(S%d)" % i)
        # Draws every leaf; the keys are ordered like the values.
        out.append("inline void draw_value(pbt::Src& s, S%d& v, std::vector<int>& keys, unsigned bound) { %s }" % (i, " ".join("draw_value(s, v.%s, keys, bound);" % n for n in names)))
        out.append("inline std::vector<const void*> addresses(const S%d& v) { return { %s }; }" % (i, ", ".join("&v.%s" % n for n in names)))
        queries = LEAVES + ABSENT + [t.name for t in r.sample(structs, min(3, len(structs)))]
        first = [s.leaves.index(q) if q in s.leaves else -1 for q in queries]
        # A variant with all of the types in some order, and the indices of the fields in it. Reflected structures have no index.
        kinds = LEAVES + list(dict.fromkeys(f.name for f in fields if isinstance(f, Struct) and not f.reflected)) + r.sample(ABSENT, r.randrange(3))
        r.shuffle(kinds)
        indices = [-1 if isinstance(f, Struct) and f.reflected else kinds.index(f.name if isinstance(f, Struct) else f) for f in fields]
        prototype = "prototype<std::variant<%s>, S%d>({%s})" % (", ".join(kinds), i, ", ".join(str(x) for x in indices)) if s.reflected else "0"
        calls.append("out.push_back(row<S%d>(%d, %d, {%s}, {%s}, {%s}, {%s}, %s));" % (
            i, len(s.leaves), len(fields), ", ".join(str(x) for x in first),
            ", ".join("position<S%d, %s>()" % (i, q) for q in queries),
            ", ".join('"%s"' % q for q in queries),
            ", ".join('"%s"' % n for n in names) if s.reflected else "", prototype))
    out.append("inline void add(std::vector<Row>& out)\n{\n" + "\n".join(calls) + "\n}\n}")
    with open("%s/fields_%d.h" % (OUT, part), "w") as f:
        f.write("\n".join(out) + "\n")
