#!/usr/bin/env python3
"""Random small changes to the sources: automut.py SEED COUNT ID... — for each property, COUNT changes drawn from the files it is
anchored in (an operator flipped, a condition negated, a constant moved by one, a statement dropped, a move made a copy) are
applied one at a time to a scratch copy, and the quick check of the property runs against it. What is not caught is printed with
its line, to be judged by hand: an equivalent change, code outside of the property, or a gap of the check."""
import os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "checks"))
from props import PROPS
REPO = "/repo"
OPS = [
    (r"(?<![<>=!&|+\-*/^%])<(?![<=a-zA-Z_:>])(?= )", ["<="]), (r"(?<=\s)>(?=\s)", [">="]), (r"<=(?!>)", ["<"]), (r"(?<=\s)>=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"(?<=\s)\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\+\+", ["--"]), (r"--", ["++"]), (r"(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]),
    (r" \* (?=[\w(])", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\bstd::move\(", ["("]),
    (r"(?<=[(\s])!(?=[\w(])", [""]), (r"(?<![\w.:])0(?![\w.])", ["1"]), (r"(?<![\w.:])1(?![\w.])", ["2", "0"]), (r"\bnullptr\b(?=;)", ["nullptr /*x*/"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bbegin\(\)", ["end()"]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bnext\b", ["prev"]), (r"\bprev\b", ["next"]), (r"<<(?= )", [">>"]), (r" & (?=\w)", [" | "]), (r" \| (?=\w)", [" & "]),
    (r"\bif \((?=.*\)$)", ["if (!("]), (r"\bwhile \((?=.*\)$)", ["while (!("]),
]

def candidates(path):
    src = open(os.path.join(REPO, path)).read().replace("\r\n", "\n").split("\n")
    out, comment = [], False
    for n, line in enumerate(src):
        t = line.strip()
        if comment or t.startswith("/*"):
            comment = "*/" not in t
            continue
        if not t or t.startswith(("//", "#", "*", "template", "static_assert", "using ", "namespace", "friend", "struct", "class", "assert(", "requires", "public", "private", "typedef", "extern")) or t.endswith("\\"):
            continue
        code = line.split("//")[0]
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for sub in subs:
                    if sub == "nullptr /*x*/":
                        continue
                    new = code[:m.start()] + sub + code[m.end():]
                    if sub.endswith("(!("):
                        new = new.rstrip() + ")"
                    out.append((path, n, line, new))
        if re.match(r"^[\w:.\->*\[\]()+ =,&!]+;$", t) and not re.match(r"^(return|const|auto|using|[\w:<>]+ \w+( =.*)?;|break|else|co_|virtual|static|~|explicit|constexpr|throw)", t):
            out.append((path, n, line, re.match(r"\s*", line).group() + ";"))
        if re.match(r"^(continue|break|return);$", t):
            out.append((path, n, line, re.match(r"\s*", line).group() + ";"))
    return out

def main():
    seed, count, ids = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    for p in PROPS:
        if p["id"] not in ids:
            continue
        files = []
        for f in p["anchors"]["files"]:
            full = os.path.join(REPO, f)
            files += [os.path.join(f, x) for x in sorted(os.listdir(full)) if x.endswith(".h")] if os.path.isdir(full) else [f]
        rnd = random.Random(seed + p["id"])
        pool = [c for f in files for c in candidates(f)]
        rnd.shuffle(pool)
        seen, done = set(), 0
        for path, n, old, new in pool:
            if done == count:
                break
            if (path, n) in seen:
                continue
            seen.add((path, n))
            d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
            try:
                for x in ("Awl", "Platforms", "Extras"):
                    shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
                f = os.path.join(d, path)
                lines = open(f).read().replace("\r\n", "\n").split("\n")
                lines[n] = new
                open(f, "w").write("\n".join(lines))
                t = time.time()
                check = lambda pid: subprocess.run([os.path.join(VERIF, "bin", "check.py"), pid, "quick"], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                r = check(p["id"])
                by = ""
                if r.returncode == 0:  # The code may be the business of another property anchored in the file.
                    for q in PROPS:
                        if q["id"] != p["id"] and any(path == f or (f.endswith("/") and path.startswith(f)) for f in q["anchors"]["files"]):
                            if check(q["id"]).returncode == 1:
                                r.returncode, by = 1, " by " + q["id"]
                                break
                built = "error:" not in r.stdout
                verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode) if built else "NOBUILD"
                if verdict == "NOBUILD":
                    continue
                done += 1
                print(p["id"], verdict + by, "%.0fs" % (time.time() - t), "%s:%d" % (path, n + 1), "|", old.strip(), "=>", new.strip(), flush=True)
                if verdict.startswith("ERROR"):
                    print(r.stdout[-300:], flush=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)
main()
