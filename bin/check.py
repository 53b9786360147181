#!/usr/bin/env python3
"""Builds the harness of one property against /repo's working tree, runs it and writes evidence/<id>.json.

usage: check.py ID [quick|thorough]      exit 0: held on everything explored; 1: VIOLATION line printed
       check.py ID replay FILE           re-runs a saved case
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
from registry import CHECKS  # noqa: E402

BASE = ["-std=c++20", "-g1", "-pthread", "-no-pie", "-fno-pie", "-w",
        "-I" + REPO, "-I" + REPO + "/Platforms/Posix", "-I" + VERIF + "/lib", "-DAWL_INT_128"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": ["-O1"],
}
COV = ["-fsanitize-coverage=trace-pc"]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=32:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "hard_rss_limit_mb=3500:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:report_signal_unsafe=0:history_size=4:max_allocation_size_mb=2048",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
}


def lib_sources(testing):
    """The library's own translation units, whatever their number."""
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "Awl")):
        if "Testing" in os.path.relpath(d, REPO).split(os.sep) and not testing:
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def build(variants, workdir, seed, thorough):
    """Compiles every variant; returns {name: binary} or raises RuntimeError with the compiler's output."""
    jobs = []
    links = []
    for v in variants:
        name = v["name"]
        san = SAN[v.get("san", "asan")]
        flags = [f.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for f in v.get("flags", [])]
        base = [f for f in BASE]
        if "std" in v:
            base = ["-std=" + v["std"] if f.startswith("-std=") else f for f in base]
        if "gen" in v:  # A part of the inputs is code, which is generated here.
            subprocess.run([sys.executable, os.path.join(VERIF, "bin", v["gen"]), workdir, str(seed), str(int(thorough))], check=True)
            flags.append("-I" + workdir)
        cov = COV if v.get("guided", v.get("san", "asan") == "asan") else []
        objs = []
        srcs = [(os.path.join(VERIF, "checks", s.split()[0]), cov + s.split()[1:]) for s in v["sources"]]
        srcs.append((os.path.join(VERIF, "lib", "pbt.cpp"), []))
        if v.get("lib", True):
            srcs += [(s, cov) for s in lib_sources(v.get("testing", False))]
        for i, (src, extra) in enumerate(srcs):
            obj = os.path.join(workdir, "%s_%d.o" % (name, i))
            own = ["-std=c++20"] if src.endswith("/pbt.cpp") else []
            jobs.append(["g++"] + base + san + extra + flags + own + ["-c", src, "-o", obj])
            objs.append(obj)
        exe = os.path.join(workdir, name)
        links.append((name, exe, ["g++", "-no-pie"] + san + objs + ["-pthread"] + v.get("libs", []) + ["-o", exe]))

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **ENV))
        return p.returncode, cmd, p.stdout

    with ThreadPoolExecutor(8) as pool:
        for rc, cmd, out in list(pool.map(run, jobs)) + list(pool.map(run, [l[2] for l in links])):
            if rc != 0:
                raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), out[-6000:]))
    return {name: exe for name, exe, _ in links}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k.get("property") == pid and k.get("status") == "known"]


def merge(stats_files):
    total = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "discarded": 0}
    per = {}
    samples = []
    timed_out = []
    failed = []
    for path in stats_files:
        if not os.path.exists(path):
            continue
        with open(path) as f:
            data = json.load(f)
        for s in data:
            p = per.setdefault(s["property"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "counters": {}, "maxima": {}, "mutated": 0, "corpus": 0})
            for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discarded"):
                total[k] += s.get(k, 0)
            for k in ("evaluations", "distinct_nontrivial", "mutated", "corpus"):
                p[k] += s.get(k, 0)
            for m in ("labels", "counters"):
                for k, v in s.get(m, {}).items():
                    p[m][k] = p[m].get(k, 0) + v
            for k, v in s.get("maxima", {}).items():
                p["maxima"][k] = max(p["maxima"].get(k, 0), v)
            if s.get("timed_out"):
                timed_out.append(s["property"])
            if s.get("failed"):
                failed.append(s["property"] + ": " + s["failed"])
            for t in s.get("samples", []):
                if sum(1 for x in samples if x["target"] == s["property"]) < 2:
                    samples.append({"target": s["property"], "case": t})
    for p in per.values():
        for k in list(p):
            if p[k] in ({}, 0):
                del p[k]
    return total, per, samples, sorted(set(timed_out)), failed


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py ID [quick|thorough] | check.py ID replay FILE", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="vbuild." + pid + ".", dir="/tmp")
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    try:
        variants = chk["variants"]
        gen_seed, thorough = seed, tier == "thorough"
        if tier == "replay":  # The generated code is that of the run that failed.
            with open(sys.argv[3]) as f:
                m = re.search(r"tier (\w+) seed (\d+)", f.read())
            if m:
                gen_seed, thorough = int(m.group(2)), m.group(1) == "thorough"
        try:
            bins = build(variants, workdir, gen_seed, thorough)
        except RuntimeError as e:
            print("BUILD FAILED for %s\n%s" % (pid, e), file=sys.stderr)
            return 2
        build_s = time.time() - t0
        known = load_known(pid)
        kargs = []
        for k in known:
            kargs += ["--known", k["id"]]
        env = dict(os.environ, **ENV)

        if tier == "replay":
            with open(sys.argv[3]) as f:
                target = f.readline().split()[1]
            for v in variants:
                exe = bins[v["name"]]
                if target == "startup:" + v["name"]:
                    p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                    print(p.stdout[-3000:])
                    return 1 if p.returncode != 0 else 0
                names = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout.split()
                if target in names:
                    return subprocess.run([exe, "--replay", sys.argv[3]] + kargs, env=env).returncode
            print("no such target: " + target, file=sys.stderr)
            return 2

        replays = os.path.join(VERIF, "replays")
        os.makedirs(replays, exist_ok=True)
        os.makedirs(os.path.dirname(evidence), exist_ok=True)
        limit = 780.0 - build_s if tier == "thorough" else 560.0 - build_s
        runs = []
        for v in variants:
            shards = v.get("shards", 8)
            for i in range(shards):
                runs.append((v, i, shards))

        def one(r):
            v, i, shards = r
            tag = "%s.%s.%d" % (pid, v["name"], i)
            out = os.path.join(workdir, tag + ".json")
            save = os.path.join(replays, tag)
            cmd = [bins[v["name"]], "--tier", tier, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--out", out,
                   "--save", save, "--time-limit", str(limit / (1 if len(runs) <= 8 else (len(runs) + 7) // 8))] + kargs
            for f in os.listdir(replays):
                if f.startswith(tag + "."):
                    os.remove(os.path.join(replays, f))
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            return p.returncode, out, save, p.stdout

        with ThreadPoolExecutor(8) as pool:
            results = list(pool.map(one, runs))

        # The code under test may fail before any case: while the objects of the program are initialized.
        for i, (rc, out, save, text) in enumerate(results):
            exe = bins[runs[i][0]["name"]]
            if rc not in (0, 1) and runs[i][1] == 0:
                p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
                if p.returncode != 0:
                    with open(save + ".startup.txt", "w") as f:
                        f.write("target startup:%s\n# tier %s seed %d\n# the code fails during the initialization of a program that uses it\n" % (runs[i][0]["name"], tier, seed))
                        f.write("".join("# " + line + "\n" for line in p.stdout.splitlines()[-20:]))
                    results[i] = (1, out, save, text)

        total, per, samples, timed_out, failed = merge([r[1] for r in results])
        violations = [r for r in results if r[0] == 1]
        errors = [r for r in results if r[0] not in (0, 1)]
        hits = {}
        for p in per.values():
            for k, n in p.get("counters", {}).items():
                if k.startswith("known-finding "):
                    hits[k.split(" ", 1)[1]] = hits.get(k.split(" ", 1)[1], 0) + n
        ev = {
            "property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": chk.get("level", "exploration"),
            "coverage": {
                "evaluations": total["evaluations"],
                "distinct_nontrivial": total["distinct_nontrivial"],
                "rule": chk["rule"],
                "samples": samples[:12],
                "targets": per,
                "build_s": round(build_s, 1),
                "stopped_by_time_limit": timed_out,
                "known_findings_hit": hits,
            },
            "assumptions": chk.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
        }
        if failed:
            ev["coverage"]["failures"] = failed
        with open(evidence, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if violations:
            seen = set()
            for rc, out, save, text in violations:
                d = os.path.dirname(save)
                for f in sorted(os.listdir(d)):
                    if f.startswith(os.path.basename(save) + ".") and f not in seen:
                        seen.add(f)
                        path = os.path.join(d, f)
                        with open(path) as fh:
                            lines = fh.read().splitlines()
                        for line in lines[:60]:
                            if line.startswith("#"):
                                print(line[:600])
                        print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if errors:
            for rc, out, save, text in errors:
                print("ERROR (exit %s): %s" % (rc, text[-3000:]), file=sys.stderr)
            return 2
        print("%s %s: held on %d cases (%d distinct non-trivial), %.0f s%s" % (
            pid, tier, total["evaluations"], total["distinct_nontrivial"], time.time() - t0,
            "; stopped by the time limit: " + ", ".join(timed_out) if timed_out else ""))
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
