#!/usr/bin/env python3
"""Sensitivity experiments: mutate.py FILE — FILE lists textual changes, one per block:
   ID path
   <<<<
   old
   ====
   new
   >>>>
Each is applied to a scratch copy of the sources and the quick check of ID is run against the copy (VERIF_REPO)."""
import os, shutil, subprocess, sys, tempfile, re, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(sys.argv[1]).read()
only = sys.argv[2:] 
blocks = re.findall(r"^(\S+) (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", text, re.S | re.M)
missed = 0
for n, (pid, path, old, new) in enumerate(blocks):
    if only and str(n) not in only:
        continue
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("Awl", "Platforms", "Extras"):
            shutil.copytree(os.path.join("/repo", x), os.path.join(d, x))
        p = os.path.join(d, path)
        src = open(p).read()
        crlf = "\r\n" in src
        src = src.replace("\r\n", "\n")
        if src.count(old) < 1:
            print(n, pid, "NOT FOUND:", old[:80])
            continue
        src = src.replace(old, new, 1)
        open(p, "w").write(src)
        t = time.time()
        r = subprocess.run([os.path.join(VERIF, "bin", "check.py"), pid, "quick"], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        verdict = {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, str(r.returncode))
        msg = [l for l in r.stdout.splitlines() if l.startswith("# ")][:3]
        print(n, pid, verdict, "%.0fs" % (time.time() - t), repr(new[:70]), "|", " ".join(msg)[:260] if r.returncode == 1 else r.stdout[-300:] if r.returncode == 2 else "", flush=True)
        missed += r.returncode != 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("not caught:", missed)
