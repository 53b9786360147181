#!/usr/bin/env python3
"""Nothing is built in advance, each check compiles its harness against /repo's current tree; this only looks whether the tools are there."""
import shutil
import sys

missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing), file=sys.stderr)
    sys.exit(1)
print("ready")
