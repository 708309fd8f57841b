#!/usr/bin/env python3
"""Everything is built by the checks themselves from /repo's working tree; this
only verifies that the tools they need are there."""
import shutil, sys, os
missing = [t for t in ("java", "g++", "clang++") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
if missing:
    print("missing:", missing)
    sys.exit(2)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "build"), exist_ok=True)
print("ok")
