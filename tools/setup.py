#!/usr/bin/env python3
"""Nothing is kept between runs: each check builds what it needs from /repo's
current tree. This only tells whether the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "localedef") if not shutil.which(t)]
if missing: sys.exit("missing: " + ", ".join(missing))
print("ready")
