#!/usr/bin/env python3
"""Checks that the tools the analysis needs are installed."""
import os, sys
bad = [t for t in ("/usr/bin/clang++-18", "/usr/bin/clang-18", "/usr/bin/opt-18", "/usr/bin/llvm-cxxfilt-18") if not os.path.exists(t)]
if bad:
    sys.exit("missing: " + " ".join(bad))
print("ok")
