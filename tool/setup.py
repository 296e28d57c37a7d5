#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds what it needs from /repo's current tree. Reports whether the tools are there."""
import shutil, sys
miss = [t for t in ("verus", "cargo", "rustc", "z3") if not shutil.which(t)]
print("missing:", miss) if miss else print("tools present")
sys.exit(0)
