#!/usr/bin/env python3
"""builds the framework (engine, LLVM IR of the harness with /repo, native replay)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
ok, s = check.build()
print("built" if ok else "build failed", round(s), "s")
sys.exit(0 if ok else 1)
