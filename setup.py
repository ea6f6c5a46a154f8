#!/usr/bin/env python3
"""Checks that the tools are there. Checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("verus", "cargo-kani", "taskset", "rustc") if not shutil.which(t)]
print("missing:", missing or "none")
sys.exit(0)
