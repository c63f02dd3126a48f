#!/usr/bin/env python3
"""Nothing to build ahead: every check recompiles /repo's sources.  Check the tools."""
import shutil, sys
bad = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "z3") if not shutil.which(t)]
print("missing: " + " ".join(bad) if bad else "tools present")
sys.exit(1 if bad else 0)
