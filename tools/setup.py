#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs. This makes sure the tools are there."""
import shutil
import sys
missing = [t for t in ("java", "cmake", "ninja", "g++", "python3") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "all tools are there")
sys.exit(1 if missing else 0)
