#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs. Verifies that the tools it needs are here."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "gcc", "python3-vt") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
