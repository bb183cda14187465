#!/usr/bin/env python3
"""Nothing to build: the checks compile /repo's sources themselves.  Verify that the tools are there."""
import shutil, sys
missing = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "cvc5", "z3-new") if not shutil.which(t)]
if missing: sys.exit("missing tools: " + ", ".join(missing))
