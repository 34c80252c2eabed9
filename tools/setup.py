#!/usr/bin/env python3
"""setup_cmd: makes sure the tools the checks need are present. Nothing is kept:
every check compiles library and harness itself."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "clang", "clang++", "objcopy") if not shutil.which(t)]
if missing:
    print("missing tools: " + ", ".join(missing))
sys.exit(1 if missing else 0)
