#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (each check builds from the working tree); make sure the tools are there."""
import os, shutil, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: %s" % missing)
print("ready")
