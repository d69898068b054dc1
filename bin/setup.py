#!/usr/bin/env python3
import shutil, sys
for t in ("cbmc", "goto-cc", "goto-instrument", "gcc"):
    if not shutil.which(t):
        sys.exit("missing " + t)
print("ok")
