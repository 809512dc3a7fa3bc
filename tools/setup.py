#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there; nothing is built ahead, every check builds from /repo"""
import shutil, subprocess, sys
for t in ("verus", "cargo"):
    if not shutil.which(t) and not shutil.which("/root/.cargo/bin/" + t):
        print("missing", t); sys.exit(1)
print("ok")
