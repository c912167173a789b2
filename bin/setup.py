#!/usr/bin/env python3
"""Nothing is prebuilt: each check builds what it needs from /repo. This only checks that the tools are there."""
import os, shutil, sys
for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
