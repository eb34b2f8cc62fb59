#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import os, shutil, subprocess, sys
for t in ("g++", "java", "protoc", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
print("ok")
