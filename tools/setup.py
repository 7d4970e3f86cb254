#!/usr/bin/env python3
"""Checks that the toolchain is there. Checks build what they need themselves, from /repo's working tree."""
import subprocess, sys
for c in (["g++", "--version"], ["python3", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print("ok")
