"""Nothing is installed: verifies that the tools are there. The checks build
what they need from /repo's working tree."""
import os, shutil, subprocess, sys
for t in ("g++", "ninja", "java"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
print("ok")
