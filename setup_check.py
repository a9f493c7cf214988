#!/usr/bin/env python3
"""setup_cmd: makes sure the tools the checks need are here. The checks themselves build everything from /repo."""
import shutil, sys
missing = [t for t in ("/usr/bin/clang++-14", "ninja", "protoc", "ar") if shutil.which(t) is None]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
