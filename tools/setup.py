#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check compiles /repo's current tree); this only tests that the tools work."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "build"), exist_ok=True)
src = "#include <fmt/format.h>\nint main(){return fmt::format(\"{}\",1).size()==1?0:1;}"
out = os.path.join(V, "build", "setup_probe")
subprocess.run(["clang++-18", "-std=gnu++20", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", out, "-lfmt"], input=src.encode(), check=True)
subprocess.run([out], check=True)
os.remove(out)
print("%d checks ready" % len(PROPS))
