#!/usr/bin/env python3
"""setup_cmd: confirms that the tools the checks need are here (nothing has to be prepared)."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory(dir=V, prefix=".setup_") as d:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write("#include <vector>\n#include <Eigen/Dense>\nint main(){ std::vector<int> v(3); return v[2]; }\n")
    for san in ("address,undefined", "thread"):
        exe = os.path.join(d, "t")
        r = subprocess.run(["g++", "-std=c++17", "-fsanitize=" + san, "-isystem", "/usr/include/eigen3", src, "-o", exe])
        r2 = subprocess.run([exe]) if r.returncode == 0 else r
        if r.returncode or r2.returncode:
            sys.exit("sanitizer build failed: " + san)
print("setup ok")
