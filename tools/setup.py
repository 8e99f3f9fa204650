#!/usr/bin/env python3
"""setup_cmd: verifies that the toolchain the checks need is there (nothing is prebuilt:
every check compiles its explorer from /repo's working tree)."""
import os, subprocess, sys, tempfile, shutil
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    s = os.path.join(d, "t.cc")
    with open(s, "w") as f:
        f.write("#include <boost/multi_index_container.hpp>\n#include <Eigen/Core>\nint main(){return 0;}\n")
    r = subprocess.run(["g++", "-std=gnu++14", "-I/usr/include/eigen3", "-fsanitize=address,undefined", s, "-o", os.path.join(d, "t")])
    if r.returncode == 0:
        r = subprocess.run([os.path.join(d, "t")])
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
