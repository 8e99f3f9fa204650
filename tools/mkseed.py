#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/ID/ from the descriptions in tools/seeds/*.py.

A description is a call S(id, property, [(file, old, new), ...], demo (C++ source), needs, what_it_breaks, flags).
Nothing in /repo is modified: the patch is computed from a scratch copy of the files."""
import glob, json, os, shutil, subprocess, sys, tempfile

R, V = os.environ.get("VERIF_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

def S(id, prop, edits, demo, needs, what, flags="", tool=None, python=False):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, what=what, flags=flags, tool=tool, python=python)

SCRIPT = """#!/bin/bash
# Run in the repository after a build; exits with 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=gnu++11 -O1 -w -include functional -I include -I /usr/include/eigen3 "$here/demo.cc" -o "$tmp/demo"%s || exit 2
cd "$tmp" && timeout 120 ./demo
"""

# Demonstrations for a command-line tool or the Python bindings are shell scripts that find the compiled program in $tool
# or the compiled module on PYTHONPATH, and run in an empty directory.
TOOL = """#!/bin/bash
# Run in the repository after a build; exits with 0 if the behaviour is right.
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
%s || exit 2
cd "$tmp" || exit 2
%s"""
CC = "g++ -std=gnu++11 -O1 -w -include functional -I include -I /usr/include/eigen3"
LIBS = (" -I /usr/include/hdf5/serial -L /usr/lib/x86_64-linux-gnu/hdf5/serial", " -ltinyxml2 -lflann -llz4 -lhdf5_serial_cpp -lhdf5_serial")

def make(id):
    s = SEEDS[id]
    d = os.path.join(V, "seeded", id)
    tmp = tempfile.mkdtemp()
    try:
        diff = ""
        files = []
        for f, old, new in s["edits"]:
            for side in "ab":
                t = os.path.join(tmp, side, f)
                if not os.path.exists(t):
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    shutil.copy(os.path.join(R, f), t)
            t = os.path.join(tmp, "b", f)
            text = open(t).read()
            assert text.count(old) == 1, "%s: text occurs %d times in %s:\n%s" % (id, text.count(old), f, old)
            open(t, "w").write(text.replace(old, new))
            if f not in files: files.append(f)
        for f in files:
            diff += "diff --git a/%s b/%s\n" % (f, f)
            diff += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, universal_newlines=True).stdout
    finally:
        shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if s["tool"]:
        script = TOOL % (CC + LIBS[0] + ' src/tools/%s.cc -o "$tmp/tool"' % s["tool"] + LIBS[1], 'tool="$tmp/tool"\n' + s["demo"].lstrip("\n"))
    elif s["python"]:
        script = TOOL % (CC + LIBS[0] + ' -shared -fPIC -fvisibility=hidden -I "$(python3 -c "import sysconfig; print(sysconfig.get_paths()[\'include\'])")" bindings/python/aleph.cc -o "$tmp/aleph.so"' + LIBS[1], "PYTHONPATH=. timeout 120 python3 -c '\n" + s["demo"].lstrip("\n") + "'\n")
    else:
        script = SCRIPT % ((" " + s["flags"]) if s["flags"] else "")
        open(d + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(script)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=2)
    subprocess.run(["git", "-C", R, "apply", "--check", d + "/patch.diff"], check=True)

if __name__ == "__main__":
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    for id in (sys.argv[1:] or sorted(SEEDS)):
        make(id)
        print("seeded", id, SEEDS[id]["prop"])
