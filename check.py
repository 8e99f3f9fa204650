#!/usr/bin/env python3
"""Builds one explorer from /repo's working tree, runs all of its shards and
decides one property.

usage: check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1: violated, with a
line "VIOLATION property=<id> replay=<path>". Exit 2: the check itself failed.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ["-std=gnu++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
        "-include", "functional", "-DVERIF",
        "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "config"),
        "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]


def error(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def known_findings(pid):
    """Keys of listed findings: lines 'known: property=<id> key=<key> <text>'."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + pid:
                out[parts[2].split("=", 1)[1]] = parts[3]
    return out


def runtime(lib):
    return subprocess.check_output(["g++", "-print-file-name=" + lib], text=True).strip()


def launcher(exe, name, extra):
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexport %s PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /usr/bin/python3 %s \"$@\"\n" %
                (extra, os.path.join(VERIF, "harness", name)))
    os.chmod(exe, 0o755)


def module(scratch, exe, name):
    """Command that builds the Python package, and the launcher of an explorer for it."""
    package = os.path.join(scratch, "package", "aleph")
    os.makedirs(package)
    bindings = os.path.join(REPO, "bindings", "python")
    shutil.copy(os.path.join(bindings, "__init__.py"), package)
    launcher(exe, name, "LD_PRELOAD='%s %s' PYTHONPATH='%s'" %
             (runtime("libasan.so"), runtime("libstdc++.so"), os.path.join(scratch, "package")))
    import sysconfig
    return ["g++"] + BASE + SAN + ["-fPIC", "-shared", "-fvisibility=hidden", "-I" + sysconfig.get_paths()["include"],
            "-I/usr/include/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial",
            os.path.join(bindings, "aleph.cc"), "-o", os.path.join(package, "aleph.so"),
            "-ltinyxml2", "-lflann", "-llz4", "-lhdf5_serial_cpp", "-lhdf5_serial"]


def tools(scratch, exe, s):
    """Commands that build the command-line tools, whose entry point is replaced, and the
    launcher of an explorer for them. Those that take long to compile do without
    sanitizers."""
    import shlex
    bin = os.path.join(scratch, "tools")
    os.makedirs(bin, exist_ok=True)
    launcher(exe, s["file"], "VF_TOOLS='%s'" % bin)
    cmds = []
    for t in s["tools"]:
        o = os.path.join(bin, t + ".o")
        d = os.path.join(bin, t + ".driver.o")
        san = [] if t in s.get("plain", []) else SAN
        g = ["g++"] + BASE + san
        cmds.append(["sh", "-c", " && ".join(shlex.join(c) for c in [
            g + ["-include", "tool_env.hh", "-I/usr/include/hdf5/serial",
                 "-c", os.path.join(REPO, "src", "tools", t + ".cc"), "-o", o],
            ["objcopy", "--redefine-sym", "main=tool_main", o],
            g + ["-c", os.path.join(VERIF, "harness", "tool_driver.cc"), "-o", d],
            ["g++"] + san + [o, d, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-o", os.path.join(bin, t)] +
            ["-ltinyxml2", "-lflann", "-llz4", "-lhdf5_serial_cpp", "-lhdf5_serial"]])])
    return cmds


def build(spec, scratch):
    binaries, procs = [], []
    sources = spec["src"] if isinstance(spec["src"], list) else [spec["src"]]
    for i, s in enumerate(sources):
        if isinstance(s, str):
            s = dict(file=s)
        exe = os.path.join(scratch, "bin%d" % i)
        if "tools" in s:
            for k, cmd in enumerate(tools(scratch, exe, s)):
                log = open("%s.%d.log" % (exe, k), "w+")
                procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), log, s["tools"][k]))
            binaries.append((exe, s["file"], s))
            continue
        if s["file"].endswith(".py"):
            cmd = module(scratch, exe, s["file"])
        else:
            cmd = ["g++"] + BASE + (SAN if s.get("san", spec.get("san", True)) else [])
            cmd += s.get("flags", []) + spec.get("flags", [])
            cmd += [os.path.join(VERIF, "harness", s["file"]), "-o", exe]
            cmd += s.get("libs", spec.get("libs", []))
        log = open(exe + ".log", "w+")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), log, s["file"]))
        binaries.append((exe, s["file"], s))
    for p, log, name in procs:
        if p.wait() != 0:
            log.seek(0)
            print(log.read()[-6000:])
            error("unable to build %s" % name)
    return binaries


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = ""
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            only = json.load(open(args.pop(0)))["case"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    start = time.time()
    known = known_findings(pid)

    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p["p"].pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(2)))
    try:
        code = run(pid, spec, tier, seed, only, known, scratch, procs, start)
    finally:
        cleanup()
    sys.exit(code)


def run(pid, spec, tier, seed, only, known, scratch, procs, start):
    binaries = build(spec, scratch)
    built = time.time() - start
    shards = spec.get("shards", 8)
    limit = spec.get("timeout", {}).get(tier, 780 if tier == "quick" else 4 * 3600) - (built if tier == "quick" else 0)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=88:hard_rss_limit_mb=3500:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=88"
    env["OMP_NUM_THREADS"] = spec.get("omp", "1")
    env["LC_ALL"] = "C"

    pending = []
    for exe, name, s in binaries:
        n = s.get("shards", shards)
        for i in range(n):
            pending.append((exe, name, i, n))

    results = []
    running = procs
    queue = list(pending)
    deadline = time.time() + limit
    timed_out = False
    while queue or running:
        while queue and len(running) < 8:
            exe, name, i, n = queue.pop(0)
            out = "%s.%d.json" % (exe, i)
            work = "%s.%d.dir" % (exe, i)
            os.mkdir(work)
            log = open(out + ".log", "w")
            cmd = [exe, "--tier", tier, "--shard", str(i), "--shards", str(n), "--out", out, "--scratch", work,
                   "--hang", "60" if tier == "quick" else "600"]
            if only:
                cmd += ["--only", only]
            if known:
                cmd += ["--known", "\n".join(known)]
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=work)
            running.append(dict(p=p, out=out, name=name, i=i))
        time.sleep(0.05)
        for r in list(running):
            rc = r["p"].poll()
            if rc is not None:
                running.remove(r)
                r["rc"] = rc
                results.append(r)
        if time.time() > deadline:
            timed_out = True
            break

    states = transitions = traces = 0
    notes, samples, violations = {}, [], []
    infra = []
    for r in results:
        data = None
        if r["rc"] in (0, 1) and os.path.exists(r["out"]):
            data = json.load(open(r["out"]))
        if data is None:
            case = ""
            try:
                case = open(r["out"] + ".case", "rb").read().split(b"\0")[0].decode("latin-1")
            except OSError:
                pass
            log = open(r["out"] + ".log", errors="replace").read()
            if r["rc"] == -signal.SIGKILL:
                infra.append("shard %s/%d was killed" % (r["name"], r["i"]))
                continue
            if r["rc"] == 77:
                key, msg = "hang", "no progress on this case; the operation does not terminate in time"
            else:
                key, msg = "crash", "abnormal termination (status %d): %s" % (r["rc"], log[:3000])
            violations.append(dict(key=key, case=case, msg=msg, count=1))
            continue
        states += data["states"]
        transitions += data["transitions"]
        traces += data["traces"]
        for k, v in data["notes"].items():
            notes[k] = notes.get(k, 0) + v
        samples += data["samples"]
        violations += data["violations"]

    # Spread the samples over the shards
    samples = sorted(set(samples), key=len)
    if len(samples) > 12:
        samples = [samples[i * (len(samples) - 1) // 11] for i in range(12)]

    new = [v for v in violations if v["key"] not in known]
    old = {}
    for v in violations:
        if v["key"] in known:
            old.setdefault(v["key"], v)

    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=max(traces, states),
                      samples=samples, exhaustive=not timed_out and not new,
                      bounds=spec.get("bounds", ""), counters=notes),
        assumptions=spec.get("assumptions", []) + ["sizes beyond the stated bounds are not explored"],
        wall_s=round(time.time() - start, 2), violations=len(new))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    for k, v in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))

    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        new.sort(key=lambda v: len(v["case"]))
        path = os.path.join(rdir, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=new[0]["case"], key=new[0]["key"], message=new[0]["msg"],
                           others=new[1:30],
                           how="python3 check.py %s --replay <this file>" % pid), f, indent=1)
        for v in new[:5]:
            print("  case: %s\n  %s" % (v["case"][:600], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if infra:
        error("; ".join(infra))
    if timed_out:
        error("time limit reached before the space was exhausted")
    print("OK property=%s states=%d transitions=%d traces=%d build=%.1fs wall=%.1fs %s" %
          (pid, states, transitions, traces, built, time.time() - start, json.dumps(notes) if notes else ""))
    return 0


main()
