"""Access to the command-line tools, each of which runs as a server that starts
one child process per request."""
import os
import subprocess

from vf import H

SERVERS = {}


class Result:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err

    def rows(self):
        return [line.split() for line in self.out.splitlines() if line.strip()]


def scratch(name=""):
    return os.path.join(os.path.abspath(H.scratch), name) if name else os.path.abspath(H.scratch)


def put(name, text):
    path = scratch(name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def get(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return None


def wipe(path):
    if os.path.isdir(path):
        for n in os.listdir(path):
            os.unlink(os.path.join(path, n))
    else:
        os.makedirs(path)
    return path


def away(name):
    """A file that a tool wanted to create outside of the scratch directory."""
    return os.path.join(scratch("away"), name)


def run(tool, *args, stdin=""):
    if tool not in SERVERS:
        os.makedirs(scratch("away"), exist_ok=True)
        env = dict(os.environ, VF_ROOT=scratch(), VF_AWAY=scratch("away"))
        SERVERS[tool] = subprocess.Popen([os.path.join(os.environ["VF_TOOLS"], tool)], stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE, env=env)
    p = SERVERS[tool]
    inp, out, err = put("stdin", stdin) if stdin else "/dev/null", scratch("stdout"), scratch("stderr")
    p.stdin.write(("\x1f".join([scratch(), inp, out, err] + [str(a) for a in args]) + "\n").encode())
    p.stdin.flush()
    status = int(p.stdout.readline())
    H.note("tool runs")
    return Result(status, get(out), get(err))


def good(tool, key, *args, stdin=""):
    """Runs a tool that has to succeed; returns nothing if it does not."""
    r = run(tool, *args, stdin=stdin)
    H.check(r.status == 0, key + "-status", lambda: "%s %s: status %d: %s" %
            (tool, " ".join(map(str, args)), r.status, (r.err or "")[-1500:]))
    return r if r.status == 0 else None


def number(token):
    return float(token)


def near(a, b, eps=2e-5):
    """Agreement of a printed number, with six significant digits, with a value."""
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= eps * max(1.0, abs(b))


def same(got, want, eps=2e-5):
    """Agreement of two lists of tuples of numbers, as multisets."""
    if len(got) != len(want):
        return False
    return all(len(g) == len(w) and all(near(x, y, eps) for x, y in zip(g, w)) for g, w in zip(sorted(got), sorted(want)))


def expect(got, want, key, what, eps=2e-5):
    H.check(same(got, want, eps), key, lambda: "%s: expected %r, got %r" % (what, sorted(want), sorted(got)))
