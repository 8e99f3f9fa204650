"""Runtime shared by the explorers that drive the Python module. It offers what
common.hh offers to the other explorers: work distribution, the current case,
violations and evidence."""
import json
import mmap
import os
import signal
import struct
import sys
import time

CASE = 1 << 16


class Harness:
    def __init__(self):
        opts = dict(zip(sys.argv[1::2], sys.argv[2::2]))
        self.thorough = opts.get("--tier") == "thorough"
        self.shard = int(opts.get("--shard", 0))
        self.shards = int(opts.get("--shards", 1))
        self.out = opts.get("--out", "/dev/null")
        self.scratch = opts.get("--scratch", ".")
        self.hang = int(opts.get("--hang", 60))
        self.only = opts.get("--only", "")
        self.known = set(k for k in opts.get("--known", "").split("\n") if k)
        self.item = 0
        self.transitions = 0
        self.notes = {}
        self.seen = set()
        self.samples = []
        self.counter = 0
        self.failures = {}
        self.details = []
        self.unknown = 0
        with open(self.out + ".case", "wb") as f:
            f.write(b"\0" * CASE)
        self.fd = open(self.out + ".case", "r+b")
        self.map = mmap.mmap(self.fd.fileno(), CASE)
        self.progress = mmap.mmap(-1, 8)
        self.current = ""

    def mine(self):
        self.item += 1
        return (self.item - 1) % self.shards == self.shard

    def case(self, text):
        """Announces a case; returns whether it has to be executed."""
        self.current = text
        b = text.encode()[:CASE - 1] + b"\0"
        self.map[:len(b)] = b
        self.progress[:8] = struct.pack("q", struct.unpack("q", self.progress[:8])[0] + 1)
        if self.only and self.only != text:
            return False
        self.seen.add(text)
        self.counter += 1
        if len(self.samples) < 2 or (len(self.samples) < 6 and self.counter & (self.counter - 1) == 0):
            self.samples.append(text)
        return True

    def step(self, n=1):
        self.transitions += n

    def note(self, what, n=1):
        self.notes[what] = self.notes.get(what, 0) + n

    def fail(self, key, msg):
        self.failures[key] = self.failures.get(key, 0) + 1
        if self.failures[key] <= 3:
            self.details.append(dict(key=key, case=self.current, msg=msg))
        if key not in self.known:
            self.unknown += 1
            if self.unknown >= 40:
                os._exit(self.finish())

    def check(self, cond, key, msg):
        self.transitions += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def equal(self, got, want, key, what):
        self.transitions += 1
        if got != want:
            self.fail(key, "%s: expected %r, got %r" % (what, want, got))

    def close(self, got, want, key, what):
        self.transitions += 1
        if not (got == want or abs(got - want) <= 1e-9 * max(1.0, abs(want))):
            self.fail(key, "%s: expected %r, got %r" % (what, want, got))

    def raises(self, kinds, f, key, what):
        """The operation has to be rejected with one of the exceptions."""
        self.transitions += 1
        try:
            r = f()
        except kinds:
            return
        except Exception as e:
            self.fail(key, "%s: unexpected %s: %s" % (what, type(e).__name__, e))
            return
        self.fail(key, "%s: no exception, result %r" % (what, r))

    def guarded(self, key, f):
        try:
            f()
        except Exception as e:
            self.fail(key + "-exception", "unexpected %s: %s" % (type(e).__name__, e))

    def finish(self):
        for d in self.details:
            d["count"] = self.failures[d["key"]]
        with open(self.out, "w") as f:
            json.dump(dict(states=len(self.seen), transitions=self.transitions, traces=0, notes=self.notes,
                           samples=self.samples, violations=self.details), f)
        return 1 if self.unknown else 0


H = Harness()


def main(explore):
    """Explores in a child process: the module may crash or never return."""
    pid = os.fork()
    if pid == 0:
        code = 88
        try:
            explore()
            code = H.finish()
        except BaseException:
            import traceback
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    last, since = b"", time.time()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            if os.WIFSIGNALED(status):
                print("terminated by signal %d" % os.WTERMSIG(status))
                sys.stdout.flush()
                os._exit(88)
            os._exit(os.WEXITSTATUS(status))
        now = H.progress[:8]
        if now != last:
            last, since = now, time.time()
        elif time.time() - since > H.hang:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os._exit(77)
        time.sleep(0.02)
