#!/usr/bin/env python3
# reg.py ID SRC TECHNIQUE BOUNDS ORACLE [extra python kwargs]
import sys
i, src, t, b, o = sys.argv[1:6]
extra = sys.argv[6] if len(sys.argv) > 6 else ""
p = __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../checks.py"
s = open(p).read().rstrip()
assert s.endswith("}")
s = s[:-1] + '    "%s": dict(src=%s,\n                technique=%r,\n                bounds=%r,\n                oracle=%r%s),\n}\n' % (i, src if src.startswith("[") else repr(src), t, b, o, ",\n                " + extra if extra else "")
open(p, "w").write(s)
