#!/usr/bin/env python3
# setprop.py ID KEY TEXT: replaces the title, statement or quantifier text of a property
import os, sys
p = os.path.dirname(os.path.abspath(__file__)) + "/props.py"
s = open(p).read()
sys.path.insert(0, os.path.dirname(p))
i, key, text = sys.argv[1:4]
a = s.index('P("%s"' % i)
b = s.find('\nP("P', a + 5)
b = b if b > 0 else len(s)
block = s[a:b]
import ast
call = ast.parse(block.strip()).body[0].value
n = {"title": 1, "statement": 2, "text": 4, "why": 5}[key]
node = call.args[n]
lines = block.split("\n")
start = sum(len(l.encode()) + 1 for l in lines[:node.lineno - 1]) + node.col_offset
end = sum(len(l.encode()) + 1 for l in lines[:node.end_lineno - 1]) + node.end_col_offset
raw = block.encode()
quoted = '"""%s"""' % text if "\n" in text or key == "statement" else '"%s"' % text.replace('"', '\\"')
block = (raw[:start] + quoted.encode() + raw[end:]).decode()
open(p, "w").write(s[:a] + block + s[b:])
