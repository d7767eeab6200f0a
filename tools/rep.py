#!/usr/bin/env python3
"""rep.py FILE < 'old\n=====\nnew' : exact replacement that keeps the file's line endings."""
import sys
path = sys.argv[1]
old, new = sys.stdin.read().split("\n=====\n")
new = new.rstrip("\n") if not old.endswith("\n") else new
data = open(path, "rb").read().decode("utf-8", "surrogateescape")
old = old.rstrip("\n"); new = new.rstrip("\n")
cands = [(old.replace("\n", "\r\n"), new.replace("\n", "\r\n")), (old, new)]
for o, n in cands:
    if data.count(o) == 1:
        # single-line: follow the file's style around the match
        eol = data.find("\n", data.find(o) + len(o))
        if "\n" not in o and "\n" in n and eol > 0 and data[eol - 1] == "\r":
            n = n.replace("\r\n", "\n").replace("\n", "\r\n")
        data = data.replace(o, n)
        open(path, "wb").write(data.encode("utf-8", "surrogateescape"))
        sys.exit(0)
print("matches:", [data.count(o) for o, _ in cands]); sys.exit(1)
