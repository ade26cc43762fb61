"""rep.py FILE: replaces stdin's text before the '=====' line with the one after, in /repo/FILE (exactly one place)"""
import sys
p = "/repo/" + sys.argv[1]
a, b = sys.stdin.read().split("\n=====\n")
b = b.rstrip("\n") if not a.endswith("\n") else b
s = open(p).read()
assert s.count(a) == 1, (s.count(a), a)
open(p, "w").write(s.replace(a, b))
