#!/usr/bin/env python3
"""sym.py VARIANT OFFSET...: function at an offset of the newest build of a variant"""
import glob, os, subprocess, sys
d = max(glob.glob(os.path.join(os.path.dirname(__file__), "../build/v-%s-*" % sys.argv[1])), key=os.path.getmtime)
sy = []
for l in subprocess.run(["nm", "-C", "--defined-only", d + "/h.so.0"], capture_output=True, text=True).stdout.splitlines():
    p = l.split(None, 2)
    if len(p) == 3 and p[1] in "tTwW":
        sy.append((int(p[0], 16), p[2]))
sy.sort()
for o in sys.argv[2:]:
    t = int(o, 16)
    print(o, max((s for s in sy if s[0] <= t), default=None))
