#!/usr/bin/env python3
"""bv.py VARIANT...: build registered variants, print compiler errors only"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import props, vbuild
vs = {t.variant.name: t.variant for p in props.P.values() for t in p.tasks}
try:
    _o = vbuild.sh
    def sh(cmd, cwd=None, timeout=900):
        import subprocess
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        t = p.stdout.decode("utf8", "replace")
        if p.returncode:
            ls = t.splitlines()
            for i, l in enumerate(ls):
                if "error" in l.lower():
                    print("\n".join(x[:300] for x in ls[max(0, i - 3):i + 4]))
                    print("--")
            raise vbuild.BuildError(" ".join(cmd)[-200:])
        return t
    vbuild.sh = sh
    vbuild.build_sim(print)
    vbuild.build_variants([vs[n] for n in sys.argv[1:]], print)
except vbuild.BuildError as e:
    print("FAILED", e)
