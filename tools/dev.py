#!/usr/bin/env python3
"""dev.py VARIANT [simrun args...]: build one registered variant and run simrun on it"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import props, vbuild
vs = {t.variant.name: t.variant for p in props.P.values() for t in p.tasks}
v = vs[sys.argv[1]]
exe = vbuild.build_sim(print)
so = vbuild.build_variants([v], print)[v.name]
sys.stdout.flush()
os.execv(exe, [exe, "--so", so, "--scenario", "main"] + sys.argv[2:])
