#!/usr/bin/env python3
"""Checks that the toolchain is there and that everything builds and parses."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
ctx = lib.Ctx("setup", "quick", 1)
try:
    ctx.build()
    for m in sorted(f for f in os.listdir(ctx.spec) if f.endswith(".tla")):
        p = subprocess.run(["java", "-cp", lib.JARS, "tla2sany.SANY", m], cwd=ctx.spec, capture_output=True, text=True)
        if p.returncode != 0 or "Abort" in p.stdout:
            sys.exit("specification %s does not parse\n%s" % (m, p.stdout[-2000:]))
    print("ok")
finally:
    ctx.close()
