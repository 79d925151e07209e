#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; checks that the solvers and both interpreters answer."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3

x = z3.Real("x")
s = z3.Solver()
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
p = subprocess.run(["cvc5", "--lang=smt2", "-"], input="(set-logic QF_NRA)(declare-const x Real)(assert (< (* x x) 0.0))(check-sat)",
                   capture_output=True, text=True, timeout=60)
assert "unsat" in p.stdout, p
p = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, matplotlib"], timeout=120)
assert p.returncode == 0
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
print("ok", z3.get_version_string())
