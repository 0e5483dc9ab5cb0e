"""Warms the Go build cache; nothing the checks need is left anywhere else."""
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
with tempfile.TemporaryDirectory() as d:
    for race in (False, True):
        b = check.build(race, os.path.join(d, "vh"))
        if b.returncode:
            print(b.stdout, b.stderr)
            sys.exit(1)
print("harness builds")
