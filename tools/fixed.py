#!/usr/bin/env python3
"""usage: fixed.py <property> <substring of the fix commit subject> <what failed>  -- appends a 'fixed:' line"""
import subprocess, sys, os
p, sub, what = sys.argv[1:4]
o = subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline']).decode()
l = [x.split()[0] for x in o.splitlines() if sub in x]
assert len(l) == 1, (sub, l)
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
open(f, 'a').write(f"fixed: property={p} {l[0]} {what}\n")
