"""Tries the analyser on pairs of small functions whose equality is known (tools/selftest_cases.py)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
sys.setrecursionlimit(20000)
from sa.model import World, obligations, check     # noqa: E402

w = World()
m = w.prog.load_file(os.path.join(HERE, 'selftest_cases.py'), 'spec.selftest')
w.specs = [m]
bad = 0
for ob in obligations(w):
    o = check(w, ob)
    want = 'holds' if ob.name.startswith('eq_') else 'violated'
    if o.status != want:
        serious = {'holds', 'violated'} == {o.status, want}
        bad += serious
        print(('WRONG' if serious else 'weak '), ob.name, o.status, o.reason or '', [d.what for d in o.diffs][:2])
print(bad, 'wrong')
sys.exit(bool(bad))
