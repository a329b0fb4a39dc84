#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the scenario suites present in scen/."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every interleaving of the scenarios' threads over the real library code (both cleanup flavours), all timeout/wake orders, choices and "
        "injected faults within the stated bounds, judged in every state; deadlock and (in unbounded runs) inescapable non-termination are violations. "
        "Assumes the simulated Win32 kernel/CRT in mc/rt.c, sequentially consistent memory, and the bounds listed in the evidence file.")
import sys
EXTRA = json.load(open(H + '/notes.json')) if os.path.exists(H + '/notes.json') else {}
checks, na = [], []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if glob.glob(H + '/scen/%s.c' % i.lower()) + glob.glob(H + '/scen/%s_*.c' % i.lower()):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique='explicit-state model checking of the compiled library under a controlled scheduler (stateful DFS, dynamic partial-order reduction)',
                           level='model_checking', level_note=NOTE + (' ' + EXTRA[i] if i in EXTRA else '')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the library is compiled unmodified and instrumented by the compiler and the build in mc/build.py.')
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
