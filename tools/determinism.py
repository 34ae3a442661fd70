#!/usr/bin/env python3
"""
Do runs repeat?  Every check is executed with several seeds, each in fresh
interpreters with another number of workers, another hash seed and other
process-wide random state; the digests over all event logs must agree.

  tools/determinism.py [--seeds 1,2,3] [--runs N] [Cxx ...]
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]


def opt(name, default):
    if name in a:
        i = a.index(name)
        v = a[i + 1]
        del a[i:i + 2]
        return v
    return default


seeds = [int(x) for x in opt('--seeds', '1,2,3').split(',')]
runs = opt('--runs', '300')
ids = a or [c['property'] for c in json.load(open(
    os.path.join(VERIF, 'MANIFEST.json')))['checks']]
bad = 0
for pid in ids:
    for s in seeds:
        seen = {}
        for jobs, hs in (('8', '0'), ('1', '0'), ('5', '4711'), ('8', '77')):
            env = dict(os.environ, DST_HASHSEED=hs)
            r = subprocess.run([os.path.join(VERIF, 'run.sh'), pid,
                                '--no-evidence', '--seed', str(s), '--runs',
                                runs, '--jobs', jobs, '--cap', '900'],
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            m = re.search(r', log ([0-9a-f]+)', r.stdout)
            seen[jobs, hs] = (r.returncode, m.group(1) if m else
                              r.stdout[-300:])
        ok = len(set(seen.values())) == 1
        bad += not ok
        print(pid, s, 'same' if ok else seen, flush=True)
sys.exit(bad > 0)
