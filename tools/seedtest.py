#!/usr/bin/env python3
"""
Confirm planted bugs and run the checks against them.

  tools/seedtest.py [--confirm] [--check] [--all-checks] [--seed N] [ID ...]

For each /verif/seeded/<id>: in a scratch copy of /repo, the demonstration must
pass; with patch.diff applied the tests recorded as stable must still pass, the
demonstration must fail, and (--check) the property's check must report a
violation.  Nothing here is used by a check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'a01d7e0'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.output)[-2000:]


def blame_ok(patch):
    """Are all removed lines lines of the original repository?"""
    bad, orig = [], 0
    f = old = None
    for l in open(patch):
        l = l.rstrip('\n')
        if l.startswith('--- a/'):
            f = l[6:].split('\t')[0]
            r = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f],
                               cwd='/repo', stdout=subprocess.PIPE, text=True)
            bl = [x.split()[0].lstrip('^') for x in r.stdout.splitlines()]
        elif l.startswith('+++ '):
            pass
        elif l.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif old is not None and l.startswith('-'):
            if bl[old].startswith(BASE[:7]):
                orig += 1
            else:
                bad.append((f, old + 1, l))
            old += 1
        elif old is not None and l.startswith('+'):
            pass
        elif old is not None and not l.startswith('diff'):
            old += 1
    return orig, bad


def stable(copy):
    x = os.path.join(copy, 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore',
        '--timeout=300', '--continue-on-collection-errors',
        '--ignore=region/skater/test_skater.py', '--junitxml', x],
       copy, {'PYTHONHASHSEED': '0', 'PYTHONPATH': copy})
    import xml.etree.ElementTree as ET
    passed = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if not [k for k in c if k.tag in ('failure', 'error', 'skipped')]:
            passed.add((c.get('classname') or '') + '::' + c.get('name'))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    names = {p for p in passed}
    miss = [t for t in want if t not in names]
    return miss


def one(sid, confirm, check, all_checks, seed):
    d = os.path.join(VERIF, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = tempfile.mkdtemp(prefix='seed-')
    out = [sid, meta['property']]
    try:
        copy = os.path.join(scratch, 'repo')
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        dd = os.path.join(scratch, 'demo')
        shutil.copytree(d, dd)
        for f in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(dd, f))
        patch = os.path.join(d, 'patch.diff')
        orig, bad = blame_ok(patch)
        if bad or not orig:
            out.append('BLAME orig=%d mine=%s' % (orig, bad))
        if confirm:
            rc, o = sh(['bash', os.path.join(dd, 'demo.sh')], copy,
                       timeout=300)
            out.append('clean-demo %s' % ('ok' if rc == 0 else
                                          'FAILS rc=%d\n%s' % (rc, o[-1500:])))
        rc, o = sh(['git', 'apply', patch], copy)
        if rc:
            out.append('PATCH DOES NOT APPLY ' + o)
            return out
        if confirm:
            rc, o = sh(['bash', os.path.join(dd, 'demo.sh')], copy,
                       timeout=300)
            out.append('bug-demo %s' % ('PASSES' if rc == 0 else 'fails'))
            if rc:
                out.append(o.strip().splitlines()[-1][:150] if o.strip()
                           else '')
            m = stable(copy)
            out.append('tests %s' % ('ok' if not m else 'BROKEN %d %s' % (
                len(m), m[:3])))
        ids = [meta['property']]
        if all_checks:
            ids = ['C%02d' % i for i in range(1, 19)]
            if os.path.exists(os.path.join(VERIF, 'MANIFEST.json')):
                ids = [c['property'] for c in json.load(open(os.path.join(
                    VERIF, 'MANIFEST.json')))['checks']]
        if check or all_checks:
            for i in ids:
                rc, o = sh([os.path.join(VERIF, 'run.sh'), i,
                            '--no-evidence', '--seed', str(seed)], VERIF,
                           {'DST_REPO': copy, 'DST_SHRINK': '3',
                            'DST_REPLAY_DIR': os.path.join(scratch, 'rp'),
                            'VERIF_SEED': str(seed)})
                if all_checks and rc == 0:
                    continue
                l = [x for x in o.splitlines() if x.strip()]
                v = [j for j, x in enumerate(l) if x.startswith('VIOLATION')]
                out.append('%s rc=%d %s' % (
                    i, rc, l[v[0] + 1][:160].strip() + l[v[0] + 2][-24:] if v
                    else ' '.join(l)[-300:]))
        return out
    finally:
        shutil.rmtree(scratch)


def main():
    a = sys.argv[1:]
    seed = 1
    if '--seed' in a:
        i = a.index('--seed')
        seed = int(a[i + 1])
        del a[i:i + 2]
    flags = [x for x in a if x.startswith('--')]
    idl = [x for x in a if not x.startswith('--')] or sorted(
        os.listdir(os.path.join(VERIF, 'seeded')))
    confirm = '--confirm' in flags
    check = '--check' in flags
    with ThreadPoolExecutor(6 if confirm and not check else 1) as ex:
        for r in ex.map(lambda s: one(s, confirm, check,
                                      '--all-checks' in flags, seed), idl):
            print(' | '.join(r), flush=True)


main()
