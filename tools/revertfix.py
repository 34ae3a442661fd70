#!/usr/bin/env python3
"""
Do the checks still report the defects repaired in /repo?

  tools/revertfix.py [--seed N] [COMMIT ...]

For each "fixed:" entry of known_findings.json the repair is taken back in a
scratch clone of /repo and the checks of its property and of those named after
"also" are run against it.  Repairs which cannot be reverted alone (later ones
build on them) are listed as such.  Nothing here is used by a check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    seed = '1'
    if '--seed' in args:
        i = args.index('--seed')
        seed = args[i + 1]
        del args[i:i + 2]
    tmp = tempfile.mkdtemp(prefix='revert-')
    bad = 0
    for e in json.load(open(os.path.join(VERIF, 'known_findings.json')))['fixed']:
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', e)
        pid, commit, what = m.groups()
        if args and commit not in args:
            continue
        props = [pid] + re.findall(r'C\d\d', what.split('also', 1)[1]) \
            if 'also' in what else [pid]
        r = os.path.join(tmp, commit)
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        x = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x',
                            'revert', '-n', commit], cwd=r,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if x.returncode:
            print(commit, pid, 'cannot be reverted alone')
        else:
            for q in props:
                y = subprocess.run(
                    [os.path.join(VERIF, 'run.sh'), q, '--no-evidence'],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, env=dict(os.environ, DST_REPO=r,
                                        VERIF_SEED=seed, DST_SHRINK='5',
                                        DST_REPLAY_DIR=tmp))
                bad += y.returncode != 1
                lines = y.stdout.strip().split('\n')
                print(commit, q, 'rc', y.returncode, (lines[1] if len(
                    lines) > 1 else lines[0])[:150], flush=True)
        shutil.rmtree(r)
    shutil.rmtree(tmp)
    print(bad, 'missed')


main()
