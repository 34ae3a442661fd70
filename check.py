"""check.py Cxx [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
   check.py --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get('DST_REPO', '/repo'))


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--runs', type=int)
    a.add_argument('--jobs', type=int)
    a.add_argument('--cap', type=float)
    a.add_argument('--replay')
    a.add_argument('--selftest', action='store_true')
    a.add_argument('--no-evidence', action='store_true')
    o = a.parse_args()
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='dst.')
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = os.environ['TMP'] = os.environ['TEMP'] = scratch
    if o.replay:
        o.replay = os.path.abspath(o.replay)
    if 'DST_REPLAY_DIR' in os.environ:
        os.environ['DST_REPLAY_DIR'] = os.path.abspath(
            os.environ['DST_REPLAY_DIR'])
    os.mkdir(os.path.join(scratch, 'cwd'))
    os.chdir(os.path.join(scratch, 'cwd'))
    try:
        from dst import boot
        boot.boot()
        from dst import runner
        if o.selftest:
            print('imports and seams are fine')
            return 0
        if o.replay:
            return runner.replay(o.replay)
        return runner.check(o.prop, o.tier, o.seed, jobs=o.jobs, runs=o.runs,
                            cap=o.cap, evidence=not o.no_evidence)
    except BaseException:       # noqa
        import traceback
        traceback.print_exc()
        return 2
    finally:
        os.chdir(HERE)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
