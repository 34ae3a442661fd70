"""Running many seeds, minimising, replaying, writing evidence."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import traceback

from . import core
from .core import HarnessError, Prng, Sim, Violation, stable_int, wall

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def make_plan(prop, verif_seed, index, tier):
    """The complete plan of run number `index`: a pure function of these."""
    seed = stable_int((verif_seed, prop.ID, index))
    p = Prng(seed)
    plan = prop.gen(p, tier, index)
    plan['seed'] = seed
    plan.setdefault('rng', 'fair')
    return plan


def execute(prop, plan):
    """Execute a plan; returns a plain dict."""
    core.set_points(bool(getattr(prop, 'POINTS', False)))
    sim = Sim(plan['seed'], rng=plan['rng'], rng_trace=plan.get('rng_trace'),
              clock=plan.get('clock', 'normal'))
    sim.check_solver = bool(plan.get('check_solver'))
    viol = None
    with sim:
        try:
            prop.run(plan, sim)
        except Violation as v:
            viol = (v.kind, v.detail)
    return {'violation': viol, 'digest': sim.digest(), 'counts': sim.counts,
            'faults': sim.faults, 'probes': sim.probes, 'states': sim.states,
            'ticks': sim.ticks, 'sim_time': sim.sim_time + sim.ticks * 1e-6,
            'draws': sim.draws, 'rng_log': sim.rng_log,
            'segments': getattr(sim, 'segments', None)}


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def generic_shrinks(plan):
    """Plans simpler than `plan`, most promising first."""
    for key in ('ops', 'tasks'):
        ops = plan.get(key)
        if ops and len(ops) > 1:
            for i in range(len(ops)):
                q = copy.deepcopy(plan)
                del q[key][i]
                yield q
    tr = plan.get('rng_trace')
    if tr is None and plan['rng'] not in ('faithful', 'first'):
        q = copy.deepcopy(plan)
        q['rng'] = 'first'
        yield q
    if tr:
        n = len(tr)
        for k in (0, n // 2, n - n // 4, n - 1):
            if k < n:
                q = copy.deepcopy(plan)
                q['rng_trace'] = tr[:k]
                yield q
        w = max(1, n // 4)
        while w >= 1 and n <= 400:
            for i in range(0, n, w):
                if any(tr[i:i + w]):
                    q = copy.deepcopy(plan)
                    q['rng_trace'][i:i + w] = [0] * len(tr[i:i + w])
                    yield q
            if w == 1:
                break
            w //= 2
    sg = plan.get('segments')
    if sg and len(sg) > 1:
        for i in range(len(sg)):
            q = copy.deepcopy(plan)
            del q['segments'][i]
            yield q
    if plan.get('clock', 'normal') != 'normal':
        q = copy.deepcopy(plan)
        q['clock'] = 'normal'
        yield q


def minimise(prop, plan, viol, seconds=40.0, log=None):
    """Greedy delta debugging keeping the violation class."""
    t0 = wall()
    kind = viol[0]
    best = plan
    tries = 0

    def still(q):
        nonlocal tries
        tries += 1
        try:
            r = execute(prop, q)
        except Exception:
            return None
        return r if r['violation'] and r['violation'][0] == kind else None

    # turn random decisions and the schedule into explicit traces
    r = execute(prop, plan)
    if not r['violation'] or r['violation'][0] != kind:
        raise HarnessError('violation did not reproduce in-process: {} vs {}'
                           .format(viol, r['violation']))
    if r['segments'] and 'segments' not in plan:
        q = copy.deepcopy(plan)
        q['segments'] = r['segments']
        if still(q):
            best = q
    if plan['rng'] != 'faithful' and len(r['rng_log']) <= 2000 and \
            getattr(prop, 'TRACE', True):
        q = copy.deepcopy(best)
        q['rng_trace'] = list(r['rng_log'])
        if still(q):
            best = q
    progress = True
    while progress and wall() - t0 < seconds:
        progress = False
        for gen in (getattr(prop, 'shrink', None), generic_shrinks):
            if gen is None:
                continue
            again = True
            while again and wall() - t0 < seconds:
                again = False
                for q in gen(best):
                    if wall() - t0 > seconds:
                        break
                    if q == best:
                        continue
                    r = still(q)
                    if r:
                        best = q
                        if 'rng_trace' in q and len(r['rng_log']) < \
                                len(q['rng_trace']):
                            best['rng_trace'] = list(r['rng_log'])
                            if not still(best):
                                best = q
                        progress = again = True
                        break
    return best, tries


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
def _worker(prop, jobs, verif_seed, tier, wfd, deadline, run_limit):
    out = os.fdopen(wfd, 'wb')
    # a scratch directory of its own (removed with the parent's)
    d = os.path.join(os.environ['TMPDIR'], 'w{}'.format(os.getpid()))
    os.mkdir(d)
    os.environ['TMPDIR'] = os.environ['TMP'] = os.environ['TEMP'] = d
    os.mkdir(os.path.join(d, 'cwd'))
    os.chdir(os.path.join(d, 'cwd'))

    def send(x):
        pickle.dump(x, out)
        out.flush()

    def alarm(*a):
        raise HarnessError('run exceeded {} s of wall clock'.format(run_limit))
    signal.signal(signal.SIGALRM, alarm)
    try:
        for i in jobs:
            if wall() > deadline:
                break
            signal.alarm(run_limit)
            try:
                plan = make_plan(prop, verif_seed, i, tier)
                r = execute(prop, plan)
                if r['violation'] and r['counts'].get('solver_starts') \
                        and 'check_solver' not in plan:
                    # the solver is not under test: once more, with its
                    # claims of optimality checked
                    plan['check_solver'] = True
                    r = execute(prop, plan)
                r['index'] = i
                del r['rng_log']
                if r['violation']:
                    r['plan'] = plan
                send(r)
            except BaseException:           # noqa
                send({'index': i, 'error': traceback.format_exc()})
            signal.alarm(0)
        send(None)
    finally:
        out.close()


def run_many(prop, n, verif_seed, tier, jobs, cap, stop_on=None):
    """Execute runs 0..n-1 on `jobs` forked workers; yields results."""
    deadline = wall() + cap
    run_limit = 300
    kids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                for k in kids.values():
                    k['f'].close()
                _worker(prop, range(w, n, jobs), verif_seed, tier, wfd,
                        deadline, run_limit)
            except BaseException:      # noqa
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        kids[pid] = {'f': os.fdopen(rfd, 'rb'), 'pid': pid}
    try:
        live = dict(kids)
        while live:
            fds = {k['f']: pid for pid, k in live.items()}
            ready, _, _ = select.select(list(fds), [], [], 5)
            for f in ready:
                try:
                    r = pickle.load(f)
                except EOFError:
                    raise HarnessError('a worker died')
                if r is None:
                    del live[fds[f]]
                    continue
                stop = yield r
                if stop:
                    return
    finally:
        for pid, k in kids.items():
            k['f'].close()
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


def write_replay(prop, plan, res, verif_seed, index, tier, extra):
    d = os.environ.get('DST_REPLAY_DIR', os.path.join(VERIF, 'replays'))
    os.makedirs(d, exist_ok=True)
    body = {'property': prop.ID, 'verif_seed': verif_seed, 'run': index,
            'tier': tier, 'plan': plan,
            'violation': {'kind': res['violation'][0],
                          'detail': res['violation'][1]},
            'digest': res['digest']}
    body.update(extra)
    tag = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()) \
        .hexdigest()[:12]
    path = os.path.join(d, '{}-{}.json'.format(prop.ID, tag))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def replay(path):
    with open(path) as f:
        body = json.load(f)
    prop = load(body['property'])
    r = execute(prop, body['plan'])
    print('plan:', json.dumps(body['plan'], sort_keys=True)[:4000])
    if r['violation']:
        print('VIOLATION property={} replay={}'.format(prop.ID, path))
        print('  {}: {}'.format(*r['violation']))
        print('  digest {} ({})'.format(
            r['digest'], 'same execution as recorded'
            if r['digest'] == body['digest'] else 'recorded ' +
            body['digest']))
        return 1
    print('no violation on this tree (recorded: {kind}: {detail})'.format(
        **body['violation']))
    return 0


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def check(pid, tier, verif_seed, jobs=None, runs=None, cap=None,
          evidence=True, quiet=False):
    prop = load(pid)
    t0 = wall()
    jobs = jobs or int(os.environ.get('DST_JOBS', min(8, os.cpu_count())))
    n = runs or prop.RUNS[tier]
    cap = cap or {'quick': 240, 'thorough': 720}[tier]
    agg = {'counts': {}, 'faults': {}, 'probes': {}}
    states, digests, nontriv = set(), {}, set()
    done = 0
    ticks = draws = 0
    sim_time = 0.0
    viols, errors, known = [], [], {}
    kf = [k for k in known_findings() if k['property'] == pid]
    g = run_many(prop, n, verif_seed, tier, jobs, cap)
    stop = None
    while True:
        try:
            r = g.send(stop) if stop is not None or done else next(g)
        except StopIteration:
            break
        stop = False
        done += 1
        if 'error' in r:
            errors.append(r)
            stop = len(errors) >= 3
            continue
        for k in agg:
            merge(agg[k], r[k])
        states |= r['states']
        digests[r['index']] = r['digest']
        if r['counts'].get('nontrivial'):
            nontriv.add(r['digest'])
        ticks += r['ticks']
        draws += r['draws']
        sim_time += r['sim_time']
        if r['violation']:
            sig = '{}: {}'.format(*r['violation'])
            hit = [k for k in kf if k['match'] in sig]
            if hit:
                known[hit[0]['match']] = hit[0]
            else:
                viols.append(r)
                stop = True
    g.close()
    search_s = wall() - t0
    h = hashlib.sha256()
    for i in sorted(digests):
        h.update('{}:{}\n'.format(i, digests[i]).encode())
    rc = 0
    for k in known.values():
        print('KNOWN-FINDING: property={} {}'.format(pid, k['what']))
    if viols:
        v = min(viols, key=lambda r: r['index'])
        plan, res = v['plan'], v
        extra = {'original_plan': plan, 'minimised': False}
        try:
            small, tries = minimise(prop, plan, v['violation'],
                                    float(os.environ.get('DST_SHRINK', 40)))
            res = execute(prop, small)
            if res['violation']:
                plan = small
                extra.update(minimised=True, shrink_executions=tries)
            else:
                res = v
        except HarnessError as e:
            extra['note'] = str(e)
        path = write_replay(prop, plan, res, verif_seed, v['index'], tier,
                            extra)
        print('VIOLATION property={} replay={}'.format(pid, path))
        print('  {}: {}'.format(*res['violation']))
        print('  seed {} run {} (VERIF_SEED={})'.format(
            plan['seed'], v['index'], verif_seed))
        rc = 1
    elif errors:
        print('HARNESS ERROR in run {}:\n{}'.format(errors[0]['index'],
                                                    errors[0]['error']))
        rc = 2
    elif done < n and done < prop.RUNS[tier] // 20:
        print('HARNESS ERROR: only {} of {} runs in {} s'.format(
            done, n, cap))
        rc = 2
    wall_s = wall() - t0
    cov = {
        'evaluations': done,
        'distinct_nontrivial': len(nontriv),
        'rule': prop.RULE + ' A run is non-trivial when ' + prop.NONTRIVIAL +
        ' Distinct = distinct event-log digest (all random decisions, thread '
        'switches, injected faults, callback failures and published results).',
        'samples': [make_plan(prop, verif_seed, i, tier)
                    for i in (0, 1, 2)[:min(3, n)]],
        'planned_runs': n,
        'runs_per_hour': round(done / max(search_s, 1e-9) * 3600),
        'seeds_per_hour': round(done / max(search_s, 1e-9) * 3600),
        'library_steps': ticks,
        'random_decisions': draws,
        'simulated_seconds': round(sim_time, 3),
        'distinct_event_logs': len(set(digests.values())),
        'distinct_states': len(states),
        'state_measure': 'distinct (map, partition) pairs, or the state '
                         'named by the property, published or shown to a '
                         'callback',
        'faults_injected': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'counts': dict(sorted(agg['counts'].items())),
        'workers': jobs,
        'log_digest': h.hexdigest(),
        'real_components': prop.REAL,
        'stub_components': prop.STUB,
    }
    if evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': verif_seed,
                       'level': 'exploration', 'coverage': cov,
                       'assumptions': prop.ASSUMPTIONS,
                       'wall_s': round(wall_s, 2),
                       'violations': len(viols)}, f, indent=1)
    if not quiet:
        print('{} {}: {} runs, {} distinct non-trivial, {} states, {:.1f} s, '
              'faults {}, probes {}, log {}'.format(
                  pid, tier, done, len(nontriv), len(states), wall_s,
                  cov['faults_injected'], cov['probes'],
                  cov['log_digest'][:16]))
    return rc
