"""C16: estimators running in different threads do not affect each other."""
import copy
import sys

import numpy as np

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Sched, Violation
from .common import *          # noqa
from . import c15, c22

ID = 'C16'
RUNS = {'quick': 1500, 'thorough': 16000}
POINTS = True
RULE = ('A run starts 2-4 threads, each with its own seeded estimator (any '
        'kind, also several of one kind) on shared inputs, metric and '
        'objective objects, sometimes next to a thread that seeds and draws '
        'from the process-wide random stream and builds and fits other '
        'estimators. A seeded scheduler (uniform or priority-like segments, '
        'mean 1-200 lines) switches between them at line boundaries of '
        'package code, at callbacks, random draws and solver waits. Some fits '
        'are hit by callback failures, interrupts, memory failures, solver or '
        'disk faults. Each undisturbed fit must end as the same fit ended '
        'when run alone before.')
NONTRIVIAL = ('at least 2 undisturbed fits overlapped (10 or more switches '
              'between threads) and drew random numbers, called back or '
              'waited for the solver.')
REAL = 'all estimators of region, region.util, objective_function; pulp, ' \
    'the cbc binary; real threads'
STUB = 'thread scheduling, entropy, clock, stdout, solver process control ' \
    'and its disk I/O; metric, center, reduction callbacks'
ASSUMPTIONS = ['threads switch at line boundaries of package code, callbacks '
               'and solver waits; numpy, scipy, pulp and libpysal calls are '
               'atomic', 'a local search object is an estimator and not '
               'shared between threads']


def gen(p, tier, index):
    kinds = []
    n = p.choice([2, 2, 3, 4])
    base = p.weighted(A.WEIGHTS)
    for _ in range(n):
        kinds.append(base if p.chance(.5) else p.weighted(A.WEIGHTS))
    worlds, tasks = [], []
    for kind in kinds:
        spec = A.gen_spec(p, kind)
        if kind in A.HEUR + ('maxp',):
            spec['seed'] = p.choice([0, 1, p.below(10**6)])
        if spec.get('local'):
            spec['local']['seed'] = p.below(1000)
        mine = [i for i, w in enumerate(worlds) if w['kind'] == kind or
                (w['kind'] in A.HEUR and kind in A.HEUR)]
        if mine and p.chance(.75):
            wi = p.choice(mine)
        else:
            wi = len(worlds)
            w = A.gen_world(p, kind, big=7)
            w['kind'] = kind
            worlds.append(w)
        same = [t for t in tasks if t['world'] == wi and
                t['est']['est'] == kind]
        if same and p.chance(.5):
            op = copy.deepcopy(p.choice(same)['op'])
        else:
            op = A.gen_op(p, kind, worlds[wi], spec, init=.3)
        t = {'est': spec, 'world': wi, 'op': op}
        if kind in A.EXACT:
            t['solver'] = S.gen_directive(p, .25)
            t['solver']['yields'] = p.choice([1, 3, 10])
        tasks.append(t)
    plan = {'worlds': worlds, 'tasks': tasks,
            'sched': p.choice(['random', 'random', 'pct']),
            'mean': p.choice([1, 3, 10, 40, 200]), 'rng': 'faithful',
            'clock': p.weighted([('normal', 3), ('jumps', 1)])}
    if p.chance(.3):
        plan['noise'] = [c15.meddle(p) for _ in range(p.int(1, 6))]
    if p.chance(.35):
        f = gen_fault(p, 60, 4000)
        if f['kind'] != 'stdout':
            plan['fault'] = f
    return plan


def shrink(plan):       # noqa
    from . import common, c08
    if plan.get('fault'):
        q = copy.deepcopy(plan)
        del q['fault']
        yield q
    if plan.get('noise'):
        q = copy.deepcopy(plan)
        del q['noise']
        q.pop('segments', None)
        yield q
    for i, t in enumerate(plan['tasks']):
        if t.get('solver'):
            for k in ('tie', 'noise', 'fault'):
                if t['solver'].get(k) is not None:
                    q = copy.deepcopy(plan)
                    q['tasks'][i]['solver'][k] = None
                    yield q


def share(pool, x):
    """One object for equal inputs."""
    import networkx as nx
    import scipy.sparse as sp
    if isinstance(x, (np.ndarray, dict, nx.Graph)) or sp.issparse(x) or \
            hasattr(x, 'neighbors') or type(x).__name__ == 'GeoDataFrame':
        return pool.setdefault(X.freeze(x), x)
    return x


def run(plan, sim):
    env = X.Env(sim)
    pool, objs = {}, {}
    metric = X.SimMetric(env)
    tasks = plan['tasks']
    sv = S.SolverTasks(sim, {i: t.get('solver')
                             for i, t in enumerate(tasks)})
    calls = []
    for t in tasks:
        w, op = plan['worlds'][t['world']], t['op']
        obj = None
        if op.get('obj') is not None:
            key = str(sorted(op['obj'].items()))
            if key not in objs:
                objs[key] = X.objective_for(env, op['obj'])
            obj = objs[key]
        c = A.prepare(env, t['est'], op, w, objective=obj)
        c.args = [share(pool, a) for a in c.args]
        c.kw = {k: share(pool, v) for k, v in c.kw.items()}
        if isinstance(c.kw.get('metric'), X.SimMetric):
            c.kw['metric'] = metric
        calls.append(c)

    def outcome(e, t, r):
        kind = t['est']['est']
        snap = [x for x in A.snapshot(e, kind) if x[0] != 'metric']
        return (r.status, type(r.exc).__name__, snap)

    # alone
    alone, cost = [], []
    for i, t in enumerate(tasks):
        sv.alone = i
        e = X.build(env, t['est'])
        t0, d0 = sim.ticks, sim.draws + env.n
        r = X.call(sim, e, calls[i], 400_000)
        S.clean()
        alone.append(outcome(e, t, r))
        cost.append(sim.ticks - t0)
        sv.hit.clear()
    live = [i for i in range(len(tasks)) if alone[i][0] != 'budget']
    if len(live) < 2 and not plan.get('noise'):
        return
    res = {}
    busy = {'n': 0, 'peak': 0}

    def body(i):
        def f():
            e = X.build(env, tasks[i]['est'])
            sim.yield_point()
            busy['n'] += 1
            busy['peak'] = max(busy['peak'], busy['n'])
            r = X.call(sim, e, calls[i])
            busy['n'] -= 1
            res[i] = (outcome(e, tasks[i], r), r)
        return f

    def noise():
        for m in plan['noise']:
            c15.activity(X.Env(sim), {'est': {'est': 'azp', 'seed': 1}}, m,
                         [99])
            sim.yield_point()

    sched = Sched(sim, 'replay' if 'segments' in plan else plan['sched'],
                  plan.get('segments'), mean=plan['mean'])
    idle = {'fn': lambda: None}
    for i in range(len(tasks)):
        sched.spawn(body(i) if i in live else idle['fn'])
    if plan.get('noise'):
        sched.spawn(noise)
    f = plan.get('fault')
    env.n = 0
    if f and f['kind'] == 'cb':
        env.arm(f['at'], f['exc'])
    elif f:
        sim.arm_async(f['at'], f['exc'])
    sim.set_budget(20 * sum(cost) + 300_000)
    before, modules = c22.settings(), len(sys.modules)
    try:
        done = sched.run()
    finally:
        env.disarm()
        sim.disarm()
        sim.set_budget(None)
        S.clean()
    sim.segments = sched.log
    sim.counts['thread_switches'] = sched.switches
    after = c22.settings()
    for key in before:
        if before[key] != after[key] and len(sys.modules) == modules:
            raise Violation('residue', 'concurrent fits of {} changed the {} '
                            'of the process: {} was {}'.format(
                                [t['est']['est'] for t in tasks], key,
                                c22.show(after[key]), c22.show(before[key])))
    for t in done[:len(tasks)]:
        if t['exc'] is not None and f is None:
            raise t['exc']
    good = 0
    for i in live:
        if i not in res:
            continue           # the fault hit the construction
        got, r = res[i]
        sim.log(i, got[0], str(got[2]))
        # an injected fault ends a fit with an exception of its own class
        hit = f is not None and r.status == 'raise' and (
            isinstance(r.exc, (core.InjectedFault, MemoryError,
                               KeyboardInterrupt, ZeroDivisionError)) or
            'simulated' in str(r.exc) or str(r.exc).startswith('callback'))
        if hit:
            sim.probe('disturbed')
            continue
        if got != alone[i]:
            raise Violation('threads-interfere', 'thread {} ({}): {} alone, '
                            '{} next to {}'.format(
                                i, tasks[i]['est'], alone[i], got,
                                [t['est']['est'] for t in tasks]))
        good += 1
        sim.probe('agreed_' + tasks[i]['est']['est'])
        sim.state((world_key(plan['worlds'][tasks[i]['world']]),
                   str(got)))
    if good >= 2 and sched.switches >= 10 and busy['peak'] >= 2:
        sim.counts['nontrivial'] = 1
