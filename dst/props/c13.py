"""C13: fits never modify what the caller passed in."""
import copy

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Sched, Violation
from .common import *          # noqa

ID = 'C13'
RUNS = {'quick': 2200, 'thorough': 24000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of one estimator of any kind through '
        'any entry point. Every argument (matrix, arrays, dictionaries, '
        'graph, W, GeoDataFrame, initial labels, thresholds) is compared '
        'with a snapshot from inside every callback, by a second thread '
        'which a seeded scheduler lets look at arbitrary line boundaries of '
        'package code and solver waits, and after the fit; later fits are '
        'also checked against the arguments of earlier ones. Callbacks, '
        'solver, disk, interrupts and memory failures stop some of the fits; '
        'some requests are invalid.')
NONTRIVIAL = ('the arguments were looked at at least 3 times while a fit was '
              'in progress.')
REAL = 'all estimators of region, region.util, objective_function; pulp, ' \
    'the cbc binary, numpy, scipy, networkx, libpysal, geopandas, sklearn'
STUB = 'random module, clock, entropy, stdout, thread scheduling, solver ' \
    'process control and its disk I/O; metric, center, reduction callbacks'
ASSUMPTIONS = ['content is compared (type, dtype, shape, order of dictionary '
               'entries); lazily built caches inside W are not content']


def gen(p, tier, index):
    kind = p.weighted(A.WEIGHTS)
    spec = A.gen_spec(p, kind)
    worlds = [A.gen_world(p, kind) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for k in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        op = A.gen_op(p, kind, worlds[wi], spec, init=.6)
        if op.get('entry') == 'dict' and p.chance(.6):
            op['cont'] = p.choice(['list', 'set', 'tuple', 'keys'])
        if p.chance(.25):
            op['dtype'] = p.choice(['int64', 'float32', 'int32'])
        if p.chance(.3):
            op['unsorted'] = p.below(1000)
        o = {'world': wi, 'op': op, 'fault': None}
        if kind in A.EXACT:
            o['solver'] = S.gen_directive(p, .25)
        if kind in A.HEUR and k and p.chance(.3):
            o['prev'] = True
        r = p.random()
        if r < .3:
            o['fault'] = gen_fault(p, 40, 1500)
        elif r < .4:
            A.make_bad(p, kind, worlds[wi], op)
            o['unsat'] = True
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'sched': p.choice(['random', 'pct', None]),
            'mean': p.choice([3, 10, 40, 150]),
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common, c08
    if plan['sched']:
        q = copy.deepcopy(plan)
        q['sched'] = None
        q.pop('segments', None)
        yield q
    if plan['est']['est'] in ('maxp', 'mpexact'):
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


def diff(a, b):
    """Where two snapshots differ."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                r = diff(x, y)
                return '[{}]{}'.format(i, r)
    return ' was {} is {}'.format(str(a)[:200], str(b)[:200])


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    kind = plan['est']['est']
    e = X.build(env, plan['est'])
    calls = []                 # (call, snapshot, description)
    st = {'done': False, 'looks': 0, 'in': False}

    def look(where, everything=False):
        for c, snap, what in (calls if everything else calls[-1:]):
            now = X.freeze_call(c)
            if now != snap:
                raise Violation('input-changed', '{}: {}: {}{}'.format(
                    what, where, c.name, diff(snap, now)))
        if st['in']:
            st['looks'] += 1
            if st['looks'] >= 3:
                sim.counts['nontrivial'] = 1
        sim.counts['looks'] = sim.counts.get('looks', 0) + 1

    def watcher(k):
        if env.n < 60 or env.n % 11 == 0:
            look('inside the ' + k)

    env.watchers.append(watcher)

    def worker():
        for k, o in enumerate(plan['ops']):
            w, op = plan['worlds'][o['world']], dict(o['op'])
            prev = None
            if o.get('prev'):
                lab = X.labels(e, A.LABELS[kind])
                if lab is not None and not ref.partition_error(
                        lab, w['n'], nbs(w)):
                    op['init'] = [int(x) for x in lab]
                    op.pop('init_dtype', None)
                    op['p'] = len(set(lab))
                    prev = getattr(e, A.LABELS[kind])
            c = A.prepare(env, plan['est'], op, w)
            if prev is not None and op['entry'] in ('sparse', 'w', 'gdf'):
                c.kw['initial_labels'] = prev
            calls.append((c, X.freeze_call(c), 'fit {} of {} ({})'.format(
                k, kind, op.get('entry'))))
            f = o['fault']
            if plan['sched'] and f and f['kind'] == 'async' and \
                    f['exc'] == 'MemoryError':
                f = dict(f, exc='KeyboardInterrupt')
            d = o.get('solver')
            sv.set(d)
            st['in'] = True
            env.n = 0
            out, fired = call_faulty(sim, env, e, c, f, budget=1_500_000)
            st['in'] = False
            sv.set(None)
            S.clean()
            sim.log(out.status, str(X.labels(e, A.LABELS[kind])))
            sim.state((world_key(w), str(X.labels(e, A.LABELS[kind]))))
            look('after the fit ({!r})'.format(out), True)
            sim.probe(kind + '_' + out.status)
        st['done'] = True

    if not plan['sched']:
        return worker()

    def observer():
        for _ in range(4000):
            if st['done']:
                return
            if calls and st['in']:
                look('seen by another thread')
            sim.yield_point()

    sched = Sched(sim, 'replay' if 'segments' in plan else plan['sched'],
                  plan.get('segments'), mean=plan['mean'])
    sched.spawn(worker)
    sched.spawn(observer)
    tasks = sched.run()
    sim.segments = sched.log
    sim.counts['thread_switches'] = sched.switches
    for t in tasks:
        if t['exc'] is not None:
            raise t['exc']
