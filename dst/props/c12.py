"""C12: a failed or interrupted fit leaves the last published result intact."""
import copy
import warnings

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C12'
RUNS = {'quick': 2600, 'thorough': 26000}
POINTS = True
RULE = ('A run is a history of 2-5 fits of one estimator of any kind (AZP, '
        'simulated annealing, basic and reactive tabu, max-p heuristic, '
        'exact p-regions, exact max-p, SKATER; any entry point) on one or '
        'two maps. Fits are made to fail: a callback raises, an interrupt or '
        'memory failure lands at any call or backward jump inside the package '
        '(the position is chosen from a rehearsal of the same fit with the '
        'same random decisions, biased to its end), stdout breaks, warnings '
        'are turned into errors, the solver process or the disk fails, or '
        'the request is invalid or infeasible; often the published labels '
        'are passed back in as initial labels.')
NONTRIVIAL = 'a fit failed after an earlier fit had published a result.'
REAL = 'all estimators of region, region.util, objective_function; pulp, ' \
    'the cbc binary, numpy, scipy, networkx, libpysal, geopandas, sklearn'
STUB = 'random module, clock, entropy, stdout, solver process control and ' \
    'its disk I/O; metric, center, reduction callbacks'
ASSUMPTIONS = ['interrupts land at calls, returns from C functions and '
               'backward jumps of package code: consecutive attribute '
               'assignments are atomic', 'an interrupt after the new result '
               'is complete (for instance in the wrapper around the matrix '
               'fit) may leave the complete new result']


def gen_fault12(p, kind):
    k = p.weighted([('cb', 4), ('async', 6), ('bad', 2), ('warn', .7)] +
                   ([('solver', 5)] if kind in A.EXACT else []) +
                   ([('stdout', 2)] if kind == 'skater' else
                    [('stdout', .2)]))
    f = {'kind': k}
    if k in ('cb', 'async'):
        X.gen_point(p, f)
        f['exc'] = p.choice(CB_FAULTS) if k == 'cb' else \
            p.choice(['KeyboardInterrupt', 'MemoryError'])
    elif k == 'stdout':
        f['at'] = p.int(1, 6)
    elif k == 'solver':
        f['d'] = S.gen_directive(p, 1.0)
    elif k == 'warn':
        f['all'] = p.chance(.3)
    return f


def gen(p, tier, index):
    kind = p.weighted(A.WEIGHTS)
    spec = A.gen_spec(p, kind)
    worlds = [A.gen_world(p, kind) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for k in range(p.int(2, 5)):
        wi = p.below(len(worlds))
        op = A.gen_op(p, kind, worlds[wi], spec)
        o = {'world': wi, 'op': op, 'fault': None}
        if kind in A.HEUR and k and p.chance(.35):
            o['prev'] = True
        if p.chance(.2 if k == 0 else .75):
            o['fault'] = gen_fault12(p, kind)
            if o['fault']['kind'] == 'bad':
                A.make_bad(p, kind, worlds[wi], op)
                o['unsat'] = True
                if p.chance(.7):
                    o['prev'] = False
            if o['fault']['kind'] == 'stdout' and kind == 'skater':
                op['verbose'] = p.choice([2, 3])
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'clock': p.weighted([('normal', 4), ('jumps', 1)]),
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common
    for i, o in enumerate(plan['ops']):
        if o.get('prev'):
            q = copy.deepcopy(plan)
            q['ops'][i]['prev'] = False
            yield q
        if o['fault'] and o['fault'].get('frac') is not None:
            q = copy.deepcopy(plan)
            del q['ops'][i]['fault']['frac']
            q['ops'][i]['fault'].pop('occ', None)
            q['ops'][i]['fault']['end'] = 0
            yield q
    if plan['est']['est'] in ('maxp', 'mpexact'):
        from . import c08
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    kind = plan['est']['est']
    e = X.build(env, plan['est'])
    lab_attr = A.LABELS[kind]
    budget = 1_500_000

    def prep(o, target):
        w, op = plan['worlds'][o['world']], dict(o['op'])
        if o.get('prev') and getattr(e, lab_attr, None) is not None:
            lab = X.labels(e, lab_attr)
            if not ref.partition_error(lab, w['n'], nbs(w)):
                if not op.get('bad'):
                    op['p'] = len(set(lab))
                op['init'] = [int(x) for x in lab]
                op.pop('init_dtype', None)
                c = A.prepare(env, plan['est'], op, w)
                if op['entry'] in ('sparse', 'w', 'gdf'):
                    v = getattr(e, lab_attr)
                    c.kw['initial_labels'] = v if target is e else v.copy()
                    sim.probe('published_labels_passed_in')
                return w, op, c
        return w, op, A.prepare(env, plan['est'], op, w)

    handed = []          # (fit number, array handed out, its value then)

    for k, o in enumerate(plan['ops']):
        for j, arr, val in handed:
            if A.frz(arr) != val:
                raise Violation('labels-overwritten', 'the array published by '
                                'fit {} was {}, is {} after fit {}'.format(
                                    j, val, A.frz(arr), k - 1))
        f = o['fault'] or {}
        fk = f.get('kind')
        new = None
        total = 0
        if fk in ('cb', 'async'):
            # rehearse the fit with the same decisions on a new estimator
            mark = A.RngMark(sim)
            e2 = X.build(env, plan['est'])
            w, op, c2 = prep(o, e2)
            env.arm(1 << 60, 'raise')
            sim.arm_async(-1, None)
            if fk == 'cb':
                sites = env.sites = []
            else:
                sites = sim.sites = []
            sv.set(None)
            out2 = X.call(sim, e2, c2, budget)
            pts = sim.disarm()
            total = env.n if fk == 'cb' else pts
            env.disarm()
            new = A.snapshot(e2, kind) if out2.ok else None
            S.clean()
            mark.back(sim)
        old = A.snapshot(e, kind)
        held = getattr(e, lab_attr, None)
        held0 = A.frz(held)
        w, op, c = prep(o, e)
        if fk in ('cb', 'async'):
            at = X.pick_point(f, total, sites)
            if fk == 'cb':
                env.arm(at, f['exc'])
            else:
                sim.arm_async(at, f['exc'])
        sv.set(f['d'] if fk == 'solver' else None)
        if fk == 'stdout':
            sim.out.n, sim.out.fail_at = 0, f['at']
        before = sum(sim.faults.values())
        try:
            with warnings.catch_warnings():
                if fk == 'warn':
                    from scipy.optimize import OptimizeWarning
                    sim.fault('warnings_are_errors')
                    warnings.simplefilter('error', Warning if f['all'] else
                                          OptimizeWarning)
                out = X.call(sim, e, c, budget)
        finally:
            env.disarm()
            sim.disarm()
            sim.out.fail_at = None
            sv.set(None)
            S.clean()
        now = A.snapshot(e, kind)
        sim.log(out.status, now[0][1])
        if out.ok:
            sim.state((world_key(w), str(now[0][1])))
            arr = getattr(e, lab_attr, None)
            if arr is not None and all(a is not arr for _, a, _ in handed):
                handed.append((k, arr, A.frz(arr)))
            continue
        if out.status == 'budget':
            continue
        if fk == 'bad':
            sim.fault('invalid_request_' + op['bad'])
        if now != old:
            done = fk == 'async' and new is not None and all(
                a == b for a, b in zip(now, new)
                if a[0] != '_trace' or op.get('trace'))
            if not done:
                raise Violation('result-changed', 'fit {} ({}, fault {}) '
                                '{!r}: {}'.format(k, op.get('entry'), f, out,
                                                  diff(old, now)))
            sim.probe('interrupted_after_completion')
        elif held is not None:
            sim.counts['nontrivial'] = 1
            sim.probe('kept_after_' + (fk or 'plain_failure'))
        if A.frz(held) != held0:
            raise Violation('labels-overwritten', 'fit {} ({}, fault {}) '
                            '{!r}: the array published earlier was {}, is {}'
                            .format(k, op.get('entry'), f, out, held0,
                                    A.frz(held)))

    for j, arr, val in handed:
        if A.frz(arr) != val:
            raise Violation('labels-overwritten', 'the array published by '
                            'fit {} was {}, is {} at the end'.format(
                                j, val, A.frz(arr)))


def diff(a, b):
    return '; '.join('{} was {} is {}'.format(x[0], x[1], y[1])
                     for x, y in zip(a, b) if x != y)[:600]
