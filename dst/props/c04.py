"""C04: move evaluation is exact and free of side effects."""
import numpy as np

from .. import core, est as X, ref, world as W
from ..core import Violation, Sched
from .common import *          # noqa

ID = 'C04'
RUNS = {'quick': 1500, 'thorough': 20000}
POINTS = True
RULE = ('A run evaluates 5-25 moves on one map with one objective function '
        '(pairwise or center; sim, sklearn or default metric; four centers, '
        'four reductions), in a scheduler that lets a second thread look at '
        'labels and attributes at arbitrary line boundaries and callbacks; '
        'some evaluations are stopped by a callback failure, an interrupt or '
        'a memory failure and repeated. A third of the runs observes the '
        'evaluations made by a whole fit instead.')
NONTRIVIAL = 'at least 3 move evaluations were compared with the reference.'
REAL = 'region.objective_function, util.get_metric_function, ' \
    'sklearn metrics, numpy; in fit runs region.p_regions.azp'
STUB = 'random module, clock, thread scheduling; sim metrics, centers, ' \
    'reductions wrap numpy'
ASSUMPTIONS = ['metrics with d(a,a) = 0', 'moves to an existing other region '
               'that do not empty the old region', 'non-integer objectives '
               'compared with relative tolerance 1e-7']


def gen(p, tier, index):
    w = W.gen_world(p, 3, p.choice([5, 8, 10]))
    kind = p.choice(['pair', 'pair', 'center', 'center', 'center'])
    metric = p.weighted([('sim', 6), ('sim_sq', 1), ('manhattan', 1),
                         ('euclidean', 1), (None, 1), ('cityblock', .5),
                         ('l1', .3), ('l2', .3), ('cosine', .5)])
    if metric in ('euclidean', 'l2', 'cosine'):
        # scikit-learn's formula cancels far from the origin
        w['attr'] = [[v - 2 ** 20 if v >= 2 ** 20 else v for v in r]
                     for r in w['attr']]
    if metric == 'cosine':
        w['attr'] = [[abs(v) + 1 for v in r] for r in w['attr']]
    elif metric in ('sim', 'sim_sq', 'manhattan', None, 'cityblock'):
        W.rescale(p, w, .15)
    obj = {'kind': kind, 'metric': metric}
    if kind == 'center':
        obj['center'] = p.choice(['mean', 'mean', 'median', 'min', 'max'])
        obj['reduction'] = p.choice(['sum', 'sum', 'max', 'mean', 'min'])
        if obj['center'] in ('mean', 'median') and p.chance(.2):
            obj['plain'] = True
    plan = {'worlds': [w], 'obj': obj, 'rng': p.weighted(RNG)}
    if p.chance(.3):
        spec = X.gen_est(p)
        op = X.gen_op(p, w, spec, entries=['sparse', 'dict'])
        op['obj'] = obj
        plan['est'] = spec
        plan['ops'] = [{'world': 0, 'op': op, 'fault':
                        gen_fault(p) if p.chance(.3) else None}
                       for _ in range(p.choice([1, 2]))]
        return plan
    nb = nbs(w)
    n = w['n']
    nc = ncomps(w)
    plan['dtype'] = p.choice(['int64', 'float64', 'int32'])
    plan['adtype'] = p.choice(['float64', 'float64', 'int64']) \
        if 'unit' not in w else 'float64'
    moves = []
    for _ in range(p.int(5, 25)):
        m = {'new': p.chance(.4) or not moves, 'pick': p.below(10**6),
             'k': p.int(max(nc, min(2, n)), n)}
        if p.chance(.3):
            m['fault'] = {'kind': p.choice(['cb', 'cb', 'async']),
                          'at': p.int(1, 12),
                          'exc': p.choice(CB_FAULTS)}
            if m['fault']['kind'] == 'async':
                m['fault']['exc'] = p.choice(['KeyboardInterrupt',
                                              'MemoryError'])
                m['fault']['at'] = p.int(1, 80)
        moves.append(m)
    plan['moves'] = moves
    plan['sched'] = p.choice(['random', 'pct', None])
    plan['mean'] = p.choice([2, 5, 20])
    return plan


def shrink_moves(plan):
    import copy
    if 'moves' in plan:
        for i in range(len(plan['moves'])):
            if len(plan['moves']) > 1:
                q = copy.deepcopy(plan)
                del q['moves'][i]
                q['moves'][0]['new'] = True
                yield q
        for i, m in enumerate(plan['moves']):
            if 'fault' in m:
                q = copy.deepcopy(plan)
                del q['moves'][i]['fault']
                yield q
        if plan['sched']:
            q = copy.deepcopy(plan)
            q['sched'] = None
            q.pop('segments', None)
            yield q


def shrink(plan):       # noqa
    yield from shrink_moves(plan)
    if 'ops' in plan:
        from . import common
        yield from common.shrink(plan)


def unit_of(w, obj):
    u = w.get('unit', 1)
    return u * u if obj['metric'] == 'sim_sq' else u


def exact_check(sim, obj, area, region, labels, attr, got, unit):
    lab = [x for x in labels]
    rows = [[v for v in r] for r in attr]
    before = ref.objective(lab, rows, obj)
    lab[area] = region
    after = ref.objective(lab, rows, obj)
    want = after - before
    got = scalar(got)
    tol = 1e-6 if obj['metric'] == 'cosine' else 1e-7
    if got != want and not abs(got - want) <= tol * (
            unit + abs(after) + abs(before)):
        raise Violation('wrong-difference', '{}: moving {} to {} in {}: '
                        'update() says {}, reference {}'.format(
                            obj, area, region, [x for x in labels], got,
                            want))
    sim.counts['compared'] = sim.counts.get('compared', 0) + 1
    if sim.counts['compared'] >= 3:
        sim.counts['nontrivial'] = 1


def value_check(obj, of, labels, attr, unit):
    got = scalar(of(labels, attr))
    want = ref.objective(list(labels), [list(r) for r in attr], obj)
    if not close(got, want, 1e-6 if obj['metric'] == 'cosine' else 1e-7,
                 unit):
        raise Violation('wrong-value', '{}: objective of {} is {}, reference '
                        '{}'.format(obj, list(labels), got, want))


def run(plan, sim):
    if 'moves' not in plan:
        return run_fit(plan, sim)
    env = X.Env(sim)
    w, obj = plan['worlds'][0], plan['obj']
    of = X.objective_for(env, obj)
    attr = np.array(w['attr'], dtype=plan['adtype'])
    nb = nbs(w)
    n = w['n']
    unit = unit_of(w, obj)
    st = {'labels': None, 'frozen': None, 'viol': None, 'done': False}
    attr0 = attr.tobytes()

    def look(where):
        if st['labels'] is None:
            return
        sim.counts['looks'] = sim.counts.get('looks', 0) + 1
        if st['labels'].tobytes() != st['frozen']:
            raise Violation('labels-changed', '{}: labels {} during/after '
                            'update()'.format(where, st['labels'].tolist()))
        if attr.tobytes() != attr0:
            raise Violation('attributes-changed', where)

    env.watchers.append(lambda kind: look('inside the ' + kind))

    def evaluator():
        for k, m in enumerate(plan['moves']):
            pp = core.Prng(m['pick'])
            if m['new'] or st['labels'] is None:
                st['labels'] = None
                lab = W.gen_partition(pp, n, nb, min(max(m['k'], ncomps(w)),
                                                     n))
                st['list'] = lab
                a = np.array(lab, dtype=plan['dtype'])
                st['frozen'] = a.tobytes()
                st['labels'] = a
            lab = st['list']
            g = ref.groups(lab)
            cand = [(a, r) for a in range(n) if len(g[lab[a]]) > 1
                    for r in sorted(g) if r != lab[a]]
            if not cand:
                continue
            area, region = pp.choice(cand)
            region = st['labels'].dtype.type(region)
            f = m.get('fault')
            if f and f['kind'] == 'cb':
                env.arm(f['at'], f['exc'])
            elif f and not plan['sched']:
                sim.arm_async(f['at'], f['exc'])
            try:
                v = of.update(area, region, st['labels'], attr)
                ok = True
            except (Violation, core.HarnessError):
                raise
            except BaseException as ex:           # noqa
                ok = False
                sim.log('x', type(ex).__name__)
                if not f:
                    raise Violation('crash', 'update() raised {!r}'.format(
                        ex))
            finally:
                env.disarm()
                sim.disarm()
            look('after move {} ({})'.format(k, 'ok' if ok else 'failed'))
            if ok:
                exact_check(sim, obj, area, region, st['labels'], attr, v,
                            unit)
                if k % 5 == 0:
                    value_check(obj, of, st['labels'], attr, unit)
                sim.log(area, int(region), scalar(v))
                sim.state((world_key(w), tuple(lab), area, int(region)))
            else:
                sim.probe('evaluation_failed')
                v = of.update(area, region, st['labels'], attr)
                exact_check(sim, obj, area, region, st['labels'], attr, v,
                            unit)
        st['done'] = True

    if not plan['sched']:
        return evaluator()

    def observer():
        for _ in range(4000):
            if st['done']:
                return
            look('seen by another thread')
            sim.yield_point()

    sched = Sched(sim, 'replay' if 'segments' in plan else plan['sched'],
                  plan.get('segments'), mean=plan['mean'])
    sched.spawn(evaluator)
    sched.spawn(observer)
    tasks = sched.run()
    sim.segments = sched.log
    sim.counts['thread_switches'] = sched.switches
    for t in tasks:
        if t['exc'] is not None:
            raise t['exc']


def run_fit(plan, sim):
    env = X.Env(sim)
    w, obj = plan['worlds'][0], plan['obj']
    cur = {}
    unit = unit_of(w, obj)

    def look(kind):
        if 'labels' in cur and cur['labels'].tobytes() != cur['frozen']:
            raise Violation('labels-changed', 'inside the {} called from '
                            'update()'.format(kind))
    env.watchers.append(look)
    from region.objective_function import ObjectiveFunctionPairwise, \
        ObjectiveFunctionCenter
    base = X.objective_for(env, obj)
    parent = type(base)

    class Spy(parent):
        def __init__(self):
            self.__dict__.update(base.__dict__)

        def update(self, moving_area, recipient_region, labels, attr):
            cur['labels'], cur['frozen'] = labels, labels.tobytes()
            try:
                v = super().update(moving_area, recipient_region, labels,
                                   attr)
            finally:
                same = labels.tobytes() == cur['frozen']
                cur.clear()
                if not same:
                    raise Violation('labels-changed', 'after update()')
            env.busy = True
            exact_check(sim, obj, moving_area, recipient_region, labels,
                        attr, v, unit)
            return v
    e = X.build(env, plan['est'])
    for k, o in enumerate(plan['ops']):
        c = X.prepare(env, plan['est'], o['op'], w, objective=Spy())
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        sim.log(out.status, X.labels(e))
