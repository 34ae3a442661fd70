"""C14: a reused estimator behaves like a fresh one."""
import copy

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C14'
RUNS = {'quick': 1800, 'thorough': 20000}
POINTS = True
RULE = ('A run is a history of 2-6 fits of one estimator of any kind, with '
        'other maps and parameters, some stopped by a callback, solver, '
        'disk, memory failure or interrupt, some invalid. Every fit which is '
        'not disturbed is repeated on a newly built estimator with the same '
        'random decisions and must give the same outcome and the same '
        'result. For the max-p heuristic, the local search object it was '
        'given also runs fits of its own in between, or is shared by a '
        'second max-p estimator, and is compared with a fresh one.')
NONTRIVIAL = 'at least 2 fits on a used object were compared with a fresh one.'
REAL = 'all estimators of region, region.util, objective_function; pulp, ' \
    'the cbc binary, numpy, scipy, networkx, libpysal, geopandas, sklearn'
STUB = 'random module (every draw), clock, entropy, stdout, solver process ' \
    'control and its disk I/O; metric, center, reduction callbacks'
ASSUMPTIONS = ['the same random decisions are given to both fits by '
               'position, for any generator the library draws from']


def gen(p, tier, index):
    kind = p.weighted([('azp', 1.5), ('sa', 3), ('btabu', 3), ('rtabu', 3),
                       ('maxp', 5), ('pexact', 1), ('mpexact', 1),
                       ('skater', 1.5)])
    spec = A.gen_spec(p, kind)
    worlds = [A.gen_world(p, kind, big=7) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    n_ops = p.int(2, 6)
    for k in range(n_ops):
        wi = p.below(len(worlds))
        on = 'main'
        if kind == 'maxp' and spec.get('local'):
            on = p.weighted([('main', 5), ('local', 3), ('second', 2)])
        if on == 'local':
            op = A.gen_op(p, spec['local']['est'], worlds[wi],
                          spec['local'])
            skind = spec['local']['est']
        else:
            op = A.gen_op(p, kind, worlds[wi], spec)
            skind = kind
        o = {'world': wi, 'op': op, 'fault': None, 'on': on}
        if kind in A.EXACT:
            o['solver'] = S.gen_directive(p, .3)
        if skind in A.HEUR and k and p.chance(.3):
            o['prev'] = True
        r = p.random()
        if k < n_ops - 1 and r < .35:
            o['fault'] = gen_fault(p, 40, 1500)
        elif r < .45 and on == 'main':
            A.make_bad(p, kind, worlds[wi], op)
            o['unsat'] = True
            o['prev'] = False
        ops.append(o)
    if p.chance(.35):            # the last fit repeats an earlier one
        o = copy.deepcopy(p.choice(ops))
        o['fault'] = None
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'clock': p.weighted([('normal', 4), ('jumps', 1)]),
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common, c08
    for i, o in enumerate(plan['ops']):
        if o.get('prev'):
            q = copy.deepcopy(plan)
            q['ops'][i]['prev'] = False
            yield q
    if plan['est']['est'] in ('maxp', 'mpexact'):
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    spec = plan['est']
    kind = spec['est']
    objs = {}
    if kind == 'maxp' and spec.get('local'):
        objs['local'] = X.build(env, spec['local'])
        objs['main'] = X.build(env, spec, local=objs['local'])
        objs['second'] = X.build(env, spec, local=objs['local'])
    else:
        objs['main'] = X.build(env, spec)
    specs = {'main': spec, 'second': spec, 'local': spec.get('local')}
    used = {'main': 0, 'second': 0, 'local': 0}
    budget = 400_000
    compared = 0
    shared = {}        # objective objects, used again like the estimators
    for k, o in enumerate(plan['ops']):
        on = o.get('on', 'main')
        if on not in objs:
            continue
        e, sp = objs[on], specs[on]
        sk = sp['est']
        w, op = plan['worlds'][o['world']], dict(o['op'])
        if o.get('prev'):
            lab = X.labels(e, A.LABELS[sk])
            if lab is not None and not ref.partition_error(lab, w['n'],
                                                           nbs(w)):
                op['init'] = [int(x) for x in lab]
                op.pop('init_dtype', None)
                op['p'] = len(set(lab))
        env.shared = shared
        c = A.prepare(env, sp, op, w)
        mark = A.RngMark(sim)
        np_state = _np_state()
        sv.set(o.get('solver'))
        out, fired = call_faulty(sim, env, e, c, o['fault'], budget)
        fired = fired and o['fault'] is not None
        S.clean()
        sv.set(None)
        sim.log(out.status, str(X.labels(e, A.LABELS[sk])))
        was_used = used[on] or (on != 'main' and used['main'])
        used[on] += 1
        if on != 'local':
            used['local'] += 1
        if o['fault'] is not None:
            if fired:
                sim.probe('history_fault')
            continue
        # the same fit on a new object
        mark.back(sim)
        _np_state(np_state)
        fresh = X.build(env, sp)
        env.shared = None
        c2 = A.prepare(env, sp, op, w)
        sv.set(o.get('solver'))
        out2 = X.call(sim, fresh, c2, budget)
        S.clean()
        sv.set(None)
        what = 'fit {} on {} ({}) after {} uses'.format(
            k, on, sk, used[on] - 1)
        if 'budget' in (out.status, out2.status):
            if out.status != out2.status and min(out.ticks, out2.ticks) < \
                    budget // 4:
                raise Violation('differs', '{}: reused {!r} in {} steps, '
                                'fresh {!r} in {} steps'.format(
                                    what, out, out.ticks, out2, out2.ticks))
            continue
        if out.status != out2.status or \
                type(out.exc) is not type(out2.exc):
            raise Violation('outcome-differs', '{}: reused {!r}, fresh {!r}'
                            .format(what, out, out2))
        if out.ok:
            a, b = A.snapshot(e, sk), A.snapshot(fresh, sk)
            for x, y in zip(a, b):
                if x != y and x[0] != 'metric' and not (
                        x[0] == '_trace' and not op.get('trace')):
                    raise Violation('result-differs', '{}: {} is {} on the '
                                    'reused object, {} on a fresh one'.format(
                                        what, x[0], x[1], y[1]))
            sim.state((world_key(w), str(a[0][1]), k))
        if was_used:
            compared += 1
            sim.probe('compared_' + sk)
            if compared >= 2:
                sim.counts['nontrivial'] = 1


def _np_state(s=None):
    import numpy as np
    if s is None:
        return np.random.get_state()
    np.random.set_state(s)
