"""C17: the result does not depend on the order of delivery."""
import copy

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Prng, Violation
from .common import *          # noqa

ID = 'C17'
RUNS = {'quick': 2000, 'thorough': 24000}
RULE = ('A run delivers one map 3-5 times to fresh estimators of one kind '
        '(all heuristics, exact p-regions, exact max-p) with the same seed '
        'or the same random decisions: once as a matrix with sorted areas, '
        'then as dictionaries and networkx graphs whose areas, neighbours, '
        'nodes, edges (either direction), attributes, thresholds and initial '
        'labels arrive in a seeded order, with neighbour collections of any '
        'type and with repeated entries, and with area names whose hashes '
        '(and so the iteration order of sets) are drawn by the simulator. '
        'All deliveries must give every area the same region.')
NONTRIVIAL = 'at least 2 deliveries of a map with 3 or more areas and 2 or ' \
    'more regions were compared.'
REAL = 'all region estimators with dict and networkx entry points, ' \
    'region.util, objective_function; pulp, the cbc binary, networkx, scipy'
STUB = 'random module, entropy, string hashes of area names, delivery ' \
    'order, solver process control'
ASSUMPTIONS = ['symmetric contiguity', 'area names that can be sorted; '
               'matrix input lists areas in sorted order']


def gen(p, tier, index):
    kind = p.weighted([('azp', 2), ('sa', 2), ('btabu', 2), ('rtabu', 2),
                       ('maxp', 4), ('pexact', 2), ('mpexact', 2)])
    spec = A.gen_spec(p, kind)
    if kind in A.HEUR + ('maxp',):
        spec['seed'] = p.below(1000)
        if spec.get('local'):
            spec['local']['seed'] = p.below(1000)
    w = A.gen_world(p, kind, big=8)
    if kind in A.HEUR and p.chance(.25):
        w = W.gen_grid_world(p, 3, 3)
    elif p.chance(.25):
        for _ in range(20):
            if 'grid' in w:
                break
            w = A.gen_world(p, kind, big=8)
    w['ids'] = p.weighted([('str', 5), ('int', 1.5), ('sparse_int', 1.5),
                           ('neg', .5), ('tuple', 1), ('float', .5)])
    op = A.gen_op(p, kind, w, spec, entries=['sparse'], init=.4)
    for k in ('alias', 'init_dtype', 'adjtype', 'zeros', 'loops'):
        op.pop(k, None)
    plan = {'est': spec, 'worlds': [w], 'ops': [{'world': 0, 'op': op}],
            'rng': 'faithful' if p.chance(.5) else p.weighted(RNG)}
    if kind in A.EXACT:
        plan['solver'] = {'tie': p.below(10**6) if p.chance(.5) else None}
    ds = []
    for _ in range(p.choice([2, 3, 4])):
        d = {'entry': p.choice(['dict', 'dict', 'dict', 'nx', 'nx', 'w'] +
                               (['gdf'] * 3 if 'grid' in w else [])),
             'salt': p.below(10**6), 'order': p.below(10**6)}
        if d['entry'] == 'dict':
            d['cont'] = p.choice(['any', 'any', 'set', 'list', 'duplist',
                                  'keys'])
        elif d['entry'] == 'nx' and p.chance(.5):
            d['nxattr'] = 'names'
        elif d['entry'] == 'w' and p.chance(.6):
            d['wids'] = p.below(1000)
        ds.append(d)
    plan['deliveries'] = ds
    return plan


def shrink(plan):       # noqa
    from . import common, c08
    for i, d in enumerate(plan['deliveries']):
        if len(plan['deliveries']) > 1:
            q = copy.deepcopy(plan)
            del q['deliveries'][i]
            yield q
        if d['order'] is not None:
            q = copy.deepcopy(plan)
            q['deliveries'][i]['order'] = None
            yield q
        if d.get('cont', 'list') != 'list':
            q = copy.deepcopy(plan)
            q['deliveries'][i]['cont'] = 'list'
            yield q
    if plan['worlds'][0]['ids'] not in ('int', 'str'):
        q = copy.deepcopy(plan)
        q['worlds'][0]['ids'] = 'int'
        yield q
    if plan['est']['est'] in ('maxp', 'mpexact'):
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    w, op = plan['worlds'][0], plan['ops'][0]['op']
    mark = A.RngMark(sim)

    def fit(w, op, order):
        mark.back(sim)
        e = X.build(env, plan['est'])
        sv.set(plan.get('solver'))
        c = A.prepare(env, plan['est'], op, w,
                      shuffle=Prng(order) if order is not None else None)
        env.n = 0
        r = X.call(sim, e, c, 500_000)
        sv.set(None)
        S.clean()
        return r, X.labels(e), env.n > 0

    r0, lab0, used0 = fit(w, op, None)
    sim.log(r0.status, lab0)
    if r0.status == 'budget':
        return
    n = 0
    for d in plan['deliveries']:
        op2 = dict(op)
        op2.update({k: v for k, v in d.items()
                    if k in ('entry', 'cont', 'nxattr', 'wids')})
        w2 = dict(w, salt=d['salt'])
        r, lab, used = fit(w2, op2, d['order'])
        sim.log(r.status, lab)
        what = '{} with areas {} as {}'.format(
            plan['est']['est'], w['ids'],
            {k: v for k, v in d.items() if k != 'salt'})
        if r.status != r0.status:
            raise Violation('outcome-depends', '{}: {!r}, as sorted matrix '
                            '{!r}'.format(what, r, r0))
        if r.ok and used != used0:
            raise Violation('callbacks-depend', '{}: metric or objective of '
                            'the caller {}consulted, unlike as sorted matrix'
                            .format(what, '' if used else 'never '))
        if lab != lab0:
            raise Violation('result-depends', '{}: {}, as sorted matrix {}'
                            .format(what, lab, lab0))
        if r.ok:
            n += 1
            sim.probe('agreed_' + d['entry'] + '_' + plan['est']['est'])
            sim.state((world_key(w), str(lab), d['entry']))
    if n >= 2 and w['n'] >= 3 and len(set(lab0 or [])) >= 2:
        sim.counts['nontrivial'] = 1
