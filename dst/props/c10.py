"""C10: exact p-regions: an optimum or an error, whatever the solver does."""
from .. import core, est as X, ref, solver as S, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C10'
RUNS = {'quick': 2400, 'thorough': 24000}
POINTS = True
RULE = ('A run is a history of 1-4 fits of one PRegionsExact (flow, order, '
        'tree; any entry point) on generated maps of 2-6 areas. Each solver '
        'start runs the real cbc on the model the library wrote, and the '
        'simulator decides which of several optima it returns (tie-breaking '
        'perturbation), rounding noise, its duration, and injects one of 25 '
        'solver, process, disk, callback, interrupt or memory faults. Every '
        'published labelling is compared with the optimum found by '
        'enumerating all contiguous partitions.')
NONTRIVIAL = ('a published labelling with at least 2 regions on at least 3 '
              'areas was compared with the optimum, or a solver or disk '
              'fault fired.')
REAL = 'region.p_regions.exact, region.util; pulp; the cbc binary'
STUB = 'process control of the solver (spawn, exit status, solution file), ' \
    'the solver\'s choice among optima and its rounding, disk errors of ' \
    'pulp\'s model and solution files, uuid4, clock'
ASSUMPTIONS = ['maps of at most 6 areas (7 in thorough)', 'integer '
               'attributes, or multiples of a power of two from 2^-60 '
               'to 2^40; non-integer metrics compared with relative '
               'tolerance 1e-4', 'a damaged solution file is short, '
               'unreadable, carries another status or has one changed value '
               '(a file rewritten to another consistent solution cannot be '
               'told from an optimum)']
# models whose optimum cbc has been seen to cut off: method, number of
# regions, edges, attributes.  These are judged without a second opinion.
HARD_MODELS = [
    ('flow', 3, '01 12 13 23 04', '8 7 5 1 3'),
    ('flow', 3, '01 02 12 03 23 04 35', '1 9 7 5 1 3'),
    ('flow', 3, '01 02 13 04 05 15 25 45', '9 7 9 9 9 8'),
    ('flow', 3, '01 02 13 23 04 45', '8 8 3 7 4 2'),
    ('flow', 3, '01 02 12 13 24 34 05 35', '1 7 5 9 5 6'),
    ('flow', 3, '01 02 12 03 04 34', '8 2 5 8 5'),
    ('flow', 3, '01 12 23 04 35', '6 6 6 4 0 0'),
    ('flow', 3, '01 02 12 03 23 34', '1 3 7 4 8'),
    ('flow', 3, '01 02 13 23 04', '7 5 8 7 6'),
    ('tree', 3, '01 12 13 24 35 45', '5 3 4 1 2 7'),
    ('tree', 3, '01 12 13 14 24 15', '2 7 9 4 0 3'),
]
HARD = set(S.PROC_FAULTS + S.DISK_FAULTS) - {'flip', 'truncated'}


def gen_world(p, tier):
    big = 7 if tier == 'thorough' and p.chance(.1) else \
        p.weighted([(4, 3), (5, 4), (6, 2)])
    if p.chance(.1):
        w = W.gen_grid_world(p, 2, 3, cols=p.choice([1, 2]))
    else:
        w = W.gen_world(p, 1 if p.chance(.05) else 2, big,
                        comps=p.weighted([(1, 6), (2, 2), (3, 1)]))
    kind = p.choice(['small', 'small', 'two', 'const', 'ramp'])
    w['attr'] = W.gen_attr(p, w['n'], p.choice([1, 1, 2]), kind)
    return W.rescale(p, w, .15)


def gen_metric(p):
    return p.weighted([('sim', 5), ('sim_sq', 4), ('manhattan', 1),
                       (None, 1)])


def ref_metric(op):
    return 'euclidean' if op['metric'] is None else \
        ref.METRICS.get(op['metric'], op['metric'])


def ignored_metric(env, w, op):
    """A metric of the caller on at least two areas was never consulted."""
    return op['metric'] in ('sim', 'sim_sq') and w['n'] > 1 and not env.n


def gen_op(p, w):
    nc, n = ncomps(w), w['n']
    op = {'entry': p.choice(['sparse', 'sparse', 'sparse', 'dict', 'nx', 'w']
                            + (['gdf'] if 'grid' in w else [])),
          'p': p.weighted([(nc, 2), (p.int(nc, n), 6), (n, .5),
                           (min(n, nc + 1), 3)]),
          'metric': gen_metric(p)}
    m = p.choice(['flow', 'order', 'tree', None])
    if m:
        op['method'] = m if p.chance(.9) else m.upper()
    if p.chance(.3):
        op['flat'] = True
    if op['entry'] == 'nx' and p.chance(.5):
        op['nxattr'] = 'names'
    if p.chance(.15) and op['entry'] == 'sparse':
        op['alias'] = 'fit'
    if p.chance(.1):
        op['solver'] = p.choice(['cbc', 'CBC'])
    X.gen_matrix(p, op)
    return op


def gen_hard(p):
    ops, worlds = [], []
    for k in range(2):
        m, n, edges, attr = p.choice(HARD_MODELS)
        attr = [[int(x)] for x in attr.split()]
        worlds.append({'n': len(attr), 'edges': [
            [int(c) for c in e] for e in edges.split()], 'attr': attr,
            'ids': 'int', 'salt': 0})
        ops.append({'world': k, 'fault': None, 'solver': {
            'tie': None, 'noise': None, 'seconds': 0}, 'op': {
                'entry': 'sparse', 'p': n, 'metric': 'sim', 'method': m}})
    return {'est': {'est': 'pexact'}, 'worlds': worlds, 'ops': ops,
            'check_solver': False}


def gen(p, tier, index):
    if p.chance(.015):
        return gen_hard(p)
    worlds = [gen_world(p, tier) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for _ in range(p.weighted([(1, 2), (2, 3), (3, 2), (4, 1)])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        op = gen_op(p, w)
        o = {'world': wi, 'op': op, 'fault': None,
             'solver': S.gen_directive(p, .45, op['metric'] is not None)}
        r = p.random()
        if r < .12:
            o['unsat'] = True
            op['p'] = p.choice([w['n'] + 1, 0, -1] +
                               list(range(1, ncomps(w))) * 2)
        elif r < .2 and not o['solver'].get('fault'):
            o['fault'] = gen_fault(p, 20, 400)
        elif r < .23:
            o['op']['solver'] = p.choice(['glpk', 'cplex', 'gurobi'])
            o['unavailable'] = True
        ops.append(o)
    return {'est': {'est': 'pexact'}, 'worlds': worlds, 'ops': ops}


def shrink_solver(plan):
    import copy
    for i, o in enumerate(plan.get('ops', [])):
        for k in ('tie', 'noise', 'fault'):
            if o.get('solver') and o['solver'].get(k) is not None:
                q = copy.deepcopy(plan)
                q['ops'][i]['solver'][k] = None
                yield q


def shrink(plan):       # noqa
    from . import common
    yield from shrink_solver(plan)
    yield from common.shrink(plan)


def optimum_error(w, op, lab):
    """None if lab is an optimal solution of the request."""
    nb = nbs(w)
    err = ref.partition_error(lab, w['n'], nb, op['p'])
    if err:
        return 'invalid-partition', '{} (labels {})'.format(err, lab)
    metric = ref_metric(op)
    best = ref.best_p_regions(w['n'], nb, w['attr'], op['p'], metric)
    got = ref.pairwise(lab, w['attr'], metric)
    if got != best and not (metric == 'euclidean' and close(
            got, best, 1e-4, unit=w.get('unit', 1))):
        return 'not-optimal', 'labels {} cost {}, optimum {}'.format(
            lab, got, best)
    return None


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    e = X.build(env, plan['est'])
    last = None
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        d = o['solver']
        c = X.prepare(env, plan['est'], op, w)
        env.n = 0
        sv.set(d)
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        hit = sv.fired and d.get('fault') not in (None,) + S.BENIGN
        fired = fired and o['fault'] is not None
        sv.set(None)
        S.clean()
        lab = X.labels(e)
        sim.log(lab)
        what = 'fit {} ({}, p={}, solver fault {})'.format(
            k, op.get('method'), op['p'], d.get('fault') if hit else None)
        if hit:
            sim.counts['nontrivial'] = 1
        if out.ok:
            if o.get('unsat'):
                raise Violation('infeasible-accepted', '{}: {}'.format(
                    what, lab))
            if o.get('unavailable'):
                raise Violation('no-solver-accepted', '{} with {}: {}'.format(
                    what, op['solver'], lab))
            if hit and d['fault'] in HARD:
                raise Violation('solver-failure-ignored', '{}: published {}'
                                .format(what, lab))
            bad = optimum_error(w, op, lab)
            if bad:
                raise Violation(bad[0], '{}: {}'.format(what, bad[1]))
            if ignored_metric(env, w, op):
                raise Violation('metric-ignored', '{} by {}: the metric of '
                                'the caller was never called'.format(
                                    what, c.name))
            last = lab
            sim.state((world_key(w), tuple(lab), op.get('method')))
            if w['n'] >= 3 and op['p'] >= 2:
                sim.counts['nontrivial'] = 1
                sim.probe('optimum_' + str(op.get('method') or 'default')
                          .lower())
            continue
        if lab != last:
            bad = optimum_error(w, op, lab) if lab is not None and \
                not o.get('unsat') else ('wrong-labels', lab)
            if bad or not fired:
                raise Violation('wrong-labels-published', '{} {!r}: {} '
                                'instead of {}'.format(what, out, lab, last))
            last = lab
        if not (o.get('unsat') or o.get('unavailable') or hit or fired):
            raise Violation('crash', '{} {!r}'.format(what, out))
        if o.get('unsat'):
            sim.probe('infeasible_rejected')
