"""C11: exact max-p: an optimum or an error, whatever the solver does."""
from .. import core, est as X, ref, solver as S, world as W
from ..core import Violation
from .common import *          # noqa
from .c08 import reachable, shrink_maxp
from .c10 import HARD, gen_metric, ignored_metric, ref_metric, shrink_solver

ID = 'C11'
RUNS = {'quick': 2000, 'thorough': 20000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of one MaxPRegionsExact (any entry '
        'point) on generated maps of 1-5 areas with one or two spatially '
        'extensive attributes and reachable or unreachable thresholds. Each '
        'solver start runs the real cbc on the model the library wrote, and '
        'the simulator decides which of several optima it returns, rounding '
        'noise, its duration, and injects one of 25 solver, process, disk, '
        'callback, interrupt or memory faults. Every published labelling is '
        'compared with the optimum found by enumerating all contiguous '
        'partitions.')
NONTRIVIAL = ('a published labelling on at least 3 areas was compared with '
              'the optimum, or a solver or disk fault fired.')
REAL = 'region.max_p_regions.exact, region.util; pulp; the cbc binary'
STUB = 'process control of the solver (spawn, exit status, solution file), ' \
    'the solver\'s choice among optima and its rounding, disk errors of ' \
    'pulp\'s model and solution files, uuid4, clock'
ASSUMPTIONS = ['maps of at most 5 areas (6 in thorough)', 'integer '
               'attributes (times a power of two), non-negative spatially extensive attributes in '
               'multiples of 1/4 (times a power of two)', 'sums and '
               'thresholds which differ by less than the solver can tell '
               '(1e-6 of their size) are not generated', 'non-integer metrics compared with '
               'relative tolerance 1e-4', 'damaged solution files as in C10']


def gen_trade_off(p):
    """A map on which fewer regions would be less heterogeneous."""
    for _ in range(60):
        w = W.gen_world(p, 5, 5, comps=1)
        hi = p.choice([9, 15, 16, 30, 100, 160])
        w['attr'] = [[p.choice([0, 1, hi, hi])] for _ in range(w['n'])]
        w['sp'] = [[p.choice([1, 1, 2])] for _ in range(w['n'])]
        w['thr'] = [p.choice([2, 2, 3])]
        best = {}
        for lab in ref.all_partitions(w['n'], nbs(w)):
            if ref.meets_threshold(lab, w['sp'], w['thr']):
                v = ref.pairwise(lab, w['attr'])
                k = max(lab)
                best[k] = min(v, best.get(k, v))
        if best and min(best.values()) < best[max(best)]:
            break
    return w


def gen_world(p, tier):
    if p.chance(.1):
        return gen_trade_off(p)
    big = 6 if p.chance(.1 if tier == 'thorough' else .02) else \
        p.weighted([(4, 3), (5, 3)])
    if p.chance(.1):
        w = W.gen_grid_world(p, 2, 2, cols=p.choice([1, 2]))
    else:
        w = W.gen_world(p, 1 if p.chance(.05) else 2, big,
                        comps=p.weighted([(1, 6), (2, 2)]))
    kind = p.choice(['small', 'small', 'two', 'const', 'ramp'])
    w['attr'] = W.gen_attr(p, w['n'], p.choice([1, 1, 2]), kind)
    w['sp'], w['thr'] = gen_sp(p, w['n'], nbs(w))
    w['sp'] = [[min(v, 9) for v in r] for r in w['sp']]
    lim = [min(sum(w['sp'][i][c] for i in comp)
               for comp in ref.components(w['n'], nbs(w)))
           for c in range(len(w['thr']))]
    w['thr'] = [p.int(0, max(0, int(x * p.choice([.3, .5, 1])))) for x in lim]
    if p.chance(.2):
        w['sp'] = [[x / 4 for x in r] for r in w['sp']]
        w['thr'] = [x / 4 for x in w['thr']]
    if p.chance(.12):
        w['spunit'] = u = 2.0 ** p.choice([-40, -33, -27, 25, 40])
        w['sp'] = [[x * u for x in r] for r in w['sp']]
        w['thr'] = [x * u for x in w['thr']]
    return W.rescale(p, w, .12)


def gen_op(p, w):
    op = {'entry': p.choice(['sparse', 'sparse', 'sparse', 'dict', 'nx', 'w']
                            + (['gdf'] if 'grid' in w else [])),
          'thr': list(w['thr']),
          'metric': gen_metric(p)}
    if p.chance(.3):
        op['flat'] = True
    if p.chance(.3) and len(w['sp'][0]) == 1:
        op['sp_flat'] = True
    if op['entry'] == 'nx' and p.chance(.5):
        op['nxattr'] = 'names'
    if p.chance(.15) and op['entry'] == 'sparse':
        op['alias'] = 'fit'
    X.gen_matrix(p, op)
    return op


def gen(p, tier, index):
    worlds = [gen_world(p, tier) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for _ in range(p.weighted([(1, 2), (2, 3), (3, 2)])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        op = gen_op(p, w)
        o = {'world': wi, 'op': op, 'fault': None,
             'solver': S.gen_directive(p, .4, op['metric'] is not None)}
        r = p.random()
        if r < .12:
            c = p.below(len(op['thr']))
            op['thr'][c] = w.get('spunit', 1) + min(
                sum(w['sp'][i][c] for i in comp)
                for comp in ref.components(w['n'], nbs(w)))
        elif r < .2 and not o['solver'].get('fault'):
            o['fault'] = gen_fault(p, 20, 1200)
        elif r < .23:
            op['solver'] = p.choice(['glpk', 'cplex', 'gurobi'])
            o['unavailable'] = True
        ops.append(o)
    return {'est': {'est': 'mpexact'}, 'worlds': worlds, 'ops': ops}


def shrink(plan):       # noqa
    yield from shrink_solver(plan)
    yield from shrink_maxp(plan)


def optimum_error(w, op, lab):
    nb = nbs(w)
    err = ref.partition_error(lab, w['n'], nb)
    if err:
        return 'invalid-partition', '{} (labels {})'.format(err, lab)
    if not ref.meets_threshold(lab, w['sp'], op['thr']):
        return 'below-threshold', 'labels {} sums {} threshold {}'.format(
            lab, ref.region_sums(lab, w['sp']), op['thr'])
    metric = ref_metric(op)
    p, best = ref.best_max_p(w['n'], nb, w['attr'], w['sp'], op['thr'],
                             metric)
    if len(set(lab)) != p:
        return 'not-maximal', 'labels {}: {} regions, {} are possible' \
            .format(lab, len(set(lab)), p)
    got = ref.pairwise(lab, w['attr'], metric)
    if got != best and not (metric == 'euclidean' and close(
            got, best, 1e-4, unit=w.get('unit', 1))):
        return 'not-optimal', 'labels {} cost {}, optimum {}'.format(
            lab, got, best)
    return None


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    e = X.build(env, plan['est'])
    last = None
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        d = o['solver']
        c = X.prepare(env, plan['est'], op, w)
        env.n = 0
        sv.set(d)
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        hit = sv.fired and d.get('fault') not in (None,) + S.BENIGN
        fired = fired and o['fault'] is not None
        sv.set(None)
        S.clean()
        lab = X.labels(e)
        sim.log(lab)
        feasible = reachable(w, op['thr'])
        what = 'fit {} (threshold {}, solver fault {})'.format(
            k, op['thr'], d.get('fault') if hit else None)
        if hit:
            sim.counts['nontrivial'] = 1
        if out.ok:
            if not feasible:
                raise Violation('infeasible-accepted', '{}: {}'.format(
                    what, lab))
            if o.get('unavailable'):
                raise Violation('no-solver-accepted', '{} with {}: {}'.format(
                    what, op['solver'], lab))
            if hit and d['fault'] in HARD:
                raise Violation('solver-failure-ignored', '{}: published {}'
                                .format(what, lab))
            bad = optimum_error(w, op, lab)
            if bad:
                raise Violation(bad[0], '{}: {}'.format(what, bad[1]))
            if ignored_metric(env, w, op):
                raise Violation('metric-ignored', '{} by {}: the metric of '
                                'the caller was never called'.format(
                                    what, c.name))
            last = lab
            sim.state((world_key(w), tuple(lab), tuple(op['thr'])))
            sim.probe('optimum')
            if w['n'] >= 3:
                sim.counts['nontrivial'] = 1
            continue
        if lab != last:
            bad = optimum_error(w, op, lab) if lab is not None and \
                feasible else ('wrong-labels', lab)
            if bad or not fired:
                raise Violation('wrong-labels-published', '{} {!r}: {} '
                                'instead of {}'.format(what, out, lab, last))
            last = lab
        if feasible and not (o.get('unavailable') or hit or fired):
            raise Violation('crash', '{} {!r}'.format(what, out))
        if not feasible:
            sim.probe('infeasible_rejected')
