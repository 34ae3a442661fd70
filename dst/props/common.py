"""Pieces shared by several property modules."""
import copy

from .. import core, est as X, ref, world as W
from ..core import Violation, HarnessError

RNG = X.RNG_MODES


def nbs(world):
    return ref.adj_list(world['n'], world['edges'])


def ncomps(world):
    return len(ref.components(world['n'], nbs(world)))


def satisfiable(world, op):
    return ncomps(world) <= op['p'] <= world['n']


def check_partition(world, lab, p, what):
    err = ref.partition_error(lab, world['n'], nbs(world), p)
    if err:
        raise Violation('invalid-partition', '{}: {} (labels {})'.format(
            what, err, lab))


def shrink_worlds(plan, min_n=1):
    """Drop areas / simplify attributes, keeping ops satisfiable."""
    worlds = plan.get('worlds')
    if not worlds:
        return
    for wi, w in enumerate(worlds):
        for d in range(w['n'] - 1, -1, -1):
            if w['n'] <= min_n or 'grid' in w:
                continue
            q = copy.deepcopy(plan)
            q['worlds'][wi] = W.restrict(w, d)
            ok = True
            for op in list(q.get('ops', [])) + list(q.get('tasks', [])):
                o = op.get('op', op)
                if op.get('world', 0) != wi or 'p' not in o:
                    continue
                nw = q['worlds'][wi]
                if o.get('init') is not None:
                    lab = [x for i, x in enumerate(o['init']) if i != d]
                    if ref.partition_error(lab, nw['n'], nbs(nw)) or \
                            len(lab) == 0:
                        ok = False
                        break
                    o['init'] = lab
                    o['p'] = len(set(lab))
                if not op.get('unsat') and o['p'] != 'inf':
                    lo = ncomps(nw)
                    if not lo <= o['p'] <= nw['n']:
                        o['p'] = min(max(o['p'], lo), nw['n'])
            if ok:
                yield q
        if 'grid' in w:
            q = copy.deepcopy(plan)
            del q['worlds'][wi]['grid']
            if all(op.get('op', op).get('entry') != 'gdf'
                   for op in q.get('ops', [])):
                yield q
        if len(w['attr'][0]) > 1:
            q = copy.deepcopy(plan)
            q['worlds'][wi]['attr'] = [r[:1] for r in w['attr']]
            yield q
        for i in range(w['n']):
            for c in range(len(w['attr'][0])):
                v = w['attr'][i][c]
                for v2 in {0, v // 2}:
                    if v2 != v and abs(v2) < abs(v):
                        q = copy.deepcopy(plan)
                        q['worlds'][wi]['attr'][i][c] = v2
                        yield q


def shrink_ops(plan):
    for key in ('ops', 'tasks'):
        for i, op in enumerate(plan.get(key) or []):
            o = op.get('op', op)
            for k, simple in (('entry', 'sparse'), ('flat', None),
                              ('alias', None), ('adjtype', None),
                              ('zeros', None), ('loops', None),
                              ('wtrans', None), ('wids', None),
                              ('nxattr', None), ('init_dtype', None),
                              ('dtype', None), ('layout', None),
                              ('npint', None),
                              ('obj', {'kind': 'pair', 'metric': 'sim'})):
                if k in o and o[k] != simple:
                    q = copy.deepcopy(plan)
                    o2 = q[key][i].get('op', q[key][i])
                    if simple is None:
                        del o2[k]
                    else:
                        o2[k] = simple
                    yield q
            if op.get('fault') is not None:
                q = copy.deepcopy(plan)
                q[key][i]['fault'] = None
                yield q


def shrink(plan):
    yield from shrink_ops(plan)
    yield from shrink_worlds(plan)


CB_FAULTS = ('raise', 'zerodiv', 'memory', 'kbd')


def gen_fault(p, cb_max=60, point_max=3000):
    """A fault for one fit: where and what."""
    k = p.weighted([('cb', 5), ('async', 4), ('stdout', .5)])
    if k == 'cb':
        at = 1 + int(cb_max ** p.random()) - 1
        return {'kind': 'cb', 'at': max(1, at), 'exc': p.choice(CB_FAULTS)}
    if k == 'async':
        return {'kind': 'async', 'frac': round(p.random(), 4) if
                p.chance(.6) else None,
                'at': max(1, int(point_max ** p.random())),
                'exc': p.choice(['KeyboardInterrupt', 'MemoryError'])}
    return {'kind': 'stdout', 'at': p.int(1, 6)}


def call_faulty(sim, env, e, c, fault, budget=X.DEFAULT_BUDGET):
    """Call fit with an armed fault; returns (outcome, fired)."""
    if not fault:
        return X.call(sim, e, c, budget), False
    before = sum(sim.faults.values())
    if fault['kind'] == 'cb':
        env.arm(fault['at'], fault['exc'])
    elif fault['kind'] == 'async':
        sim.arm_async(fault['at'], fault['exc'])
    elif fault['kind'] == 'stdout':
        sim.out.n = 0
        sim.out.fail_at = fault['at']
    try:
        o = X.call(sim, e, c, budget)
    finally:
        env.disarm()
        sim.disarm()
        sim.out.fail_at = None
    fired = sum(sim.faults.values()) > before
    if fired and not o.ok:
        sim.counts['fits_faulted'] = sim.counts.get('fits_faulted', 0) + 1
    return o, fired


def tag_world(w):
    """Make the first attribute column the area's own index (exact ids)."""
    w = dict(w)
    w['attr'] = [[i] + list(r[:1]) for i, r in enumerate(w['attr'])]
    return w


def spy_objective(env, on_call=None, on_update=None, base='pair', spec=None):
    """A user-written objective: the library's, observed."""
    from region.objective_function import ObjectiveFunctionPairwise, \
        ObjectiveFunctionCenter
    spec = spec or {'kind': 'pair', 'metric': 'sim'}
    parent = ObjectiveFunctionPairwise if spec['kind'] == 'pair' else \
        ObjectiveFunctionCenter

    if spec.get('num'):
        parent = X.plain_numbers(parent)

    class SpyObjective(parent):
        def __call__(self, labels, attr):
            v = super().__call__(labels, attr)
            if on_call:
                on_call(labels, attr, v)
            return v

        def update(self, moving_area, recipient_region, labels, attr):
            v = super().update(moving_area, recipient_region, labels, attr)
            if on_update:
                on_update(moving_area, recipient_region, labels, attr, v)
            return v
    if spec['kind'] == 'pair':
        return SpyObjective(X.metric_for(env, spec.get('metric', 'sim')))
    return SpyObjective(
        X.metric_for(env, spec.get('metric', 'sim')),
        X.SimCenter(env, spec.get('center', 'mean')),
        X.SimReduction(env, spec.get('reduction', 'sum')))


def world_key(w):
    return (w['n'], tuple(map(tuple, w['edges'])))


def sub_nb(nb, comp):
    """Neighbour sets of a component in its own index space."""
    idx = {a: i for i, a in enumerate(comp)}
    return [{idx[b] for b in nb[a] if b in idx} for a in comp]


def scalar(x):
    """A number out of whatever array shape the library uses for scalars."""
    import numpy as np
    a = np.asarray(x, dtype=float).ravel()
    if a.size != 1:
        raise Violation('not-a-scalar', 'value {!r}'.format(x))
    return float(a[0])


def close(a, b, tol=1e-9, unit=1):
    """unit: the scale of the attributes the numbers were made from."""
    if a == b:
        return True
    return abs(a - b) <= tol * (unit + abs(a) + abs(b))


def gen_sp(p, n, nb, cols=None, neg=False):
    """Spatially extensive attributes and a reachable threshold."""
    cols = cols or p.weighted([(1, 4), (2, 4 if neg else 1), (3, .2)])
    kind = p.choice(['ones', 'small', 'small', 'zeros', 'wide', 'half'])
    rows = []
    for _ in range(n):
        r = []
        for _ in range(cols):
            if kind == 'ones':
                v = 1
            elif kind == 'small':
                v = 1 + p.below(5)
            elif kind == 'zeros':
                v = p.below(3)
            elif kind == 'half':
                v = p.below(9) / 4
            else:
                v = p.below(100)
            if neg and p.chance(.25):
                v = -p.below(4)
            r.append(v)
        rows.append(r)
    comps = ref.components(n, nb)
    thr = []
    for c in range(cols):
        lim = min(sum(rows[i][c] for i in comp) for comp in comps)
        lim = max(lim, 0)
        frac = p.choice([.1, .25, .4, .6, 1.0])
        t = p.int(0, max(0, int(lim * frac)))
        if kind == 'half' and t + .75 <= lim * frac:
            t += .75
        thr.append(t)
    return rows, thr


def distinct_attr(p, n, cols=None):
    cols = cols or p.choice([1, 2])
    return [[p.below(10 ** 6) for _ in range(cols)] for _ in range(n)]
