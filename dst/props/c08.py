"""C08: every max-p heuristic result is contiguous and meets the threshold."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C08'
RUNS = {'quick': 1800, 'thorough': 16000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of one max-p heuristic with any '
        'local search (default, AZP, simulated annealing, basic or reactive '
        'tabu) on generated maps of 1-12 areas in 1-3 components with one or '
        'two spatially extensive attributes, reachable and unreachable '
        'thresholds, through any entry point, every random draw decided by '
        'the simulator; earlier fits may be stopped by a fault. A spy around '
        'the local search also checks every partition it is handed and hands '
        'back.')
NONTRIVIAL = ('a result with at least 2 regions was checked, or an '
              'unreachable threshold was rejected.')
REAL = 'region.max_p_regions.heuristics, region.p_regions.azp, azp_util, ' \
    'objective_function, util; numpy, scipy, networkx, libpysal, geopandas'
STUB = 'random module, clock, stdout; metric is the simulator\'s exact ' \
    'manhattan'
ASSUMPTIONS = ['symmetric contiguity', 'spatially extensive attributes and '
               'thresholds are multiples of 1/4, non-negative (with negative '
               'values only the local search is judged: a feasible start '
               'stays feasible)', 'maps of at most 12 areas']


def gen_maxp(p, w, spec, entries=None):
    ent = entries or (['sparse', 'sparse', 'dict', 'nx', 'w'] +
                      (['gdf'] if 'grid' in w else []))
    op = {'entry': p.choice(ent), 'p': None, 'thr': list(w['thr']),
          'max_it': p.choice([1, 1, 2, 3, 5]), 'obj': X.gen_obj(p)}
    if p.chance(.25) and len(w['sp'][0]) == 1:
        op['sp_flat'] = True
    if op['entry'] == 'nx' and p.chance(.5):
        op['nxattr'] = 'names'
    if p.chance(.2) and op['entry'] == 'sparse':
        op['alias'] = 'fit'
    X.gen_matrix(p, op)
    return op


def gen_maxp_est(p):
    spec = {'est': 'maxp'}
    if p.chance(.5):
        spec['seed'] = p.below(1000)
    loc = p.weighted([(None, 2), ('azp', 2), ('sa', 2), ('btabu', 2),
                      ('rtabu', 2)])
    spec['local'] = X.gen_est(p, (loc,)) if loc else None
    if loc == 'sa':
        spec['local']['maxit'] = p.choice([1, 2])
        spec['local']['reps'] = p.choice([1, 2])
    return spec


def gen_maxp_world(p, big=12, neg=False, comps=None):
    w = W.gen_grid_world(p, 3, 3) if p.chance(.1) else \
        W.gen_world(p, 1 if p.chance(.04) else 2, p.choice([6, 9, big]),
                    comps=comps)
    if big >= 12 and p.chance(.015):
        w = W.gen_big_world(p, 30)
    w['sp'], w['thr'] = gen_sp(p, w['n'], nbs(w), neg=neg)
    if p.chance(.2):
        w['sp'] = [[x / 4 for x in r] for r in w['sp']]
        w['thr'] = [x / 4 for x in w['thr']]
    elif p.chance(.15):      # sums which need more bits than the values
        f = p.choice([20, 60, 3000, 15000, 2 ** 28])
        w['sp'] = [[x * f for x in r] for r in w['sp']]
        w['thr'] = [x * f for x in w['thr']]
    return w


def reachable(w, thr):
    return all(sum(w['sp'][i][c] for i in comp) >= t
               for comp in ref.components(w['n'], nbs(w))
               for c, t in enumerate(thr))


def gen(p, tier, index):
    neg = p.chance(.2)
    spec = gen_maxp_est(p)
    worlds = [gen_maxp_world(p, neg=neg) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for _ in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        op = gen_maxp(p, w, spec)
        o = {'world': wi, 'op': op, 'fault': None}
        if p.chance(.15):
            c = p.below(len(op['thr']))
            lim = min(sum(w['sp'][i][c] for i in comp)
                      for comp in ref.components(w['n'], nbs(w)))
            op['thr'][c] = lim + p.choice([1, 1, 10])
        elif p.chance(.15):
            o['fault'] = gen_fault(p)
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops, 'neg': neg,
            'spy': p.chance(.6) or neg, 'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    import copy
    yield from shrink_maxp(plan)
    if plan['est'].get('local') is not None:
        q = copy.deepcopy(plan)
        q['est']['local'] = None
        yield q


def shrink_maxp(plan):
    import copy
    yield from shrink_ops(plan)
    for i, o in enumerate(plan.get('ops') or plan.get('tasks') or []):
        key = 'ops' if plan.get('ops') else 'tasks'
        if o.get('op', o).get('max_it', 1) > 1:
            q = copy.deepcopy(plan)
            q[key][i].get('op', q[key][i])['max_it'] = 1
            yield q
    for wi, w in enumerate(plan['worlds']):
        if 'grid' in w:
            q = copy.deepcopy(plan)
            del q['worlds'][wi]['grid']
            for o in q.get('ops', []):
                if o.get('op', o).get('entry') == 'gdf':
                    o.get('op', o)['entry'] = 'sparse'
            yield q
            continue
        for d in range(w['n'] - 1, -1, -1):
            if w['n'] > 1:
                q = copy.deepcopy(plan)
                q['worlds'][wi] = W.restrict(w, d)
                yield q
        for i in range(w['n']):
            for key in ('attr', 'sp'):
                for c, v in enumerate(w.get(key, [[]])[i]
                                      if key in w else []):
                    if v not in (0, 1):
                        q = copy.deepcopy(plan)
                        q['worlds'][wi][key][i][c] = 1 if key == 'sp' else 0
                        yield q


def spy_local(base, hook):
    """
    A user-written subclass of the local search class; hook(phase, self, adj,
    init labels) sees every call.
    """
    cls = type(base)

    def fit(self, adj, attr, n_regions, initial_labels=None, *a, **kw):
        hook('start', self, n_regions, initial_labels)
        r = cls.fit_from_scipy_sparse_matrix(self, adj, attr, n_regions,
                                             initial_labels, *a, **kw)
        hook('end', self, n_regions, None)
        return r
    sub = type('Spy' + cls.__name__, (cls,),
               {'fit_from_scipy_sparse_matrix': fit})
    base.__class__ = sub
    return base


def run(plan, sim):
    env = X.Env(sim)
    box = {}

    def hook(phase, ls, n_regions, init):
        w, thr = box['w'], box['thr']
        if phase == 'start':
            lab = [int(x) for x in init]
            box['lab'] = lab
            box['feasible'] = ref.meets_threshold(lab, w['sp'], thr) and \
                not ref.partition_error(lab, w['n'], nbs(w))
            sim.probe('constructed')
            if not plan['neg'] and not box['feasible']:
                raise Violation('infeasible-construction', '{} sums {} '
                                'threshold {} ({})'.format(
                                    lab, ref.region_sums(lab, w['sp']), thr,
                                    ref.partition_error(lab, w['n'], nbs(w))))
        elif box['feasible']:
            lab = X.labels(ls)
            judge(w, thr, lab, 'local search from ' + str(box['lab']))

    def judge(w, thr, lab, what):
        err = ref.partition_error(lab, w['n'], nbs(w))
        if err:
            raise Violation('invalid-partition', '{}: {} (labels {})'.format(
                what, err, lab))
        if not ref.meets_threshold(lab, w['sp'], thr):
            raise Violation('below-threshold', '{}: labels {} sums {} '
                            'threshold {}'.format(
                                what, lab, ref.region_sums(lab, w['sp']),
                                thr))

    local = None
    if plan['spy']:
        local = X.build(env, plan['est']['local'] or {'est': 'azp'})
        local = spy_local(local, hook)
    e = X.build(env, plan['est'], local=local)
    last = None
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        box['w'], box['thr'] = w, op['thr']
        c = X.prepare(env, plan['est'], op, w)
        out, fired = call_faulty(sim, env, e, c, o['fault'],
                                 budget=1_500_000)
        what = 'fit {} of max-p ({})'.format(
            k, (plan['est']['local'] or {}).get('est'))
        lab = X.labels(e)
        sim.log(lab)
        if out.ok:
            last = lab
            sim.state((world_key(w), str(lab)))
            if not plan['neg']:
                if not reachable(w, op['thr']):
                    raise Violation('unreachable-accepted', '{}: {}'.format(
                        what, lab))
                judge(w, op['thr'], lab, what)
                if len(set(lab)) > 1:
                    sim.counts['nontrivial'] = 1
                    sim.probe('result_checked')
            continue
        if out.status == 'budget':
            continue
        if fired or plan['neg']:
            last = lab
            continue
        if lab != last:
            raise Violation('failed-fit-published', '{} {!r}: {} instead of '
                            '{}'.format(what, out, lab, last))
        if reachable(w, op['thr']):
            raise Violation('crash', '{} {!r}'.format(what, out))
        if not isinstance(out.exc, Exception):
            raise Violation('crash', '{} {!r}'.format(what, out))
        sim.counts['nontrivial'] = 1
        sim.probe('unreachable_rejected')
