"""C05: greedy search stops only where no single move improves."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C05'
RUNS = {'quick': 4000, 'thorough': 60000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of AZP, or of the max-p heuristic '
        'with AZP as local search, on generated maps (3-12 areas, 1-3 '
        'components) mostly without ties; earlier fits may be stopped by a '
        'fault. When no evaluated move had value zero, every legal single '
        'move from the published labels is evaluated by the reference.')
NONTRIVIAL = 'a result with at least one legal single move was examined.'
REAL = 'region.p_regions.azp, azp_util, max_p_regions.heuristics, ' \
    'objective_function, util; numpy, scipy'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan'
ASSUMPTIONS = ['non-negative spatially extensive attributes',
               'fits that evaluated a move of value zero are not judged',
               'center objectives: improvement of more than 1e-6 relative']


def gen(p, tier, index):
    maxp = p.chance(.45)
    spec = {'est': 'maxp'} if maxp else {'est': 'azp'}
    if p.chance(.5):
        spec['seed'] = p.below(1000)
    if maxp:
        spec['local'] = p.choice([None, {'est': 'azp'},
                                  {'est': 'azp', 'seed': 3}])
    worlds = []
    for _ in range(p.choice([1, 1, 2])):
        w = W.gen_big_world(p, 25) if p.chance(.01) else \
            W.gen_world(p, 3, p.choice([6, 9, 12]))
        if p.chance(.8):
            w['attr'] = distinct_attr(p, w['n'])
        W.rescale(p, w, .15)
        if maxp:
            w['sp'], w['thr'] = gen_sp(p, w['n'], nbs(w))
        worlds.append(w)
    ops = []
    for _ in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        if maxp:
            op = {'entry': p.choice(['sparse', 'dict', 'w']), 'p': None,
                  'thr': w['thr'], 'max_it': p.choice([1, 2, 4, 10])}
        else:
            op = X.gen_op(p, w, spec, entries=['sparse', 'dict', 'nx'])
        op['obj'] = {'kind': 'pair', 'metric': 'sim'} if p.chance(.8) else \
            {'kind': 'center', 'metric': 'sim', 'center': 'median',
             'reduction': 'sum'}
        o = {'world': wi, 'op': op, 'fault': None}
        if p.chance(.2):
            o['fault'] = gen_fault(p)
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common
    if plan['est']['est'] == 'maxp':
        return
    yield from common.shrink(plan)


def run(plan, sim):
    env = X.Env(sim)
    e = X.build(env, plan['est'])
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        nb = nbs(w)
        tie = []

        def upd(area, region, labels, attr, v):
            if scalar(v) == 0:
                tie.append(1)
        c = X.prepare(env, plan['est'], op, w, objective=spy_objective(
            env, on_update=upd, spec=op['obj']))
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        if not out.ok:
            continue
        lab = X.labels(e)
        sim.log(lab)
        if ref.partition_error(lab, w['n'], nb):
            sim.probe('invalid_partition')      # decided by C01 / C08
            continue
        if tie:
            sim.probe('tie_not_judged')
            continue
        now = ref.objective(lab, w['attr'], op['obj'])
        eps = 0 if op['obj']['kind'] == 'pair' else \
            1e-6 * (w.get('unit', 1) + abs(now))
        legal = 0
        for a, r, t in ref.legal_moves(lab, nb):
            if 'thr' in op:
                rest = [i for i in range(w['n']) if lab[i] == r and i != a]
                if not all(sum(w['sp'][i][q] for i in rest) >= th
                           for q, th in enumerate(op['thr'])):
                    continue
            legal += 1
            l2 = list(lab)
            l2[a] = t
            v = ref.objective(l2, w['attr'], op['obj'])
            if v < now - eps:
                raise Violation(
                    'not-a-local-optimum', 'fit {} of {}: labels {} ({}), '
                    'area {} could move from {} to {} ({})'.format(
                        k, plan['est']['est'], lab, now, a, r, t, v))
        sim.state((world_key(w), tuple(lab)))
        if legal:
            sim.counts['nontrivial'] = 1
            sim.probe('examined_' + plan['est']['est'])
