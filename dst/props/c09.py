"""C09: the max-p heuristic keeps the most regions, then the best objective."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa
from .c08 import gen_maxp, gen_maxp_est, gen_maxp_world, spy_local, \
    shrink_maxp as shrink      # noqa

ID = 'C09'
RUNS = {'quick': 2000, 'thorough': 20000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of one max-p heuristic (1-10 '
        'construction attempts each) with an observed local search (AZP, '
        'simulated annealing, basic or reactive tabu) on generated maps of '
        '2-12 areas, every random draw decided by the simulator; earlier '
        'fits may be stopped by a fault. Construction attempts are recorded '
        'by a subclass overriding the public grow_regions, local searches by '
        'a subclass of the local search.')
NONTRIVIAL = ('a result was compared with at least two construction attempts '
              'and at least one local search result.')
REAL = 'region.max_p_regions.heuristics, region.p_regions.azp, azp_util, ' \
    'objective_function, util; numpy, scipy, networkx, libpysal'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan'
ASSUMPTIONS = ['non-negative spatially extensive attributes',
               'reachable thresholds', 'deterministic objective; center '
               'objectives compared with relative tolerance 1e-9']


def gen(p, tier, index):
    spec = gen_maxp_est(p)
    if spec['local'] is None and p.chance(.8):
        spec['local'] = X.gen_est(p, ('azp',))
    worlds = [gen_maxp_world(p, comps=p.choice([1, 1, 1, 2]))
              for _ in range(p.choice([1, 1, 2]))]
    for w in worlds:                 # make the attempts and results differ
        if p.chance(.7):
            w['attr'] = distinct_attr(p, w['n'])
            w['sp'] = [[1 + p.below(4)] for _ in range(w['n'])]
            tot = min(sum(w['sp'][i][0] for i in comp)
                      for comp in ref.components(w['n'], nbs(w)))
            w['thr'] = [max(1, tot // p.int(2, 5))]
        W.rescale(p, w, .15)
    ops = []
    for _ in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        op = gen_maxp(p, worlds[wi], spec)
        op['max_it'] = p.choice([1, 2, 3, 4, 6, 10])
        if op['obj'] is None:
            op['obj'] = {'kind': 'pair', 'metric': 'sim'}
        ops.append({'world': wi, 'op': op,
                    'fault': gen_fault(p) if p.chance(.15) else None})
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted([('fair', 6), ('mixed', 3), ('sticky', 1),
                               ('alternate', 1)])}


def run(plan, sim):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    env = X.Env(sim)
    attempts, searches = [], []

    def hook(phase, ls, n_regions, init):
        if phase == 'start':
            searches.append([int(n_regions), [int(x) for x in init], None])
        elif searches:
            searches[-1][2] = X.labels(ls)

    class Watched(MaxPRegionsHeu):
        def grow_regions(self, *a, **kw):
            r = super().grow_regions(*a, **kw)
            attempts.append(len(r[0]))
            return r

    spec = plan['est']
    local = None
    if spec['local'] is not None:
        local = spy_local(X.build(env, spec['local']), hook)
    e = Watched(local_search=local, random_state=spec.get('seed'))
    greedy = spec['local'] is not None and spec['local']['est'] != 'sa'
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        nb = nbs(w)
        del attempts[:], searches[:]
        c = X.prepare(env, spec, op, w)
        out, fired = call_faulty(sim, env, e, c, o['fault'],
                                 budget=1_500_000)
        if not out.ok:
            if not fired:
                sim.probe('failed_without_fault')        # decided by C08
            continue
        lab = X.labels(e)
        sim.log(lab, attempts, searches)
        what = 'fit {} of max-p ({})'.format(k, (spec['local'] or {}).get(
            'est'))
        if ref.partition_error(lab, w['n'], nb):
            sim.probe('invalid_partition')               # decided by C08
            continue
        if len(attempts) > op['max_it']:
            raise Violation('too-many-attempts', '{}: {} construction '
                            'attempts, max_it {}'.format(
                                what, len(attempts), op['max_it']))
        if attempts and len(set(lab)) != max(attempts):
            raise Violation('regions-lost', '{}: result {} has {} regions, '
                            'construction attempts had {}'.format(
                                what, lab, len(set(lab)), attempts))
        for p, start, end in searches:
            if end is not None and len(set(end)) != len(set(start)):
                raise Violation('regions-lost', '{}: local search turned {} '
                                'into {}'.format(what, start, end))
        if len(set(attempts)) > 1:
            sim.probe('attempts_differ')
        if attempts and searches:
            if len(attempts) > 1:
                sim.counts['nontrivial'] = 1
            want = attempts.count(max(attempts))
            if len(searches) < want:
                raise Violation('attempt-dropped', '{}: {} of the attempts '
                                '{} reach {} regions but {} local searches '
                                'ran'.format(what, want, attempts,
                                             max(attempts), len(searches)))
        if searches:
            rows = w['attr']
            val = [ref.objective(s[2], rows, op['obj']) for s in searches]
            got = ref.objective(lab, rows, op['obj'])
            if len(set(val)) > 1:
                sim.probe('results_differ')
            best = min(val)
            if got > best and not close(got, best, unit=w.get('unit', 1)):
                raise Violation('not-the-best', '{}: published {} with {}, '
                                'local search found {}'.format(
                                    what, lab, got, sorted(val)))
            if ref.canon(lab) not in [ref.canon(s[2]) for s in searches]:
                raise Violation('not-a-result', '{}: published {} is not a '
                                'local search result'.format(what, lab))
            for (p, start, end), v in zip(searches, val):
                if greedy:
                    s = ref.objective(start, rows, op['obj'])
                    if v > s and not close(
                            v, s, unit=w.get('unit', 1)):
                        raise Violation('worse-than-construction', '{}: {} '
                                        '({}) became {} ({})'.format(
                                            what, start, s, end, v))
        sim.state((world_key(w), str(lab)))
