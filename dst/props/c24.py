"""C24: max-p construction grows just-sufficient regions, most similar first."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa
from .c08 import gen_maxp, gen_maxp_world, shrink_maxp as shrink  # noqa

ID = 'C24'
RUNS = {'quick': 3500, 'thorough': 50000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of one max-p heuristic on generated '
        'maps of 1-14 areas in 1-3 components with reachable thresholds, '
        'through any entry point, every random draw decided by the '
        'simulator. A subclass overriding the public construction methods '
        'records every growth step, constructed partition and enclave '
        'assignment of every construction attempt; each is judged with exact '
        'dissimilarities. Earlier fits may be stopped by a fault.')
NONTRIVIAL = 'an attempt with at least two regions was judged.'
REAL = 'region.max_p_regions.heuristics, region.p_regions.azp, azp_util, ' \
    'objective_function, util; numpy, scipy, networkx, libpysal, geopandas'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan'
ASSUMPTIONS = ['non-negative spatially extensive attributes',
               'reachable thresholds', 'symmetric contiguity']


def gen(p, tier, index):
    spec = {'est': 'maxp', 'local': None}
    if p.chance(.5):
        spec['seed'] = p.below(1000)
    worlds = [gen_maxp_world(p, 14) for _ in range(p.choice([1, 1, 2]))]
    for w in worlds:
        if p.chance(.4):
            # small regions, many of them, and dead ends
            w['sp'] = [[1 + p.below(4)] for _ in range(w['n'])]
            tot = min(sum(w['sp'][i][0] for i in comp)
                      for comp in ref.components(w['n'], nbs(w)))
            w['thr'] = [min(tot, p.int(2, 9))]
    ops = []
    for _ in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        op = gen_maxp(p, worlds[wi], spec)
        op['max_it'] = p.choice([1, 2, 3, 5])
        op['obj'] = {'kind': 'pair', 'metric': p.weighted([('sim', 4),
                                                           ('sim_sq', 1)])}
        ops.append({'world': wi, 'op': op,
                    'fault': gen_fault(p) if p.chance(.15) else None})
    return {'est': spec, 'worlds': worlds, 'ops': ops, 'rng': p.weighted(RNG)}


def enough(w, areas, thr):
    return all(sum(w['sp'][a][c] for a in areas) >= t
               for c, t in enumerate(thr))


def away(w, a, others, metric):
    return sum(ref.dist(w['attr'][a], w['attr'][b], metric) for b in others)


def judge_growth(sim, w, thr, partition, enclaves, what):
    nb = nbs(w)
    flat = [a for r in partition for a in r] + list(enclaves)
    if sorted(flat) != list(range(w['n'])):
        raise Violation('not-a-partition', '{}: regions {} and enclaves {} of '
                        '{} areas'.format(what, partition, enclaves, w['n']))
    for r in partition:
        if not ref.connected(r, nb):
            raise Violation('region-not-connected', '{}: {}'.format(what, r))
        if not enough(w, r, thr):
            raise Violation('region-below-threshold', '{}: {}'.format(
                what, r))
        if len(r) > 1 and not any(
                not enough(w, r - {a}, thr) and ref.connected(r - {a}, nb)
                for a in r):
            raise Violation('region-grew-on', '{}: {} reached the threshold '
                            'before its last area was added'.format(what, r))
    left = set(enclaves)
    while left:
        a = min(left)
        group, todo = {a}, [a]
        while todo:
            for b in nb[todo.pop()]:
                if b in left and b not in group:
                    group.add(b)
                    todo.append(b)
        if enough(w, group, thr):
            raise Violation('enclaves-suffice', '{}: the enclaves {} touch '
                            'each other and reach the threshold, regions {}'
                            .format(what, sorted(group), partition))
        left -= group
        sim.probe('enclave_group')


def run(plan, sim):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    env = X.Env(sim)
    box = {}

    class Watched(MaxPRegionsHeu):
        def grow_regions(self, *a, **kw):
            box['steps'] = []
            r = super().grow_regions(*a, **kw)
            part = [{int(x) for x in reg} for reg in r[0]]
            encl = [int(x) for x in r[1]]
            judge_growth(sim, box['w'], box['thr'], part, encl, box['what'])
            nb = nbs(box['w'])
            for reg, cand in box['steps']:
                i = next((i for i, q in enumerate(part) if reg <= q), None)
                if i is None:
                    continue                  # became enclaves
                later = set().union(*part[i + 1:], part[i] - reg)
                seen = set().union(*(nb[x] for x in reg))
                if not seen & later <= cand or cand & set().union(*part[:i]):
                    raise Violation('wrong-candidates', '{}: {} could grow '
                                    'by {}, later areas {}, regions {}'
                                    .format(box['what'], reg, cand, later,
                                            part))
            if len(part) > 1:
                sim.counts['nontrivial'] = 1
            sim.log(part, encl)
            sim.state((world_key(box['w']), str(part)))
            return r

        def find_best_area(self, region, candidates, attr):
            reg = {int(x) for x in region}
            cand = {int(x) for x in candidates}
            a = int(super().find_best_area(region, candidates, attr))
            w, m, nb = box['w'], box['metric'], nbs(box['w'])
            box['steps'].append((reg, cand))
            if a not in cand or not nb[a] & reg:
                raise Violation('not-a-candidate', '{}: {} grew by {}, '
                                'candidates {}'.format(box['what'], reg, a,
                                                       cand))
            d = {b: away(w, b, reg, m) for b in cand}
            if d[a] != min(d.values()):
                raise Violation('not-the-most-similar', '{}: {} grew by {} '
                                '(dissimilarities {})'.format(
                                    box['what'], reg, a, d))
            if len(cand) > 1:
                sim.probe('growth_choice')
            return a

        def assign_enclaves(self, partition, enclave_areas, *a, **kw):
            start = [{int(x) for x in r} for r in partition]
            encl = [int(x) for x in enclave_areas]
            r = super().assign_enclaves(partition, enclave_areas, *a, **kw)
            end = [{int(x) for x in reg} for reg in r]
            w, nb = box['w'], nbs(box['w'])
            if sorted(x for reg in end for x in reg) != list(range(w['n'])):
                raise Violation('not-a-partition', '{}: after assigning the '
                                'enclaves {}: {}'.format(box['what'], encl,
                                                         end))
            for s in start:
                if not any(s <= reg for reg in end):
                    raise Violation('region-changed', '{}: {} is in none of '
                                    '{}'.format(box['what'], s, end))
            for reg in end:
                if not ref.connected(reg, nb):
                    raise Violation('region-not-connected', '{}: enclaves {} '
                                    'made {}'.format(box['what'], encl, reg))
            if len(end) != len(start):
                raise Violation('region-count-changed', '{}: {} -> {}'.format(
                    box['what'], start, end))
            if encl:
                sim.probe('enclaves_assigned')
            return r

        def find_best_region_idx(self, area, partition, candidates, attr):
            w, m, nb = box['w'], box['metric'], nbs(box['w'])
            part = [{int(x) for x in r} for r in partition]
            area = int(area)
            i = super().find_best_region_idx(area, partition, candidates,
                                             attr)
            d = {j: away(w, area, r, m) for j, r in enumerate(part)
                 if r & nb[area]}
            if i not in d:
                raise Violation('enclave-does-not-touch', '{}: enclave {} '
                                'joins {}'.format(box['what'], area, part[i]))
            if d[i] != min(d.values()):
                raise Violation('not-the-most-similar', '{}: enclave {} joins '
                                '{} of {} (dissimilarities {})'.format(
                                    box['what'], area, i, part, d))
            if len(d) > 1:
                sim.probe('enclave_choice')
            return i

    e = Watched(random_state=plan['est'].get('seed'))
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        box.update(w=w, thr=op['thr'], what='fit {}'.format(k),
                   metric=ref.METRICS.get(op['obj']['metric']))
        c = X.prepare(env, plan['est'], op, w)
        out, fired = call_faulty(sim, env, e, c, o['fault'],
                                 budget=1_500_000)
        if not out.ok and not fired:
            sim.probe('failed_without_fault')        # decided by C08
        sim.log(out.status, X.labels(e))
