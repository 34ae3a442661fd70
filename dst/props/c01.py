"""C01: every p-regions heuristic fit yields a valid contiguous partition."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C01'
RUNS = {'quick': 1400, 'thorough': 12000}
POINTS = True
RULE = ('A run is a history of 1-4 fits of one AZP / simulated annealing / '
        'basic tabu / reactive tabu estimator on 1-2 generated maps (2-10 '
        'areas, 1-3 components), through any entry point, with or without '
        'initial labels, every random draw decided by the simulator (fair or '
        'adversarial), some fits hit by a callback failure, interrupt, '
        'memory failure or broken stdout.')
NONTRIVIAL = ('at least one fit on at least 3 areas with at least 2 regions '
              'returned or was stopped by an injected fault.')
REAL = 'all of region.p_regions.azp, azp_util, objective_function, util, ' \
    'csgraph_utils; numpy, scipy, networkx, libpysal, geopandas'
STUB = 'random module, clock, stdout; most metrics are the simulator\'s ' \
    'exact manhattan metric'
ASSUMPTIONS = ['symmetric contiguity without self-loops',
               'finite attribute values', 'maps of at most 10 areas']


def gen(p, tier, index):
    spec = X.gen_est(p)
    big = 10 if p.chance(.3) else 7
    worlds = [W.gen_grid_world(p) if p.chance(.12) else
              W.gen_world(p, 1 if p.chance(.05) else 2, big)
              for _ in range(p.weighted([(1, 3), (2, 1)]))]
    if p.chance(.02):
        worlds[0] = W.gen_big_world(p)
    ops = []
    for _ in range(p.weighted([(1, 3), (2, 3), (3, 1), (4, 1)])):
        wi = p.below(len(worlds))
        o = {'world': wi, 'op': X.gen_op(p, worlds[wi], spec),
             'fault': None}
        if p.chance(.25):
            o['fault'] = gen_fault(p)
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG), 'spy': p.chance(.3)}


class Spy:
    """A user move strategy that looks at every state it is shown."""

    def __new__(cls, sim, world_of):
        from region.p_regions.azp_util import AllowMoveAZP

        class Strategy(AllowMoveAZP):
            def start_new_component(self, initial_labels, attr,
                                    objective_func, comp_idx):
                super().start_new_component(initial_labels, attr,
                                            objective_func, comp_idx)
                self.comp = [int(i) for i in comp_idx]
                self.look(initial_labels, 'start')

            def look(self, labels, when):
                w = world_of[0]
                nb = nbs(w)
                idx = {a: i for i, a in enumerate(self.comp)}
                sub = [{idx[b] for b in nb[a] if b in idx}
                       for a in self.comp]
                lab = [int(x) for x in labels]
                sim.state((w['n'], tuple(map(tuple, w['edges'])),
                           tuple(lab)))
                err = ref.partition_error(lab, len(self.comp), sub)
                if err:
                    raise Violation('invalid-intermediate-state',
                                    '{}: {}'.format(when, err))
                self.k = len(set(lab)) if when == 'start' else self.k
                if len(set(lab)) != self.k:
                    raise Violation('region-lost', '{} regions became {}'
                                    .format(self.k, len(set(lab))))

            def __call__(self, moving_area, new_region, labels):
                self.look(labels, 'before move')
                r = super().__call__(moving_area, new_region, labels)
                if r:
                    lab = labels.copy()
                    lab[moving_area] = new_region
                    self.look(lab, 'after move')
                return r
        return Strategy()


def run(plan, sim):
    env = X.Env(sim)
    world_of = [None]
    spy = plan['spy'] and plan['est']['est'] == 'azp'
    e = X.build(env, plan['est'], strategy=Spy(sim, world_of) if spy
                else None)
    for k, o in enumerate(plan['ops']):
        w = world_of[0] = plan['worlds'][o['world']]
        op = o['op']
        c = X.prepare(env, plan['est'], op, w)
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        if w['n'] >= 3 and op['p'] >= 2 and (out.ok or fired):
            sim.counts['nontrivial'] = 1
        if out.ok:
            lab = X.labels(e)
            sim.log(lab)
            sim.state((w['n'], tuple(map(tuple, w['edges'])), str(lab)))
            check_partition(w, lab, op['p'], 'fit {} of {}'.format(
                k, plan['est']['est']))
        elif out.status == 'raise' and not fired:
            raise Violation('crash', 'fit {} of {} {!r}'.format(
                k, plan['est']['est'], out))
