"""C03: greedy search never ends worse and tracks its objective."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C03'
RUNS = {'quick': 8000, 'thorough': 40000}
POINTS = True
RULE = ('A run is a history of 1-3 fits of AZP, basic or reactive tabu on '
        'generated maps (2-12 areas, 1-3 components; a fifth with attributes scaled by '
        'powers of two from 2^-60 to 2^40) with pairwise or center '
        'objectives. The default move strategy is observed: at each call the '
        'objective value it tracks is compared with the reference value of '
        'the labels it was shown, each accepted and each refused move with '
        'the reference change, and the result with the start. Random draws are decided by '
        'the simulator; earlier fits may be stopped by a fault.')
NONTRIVIAL = 'at least one move was accepted.'
REAL = 'region.p_regions.azp, azp_util, objective_function, util; numpy, scipy'
STUB = 'random module, clock; metrics, centers and reductions are the ' \
    'simulator\'s; the observing move strategy wraps the real AllowMoveAZP'
ASSUMPTIONS = ['deterministic objective', 'symmetric contiguity',
               'floating-point centers compared with relative tolerance 1e-9',
               'maps of at most 12 areas']


def gen(p, tier, index):
    spec = X.gen_est(p, ('azp', 'btabu', 'rtabu'))
    if spec['est'] == 'btabu' and p.chance(.5):
        # long enough to reach aspiration moves
        spec.update(len=p.choice([10, 20, 85]), reps=p.choice([2, 5]))
    worlds = [W.rescale(p, W.gen_world(p, 2, p.choice([6, 10, 12])))
              for _ in range(p.choice([1, 1, 2]))]
    if p.chance(.01):
        worlds[0] = W.gen_big_world(p, 30)
    ops = []
    for _ in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        op = X.gen_op(p, worlds[wi], spec,
                      entries=['sparse', 'sparse', 'w', 'dict'])
        op['obj'] = gen_objspec(p)
        o = {'world': wi, 'op': op, 'fault': None, 'spy': p.chance(.75)}
        if p.chance(.2):
            o['fault'] = gen_fault(p)
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG)}


def gen_objspec(p):
    return p.weighted([
        ({'kind': 'pair', 'metric': 'sim'}, 8),
        ({'kind': 'pair', 'metric': 'euclidean'}, .5),
        ({'kind': 'center', 'metric': 'sim', 'center': 'mean',
          'reduction': 'sum'}, 2),
        ({'kind': 'center', 'metric': 'sim', 'center': 'median',
          'reduction': 'sum'}, 1),
        ({'kind': 'center', 'metric': 'sim', 'center': 'median',
          'reduction': 'max'}, 2),
        ({'kind': 'center', 'metric': 'sim', 'center': 'min',
          'reduction': 'mean'}, 1)])


def observed_strategy(sim, box):
    from region.p_regions.azp_util import AllowMoveAZP

    class Observed(AllowMoveAZP):
        def start_new_component(self, initial_labels, attr, objective_func,
                                comp_idx):
            super().start_new_component(initial_labels, attr, objective_func,
                                        comp_idx)
            self.comp = [int(i) for i in comp_idx]
            self.same(initial_labels, 'at the start')

        def value(self, labels):
            w, obj = box['world'], box['obj']
            lab = [int(x) for x in labels]
            sim.state((world_key(w), tuple(lab)))
            return ref.objective(lab, [w['attr'][i] for i in self.comp], obj)

        def near(self, a, b):
            return close(a, b, unit=box['world'].get('unit', 1))

        def same(self, labels, when):
            want = self.value(labels)
            got = scalar(self.objective_val)
            if not self.near(got, want):
                raise Violation('objective-not-tracked', '{}: tracked {} but '
                                'labels {} have {}'.format(
                                    when, got, [int(x) for x in labels],
                                    want))
            return want

        def __call__(self, moving_area, new_region, labels):
            before = self.same(labels, 'before a move')
            keep = [int(x) for x in labels]
            r = super().__call__(moving_area, new_region, labels)
            if r:
                sim.counts['nontrivial'] = 1
                keep[int(moving_area)] = int(new_region)
                after = self.value(keep)
                if after == before:
                    sim.probe('equal_move_taken')
                if after > before and not self.near(after, before):
                    raise Violation('worsening-move-accepted', '{} -> {}: '
                                    '{} -> {}'.format(moving_area, new_region,
                                                      before, after))
                if not self.near(scalar(self.objective_val), after):
                    raise Violation('objective-not-tracked', 'after a move: '
                                    '{} instead of {}'.format(
                                        scalar(self.objective_val), after))
                sim.log('m', int(moving_area), int(new_region))
                return r
            keep[int(moving_area)] = int(new_region)
            after = self.value(keep)
            exact = box['obj'] == {'kind': 'pair', 'metric': 'sim'}
            if after < before and not self.near(after, before) or \
                    exact and after <= before:
                raise Violation('harmless-move-refused', '{} -> {}: {} -> {}'
                                .format(moving_area, new_region, before,
                                        after))
            return r
    return Observed()


def run(plan, sim):
    env = X.Env(sim)
    e = X.build(env, plan['est'])
    default = e.allow_move_strategy
    box = {}
    obs = observed_strategy(sim, box)
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        nb = nbs(w)
        box['world'], box['obj'] = w, op['obj']
        e.allow_move_strategy = obs if o['spy'] else default
        first = {}
        comps = ref.components(w['n'], nb)
        order = []

        def seen(labels, attr, value):
            # the first evaluation on as many areas as a component has
            order.append(([int(x) for x in labels],
                          [[float(v) for v in r] for r in attr]))

        c = X.prepare(env, plan['est'], op, w, objective=spy_objective(
            env, seen, spec=op['obj']))
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        what = 'fit {} of {}'.format(k, plan['est']['est'])
        if not out.ok:
            if out.status == 'raise' and not fired:
                sim.probe('crash')       # decided by C01
            continue
        lab = X.labels(e)
        sim.log(lab)
        rows = w['attr']
        end = ref.objective(lab, rows, op['obj'])
        if op.get('init') is not None:
            start = ref.objective(op['init'], rows, op['obj'])
        elif len(comps) == 1 and order and len(order[0][0]) == w['n']:
            start = ref.objective(order[0][0], rows, op['obj'])
        else:
            start = None
        if start is not None:
            sim.probe('start_vs_end')
            if end < start:
                sim.probe('improved')
            if end > start and not obs.near(end, start):
                raise Violation('worse-than-start', '{}: {} -> {} (labels {})'
                                .format(what, start, end, lab))
        if o['spy']:
            comp = obs.comp
            want = ref.objective([lab[i] for i in comp],
                                 [rows[i] for i in comp], op['obj'])
            got = scalar(obs.objective_val)
            if not obs.near(got, want):
                raise Violation('objective-not-tracked', '{}: tracked {} but '
                                'the published labels have {}'.format(
                                    what, got, want))
