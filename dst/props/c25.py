"""C25: simulated annealing follows its documented schedule."""
import copy

from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C25'
RUNS = {'quick': 2500, 'thorough': 40000}
POINTS = True
RULE = ('A run is 1-4 fits of one AZPSimulatedAnnealing, on one or two maps, '
        'some stopped by a fault; the parameters (iterations, limit of '
        'SA-moves, steps without a move, repetitions, cooling factor) vary. '
        'The public fit of the inner AZP and the decisions of the annealing '
        'strategy are observed; an executable model of the documented '
        'schedule says after each AZP run whether another one follows, from '
        'which labels and at which temperature, and which labels are '
        'published.')
NONTRIVIAL = 'a fit of at least three AZP runs at two temperatures ended.'
REAL = 'AZPSimulatedAnnealing, AZP, AllowMoveAZPSimulatedAnnealing, ' \
    'objective_function, util, csgraph_utils; numpy, scipy'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan; ' \
    'fit_from_scipy_sparse_matrix of AZP and __call__ of the strategy class ' \
    'are wrapped'
ASSUMPTIONS = ['finite max_iterations', 'steps without a move are counted '
               'over the whole fit', 'the inner search is run through '
               'AZP.fit_from_scipy_sparse_matrix (otherwise nothing is '
               'judged)']


def gen(p, tier, index):
    spec = X.gen_est(p, ('sa',))
    spec.update(T=p.choice([.05, .5, 3.0, 30.0, 500.0]),
                maxit=p.choice([1, 2, 3, 4, 6]),
                q=p.choice([1, 1, 2, 3, 5, 10, 100]),
                nonmoving=p.choice([1, 2, 3, 4]),
                reps=p.choice([1, 2, 3, 5]))
    worlds = [W.gen_world(p, 2, p.choice([4, 6, 8]),
                          attr=p.choice(['small', 'wide', 'two', 'neg',
                                         'const', 'quarter']))
              for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for _ in range(p.choice([1, 2, 2, 3, 4])):
        wi = p.below(len(worlds))
        op = X.gen_op(p, worlds[wi], spec, entries=['sparse', 'dict', 'w'])
        op['obj'] = {'kind': 'pair', 'metric': 'sim'}
        op['cooling'] = p.choice([.01, .1, .5, .85, .99])
        ops.append({'world': wi, 'op': op, 'fault':
                    gen_fault(p, 400, 20000) if p.chance(.2) else None})
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common
    yield from common.shrink(plan)


class Model:
    """The schedule of one fit; fed with the AZP runs as they happen."""

    def __init__(self, sim, spec, op, c):
        self.sim, self.s = sim, spec
        self.labels = list(op['init']) if op.get('init') is not None else None
        self.factor = c
        self.temp = spec['T']
        self.rounds = 0
        self.it = 0
        self.worse = 0           # SA-moves of this round
        self.moved = False       # since the last cooling
        self.still = 0
        self.visited = []
        self.done = None         # why no further run may follow
        self.runs = 0
        self.blind = False       # moves were made which we did not see

    def start(self, initial):
        if self.blind:
            return
        if self.done:
            raise Violation('went-on', 'AZP run {} follows though {}'.format(
                self.runs + 1, self.done))
        lab = None if initial is None else [int(x) for x in initial]
        if lab != self.labels:
            raise Violation('wrong-start', 'AZP run {} starts from {}, the '
                            'search is at {}'.format(self.runs + 1, lab,
                                                     self.labels))

    def decision(self, diff, temp, taken):
        if temp is not None and not close(temp, self.temp, 1e-9):
            raise Violation('wrong-temperature', 'AZP run {} (after {} '
                            'cooling steps) works at temperature {}, not {}'
                            .format(self.runs + 1, self.rounds, temp,
                                    self.temp))
        if taken:
            self.moved = True
            if diff is None:
                self.blind = True
            elif diff > 0:
                self.worse += 1

    def end(self, labels):
        self.runs += 1
        self.it += 1
        old, self.labels = self.labels, [int(x) for x in labels]
        if self.it < self.s['maxit'] and self.worse < self.s['q'] and \
                old != self.labels:
            return                   # step b goes on
        self.sim.probe('round_' + (
            'iterations' if self.it >= self.s['maxit'] else
            'sa_moves' if self.worse >= self.s['q'] else 'same'))
        if self.visited.count(self.labels) >= self.s['reps']:
            self.done = '{} was the result {} times before (limit {})'.format(
                self.labels, self.visited.count(self.labels), self.s['reps'])
            self.sim.probe('stop_repetitions')
            return
        self.visited.append(self.labels)
        self.temp *= self.factor
        self.rounds += 1
        self.it = self.worse = 0
        if self.moved:
            self.moved = False
        else:
            self.still += 1
            if self.still >= self.s['nonmoving']:
                self.done = 'there were {} steps without a move'.format(
                    self.still)
                self.sim.probe('stop_nonmoving')

    def finish(self, labels):
        if self.runs == 0 or self.blind:
            return
        if not self.done:
            raise Violation('stopped-early', 'after {} AZP runs, {} cooling '
                            'steps, {} of {} steps without a move, results '
                            '{}; {} of {} runs and {} of {} SA-moves in this '
                            'step'.format(
                                self.runs, self.rounds, self.still,
                                self.s['nonmoving'], self.visited, self.it,
                                self.s['maxit'], self.worse, self.s['q']))
        if labels != self.labels:
            raise Violation('other-labels', 'published {}, the last AZP run '
                            'returned {}'.format(labels, self.labels))
        if self.runs >= 3 and self.rounds >= 1:
            self.sim.counts['nontrivial'] = 1


def run(plan, sim):
    from region.p_regions import azp, azp_util
    env = X.Env(sim)
    e = X.build(env, plan['est'])
    box = {'m': None, 'deep': 0, 'diff': None}
    fit = azp.AZP.__dict__['fit_from_scipy_sparse_matrix']
    cls = azp_util.AllowMoveAZPSimulatedAnnealing
    call = cls.__dict__['__call__']

    def inner(self, adj, attr, n_regions, initial_labels=None, *a, **kw):
        m = box['m']
        if m is None or box['deep'] or type(self) is not azp.AZP:
            return fit(self, adj, attr, n_regions, initial_labels, *a, **kw)
        box['deep'] = 1
        try:
            m.start(initial_labels)
            r = fit(self, adj, attr, n_regions, initial_labels, *a, **kw)
        finally:
            box['deep'] = 0
        m.end(self.labels_)
        sim.log(m.labels)
        sim.state((tuple(m.labels), m.rounds, m.still))
        return r

    def decide(self, moving_area, new_region, labels):
        box['diff'] = None
        taken = call(self, moving_area, new_region, labels)
        if box['m'] is not None and box['deep']:
            box['m'].decision(box['diff'], getattr(self, 't', None),
                              bool(taken))
        return taken

    def updated(area, region, labels, attr, v):
        box['diff'] = scalar(v)

    azp.AZP.fit_from_scipy_sparse_matrix = inner
    cls.__call__ = decide
    try:
        for k, o in enumerate(plan['ops']):
            w, op = plan['worlds'][o['world']], o['op']
            m = Model(sim, plan['est'], op, op['cooling'])
            c = X.prepare(env, plan['est'], op, w,
                          objective=spy_objective(env, None, updated))
            box['m'] = m
            try:
                out, fired = call_faulty(sim, env, e, c, o['fault'])
                box['m'] = None
                if out.ok:
                    m.finish(X.labels(e))
            except Violation as v:
                raise Violation(v.kind, 'fit {} with {}, cooling factor {}: '
                                '{}'.format(k, plan['est'], op['cooling'],
                                            v.detail))
            finally:
                box['m'] = None
    finally:
        azp.AZP.fit_from_scipy_sparse_matrix = fit
        cls.__call__ = call
