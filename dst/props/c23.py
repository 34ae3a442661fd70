"""C23: tabu search makes the best admissible move and honours its limits."""
import collections
import copy

from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C23'
RUNS = {'quick': 3000, 'thorough': 40000}
POINTS = True
RULE = ('A run is a history of 1-4 fits of one AZPBasicTabu or '
        'AZPReactiveTabu (several tabu lengths and termination parameters) '
        'on one or two generated maps of 2-9 areas. A move strategy supplied '
        'by the harness sees every move the search wants to make and lets '
        'the simulator decide whether worsening moves are allowed (never, '
        'always, or by a coin); each move asked for is judged by a small '
        'model of the tabu search with exact objective values. Some fits are '
        'stopped by a callback fault, interrupt or memory failure; the tabu '
        'list of the next fit starts empty.')
NONTRIVIAL = ('a move was judged in a state in which the tabu list excluded '
              'a move which was otherwise possible.')
REAL = 'region.p_regions.azp (AZPTabu, AZPBasicTabu, AZPReactiveTabu), ' \
    'objective_function, util; numpy, scipy'
STUB = 'random module, clock; metric (exact on integers), move strategy'
ASSUMPTIONS = ['strategies which refuse moves that do not worsen the '
               'objective are outside the statement',
               'reactive tabu is judged in full until its first repeated '
               'solution, after that only legality and the final choice']


def gen(p, tier, index):
    spec = X.gen_est(p, ('btabu', 'btabu', 'rtabu'))
    if spec['est'] == 'btabu':
        spec['len'] = p.choice([None, 0, 1, 1, 2, 2, 3, 5, 10])
        spec['reps'] = p.choice([1, 2, 2, 3, 5])
    worlds = [W.gen_world(p, 2, p.choice([5, 7, 9]))
              for _ in range(p.choice([1, 1, 2]))]
    for w in worlds:
        W.rescale(p, w, .1)
    ops = []
    for _ in range(p.int(1, 4)):
        wi = p.below(len(worlds))
        op = X.gen_op(p, worlds[wi], spec,
                      entries=['sparse', 'sparse', 'w', 'dict'])
        op['obj'] = p.weighted([
            ({'kind': 'pair', 'metric': 'sim'}, 6),
            ({'kind': 'pair', 'metric': 'sim_sq'}, 1),
            ({'kind': 'center', 'metric': 'sim', 'center': 'min',
              'reduction': 'sum'}, 1),
            ({'kind': 'center', 'metric': 'sim', 'center': 'max',
              'reduction': 'max'}, 1)])
        ops.append({'world': wi, 'op': op,
                    'strategy': p.choice(['default', 'always', 'always',
                                          'coin']),
                    'coin': p.below(10 ** 6),
                    'fault': gen_fault(p) if p.chance(.15) else None})
    return {'est': spec, 'worlds': worlds, 'ops': ops, 'rng': p.weighted(RNG)}


class Model:
    """Tabu search on one component, driven by the moves asked for."""

    def __init__(self, sim, spec, obj, labels, rows, nb):
        self.sim, self.spec, self.obj = sim, spec, obj
        self.lab = list(labels)
        self.rows, self.nb = rows, nb
        self.basic = spec['est'] == 'btabu'
        self.tabu = collections.deque([], spec.get('len', None)
                                      if self.basic else 1)
        self.visits = collections.Counter()
        self.after = []                # states after each iteration
        self.starts = [self.value(labels)]
        self.prev = None               # objective at the previous start
        self.asks = 0
        self.loose = False
        self.kept = []
        self.asked = False

    def value(self, lab):
        return ref.objective(lab, self.rows, self.obj)

    def diff(self, mv):
        q = list(self.lab)
        q[mv[0]] = mv[2]
        return self.value(q) - self.value(self.lab)

    def legal(self):
        return list(ref.legal_moves(self.lab, self.nb))

    def choice(self):
        """(allowed moves, why) of the next question; reactive: step 4."""
        moves = self.legal()
        free = [m for m in moves if m not in self.tabu]
        if len(free) < len(moves):
            self.sim.counts['nontrivial'] = 1
            self.sim.probe('tabu_excluded_a_move')
        best = min((self.diff(m) for m in free), default=None)
        top = [m for m in free if self.diff(m) == best]
        if not self.basic:
            return top, 'best'
        if best is not None and best <= 0:
            return top, 'improving or equal'
        asp = [m for m in moves if m in self.tabu and self.diff(m) < 0]
        if asp:
            return asp, 'aspiration'
        return top, 'least worsening'

    def ask(self, mv, labels):
        self.asks += 1
        if labels != self.lab:
            raise Violation('labels-changed-unasked', 'asked about {} with '
                            'labels {}, the moves made so far lead to {}'
                            .format(mv, labels, self.lab))
        if mv not in self.legal():
            raise Violation('impossible-move', 'asked for {} in {}'.format(
                mv, self.lab))
        if self.loose:
            return
        here = tuple(self.lab)
        if self.basic:
            if self.visits[here] >= self.spec.get('reps', 5):
                raise Violation('went-on', 'the solution {} was met {} times '
                                'already'.format(here, self.visits[here]))
            self.visits[here] += 1
        else:
            now = self.value(self.lab)
            if self.asks > self.spec['maxit']:
                raise Violation('went-on', '{} iterations, limit {}'.format(
                    self.asks, self.spec['maxit']))
            if self.prev is not None and not now < self.prev:
                raise Violation('went-on', 'asked for {} though the previous '
                                'iteration did not improve ({} -> {})'.format(
                                    mv, self.prev, now))
            self.prev = now
            self.starts.append(now)
        want, why = self.choice()
        self.sim.probe(why)
        if mv not in want:
            raise Violation('not-the-best-move', 'in {} with tabu list {} '
                            'asked for {} (change {}), {} are {} (change {})'
                            .format(self.lab, list(self.tabu), mv,
                                    self.diff(mv), why, want,
                                    self.diff(want[0]) if want else None))

    def made(self, mv, accepted):
        if accepted:
            self.lab[mv[0]] = mv[2]
            self.tabu.append((mv[0], mv[2], mv[1]))
        if not self.basic and not self.loose:
            if tuple(self.lab) in self.after:
                self.loose = True
                self.sim.probe('reactive_repetition')
            self.after.append(tuple(self.lab))

    def finish(self, final):
        if len(set(self.lab)) == 1:
            return
        if self.basic:
            if final != self.lab:
                raise Violation('other-labels', 'the moves lead to {}, '
                                'published {}'.format(self.lab, final))
            want, why = self.choice()
            if want and self.visits[tuple(self.lab)] < self.spec.get(
                    'reps', 5):
                raise Violation('stopped-early', '{} was met {} times and {} '
                                'are left ({})'.format(
                                    self.lab, self.visits[tuple(self.lab)],
                                    want, why))
            return
        got = self.value(final)
        if got > self.starts[0] or got > self.value(self.lab):
            raise Violation('not-the-best-seen', 'published {} with {}, seen '
                            '{} and {}'.format(final, got, self.starts[0],
                                               self.value(self.lab)))
        if self.loose:
            return
        if got != min(self.starts + [self.value(self.lab)]):
            raise Violation('not-the-best-seen', 'published {} with {}, seen '
                            '{}'.format(final, got, self.starts))
        if self.asks < self.spec['maxit'] and (
                self.prev is None or self.value(self.lab) < self.prev):
            want, why = self.choice()
            if want:
                raise Violation('stopped-early', 'after {} of {} iterations '
                                'in {} with {} left'.format(
                                    self.asks, self.spec['maxit'], self.lab,
                                    want))


def strategy(sim, box):
    from region.p_regions.azp_util import AllowMoveAZP

    class Judge(AllowMoveAZP):
        def start_new_component(self, initial_labels, attr, objective_func,
                                comp_idx):
            super().start_new_component(initial_labels, attr, objective_func,
                                        comp_idx)
            w = box['world']
            comp = [int(i) for i in comp_idx]
            self.comp = comp
            self.m = Model(sim, box['spec'], box['op']['obj'],
                           [int(x) for x in initial_labels],
                           [w['attr'][i] for i in comp],
                           sub_nb(nbs(w), comp))
            box['models'].append((comp, self.m))

        def __call__(self, moving_area, new_region, labels):
            m = self.m
            lab = [int(x) for x in labels]
            mv = (int(moving_area), lab[int(moving_area)], int(new_region))
            m.ask(mv, lab)
            d = m.diff(mv)
            k = box['strategy']
            ok = d <= 0 or k == 'always' or (
                k == 'coin' and box['coin'].chance(.6))
            if ok and d > 0:
                sim.probe('worsening_move')
            m.made(mv, ok)
            sim.log(mv, ok)
            sim.state((world_key(box['world']), tuple(lab)))
            return ok
    return Judge()


def run(plan, sim):
    env = X.Env(sim)
    e = X.build(env, plan['est'])
    box = {'spec': plan['est']}
    e.allow_move_strategy = strategy(sim, box)
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        box.update(world=w, op=op, models=[], strategy=o['strategy'],
                   coin=core.Prng(o['coin']))
        c = X.prepare(env, plan['est'], op, w)
        try:
            out, fired = call_faulty(sim, env, e, c, o['fault'])
        except Violation as v:
            raise Violation(v.kind, 'fit {} of {}: {}'.format(
                k, plan['est'], v.detail))
        if not out.ok:
            if out.status == 'raise' and not fired:
                sim.probe('crash')                   # decided by C01
            continue
        lab = X.labels(e)
        sim.log(lab)
        if ref.partition_error(lab, w['n'], nbs(w)):
            sim.probe('invalid_partition')           # decided by C01
            continue
        for comp, m in box['models']:
            try:
                m.finish([lab[i] for i in comp])
            except Violation as v:
                raise Violation(v.kind, 'fit {} of {}: {}'.format(
                    k, plan['est'], v.detail))


def shrink(plan):       # noqa
    from . import common
    for i, o in enumerate(plan['ops']):
        if o['strategy'] != 'always':
            q = copy.deepcopy(plan)
            q['ops'][i]['strategy'] = 'always'
            yield q
    yield from common.shrink(plan)
