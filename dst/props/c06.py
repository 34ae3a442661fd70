"""C06: simulated annealing follows the Metropolis rule while cooling."""
import math

from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C06'
RUNS = {'quick': 1600, 'thorough': 20000}
POINTS = True
RULE = ('A run either drives the simulated-annealing move strategy through '
        '10-60 decisions with temperature changes, resets and failing '
        'callbacks in between, or observes every decision made during 1-2 '
        'whole fits of AZPSimulatedAnnealing or of the max-p heuristic using '
        'it. The simulator chooses each draw just below or just above the '
        'acceptance probability (two-sided probe), or adversarially.')
NONTRIVIAL = 'at least 3 worsening moves were decided.'
REAL = 'AllowMoveAZPSimulatedAnnealing, AZPSimulatedAnnealing, AZP, ' \
    'MaxPRegionsHeu, objective_function'
STUB = 'random module (draws chosen by the simulator), clock; metric is the ' \
    'simulator\'s exact manhattan; __call__ of the strategy class is wrapped'
ASSUMPTIONS = ['probes keep a relative distance of 1e-7 from the acceptance '
               'probability', 'finite temperatures; one cooled down to 0 accepts no worsening move']


def gen(p, tier, index):
    w = W.gen_world(p, 4, p.choice([6, 9]),
                    attr=p.choice(['small', 'wide', 'two', 'neg', 'small']))
    direct = p.chance(.5)
    plan = {'worlds': [w], 'rng': p.weighted(RNG), 'num': p.chance(.3),
            'probe': p.choice([0, .5, .9]), 'probe_seed': p.below(10**9)}
    if direct:
        nb = nbs(w)
        k = p.int(max(2, ncomps(w)), w['n'] - 1) if w['n'] - 1 >= max(
            2, ncomps(w)) else w['n']
        plan['init'] = W.gen_partition(p, w['n'], nb, k)
        W.rescale(p, w, .2)
        u = w.get('unit', 1)
        plan['T'] = p.choice([.01, .5, 3.0, 50.0, 1e4]) * u
        plan['q'] = p.choice([1, 2, 3, 7, 10])
        acts = []
        for _ in range(p.int(10, 60)):
            a = p.weighted([('move', 12), ('temp', 1), ('reset', .7),
                            ('start', .3)])
            d = {'a': a, 'pick': p.below(10**6)}
            if a == 'temp':
                d['T'] = p.choice([.01, .3, 2.0, 40.0, 1e3]) * u
                if p.chance(.1):       # cooled for a long time
                    d['T'] = p.choice([0.0, 5e-324, 1e-310])
            if a == 'move' and p.chance(.12):
                d['fault'] = {'at': p.int(1, 4), 'exc': p.choice(CB_FAULTS)}
            acts.append(d)
        plan['acts'] = acts
        return plan
    spec = X.gen_est(p, ('sa',))
    W.rescale(p, w, .2)
    spec['T'] = p.choice([.5, 3.0, 30.0, 500.0]) * w.get('unit', 1)
    plan['est'] = spec
    if p.chance(.2):
        w['sp'], w['thr'] = gen_sp(p, w['n'], nbs(w))
        plan['est'] = {'est': 'maxp', 'local': spec}
    plan['ops'] = []
    for _ in range(p.choice([1, 1, 2])):
        op = X.gen_op(p, w, spec, entries=['sparse', 'dict'])
        op['obj'] = {'kind': 'pair', 'metric': 'sim'}
        if plan.get('num'):
            op['obj']['num'] = True
        if plan['est']['est'] == 'maxp':
            op = {'entry': 'sparse', 'p': None, 'thr': w['thr'],
                  'max_it': p.choice([1, 2, 4]), 'obj': op['obj']}
        plan['ops'].append({'world': 0, 'op': op, 'fault':
                            gen_fault(p) if p.chance(.2) else None})
    return plan


def shrink(plan):       # noqa
    import copy
    from . import common
    if 'acts' in plan:
        for i in range(len(plan['acts'])):
            q = copy.deepcopy(plan)
            del q['acts'][i]
            if q['acts']:
                yield q
    elif plan['est']['est'] != 'maxp':
        yield from common.shrink(plan)


class Watch:
    """What the environment knows about one decision in progress."""

    def __init__(self, sim, plan):
        self.sim = sim
        self.p = core.Prng(plan['probe_seed'])
        self.prob = plan['probe']
        self.u = None             # last draw inside the decision
        self.inside = False
        self.diff = None
        self.aim = None           # acceptance probability to aim at
        sim.draw_hook = self.hook

    def hook(self, gen, n, v):
        if n is not None or not self.inside:
            return None
        if self.aim is not None and self.p.chance(self.prob):
            f = self.p.choice([1 - 1e-7, 1 + 1e-7, 1 - 1e-3, 1 + 1e-3, .5])
            v = min(max(self.aim * f, 0.0), 1 - 2**-53)
            self.sim.probe('two_sided_probe')
        self.u = v
        return v


def clear(u, prob):
    """u is distinguishable from prob."""
    return abs(u - prob) > 3e-8 * prob or prob == 0.0


def accept(diff, T):
    """The probability of a worsening move (no temperature left: 0)."""
    return math.exp(-diff / T) if T > 0 else 0.0


def metropolis(sim, diff, T, u, taken):
    if diff <= 0:
        if not taken:
            raise Violation('improving-move-refused', 'change {}'.format(
                diff))
        return
    prob = accept(diff, T)
    sim.counts['worsening'] = sim.counts.get('worsening', 0) + 1
    if sim.counts['worsening'] >= 3:
        sim.counts['nontrivial'] = 1
    if u is None:
        if taken and prob < 1 - 1e-12 or not taken and prob > 1e-12:
            raise Violation('no-draw', 'worsening move ({} at T={}) decided '
                            'without a random draw'.format(diff, T))
        return
    if taken != (u < prob) and clear(u, prob):
        raise Violation('metropolis', 'change {} at T={}: probability {}, '
                        'draw {}, taken: {}'.format(diff, T, prob, u, taken))


def run(plan, sim):
    if 'acts' in plan:
        run_direct(plan, sim)
    else:
        run_fits(plan, sim)


def run_direct(plan, sim):
    import numpy as np
    from region.p_regions.azp_util import AllowMoveAZPSimulatedAnnealing
    w = plan['worlds'][0]
    env = X.Env(sim)
    watch = Watch(sim, plan)
    obj = {'kind': 'pair', 'metric': 'sim', 'num': plan.get('num')}
    of = X.objective_for(env, obj)
    heard = {'move': 0, 'sa': 0}
    s = AllowMoveAZPSimulatedAnnealing(plan['T'], plan['q'])
    s.register_move_made(lambda: heard.__setitem__('move', heard['move'] + 1))
    s.register_sa_moves_term(lambda: heard.__setitem__('sa',
                                                       heard['sa'] + 1))
    T, count = plan['T'], 0
    lab = list(plan['init'])
    n = w['n']
    attr = np.array(w['attr'], dtype=float)
    labels = np.array(lab)
    s.start_new_component(labels, attr, of, np.arange(n))
    for i, a in enumerate(plan['acts']):
        if a['a'] == 'temp':
            T = a['T']
            s.update_temperature(T)
            continue
        if a['a'] == 'reset':
            s.reset()
            count = 0
            continue
        if a['a'] == 'start':
            s.start_new_component(labels, attr, of, np.arange(n))
            continue
        g = ref.groups(lab)
        cand = [(x, r) for x in range(n) if len(g[lab[x]]) > 1
                for r in sorted(g) if r != lab[x]]
        if not cand:
            return
        area, region = core.Prng(a['pick']).choice(cand)
        l2 = list(lab)
        l2[area] = region
        before = ref.objective(lab, w['attr'], obj)
        diff = ref.objective(l2, w['attr'], obj) - before
        h0 = dict(heard)
        watch.inside, watch.u = True, None
        watch.aim = accept(diff, T) if diff > 0 else None
        f = a.get('fault')
        if f:
            env.arm(f['at'], f['exc'])
        try:
            taken = s(area, region, labels)
        except (Violation, core.HarnessError):
            raise
        except BaseException as ex:          # noqa
            if not f:
                raise Violation('crash', repr(ex))
            if heard != h0:
                raise Violation('failed-move-announced', '{} -> {}'.format(
                    h0, heard))
            continue
        finally:
            env.disarm()
            watch.inside = False
        sim.log(area, region, bool(taken))
        metropolis(sim, diff, T, watch.u, bool(taken))
        if bool(taken):
            if diff > 0:
                count += 1
            if heard['move'] != h0['move'] + 1:
                raise Violation('move-not-announced', 'observers heard {} of '
                                'one move'.format(heard['move'] - h0['move']))
            labels[area] = region
            lab = l2
            if not close(scalar(s.objective_val), before + diff):
                raise Violation('objective-not-tracked', '{} instead of {}'
                                .format(scalar(s.objective_val),
                                        before + diff))
        elif heard['move'] != h0['move']:
            raise Violation('refused-move-announced', 'act {}'.format(i))
        said = heard['sa'] - h0['sa']
        worse = bool(taken) and diff > 0
        if worse and count == plan['q'] and not said:
            raise Violation('limit-not-announced', '{} worsening moves '
                            '(limit {})'.format(count, plan['q']))
        if said and (count < plan['q'] or not worse):
            raise Violation('limit-announced-early', '{} worsening moves '
                            '(limit {}), change {}'.format(count, plan['q'],
                                                           diff))
        sim.state((tuple(lab), T, min(count, plan['q'])))


def run_fits(plan, sim):
    from region.p_regions import azp_util
    cls = azp_util.AllowMoveAZPSimulatedAnnealing
    env = X.Env(sim)
    watch = Watch(sim, plan)
    spec = plan['est']
    sa = spec['local'] if spec['est'] == 'maxp' else spec
    box = {}
    seen = []            # keeps the strategies alive: identity is unique
    orig = cls.__call__

    def upd(area, region, labels, attr, v):
        if watch.inside:
            watch.diff = scalar(v)
            t = getattr(box['st']['s'], 't', None)
            if t is None:
                t = box['st']['T']
            d = watch.diff
            watch.aim = accept(d, t) if d > 0 else None

    def wrapped(self, moving_area, new_region, labels):
        st = next((x for x in seen if x['s'] is self), None)
        if st is None:
            st = {'s': self, 'T': sa['T'], 'k': 0, 'move': 0, 'sa': 0,
                  'count': 0}
            seen.append(st)
            self.register_move_made(
                lambda: st.__setitem__('move', st['move'] + 1))
            self.register_sa_moves_term(
                lambda: st.__setitem__('sa', st['sa'] + 1))
        box['st'] = st
        m0, s0 = st['move'], st['sa']
        watch.inside, watch.u, watch.diff = True, None, None
        try:
            taken = orig(self, moving_area, new_region, labels)
        finally:
            watch.inside = False
        d, u = watch.diff, watch.u
        if d is None:
            raise Violation('not-evaluated', 'a move was decided without '
                            'evaluating it')
        tk = bool(taken)
        sim.log(int(moving_area), int(new_region), tk)
        if d > 0:
            # the temperature is init * cooling**k, k never decreases
            c, T0 = box['cooling'], sa['T']
            t = getattr(self, 't', None)
            k = st['k']
            if t is not None:
                while T0 * c ** k > t * (1 + 1e-9) and k < 10 ** 5:
                    k += 1
                if not close(T0 * c ** k, t, 1e-9, T0):
                    raise Violation('temperature', 'T={} is not {}*{}**k '
                                    'with k >= {}'.format(t, T0, c, st['k']))
            else:
                while k < 10 ** 4 and not tk and u is not None and \
                        u < accept(d, T0 * c ** k):
                    k += 1
                if T0 * c ** k == 0:
                    return taken
            # a cooling step needs at least one sweep (objective evaluation)
            # which precedes the one in progress
            if k > box['evals'] - 1:
                raise Violation('cooled-too-often', 'T={}*{}**{} in sweep {}'
                                .format(T0, c, k, box['evals']))
            if k > st['k']:
                sim.probe('cooled')
            st['k'] = k
            st['T'] = T0 * c ** k
            metropolis(sim, d, st['T'], u, tk)
        else:
            metropolis(sim, d, 1.0, u, tk)
        if (st['move'] - m0 == 1) != tk or st['move'] - m0 > 1:
            raise Violation('move-announcements', 'taken: {}, announced {} '
                            'times'.format(tk, st['move'] - m0))
        worse = tk and d > 0
        if worse:
            st['count'] += 1
        if st['sa'] > s0 and (not worse or st['count'] < sa['q']):
            raise Violation('limit-announced-early', '{} worsening moves '
                            '(limit {}), change {}'.format(st['count'],
                                                           sa['q'], d))
        if worse and st['count'] == sa['q'] and st['sa'] == s0:
            raise Violation('limit-not-announced', '{} worsening moves (limit'
                            ' {})'.format(st['count'], sa['q']))
        if st['sa'] > s0:
            sim.probe('sa_limit_announced')
        return taken

    def evaluated(labels, attr, v):
        box['evals'] = box.get('evals', 0) + 1

    orig_reset = cls.reset

    def reset(self):
        for x in seen:
            if x['s'] is self:
                x['count'] = 0
        return orig_reset(self)

    e = X.build(env, spec)
    cls.__call__ = wrapped
    cls.reset = reset
    try:
        for o in plan['ops']:
            box['cooling'] = o['op'].get('cooling', .85)
            box['evals'] = 0
            c = X.prepare(env, spec, o['op'], plan['worlds'][0],
                          objective=spy_objective(env, evaluated, upd))
            out, fired = call_faulty(sim, env, e, c, o['fault'])
            sim.log(out.status, X.labels(e))
            del seen[:]
    finally:
        cls.__call__ = orig
        cls.reset = orig_reset
