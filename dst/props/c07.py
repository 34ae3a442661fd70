"""C07: every heuristic terminates within a bounded number of steps."""
import math

from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C07'
RUNS = {'quick': 1500, 'thorough': 15000}
POINTS = True
RULE = ('A run is a history of 1-4 fits of one heuristic on small maps (2-7 '
        'areas; 2-5 for simulated annealing) rich in ties and identical '
        'attributes, with short tabu lists and adversarial random decisions; '
        'fits stopped by a fault are repeated. A fit must end within a step '
        'budget derived from the number of states it may visit: '
        'passes * moves for AZP (each pass must lower an integer objective), '
        'repetitions * states for tabu and annealing, iterations for '
        'reactive tabu and max-p.')
NONTRIVIAL = 'at least one fit with 2 or more regions on 3 or more areas ' \
    'ended.'
REAL = 'all heuristics, objective_function, util, csgraph_utils; numpy, scipy'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan'
ASSUMPTIONS = ['a step is one executed line of library code or one callback',
               'integer-valued objectives', 'finite max_iterations for '
               'simulated annealing', 'maps of at most 7 areas']


def gen(p, tier, index):
    kind = p.weighted([('azp', 2), ('sa', 2), ('btabu', 3), ('rtabu', 2),
                       ('maxp', 2)])
    maxp = kind == 'maxp'
    loc = None
    if maxp:
        loc = p.choice([None, 'azp', 'sa', 'btabu', 'rtabu'])
        spec = {'est': 'maxp', 'local': X.gen_est(p, (loc,)) if loc else None}
    else:
        spec = X.gen_est(p, (kind,))
    sa = 'sa' in (kind, loc)
    worlds = []
    for _ in range(p.choice([1, 1, 2])):
        w = W.gen_world(p, 2, 5 if sa else 7, attr=p.weighted(
            [('const', 3), ('two', 3), ('small', 3), ('neg', 1)]))
        if maxp:
            w['sp'], w['thr'] = gen_sp(p, w['n'], nbs(w))
        worlds.append(w)
    ops = []
    for _ in range(p.choice([1, 1, 2, 3, 4])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        if maxp:
            op = {'entry': p.choice(['sparse', 'dict', 'w']), 'p': None,
                  'thr': w['thr'], 'max_it': p.choice([1, 2, 5])}
            if p.chance(.1):
                op['thr'] = [t + 1000 for t in op['thr']]
        else:
            op = X.gen_op(p, w, spec, entries=['sparse', 'dict', 'nx'])
        op['obj'] = {'kind': 'pair', 'metric': 'sim'}
        o = {'world': wi, 'op': op, 'fault': None, 'repeat': False}
        if p.chance(.3):
            o['fault'] = gen_fault(p)
            o['repeat'] = True
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG)}


def shrink(plan):       # noqa
    from . import common
    if plan['est']['est'] == 'maxp':
        return
    yield from common.shrink(plan)


def n_states(n, nb, k):
    """Labelled partitions into k connected regions (upper bound)."""
    c = sum(1 for _ in ref.all_partitions(n, nb, k))
    return max(1, c) * math.factorial(k)


def fit_bound(spec, w, k):
    """Steps a fit of a p-regions heuristic with k regions may take."""
    n = w['n']
    nb = nbs(w)
    sweep = 60 * (n + 2) * (n + 2) * (k + 2)     # one look at all moves
    span = 2 + ref.pairwise([0] * n, w['attr'])  # integer objective values
    one_pass = (k * n + 1) * sweep
    kind = spec['est']
    if kind == 'azp':
        return 20000 + min(span, n_states(n, nb, k) + 1) * one_pass
    if kind == 'btabu':
        return 20000 + (spec['reps'] + 1) * n_states(n, nb, k) * sweep
    if kind == 'rtabu':
        # tabu list and random walk lengths grow with the iteration count
        return 20000 + spec['maxit'] * (spec['maxit'] + 2) * sweep
    runs = (spec['reps'] + 1) * n_states(n, nb, k) * (spec['maxit'] + 1)
    return 20000 + runs * 4 * one_pass


# More than this is never needed on such small maps: ten to a hundred times
# the most steps any of the first 8600 fits took (sa: 105 000, btabu: 17 000,
# azp: 2 500, rtabu: 1 700, max-p: 11 000, with sa: 28 000).
CAP = {'azp': 150_000, 'rtabu': 150_000, 'btabu': 300_000, 'sa': 1_000_000}


def run(plan, sim):
    env = X.Env(sim)
    spec = plan['est']
    e = X.build(env, spec)
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        n = w['n']
        if spec['est'] == 'maxp':
            loc = spec['local'] or {'est': 'azp'}
            b = max(fit_bound(loc, w, q) for q in range(1, n + 1))
            bound = (b + 3000 * n * n) * (op['max_it'] + 1)
        else:
            bound = fit_bound(spec, w, op['p'])
        cap = CAP[spec['est']] if spec['est'] != 'maxp' else \
            2 * CAP[loc['est']]
        if bound > cap:
            bound = cap
            sim.probe('bound_capped')
        for again in ([0, 1] if o['repeat'] else [0]):
            c = X.prepare(env, spec, op, w)
            out, fired = call_faulty(sim, env, e, c,
                                     None if again else o['fault'], bound)
            sim.log(out.status, X.labels(e))
            what = 'fit {}{} of {}'.format(k, ' (repeated after a fault)' if
                                           again else '', spec['est'])
            if out.status == 'budget':
                raise Violation('no-termination', '{}: more than {} steps'
                                .format(what, bound))
            if out.ok:
                f = out.ticks / bound
                sim.probe('used_%s' % ('under_1pct' if f < .01 else
                                       'under_10pct' if f < .1 else
                                       'under_50pct' if f < .5 else
                                       'over_50pct'))
                if n >= 3 and len(set(X.labels(e) or [])) >= 2:
                    sim.counts['nontrivial'] = 1
                sim.state((world_key(w), str(X.labels(e))))
            if again and out.ok:
                sim.probe('completed_after_fault')
            if out.status == 'raise' and not fired:
                sim.probe('raised')
                if again and spec['est'] != 'maxp':
                    raise Violation('does-not-complete', '{} {!r}'.format(
                        what, out))
