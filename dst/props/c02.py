"""C02: a random start splits every component into the requested regions."""
from .. import core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C02'
RUNS = {'quick': 1600, 'thorough': 20000}
POINTS = True
RULE = ('A run is a history of 1-4 fits without initial labels of one '
        'heuristic on generated maps of 1-12 areas in 1-5 components, with '
        'satisfiable and unsatisfiable region counts, every random draw '
        'decided by the simulator (fair or adversarial); earlier fits may be '
        'stopped by a fault. The start is read from the labels first shown '
        'to the objective per component and from a move strategy that '
        'refuses all moves.')
NONTRIVIAL = ('a random start with at least 2 regions on at least 3 areas '
              'was observed, or an unsatisfiable request was rejected.')
REAL = 'region.p_regions.azp, azp_util, util (generate_initial_sol), ' \
    'objective_function; numpy, scipy'
STUB = 'random module, clock; metric is the simulator\'s exact manhattan'
ASSUMPTIONS = ['symmetric contiguity without self-loops',
               'maps of at most 12 areas']


def gen(p, tier, index):
    spec = X.gen_est(p)
    worlds = [W.gen_world(p, 1, p.choice([5, 8, 12]),
                          comps=p.weighted([(1, 4), (2, 3), (3, 2), (5, 1)]))
              for _ in range(p.choice([1, 1, 2]))]
    if p.chance(.03):
        worlds[0] = W.gen_big_world(p, p.choice([40, 90, 300]), cols=1)
    refuse = spec['est'] == 'azp' and p.chance(.6)
    ops = []
    for _ in range(p.choice([1, 1, 2, 3, 4])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        op = X.gen_op(p, w, spec, init=0)
        op.pop('flat', None)
        o = {'world': wi, 'op': op, 'fault': None, 'unsat': False}
        if p.chance(.3):
            o['unsat'] = True
            nc = ncomps(w)
            bad = [w['n'] + 1, w['n'] + 3, 0, -1] + list(range(1, nc))
            op['p'] = p.choice(bad)
        elif p.chance(.2):
            o['fault'] = gen_fault(p, 10, 600)
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops, 'refuse': refuse,
            'rng': p.weighted(RNG)}


def refusing():
    from region.p_regions.azp_util import AllowMoveStrategy

    class Refuse(AllowMoveStrategy):
        def __call__(self, moving_area, new_region, labels):
            return False
    return Refuse()


def run(plan, sim):
    env = X.Env(sim)
    e = X.build(env, plan['est'],
                strategy=refusing() if plan['refuse'] else None)
    last = None
    for k, o in enumerate(plan['ops']):
        w = tag_world(plan['worlds'][o['world']])
        nb = nbs(w)
        comps = ref.components(w['n'], nb)
        op = o['op']
        starts = {}

        def seen(labels, attr, value):
            ids = tuple(int(a[0]) for a in attr)
            starts.setdefault(ids, [int(x) for x in labels])

        c = X.prepare(env, plan['est'], op, w,
                      objective=spy_objective(env, seen))
        out, fired = call_faulty(sim, env, e, c, o['fault'])
        what = 'fit {} of {} (p={})'.format(k, plan['est']['est'], op['p'])
        if o['unsat']:
            if out.ok:
                raise Violation('unsatisfiable-accepted', '{}: {} areas, {} '
                                'components'.format(what, w['n'], len(comps)))
            if out.status == 'raise' and not isinstance(out.exc, ValueError):
                raise Violation('wrong-rejection', '{} {!r}'.format(what,
                                                                   out))
            if X.labels(e) != last:
                raise Violation('rejected-fit-published', '{}: {} instead of '
                                '{}'.format(what, X.labels(e), last))
            sim.counts['nontrivial'] = 1
            sim.probe('unsatisfiable_rejected')
            continue
        if out.status == 'raise' and not fired:
            raise Violation('crash', '{} {!r}'.format(what, out))
        if out.status == 'budget':
            last = X.labels(e)
        # every component that was reached has a proper start
        used = {}
        for ids, lab in sorted(starts.items()):
            if sorted(ids) not in comps:
                sim.probe('start_of_no_component')
                if len(ids) != w['n']:
                    continue
            err = ref.partition_error(lab, len(ids), sub_nb(nb, ids))
            if err:
                raise Violation('invalid-start', '{}: areas {} labels {}: {}'
                                .format(what, ids, lab, err))
            for r in set(lab):
                if r in used:
                    raise Violation('region-spans-components', '{}: region {}'
                                    ' in {} and {}'.format(what, r, used[r],
                                                           ids))
                used[r] = ids
            sim.state((world_key(w), tuple(lab)))
        sim.log(sorted(starts.items()))
        if out.ok:
            last = X.labels(e)
            full = sorted(a for ids in starts for a in ids) == \
                list(range(w['n']))
            if full and len(used) != op['p']:
                raise Violation('wrong-start-count', '{}: start has {} '
                                'regions: {}'.format(what, len(used),
                                                     sorted(starts.items())))
            if plan['refuse']:
                sim.probe('start_published')
                check_partition(w, last, op['p'], what + ' (start)')
            if w['n'] >= 3 and op['p'] >= 2 and full:
                sim.counts['nontrivial'] = 1
                sim.probe('start_observed')
        else:
            last = X.labels(e)
