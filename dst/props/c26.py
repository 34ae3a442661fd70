"""C26: an estimator can be saved and restored at any point of its history."""
import copy
import pickle

from .. import anyest as A, core, est as X, ref, solver as S, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C26'
RUNS = {'quick': 2400, 'thorough': 30000}
POINTS = True
RULE = ('A run is a history of 3-8 steps of one estimator of any kind (also '
        'AZP with an explicit move strategy): fits on one or two maps, some '
        'stopped by a callback or an interrupt, and saves, taken between '
        'fits or from a callback in the middle of one, by pickle (any '
        'protocol) or deepcopy. After a save the process crashes (only the '
        'saved bytes survive, and two estimators are restored from them) or '
        'lives on next to the restored estimator. The restored one must show '
        'the result published at the time of the save, give the same result '
        'as its twin in every later fit (also if the copy of an estimator '
        'made in the middle of its fit runs a fit there and then), and never be affected by fits of '
        'the other one. Random decisions are the kernel\'s, by position, or '
        'those of the estimators\' own generators, whose state is part of '
        'what is saved.')
NONTRIVIAL = 'a fit of a restored estimator was compared with its twin.'
REAL = 'all estimators of region, the move strategies, region.util, ' \
    'objective_function; pickle, copy, pulp, the cbc binary, numpy, scipy, ' \
    'networkx, libpysal, geopandas, sklearn'
STUB = 'random module, clock, entropy, stdout; metric, center, reduction, ' \
    'affinity callbacks (they can be saved themselves)'
ASSUMPTIONS = ['what is restored runs in the same interpreter: state the '
               'package keeps outside the estimator would survive the crash '
               'here but is compared between the twins all the same',
               'a save in the middle of a fit need not continue that fit: '
               'the restored estimator shows the result published before it']


def gen(p, tier, index):
    kind = p.weighted(A.WEIGHTS)
    spec = A.gen_spec(p, kind)
    strat = None
    if kind == 'azp' and p.chance(.5):
        strat = p.choice(['azp', 'sa', 'thr_azp', 'thr_sa'])
    nw = 1 if strat else p.choice([1, 1, 2])
    worlds = [A.gen_world(p, kind, big=7) for _ in range(nw)]
    ops = []
    for k in range(p.int(3, 8)):
        if p.chance(.4) and (not ops or ops[-1]['do'] != 'save') or (
                k == 2 and all(o['do'] != 'save' for o in ops)):
            o = {'do': 'save', 'how': p.choice([2, 3, 4, 5, 'deepcopy']),
                 'crash': p.chance(.5)}
            ops.append(o)
            continue
        wi = p.below(len(worlds))
        op = A.gen_op(p, kind, worlds[wi], spec)
        o = {'do': 'fit', 'world': wi, 'op': op, 'fault': None}
        r = p.random()
        if r < .2:
            o['fault'] = gen_fault(p, 40, 1500)
        elif r < .3:
            o['save_at'] = round(p.random(), 4)
            o['how'] = p.choice([2, 3, 4, 5, 'deepcopy'])
        elif r < .42:
            o['nest'] = round(p.random(), 4)
            o['how'] = p.choice([2, 5, 'deepcopy', 'deepcopy'])
        elif r < .57:
            o['solo'] = p.choice(['twin', 'main'])
        ops.append(o)
    wi = p.below(len(worlds))
    ops.append({'do': 'fit', 'world': wi, 'fault': None,
                'op': A.gen_op(p, kind, worlds[wi], spec)})
    plan = {'est': spec, 'worlds': worlds, 'ops': ops,
            'clock': 'normal', 'rng': 'faithful' if p.chance(.4) else
            p.weighted(RNG)}
    if strat:
        plan['strat'] = {'kind': strat, 'thr': p.choice([1, 1, 2]),
                         'seed': p.below(1000)}
    return plan


def shrink(plan):       # noqa
    from . import common, c08
    if plan.get('strat'):
        q = copy.deepcopy(plan)
        del q['strat']
        yield q
    for i, o in enumerate(plan['ops']):
        for key in ('solo', 'save_at', 'nest', 'crash'):
            if o.get(key):
                q = copy.deepcopy(plan)
                q['ops'][i].pop(key)
                yield q
    if plan.get('strat'):
        yield from common.shrink_ops(plan)
        return
    if all('op' in o for o in plan['ops']):
        if plan['est']['est'] in ('maxp', 'mpexact'):
            yield from c08.shrink_maxp(plan)
        else:
            yield from common.shrink(plan)


def build(env, plan):
    import random
    import numpy as np
    st = plan.get('strat')
    if not st:
        return X.build(env, plan['est'])
    from region.p_regions.azp_util import AllowMoveAZP, \
        AllowMoveAZPMaxPRegions, AllowMoveAZPSimulatedAnnealing
    s = AllowMoveAZP() if st['kind'].endswith('azp') else \
        AllowMoveAZPSimulatedAnnealing(20., 3, rng=random.Random(st['seed']))
    if st['kind'].startswith('thr'):
        s = AllowMoveAZPMaxPRegions(np.ones((plan['worlds'][0]['n'], 1)),
                                    st['thr'], s)
    return X.build(env, plan['est'], strategy=s)


def save(e, how, what):
    try:
        if how == 'deepcopy':
            return copy.deepcopy(e)
        return pickle.dumps(e, protocol=how)
    except Exception as x:
        raise Violation('cannot-save', '{} ({}): {}: {}'.format(
            what, how, type(x).__name__, str(x)[:200]))


def restore(blob, how, what):
    try:
        if how == 'deepcopy':
            return copy.deepcopy(blob)
        return pickle.loads(blob)
    except Exception as x:
        raise Violation('cannot-restore', '{} ({}): {}: {}'.format(
            what, how, type(x).__name__, str(x)[:200]))


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    kind = plan['est']['est']
    lab_attr = A.LABELS[kind]
    budget = 400_000
    e = build(env, plan)
    r = None
    faithful = sim.rng_mode == 'faithful'

    def snap(x):
        return [y for y in A.snapshot(x, kind) if y[0] != 'metric']

    def fit(est, o, watch=None):
        w, op = plan['worlds'][o['world']], o['op']
        c = A.prepare(env, plan['est'], op, w)
        sv.set(None)
        if watch:
            env.watchers.append(watch)
        try:
            out, _ = call_faulty(sim, env, est, c, o['fault'], budget)
        finally:
            del env.watchers[:]
        S.clean()
        return out, op.get('trace')

    def nested(o, what):
        """A copy made in the middle of a fit is used there and then."""
        mark = A.RngMark(sim)
        gs = core.GLOBAL_RANDOM.getstate()
        m = restore(save(e, o['how'], what + ', mid-fit'), o['how'],
                    what + ', mid-fit')
        c = A.prepare(env, plan['est'], o['op'], plan['worlds'][o['world']])
        try:
            getattr(m, c.name)(*c.args, **c.kw)
        except (Violation, core.HarnessError, core.StepBudgetExceeded):
            raise
        except Exception:
            sim.probe('nested_fit_raised')
        sim.probe('nested_fit')
        mark.back(sim)
        core.GLOBAL_RANDOM.setstate(gs)

    for k, o in enumerate(plan['ops']):
        what = 'step {} ({})'.format(k, kind)
        if o['do'] == 'save':
            before = snap(e)
            blob = save(e, o['how'], what)
            if snap(e) != before:
                raise Violation('changed-by-save', '{}: {} was {}'.format(
                    what, snap(e), before))
            if o.get('crash'):
                e = restore(blob, o['how'], what)
                sim.fault('crash_and_restore')
            r = restore(blob, o['how'], what)
            for x in (e, r):
                if snap(x) != before:
                    raise Violation('result-lost', '{}: {} was {}'.format(
                        what, snap(x), before))
            sim.probe('saved_' + str(o['how']))
            sim.log('save', str(before[0]))
            continue
        if o.get('solo') and r is not None:
            # one of the two runs a fit which the other does not see
            a, b = (r, e) if o['solo'] == 'twin' else (e, r)
            before = snap(b)
            blob = save(b, 5, what)
            mark = A.RngMark(sim)
            fit(a, o)
            mark.back(sim)
            if snap(b) != before:
                raise Violation('not-independent', '{}: a fit of the {} '
                                'changed the result of the other one from {} '
                                'to {}'.format(what, o['solo'], before,
                                               snap(b)))
            e, r = b, restore(blob, 5, what)
            sim.probe('solo_fit')
            continue
        mid = {}
        watch = None
        if o.get('save_at') is not None:
            before = snap(e)
            at = 1 + int(60 ** o['save_at'])
            seen = [0]

            def watch(_):
                seen[0] += 1
                if seen[0] == at:
                    mid['blob'] = save(e, o['how'], what + ', mid-fit')
        elif o.get('nest') is not None and r is not None:
            at = 1 + int(60 ** o['nest'])
            seen = [0]

            def watch(_):
                seen[0] += 1
                if seen[0] == at:
                    nested(o, what)
        mark = A.RngMark(sim)
        gs = core.GLOBAL_RANDOM.getstate()
        out, tr = fit(e, o, watch)
        if r is not None:
            mark.back(sim)
            core.GLOBAL_RANDOM.setstate(gs)
            out2, _ = fit(r, o)
            compare(what, kind, out, out2, e, r, snap, tr, budget)
            if out.ok:
                sim.counts['nontrivial'] = 1
                sim.probe('compared_' + kind)
        if mid:
            m = restore(mid['blob'], o['how'], what + ', mid-fit')
            sim.fault('crash_and_restore_mid_fit')
            if snap(m) != before and snap(m) != snap(e):
                raise Violation('result-lost', '{}: saved in the middle of a '
                                'fit: {} was {}'.format(what, snap(m),
                                                        before))
            if not faithful and not plan.get('strat'):
                # it can be used like any other
                mark.back(sim)
                core.GLOBAL_RANDOM.setstate(gs)
                out3, _ = fit(m, o)
                compare(what + ', restored from the middle of it', kind, out,
                        out3, e, m, snap, tr, budget)
                if out.ok:
                    sim.counts['nontrivial'] = 1
                    sim.probe('refitted_after_mid_fit_save')
        sim.log(out.status, str(X.labels(e, lab_attr)))
        sim.state((world_key(plan['worlds'][o['world']]),
                   str(X.labels(e, lab_attr)), k))


def compare(what, kind, out, out2, a, b, snap, tr, budget):
    if 'budget' in (out.status, out2.status):
        return
    if out.status != out2.status or type(out.exc) is not type(out2.exc):
        raise Violation('outcome-differs', '{}: {!r}, restored {!r}'.format(
            what, out, out2))
    if not out.ok:
        return
    for x, y in zip(snap(a), snap(b)):
        if x != y and not (x[0] == '_trace' and not tr):
            raise Violation('result-differs', '{}: {} is {}, restored {}'
                            .format(what, x[0], x[1], y[1]))
