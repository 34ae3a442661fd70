"""C15: a seeded fit depends on its own seed only, global randomness is kept."""
import copy
import random

import numpy as np

from .. import anyest as A, core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C15'
RUNS = {'quick': 2000, 'thorough': 24000}
RULE = ('A run executes one seeded script (build a heuristic with '
        'random_state, 1-3 fits through any entry point, some failing in a '
        'callback) twice to three times: once in a quiet process and again '
        'with other process-wide random state (random and numpy), other '
        'entropy, other clock behaviour, other string hashes, and with other '
        'estimators and generators created, seeded, drawn from and fitted '
        'before, between and, from inside callbacks, during its fits. All '
        'published results must agree; in the quiet process the state of the '
        'process-wide streams must be the same after each step as before.')
NONTRIVIAL = ('the script drew random numbers and other activity happened '
              'around it.')
REAL = 'region.p_regions.azp, azp_util, max_p_regions.heuristics, util, ' \
    'objective_function; the Mersenne Twister of the random module'
STUB = 'entropy for unseeded generators, clock, stdout, string hashes of ' \
    'area names'
ASSUMPTIONS = ['estimators that take random_state (AZP, simulated annealing, '
               'tabu variants, max-p heuristic); a seeded max-p heuristic '
               'covers an unseeded local search it was given']


def gen_seed(p):
    return p.weighted([(0, 1.5), (p.below(5), 1), (p.below(2**31), 2),
                       ('', .3), ('seed', 1), (str(p.below(100)), .5),
                       (['bytes', str(p.below(100))], .3),
                       (['bytearray', str(p.below(100))], .3)])


def gen(p, tier, index):
    kind = p.weighted([('azp', 2), ('sa', 3), ('btabu', 2), ('rtabu', 2),
                       ('maxp', 5)])
    spec = A.gen_spec(p, kind)
    spec['seed'] = gen_seed(p)
    if spec.get('local'):
        spec['local'].pop('seed', None)
        if p.chance(.6):
            spec['local']['seed'] = gen_seed(p)
    worlds = [A.gen_world(p, kind, big=7) for _ in range(p.choice([1, 2]))]
    for w in worlds:
        w['ids'] = p.choice(['str', 'str', 'int', 'sparse_int'])
    ops = []
    for k in range(p.choice([1, 1, 2, 3])):
        wi = p.below(len(worlds))
        op = A.gen_op(p, kind, worlds[wi], spec, init=.2)
        if p.chance(.3) and op['entry'] in ('sparse', 'w'):
            op['entry'] = 'dict'
            op.pop('alias', None)
            op.pop('init_dtype', None)
        o = {'world': wi, 'op': op, 'fault': None}
        if p.chance(.12):
            o['fault'] = {'kind': 'cb', 'at': p.int(1, 30), 'exc': 'raise'}
        elif p.chance(.08):
            A.make_bad(p, kind, worlds[wi], op)
            o['unsat'] = True
        ops.append(o)
    if p.chance(.5) and ops:     # something random enough
        ops[0]['op']['init'] = None
    envs = []
    for _ in range(p.choice([1, 1, 2])):
        envs.append({
            'gseed': p.below(10**6), 'npseed': p.below(10**6),
            'entropy': p.below(10**6), 'salt': p.below(10**6),
            'clock': p.choice(['normal', 'jumps', 'frozen']),
            'between': [[meddle(p) for _ in range(p.below(3))]
                        for _ in range(len(ops) + 1)],
            'inside': [meddle(p) for _ in range(p.below(4))],
            'every': p.choice([1, 2, 5, 17])})
    return {'est': spec, 'worlds': worlds, 'ops': ops, 'envs': envs,
            'rng': 'faithful'}


def meddle(p):
    k = p.choice(['draw', 'seed', 'reseed', 'npseed', 'build', 'fit',
                  'buildsame', 'time', 'twin', 'twin'])
    return [k, p.below(1000), p.choice(A.HEUR)]


def shrink(plan):       # noqa
    from . import common, c08
    for i, en in enumerate(plan['envs']):
        if len(plan['envs']) > 1:
            q = copy.deepcopy(plan)
            del q['envs'][i]
            yield q
        for key in ('inside',):
            for j in range(len(en[key])):
                q = copy.deepcopy(plan)
                del q['envs'][i][key][j]
                yield q
        for b in range(len(en['between'])):
            for j in range(len(en['between'][b])):
                q = copy.deepcopy(plan)
                del q['envs'][i]['between'][b][j]
                yield q
        for key in ('gseed', 'npseed', 'entropy', 'salt'):
            if en[key] is not None:
                q = copy.deepcopy(plan)
                q['envs'][i][key] = None
                yield q
    if plan['est']['est'] == 'maxp':
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


TINY = {'n': 4, 'edges': [[0, 1], [1, 2], [2, 3], [0, 3]],
        'attr': [[1], [5], [2], [8]]}


def twin(env, plan, s):
    """
    Fit another estimator of the same kind on the same map with the same
    request, but with other attributes.
    """
    spec = dict(plan['est'])
    if s % 2:
        spec['seed'] = s
    o = plan['ops'][s % len(plan['ops'])]
    op = o['op']
    if spec['est'] in A.HEUR and s % 5 < 2:
        spec = {'est': 'azp', 'seed': s}
        op = {k: v for k, v in op.items() if k not in ('cooling', 'bad')}
    w = plan['worlds'][o['world']]
    rows = w['attr']
    rows = [[[0] * len(r) for r in rows], rows[::-1],
            [[7 * x for x in r] for r in rows]][s % 3]
    c = A.prepare(env, spec, op, dict(w, attr=rows))
    try:
        getattr(X.build(env, spec), c.name)(*c.args, **c.kw)
    except Violation:
        raise
    except Exception:
        pass                    # invalid and unsatisfiable requests


def activity(env, plan, m, box):
    """Something else the process does with randomness."""
    spec = plan['est']
    kind, s, other = m
    if kind == 'twin':
        box[0] += 1
        if box[0] > 6:
            kind = 'draw'
    if kind == 'draw':
        random.random()
        random.choice([1, 2, 3])
        np.random.rand()
    elif kind == 'seed':
        random.seed(s)
    elif kind == 'reseed':
        random.seed()
    elif kind == 'npseed':
        np.random.seed(s)
    elif kind == 'time':
        import time
        time.sleep(s)
    elif kind == 'twin':
        twin(env, plan, s)
    elif kind == 'buildsame':
        X.build(env, spec)
    else:
        o = {'est': other, 'T': 2.0, 'maxit': 1, 'q': 1, 'nonmoving': 1,
             'reps': 1, 'len': 2, 'k1': 1, 'k2': 1}
        if other == 'rtabu':
            o['maxit'] = 3
        if s % 2:
            o['seed'] = s
        e = X.build(env, o)
        if kind == 'fit':
            op = {'entry': 'sparse', 'p': 2, 'obj': None}
            c = X.prepare(env, o, op, TINY)
            getattr(e, c.name)(*c.args, **c.kw)


def gstate():
    return (random.getstate(), str(np.random.get_state()))


def script(plan, sim, env, en):
    """Build and fit; returns the list of results."""
    spec = plan['est']
    out = []
    busy = [False]
    box = [0]

    def inside(kind):
        if en and en['inside'] and not busy[0] and \
                env.n % en['every'] == 0:
            busy[0] = True
            fail, env.fail_at = env.fail_at, None
            n = env.n
            try:
                activity(env, plan, en['inside'][(env.n // en['every']) %
                                                 len(en['inside'])], box)
                sim.probe('activity_during_fit')
            finally:
                busy[0] = False
                env.fail_at = fail
                env.n = n

    def between(i):
        for m in (en['between'][i] if en and i < len(en['between']) else []):
            busy[0] = True
            activity(env, plan, m, box)
            busy[0] = False

    env.watchers[:] = [inside]
    # elsewhere, all fits share one objective object
    env.shared = {} if en else None
    if en:
        if en['gseed'] is not None:
            random.seed(en['gseed'])
        if en['npseed'] is not None:
            np.random.seed(en['npseed'])
        if en['entropy'] is not None:
            sim.entropy = core.Prng(en['entropy'])
        sim.clock = en['clock']
        if en['salt'] is not None:
            spec = dict(spec, salt=en['salt'])
        between(0)
    before = gstate()
    e = X.build(env, spec)
    if not en and gstate() != before:
        raise Violation('global-stream-changed', 'building {}'.format(spec))
    for k, o in enumerate(plan['ops']):
        if k:
            between(k)
        w = plan['worlds'][o['world']]
        if en and en['salt'] is not None:
            w = dict(w, salt=en['salt'])
        c = A.prepare(env, spec, o['op'], w)
        before = gstate()
        r, fired = call_faulty(sim, env, e, c, o['fault'], 500_000)
        if not en and gstate() != before:
            raise Violation('global-stream-changed', 'fit {} of {} ({!r})'
                            .format(k, spec, r))
        if r.status == 'budget':
            return None
        out.append((r.status, type(r.exc).__name__, A.snapshot(
            e, spec['est'])))
    return out


def run(plan, sim):
    env = X.Env(sim)
    first = script(plan, sim, env, None)
    d0 = sim.draws
    if first is None:
        return
    for r in first:
        sim.log(str(r))
        sim.state(str(r))
    for i, en in enumerate(plan['envs']):
        other = script(plan, sim, env, en)
        if other is None:
            continue
        if other != first:
            k = [a == b for a, b in zip(first, other)].index(False)
            raise Violation('result-depends', 'fit {} of {}: {} in a quiet '
                            'process, {} with other activity'.format(
                                k, plan['est'], first[k], other[k]))
        if d0 and (en['inside'] or any(en['between']) or
                   en['gseed'] is not None):
            sim.counts['nontrivial'] = 1
        sim.probe('environments_compared')
