"""Histories of fits of any estimator of the package (C12-C17)."""
import numpy as np

from . import core, est as X, ref, solver as S, world as W
from .core import Violation

HEUR = ('azp', 'sa', 'btabu', 'rtabu')
EXACT = ('pexact', 'mpexact')
ALL = HEUR + ('maxp',) + EXACT + ('skater',)
WEIGHTS = [('azp', 2), ('sa', 2), ('btabu', 2), ('rtabu', 2), ('maxp', 3),
           ('pexact', 2), ('mpexact', 2), ('skater', 3)]


def has_threshold(kind):
    return kind in ('maxp', 'mpexact')


def gen_spec(p, kind, seed=True):
    from .props import c08
    if kind in HEUR:
        return X.gen_est(p, (kind,), seed=seed)
    if kind == 'maxp':
        s = c08.gen_maxp_est(p)
        if not seed:
            s.pop('seed', None)
            if s['local']:
                s['local'].pop('seed', None)
        return s
    if kind == 'skater':
        return {'est': 'skater',
                'center': p.choice(['mean', 'median', 'min']),
                'reduction': p.weighted([('sum', 5), ('max', 1),
                                         ('mean', 1)]),
                'metric': p.weighted([('sim', 4), ('sim_sq', 1),
                                       ('affinity', 1)])}
    return {'est': kind}


def gen_world(p, kind, tier='quick', big=9):
    from .props import c08, c10, c11
    if kind in HEUR:
        if p.chance(.08):
            return W.gen_grid_world(p, 3, 3)
        if big > 7 and p.chance(.01):
            return W.gen_big_world(p, 20)
        return W.gen_world(p, 2, p.choice([5, big]))
    if kind == 'maxp':
        return c08.gen_maxp_world(p, big)
    if kind == 'pexact':
        return c10.gen_world(p, 'quick')
    if kind == 'mpexact':
        return c11.gen_world(p, 'quick')
    return gen_skater_world(p, big)


def gen_skater_world(p, big=9):
    if big > 7 and p.chance(.01):
        return W.gen_big_world(p, 20)
    w = W.gen_world(p, 1 if p.chance(.03) else 2, p.choice([5, big]),
                    comps=p.weighted([(1, 6), (2, 2), (3, 1)]))
    return w


def gen_skater_op(p, w):
    n = w['n']
    op = {'p': p.weighted([(p.int(1, n), 6), (n, 1), (2, 2), ('inf', .5),
                           (0, .2)])}
    if p.chance(.5):
        op['quorum'] = p.choice([1, 2, 2, 3, max(1, n // 3)])
    if p.chance(.4):
        op['islands'] = p.choice(['ignore', 'increase'])
    if p.chance(.6):
        op['trace'] = True
    if p.chance(.1):
        op['nodata'] = True
    if p.chance(.2):
        op['verbose'] = p.choice([1, 2, 3])
    if p.chance(.3):
        op['transform'] = p.choice(['R', 'B', 'V', 'D', 'O'])
    if p.chance(.2):
        op['wids'] = p.below(1000)
    return op


def gen_op(p, kind, w, spec, entries=None, init=.35):
    from .props import c08, c10, c11
    if kind in HEUR:
        return X.gen_op(p, w, spec, entries=entries, init=init)
    if kind == 'maxp':
        return c08.gen_maxp(p, w, spec, entries=entries)
    if kind in EXACT:
        op = (c10 if kind == 'pexact' else c11).gen_op(p, w)
        if entries:
            op['entry'] = p.choice(entries)
            op.pop('alias', None)
        return op
    return gen_skater_op(p, w)


def make_bad(p, kind, w, op):
    """Turn a request into one which should be rejected; in place."""
    opts = []
    if kind in HEUR or kind == 'pexact':
        opts += ['p_high', 'p_low']
    if kind in HEUR:
        opts += ['init_disconnected', 'init_count']
        if op['entry'] in ('sparse', 'w', 'gdf'):
            opts += ['init_short']
        if kind == 'sa':
            opts += ['cooling']
    if has_threshold(kind):
        opts += ['thr']
    if kind in EXACT:
        opts += ['metric', 'solver']
    if kind == 'pexact':
        opts += ['method']
    if kind == 'skater':
        opts += ['quorum', 'rows']
    elif op['entry'] in ('dict', 'nx'):
        opts += ['missing_key']
    elif op['entry'] == 'sparse':
        opts += ['rows']
    b = p.choice(opts)
    nb = ref.adj_list(w['n'], w['edges'])
    n = w['n']
    if b == 'p_high':
        op['p'] = n + p.choice([1, 3])
        op['init'] = None
    elif b == 'p_low':
        nc = len(ref.components(n, nb))
        op['p'] = p.below(nc) if nc > 1 else 0
        op['init'] = None
    elif b == 'init_count':
        k = p.int(len(ref.components(n, nb)), n)
        op['init'] = W.gen_partition(p, n, nb, k)
        op['p'] = k + p.choice([-1, 1])
    elif b == 'init_short':
        op['init'] = [0] * (n - 1)
    elif b == 'init_disconnected':
        lab = [p.below(2) for _ in range(n)]
        op['init'] = lab
        op['p'] = len(set(lab))
        if not ref.partition_error(lab, n, nb, op['p']):
            op['p'] += 1
    elif b == 'cooling':
        op['cooling'] = p.choice([0, 1, 1.5, -.5])
    elif b == 'thr':
        c = p.below(len(op['thr']))
        op['thr'][c] = sum(r[c] for r in w['sp']) + \
            w.get('spunit', 1) * (1 + p.below(3))
    elif b == 'metric':
        op['metric'] = 'no-such-metric'
    elif b == 'solver':
        op['solver'] = p.choice(['no-such-solver', 'glpk'])
    elif b == 'method':
        op['method'] = 'no-such-method'
    elif b == 'quorum':
        op['quorum'] = n + 1
        op['p'] = max(2, op['p']) if op['p'] != 'inf' else 2
    op['bad'] = b


def prepare(env, spec, op, w, objective=None, shuffle=None):
    c = X.prepare(env, spec, op, w, objective=objective, shuffle=shuffle)
    b = op.get('bad')
    if b == 'missing_key':
        last = None
        for x in c.args:
            if isinstance(x, dict) and x:
                last = x
        if last is not None:
            last.pop(next(iter(last)))
        else:
            g = c.args[0]
            g.nodes[next(iter(g))].clear()
    elif b == 'rows':
        i = 1 if spec['est'] != 'skater' else 2
        if isinstance(c.args[i], np.ndarray):
            c.args[i] = c.args[i][:-1]
    if spec['est'] == 'skater' and op.get('transform') and w['edges']:
        c.args[1].transform = op['transform']
    return c


RESULT = {'azp': ('labels_', 'n_regions'), 'sa': ('labels_',),
          'btabu': ('labels_', 'n_regions'),
          'rtabu': ('labels_', 'n_regions'),
          'maxp': ('labels_',),
          'pexact': ('labels_', 'n_regions', 'method', 'metric', 'solver'),
          'mpexact': ('labels_',),
          'skater': ('current_labels_', 'minimum_spanning_forest_',
                     '_trace')}
LABELS = {k: 'current_labels_' if k == 'skater' else 'labels_' for k in ALL}


def frz(v):
    import scipy.sparse as sp
    if sp.issparse(v):
        return ('sparse', v.shape, tuple(map(tuple, v.toarray().tolist())))
    if callable(v):
        return ('callable', id(v))
    if isinstance(v, (list, tuple)):
        return tuple(frz(x) for x in v)
    if isinstance(v, np.ndarray):
        return ('array', tuple(repr(float(x)) for x in v.ravel()))
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    if isinstance(v, (int, np.integer)):
        return int(v)
    return repr(v)


def snapshot(e, kind):
    return tuple((a, frz(getattr(e, a, None))) for a in RESULT[kind])


class RngMark:
    """Remember and restore the position in the random decisions."""

    def __init__(self, sim):
        self.s = (sim.rng_prng.getstate(), sim.rng_pos, len(sim.rng_log),
                  sim.entropy.getstate(), sim.clock_prng.getstate(), sim.now)

    def back(self, sim):
        a, pos, k, b, c, now = self.s
        sim.rng_prng.setstate(a)
        sim.rng_pos = pos
        del sim.rng_log[k:]
        sim.entropy.setstate(b)
        sim.clock_prng.setstate(c)
        sim.now = now
