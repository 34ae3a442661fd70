"""
Driving the real estimators: building them, delivering inputs, calling fit
through every entry point, and the callback environment where faults land.
"""
import copy
import os
import sys

import numpy as np

from . import core, ref, world as W
from .core import InjectedFault, StepBudgetExceeded, Violation


# --------------------------------------------------------------------------
# callback environment
# --------------------------------------------------------------------------
CURRENT = None


def _current():
    return CURRENT


class Env:
    """Everything the library calls back into during one run."""

    def __init__(self, sim):
        self.sim = sim
        self.n = 0
        self.fail_at = None       # callback number at which to fail
        self.fail_kind = None     # 'raise', 'zerodiv', 'memory', 'kbd', 'nan'
        self.fired = False
        self.exc = None           # the exception last raised
        self.watchers = []
        self.busy = False
        self.shared = None        # dict: fits share objective objects
        self.sites = None         # a list: where the callbacks come from
        global CURRENT
        CURRENT = self

    def __reduce__(self):         # one environment per run, never copied
        return (_current, ())

    def arm(self, at, kind):
        self.n = 0
        self.fail_at = at
        self.fail_kind = kind
        self.fired = False
        self.exc = None

    def disarm(self):
        self.fail_at = None
        self.sites = None

    def cb(self, kind):
        """Called at the start of each callback; True means answer NaN."""
        sim = self.sim
        sim.ticks += 1
        self.n += 1
        if self.sites is not None:
            self.sites.append(stack())
        if sim.sched is not None:
            sim.yield_point()
        for w in self.watchers:
            w(kind)
        if self.fail_at is not None and self.n >= self.fail_at and (
                not self.fired):
            self.fired = True
            k = self.fail_kind
            sim.fault('callback_' + k)
            if k == 'nan':
                return True
            self.exc = EXCEPTIONS[k]('simulated, in ' + kind)
            raise self.exc
        return False


PACKAGE = os.path.join(core.REPO, 'region') + os.sep


def stack(depth=4):
    """The innermost package frames: the place a callback is called from."""
    out = []
    f = sys._getframe(2)
    while f is not None and len(out) < depth:
        c = f.f_code
        if c.co_filename.startswith(PACKAGE):
            out.append((c.co_qualname, f.f_lineno))
        f = f.f_back
    return tuple(out)


def gen_point(p, f):
    """Where in a rehearsed fit the fault lands."""
    k = p.weighted([('end', 3), ('frac', 3), ('site', 4)])
    if k == 'end':
        f['end'] = p.choice([0, 0, 1, 2, 3, 5, 8, 13, 30])
    else:
        f['frac'] = round(p.random(), 4)
    if k == 'site':
        f['occ'] = p.choice([0, .9999, round(p.random(), 4)])
    return f


def pick_point(f, total, sites):
    """
    Number of the callback or point at which to fail: counted from the end,
    as a fraction of all, or first one of the distinct places in the code and
    then one of the visits to it.
    """
    if 'end' in f:
        at = total - f['end']
    elif 'occ' in f and sites:
        where = {}
        for i, s in enumerate(sites):
            where.setdefault(s, []).append(i + 1)
        keys = list(where)
        visits = where[keys[min(int(f['frac'] * len(keys)), len(keys) - 1)]]
        at = visits[min(int(f['occ'] * len(visits)), len(visits) - 1)]
    else:
        at = 1 + int(f['frac'] * total)
    return max(1, min(at, total))


EXCEPTIONS = {
    'raise': InjectedFault, 'zerodiv': ZeroDivisionError,
    'memory': MemoryError, 'kbd': KeyboardInterrupt, 'key': KeyError,
    'index': IndexError, 'lookup': LookupError, 'attribute': AttributeError,
    'value': ValueError, 'type': TypeError, 'os': OSError,
    'runtime': RuntimeError, 'assertion': AssertionError,
    'import': ImportError, 'floating': FloatingPointError,
    'linalg': np.linalg.LinAlgError, 'notimpl': NotImplementedError,
    'recursion': RecursionError, 'exit': SystemExit, 'warning': UserWarning,
    'timeout': TimeoutError, 'unicode': lambda m: UnicodeDecodeError(
        'utf-8', b'', 0, 1, m)}


class SimMetric:
    """Manhattan distance, exact on integers, with the fault seam inside."""

    def __init__(self, env, kind='manhattan'):
        self.env = env
        self.kind = kind

    def __call__(self, X, Y=None):
        nan = self.env.cb('metric')
        X = np.asarray(X, dtype=float)
        Y = X if Y is None else np.asarray(Y, dtype=float)
        d = np.abs(X[:, None, :] - Y[None, :, :])
        if self.kind == 'euclidean':
            r = np.sqrt((d * d).sum(-1))
        elif self.kind == 'sq':
            r = (d * d).sum(-1)
        else:
            r = d.sum(-1)
        if nan:
            r = r * np.nan
        return r


class SimCenter:
    def __init__(self, env, kind='mean'):
        self.env = env
        self.kind = kind

    def __call__(self, a, axis=None):
        nan = self.env.cb('center')
        f = {'mean': np.mean, 'median': np.median, 'min': np.min,
             'max': np.max}[self.kind]
        r = f(a, axis=axis)
        return r * np.nan if nan else r


class SimReduction:
    def __init__(self, env, kind='sum'):
        self.env = env
        self.kind = kind

    def __call__(self, a, axis=None):
        nan = self.env.cb('reduction')
        f = {'mean': np.mean, 'sum': np.sum, 'min': np.min,
             'max': np.max}[self.kind]
        r = f(a, axis=axis)
        return r * np.nan if nan else r


class SimAffinity:
    """2 ** -distance, so that the inverted affinity is ln 2 * distance."""

    def __init__(self, env):
        self.m = SimMetric(env)

    def __call__(self, X, Y=None):
        return 2. ** -(self.m(X, Y) / 8.)


def metric_for(env, name):
    if name == 'sim':
        return SimMetric(env)
    if name == 'sim_sq':
        return SimMetric(env, 'sq')
    return name           # a string or None


def objective_for(env, spec):
    """The library objective described by spec; None = the default argument."""
    if spec is None:
        return None
    if env.shared is not None:
        key = str(sorted(spec.items()))
        if key not in env.shared:
            env.shared[key] = _objective(env, spec)
        return env.shared[key]
    return _objective(env, spec)


def number(x):
    return float(np.asarray(x, dtype=float).reshape(()) if np.ndim(x) == 0
                 else np.asarray(x, dtype=float).ravel()[0])


def plain_numbers(cls):
    """A user's subclass of an objective which returns plain numbers."""
    name = 'Plain' + cls.__name__
    have = globals().get(name)
    if have is None or have.__bases__ != (cls,):
        class Plain(cls):
            def __call__(self, labels, attr):
                return number(super().__call__(labels, attr))

            def update(self, *a, **kw):
                return number(super().update(*a, **kw))
        Plain.__name__ = Plain.__qualname__ = name   # can be pickled
        Plain.__module__ = __name__
        globals()[name] = have = Plain
    return have


def _objective(env, spec):
    from region.objective_function import ObjectiveFunctionPairwise, \
        ObjectiveFunctionCenter
    if spec.get('num'):
        ObjectiveFunctionPairwise = plain_numbers(ObjectiveFunctionPairwise)
        ObjectiveFunctionCenter = plain_numbers(ObjectiveFunctionCenter)
    m = metric_for(env, spec.get('metric', 'sim'))
    if spec['kind'] == 'pair':
        return ObjectiveFunctionPairwise(m)
    if spec.get('plain'):
        f = {'sum': np.sum, 'max': np.max, 'mean': np.mean, 'min': np.min,
             'median': np.median}
        return ObjectiveFunctionCenter(m, f[spec.get('center', 'mean')],
                                       f[spec.get('reduction', 'sum')])
    return ObjectiveFunctionCenter(
        m, SimCenter(env, spec.get('center', 'mean')),
        SimReduction(env, spec.get('reduction', 'sum')))


# --------------------------------------------------------------------------
# estimators
# --------------------------------------------------------------------------
def seed_value(s, salt=0):
    """random_state: int, str (its hash is simulated), bytes, bytearray."""
    if isinstance(s, str):
        return W.AreaId(s, salt)
    if isinstance(s, list):
        return {'bytes': bytes, 'bytearray': bytearray}[s[0]](s[1], 'utf-8')
    return s


def build(env, spec, strategy=None, local=None):
    from region.p_regions.azp import AZP, AZPBasicTabu, AZPReactiveTabu, \
        AZPSimulatedAnnealing
    kind = spec['est']
    kw = {}
    if 'seed' in spec:
        kw['random_state'] = seed_value(spec['seed'], spec.get('salt', 0))
    if kind == 'azp':
        if strategy is not None:
            kw['allow_move_strategy'] = strategy
        return AZP(**kw)
    if kind == 'sa':
        for a, b in (('T', 'init_temperature'), ('maxit', 'max_iterations'),
                     ('q', 'sa_moves_term'),
                     ('nonmoving', 'nonmoving_steps_before_stop'),
                     ('reps', 'repetitions_before_termination')):
            if a in spec:
                kw[b] = float('inf') if spec[a] == 'inf' else spec[a]
        return AZPSimulatedAnnealing(**kw)
    if kind == 'btabu':
        for a, b in (('len', 'tabu_length'),
                     ('reps', 'repetitions_before_termination')):
            if a in spec:
                kw[b] = spec[a]
        return AZPBasicTabu(**kw)
    if kind == 'rtabu':
        return AZPReactiveTabu(spec['maxit'], spec['k1'], spec['k2'], **kw)
    if kind == 'maxp':
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        if local is None and spec.get('local') is not None:
            local = build(env, dict(spec['local'],
                                    salt=spec.get('salt', 0)))
        if local is not None:
            kw['local_search'] = local
        return MaxPRegionsHeu(**kw)
    if kind == 'pexact':
        from region.p_regions.exact import PRegionsExact
        return PRegionsExact()
    if kind == 'mpexact':
        from region.max_p_regions.exact import MaxPRegionsExact
        return MaxPRegionsExact()
    if kind == 'skater':
        from region.skater.skater import Spanning_Forest
        if spec.get('metric') == 'affinity':
            kw = {'affinity': SimAffinity(env)}
        else:
            kw = {'dissimilarity': metric_for(env, spec.get('metric', 'sim'))}
        return Spanning_Forest(
            **kw,
            reduction=SimReduction(env, spec.get('reduction', 'sum')),
            center=SimCenter(env, spec.get('center', 'mean')))
    raise core.HarnessError(kind)


class Call:
    """One prepared fit call: the method, its arguments, and the originals."""

    def __init__(self, name, args, kw):
        self.name = name
        self.args = args
        self.kw = kw


def prepare(env, spec, op, world, objective=None, shuffle=None):
    """
    Build the arguments for a fit of an estimator described by spec.

    op: entry, p (regions), init (labels), obj, cooling, max_it, method,
        solver metric, quorum, islands, trace, flat (1-d attributes)
    shuffle: Prng deciding delivery order for dict/networkx entries
    """
    kind = spec['est']
    entry = op.get('entry', 'sparse')
    maxp = kind in ('maxp', 'mpexact')
    kw = {}
    attr_rows = world['attr']
    sp_rows = world.get('sp')
    flat = op.get('flat') and len(attr_rows[0]) == 1
    sp_flat = op.get('sp_flat') and sp_rows and len(sp_rows[0]) == 1
    init = op.get('init')

    def arr(rows, flat):
        a = np.array(rows, dtype=float)
        b = a.astype(W.narrow(a) if op.get('dtype') == 'narrow' else
                     op.get('dtype', 'float'))
        if (b == a).all():               # no value is changed
            a = b
        lay = op.get('layout')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'strided':
            b = np.full((2 * a.shape[0], 2 * a.shape[1]), -77, dtype=a.dtype)
            b[::2, ::2] = a
            a = b[::2, ::2]
        a = (a[:, 0] if lay else a[:, 0].copy()) if flat else a
        if lay == 'readonly':
            a.setflags(write=False)
        return a

    if kind == 'skater':
        data = None if op.get('nodata') else arr(attr_rows, False)
        kw = {k: op[k] for k in ('quorum', 'islands', 'trace', 'verbose')
              if k in op}
        nc = float('inf') if op['p'] == 'inf' else op['p']
        return Call('fit', [nc, W.w_obj(world, op.get('wids')), data], kw)

    if kind in ('azp', 'sa', 'btabu', 'rtabu', 'maxp'):
        if objective is None and op.get('obj') is not None:
            objective = objective_for(env, op['obj'])
        if objective is not None:
            kw['objective_func'] = objective
        if kind == 'sa' and 'cooling' in op:
            kw['cooling_factor'] = op['cooling']
        if kind == 'maxp' and 'max_it' in op:
            kw['max_it'] = op['max_it']
    else:
        m = metric_for(env, op.get('metric', 'sim'))
        if op.get('metric', 'sim') is not None:
            kw['metric'] = m
        if kind == 'pexact' and 'method' in op:
            kw['method'] = op['method']
        if 'solver' in op:
            kw['solver'] = op['solver']

    if maxp:
        thr = op['thr']
        thr = np.array(thr, dtype=float) if len(thr) > 1 else thr[0]

    if entry == 'sparse':
        name = op.get('alias', 'fit_from_scipy_sparse_matrix')
        args = [W.csr(world, op.get('adjtype', 'float'),
                      op.get('unsorted'), op.get('zeros'),
                      op.get('loops')), arr(attr_rows, flat)]
    elif entry == 'w':
        name = 'fit_from_w'
        args = [W.w_obj(world, op.get('wids'), op.get('loops')),
                arr(attr_rows, flat)]
        if op.get('wtrans') and world['edges']:
            args[0].transform = op['wtrans']
    elif entry == 'dict':
        name = 'fit_from_dict'
        args = [W.neighbor_dict(world, shuffle, op.get('cont', 'set'),
                                op.get('loops')),
                W.value_dict(world, attr_rows, shuffle, flat)]
    elif entry == 'nx':
        name = 'fit_from_networkx'
        g = W.nx_graph(world, shuffle, op.get('loops'))
        nm = W.ids(world)
        if op.get('nxattr', 'dict') == 'names':
            for c in range(len(attr_rows[0])):
                for i in range(world['n']):
                    g.nodes[nm[i]][W.ACOLS[c]] = attr_rows[i][c]
            a = [W.ACOLS[c] for c in range(len(attr_rows[0]))]
            args = [g, a[0] if len(a) == 1 and op.get('flat') else a]
        else:
            args = [g, W.value_dict(world, attr_rows, shuffle, flat)]
    elif entry == 'gdf':
        name = 'fit_from_geodataframe'
        g = W.gdf(world, op.get('dtype') == 'narrow')
        if 'queen' in world:
            kw['contiguity'] = world['queen']
        cols = [W.ACOLS[c] for c in range(len(attr_rows[0]))]
        args = [g, cols[0] if flat else cols]
    else:
        raise core.HarnessError(entry)

    if maxp:
        if entry in ('sparse', 'w'):
            args.append(arr(sp_rows, sp_flat))
        elif entry == 'dict':
            args.append(W.value_dict(world, sp_rows, shuffle, sp_flat))
        elif entry == 'nx':
            if op.get('nxattr', 'dict') == 'names':
                for c in range(len(sp_rows[0])):
                    for i in range(world['n']):
                        g.nodes[nm[i]][W.SCOLS[c]] = sp_rows[i][c]
                args.append([W.SCOLS[c] for c in range(len(sp_rows[0]))])
            else:
                args.append(W.value_dict(world, sp_rows, shuffle, sp_flat))
        else:
            args.append([W.SCOLS[c] for c in range(len(sp_rows[0]))])
        args.append(thr)
    else:
        args.append(np.int64(op['p']) if op.get('npint') else op['p'])
        if init is not None and kind in ('azp', 'sa', 'btabu', 'rtabu'):
            if entry == 'dict':
                kw['initial_labels'] = W.value_dict(
                    world, [[x] for x in init], shuffle, True)
            elif entry == 'nx':
                if op.get('nxattr', 'dict') == 'names':
                    for i in range(world['n']):
                        g.nodes[nm[i]]['lab'] = init[i]
                    kw['initial_labels'] = 'lab'
                else:
                    kw['initial_labels'] = W.value_dict(
                        world, [[x] for x in init], shuffle, True)
            else:
                kw['initial_labels'] = np.array(
                    init, dtype=op.get('init_dtype', 'int64'))
    return Call(name, args, kw)


# --------------------------------------------------------------------------
# calling fit
# --------------------------------------------------------------------------
DEFAULT_BUDGET = 400_000


class Outcome:
    """What a fit call did: 'ok', 'raise' or 'budget'."""

    def __init__(self, status, exc=None, ticks=0):
        self.status = status
        self.exc = exc
        self.ticks = ticks
        self.ok = status == 'ok'

    def __repr__(self):
        if self.status == 'raise':
            return 'raised {}: {}'.format(type(self.exc).__name__,
                                          str(self.exc)[:200])
        return self.status


def call(sim, est, c, budget=DEFAULT_BUDGET):
    """Run a prepared call inside the simulator."""
    t0 = sim.ticks
    if sim.sched is None:
        sim.set_budget(budget)
    try:
        getattr(est, c.name)(*c.args, **c.kw)
        st, e = 'ok', None
    except StepBudgetExceeded as x:
        st, e = 'budget', x
    except (Violation, core.HarnessError):
        raise
    except BaseException as x:                # noqa
        st, e = 'raise', x
        if os.environ.get('DST_TB'):
            import traceback, sys
            traceback.print_exc(file=sys.__stderr__)
        x.__traceback__ = None
    finally:
        if sim.sched is None:
            sim.set_budget(None)
    sim.counts['fits'] = sim.counts.get('fits', 0) + 1
    sim.counts['fits_' + st] = sim.counts.get('fits_' + st, 0) + 1
    if st == 'budget':
        sim.probe('step_budget_hit')
    sim.log(c.name, st, type(e).__name__ if e is not None else '')
    return Outcome(st, e, sim.ticks - t0)


def labels(est, attr='labels_'):
    """labels_ as a list of python numbers, or None."""
    v = getattr(est, attr, None)
    if v is None:
        return None
    try:
        out = [x.item() if hasattr(x, 'item') else x for x in v]
        return [int(x) if float(x) == int(x) else x for x in out]
    except Exception:
        return repr(v)


# --------------------------------------------------------------------------
# input snapshots
# --------------------------------------------------------------------------
def freeze(x, depth=0):
    """A comparable, order-preserving value of an input object."""
    import networkx as nx
    import scipy.sparse as sp
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return ('npscalar', str(x.dtype), repr(x.item()))
    if isinstance(x, np.ndarray):
        return ('nd', str(x.dtype), x.shape, x.tobytes())
    if sp.issparse(x):
        return (type(x).__name__, x.shape, freeze(x.data), freeze(x.indices),
                freeze(x.indptr), str(x.dtype))
    if isinstance(x, nx.Graph):
        return ('graph', tuple((repr(n), freeze(d)) for n, d in
                               x.nodes(data=True)),
                tuple((repr(a), repr(b), freeze(d)) for a, b, d in
                      x.edges(data=True)))
    name = type(x).__name__
    if name in ('GeoDataFrame', 'DataFrame'):
        return ('df', tuple(map(str, x.columns)), tuple(map(repr, x.index)),
                tuple(tuple(map(repr, x[c])) for c in x.columns))
    if hasattr(x, 'neighbors') and hasattr(x, 'transform'):
        return ('W', x.transform, freeze(dict(x.neighbors)),
                freeze({k: list(v) for k, v in x.weights.items()}),
                freeze(x.sparse.toarray()))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (name, tuple(freeze(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return (name, tuple(sorted(map(repr, x))))
    if isinstance(x, type({}.keys())):
        return ('keys', tuple(map(repr, x)))
    return ('obj', name)


def freeze_call(c):
    return (tuple(freeze(a) for a in c.args),
            tuple(sorted((k, freeze(v)) for k, v in c.kw.items())))


# --------------------------------------------------------------------------
# generators shared by the heuristic properties
# --------------------------------------------------------------------------
def gen_obj(p, default_ok=True, exact=False):
    """Objective specification.  exact: only integer-exact objectives."""
    opts = [({'kind': 'pair', 'metric': 'sim'}, 8),
            ({'kind': 'pair', 'metric': 'manhattan'}, 1)]
    if default_ok:
        opts.append((None, .5))
    if not exact:
        for c in ('mean', 'median', 'min'):
            opts.append(({'kind': 'center', 'metric': 'sim', 'center': c,
                          'reduction': 'sum'}, .7))
        opts.append(({'kind': 'center', 'metric': 'sim', 'center': 'median',
                      'reduction': 'max'}, .7))
    o = p.weighted(opts)
    if o is not None and p.chance(.12):
        o = dict(o, num=True)       # an objective returning plain numbers
    return o


def gen_est(p, kinds=('azp', 'sa', 'btabu', 'rtabu'), seed=True):
    kind = p.choice(kinds)
    s = {'est': kind}
    if seed and p.chance(.6):
        s['seed'] = p.below(1000)
    if kind == 'sa':
        s.update(T=p.choice([0.5, 5.0, 50.0, 1000.0]),
                 maxit=p.choice([1, 2, 3, 5]), q=p.choice([1, 2, 10]),
                 nonmoving=p.choice([1, 2, 3]), reps=p.choice([1, 2, 5]))
    elif kind == 'btabu':
        s.update(len=p.choice([None, 0, 1, 2, 3, 5, 10]),
                 reps=p.choice([1, 2, 5]))
    elif kind == 'rtabu':
        s.update(maxit=p.choice([1, 2, 5, 20]), k1=p.choice([0, 1, 3]),
                 k2=p.choice([0, 1, 2]))
    return s


def gen_op(p, world, spec, entries=None, init=.35, exact=False):
    """A satisfiable fit request for a p-regions heuristic."""
    n = world['n']
    nb = ref.adj_list(n, world['edges'])
    nc = len(ref.components(n, nb))
    k = p.weighted([(nc, 1), (n, 1), (min(n, nc + 1), 4),
                    (p.int(nc, n), 6)])
    ent = entries or (['sparse', 'sparse', 'sparse', 'dict', 'nx', 'w'] +
                      (['gdf'] if 'grid' in world else []))
    op = {'entry': p.choice(ent), 'p': k, 'obj': gen_obj(p, exact=exact)}
    if p.chance(init):
        op['init'] = W.gen_partition(p, n, nb, k)
        if p.chance(.2):
            op['init_dtype'] = p.choice(['float64', 'int32', 'int8'])
        if p.chance(.25):        # region ids need not be 0..k-1
            m = p.sample(range(-6 if p.chance(.5) else 0,
                               max(20, k + 5)), k)
            how = p.weighted([(None, 6), ('small', 1), ('code', 1),
                              ('wrap', 1)])
            if how == 'small':                # wide for an int8
                m = [6 * x for x in m]
            elif how == 'code':               # codes of districts
                m = [48201000100 + 100037 * x for x in m]
            elif how == 'wrap':               # alike modulo 2**32
                m = [x << 32 | x & 1 for x in m]
            if max(m) > 127 and op.get('init_dtype') != 'float64':
                op.pop('init_dtype', None)
            elif how == 'small':
                op['init_dtype'] = 'int8'
            op['init'] = [m[x] for x in op['init']]
    if spec['est'] == 'sa':
        op['cooling'] = p.choice([.1, .5, .85, .99])
    if p.chance(.3):
        op['flat'] = True
    if op['entry'] == 'nx' and p.chance(.5):
        op['nxattr'] = 'names'
    if p.chance(.2):
        op['alias'] = 'fit'if spec['est'] != 'sa' else \
            'fit_from_scipy_sparse_matrix'
    gen_matrix(p, op)
    return op


def gen_matrix(p, op):
    """Unusual but equivalent ways to write the contiguity matrix."""
    if p.chance(.2):
        op['adjtype'] = p.choice(['int', 'bool', 'weights', 'wild'])
    if p.chance(.12):
        op['dtype'] = p.choice(['int64', 'int32', 'narrow', 'narrow'])
    if p.chance(.15):
        op['layout'] = p.choice(['F', 'strided', 'readonly'])
    if p.chance(.06):
        op['npint'] = True
    if p.chance(.1):
        op['zeros'] = p.below(1000)
    if p.chance(.08):
        op['loops'] = p.below(1000)
    if op['entry'] == 'w' and p.chance(.3):
        op['wtrans'] = p.choice(['R', 'V', 'D'])
    if op['entry'] == 'w' and p.chance(.3):
        op['wids'] = p.below(1000)


RNG_MODES = [('fair', 6), ('first', 1), ('last', 1), ('alternate', 1),
             ('sticky', 1), ('mixed', 2)]
