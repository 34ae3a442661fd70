"""C22: a fault inside a fit reaches the caller; a fit leaves nothing behind."""
import copy
import gc
import locale
import logging
import os
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import anyest as A, core, est as X, solver as S, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C22'
RUNS = {'quick': 1800, 'thorough': 40000}
POINTS = True
RULE = ('A run is 1-4 fits of one estimator of any kind on one or two maps. '
        'In most fits one fault is injected: a callback (metric, center, '
        'reduction, user-written objective, move strategy or local search) '
        'raises one of 21 exception types at a position chosen from a '
        'rehearsal of the same fit (often one of the distinct places in the '
        'code it is called from), an interrupt or memory failure lands at '
        'a call or backward jump inside the package, the solver process or '
        'its disk fails, or the request is invalid. Before and after every '
        'fit the process-wide settings are compared, after a successful one '
        'also the files in the scratch and working directories.')
NONTRIVIAL = 'an injected exception was raised inside a fit.'
REAL = 'all estimators of region, region.util, objective_function; pulp, ' \
    'the cbc binary, numpy, scipy, networkx, libpysal, geopandas, sklearn'
STUB = 'random module, clock, entropy, stdout, solver process control and ' \
    'its disk I/O; metric, center, reduction, objective, strategy callbacks'
ASSUMPTIONS = ['an exception may be wrapped by another one if the chain '
               '(__cause__ or __context__) still leads to it',
               'files left behind by a failed solver run are not judged',
               'StopIteration and GeneratorExit are not raised from '
               'callbacks: Python itself gives them another meaning']
KINDS = sorted(k for k in X.EXCEPTIONS)
# what handlers in libraries like this one are written for
LIKELY = ['key', 'index', 'lookup', 'attribute', 'value', 'type', 'zerodiv',
          'runtime'] * 2
_ENTRY_CWD = None


def gen(p, tier, index):
    kind = p.weighted(A.WEIGHTS)
    spec = A.gen_spec(p, kind)
    worlds = [A.gen_world(p, kind) for _ in range(p.choice([1, 1, 2]))]
    ops = []
    for _ in range(p.int(1, 4)):
        wi = p.below(len(worlds))
        op = A.gen_op(p, kind, worlds[wi], spec)
        o = {'world': wi, 'op': op, 'fault': None}
        if p.chance(.85):
            o['fault'] = gen_fault22(p, kind)
            if o['fault']['kind'] == 'bad':
                A.make_bad(p, kind, worlds[wi], op)
                o['unsat'] = True
        if kind in A.HEUR + ('maxp',) and p.chance(.25):
            o['user_obj'] = True
        ops.append(o)
    plan = {'est': spec, 'worlds': worlds, 'ops': ops,
            'rng': p.weighted(RNG)}
    if kind == 'azp' and p.chance(.25):
        plan['strategy'] = True
    if kind == 'maxp' and spec['local'] is not None and p.chance(.3):
        plan['user_local'] = True
    plan['numpy'] = p.chance(.3)
    return plan


def gen_fault22(p, kind):
    k = p.weighted([('cb', 8), ('async', 3), ('bad', 1)] + (
        [('solver', 3)] if kind in A.EXACT else []))
    f = {'kind': k}
    if k in ('cb', 'async'):
        X.gen_point(p, f)
        f['exc'] = p.choice(KINDS + LIKELY) if k == 'cb' else p.choice(
            ['KeyboardInterrupt', 'MemoryError'])
    elif k == 'solver':
        f['d'] = S.gen_directive(p, 1.0)
    return f


def shrink(plan):       # noqa
    from . import common
    for key in ('strategy', 'user_local', 'numpy'):
        if plan.get(key):
            q = copy.deepcopy(plan)
            q[key] = False
            yield q
    for i, o in enumerate(plan['ops']):
        if o.get('user_obj'):
            q = copy.deepcopy(plan)
            del q['ops'][i]['user_obj']
            yield q
        f = o['fault']
        if f and f.get('kind') == 'cb' and f['exc'] != 'raise':
            q = copy.deepcopy(plan)
            q['ops'][i]['fault']['exc'] = 'raise'
            yield q
    if plan['est']['est'] in ('maxp', 'mpexact'):
        from . import c08
        yield from c08.shrink_maxp(plan)
    else:
        yield from common.shrink(plan)


def settings():
    """Everything about the process a fit has no business to change."""
    import sklearn
    import pandas
    import pulp
    sig = []
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD,
              signal.SIGPIPE, signal.SIGHUP):
        sig.append(repr(signal.getsignal(s)))
    st = {
        'working directory': os.getcwd(),
        'environment': tuple(sorted(os.environ.items())),
        'numpy error state': tuple(sorted(np.geterr().items())),
        'numpy error callback': repr(np.geterrcall()),
        'numpy print options': repr(sorted(
            (k, repr(v)) for k, v in np.get_printoptions().items())),
        'warning filters': tuple(map(repr, warnings.filters)),
        'signal handlers': tuple(sig),
        'recursion limit': sys.getrecursionlimit(),
        'thread switch interval': sys.getswitchinterval(),
        'stdout': id(sys.stdout), 'stderr': id(sys.stderr),
        'excepthook': id(sys.excepthook),
        'trace function': (id(sys.gettrace()), id(sys.getprofile())),
        'module search path': tuple(sys.path),
        'temporary directory': tempfile.tempdir,
        'threads': threading.active_count(),
        'garbage collector': (gc.isenabled(), gc.get_threshold()),
        'locale': locale.setlocale(locale.LC_ALL),
        'logging': (logging.root.level, logging.root.manager.disable,
                    len(logging.root.handlers)),
        'sklearn configuration': repr(sorted(
            (k, repr(v)) for k, v in sklearn.get_config().items())),
        'pandas options': repr(pandas.get_option('mode.chained_assignment')),
        'default solver of pulp': id(pulp.LpSolverDefault),
    }
    return st


def show(v):
    if isinstance(v, int) and v > 1 << 20:
        return 'another object'
    return str(v)[:200]


def chain(e):
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is s for s in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        if isinstance(x, BaseExceptionGroup):
            todo += list(x.exceptions)
    return seen


def build(env, plan):
    from region.p_regions.azp_util import AllowMoveAZP
    spec = plan['est']
    if plan.get('strategy'):
        class UserStrategy(AllowMoveAZP):
            def __call__(self, area, region, labels):
                env.cb('strategy')
                return super().__call__(area, region, labels)

            def start_new_component(self, *a, **kw):
                env.cb('strategy start')
                return super().start_new_component(*a, **kw)
        return X.build(env, spec, strategy=UserStrategy())
    if plan.get('user_local'):
        from .c09 import spy_local
        return X.build(env, spec, local=spy_local(
            X.build(env, spec['local']), lambda *a: env.cb('local search')))
    return X.build(env, spec)


def user_objective(env, op):
    spec = op.get('obj') or {'kind': 'pair', 'metric': 'sim'}
    if spec.get('plain'):
        spec = {k: v for k, v in spec.items() if k != 'plain'}
    return spy_objective(env, on_call=lambda *a: env.cb('objective'),
                         on_update=lambda *a: env.cb('update'), spec=spec)


def run(plan, sim):
    env = X.Env(sim)
    sv = S.SolverSim(sim, [])
    kind = plan['est']['est']
    budget = 1_500_000
    e = build(env, plan)
    S.clean()
    err = np.geterr()
    if plan.get('numpy'):          # settings of the caller, not the defaults
        np.seterr(divide='raise', over='warn', under='ignore',
                  invalid='warn')
    try:
        for k, o in enumerate(plan['ops']):
            one(plan, sim, env, sv, e, k, o, kind, budget)
    finally:
        np.seterr(**err)
        os.chdir(os.path.join(os.environ['TMPDIR'], 'cwd'))


def one(plan, sim, env, sv, e, k, o, kind, budget):
    f = o['fault'] or {}
    fk = f.get('kind')
    w, op = plan['worlds'][o['world']], o['op']

    def prep():
        obj = user_objective(env, op) if o.get('user_obj') else None
        return A.prepare(env, plan['est'], op, w, objective=obj)
    at = None
    if fk in ('cb', 'async'):
        mark = A.RngMark(sim)
        e2 = build(env, plan)
        env.arm(1 << 60, 'raise')
        sim.arm_async(-1, None)
        if fk == 'cb':
            sites = env.sites = []
        else:
            sites = sim.sites = []
        sv.set(None)
        X.call(sim, e2, prep(), budget)
        pts = sim.disarm()
        total = env.n if fk == 'cb' else pts
        env.disarm()
        S.clean()
        mark.back(sim)
        at = X.pick_point(f, total, sites)
    c = prep()
    env.exc = sim.async_exc = None
    sv.set(f['d'] if fk == 'solver' else None)
    before, modules = settings(), len(sys.modules)
    if fk == 'cb':
        env.arm(at, f['exc'])
    elif fk == 'async':
        sim.arm_async(at, f['exc'])
    try:
        out = X.call(sim, e, c, budget)
    finally:
        env.disarm()
        sim.disarm()
        sv.set(None)
    after = settings()
    left = S.leftovers()
    S.clean()
    what = 'fit {} of {} by {} (fault {})'.format(k, kind, c.name, f)
    sim.log(out.status, at)
    if out.status == 'budget':
        return
    for name in before:
        if len(sys.modules) != modules:
            break                   # a lazy import of a third-party module
        if before[name] != after[name]:
            raise Violation('setting-changed', '{} ended with {!r} and left '
                            'the {} changed: {} -> {}'.format(
                                what, out, name, show(before[name]),
                                show(after[name])))
    if out.ok and left:
        raise Violation('files-left', '{} left {}'.format(
            what, [os.path.basename(x) for x in left]))
    exc = env.exc or sim.async_exc
    if exc is not None:
        sim.counts['nontrivial'] = 1
        sim.probe('fault_' + (f['exc'] if fk == 'cb' else fk))
        if out.ok:
            raise Violation('fault-swallowed', '{}: {!r} was raised inside '
                            'the fit, which returned normally'.format(
                                what, exc))
        if not any(x is exc for x in chain(out.exc)):
            raise Violation('fault-replaced', '{}: {!r} was raised inside '
                            'the fit, the caller got {!r} which does not '
                            'lead to it'.format(what, exc, out))
    sim.state((world_key(w), kind, c.name, fk, f.get('exc'), at))
