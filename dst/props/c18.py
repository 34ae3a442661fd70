"""C18: SKATER regions: contiguous, above quorum, nested, best cuts."""
import copy
import math
import warnings

import numpy as np

from .. import anyest as A, core, est as X, ref, world as W
from ..core import Violation
from .common import *          # noqa

ID = 'C18'
RUNS = {'quick': 8000, 'thorough': 120000}
POINTS = True
RULE = ('A run is a history of 1-5 fits of one Spanning_Forest on 1-2 small '
        'maps (1-9 areas, 1-3 islands, identical attributes, any quorum, '
        'island mode, metric, center and reduction), with or without trace, '
        'progress output and attributes, followed by score, find_cut and '
        'make_cut queries. Callbacks raise, exhaust memory or answer NaN at a '
        'seeded call, interrupts land anywhere in package code, stdout '
        'breaks, warnings become errors, the clock jumps. Each returned '
        'result is compared with a reference of cuts and scores; the next '
        'fit after a fault is judged as strictly as the first.')
NONTRIVIAL = 'a fit made at least one cut and its trace was checked against ' \
    'all possible cuts.'
REAL = 'region.skater; scipy.sparse.csgraph, numpy, libpysal weights'
STUB = 'clock, stdout; metric, affinity, center and reduction callbacks ' \
    '(plain numpy/sklearn functions in part of the runs)'
ASSUMPTIONS = ['symmetric contiguity', 'quorum applies to regions made by a '
               'cut: a single-component map smaller than the quorum is '
               'returned whole']

SPECS = [('sim', 6), ('sim_sq', 1), ('affinity', 1), ('default', 1)]


def gen_fault18(p):
    k = p.weighted([('nan', 5), ('cb', 3), ('async', 3), ('stdout', .5),
                    ('warn', .5)])
    f = {'kind': k}
    if k in ('nan', 'cb', 'async'):
        f['frac'] = round(p.random() ** p.choice([1, 1, 4]), 4)
        if p.chance(.4):
            f['occ'] = p.choice([0, .9999, round(p.random(), 4)])
        f['exc'] = 'nan' if k == 'nan' else p.choice(CB_FAULTS) \
            if k == 'cb' else p.choice(['KeyboardInterrupt', 'MemoryError'])
    elif k == 'stdout':
        f['at'] = p.int(1, 6)
    return f


def gen(p, tier, index):
    spec = A.gen_spec(p, 'skater')
    spec['metric'] = p.weighted(SPECS)
    if spec['metric'] == 'default':
        spec.update(center='mean', reduction='sum')
    big = p.weighted([(9, 5), (13, 1)]) if tier == 'thorough' else 9
    worlds = [A.gen_skater_world(p, big) for _ in range(p.choice([1, 1, 2]))]
    if p.chance(.25):
        for w in worlds:
            w['attr'] = W.gen_attr(p, w['n'], None, p.choice(['const',
                                                              'two']))
    if spec['metric'] in ('sim', 'sim_sq'):
        for w in worlds:
            W.rescale(p, w, .15)
    ops = []
    for k in range(p.choice([1, 2, 2, 3, 4, 5])):
        wi = p.below(len(worlds))
        w = worlds[wi]
        op = A.gen_skater_op(p, w)
        if p.chance(.4):
            op['trace'] = True
        o = {'world': wi, 'op': op, 'fault': None, 'query': None}
        if p.chance(.4):
            o['fault'] = gen_fault18(p)
            if o['fault']['kind'] == 'stdout':
                op['verbose'] = p.choice([2, 3])
        if p.chance(.5):
            o['query'] = {'seed': p.below(10 ** 6),
                          'what': p.weighted([('score', 2), ('find', 3),
                                              ('cut', 2), ('below', 1)]),
                          'quorum': p.choice([None, 1, 2, 3])}
        ops.append(o)
    return {'est': spec, 'worlds': worlds, 'ops': ops,
            'clock': p.weighted([('normal', 2), ('jumps', 1)]),
            'rng': 'fair'}


def shrink(plan):       # noqa
    from . import common
    for i, o in enumerate(plan['ops']):
        if o['query']:
            q = copy.deepcopy(plan)
            q['ops'][i]['query'] = None
            yield q
        for k in ('verbose', 'transform', 'nodata', 'islands'):
            if k in o['op']:
                q = copy.deepcopy(plan)
                del q['ops'][i]['op'][k]
                yield q
    yield from common.shrink(plan)


def build(env, spec):
    if spec['metric'] == 'default':
        from region.skater.skater import Spanning_Forest
        return Spanning_Forest()
    return X.build(env, spec)


class Ref:
    """Reference scores and cuts of one request."""

    def __init__(self, spec, w, op):
        self.n = w['n']
        self.nb = nbs(w)
        self.edges = {tuple(sorted(e)) for e in w['edges']}
        self.comps = ref.components(self.n, self.nb)
        self.metric = 'sq' if spec['metric'] == 'sim_sq' else 'manhattan'
        self.scale = math.log(2) / 8 if spec['metric'] == 'affinity' else 1
        self.center = spec['center']
        self.red = spec['reduction']
        self.nodata = bool(op.get('nodata'))
        self.attr = [[1]] * self.n if self.nodata else w['attr']
        self.unit = 1 if self.nodata else w.get('unit', 1)
        if self.metric == 'sq':
            self.unit *= self.unit
        q = op.get('quorum')
        self.quorum = -math.inf if q is None else q
        nc = math.inf if op['p'] == 'inf' else op['p']
        c = len(self.comps)
        if c > 1 and op.get('islands', 'increase').lower() != 'ignore':
            nc += c
        self.want = max(nc, c)
        self.reject = c > 1 and any(len(x) < self.quorum for x in self.comps)

    def d(self, a, b):
        # without attributes all links weigh the same
        return 1 if self.nodata else \
            self.scale * ref.dist(self.attr[a], self.attr[b], self.metric)

    def score(self, lab, attr=None):
        attr = self.attr if attr is None else attr
        return self.scale * ref.center_obj(lab, attr, self.metric,
                                           self.center, self.red)

    def min_weight(self):
        """Weight of a minimum spanning forest (Kruskal)."""
        par = list(range(self.n))

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        tot = 0
        for w, a, b in sorted((self.d(a, b), a, b) for a, b in self.edges):
            a, b = find(a), find(b)
            if a != b:
                par[a] = b
                tot += w
        return tot

    def labels(self, forest):
        return comp_labels(self.n, forest)

    def cuts(self, forest, quorum, only=None):
        """{edge: score} of all valid cuts."""
        out = {}
        for e in sorted(forest):
            if only is not None and not only & set(e):
                continue
            lab = self.labels(forest - {e})
            if all(len(g) >= quorum for g in ref.groups(lab).values()):
                out[e] = self.score(lab)
        return out


def comp_labels(n, forest):
    lab = [0] * n
    for r, areas in enumerate(ref.components(n, ref.adj_list(n, forest))):
        for a in areas:
            lab[a] = r
    return lab


def forest_of(m):
    m = m.tocoo()
    out = set()
    for a, b, v in zip(m.row, m.col, m.data):
        if v != 0:
            out.add(tuple(sorted((int(a), int(b)))))
    return out


def edge(d):
    return tuple(sorted((int(d[0]), int(d[1]))))


def published(e, name, what):
    try:
        return getattr(e, name)
    except AttributeError:
        raise Violation('no-result', '{}: a finished fit has no {}'.format(
            what, name))


def ilabels(v, what):
    try:
        return [int(x) for x in v]
    except Exception:
        raise Violation('labels', '{}: labels {!r}'.format(what, v))


def same_partition(a, b):
    return ref.canon(a) == ref.canon(b)


def check_result(sim, R, e, op, caught, nans, what):
    """Structure of the published result.  Returns (labels, forest)."""
    lab = ilabels(published(e, 'current_labels_', what), what)
    err = ref.partition_error(lab, R.n, R.nb)
    if err:
        raise Violation('not-contiguous', '{}: {} (labels {})'.format(
            what, err, lab))
    g = ref.groups(lab)
    if len(g) > 1:
        for areas in g.values():
            if len(areas) < R.quorum:
                raise Violation('quorum', '{}: region {} below quorum {} '
                                '(labels {})'.format(what, areas, R.quorum,
                                                     lab))
    F = forest_of(published(e, 'minimum_spanning_forest_', what))
    if not F <= R.edges:
        raise Violation('forest', '{}: forest links {} are no neighbours'
                        .format(what, sorted(F - R.edges)))
    if not same_partition(R.labels(F), lab):
        raise Violation('forest', '{}: labels {} are not the components {} '
                        'of the forest'.format(what, lab, R.labels(F)))
    if len(g) > R.want:
        raise Violation('count', '{}: {} regions, wanted {} (labels {})'
                        .format(what, len(g), R.want, lab))
    if len(g) < R.want:
        left = R.cuts(F, R.quorum)
        if left and not nans:
            raise Violation('count', '{}: {} regions, wanted {}, valid cuts '
                            'left {} (labels {})'.format(what, len(g), R.want,
                                                         left, lab))
        if not caught:
            raise Violation('no-warning', '{}: {} regions instead of {} '
                            'without a warning'.format(what, len(g), R.want))
        sim.probe('stopped_by_quorum')
    return lab, F


def check_trace(sim, R, tr, lab, F, nans, first_nan, what):
    if not tr:
        raise Violation('trace', '{}: no trace'.format(what))
    steps = [(ilabels(l, what), d) for l, d in tr]
    cutset = [edge(d) for _, d in steps[1:]]
    F0 = F | set(cutset)
    if len(cutset) != len(F0) - len(F):
        raise Violation('trace', '{}: cuts {} repeat or are still in the '
                        'forest {}'.format(what, cutset, sorted(F)))
    if not F0 <= R.edges:
        raise Violation('trace', '{}: cuts {} are no neighbours'.format(
            what, sorted(F0 - R.edges)))
    if len(F0) != R.n - len(R.comps) or len(ref.groups(R.labels(F0))) != \
            len(R.comps):
        raise Violation('forest', '{}: initial forest {} does not span the '
                        'components'.format(what, sorted(F0)))
    if not first_nan:
        wt = sum(R.d(a, b) for a, b in F0)
        best = R.min_weight()
        if not close(wt, best, unit=R.unit):
            raise Violation('not-minimal', '{}: spanning forest {} weighs '
                            '{}, the minimum is {}'.format(
                                what, sorted(F0), wt, best))
    cur, missed = set(F0), 0
    if not same_partition(steps[0][0], R.labels(cur)):
        raise Violation('trace', '{}: first step {} is not the components'
                        .format(what, steps[0][0]))
    for i, (l, d) in enumerate(steps[1:]):
        w2 = '{}: trace step {} ({})'.format(what, i + 1, edge(d))
        if edge(d) not in cur:
            raise Violation('trace', w2 + ': link not in the forest')
        ok = R.cuts(cur, R.quorum)
        cur = cur - {edge(d)}
        new = R.labels(cur)
        if not same_partition(l, new):
            raise Violation('trace', '{}: labels {} instead of {}'.format(
                w2, l, new))
        if edge(d) not in ok:
            raise Violation('quorum', '{}: cut makes a region below quorum '
                            '{}: {}'.format(w2, R.quorum, l))
        sc = scalar(d[2])
        if not close(sc, ok[edge(d)], 1e-8, R.unit):
            raise Violation('score', '{}: score {}, reference {}'.format(
                w2, sc, ok[edge(d)]))
        best = min(ok.values())
        if sc > best and not close(sc, best, 1e-8, R.unit):
            better = [x for x in ok if ok[x] < sc and
                      not close(ok[x], sc, 1e-8, R.unit)]
            if not nans or len(better) > 1 or missed:
                raise Violation('not-best-cut', '{}: score {}, but cutting '
                                '{} scores {}'.format(w2, sc, better[0],
                                                      ok[better[0]]))
            missed += 1
            sim.probe('nan_score_skipped')
    if not same_partition(steps[-1][0], lab):
        raise Violation('trace', '{}: last step {} is not the result {}'
                        .format(what, steps[-1][0], lab))
    return len(cutset)


def query(sim, R, e, plan, o, w, lab, F, what):
    """score / find_cut / make_cut on the published result."""
    q = o['query']
    p = core.Prng(q['seed'])
    quorum = -math.inf if q['quorum'] is None else q['quorum']
    kw = {} if q['quorum'] is None else {'quorum': q['quorum']}
    data = np.array(R.attr, dtype=float)
    what = '{} then {}'.format(what, q['what'])

    def eq(a, b):
        return close(a, b, 1e-8, R.unit) if math.isfinite(b) and math.isfinite(a) \
            else a == b
    if q['what'] == 'score':
        s = scalar(e.score(data, **kw))
        r = R.score(lab) if all(len(g) >= quorum for g in
                                ref.groups(lab).values()) else math.inf
        if not eq(s, r):
            raise Violation('score', '{}: {} instead of {}'.format(what, s,
                                                                   r))
        k = p.int(len(R.comps), R.n)
        l2 = W.gen_partition(p, R.n, R.nb, k)
        l2 = [sorted(set(l2)).index(x) for x in l2]
        s = scalar(e.score(data, labels=np.array(l2), **kw))
        r = R.score(l2) if all(len(g) >= quorum for g in
                               ref.groups(l2).values()) else math.inf
        if not eq(s, r):
            raise Violation('score', '{} of {}: {} instead of {}'.format(
                what, l2, s, r))
        return
    m = e.minimum_spanning_forest_
    before = m.toarray().tolist()
    if q['what'] == 'find':
        only, kw2 = None, {}
        if p.chance(.6):
            t = p.choice(lab)
            kw2 = {'labels': np.array(lab), 'target_label': t}
            only = {i for i, x in enumerate(lab) if x == t}
        best = e.find_cut(m, data, **dict(kw, **kw2))
        ok = R.cuts(F, quorum, only)
        sc = scalar(best[2])
        if m.toarray().tolist() != before:
            raise Violation('find-cut', what + ' changed the forest')
        if not ok:
            if math.isfinite(sc):
                raise Violation('find-cut', '{}: {} although no cut is valid'
                                .format(what, best))
            return
        if not math.isfinite(sc) or edge(best) not in ok or \
                not close(sc, ok[edge(best)], 1e-8, R.unit) or \
                not close(sc, min(ok.values()), 1e-8, R.unit):
            raise Violation('find-cut', '{} {}: {}, valid cuts {}'.format(
                what, kw2, best, ok))
        sim.probe('find_cut_checked')
        return
    if q['what'] == 'below':
        # searching for a cut of one region while it is below the quorum
        best = e.find_cut(m, data, quorum=R.n + 1)
        if math.isfinite(scalar(best[2])):
            raise Violation('find-cut', '{}: {} below quorum'.format(what,
                                                                     best))
        try:
            e.make_cut(*best)
        except Exception:
            if e.minimum_spanning_forest_.toarray().tolist() != before:
                raise Violation('make-cut', what + ': rejected cut changed '
                                'the forest')
            return
        raise Violation('make-cut', what + ': invalid cut was made')
    best = e.find_cut(m, data, **kw)
    if not math.isfinite(scalar(best[2])):
        return
    how = p.choice(['own', 'given', 'find'])
    m2 = e.minimum_spanning_forest_ if how == 'own' else copy.deepcopy(m)
    if how == 'own':
        got, k, l2 = e.make_cut(*best)
    elif how == 'given':
        got, k, l2 = e.make_cut(*best, MSF=m2)
    else:
        got, k, l2 = e.find_cut(m2, data, **dict(kw, make=True))
        # another best-scoring cut would do as well
        gone = F - forest_of(got)
        ok = R.cuts(F, quorum, None)
        if len(gone) != 1 or not close(ok.get(min(gone), math.inf),
                                       min(ok.values()), 1e-8, R.unit):
            raise Violation('make-cut', '{}: find_cut(make=True) removed {}, '
                            'valid cuts {}'.format(what, gone, ok))
        best = tuple(min(gone)) + (0,)
    if how != 'own' and m.toarray().tolist() != before:
        raise Violation('make-cut', '{}: a cut of a given forest changed the '
                        'published one'.format(what))
    want = R.labels(F - {edge(best)})
    if not same_partition(ilabels(l2, what), want) or \
            k != len(set(want)) or forest_of(got) != F - {edge(best)} or \
            forest_of(m2) != F - {edge(best)}:
        raise Violation('make-cut', '{} ({}): {} gives {} regions {}, '
                        'expected {}'.format(what, how, best, k, list(l2),
                                             want))
    sim.probe('make_cut_checked')


def run(plan, sim):
    env = X.Env(sim)
    spec = plan['est']
    e = build(env, spec)
    for k, o in enumerate(plan['ops']):
        w, op = plan['worlds'][o['world']], o['op']
        R = Ref(spec, w, op)
        f = o['fault'] or {}
        fk = f.get('kind')
        what = 'fit {} of {}'.format(k, op)
        if fk in ('nan', 'cb', 'async'):
            mark = A.RngMark(sim)
            e2 = build(env, spec)
            c2 = A.prepare(env, spec, op, w)
            env.arm(1 << 60, 'raise')
            sim.arm_async(-1, None)
            if fk == 'async':
                sites = sim.sites = []
            else:
                sites = env.sites = []
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                X.call(sim, e2, c2)
            pts = sim.disarm()
            total = pts if fk == 'async' else env.n
            env.disarm()
            mark.back(sim)
            at = X.pick_point(f, total, sites)
        c = A.prepare(env, spec, op, w)
        if fk in ('nan', 'cb'):
            env.arm(at, f['exc'])
        elif fk == 'async':
            sim.arm_async(at, f['exc'])
        elif fk == 'stdout':
            sim.out.n, sim.out.fail_at = 0, f['at']
        before = sum(sim.faults.values())
        try:
            with warnings.catch_warnings(record=True) as caught:
                from scipy.optimize import OptimizeWarning
                warnings.simplefilter('always')
                if fk == 'warn':
                    sim.fault('warnings_are_errors')
                    warnings.simplefilter('error', OptimizeWarning)
                out = X.call(sim, e, c)
        finally:
            env.disarm()
            sim.disarm()
            sim.out.fail_at = None
        fired = sum(sim.faults.values()) > before
        nans = fk == 'nan' and fired
        sim.log(out.status, repr(out) if not out.ok else
                ilabels(published(e, 'current_labels_', what), what))
        if out.status == 'budget':
            raise Violation('no-end', '{}: {!r}'.format(what, out))
        if R.reject:
            if out.ok:
                raise Violation('small-island', '{}: an island is below the '
                                'quorum, labels {}'.format(
                                    what, list(e.current_labels_)))
            if not fired and not isinstance(out.exc, ValueError):
                raise Violation('small-island', '{}: {!r}'.format(what, out))
            continue
        if not out.ok:
            if not fired:
                raise Violation('failed', '{}: {!r}'.format(what, out))
            sim.probe('failed_then_continued')
            continue
        n_warn = sum(issubclass(x.category, OptimizeWarning) for x in caught)
        n_warn -= len(R.comps) > 1
        lab, F = check_result(sim, R, e, op, n_warn > 0, nans, what)
        tr, tr_F = None, F
        if op.get('trace'):
            tr = getattr(e, '_trace', None)
        elif not nans:
            # the same request with a trace, on a fresh object
            e3 = build(env, spec)
            c3 = A.prepare(env, spec, dict(op, trace=True), w)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o3 = X.call(sim, e3, c3)
            if not o3.ok:
                raise Violation('failed', '{} with trace: {!r}'.format(what,
                                                                       o3))
            if ilabels(published(e3, 'current_labels_', what), what) != lab:
                raise Violation('trace-changes-result', '{}: {} with a trace '
                                '{}'.format(what, lab,
                                            list(e3.current_labels_)))
            tr, tr_F = getattr(e3, '_trace', None), \
                forest_of(published(e3, 'minimum_spanning_forest_', what))
        if tr is not None:
            m = check_trace(sim, R, tr, lab, tr_F, nans,
                            nans and at == 1 and not R.nodata, what)
            if m:
                sim.counts['nontrivial'] = 1
                sim.probe('traces_checked')
        sim.state((world_key(w), str(lab)))
        if o['query'] and not nans:
            query(sim, R, e, plan, o, w, lab, F, what)
