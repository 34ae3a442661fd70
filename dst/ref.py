"""
Small executable reference model: graphs, partitions, objectives, optima.
Pure Python, exact on integer attributes; shares no code with the library.
"""
import itertools


def adj_list(n, edges):
    nb = [set() for _ in range(n)]
    for a, b in edges:
        nb[a].add(b)
        nb[b].add(a)
    return nb


def connected(nodes, nb):
    nodes = set(nodes)
    if not nodes:
        return False
    start = next(iter(nodes))
    seen = {start}
    todo = [start]
    while todo:
        x = todo.pop()
        for y in nb[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                todo.append(y)
    return len(seen) == len(nodes)


def components(n, nb):
    left = set(range(n))
    out = []
    while left:
        s = min(left)
        seen = {s}
        todo = [s]
        while todo:
            x = todo.pop()
            for y in nb[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out.append(sorted(seen))
        left -= seen
    return out


def groups(labels):
    g = {}
    for i, l in enumerate(labels):
        g.setdefault(l, []).append(i)
    return g


def canon(labels):
    """Partition up to renaming of regions."""
    m = {}
    return tuple(m.setdefault(l, len(m)) for l in labels)


def partition_error(labels, n, nb, p=None):
    """None if labels is a partition of n areas into p connected regions."""
    try:
        labels = [x for x in labels]
    except TypeError:
        return 'labels are not a sequence: {!r}'.format(labels)
    if len(labels) != n:
        return '{} labels for {} areas'.format(len(labels), n)
    for x in labels:
        try:
            f = float(x)
        except (TypeError, ValueError):
            return 'label {!r} is not a number'.format(x)
        if f != int(f) or f < 0:
            return 'label {!r} is not a region id'.format(x)
    g = groups([int(x) for x in labels])
    if p is not None and len(g) != p:
        return '{} regions instead of {}'.format(len(g), p)
    for r, areas in sorted(g.items()):
        if not connected(areas, nb):
            return 'region {} = {} is not connected'.format(r, areas)
    return None


def dist(a, b, metric='manhattan'):
    if metric == 'manhattan':
        return sum(abs(x - y) for x, y in zip(a, b))
    if metric == 'euclidean':
        return sum((x - y) ** 2 for x, y in zip(a, b)) ** .5
    if metric == 'cosine':
        na = sum(x * x for x in a) ** .5
        nb = sum(x * x for x in b) ** .5
        return 1 - sum(x * y for x, y in zip(a, b)) / (na * nb)
    if metric == 'sq':
        return sum((x - y) ** 2 for x, y in zip(a, b))
    raise ValueError(metric)


def pairwise(labels, attr, metric='manhattan'):
    tot = 0
    for areas in groups(labels).values():
        for i, j in itertools.combinations(areas, 2):
            tot += dist(attr[i], attr[j], metric)
    return tot


def _center(rows, kind):
    cols = list(zip(*rows))
    if kind == 'mean':
        return [sum(c) / len(c) for c in cols]
    if kind == 'median':
        out = []
        for c in cols:
            c = sorted(c)
            k = len(c)
            out.append(c[k // 2] if k % 2 else (c[k // 2 - 1] + c[k // 2]) / 2)
        return out
    if kind == 'min':
        return [min(c) for c in cols]
    if kind == 'max':
        return [max(c) for c in cols]
    raise ValueError(kind)


def _reduce(vals, kind):
    vals = list(vals)
    return {'sum': sum, 'max': max, 'mean': lambda v: sum(v) / len(v),
            'min': min}[kind](vals)


def center_obj(labels, attr, metric, center, reduction):
    per = []
    for _, areas in sorted(groups(labels).items()):
        rows = [attr[i] for i in areas]
        c = _center(rows, center)
        per.append(_reduce([dist(r, c, metric) for r in rows], reduction))
    return _reduce(per, reduction)


METRICS = {'sim': 'manhattan', None: 'manhattan', 'sim_sq': 'sq',
           'cityblock': 'manhattan', 'l1': 'manhattan', 'l2': 'euclidean'}


def objective(labels, attr, obj):
    """Reference value of the objective described by the plan entry obj."""
    metric = METRICS.get(obj.get('metric', 'sim'), obj.get('metric'))
    if obj['kind'] == 'pair':
        return pairwise(labels, attr, metric)
    return center_obj(labels, attr, metric, obj.get('center', 'mean'),
                      obj.get('reduction', 'sum'))


def legal_moves(labels, nb):
    """All single moves keeping donor non-empty and connected."""
    g = {r: set(a) for r, a in groups(labels).items()}
    for a, r in enumerate(labels):
        donor = g[r] - {a}
        if not donor or not connected(donor, nb):
            continue
        for t in sorted({labels[x] for x in nb[a]} - {r}):
            yield a, r, t


def all_partitions(n, nb, p=None, ok=None):
    """All partitions of 0..n-1 into connected regions (restricted growth)."""
    lab = [0] * n

    def rec(i, k):
        if i == n:
            if p is not None and k != p:
                return
            for areas in groups(lab).values():
                if not connected(areas, nb):
                    return
            yield tuple(lab)
            return
        if p is not None and k + (n - i) < p:
            return
        for r in range(k + 1 if (p is None or k < p) else k):
            lab[i] = r
            yield from rec(i + 1, max(k, r + 1))
    yield from rec(0, 0)


def best_p_regions(n, nb, attr, p, metric):
    best = None
    for lab in all_partitions(n, nb, p):
        v = pairwise(lab, attr, metric)
        if best is None or v < best:
            best = v
    return best


def region_sums(labels, sp):
    """Per region list of sums of every spatially extensive attribute."""
    out = {}
    for r, areas in groups(labels).items():
        out[r] = [sum(sp[i][c] for i in areas) for c in range(len(sp[0]))]
    return out


def meets_threshold(labels, sp, thr):
    return all(all(s >= t for s, t in zip(sums, thr))
               for sums in region_sums(labels, sp).values())


def best_max_p(n, nb, attr, sp, thr, metric):
    """(p, objective) of the optimum, or None when infeasible."""
    best = None
    for lab in all_partitions(n, nb):
        if not meets_threshold(lab, sp, thr):
            continue
        k = (-(max(lab) + 1), pairwise(lab, attr, metric))
        if best is None or k < best:
            best = k
    return None if best is None else (-best[0], best[1])
