"""Generation of maps, and their delivery through every entry point."""
from .core import Prng


def gen_edges(p, n, kind=None):
    """A connected graph on 0..n-1."""
    if n == 1:
        return []
    kind = kind or p.weighted([('grid', 4), ('path', 2), ('tree', 2),
                               ('ring', 1), ('star', 1), ('random', 3),
                               ('ladder', 1), ('complete', .5),
                               ('barbell', 1)])
    E = set()
    if kind == 'grid':
        w = p.int(2, max(2, int(n ** .5) + 1))
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                E.add((i, i + 1))
            if i + w < n:
                E.add((i, i + w))
    elif kind == 'path':
        E = {(i, i + 1) for i in range(n - 1)}
    elif kind == 'ring':
        E = {(i, i + 1) for i in range(n - 1)}
        if n > 2:
            E.add((0, n - 1))
    elif kind == 'star':
        E = {(0, i) for i in range(1, n)}
    elif kind == 'complete':
        E = {(i, j) for i in range(n) for j in range(i + 1, n)}
    elif kind == 'ladder':
        h = n // 2
        for i in range(h - 1):
            E.add((i, i + 1))
            E.add((h + i, h + i + 1))
        for i in range(h):
            E.add((i, h + i))
        if n % 2:
            E.add((n - 2, n - 1))
    elif kind == 'barbell':
        h = n // 2
        for i in range(h):
            for j in range(i + 1, h):
                E.add((i, j))
        for i in range(h, n):
            for j in range(i + 1, n):
                E.add((i, j))
        E.add((h - 1, h) if h else (0, 1))
    else:
        for i in range(1, n):
            E.add((p.below(i), i))
        if kind == 'random':
            for _ in range(p.below(n + 1)):
                a, b = p.below(n), p.below(n)
                if a != b:
                    E.add((min(a, b), max(a, b)))
    return sorted(E)


def gen_attr(p, n, cols=None, kind=None):
    cols = cols or p.weighted([(1, 4), (2, 2), (3, .8), (6, .2)])
    kind = kind or p.weighted([('small', 4), ('const', 1), ('wide', 3),
                               ('two', 2), ('ramp', 1), ('neg', 1),
                               ('quarter', 1), ('offset', .4)])
    out = []
    for i in range(n):
        row = []
        for c in range(cols):
            if kind == 'small':
                v = p.below(5)
            elif kind == 'const':
                v = 3
            elif kind == 'wide':
                v = p.below(1000)
            elif kind == 'two':
                v = 10 * p.below(2)
            elif kind == 'ramp':
                v = i
            elif kind == 'quarter':
                v = p.below(60) / 4
            elif kind == 'offset':
                v = 2 ** 20 + p.below(6)
            else:
                v = p.below(41) - 20
            row.append(v)
        out.append(row)
    return out


def gen_world(p, nmin=2, nmax=9, comps=None, cols=None, attr=None,
              permute=True):
    """JSON-able world: n, edges, attr."""
    n = p.int(nmin, nmax)
    if comps is None:
        comps = p.weighted([(1, 6), (2, 2), (3, 1)])
    comps = min(comps, n)
    sizes = [1] * comps
    for _ in range(n - comps):
        sizes[p.below(comps)] += 1
    edges, base = [], 0
    for s in sizes:
        edges += [(a + base, b + base) for a, b in gen_edges(p, s)]
        base += s
    if permute and p.chance(.7):
        perm = p.shuffled(range(n))
        edges = sorted(tuple(sorted((perm[a], perm[b]))) for a, b in edges)
    return {'n': n, 'edges': [list(e) for e in edges],
            'attr': gen_attr(p, n, cols, attr)}


def gen_big_world(p, top=40, **kw):
    """A map larger than usual; for a small share of the runs."""
    return gen_world(p, 13, p.choice([20, top]), comps=p.weighted(
        [(1, 4), (2, 2), (4, 1), (11, 1)]), **kw)


def rescale(p, world, chance=.2):
    """Attributes of tiny or huge magnitude (an exact power of two)."""
    if p.chance(chance):
        unit = 2.0 ** p.choice([-60, -45, -33, 30, 40])
        world['unit'] = unit
        world['attr'] = [[v * unit for v in r] for r in world['attr']]
    return world


def gen_partition(p, n, nb, k):
    """A random partition into k connected regions, or None."""
    from .ref import components
    comps = components(n, nb)
    if not len(comps) <= k <= n:
        return None
    # spanning forest, then cut k - comps random links
    links = []
    for c in comps:
        seen = {p.choice(c)}
        while len(seen) < len(c):
            cand = [(a, b) for a in sorted(seen) for b in sorted(nb[a])
                    if b not in seen]
            a, b = p.choice(cand)
            seen.add(b)
            links.append((a, b))
    cut = set(p.sample(range(len(links)), k - len(comps)))
    keep = [set() for _ in range(n)]
    for i, (a, b) in enumerate(links):
        if i not in cut:
            keep[a].add(b)
            keep[b].add(a)
    lab = [0] * n
    order = components(n, keep)
    names = p.shuffled(range(len(order))) if p.chance(.5) else \
        list(range(len(order)))
    for r, areas in zip(names, order):
        for a in areas:
            lab[a] = r
    return lab


def restrict(world, drop):
    """The world without area `drop` (used by the shrinker)."""
    n = world['n']
    keep = [i for i in range(n) if i != drop]
    idx = {a: i for i, a in enumerate(keep)}
    w = dict(world)
    w['n'] = n - 1
    w['edges'] = [[idx[a], idx[b]] for a, b in world['edges']
                  if a != drop and b != drop]
    for key in ('attr', 'sp'):
        if key in world:
            w[key] = [world[key][i] for i in keep]
    return w


# --------------------------------------------------------------------------
# delivery formats
# --------------------------------------------------------------------------
def looped(n, loops):
    """Areas which are listed as their own neighbour."""
    if loops is None:
        return []
    p = Prng(loops)
    return [a for a in range(n) if p.chance(.5)]


def csr(world, dtype='float', unsorted=None, zeros=None, loops=None):
    """
    dtype 'weights', 'wild': positive weights, a different one in either direction;
    zeros: seed deciding which non-neighbours have a stored zero;
    loops: seed deciding which areas neighbour themselves.
    """
    import numpy as np
    from scipy.sparse import csr_matrix
    n = world['n']
    m = np.zeros((n, n), dtype={'int': int, 'bool': bool}.get(dtype, float))
    p = Prng(n)
    for a, b in world['edges']:
        m[a, b] = m[b, a] = 1
        if dtype == 'weights':
            m[a, b], m[b, a] = p.int(1, 8) / 8, p.int(1, 8) / 8
        elif dtype == 'wild':        # e.g. 1 / distance ** 3
            m[a, b] = 2.0 ** p.int(-60, 30)
            m[b, a] = m[a, b] * p.choice([1, 1, 4])
    for a in looped(n, loops):
        m[a, a] = 1
    add = []
    if zeros is not None:
        p = Prng(zeros)
        add = [(a, b) for a in range(n) for b in range(a)
               if not m[a, b] and p.chance(.4)]
    for a, b in add:
        m[a, b] = m[b, a] = 1
    m = csr_matrix(m)
    for a, b in add:
        m[a, b] = m[b, a] = 0       # removed links stay stored as zeros
    if unsorted is not None:        # column indices in no particular order
        p = Prng(unsorted)
        for i in range(n):
            a, b = m.indptr[i], m.indptr[i + 1]
            m.indices[a:b] = p.shuffled(m.indices[a:b].tolist())
        m.has_sorted_indices = False
    return m


class AreaId(str):
    """
    An area name whose hash is drawn from the simulator instead of the
    process-wide hash seed, so that set and dict iteration over area names is
    a simulated decision.
    """
    __slots__ = ('h',)

    def __new__(cls, s, salt=0):
        o = str.__new__(cls, s)
        from .core import stable_int
        o.h = stable_int((s, salt)) >> 3
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __ne__(self, other):
        return str.__ne__(self, other)

    def __reduce__(self):
        return (str, (str(self),))


def ids(world):
    """Area names in index order (sorted order == index order)."""
    kind = world.get('ids', 'int')
    n = world['n']
    if kind == 'int':
        return list(range(n))
    if kind == 'sparse_int':
        return [7 + 3 * i for i in range(n)]
    if kind == 'neg':
        return [i - n for i in range(n)]
    if kind == 'tuple':
        return [(i // 4, i % 4) for i in range(n)]
    if kind == 'float':
        return [i + .5 for i in range(n)]
    return [AreaId('a{:02d}'.format(i), world.get('salt', 0))
            for i in range(n)]


def neighbor_dict(world, p=None, cont='set', loops=None):
    """p: Prng deciding insertion orders; None = sorted."""
    from .ref import adj_list
    n = world['n']
    nb = adj_list(n, world['edges'])
    name = ids(world)
    order = p.shuffled(range(n)) if p else range(n)
    out = {}
    own = looped(n, loops)
    for i in order:
        ns = sorted(nb[i])
        if i in own:
            ns = sorted(ns + [i])
        if p:
            ns = p.shuffled(ns)
        kind = p.choice(['set', 'list', 'tuple', 'frozenset', 'duplist',
                         'keys']) if p and cont == 'any' else cont
        names = [name[j] for j in ns]
        if kind == 'set':
            v = set(names)
        elif kind == 'frozenset':
            v = frozenset(names)
        elif kind == 'tuple':
            v = tuple(names)
        elif kind == 'keys':
            v = dict.fromkeys(names)
        elif kind == 'duplist':
            v = names + [names[0]] if names else []
        else:
            v = names
        out[name[i]] = v
    return out


def value_dict(world, rows, p=None, scalar=False):
    name = ids(world)
    order = p.shuffled(range(world['n'])) if p else range(world['n'])
    return {name[i]: (rows[i][0] if scalar else list(rows[i]))
            for i in order}


def nx_graph(world, p=None, loops=None):
    import networkx as nx
    name = ids(world)
    g = nx.Graph()
    order = p.shuffled(range(world['n'])) if p else range(world['n'])
    g.add_nodes_from(name[i] for i in order)
    edges = [tuple(e) for e in world['edges']]
    edges += [(a, a) for a in looped(world['n'], loops)]
    if p:
        edges = [e if p.chance(.5) else e[::-1] for e in p.shuffled(edges)]
    g.add_edges_from((name[a], name[b]) for a, b in edges)
    return g


def w_obj(world, names=None, loops=None):
    """names: seed of area names in an order of their own (W.id_order)."""
    from libpysal import weights
    from .ref import adj_list
    nb = adj_list(world['n'], world['edges'])
    for a in looped(world['n'], loops):
        nb[a] = set(nb[a]) | {a}
    if names is not None:
        p = Prng(names)
        ids = p.shuffled('n%d' % i for i in range(world['n']))
        d = {ids[i]: [ids[j] for j in p.shuffled(sorted(nb[i]))]
             for i in p.shuffled(range(world['n']))}
        return weights.W(d, id_order=ids, silence_warnings=True)
    return weights.W({i: sorted(nb[i]) for i in range(world['n'])},
                     silence_warnings=True)


def is_grid(world):
    return 'grid' in world


def gen_grid_world(p, wmax=3, hmax=3, cols=None):
    w, h = p.int(1, wmax), p.int(2, hmax)
    n = w * h
    E = []
    queen = p.chance(.4)
    for i in range(n):
        if (i + 1) % w:
            E.append([i, i + 1])
        if i + w < n:
            E.append([i, i + w])
        if queen and (i + 1) % w and i + w < n:
            E.append([i, i + w + 1])
            E.append([i + 1, i + w])
    out = {'n': n, 'edges': E, 'attr': gen_attr(p, n, cols), 'grid': [w, h]}
    if queen:
        out['queen'] = p.choice(['queen', 'Queen'])
    if p.chance(.4):
        out['gdf_index'] = p.below(1000)
    return out


# neither in alphabetical order nor recognisable by a number
ACOLS = ['inc', 'age', 'zip', 'age2'] + ['q%d' % i for i in range(40, 0, -1)]
SCOLS = ['pop', 'hh', 'tax', 'car'] + ['r%d' % i for i in range(40, 0, -1)]


def narrow(a):
    """The smallest integer type for the values of an array."""
    import numpy as np
    for t in ('int8', 'uint8', 'int16', 'uint16', 'int32'):
        with np.errstate(all='ignore'):
            if (a.astype(t) == a).all():
                return t
    return a.dtype


def gdf(world, small=False):
    import geopandas
    import pandas as pd
    from shapely.geometry import Polygon
    w, h = world['grid']
    polys = []
    for i in range(world['n']):
        x, y = i % w, i // w
        polys.append(Polygon([(x, y), (x, y + 1), (x + 1, y + 1), (x + 1, y)]))
    cols = {ACOLS[c]: [r[c] for r in world['attr']]
            for c in range(len(world['attr'][0]))}
    for c in range(len(world['sp'][0]) if 'sp' in world else 0):
        cols[SCOLS[c]] = [r[c] for r in world['sp']]
    df = pd.DataFrame(cols)
    if small:
        df = df.astype({c: narrow(df[c].to_numpy()) for c in df})
    if 'gdf_index' in world:
        p = Prng(world['gdf_index'])
        idx = p.shuffled(range(world['n']))
        df.index = ['i%d' % i for i in idx] if p.chance(.5) else idx
        g = geopandas.GeoSeries(polys)
        g.index = df.index
        return geopandas.GeoDataFrame(df, geometry=g)
    return geopandas.GeoDataFrame(df, geometry=polys)
