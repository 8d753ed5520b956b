"""Harnesses over the drawing of graphs; matplotlib is replaced by a recorder of what is drawn."""
import math
from itertools import combinations, permutations

import numpy as np

from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
from cdmir.visual import circular_layout, plot_graph

import cdmir.visual.plot_graph
import sys
PG = sys.modules['cdmir.visual.plot_graph']

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)
MARKS = [Mark.Tail, Mark.Arrow, Mark.Circle]
NODES = ['b', 1, 'a10', 2.5, 'a9', 'L']


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


class Rec:
    """stands for matplotlib: remembers circles, arrows and texts"""

    def __init__(self, ctx):
        import matplotlib.patches as mp
        import matplotlib.pyplot as plt
        rec = self
        self.circles, self.arrows, self.texts, self.figs, self.added = [], [], [], [], []

        class Circle:
            def __init__(self, xy, radius=5, **kw):
                self.xy, self.radius, self.kw = tuple(xy), radius, kw
                rec.circles.append(self)

        class Arrow:
            def __init__(self, posA=None, posB=None, **kw):
                self.a, self.b, self.kw = tuple(posA), tuple(posB), kw
                rec.arrows.append(self)

        class Axes:
            def set_axis_off(self):
                pass

            def add_patch(self, p):
                rec.added.append(p)
                return p

            def text(self, x, y, s, **kw):
                rec.texts.append((x, y, s))

            def __getattr__(self, k):
                return lambda *a, **kw: None

        class Fig:
            def __init__(self, **kw):
                self.kw = kw
                rec.figs.append(self)

            def add_axes(self, *a, **k):
                return Axes()

        fig = lambda *a, figsize=None, dpi=None, **kw: Fig(figsize=figsize, dpi=dpi)
        for mod, name, new in ((mp, 'Circle', Circle), (mp, 'FancyArrowPatch', Arrow), (plt, 'figure', fig)):
            symnp.replace(ctx, getattr(mod, name), new)
            ctx.patch(mod, name, new)


def dictlayout(pos):
    return lambda g: {str(v): pos[str(v)] for v in g.nodes}


def edge(ctx, kind):
    """one edge drawn between two nodes anywhere"""
    symnp.install(ctx)
    rec = Rec(ctx)
    names = [NODES[k] for k in ctx.choice('names', [(0, 1), (1, 3), (3, 0)])]
    mu, mv = ctx.choice('mu', MARKS), ctx.choice('mv', MARKS)
    g = Graph(names)
    rev = ctx.bool('reversed')
    if rev:
        g.add_edge(Edge(names[1], names[0], mv, mu))
    else:
        g.add_edge(Edge(names[0], names[1], mu, mv))
    # unit direction from u to v by a rational parameter, any distance
    d = ctx.real('distance', 0.2, 2)
    if kind == 'any':
        t = ctx.real('t', -1, 1)
        q = 1 + t * t
        ux, uy = (1 - t * t) / q, 2 * t / q
        if ctx.bool('flip'):
            ux, uy = -ux, uy
    else:
        ux, uy = ctx.choice('dir', [(1, 0), (-1, 0), (0, 1), (0, -1)])
    x0, y0 = ctx.real('x', -1, 1), ctx.real('y', -1, 1)
    pos = {str(names[0]): (x0, y0), str(names[1]): (x0 + d * ux, y0 + d * uy)}
    r = ctx.choice('radius', [0.04, 0.0625])
    ratio = ctx.choice('ratio', [0.25, 0.5])
    if sym(ctx):
        for o in [o for o in {id(np.sqrt): np.sqrt, id(PG.sqrt): PG.sqrt}.values()]:
            symnp.replace(ctx, o, lambda v: sqrt_of(ctx, v, d))
    plot_graph(g, dictlayout(pos), node_radius=r, edge_circle_mark_ratio=ratio)
    c = r * ratio
    ctx.check(len(rec.arrows) == 1, 'an edge is not drawn once')
    a = rec.arrows[0]
    ctx.check(a in rec.added, 'an edge is not drawn')
    P, M = {}, {}
    want = []
    for s, (n, m) in enumerate(((names[0], mu), (names[1], mv))):
        px, py = pos[str(n)][0] + 0.5, pos[str(n)][1] + 0.5
        sg = 1 if s == 0 else -1
        off = r + (2 * c if m == Mark.Circle else 0)
        P[s] = (px + sg * off * ux, py + sg * off * uy)
        M[s] = m
        if m == Mark.Circle:
            want.append((px + sg * (r + c) * ux, py + sg * (r + c) * uy))
    o = [1, 0] if rev else [0, 1]
    ends = [a.a, a.b]
    style = a.kw['arrowstyle']
    ctx.check(style in ('-', '-|>', '<|-', '<|-|>'), 'an unknown style')
    heads = [style.startswith('<|'), style.endswith('|>')]
    # the arrow may be drawn from either end
    swap = not eqp(ctx, ends[0], P[o[0]])
    if swap:
        ends, heads = ends[::-1], heads[::-1]
    for k in range(2):
        ctx.close(ends[k][0], P[o[k]][0], 'an edge does not start at the rim of its node')
        ctx.close(ends[k][1], P[o[k]][1], 'an edge does not start at the rim of its node')
        ctx.check(heads[k] == (M[o[k]] == Mark.Arrow), 'an arrow head is drawn at the wrong end')
    ctx.check(a.kw.get('shrinkA') == 0 and a.kw.get('shrinkB') == 0, 'the edge is drawn shorter')
    small = [k for k in rec.circles if k.radius == c or abs(k.radius - c) < 1e-12]
    ctx.check(len(rec.circles) == 2 + len(want) and len(small) == len(want), 'a circle mark is missing or superfluous')
    # the marks may be drawn in either order
    if want and not eqp(ctx, small[0].xy, want[0]):
        want = want[::-1]
    for k, (wx, wy) in zip(small, want):
        ctx.check(k in rec.added, 'a circle mark is not drawn')
        ctx.close(k.xy[0], wx, 'a circle mark is not at the end of the edge')
        ctx.close(k.xy[1], wy, 'a circle mark is not at the end of the edge')
    ctx.cover('circle', mu == Mark.Circle)
    ctx.cover('reached', True)


def eqp(ctx, p, q):
    from vf.dse import ratdiff, SymReal
    for a, b in zip(p, q):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            if not isinstance(a, SymReal):
                a, b = b, a
            if ratdiff(a.e, a._o(b)):
                return False
        elif abs(a - b) > 1e-6:
            return False
    return True


def sqrt_of(ctx, v, d):
    """the square root of the squared distance is the distance"""
    from vf.dse import ratdiff, SymReal
    if isinstance(v, SymReal):
        e = d * d
        if not ratdiff(v.e, e.e):
            return d
        return v.sqrt()
    return np.sqrt(float(v))


def nodes(ctx, n):
    """every node is drawn once, at its place, with its name and kind; every edge of the graph once"""
    rec = Rec(ctx)
    ids = list(ctx.choice('order', list(permutations(NODES[:n]))))[:n]
    g = Graph(ids)
    E = []
    for i, j in combinations(range(n), 2):
        e = ctx.choice('e%d%d' % (i, j), [None, (Mark.Tail, Mark.Arrow), (Mark.Arrow, Mark.Tail), (Mark.Circle, Mark.Circle)])
        if e:
            g.add_edge(Edge(ids[i], ids[j], *e))
            E.append((i, j) + e)
    lat = [v for i, v in enumerate(ids) if ctx.bool('l%d' % i)]
    k = ctx.choice('kind', ['list', 'set', 'text', 'none'])
    if k == 'none':
        ctx.assume(not lat)
    arg = {'list': lat, 'set': set(lat), 'text': [str(v) for v in lat], 'none': None}[k]
    place = [(0.0, 0.0), (0.3, 0.1), (-0.2, 0.4), (0.1, -0.4)]
    pos = {str(v): place[i] for i, v in enumerate(ids)}
    before = (list(g.nodes), [tuple(e) for e in g.edges])
    fig = plot_graph(g, dictlayout(pos), is_latent=arg, dpi=77, figsize=(3, 3))
    ctx.check(len(rec.figs) == 1 and fig is rec.figs[0] and fig.kw == {'figsize': (3, 3), 'dpi': 77}, 'not the requested figure')
    ctx.check((list(g.nodes), [tuple(e) for e in g.edges]) == before, 'drawing changes the graph')
    big = [c for c in rec.circles if c.radius == 0.04]
    ctx.check(len(big) == n and len(rec.texts) == n, 'not one circle and text for every node')
    for i, v in enumerate(ids):
        x, y = place[i][0] + 0.5, place[i][1] + 0.5
        here = [c for c in big if abs(c.xy[0] - x) < 1e-9 and abs(c.xy[1] - y) < 1e-9 and c in rec.added]
        ctx.check(len(here) == 1, 'a node is not drawn once at its place')
        ctx.check((here[0].kw['facecolor'] == 'white') == (v in lat), 'an observed node is drawn as latent or the other way round')
        t = [s for a, b, s in rec.texts if abs(a - x) < 1e-9 and abs(b - y) < 1e-9]
        ctx.check(t == [str(v)], 'a node has another name')
    ctx.check(len(rec.arrows) == len(E), 'not every edge is drawn once')
    for i, j, a, b in E:
        f = 0
        for w in rec.arrows:
            da = (w.a[0] - 0.5 - place[i][0]) ** 2 + (w.a[1] - 0.5 - place[i][1]) ** 2
            db = (w.b[0] - 0.5 - place[j][0]) ** 2 + (w.b[1] - 0.5 - place[j][1]) ** 2
            if da < 0.09 ** 2 / 2 and db < 0.09 ** 2 / 2:
                h = (w.kw['arrowstyle'].startswith('<|'), w.kw['arrowstyle'].endswith('|>'))
                f += h == (a == Mark.Arrow, b == Mark.Arrow)
            da = (w.b[0] - 0.5 - place[i][0]) ** 2 + (w.b[1] - 0.5 - place[i][1]) ** 2
            db = (w.a[0] - 0.5 - place[j][0]) ** 2 + (w.a[1] - 0.5 - place[j][1]) ** 2
            if da < 0.09 ** 2 / 2 and db < 0.09 ** 2 / 2:
                h = (w.kw['arrowstyle'].endswith('|>'), w.kw['arrowstyle'].startswith('<|'))
                f += h == (a == Mark.Arrow, b == Mark.Arrow)
        ctx.check(f == 1, 'an edge is not drawn once with its arrow heads')
    ctx.cover('latent', len(lat) > 0)
    ctx.cover('edge', len(E) > 1)


def layout(ctx, n):
    """nodes evenly on a circle of the requested size, in order, clockwise from the top"""
    symnp.install(ctx)
    ids = list(ctx.choice('order', list(permutations(NODES[:n]))))
    g = ctx.choice('cls', [Graph, DiGraph, PDAG])(ids)
    sort = ctx.bool('sort')
    scale = ctx.real('scale', 0.1, 3)
    how = ctx.choice('how', ['default', 'keyword', 'positional'])
    if how == 'default':
        ctx.assume(not sort)
        L = circular_layout(g)
        scale = 0.45
    elif how == 'keyword':
        L = circular_layout(g, sort_node=sort, scale=scale)
    else:
        L = circular_layout(g, scale, sort)
    order = [str(v) for v in ids]
    if sort:
        order = sorted(order)
    ctx.check(len(L) == n and set(L) == set(order), 'not one place for every node')
    for k, v in enumerate(order):
        for c, f in ((0, math.sin), (1, math.cos)):
            e = L[v][c] - scale * f(2 * math.pi * k / n)
            ctx.check((e > -1e-9) & (e < 1e-9), 'a node is not at its place on the circle')
    ctx.cover('sorted', bool(sort))


V = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume', 'sqfact': False}
JOBS = {
    'C27': [
        Job('edge_axis', edge, ('axis',), engine='fork', covers=['circle', 'reached'], cost=2, bounds='one edge, every pair of marks, any place and distance along the axes', opts=V),
        Job('edge_any', edge, ('any',), engine='fork', covers=['circle', 'reached'], cost=3, bounds='one edge, every pair of marks, any place, distance and direction', opts=V),
        Job('nodes3', nodes, (3,), engine='fork', covers=['latent', 'edge'], cost=3, bounds='graphs on 3 nodes of mixed type, any latent set'),
        Job('layout1', layout, (1,), engine='fork', covers=['sorted'], bounds='1 node', opts=V),
        Job('layout4', layout, (4,), engine='fork', covers=['sorted'], cost=2, bounds='4 nodes in any order, any scale', opts=V),
        Job('layout5', layout, (5,), engine='fork', covers=['sorted'], tiers=T, cost=2, bounds='5 nodes in any order, any scale', opts=V),
    ],
}
