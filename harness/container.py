"""Harnesses over the graph container: histories of operations, exports, mark discipline."""
from itertools import combinations, permutations

import numpy as np

from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG

from harness.registry import Job
from harness.ref import *

Q = ('quick', 'thorough')
T = ('thorough',)


class RefGraph:
    """the abstract graph: an ordered list of nodes and a mark at either end of each edge"""

    def __init__(self):
        self.nodes = []
        self.e = {}

    def has(self, u):
        return u in self.nodes

    def connected(self, u, v):
        return (u, v) in self.e

    def add_node(self, u):
        if u not in self.nodes:
            self.nodes.append(u)

    def add_edge(self, u, v, mu, mv):
        self.e[(u, v)] = (mu, mv)
        self.e[(v, u)] = (mv, mu)

    def remove_edge(self, u, v):
        if (u, v) in self.e:
            del self.e[(u, v)]
            del self.e[(v, u)]

    def remove_node(self, u):
        for v in list(self.nodes):
            if (u, v) in self.e:
                del self.e[(u, v)]
                del self.e[(v, u)]
        self.nodes.remove(u)


def compare(ctx, g, r, uni):
    """every query of g answers as the abstract graph r"""
    ctx.check(list(g.nodes) == r.nodes, 'the node list is wrong')
    ctx.check(g.number_of_nodes() == len(r.nodes), 'the number of nodes is wrong')
    ne = 0
    for u, v in combinations(uni, 2):
        if r.connected(u, v):
            ne = ne + 1
    ctx.check(g.number_of_edges() == ne, 'the number of edges is wrong')
    for u in uni:
        if r.has(u):
            nb = list(g.get_neighbours(u))
            cnt = 0
            for v in uni:
                if u != v:
                    if r.has(v):
                        c = r.connected(u, v)
                        ctx.check(g.is_connected(u, v) == c, 'connectedness is wrong')
                        ctx.check((v in nb) == c, 'the neighbours are wrong')
                        ed = g.get_edge(u, v)
                        ctx.check((ed is not None) == c, 'an edge is reported for unconnected nodes or missing')
                        if c:
                            cnt = cnt + 1
                            mu, mv = r.e[(u, v)]
                            ctx.check(ed[0] == u and ed[1] == v and ed[2] == mu and ed[3] == mv, 'the reported edge has other ends or marks')
                            ctx.check(g.is_arrow(u, v) == (mv == Mark.Arrow), 'the arrow test is wrong')
                            ctx.check(g.is_tail(u, v) == (mv == Mark.Tail), 'the tail test is wrong')
                            ctx.check(g.is_circle(u, v) == (mv == Mark.Circle), 'the circle test is wrong')
                            ctx.check(g.is_fully_directed(u, v) == (mu == Mark.Tail and mv == Mark.Arrow), 'the directedness test is wrong')
                            ctx.check(g.is_fully_undirected(u, v) == (mu == Mark.Tail and mv == Mark.Tail), 'the undirectedness test is wrong')
                        else:
                            ctx.check(not (g.is_arrow(u, v) or g.is_tail(u, v) or g.is_circle(u, v) or g.is_fully_directed(u, v)
                                           or g.is_fully_undirected(u, v)), 'an absent edge has a mark')
            ctx.check(len(nb) == cnt, 'the neighbours are wrong')
    # the edge list: each connected pair once, in node order
    want = []
    for i in range(len(r.nodes)):
        for j in range(i + 1, len(r.nodes)):
            u, v = r.nodes[i], r.nodes[j]
            if r.connected(u, v):
                mu, mv = r.e[(u, v)]
                want.append((u, v, mu, mv))
    got = [(a, b, c, d) for a, b, c, d in g.edges]
    ctx.check(got == want, 'the edge list differs from the edges of the graph')


MK = [Mark.Tail, Mark.Arrow, Mark.Circle]
CODE = {'Tail': -1, 'Null': 0, 'Arrow': 1, 'Circle': 2}    # the documented numbers



def sym_state(ctx, cls, uni, mk=MK):
    """any state: any subset of the nodes present (in any order of insertion given by uni), any edges, any marks"""
    g = cls()
    r = RefGraph()
    for u in uni:
        if ctx.bool('n%s' % (u,)):
            g.add_node(u)
            r.add_node(u)
    for u, v in combinations(uni, 2):
        if r.has(u) and r.has(v):
            if ctx.bool('e%s_%s' % (u, v)):
                mu = ctx.choice('m%s_%s' % (u, v), mk)
                mv = ctx.choice('m%s_%s' % (v, u), mk)
                g.add_edge(Edge(u, v, mu, mv))
                r.add_edge(u, v, mu, mv)
    return g, r


def one_op(ctx, k, g, r, uni, ops):
    """an arbitrary operation on both; returns whether each of them rejected it"""
    op = ctx.choice('op%d' % k, ops)
    u = ctx.choice('u%d' % k, uni)
    v = ctx.choice('v%d' % k, uni)
    rej = False
    want = False
    if op == 'add_node':
        g.add_node(u)
        r.add_node(u)
    elif op == 'add_nodes':
        g.add_nodes([u, v])
        r.add_node(u)
        r.add_node(v)
    elif op == 'remove_node':
        want = not r.has(u)
        try:
            g.remove_node(u)
        except AssertionError:
            rej = True
        if r.has(u):
            r.remove_node(u)
    elif op == 'remove_nodes_from':
        ctx.assume(u != v)
        ctx.assume(r.has(u))
        ctx.assume(r.has(v))
        g.remove_nodes_from([u, v])
        r.remove_node(u)
        r.remove_node(v)
    elif op == 'remove_edge':
        ctx.assume(u != v)
        want = not (r.has(u) and r.has(v))
        try:
            g.remove_edge(u, v)
        except AssertionError:
            rej = True
        if not want:
            r.remove_edge(u, v)
    elif op == 'add_edge':
        ctx.assume(u != v)
        mu = ctx.choice('mu%d' % k, MK)
        mv = ctx.choice('mv%d' % k, MK)
        ow = ctx.choice('ow%d' % k, [False, True, None])    # None: not given, which means False
        want = not (r.has(u) and r.has(v)) or (not ow and r.connected(u, v))
        try:
            if ow is None:
                g.add_edge(Edge(u, v, mu, mv))
            else:
                g.add_edge(Edge(u, v, mu, mv), overwrite=ow)
        except AssertionError:
            rej = True
        if not want:
            r.add_edge(u, v, mu, mv)
        ctx.cover('overwritten', ow is not None and ow and not want)
    else:
        # add_edges with two edges at u
        w = ctx.choice('w%d' % k, uni)
        ctx.assume(u != v and u != w and v != w)
        ctx.assume(r.has(u) and r.has(v) and r.has(w))
        ow = ctx.choice('ow%d' % k, [False, True, None])
        c1 = not ow and r.connected(u, v)
        c2 = not ow and r.connected(w, u)
        want = c1 or c2
        two = [Edge(u, v), Edge(w, u, Mark.Circle, Mark.Arrow)]
        try:
            if ow is None:
                g.add_edges(two)
            else:
                g.add_edges(two, overwrite=ow)
        except AssertionError:
            rej = True
        if not c1:
            r.add_edge(u, v, Mark.Tail, Mark.Arrow)
            if not c2:
                r.add_edge(w, u, Mark.Circle, Mark.Arrow)
    ctx.check(rej == want, 'an operation is rejected or accepted wrongly')
    ctx.cover('rejected', rej)
    ctx.cover('accepted', not_(rej))


def history(ctx, uni, nops, ops, init):
    if init:
        g, r = sym_state(ctx, Graph, uni)
    else:
        g, r = Graph(), RefGraph()
    for k in range(nops):
        one_op(ctx, k, g, r, uni, ops)
    compare(ctx, g, r, uni)
    ctx.observe('nodes', list(g.nodes))


# ---------------------------------------------------------------- C02 exports
def export(ctx, names, cls, mk, df):
    n = len(names)
    for nm, mark in (('Tail', Mark.Tail), ('Null', Mark.Null), ('Arrow', Mark.Arrow), ('Circle', Mark.Circle)):
        ctx.check(int(mark) == CODE[nm] and mark.name == nm, 'a mark has another number or name than documented')
    g = cls(names)
    M = [[0] * n for _ in range(n)]
    for i, j in combinations(range(n), 2):
        if ctx.bool('e%d_%d' % (i, j)):
            mi = ctx.choice('m%d_%d' % (i, j), mk)
            mj = ctx.choice('m%d_%d' % (j, i), mk)
            if ctx.bool('o%d_%d' % (i, j)):
                g.add_edge(Edge(names[i], names[j], mi, mj))
            else:
                g.add_edge(Edge(names[j], names[i], mj, mi))
            M[i][j] = mi    # mark at i
            M[j][i] = mj    # mark at j
    m = g.to_numpy()
    mt = g.to_numpy(transpose=True)
    ctx.check(m.shape == (n, n), 'the matrix has another shape')
    for i in range(n):
        for j in range(n):
            # column = one end, row = the other; the entry is the mark at the row's end
            ctx.check(m[i, j] == int(M[i][j]), 'a matrix entry is not the mark at that end')
            ctx.check(mt[j, i] == int(M[i][j]), 'the transposed export is not the transpose')
    if df:
        d = g.to_dataframe()
        ctx.check(list(d.index) == list(names) and list(d.columns) == list(names), 'the frame is labelled with other names')
        for i in range(n):
            for j in range(n):
                ctx.check(d.iloc[i, j] == int(M[i][j]), 'a frame entry is not the mark at that end')
    h = cls(list(g.nodes))
    h.add_edges(g.edges)
    m2 = h.to_numpy()
    for i in range(n):
        for j in range(n):
            ctx.check(m2[i, j] == m[i, j], 'rebuilding the graph from its edge list changes it')
    ctx.cover('edge', m[0, 1] != 0)
    ctx.observe('m', m)


def label(ctx, names):
    """the text form names each edge once, with its marks"""
    n = len(names)
    g = Graph(names)
    left = {Mark.Tail: '-', Mark.Arrow: '<', Mark.Circle: 'o'}
    right = {Mark.Tail: '-', Mark.Arrow: '>', Mark.Circle: 'o'}
    lines = []
    for i, j in combinations(range(n), 2):
        if ctx.bool('e%d_%d' % (i, j)):
            mi = ctx.choice('m%d_%d' % (i, j), MK)
            mj = ctx.choice('m%d_%d' % (j, i), MK)
            g.add_edge(Edge(names[i], names[j], mi, mj))
            lines.append('%d. %s %s-%s %s' % (len(lines) + 1, names[i], left[mi], right[mj], names[j]))
    txt = str(g)
    ctx.check(txt == 'Graph Class: Graph\nGraph Nodes:\n' + ', '.join(str(v) for v in names) + '\nGraph Edges:\n' + '\n'.join(lines),
              'the text form does not show the edges of the graph')
    ctx.cover('two edges', len(lines) == 2)


# ---------------------------------------------------------------- C03 mark discipline
ALLM = [Mark.Tail, Mark.Null, Mark.Arrow, Mark.Circle]


def discipline(ctx, kind, names):
    """an edge that a graph class does not allow is rejected and leaves the graph as it was"""
    cls = DiGraph if kind == 'DiGraph' else PDAG
    n = len(names)
    g = cls(names)
    for i, j in combinations(range(n), 2):
        if ctx.bool('e%d_%d' % (i, j)):
            if kind == 'PDAG' and ctx.bool('t%d_%d' % (i, j)):
                g.add_edge(Edge(names[i], names[j], Mark.Tail, Mark.Tail))
            elif ctx.bool('d%d_%d' % (i, j)):
                g.add_edge(Edge(names[i], names[j], Mark.Tail, Mark.Arrow))
            else:
                g.add_edge(Edge(names[j], names[i], Mark.Tail, Mark.Arrow))
    before = g.to_numpy()
    u = ctx.choice('u', names)
    v = ctx.choice('v', names + ['missing'])
    ctx.assume(u != v)
    mu = ctx.choice('mu', ALLM)
    mv = ctx.choice('mv', ALLM)
    ow = ctx.choice('ow', [False, True, None])    # None: not given, which means False
    many = ctx.bool('many')
    if kind == 'DiGraph':
        ok = mu == Mark.Tail and mv == Mark.Arrow
    else:
        ok = mu in [Mark.Tail, Mark.Arrow] and mv in [Mark.Tail, Mark.Arrow]
    conn = v != 'missing' and g.is_connected(u, v)
    want = ok and v != 'missing' and (ow or not conn)
    rej = False
    try:
        if many and ow is None:
            g.add_edges([Edge(u, v, mu, mv)])
        elif many:
            g.add_edges([Edge(u, v, mu, mv)], overwrite=ow)
        elif ow is None:
            g.add_edge(Edge(u, v, mu, mv))
        else:
            g.add_edge(Edge(u, v, mu, mv), overwrite=ow)
    except AssertionError:
        rej = True
    ctx.check(rej == (not want), 'a graph accepts marks or edges it must not have, or rejects valid ones')
    after = g.to_numpy()
    ctx.check(list(g.nodes) == names, 'a rejected edge changes the nodes')
    for i in range(n):
        for j in range(n):
            if rej:
                ctx.check(after[i, j] == before[i, j], 'a rejected edge changes the graph')
            else:
                iu = names.index(u)
                iv = names.index(v)
                w = mu if (i == iu and j == iv) else mv if (i == iv and j == iu) else before[i, j]
                ctx.check(after[i, j] == w, 'an added edge changes something else')
    ctx.cover('rejected', rej)
    ctx.cover('accepted', not_(rej))


def plain(ctx, names):
    """an edge given without marks points from its first to its second node, in every class of graph"""
    cls = ctx.choice('cls', [Graph, DiGraph, PDAG])
    g = cls(names)
    m = [[0] * len(names) for _ in names]
    for i, j in combinations(range(len(names)), 2):
        if ctx.bool('e%d_%d' % (i, j)):
            a, b = (i, j) if ctx.bool('d%d_%d' % (i, j)) else (j, i)
            g.add_edge(Edge(names[a], names[b]))
            m[a][b], m[b][a] = -1, 1
            ctx.check(g.is_fully_directed(names[a], names[b]), 'an edge without marks is not directed')
            ctx.check(not g.is_fully_directed(names[b], names[a]), 'an edge is directed both ways')
    out = g.to_numpy()
    for i in range(len(names)):
        for j in range(len(names)):
            ctx.check(out[i, j] == m[i][j], 'an edge without marks is not a tail and an arrow')
    ctx.cover('an edge', g.number_of_edges() > 0)


def complete(ctx, nmax):
    """the complete undirected graph on any number of nodes"""
    n = ctx.int('n', 0, nmax)
    names = ['v%d' % i for i in range(n)]
    g = PDAG(names)
    g.create_complete_undirected_graph()
    ctx.check(g.number_of_edges() == n * (n - 1) // 2, 'the complete graph misses edges')
    for u, v in permutations(names, 2):
        ctx.check(g.is_fully_undirected(u, v), 'the complete graph has a directed or missing edge')
    ctx.cover('more than two', n > 2)


OPS = ['add_node', 'add_edge', 'remove_edge', 'remove_node', 'add_nodes', 'remove_nodes_from', 'add_edges']

JOBS = {
    'C01': [
        Job('state3_op1', history, (['b', 'a', 'c'], 1, OPS, True), covers=['rejected', 'accepted', 'overwritten'], cost=4,
            bounds='any graph on up to 3 nodes with any marks, one arbitrary operation', fallback=(['b', 'a'], 1, OPS, True)),
        Job('state3_op2', history, (['b', 'a', 'c'], 2, OPS[:4], True), covers=['rejected', 'accepted', 'overwritten'], cost=8,
            bounds='any graph on up to 3 nodes with any marks, two arbitrary operations', fallback=(['b', 'a'], 1, OPS, True)),
        Job('hist4', history, ([2, 0, 1], 4, OPS[:4], False), covers=['rejected', 'accepted', 'overwritten'], cost=8,
            bounds='any history of four operations from the empty graph over 3 nodes', fallback=([1, 0], 2, OPS, False)),
    ],
    'C02': [
        Job('export_graph4', export, (['b', 'd', 'a', 'c'], Graph, MK, False), covers=['edge'], cost=3, bounds='any graph on 4 nodes, any marks',
            fallback=(['b', 'a', 'c'], Graph, MK, False)),
        Job('export_pdag4', export, ([3, 1, 0, 2], PDAG, [Mark.Tail, Mark.Arrow], False), covers=['edge'], cost=3, bounds='any PDAG on 4 nodes',
            fallback=([2, 0, 1], PDAG, [Mark.Tail, Mark.Arrow], False)),
        Job('frame3', export, (['b', 'a', 'c'], Graph, [Mark.Tail, Mark.Arrow], True), engine='fork', covers=['edge'], cost=3,
            bounds='any graph on 3 nodes, tail and arrow marks; data frame export'),
        Job('label3', label, (['b', 'a', 'c'],), covers=['two edges'], cost=2, bounds='any graph on 3 nodes, any marks', fallback=(['b', 'a', 'c'],)),
    ],
    'C03': [
        Job('digraph3', discipline, ('DiGraph', ['b', 'a', 'c']), covers=['rejected', 'accepted'], cost=3, bounds='any digraph on 3 nodes, any edge, any marks', fallback=('DiGraph', ['b', 'a'])),
        Job('pdag3', discipline, ('PDAG', ['b', 'a', 'c']), covers=['rejected', 'accepted'], cost=3, bounds='any PDAG on 3 nodes, any edge, any marks', fallback=('PDAG', ['b', 'a'])),
        Job('plain3', plain, (['b', 'a', 'c'],), covers=['an edge'], bounds='any edges without marks on 3 nodes, every class of graph', fallback=(['b', 'a', 'c'],)),
        Job('complete6', complete, (6,), covers=['more than two'], bounds='0 to 6 nodes', fallback=(5,)),
    ],
}
