"""Harnesses over cdmir.graph."""
from itertools import combinations, permutations

import numpy as np

from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
from cdmir.graph.dag2cpdag import dag2cpdag
from cdmir.graph.pdag2dag import pdag2dag

from harness.registry import Job
from harness.ref import *


# ---------------------------------------------------------------- C04 d-separation
def d_separation(ctx, n, x, y, names, order=None, zkind='list'):
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order)
    Z = [False if i in (x, y) else ctx.bool('z%d' % i) for i in range(n)]
    g = build(DiGraph, nodes, A)
    z = [nodes[i] for i in range(n) if Z[i]]
    if zkind == 'set':
        z = set(z)
    elif zkind == 'tuple':
        z = tuple(z)
    got = g.is_d_separate(nodes[x], nodes[y], z)
    R = reach_matrix(n, A)
    want = dsep_spec(n, A, R, x, y, Z)
    ctx.check(got == want, 'd-separation answer differs from the path definition')
    ctx.check(g.is_d_separate(nodes[y], nodes[x], z) == got, 'd-separation is not symmetric')
    ctx.observe('dsep', got)
    ctx.cover('separated by a nonempty set', got & any_(Z))
    ctx.cover('connected given a nonempty set', not_(got) & any_(Z))


def reachable(ctx, n, x, names, order=None):
    """the nodes reported reachable are exactly the d-connected ones"""
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order)
    Z = [False if i == x else ctx.bool('z%d' % i) for i in range(n)]
    g = build(DiGraph, nodes, A)
    z = [nodes[i] for i in range(n) if Z[i]]
    got = set(g.get_reachable_nodes(nodes[x], z))
    R = reach_matrix(n, A)
    for y in range(n):
        if y == x:
            ctx.check(nodes[y] in got, 'a node is not reachable from itself')
        else:
            want = not_(dsep_spec(n, A, R, x, y, Z)) & not_(Z[y])
            ctx.check((nodes[y] in got) == want, 'reachable set differs from the d-connected nodes')
    ctx.observe('reach', [v in got for v in nodes])
    ctx.cover('some node is blocked', any_(not_(Z[i]) & (nodes[i] not in got) & any_(A[x][j] for j in range(n)) for i in range(n)))


# ---------------------------------------------------------------- C05 order, acyclicity, neighbourhoods
def topo(ctx, n, names):
    nodes = list(range(n)) if names is None else list(names)
    A = sym_digraph(ctx, n)
    g = build(DiGraph, nodes, A)
    ac = acyclic_cond(n, A)
    ctx.check(g.is_acyclic() == ac, 'acyclicity verdict is wrong')
    order = g.topo_sort()
    pos = [[(order[k] == v) if k < len(order) else False for k in range(n)] for v in nodes]
    for v in range(n):
        ctx.check(not_(ac) | any_(pos[v]), 'topological order misses a node of an acyclic graph')
        ctx.check(all_(not_(pos[v][a] & pos[v][b]) for a in range(n) for b in range(a)), 'topological order repeats a node')
    for i in range(n):
        for j in range(n):
            if i != j:
                back = any_(pos[j][a] & pos[i][b] for b in range(n) for a in range(b))
                ctx.check(not_(A[i][j] & back), 'topological order puts a child before its parent')
    ctx.observe('order', order)
    ctx.cover('cyclic', not_(ac))
    ctx.cover('acyclic with edges', ac & any_(any_(r) for r in A))


def degrees(ctx, n, names):
    nodes = list(range(n)) if names is None else list(names)
    A = sym_digraph(ctx, n)
    g = build(DiGraph, nodes, A)
    for i in range(n):
        pa = list(g.get_parents(nodes[i]))
        ch = list(g.get_children(nodes[i]))
        ne = list(g.get_neighbours(nodes[i]))
        for j in range(n):
            pj = A[j][i] if j != i else False
            cj = A[i][j] if j != i else False
            ctx.check((nodes[j] in pa) == pj, 'parents differ from the edges')
            ctx.check((nodes[j] in ch) == cj, 'children differ from the edges')
            ctx.check((nodes[j] in ne) == (pj | cj), 'neighbours differ from the edges')
        ctx.check(g.in_degree(nodes[i]) == len(pa), 'in-degree is not the number of parents')
        ctx.check(g.out_degree(nodes[i]) == len(ch), 'out-degree is not the number of children')
        ctx.check(len(pa) + len(ch) == len(ne), 'a neighbour is listed twice')
        ctx.observe('ne%d' % i, ne)
    ctx.cover('node with two parents', A[1][0] & A[2][0])


# ---------------------------------------------------------------- C07 rule 0
def rule0_dag(ctx, n, names, order=None):
    """skeleton and separating sets of a DAG: exactly its unshielded colliders are oriented"""
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order)
    R = reach_matrix(n, A)
    S = [[A[i][j] | A[j][i] for j in range(n)] for i in range(n)]
    g = PDAG(nodes)
    sep = {}
    for i, j in combinations(range(n), 2):
        if S[i][j]:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Tail))
        else:
            # any separating set
            Z = [ctx.bool('s%d_%d_%d' % (i, j, k)) if k not in (i, j) else False for k in range(n)]
            ctx.assume(dsep_spec(n, A, R, i, j, Z))
            z = set(nodes[k] for k in range(n) if Z[k])
            sep[(nodes[i], nodes[j])] = z
            sep[(nodes[j], nodes[i])] = z
    g.rule0(sep)
    V = vstruct_edges(n, A)
    for i in range(n):
        for j in range(i + 1, n):
            ctx.check(g.is_connected(nodes[i], nodes[j]) == S[i][j], 'collider orientation changes the skeleton')
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.check(g.is_fully_directed(nodes[i], nodes[j]) == V[i][j], 'oriented edges are not exactly the unshielded colliders')
    for i, j in combinations(range(n), 2):
        ctx.check(g.is_fully_undirected(nodes[i], nodes[j]) == (S[i][j] & not_(V[i][j]) & not_(V[j][i])),
                  'an edge outside every collider is not undirected')
    ctx.observe('m', marks(g, nodes))
    ctx.cover('collider', any_(any_(r) for r in V))
    ctx.cover('non-collider triple', S[0][1] & S[1][2] & not_(S[0][2]) & not_(A[0][1] & A[2][1]))


def rule0_any(ctx, n):
    """any skeleton and any separating sets: edges are kept and arrowheads only come from a collider the sets ask for"""
    nodes = list(range(n))
    S = [[False] * n for _ in range(n)]
    g = PDAG(nodes)
    sep = {}
    Z = {}
    for i, j in combinations(range(n), 2):
        s = ctx.bool('s%d_%d' % (i, j))
        S[i][j] = S[j][i] = s
        if s:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Tail))
        zz = [ctx.bool('z%d_%d_%d' % (i, j, k)) if k not in (i, j) else False for k in range(n)]
        Z[i, j] = Z[j, i] = zz
        z = set(nodes[k] for k in range(n) if zz[k])
        sep[(i, j)] = z
        sep[(j, i)] = z
    g.rule0(sep)
    for u in range(n):
        for w in range(n):
            if u == w:
                continue
            asked = any_(not_(S[u][v]) & S[u][w] & S[v][w] & not_(Z[u, v][w]) for v in range(n) if v not in (u, w))
            back = any_(not_(S[w][v]) & S[w][u] & S[v][u] & not_(Z[w, v][u]) for v in range(n) if v not in (u, w))
            d = g.is_fully_directed(u, w)
            ctx.check(g.is_connected(u, w) == S[u][w], 'collider orientation changes the skeleton')
            ctx.check(not_(d) | asked, 'arrowhead without a collider')
            ctx.check(not_(asked) | d | back, 'an uncontested collider is not oriented')
            ctx.check(not_(S[u][w]) | d | g.is_fully_directed(w, u) | g.is_fully_undirected(u, w), 'edge with invalid marks')
            ctx.cover('oriented', d)
            ctx.cover('contested', asked & back)


# ---------------------------------------------------------------- C08 Meek rules
def pattern_bk(ctx, n, A, nodes, bk):
    """PDAG: skeleton of A, its unshielded colliders, and any further edges of A oriented (background knowledge)"""
    V = vstruct_edges(n, A)
    g = PDAG(nodes)
    B = [[False] * n for _ in range(n)]
    for i, j in combinations(range(n), 2):
        b = ctx.bool('b%d_%d' % (i, j)) if bk else False
        B[i][j] = A[i][j] & (V[i][j] | b)
        B[j][i] = A[j][i] & (V[j][i] | b)
        if B[i][j]:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Arrow))
        elif B[j][i]:
            g.add_edge(Edge(nodes[j], nodes[i], Mark.Tail, Mark.Arrow))
        elif A[i][j] | A[j][i]:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Tail))
    return g, B


def check_maximal(ctx, n, A, B, g, nodes, complete):
    """g orients exactly what every DAG with A's skeleton, A's colliders and the orientations B shares"""
    for i in range(n):
        for j in range(n):
            if i != j:
                d = g.is_fully_directed(nodes[i], nodes[j])
                ctx.check(not_(d) | A[i][j], 'an edge is oriented against a DAG that fits the input')
                ctx.check(not_(B[i][j]) | d, 'a given orientation is lost')
    for i, j in combinations(range(n), 2):
        u = g.is_fully_undirected(nodes[i], nodes[j])
        ctx.check(g.is_connected(nodes[i], nodes[j]) == (A[i][j] | A[j][i]), 'the skeleton changes')
        ctx.check(not_(A[i][j] | A[j][i]) | u | g.is_fully_directed(nodes[i], nodes[j]) | g.is_fully_directed(nodes[j], nodes[i]),
                  'edge with invalid marks')
        if complete == 'enum':
            ctx.check(not_(u) | exists_reversed(n, A, B, i, j), 'an edge with only one possible direction stays undirected')
        ctx.cover('undirected edge left', u)
    if complete == 'ref':
        M = meek_ref(n, A, B)
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.check(not_(M[i][j]) | g.is_fully_directed(nodes[i], nodes[j]), 'an edge with only one possible direction stays undirected')


def meek(ctx, n, names, bk, complete, order=None, fixed=None):
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order, fixed=fixed)
    g, B = pattern_bk(ctx, n, A, nodes, bk)
    g.orient_by_meek_rules()
    check_maximal(ctx, n, A, B, g, nodes, complete)
    new = any_(not_(B[i][j]) & g.is_fully_directed(nodes[i], nodes[j]) for i in range(n) for j in range(n) if i != j)
    ctx.cover('new orientation', new)
    ctx.observe('m', marks(g, nodes))


def ref_meek_ok(ctx, n):
    """cross-check of the reference closure against the definition (all DAGs of the class)"""
    A = sym_dag(ctx, n)
    V = vstruct_edges(n, A)
    B = [[False] * n for _ in range(n)]
    for i, j in combinations(range(n), 2):
        b = ctx.bool('b%d_%d' % (i, j))
        B[i][j] = A[i][j] & (V[i][j] | b)
        B[j][i] = A[j][i] & (V[j][i] | b)
    M = meek_ref(n, A, B)
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.check(M[i][j] == (A[i][j] & not_(exists_reversed(n, A, B, i, j))), 'reference closure is wrong')
    ctx.cover('oriented', any_(M[i][j] & not_(B[i][j]) for i in range(n) for j in range(n)))


# ---------------------------------------------------------------- C09 CPDAG of a DAG
class OracleDiGraph(DiGraph):
    """a DiGraph whose separation answers are the definition's (C04 shows the code agrees with it)"""

    def set_spec(self, n, A, R):
        self.spec = (n, A, R)

    def is_d_separate(self, x, y, z=()):
        n, A, R = self.spec
        z = set(z)
        Z = [self.node_list[i] in z for i in range(n)]
        return dsep_spec(n, A, R, self.node_list.index(x), self.node_list.index(y), Z)


def cpdag(ctx, n, names, complete, oracle, order=None):
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order)
    g = build(OracleDiGraph if oracle else DiGraph, nodes, A)
    if oracle:
        g.set_spec(n, A, reach_matrix(n, A))
    before = marks(g, nodes)
    p = dag2cpdag(g)
    ctx.check(list(p.nodes) == nodes, 'the CPDAG has other nodes or another node order')
    ctx.check(marks(g, nodes) == before, 'the DAG given as input is changed')
    V = vstruct_edges(n, A)
    check_maximal(ctx, n, A, V, p, nodes, complete)
    ctx.cover('v-structure', any_(any_(r) for r in V))
    ctx.observe('m', marks(p, nodes))


# ---------------------------------------------------------------- C10 consistent extension
def extend_ok(ctx, n, names, order=None, fixed=None):
    """extendable PDAG (by construction): the result is an extension of it"""
    nodes = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order, fixed=fixed)
    g, B = pattern_bk(ctx, n, A, nodes, True)
    before = marks(g, nodes)
    d = pdag2dag(g)
    ctx.check(marks(g, nodes) == before, 'the PDAG given as input is changed')
    ctx.check(list(d.nodes) == nodes, 'the extension has other nodes')
    D = [[d.is_fully_directed(nodes[i], nodes[j]) if i != j else False for j in range(n)] for i in range(n)]
    ctx.check(acyclic_cond(n, D), 'the extension has a cycle')
    ctx.check(d.is_acyclic(), 'the extension has a cycle')
    V, W = vstruct_edges(n, A), vstruct_edges(n, D)
    for i, j in combinations(range(n), 2):
        ctx.check(d.is_connected(nodes[i], nodes[j]) == (A[i][j] | A[j][i]), 'the extension has another skeleton')
        ctx.check((D[i][j] | D[j][i]) == (A[i][j] | A[j][i]), 'the extension leaves an edge undirected')
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.check(not_(B[i][j]) | D[i][j], 'the extension turns a directed edge')
                ctx.check(V[i][j] == W[i][j], 'the extension has other v-structures')
    ctx.cover('undirected edge extended', any_(D[i][j] & not_(B[i][j]) for i in range(n) for j in range(n)))
    ctx.cover('extension differs from the generating DAG', any_(D[i][j] & A[j][i] for i in range(n) for j in range(n)))
    ctx.observe('d', marks(d, nodes))


def extend_any(ctx, n, names):
    """any PDAG: an extension when there is one, an error when there is none"""
    nodes = list(range(n)) if names is None else list(names)
    g = PDAG(nodes)
    B = [[False] * n for _ in range(n)]
    S = [[False] * n for _ in range(n)]
    for i, j in combinations(range(n), 2):
        s = ctx.bool('s%d_%d' % (i, j))
        f = ctx.bool('f%d_%d' % (i, j))
        b = ctx.bool('b%d_%d' % (i, j))
        S[i][j] = S[j][i] = s
        B[i][j] = s & f
        B[j][i] = s & b & not_(f)
        if B[i][j]:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Arrow))
        elif B[j][i]:
            g.add_edge(Edge(nodes[j], nodes[i], Mark.Tail, Mark.Arrow))
        elif s:
            g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Tail))
    exists = False
    for D in ALL_DAGS[n]:
        exists = exists | is_extension(n, S, B, D)
    try:
        d = pdag2dag(g)
    except ValueError:
        d = None
    if d is None:
        ctx.check(not_(exists), 'a PDAG with a consistent extension is rejected')
    else:
        M = [[d.is_fully_directed(nodes[i], nodes[j]) if i != j else False for j in range(n)] for i in range(n)]
        ctx.check(exists, 'a PDAG without a consistent extension is given one')
        ctx.check(acyclic_cond(n, M) & is_extension(n, S, B, M), 'the result is not a consistent extension')
        ctx.cover('extended', exists)
    ctx.cover('no extension', not_(exists))


N3 = ['c', 'a', 'b']
N4 = ['b', 'd', 'a', 'c']
SEP = ['separated by a nonempty set', 'connected given a nonempty set']
Q = ('quick', 'thorough')
T = ('thorough',)


def _pairs(n):
    return list(combinations(range(n), 2))


JOBS = {
    'C04': [
        Job('dsep4_%d%d' % (x, y), d_separation, (4, x, y, N4 if x else None, None, ('list', 'set', 'tuple')[(x + y) % 3]), covers=SEP,
            tiers=Q if (x, y) in ((0, 1), (1, 3), (2, 3)) else T, cost=3,
            bounds='every DAG on 4 nodes, every conditioning subset', fallback=(3, 0, 1, None))
        for x, y in _pairs(4)
    ] + [
        Job('reach4_%d' % x, reachable, (4, x, None), covers=['some node is blocked'], tiers=Q if x in (1,) else T, cost=4,
            bounds='every DAG on 4 nodes, every conditioning subset', fallback=(3, 0, None)) for x in range(4)
    ] + [
        Job('dsep5_%d%d_%d' % (x, y, k), d_separation, (5, x, y, None, o), covers=SEP, cost=4,
            tiers=Q if (x, y, k) in ((0, 1, 0), (0, 4, 0), (1, 3, 0), (2, 4, 1), (0, 3, 1), (3, 4, 1)) else T,
            bounds='every DAG on 5 nodes that respects node order %s, every conditioning subset' % (o,), fallback=(3, 0, 1, None))
        for x, y in _pairs(5) for k, o in enumerate(([0, 1, 2, 3, 4], [4, 1, 3, 0, 2]))
    ],
    'C05': [
        Job('topo4', topo, (4, N4), covers=['cyclic', 'acyclic with edges'], cost=2,
            bounds='every directed graph on 4 nodes, cyclic ones included', fallback=(3, N3)),
        Job('degrees4', degrees, (4, N4), covers=['node with two parents'], bounds='every directed graph on 4 nodes', fallback=(3, N3)),
        Job('topo5', topo, (5, None), covers=['cyclic', 'acyclic with edges'], cost=5,
            bounds='every directed graph on 5 nodes, cyclic ones included', fallback=(3, N3)),
        Job('degrees5', degrees, (5, None), covers=['node with two parents'], tiers=Q, bounds='every directed graph on 5 nodes', fallback=(3, N3)),
    ],
    'C07': [
        Job('rule0_dag4', rule0_dag, (4, N4), covers=['collider', 'non-collider triple'], cost=3,
            bounds='every DAG on 4 nodes, every separating set of every non-adjacent pair', fallback=(3, N3)),
        Job('rule0_any4', rule0_any, (4,), covers=['oriented', 'contested'], cost=2, bounds='every skeleton on 4 nodes, every assignment of separating sets', fallback=(3,)),
        Job('rule0_dag5', rule0_dag, (5, None), covers=['collider', 'non-collider triple'], cost=3,
            bounds='every DAG on 5 nodes, every separating set', fallback=(3, N3)),
        Job('rule0_dag6', rule0_dag, (6, None), covers=['collider', 'non-collider triple'], cost=4,
            bounds='every DAG on 6 nodes, every separating set', fallback=(3, N3)),
    ],
    'C08': [
        Job('meek4', meek, (4, N4, False, 'enum'), covers=['undirected edge left', 'new orientation'], cost=3,
            bounds='the pattern of every DAG on 4 nodes', fallback=(3, N3, False, 'enum')),
        Job('meek4_bk', meek, (4, N4, True, 'enum'), covers=['undirected edge left', 'new orientation'], cost=4,
            bounds='the pattern of every DAG on 4 nodes with every set of additional orientations taken from it', fallback=(3, N3, True, 'enum')),
        Job('ref4', ref_meek_ok, (4,), covers=['oriented'], bounds='reference closure against the definition, every DAG on 4 nodes'),
        Job('meek5', meek, (5, None, False, 'ref', [2, 0, 4, 1, 3]), covers=['undirected edge left', 'new orientation'], cost=5,
            bounds='the pattern of every DAG on 5 nodes that respects one node order', fallback=(3, N3, False, 'enum')),
        Job('meek5_bk1', meek, (5, None, True, 'ref', [2, 0, 4, 1, 3], {(0, 3): False, (0, 4): False}), covers=['undirected edge left', 'new orientation'], cost=6,
            bounds='DAGs on 5 nodes of one order without two edges, with every set of additional orientations', fallback=(3, N3, True, 'enum')),
        Job('meek5_bk2', meek, (5, None, True, 'ref', [1, 4, 2, 0, 3], {(1, 3): False, (1, 4): False, (0, 1): True}), covers=['undirected edge left', 'new orientation'], cost=6,
            bounds='DAGs on 5 nodes of one order without two edges, with every set of additional orientations', fallback=(3, N3, True, 'enum')),
        Job('meek5_bk', meek, (5, None, True, 'ref', [2, 0, 4, 1, 3]), covers=['undirected edge left', 'new orientation'], cost=7,
            bounds='as meek5, with every set of additional orientations', fallback=(3, N3, True, 'enum')),
        Job('meek6', meek, (6, None, False, 'ref', [2, 0, 4, 1, 3, 5]), covers=['undirected edge left', 'new orientation'], cost=7,
            bounds='the pattern of every DAG on 6 nodes that respects one node order', fallback=(3, N3, False, 'enum')),
        Job('meek6_bk', meek, (6, None, True, 'ref', [2, 0, 4, 1, 3, 5]), covers=['undirected edge left', 'new orientation'], tiers=T, cost=9, budget=2000, hard=2400,
            bounds='as meek6, with every set of additional orientations', fallback=(3, N3, True, 'enum')),
    ],
    'C09': [
        Job('cpdag4', cpdag, (4, N4, 'enum', False), covers=['undirected edge left', 'v-structure'], cost=5,
            bounds='every DAG on 4 nodes', fallback=(3, N3, 'enum', False)),
        Job('cpdag4_oracle', cpdag, (4, None, 'enum', True), covers=['undirected edge left', 'v-structure'], cost=3,
            bounds='every DAG on 4 nodes; separation answers replaced by the definition', fallback=(3, N3, 'enum', True)),
        Job('cpdag5_oracle', cpdag, (5, None, 'ref', True, [2, 0, 4, 1, 3]), covers=['undirected edge left', 'v-structure'], cost=6,
            bounds='every DAG on 5 nodes that respects one node order; separation answers replaced by the definition', fallback=(3, N3, 'enum', True)),
        Job('cpdag6_oracle', cpdag, (6, None, 'ref', True, [2, 0, 4, 1, 3, 5]), covers=['undirected edge left', 'v-structure'], cost=8,
            bounds='every DAG on 6 nodes that respects one node order; separation answers replaced by the definition', fallback=(3, N3, 'enum', True)),
    ],
    'C10': [
        Job('extend4', extend_ok, (4, N4), covers=['undirected edge extended', 'extension differs from the generating DAG'], cost=5,
            bounds='the pattern of every DAG on 4 nodes with every set of additional orientations taken from it', fallback=(3, N3)),
        Job('extend5', extend_ok, (5, None), covers=['undirected edge extended', 'extension differs from the generating DAG'], cost=8,
            bounds='every DAG on 5 nodes, with every set of additional orientations', fallback=(3, N3)),
        Job('extend6', extend_ok, (6, None, [2, 0, 4, 1, 3, 5]), covers=['undirected edge extended', 'extension differs from the generating DAG'], tiers=T, cost=9, budget=2000, hard=2400,
            bounds='every DAG on 6 nodes that respects one node order, with every set of additional orientations', fallback=(3, N3)),
        Job('any3', extend_any, (3, N3), covers=['extended', 'no extension'], bounds='every PDAG on 3 nodes, extendable or not'),
        Job('any4', extend_any, (4, None), covers=['extended', 'no extension'], cost=4, bounds='every PDAG on 4 nodes, extendable or not', fallback=(3, N3)),
        Job('extend3', extend_ok, (3, N3), covers=['undirected edge extended', 'extension differs from the generating DAG'],
            bounds='as extend4, on 3 nodes'),
    ],
}
