"""Harnesses over score-based search: GES operators, their scores, and the whole search."""
from itertools import combinations, permutations

import numpy as np

import cdmir.discovery.score_based.greedy_equivalence_search as GM
from cdmir.discovery.score_based.greedy_equivalence_search import GES
from cdmir.graph import DiGraph, Edge, Mark, PDAG
from cdmir.graph.dag2cpdag import dag2cpdag
from cdmir.graph.pdag2dag import pdag2dag
from cdmir.utils.local_score import BaseLocalScoreFunction

from harness.registry import Job
from harness.ref import *
from harness.ref import _all_dags

Q = ('quick', 'thorough')
T = ('thorough',)


# ---------------------------------------------------------------- equivalence classes, by enumeration of all DAGs
def dag_key(n, M):
    return frozenset((i, j) for i in range(n) for j in range(n) if M[i][j])


def cls_key(n, D):
    """skeleton and unshielded colliders of the DAG with edge set D"""
    adj = frozenset(frozenset(e) for e in D)
    col = frozenset((frozenset((i, j)), k) for (i, k) in D for (j, l) in D if l == k and i < j and frozenset((i, j)) not in adj)
    return (adj, col)


class Classes:
    def __init__(self, n):
        self.n = n
        self.dags = {dag_key(n, M) for M in _all_dags(n)}
        self.of = {}
        for D in self.dags:
            self.of.setdefault(cls_key(n, D), []).append(D)
        for k in self.of:
            self.of[k].sort(key=sorted)
        self.keys = sorted(self.of, key=lambda k: [sorted(D) for D in self.of[k]])

    def cpdag(self, k):
        """essential graph as a matrix of marks at the column node: 1 arrow, -1 tail, 0 none"""
        n, ms = self.n, self.of[k]
        R = [[0] * n for _ in range(n)]
        for i, j in permutations(range(n), 2):
            if any((i, j) in D for D in ms):
                R[i][j] = 1 if all((i, j) in D for D in ms) else -1
            elif any((j, i) in D for D in ms):
                R[i][j] = -1
        return R

    def up(self, k):
        """(member, i, j): the edge i -> j can be added to a member"""
        for D in self.of[k]:
            for i, j in permutations(range(self.n), 2):
                if frozenset((i, j)) not in k[0] and D | {(i, j)} in self.dags:
                    yield D, i, j

    def down(self, k):
        for D in self.of[k]:
            for i, j in sorted(D):
                yield D, i, j


CLS = {}


def classes(n):
    if n not in CLS:
        CLS[n] = Classes(n)
    return CLS[n]


def pa(D, j):
    return frozenset(i for i, k in D if k == j)


class SetScore(BaseLocalScoreFunction):
    """Any score-equivalent decomposable score: s(i, P) = f(P + i) - f(P) for a set function f with f({}) = 0.
    (Every score-equivalent decomposable score has this form: f(S) is the score of a complete DAG on S.)"""

    def __init__(self, ctx, n, f=None):
        super().__init__(np.zeros((3, n)))
        self.ctx = ctx
        self.f = f or {}

    def val(self, S):
        S = frozenset(int(v) for v in S)
        if not S:
            return 0
        if S not in self.f:
            self.f[S] = self.ctx.real('f' + ''.join(str(v) for v in sorted(S)), -8, 8)
        return self.f[S]

    def s(self, i, P):
        return self.val(set(P) | {i}) - self.val(P)

    def total(self, D, n):
        r = 0
        for j in range(n):
            r = r + self.s(j, pa(D, j))
        return r

    def _score_function(self, i, parent_i):
        return self.s(int(i), [int(p) for p in parent_i])


def to_pdag(R, names):
    g = PDAG(names)
    n = len(names)
    for i, j in combinations(range(n), 2):
        if R[i][j] != 0 or R[j][i] != 0:
            m = {1: Mark.Arrow, -1: Mark.Tail}
            g.add_edge(Edge(names[i], names[j], m[R[j][i]], m[R[i][j]]))
    return g


def read(g):
    nodes = list(g.nodes)
    return marks(g, nodes)


# ---------------------------------------------------------------- C19 operators
def warm(ctx, n, y, rec, f, cross):
    """a record that already holds the scores of any set of parents of y (and that set without one member)"""
    rest = [v for v in range(n) if v != y]
    P = ctx.choice('earlier', [tuple(c) for r in range(len(rest), -1, -1) for c in combinations(rest, r)])
    if P:
        g = PDAG(['x%d' % v for v in range(n)])
        for v in P[1:]:
            g.add_edge(Edge('x%d' % v, 'x%d' % y, Mark.Tail, Mark.Arrow))
        if cross and ctx.bool('by deletion'):
            g.add_edge(Edge('x%d' % P[0], 'x%d' % y, Mark.Tail, Mark.Arrow))
            rec = GM.Delete_changed_score(g, P[0], y, (), rec, f)[2]
        else:
            rec = GM.Insert_changed_score(g, P[0], y, (), rec, f)[2]
    return rec


def insert_op(ctx, n, part=0, parts=1):
    """Insert: valid exactly when some member can take the edge with these parents, with that member's gain and result"""
    C = classes(n)
    k = ctx.choice('class', C.keys[part::parts])
    R = C.cpdag(k)
    x, y = ctx.choice('xy', list(permutations(range(n), 2)))
    ctx.assume(frozenset((x, y)) not in k[0])
    und = [v for v in range(n) if v not in (x, y) and R[v][y] == -1 and R[y][v] == -1]
    NA = [v for v in und if frozenset((v, x)) in k[0]]
    T0 = [v for v in und if v not in NA]
    Ts = [v for v in T0 if ctx.bool('t%d' % v)]
    names = ['x%d' % v for v in range(n)]
    g = to_pdag(R, names)
    before = read(g)
    tsub = tuple(Ts)
    v1 = GM.Insert_validity_test1(g, x, y, tsub)
    valid = bool(v1) and bool(GM.Insert_validity_test2(g, x, y, tsub))
    dirpa = frozenset(v for v in range(n) if R[v][y] == 1)
    want = frozenset(NA) | frozenset(Ts) | dirpa
    wit = [D for D, i, j in C.up(k) if (i, j) == (x, y) and pa(D, y) == want]
    ctx.check(valid == bool(wit), 'an insertion is called valid or invalid wrongly')
    ctx.check(read(g) == before, 'a validity test changes the graph')
    if valid and wit:
        f = SetScore(ctx, n)
        rec = [[] for _ in range(n)]
        rec = warm(ctx, n, y, rec, f, False)
        ch, desc, rec = GM.Insert_changed_score(g, x, y, tsub, rec, f)
        D = wit[0]
        ctx.close(ch, f.total(D | {(x, y)}, n) - f.total(D, n), 'the score change of an insertion is not that of the structures')
        h = dag2cpdag(pdag2dag(GM.Insert(g, x, y, tsub)))
        ctx.check(read(h) == C.cpdag(cls_key(n, D | {(x, y)})), 'an insertion leads to another equivalence class')
        ctx.cover('inserted with a directed neighbour', len(Ts) > 0)
    ctx.cover('valid', valid)
    ctx.cover('invalid', not valid)


def delete_op(ctx, n, part=0, parts=1):
    C = classes(n)
    k = ctx.choice('class', C.keys[part::parts])
    R = C.cpdag(k)
    x, y = ctx.choice('xy', list(permutations(range(n), 2)))
    ctx.assume(R[x][y] == 1 or (R[x][y] == -1 and R[y][x] == -1))
    und = [v for v in range(n) if v not in (x, y) and R[v][y] == -1 and R[y][v] == -1]
    NA = [v for v in und if frozenset((v, x)) in k[0]]
    H = [v for v in NA if ctx.bool('h%d' % v)]
    names = ['x%d' % v for v in range(n)]
    g = to_pdag(R, names)
    before = read(g)
    hsub = tuple(H)
    valid = bool(GM.Delete_validity_test(g, x, y, hsub))
    dirpa = frozenset(v for v in range(n) if R[v][y] == 1 and v != x)
    want = (frozenset(NA) - frozenset(H)) | dirpa
    wit = [D for D, i, j in C.down(k) if (i, j) == (x, y) and pa(D, y) - {x} == want]
    ctx.check(valid == bool(wit), 'a deletion is called valid or invalid wrongly')
    ctx.check(read(g) == before, 'a validity test changes the graph')
    if valid and wit:
        f = SetScore(ctx, n)
        rec = [[] for _ in range(n)]
        rec = warm(ctx, n, y, rec, f, True)
        ch, desc, rec = GM.Delete_changed_score(g, x, y, hsub, rec, f)
        D = wit[0]
        ctx.close(ch, f.total(D - {(x, y)}, n) - f.total(D, n), 'the score change of a deletion is not that of the structures')
        h = dag2cpdag(pdag2dag(GM.Delete(g, x, y, hsub)))
        ctx.check(read(h) == C.cpdag(cls_key(n, D - {(x, y)})), 'a deletion leads to another equivalence class')
        ctx.cover('deleted with a directed neighbour', len(H) > 0)
    ctx.cover('valid', valid)
    ctx.cover('invalid', not valid)


# ---------------------------------------------------------------- C20 the whole search
def greedy_ref(C, f, up):
    """one phase of greedy search over classes from any class, as a function: state -> next states (all maximisers)"""
    n = C.n

    def step(k):
        best, bst = None, {}
        cand = {}
        for D, i, j in (C.up(k) if up else C.down(k)):
            E = D | {(i, j)} if up else D - {(i, j)}
            t = cls_key(n, E)
            if t not in cand:
                P = pa(D, j) - {i}
                a, b = f.s(j, P | {i}), f.s(j, P)
                cand[t] = a - b if up else b - a
        for t, d in cand.items():
            if best is None or d > best:
                best, bst = d, [t]
            elif d == best:
                bst.append(t)
        if best is None or not (best > 0):
            return []
        return bst
    return step


def ges(ctx, n, fixed=None, ref=True):
    """the search with any score-equivalent decomposable score"""
    C = classes(n)
    f = SetScore(ctx, n, None if fixed is None else {frozenset(s): v for s, v in fixed.items()})
    s = GES(f)
    s.fit()
    g, sc = s.get_causal_graph(), s.get_score()
    names = ['x%d' % v for v in range(n)]
    ctx.check(list(g.nodes) == names, 'the learned graph has other nodes')
    M = read(g)
    key = [k for k in C.keys if C.cpdag(k) == M]
    ctx.check(len(key) == 1, 'the learned graph is not a CPDAG')
    if len(key) != 1:
        return
    k = key[0]
    ctx.close(sc, f.total(C.of[k][0], n), 'the reported score is not that of the learned structure')
    ctx.check(sc >= f.total(frozenset(), n) - 1e-9, 'the result scores worse than the empty graph')
    for D, i, j in C.down(k):
        P = pa(D, j) - {i}
        ctx.check(f.s(j, P) - f.s(j, P | {i}) <= 1e-9, 'deleting an edge of the result would improve the score')
    ctx.cover('an edge', len(k[0]) > 0)
    ctx.cover('a collider', len(k[1]) > 0)
    if ref:
        # the classes greedy search can end in, whatever way ties are broken
        cur, done, seen = [cls_key(n, frozenset())], [], set()
        step = greedy_ref(C, f, True)
        while cur:
            t = cur.pop()
            if t in seen:
                continue
            seen.add(t)
            nx = step(t)
            cur += nx
            if not nx:
                done.append(t)
        cur, ends, seen = done, [], set()
        step = greedy_ref(C, f, False)
        while cur:
            t = cur.pop()
            if t in seen:
                continue
            seen.add(t)
            nx = step(t)
            cur += nx
            if not nx:
                ends.append(t)
        ctx.check(k in ends, 'the result is not where greedy search over equivalence classes ends')


def ges_consistent(ctx, n, dags=None):
    """with a locally consistent score the search finds the CPDAG of the truth"""
    C = classes(n)
    if dags is None:
        A = sym_dag(ctx, n)
        A = [[bool(v) for v in r] for r in A]
    else:
        E = ctx.choice('dag', dags)
        A = [[(i, j) in E for j in range(n)] for i in range(n)]
    R = reach_matrix(n, A)
    f = SetScore(ctx, n)
    m = 0.01 if getattr(ctx, 'symbolic', False) else 0.009
    for i, j in combinations(range(n), 2):
        rest = [v for v in range(n) if v not in (i, j)]
        for r in range(len(rest) + 1):
            for P in combinations(rest, r):
                gain = f.s(j, set(P) | {i}) - f.s(j, P)
                if dsep_spec(n, A, R, i, j, [v in P for v in range(n)]):
                    ctx.assume(gain <= -m)
                else:
                    ctx.assume(gain >= m)
    s = GES(f)
    s.fit()
    D = dag_key(n, A)
    ctx.check(read(s.get_causal_graph()) == C.cpdag(cls_key(n, D)), 'the search misses the class of the true structure')
    ctx.cover('an edge', len(D) > 0)


def table4(pairs=None, triples=None, full=None):
    r = {(i,): 0 for i in range(4)}
    for t, S in ((pairs, 2), (triples, 3)):
        if t is not None:
            for c, v in zip(combinations(range(4), S), t):
                if v is not None:
                    r[c] = v
    if full is not None:
        r[(0, 1, 2, 3)] = full
    return r


Y4 = [(0, 2), (1, 2), (2, 3)]
D4 = [(0, 1), (0, 2), (1, 3), (2, 3)]
C4 = [(3, 0), (0, 2), (2, 1)]
S4 = [(1, 0), (1, 2), (1, 3)]
V4 = [(0, 3), (1, 3), (2, 3)]
W4 = [(0, 1), (2, 1), (2, 3)]
X = None
F4A = table4(pairs=[3, 1, -1, 2, -2, 0.5], triples=[X, X, X, 4], full=6)
F4D = table4(pairs=[0.5, X, 1, 1, 2, 1.5], triples=[X, 3, X, 1], full=X)
F4B = table4(pairs=[X, 1, -1, X, 2, X], triples=[3, 1, 5, 2], full=4)
F4C = table4(pairs=[-1, -2, X, -3, X, -1], triples=[X, 1, -2, 2], full=3)

JOBS = {
    'C19': [
        Job('insert3', insert_op, (3,), engine='fork', covers=['valid'], bounds='every CPDAG on 3 nodes, every pair and subset, any score'),
    ] + [
        Job('%s4_%d' % (nm, i), op, (4, i, 4), engine='fork', covers=['valid'], cost=5, bounds='every CPDAG on 4 nodes (part %d of 4), every pair and subset, any score, any earlier family in the record' % (i + 1))
        for nm, op in (('insert', insert_op), ('delete', delete_op)) for i in range(4)
    ],
    'C20': [
        Job('ges2', ges, (2,), engine='fork', covers=['an edge'], bounds='2 variables, any score-equivalent decomposable score'),
        Job('ges3', ges, (3,), engine='fork', covers=['an edge', 'a collider'], cost=5, bounds='3 variables, any score-equivalent decomposable score'),
        Job('true3', ges_consistent, (3,), engine='fork', covers=['an edge'], cost=3, bounds='3 variables, any locally consistent score, every DAG'),
        Job('true4y', ges_consistent, (4, [Y4]), engine='fork', covers=['an edge'], cost=3, bounds='4 variables, any locally consistent score, collider with a child'),
        Job('true4t', ges_consistent, (4, [C4, S4]), engine='fork', covers=['an edge'], cost=3, bounds='4 variables, any locally consistent score, chain and star'),
        Job('true4v', ges_consistent, (4, [V4, W4]), engine='fork', covers=['an edge'], cost=3, bounds='4 variables, any locally consistent score, three colliding parents and a collider path'),
        Job('ges4a', ges, (4, F4A), engine='fork', covers=['an edge', 'a collider'], cost=3, bounds='4 variables, scores with three free values (triples)'),
        Job('ges4c', ges, (4, F4C), engine='fork', covers=['an edge', 'a collider'], cost=3, bounds='4 variables, scores with three free values (pairs and triples)'),
        Job('ges4b', ges, (4, F4B), engine='fork', covers=['an edge', 'a collider'], cost=3, tiers=T, bounds='4 variables, scores with three free values (pairs)', budget=700),
        Job('ges4d', ges, (4, F4D), engine='fork', covers=['an edge', 'a collider'], cost=3, tiers=T, bounds='4 variables, scores with four free values', budget=800),
    ],
}
