"""Harnesses over constraint-based discovery: adjacency search, PC, conditional independence tests."""
from itertools import combinations, permutations

import numpy as np
import pandas as pd

from cdmir.discovery.constraint import PC
from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
from cdmir.utils.independence import ConditionalIndependentTest, Dsep

from harness.registry import Job
from harness.ref import *
from harness.graphs import check_maximal, N3, N4, Q, T


# ---------------------------------------------------------------- C11 PC with an oracle
class OracleTest(ConditionalIndependentTest):
    """p-value 1 when the definition of d-separation holds, else 0"""

    def __init__(self, data, var_names=None, spec=None):
        super().__init__(data, var_names=var_names)
        self.spec = spec

    def cal_stats(self, x_id, y_id, z_ids=None):
        n, A, R = self.spec
        z = list(z_ids)
        Z = [i in z for i in range(n)]
        if dsep_spec(n, A, R, x_id, y_id, Z):
            return 1.0, 1.0
        return 0.0, 0.0


def check_pc(ctx, n, A, pc, names, complete):
    V = vstruct_edges(n, A)
    g = pc.causal_graph
    ctx.check(list(g.nodes) == list(names), 'the learned graph has other nodes')
    check_maximal(ctx, n, A, V, g, names, complete)
    for i, j in combinations(range(n), 2):
        s = A[i][j] | A[j][i]
        ctx.check(pc.skeleton.is_connected(names[i], names[j]) == s, 'the reported skeleton is not the true one')
        ctx.check(not_(s) | pc.skeleton.is_fully_undirected(names[i], names[j]), 'the reported skeleton has an orientation')
    ctx.cover('collider', any_(any_(r) for r in V))
    ctx.observe('m', marks(g, names))


def pc_oracle(ctx, n, names, fast, complete, order=None):
    names = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n, order=order)
    pc = PC(alpha=0.05, adjacency_search_method=fast_adjacency_search if fast else adjacency_search)
    pc.fit(np.empty((0, n)), names, indep_cls=OracleTest, spec=(n, A, reach_matrix(n, A)))
    check_pc(ctx, n, A, pc, names, complete)


def pc_dsep(ctx, n, names, complete):
    """the library's own d-separation oracle"""
    names = list(range(n)) if names is None else list(names)
    A = sym_dag(ctx, n)
    pc = PC()
    pc.fit(np.empty((0, n)), names, indep_cls=Dsep, true_graph=build(DiGraph, names, A))
    check_pc(ctx, n, A, pc, names, complete)


# ---------------------------------------------------------------- C12 adjacency search under arbitrary answers
class AnswerTest(ConditionalIndependentTest):
    def __init__(self, data, var_names, answers):
        super().__init__(data, var_names=var_names)
        self.answers = answers
        self.asked = []

    def cal_stats(self, x_id, y_id, z_ids=None):
        return self.answers[(min(x_id, y_id), max(x_id, y_id), tuple(sorted(z_ids)))], 0.0


def sym_answers(ctx, n, ties):
    """ind[(i, j, Z)]: the test accepts independence; p-values below, exactly at and above alpha = 0.25"""
    pv, ind = {}, {}
    for i, j in combinations(range(n), 2):
        rest = [k for k in range(n) if k not in (i, j)]
        for r in range(len(rest) + 1):
            for Z in combinations(rest, r):
                nm = '%d_%d|%s' % (i, j, ','.join(str(k) for k in Z))
                p = ctx.choice('p' + nm, [0.1, 0.9, 0.25] if ties else [0.1, 0.9])
                pv[(i, j, Z)] = p
                ind[(i, j, Z)] = p >= 0.25
                ind[(j, i, Z)] = ind[(i, j, Z)]
    return pv, ind


def pc_stable_ref(n, ind):
    """order-independent adjacency search: levels, neighbours frozen within a level"""
    E = [[i != j for j in range(n)] for i in range(n)]
    U = {(i, j): [False] * n for i in range(n) for j in range(n) if i != j}
    for k in range(n - 1):
        F = [list(r) for r in E]
        for i, j in combinations(range(n), 2):
            rest = [v for v in range(n) if v not in (i, j)]
            for Z in combinations(rest, k):
                hit = E[i][j] & ind[(i, j, Z)] & (all_(E[i][v] for v in Z) | all_(E[j][v] for v in Z))
                F[i][j] = F[i][j] & not_(hit)
                F[j][i] = F[i][j]
                for v in Z:
                    U[(i, j)][v] = U[(i, j)][v] | hit
                    U[(j, i)][v] = U[(i, j)][v]
        E = F
    return E, U


def search_answers(ctx, n, names, ties):
    names = list(range(n)) if names is None else list(names)
    pv, ind = sym_answers(ctx, n, ties)
    t = AnswerTest(np.empty((0, n)), names, pv)
    g, sep = adjacency_search(t, names, alpha=0.25)
    E, U = pc_stable_ref(n, ind)
    for i, j in combinations(range(n), 2):
        a, b = names[i], names[j]
        ctx.check(g.is_connected(a, b) == E[i][j], 'the skeleton is not the one the test answers determine')
        ctx.check(not_(g.is_connected(a, b)) | g.is_fully_undirected(a, b), 'adjacency search orients an edge')
        for v in range(n):
            if v not in (i, j):
                ctx.check((names[v] in sep[(a, b)]) == U[(i, j)][v], 'the separating set is not the one the test answers determine')
                ctx.check((names[v] in sep[(b, a)]) == U[(i, j)][v], 'the separating sets differ by direction')
        ctx.cover('removed with a nonempty set', not_(g.is_connected(a, b)) & any_(U[(i, j)]))
        ctx.cover('kept', g.is_connected(a, b))
    ctx.observe('m', marks(g, names))


def search_invariants(ctx, n, names, fast, level0=None):
    """both search variants: kept edges failed every test among their final neighbours, removed edges have a witness"""
    names = list(range(n)) if names is None else list(names)
    pv, ind = {}, {}
    if level0 is not None:
        # the pairs that are independent without conditioning, at least level0[0] of them; part level0[1] of level0[2]
        prs = list(combinations(range(n), 2))
        gone = ctx.choice('gone', [c for r in range(level0[0], len(prs)) for c in combinations(prs, r)][level0[1]::level0[2]])
        level0 = {p: p in gone for p in prs}
    for i, j in combinations(range(n), 2):
        rest = [k for k in range(n) if k not in (i, j)]
        for r in range(len(rest) + 1):
            for Z in combinations(rest, r):
                nm = '%d_%d|%s' % (i, j, ','.join(str(k) for k in Z))
                b = ctx.bool('i' + nm) if level0 is None or r > 0 else level0[(i, j)]
                ind[(i, j, Z)] = b
    t = LazyAnswerTest(np.empty((0, n)), names, ind)
    g, sep = (fast_adjacency_search if fast else adjacency_search)(t, names, alpha=0.25)
    C = [[g.is_connected(names[i], names[j]) if i != j else False for j in range(n)] for i in range(n)]
    for i, j in combinations(range(n), 2):
        a, b = names[i], names[j]
        rest = [k for k in range(n) if k not in (i, j)]
        wit = False
        for r in range(len(rest) + 1):
            for Z in combinations(rest, r):
                near = all_(C[i][v] for v in Z) | all_(C[j][v] for v in Z)
                ctx.check(not_(C[i][j] & near & ind[(i, j, Z)]), 'an edge is kept although a test among its neighbours accepts independence')
                wit = wit | (ind[(i, j, Z)] & all_(names[v] in sep[(a, b)] for v in Z))
        ctx.check(C[i][j] | wit, 'an edge is removed without a test that accepts independence')
        ctx.check(set(sep[(a, b)]) == set(sep[(b, a)]), 'the separating sets differ by direction')
        ctx.check(not_(C[i][j]) | g.is_fully_undirected(a, b), 'adjacency search orients an edge')
        for v in range(n):
            if v not in (i, j):
                just = any_(ind[(i, j, Z)] for r in range(len(rest) + 1) for Z in combinations(rest, r) if v in Z)
                ctx.check(not_(names[v] in sep[(a, b)]) | just, 'a separating set has a node no accepted test used')
        ctx.cover('kept', C[i][j])
        ctx.cover('removed', not_(C[i][j]))


class LazyAnswerTest(ConditionalIndependentTest):
    def __init__(self, data, var_names, ind):
        super().__init__(data, var_names=var_names)
        self.ind = ind

    def cal_stats(self, x_id, y_id, z_ids=None):
        if self.ind[(min(x_id, y_id), max(x_id, y_id), tuple(sorted(z_ids)))]:
            return 0.25, 0.0
        return 0.1, 0.0


# ---------------------------------------------------------------- C13 cache of the test objects
class RecordTest(ConditionalIndependentTest):
    """the value names the query it was computed for"""

    def cal_stats(self, x_id, y_id, z_ids=None):
        z = None if z_ids is None else tuple(sorted(z_ids))
        return (min(x_id, y_id), max(x_id, y_id), z), 0.0


def query(ctx, k, ids, zmax, names):
    x = ctx.choice('x%d' % k, ids)
    y = ctx.choice('y%d' % k, ids)
    ctx.assume(x != y)
    zs = [None] + [tuple(p) for r in range(zmax + 1) for p in permutations(ids, r)]
    z = ctx.choice('z%d' % k, zs)
    if z is not None:
        ctx.assume(not_(x in z) & not_(y in z))
    return x, y, z


def cache_ids(ctx, ids, zmax, nq):
    """any history of queries by column number"""
    n = max(ids) + 1
    t = RecordTest(np.empty((0, n)))
    for k in range(nq):
        x, y, z = query(ctx, k, ids, zmax, None)
        got = t.itest(x, y, list(z) if z is not None else None)[0]
        ctx.check(got[0] == min(x, y), 'a cached answer belongs to another query')
        ctx.check(got[1] == max(x, y), 'a cached answer belongs to another query')
        want = None if z is None else tuple(sorted(z))
        ctx.check(got[2] == want, 'a cached answer belongs to another query')
    ctx.cover('history')


def cache_names(ctx, names, nq):
    """any history of queries by name, with values that are false in a boolean context"""
    t = RecordTest(np.empty((0, len(names))), list(names))
    ids = list(range(len(names)))
    for k in range(nq):
        x, y, z = query(ctx, k, ids, 1, names)
        if z is None:
            got = t.test(names[x], names[y])[0]
        else:
            got = t.test(names[x], names[y], [names[v] for v in z])[0]
        want = None if z is None else tuple(sorted(z))
        ctx.check((got[0] == min(x, y)) & (got[1] == max(x, y)), 'a query by name uses other columns')
        ctx.check(got[2] == want, 'a query by name uses other columns')
    ctx.cover('history')


JOBS = {
    'C11': [
        Job('pc_oracle3', pc_oracle, (3, N3, False, 'enum'), covers=['collider'], bounds='every DAG on 3 nodes'),
        Job('pc_oracle4', pc_oracle, (4, N4, False, 'enum'), covers=['collider'], cost=5, bounds='every DAG on 4 nodes', fallback=(3, N3, False, 'enum')),
        Job('pc_oracle5', pc_oracle, (5, None, False, 'ref', [2, 0, 4, 1, 3]), covers=['collider'], cost=6,
            bounds='every DAG on 5 nodes that respects one node order', fallback=(3, N3, False, 'enum')),
        Job('pc_oracle6', pc_oracle, (6, None, False, 'ref', [2, 0, 4, 1, 3, 5]), covers=['collider'], tiers=T, cost=9, budget=2000, hard=2400,
            bounds='every DAG on 6 nodes that respects one node order', fallback=(3, N3, False, 'enum')),
        Job('pc_fast3', pc_oracle, (3, N3, True, 'enum'), engine='fork', covers=['collider'], bounds='every DAG on 3 nodes'),
        Job('pc_fast4', pc_oracle, (4, None, True, 'ref'), engine='fork', covers=['collider'], cost=5, bounds='every DAG on 4 nodes'),
        Job('pc_dsep3', pc_dsep, (3, N3, 'enum'), covers=['collider'], bounds='every DAG on 3 nodes'),
        Job('pc_dsep4', pc_dsep, (4, None, 'enum'), covers=['collider'], cost=7, bounds='every DAG on 4 nodes', fallback=(3, N3, 'enum')),
    ],
    'C12': [
        Job('answers4', search_answers, (4, N4, True), covers=['kept', 'removed with a nonempty set'], cost=3,
            bounds='every table of p-values (below, at, above alpha) for 4 variables', fallback=(3, N3, True)),
        Job('answers5', search_answers, (5, None, False), covers=['kept', 'removed with a nonempty set'], cost=6,
            bounds='every table of answers for 5 variables', fallback=(3, N3, True)),
        Job('inv_fast4', search_invariants, (4, None, True), engine='fork', covers=['kept', 'removed'], cost=9, tiers=T, budget=3000, hard=3100,
            bounds='every table of answers for 4 variables'),
    ] + [
        Job('inv_fast4_%d' % i, search_invariants, (4, [2, 0, 3, 1], True, (0, i, 8)), engine='fork', covers=['kept', 'removed'], cost=4,
            bounds='every table of answers for 4 variables (part %d of 8)' % (i + 1)) for i in range(8)
    ] + [
        Job('inv4', search_invariants, (4, None, False), covers=['kept', 'removed'], cost=3, bounds='every table of answers for 4 variables', fallback=(3, N3, False)),
        Job('inv_fast3', search_invariants, (3, N3, True), engine='fork', covers=['kept', 'removed'], cost=3, bounds='every table of answers for 3 variables'),
    ],
    'C13': [
        Job('ids', cache_ids, ([0, 3, 1, 2, 11, 12], 2, 2), covers=['history'], cost=3, bounds='two queries over columns 0, 1, 2, 3, 11, 12, up to 2 conditioning columns in any order', fallback=([1, 11, 2], 1, 2)),
        Job('names3', cache_names, (['b', 'c', 'a'], 3), covers=['history'], cost=3, bounds='three queries over three named columns', fallback=(['b', 'c', 'a'], 2)),
    ],
}
