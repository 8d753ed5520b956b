"""Reference notions, written over booleans without branching so that they read the same for
concrete and symbolic values.  None of this calls the code under check."""
from itertools import combinations, permutations, product

from cdmir.graph import Edge, Mark


def any_(xs):
    r = False
    for x in xs:
        r = r | x
    return r


def all_(xs):
    r = True
    for x in xs:
        r = r & x
    return r


def not_(x):
    return x ^ True


def reach_matrix(n, A):
    """reflexive-transitive closure"""
    R = [[True if i == j else A[i][j] for j in range(n)] for i in range(n)]
    for k in range(n):
        R = [[R[i][j] | (R[i][k] & R[k][j]) for j in range(n)] for i in range(n)]
    return R


def sym_digraph(ctx, n, tag='e'):
    """any directed graph with at most one edge per pair"""
    A = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            p = ctx.bool('%s%d_%d' % (tag, i, j))
            d = ctx.bool('%s%d>%d' % (tag, i, j))
            A[i][j] = p & d
            A[j][i] = p & not_(d)
    return A


def acyclic_cond(n, A):
    R = reach_matrix(n, A)
    return all_(not_(A[i][j] & R[j][i]) for i in range(n) for j in range(n) if i != j)


def sym_dag(ctx, n, tag='e', order=None, fixed=None):
    """any DAG (order None), or any DAG whose edges respect the given order of the nodes"""
    if order is not None:
        A = [[False] * n for _ in range(n)]
        for a in range(n):
            for b in range(a + 1, n):
                if fixed and (a, b) in fixed:
                    A[order[a]][order[b]] = fixed[(a, b)]      # positions in the order
                else:
                    A[order[a]][order[b]] = ctx.bool('%s%d>%d' % (tag, order[a], order[b]))
        return A
    A = sym_digraph(ctx, n, tag=tag)
    ctx.assume(acyclic_cond(n, A))
    return A


def build(cls, nodes, A):
    """the graph with a directed edge for every true entry"""
    g = cls(nodes)
    n = len(nodes)
    for i in range(n):
        for j in range(n):
            if i != j:
                if A[i][j]:
                    g.add_edge(Edge(nodes[i], nodes[j], Mark.Tail, Mark.Arrow))
    return g


def simple_paths(n, x, y):
    rest = [v for v in range(n) if v != x and v != y]
    r = []
    for k in range(len(rest) + 1):
        for mid in permutations(rest, k):
            r.append((x,) + tuple(mid) + (y,))
    return r


def dsep_spec(n, A, R, x, y, Z):
    """no active path: the definition, over all simple paths"""
    act = False
    opened = [any_(R[m][d] & Z[d] for d in range(n)) for m in range(n)]
    for p in simple_paths(n, x, y):
        c = all_(A[a][b] | A[b][a] for a, b in zip(p, p[1:]))
        for a, m, b in zip(p, p[1:], p[2:]):
            coll = A[a][m] & A[b][m]
            c = c & ((coll & opened[m]) | (not_(coll) & not_(Z[m])))
        act = act | c
    return not_(act)


def vstruct_edges(n, A):
    """V[i][j]: i -> j is part of an unshielded collider of A"""
    return [[A[i][j] & any_(A[k][j] & not_(A[i][k] | A[k][i]) for k in range(n) if k not in (i, j)) if i != j else False
             for j in range(n)] for i in range(n)]


def vstruct_list(n, A):
    """one condition per (i, j, k): i -> k <- j with i, j not adjacent"""
    return [(i, j, k, A[i][k] & A[j][k] & not_(A[i][j] | A[j][i]))
            for i, j in combinations(range(n), 2) for k in range(n) if k not in (i, j)]


def _all_dags(n):
    prs = list(combinations(range(n), 2))
    r = []
    for c in product((0, 1, 2), repeat=len(prs)):
        M = [[False] * n for _ in range(n)]
        for (i, j), s in zip(prs, c):
            if s == 1:
                M[i][j] = True
            elif s == 2:
                M[j][i] = True
        R = reach_matrix(n, M)
        if not any(M[i][j] and R[j][i] for i in range(n) for j in range(n) if i != j):
            r.append(M)
    return r


ALL_DAGS = {3: _all_dags(3), 4: _all_dags(4)}


def exists_reversed(n, A, B, i, j):
    """some DAG with A's skeleton, A's unshielded colliders and the orientations B has the edge i, j turned"""
    vs = vstruct_list(n, A)
    r = False
    for D in ALL_DAGS[n]:
        if not (D[i][j] or D[j][i]):
            continue
        c = (A[j][i] if D[i][j] else A[i][j])
        for a, b in combinations(range(n), 2):
            s = A[a][b] | A[b][a]
            c = c & (s if (D[a][b] or D[b][a]) else not_(s))
            if D[a][b]:
                c = c & not_(B[b][a])
            elif D[b][a]:
                c = c & not_(B[a][b])
        for a, b, k, v in vs:
            has = D[a][k] and D[b][k] and not (D[a][b] or D[b][a])
            c = c & (v if has else not_(v))
        r = r | c
    return r


def meek_ref(n, A, B):
    """closure of the orientations B under Meek's four rules (A gives the skeleton)"""
    S = [[A[i][j] | A[j][i] for j in range(n)] for i in range(n)]
    D = [list(r) for r in B]
    for _ in range(n * (n - 1) // 2):
        E = [list(r) for r in D]
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                fire = False
                for c in range(n):
                    if c in (a, b):
                        continue
                    fire = fire | (D[c][a] & not_(S[c][b]))                       # c -> a - b
                    fire = fire | (D[a][c] & D[c][b])                             # a -> c -> b
                    for d in range(n):
                        if d in (a, b, c):
                            continue
                        if c < d:
                            fire = fire | (S[a][c] & S[a][d] & not_(D[c][a]) & not_(D[d][a])
                                           & D[c][b] & D[d][b] & not_(S[c][d]))
                        fire = fire | (D[c][d] & D[d][b] & S[a][c] & S[a][d] & not_(S[c][b]))
                E[a][b] = D[a][b] | (S[a][b] & not_(D[b][a]) & fire)
        D = E
    return D


def marks(g, nodes):
    """the mark matrix as the graph's own queries report it (0: no edge)"""
    r = []
    for u in nodes:
        row = []
        for v in nodes:
            if u == v:
                row.append(0)
            elif g.is_arrow(u, v):
                row.append(1)
            elif g.is_tail(u, v):
                row.append(-1)
            elif g.is_connected(u, v):
                row.append(2)
            else:
                row.append(0)
        r.append(row)
    return r


def is_extension(n, S, B, D):
    """D (acyclic) has the skeleton S, the orientations B and no unshielded collider that B lacks"""
    c = True
    for i, j in combinations(range(n), 2):
        c = c & ((D[i][j] | D[j][i]) == S[i][j])
        c = c & (not_(B[i][j]) | D[i][j]) & (not_(B[j][i]) | D[j][i])
        for k in range(n):
            if k not in (i, j):
                c = c & (not_(D[i][k] & D[j][k] & not_(S[i][j])) | (B[i][k] & B[j][k]))
    return c
