"""Harnesses over the statistics: data adapters, independence tests, local scores, kernels."""
import math
import sys
from itertools import combinations, permutations, product

import numpy as np
import pandas as pd

import cdmir.utils.local_score.bdeu_score as BD
import cdmir.utils.local_score.bic_score as BI
from cdmir.discovery.constraint import PC
from cdmir.graph import DiGraph, Edge, Mark
from cdmir.utils.independence import ConditionalIndependentTest, Dsep, FisherZ
from cdmir.utils.independence._base import BaseConditionalIndependenceTest
from cdmir.utils.independence.functional import fisherz_from_corr
from cdmir.utils.local_score import BaseLocalScoreFunction, BDeuScore, BICScore
from scipy.stats import norm

from harness.registry import Job
from harness.ref import *
from vf import symnp

FZ = sys.modules['cdmir.utils.independence.functional.fisherz']

Q = ('quick', 'thorough')
T = ('thorough',)


def perm_of(ctx, name, items):
    return list(ctx.choice(name, list(permutations(items))))


def collection(ctx, name, z):
    k = ctx.choice(name, ['list', 'tuple', 'set', 'iter', 'reversed', 'dict', 'frozenset', 'generator'])
    if k == 'list':
        return list(z)
    if k == 'tuple':
        return tuple(z)
    if k == 'set':
        return set(z)
    if k == 'iter':
        return iter(list(z))
    if k == 'reversed':
        return list(reversed(list(z)))
    if k == 'dict':
        return {v: 1 for v in z}.keys()
    if k == 'generator':
        return (v for v in list(z))
    return frozenset(z)


def subset(ctx, name, items):
    return [v for i, v in enumerate(items) if ctx.bool('%s%d' % (name, i))]


# ---------------------------------------------------------------- C14 names and columns
class RecTest(ConditionalIndependentTest):
    """remembers which columns it was asked about"""
    seen = []

    def __init__(self, data, var_names=None, extra=None, opt=None):
        super().__init__(data, var_names=var_names)
        self.extra, self.opt = extra, opt
        self.log = []

    def cal_stats(self, x, y, z=None):
        z = None if z is None else list(z)
        self.log.append((x, y, z))
        cols = sorted([x, y])
        return (self._data[0, cols[0]] + 2 * self._data[1, cols[1]], sum(self._data[0, k] for k in z or []))


def make_data(ctx, n, rows=2):
    """symbolic data in one of the supported forms, and the name of every column"""
    X = ctx.reals('d', (rows, n), -2, 2)
    cols = perm_of(ctx, 'cols', ['b', 'a', 'c', 'x1'][:n])
    form = ctx.choice('form', ['array', 'array named', 'frame', 'frame renamed'])
    if form == 'array':
        return X, X, None, list(range(n))
    if form == 'array named':
        return X, X, cols, cols
    df = pd.DataFrame(X, columns=cols)
    if form == 'frame':
        return X, df, None, cols
    new = [['p', 'q', 'r', 's'][k] for k in ctx.choice('re', list(permutations(range(n))))]
    return X, df, new, new


def adapter(ctx, n):
    X, data, given, names = make_data(ctx, n)
    t = RecTest(data, given) if ctx.bool('positional') else RecTest(data, var_names=given)
    ctx.check(list(t.var_names) == names, 'the variables have other names than the columns')
    ctx.check(t._data.shape == (2, n), 'the data changes shape')
    ctx.check(isinstance(t._data, np.ndarray), 'the data is not an array')
    x, y = ctx.choice('xy', list(permutations(range(n), 2)))
    Z = subset(ctx, 'z', [v for v in range(n) if v not in (x, y)])
    z = collection(ctx, 'kind', [names[v] for v in Z])
    r = t.test(names[x], names[y], z)
    i, j = min(x, y), max(x, y)
    ctx.close(r[0], X[0, i] + 2 * X[1, j], 'a test by name uses other columns')
    ctx.close(r[1], sum(X[0, v] for v in Z), 'a test by name conditions on other columns')
    for k in range(n):
        for row in range(2):
            ctx.close(t._data[row, k], X[row, k], 'a column moved')
    ctx.cover('conditioned', len(Z) > 0)


def adapter_none(ctx, n):
    """no conditioning set at all"""
    X, data, given, names = make_data(ctx, n)
    t = RecTest(data, given)
    x, y = ctx.choice('xy', list(permutations(range(n), 2)))
    how = ctx.choice('how', ['omitted', 'none', 'ids', 'ids none'])
    if how == 'omitted':
        r = t.test(names[x], names[y])
    elif how == 'none':
        r = t.test(names[x], names[y], None)
    elif how == 'ids':
        r = t.itest(x, y)
    else:
        r = t.itest(x, y, None)
    i, j = min(x, y), max(x, y)
    ctx.close(r[0], X[0, i] + 2 * X[1, j], 'a test by name uses other columns')
    ctx.close(r[1], 0, 'a test without conditioning set conditions on something')
    # the library's own oracle as well
    # (its graph may have the variables in another order than the data)
    g = DiGraph(ctx.choice('gorder', [list(names), [names[k] for k in (2, 0, 1)], list(names)[::-1]]))
    e = ctx.bool('e')
    if e:
        g.add_edge(Edge(names[x], names[y], Mark.Tail, Mark.Arrow))
    d = Dsep(data, given, g)
    p = d.test(names[x], names[y]) if how in ('omitted', 'none') else d.itest(x, y)
    ctx.check(p[0] == (0.0 if e else 1.0), 'the d-separation test without conditioning set is wrong')
    ctx.cover('dependent', bool(e))


def dsep_names(ctx, n):
    """the d-separation test answers for the named variables, whatever the orders of data and graph"""
    names = ['b', 'c', 'a', 'd'][:n]
    given = [names[k] for k in ctx.choice('data order', list(permutations(range(n))))]
    A = [[False] * n for _ in range(n)]
    g = DiGraph(names)
    for i in range(n):
        for j in range(i + 1, n):
            if ctx.bool('e%d%d' % (i, j)):
                A[i][j] = True
                g.add_edge(Edge(names[i], names[j], Mark.Tail, Mark.Arrow))
    R = reach_matrix(n, A)
    x, y = ctx.choice('xy', list(permutations(range(n), 2)))
    Z = subset(ctx, 'z', [v for v in range(n) if v not in (x, y)])
    want = 1.0 if bool(dsep_spec(n, A, R, x, y, [v in Z for v in range(n)])) else 0.0
    d = Dsep(np.zeros((2, n)), given, g)
    k = ctx.choice('how', ['names', 'ids'])
    if k == 'names':
        p = d.test(names[x], names[y], [names[v] for v in Z])
    else:
        p = d.itest(given.index(names[x]), given.index(names[y]), [given.index(names[v]) for v in Z])
    ctx.check(p[0] == want, 'the d-separation test answers for other variables')
    ctx.cover('separated', want == 1.0 and len(Z) > 0)
    ctx.cover('connected', want == 0.0 and len(Z) > 0)


class DistinctTest(ConditionalIndependentTest):
    """a different value for every unordered pair and conditioning set"""

    def __init__(self, data, ctx):
        super().__init__(data)
        self.ctx = ctx

    def value(self, x, y, z):
        return self.ctx.real('v%d_%d|%s' % (min(x, y), max(x, y), '_'.join(str(k) for k in sorted(z))), 0, 1)

    def cal_stats(self, x, y, z=None):
        return (self.value(x, y, z or []), None)


def cached(ctx, ids, calls, kinds):
    """any history of questions: each is answered as if it were the only one"""
    n = max(ids) + 1
    t = DistinctTest(np.empty((1, n)), ctx)
    for c in range(calls):
        x, y = ctx.choice('q%d' % c, list(permutations(ids, 2)))
        Z = subset(ctx, 's%d_' % c, [v for v in ids if v not in (x, y)])
        z = {'list': list(Z), 'rev': tuple(reversed(Z)), 'iter': iter(list(Z)), 'test': list(Z)}
        k = ctx.choice('k%d' % c, kinds)
        r = t.test(x, y, z[k]) if k == 'test' else t.itest(x, y, z[k])
        ctx.check(isinstance(r, tuple) and len(r) == 2, 'an answer is not a pair')
        ctx.close(r[0], t.value(x, y, Z), 'a repeated question gets the answer of another one')
    ctx.cover('asked', True)


class NameOracle(ConditionalIndependentTest):
    def __init__(self, data, var_names=None, ind=None, tag=None):
        super().__init__(data, var_names=var_names)
        self.ind = ind
        self.tag = tag

    def cal_stats(self, x, y, z=None):
        a, b = sorted([str(self.var_names[x]), str(self.var_names[y])])
        k = (a, b, tuple(sorted(str(self.var_names[v]) for v in z)))
        return (0.9 if self.ind[k] else 0.1), 0.0


def pc_forms(ctx, n):
    """PC over any form of data and any way of passing the arguments learns the graph named by the columns"""
    X, data, given, names = make_data(ctx, n, 1)
    strs = sorted(str(v) for v in names)
    A = sym_dag(ctx, n)
    R = reach_matrix(n, A)
    ix = {s: k for k, s in enumerate(strs)}
    ind = {}
    for a, b in combinations(strs, 2):
        rest = [s for s in strs if s not in (a, b)]
        for r in range(len(rest) + 1):
            for Z in combinations(rest, r):
                ind[(a, b, Z)] = bool(dsep_spec(n, A, R, ix[a], ix[b], [s in Z for s in strs]))
    how = ctx.choice('how', ['keyword', 'positional', 'extra positional'])
    pc = PC(alpha=0.5)
    if how == 'keyword':
        pc.fit(data=data, var_names=given, indep_cls=NameOracle, ind=ind, tag=1)
    elif how == 'positional':
        pc.fit(data, given, NameOracle, ind=ind, tag=1)
    else:
        pc.fit(data, given, NameOracle, ind, 1)
    g = pc.causal_graph
    ctx.check(list(g.nodes) == names, 'the learned graph names its nodes otherwise')
    ctx.check(pc.indep_test.tag == 1, 'an argument of the test is lost')
    ctx.check(list(pc.indep_test.var_names) == names, 'the test sees other names')
    V = vstruct_edges(n, A)
    for u in names:
        for v in names:
            if u != v:
                i, j = ix[str(u)], ix[str(v)]
                ctx.check(g.is_connected(u, v) == bool(A[i][j] | A[j][i]), 'the learned graph connects other variables')
    for i in range(n):
        for j in range(n):
            if i != j and bool(V[i][j]):
                u = [x for x in names if str(x) == strs[i]][0]
                v = [x for x in names if str(x) == strs[j]][0]
                ctx.check(g.is_fully_directed(u, v), 'the learned graph misses a collider of the named variables')
    ctx.cover('edge', g.number_of_edges() > 0)


# ---------------------------------------------------------------- C15 Fisher z
FIXED = {(0, 1): 0.25, (0, 2): -0.25, (0, 3): 0.5, (1, 2): 0.0, (1, 3): -0.5, (2, 3): 0.25}


def sym_corr(ctx, n, pd=True, free=None):
    C = np.empty((n, n), dtype=object) if getattr(ctx, 'symbolic', False) else np.empty((n, n))
    for i in range(n):
        C[i, i] = 1
    for i, j in combinations(range(n), 2):
        C[i, j] = C[j, i] = FIXED[i, j] if free is not None and (i, j) not in free else ctx.real('r%d%d' % (i, j), -0.99, 0.99)
    # positive definite (all leading minors of every order the harness uses)
    for r in range(2, n + 1) if pd else ():
        for S in combinations(range(n), r):
            ctx.assume(symnp.det(C[np.ix_(S, S)]) > 0)
    return C


def minor(C, rows, cols):
    return symnp.det(np.asarray(C, dtype=object)[np.ix_(rows, cols)])


def fz_setup(ctx):
    symnp.install(ctx, extra=[(norm, symnp.NormDist(norm))])


def fisher(ctx, n, k, free=None):
    """p-value and squared partial correlation for any correlations"""
    fz_setup(ctx)
    C = sym_corr(ctx, n, False, free)
    ids = perm_of(ctx, 'ids', range(n))[:k + 2] if n < 4 else [list(range(n)), [2, 0, 3, 1]][ctx.int('ids', 0, 1)]
    x, y, Z = ids[0], ids[1], ids[2:]
    N = 50
    num = minor(C, [x] + Z, [y] + Z)
    dx = minor(C, [x] + Z, [x] + Z)
    dy = minor(C, [y] + Z, [y] + Z)
    if free is not None or not getattr(ctx, 'symbolic', False):
        ctx.assume(dx > 0)
        ctx.assume(dy > 0)
        ctx.assume(minor(C, ids, ids) > 0)
        ctx.assume(k < 2 or all(minor(C, s, s) > 0 for s in combinations(range(n), 3)))
    p, r = fisherz_from_corr(C, N, x, y, Z) if k or ctx.bool('empty list') else fisherz_from_corr(C, N, x, y)
    # the partial correlation by minors: r = C[xZ, yZ] / sqrt(C[xZ, xZ] C[yZ, yZ])
    ctx.close(r * r * dx * dy, num * num, 'the statistic is not the partial correlation')
    # p-value of Fisher's transform of the value reported
    a = min(0.9999999, abs(r))
    z = abs(np.log((1 + a) / (1 - a)) / 2 * math.sqrt(N - len(Z) - 3))
    ctx.close(p, 2 * (1 - FZ.norm.cdf(z)), 'the p-value is not that of the Fisher transform')
    ctx.cover('clipped or not', True)


def fisher_sign(ctx, n, k):
    """sign, symmetry and collections: one correlation is any number, the others are chosen"""
    fz_setup(ctx)
    C = np.empty((n, n), dtype=object) if getattr(ctx, 'symbolic', False) else np.empty((n, n))
    for i in range(n):
        C[i, i] = 1
    free = ctx.choice('free', list(combinations(range(n), 2)) if n < 4 else [(0, 1), (2, 3)])
    for i, j in combinations(range(n), 2):
        if (i, j) == free:
            v = ctx.real('r', -0.99, 0.99)
        elif n < 4:
            v = ctx.choice('c%d%d' % (i, j), [0.5, -0.25])
        else:
            v = FIXED[i, j]
        C[i, j] = C[j, i] = v
    for r in range(2, n + 1):
        for S in combinations(range(n), r):
            ctx.assume(symnp.det(C[np.ix_(S, S)]) > 0.001)
    ids = perm_of(ctx, 'ids', range(n))[:k + 2] if n < 4 else [list(range(n)), [2, 0, 3, 1]][ctx.int('ids', 0, 1)]
    x, y, Z = ids[0], ids[1], ids[2:]
    N = 50
    num = minor(C, [x] + Z, [y] + Z)
    how = ctx.choice('how', ['list', 'tuple', 'iter', 'swapped', 'reversed'])
    z = {'list': list(Z), 'tuple': tuple(Z), 'iter': iter(list(Z)), 'swapped': list(Z), 'reversed': Z[::-1]}[how]
    p, r = fisherz_from_corr(C, N, y, x, z) if how == 'swapped' else fisherz_from_corr(C, N, x, y, z)
    ctx.check(r * num >= -1e-9, 'the statistic has the wrong sign')
    ctx.close(r * r * minor(C, [x] + Z, [x] + Z) * minor(C, [y] + Z, [y] + Z), num * num, 'the statistic is not the partial correlation')
    ctx.cover('negative', num < 0)


def fisher_data(ctx, rows, form):
    """the test by names computes from the correlations of the named columns and the number of records"""
    n = 3
    X = ctx.reals('d', (rows, n), -3, 3)
    sym = getattr(ctx, 'symbolic', False)
    val = {(0, 1): 0.3, (0, 2): -0.5, (1, 2): 0.2}

    def col(v):
        for j in range(n):
            if len(v) == rows and all(v[i] is X[i, j] for i in range(rows)):
                return j
        raise AssertionError('correlation of something that is not a column of the data')

    def corr(x, y=None, rowvar=True, **k):
        x = np.asarray(x)
        ids = [col(v) for v in (x if rowvar else x.T)]
        return np.array([[1.0 if a == b else val[(min(a, b), max(a, b))] for a in ids] for b in ids])
    if sym:
        symnp.install(ctx, extra=[(np.corrcoef, corr)])
    names = ['b', 'a', 'c']
    data = pd.DataFrame(X, columns=names) if form == 'frame' else X
    t = FisherZ(data) if form == 'frame' else FisherZ(data, names)
    C = corr(X, rowvar=False) if sym else np.corrcoef(X, rowvar=False)
    x, y = ctx.choice('xy', list(permutations(range(3), 2)))
    k = [v for v in range(3) if v not in (x, y)][0]
    Z = [k] if ctx.bool('z') else []
    r = t.test(names[x], names[y], [names[v] for v in Z])
    if Z:
        w = (C[x, y] - C[x, k] * C[y, k]) / math.sqrt((1 - C[x, k] ** 2) * (1 - C[y, k] ** 2))
    else:
        w = C[x, y]
    ctx.close(r[1], w, 'the test by names is not the one on the columns')
    a = min(0.9999999, abs(w))
    ctx.close(r[0], 2 * (1 - norm.cdf(math.atanh(a) * math.sqrt(rows - len(Z) - 3))), 'the p-value by names is not the one on the columns')
    ctx.cover('conditioned', len(Z) > 0)
    ctx.cover('marginal', len(Z) == 0)


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a))


# ---------------------------------------------------------------- C16 BIC
class BicOf:
    """a BICScore over given correlations"""

    def __init__(self, ctx, C, n_samples, lam):
        X = np.zeros((n_samples, len(C)))
        s = BICScore.__new__(BICScore)
        self.made = s
        C0 = C
        old = BI.corrcoef
        try:
            BI.corrcoef = lambda *a, **k: C0
            s.__init__(X, **({} if lam is None else {'lambda_value': lam}))
        finally:
            BI.corrcoef = old


def bic_setup(ctx, n, lam):
    symnp.install(ctx)
    C = sym_corr(ctx, n)
    l = ctx.real('lambda', 0, 10) if lam else None
    N = 40
    s = BicOf(ctx, C, N, l).made
    return C, (1 if l is None else l), N, s


def bic(ctx, n, k, lam):
    C, l, N, s = bic_setup(ctx, n, lam)
    ids = perm_of(ctx, 'ids', range(n))[:k + 1]
    i, P = ids[0], ids[1:]
    got = s(i, collection(ctx, 'kind', P))
    if k == 0:
        ctx.close(got, 0, 'the score of a root is wrong')
    else:
        var = minor(C, [i] + P, [i] + P) / minor(C, P, P)
        ctx.close(got, -(N * np.log(var) + math.log(N) * k * l), 'the score is not the Gaussian BIC')
    ctx.cover('reached', True)


def fact_log(ctx, a, b):
    """log(ab) = log a + log b, for these two positive numbers"""
    if getattr(ctx, 'symbolic', False):
        ctx.assume(np.log(a * b) == np.log(a) + np.log(b))


def bic_equiv(ctx):
    """Markov equivalent structures score the same"""
    C, l, N, s = bic_setup(ctx, 3, True)
    i, j, k = ctx.choice('ijk', list(permutations(range(3))))
    ctx.close(s(i, []) + s(j, [i]), s(j, []) + s(i, [j]), 'i -> j and j -> i have different scores')
    d2 = minor(C, [i, k], [i, k])
    e2 = minor(C, [j, k], [j, k])
    d3 = minor(C, [0, 1, 2], [0, 1, 2])
    for a in (d2, e2):
        fact_log(ctx, d3 / a, a)
    ctx.close(s(j, [i, k]) + s(i, [k]), s(i, [j, k]) + s(j, [k]), 'reversing a covered edge changes the score')
    ctx.cover('reached', True)


def bic_data(ctx, frame):
    """the score is that of the data's correlations and sample size"""
    rows, n = 3, 3
    X = ctx.reals('d', (rows, n), -3, 3)
    sym = getattr(ctx, 'symbolic', False)
    seen = []

    def corr(x, y=None, rowvar=True, **k):
        x = np.asarray(x)
        if not rowvar:
            x = x.T
        seen.append(x)
        R = np.empty((len(x), len(x)), dtype=object)
        for i in range(len(x)):
            for j in range(len(x)):
                R[i, j] = 1 if i == j else ctx.uf('corr', *(list(x[min(i, j)]) + list(x[max(i, j)])))
        return R
    if sym:
        symnp.install(ctx, extra=[(np.corrcoef, corr)])
        C = corr(X, rowvar=False)
    else:
        C = np.corrcoef(X, rowvar=False)
    ctx.assume(C[0, 1] ** 2 < 1)
    ctx.assume(C[0, 2] ** 2 < 1)
    s = BICScore(pd.DataFrame(X, columns=['b', 'a', 'c'])) if frame else BICScore(X)
    i, p = ctx.choice('ip', [(0, 1), (1, 0), (0, 2), (2, 0)])
    r = C[min(i, p), max(i, p)]
    ctx.close(s(i, [p]), -(rows * np.log(1 - r * r) + math.log(rows)), 'the score is not that of the data')
    ctx.cover('reached', True)


# ---------------------------------------------------------------- C17 BDeu
def table(ctx, rows, doms):
    """any table of categories (the solver chooses every cell)"""
    D = np.zeros((rows, len(doms)), dtype=int)
    for r in range(rows):
        for c, d in enumerate(doms):
            D[r, c] = ctx.choice('t%d_%d' % (r, c), [0, 3, 1][:d])
    return D


def bdeu_spec(ctx, D, i, P, s):
    lg = math.lgamma if not getattr(ctx, 'symbolic', False) else lg_sym
    r = [len(set(D[:, c])) for c in range(D.shape[1])]
    q = 1
    for p in P:
        q *= r[p]
    tot = 0
    for cfg in sorted(set(tuple(row[p] for p in P) for row in D.tolist())):
        rows = [row for row in D.tolist() if tuple(row[p] for p in P) == cfg]
        tot = tot + lg(s / q) - lg(s / q + len(rows))
        for v in sorted(set(row[i] for row in rows)):
            c = sum(1 for row in rows if row[i] == v)
            tot = tot + lg(s / (q * r[i]) + c) - lg(s / (q * r[i]))
    return tot


def lg_sym(x):
    return x.lgamma() if hasattr(x, 'lgamma') else math.lgamma(x)


def bdeu(ctx, rows, doms, npar):
    symnp.install(ctx)
    D = table(ctx, rows, doms)
    s = ctx.real('s', 0.25, 8)
    t = 1 / 4 + 0 * s
    t = 0.25
    i = ctx.choice('i', range(len(doms)))
    P = [c for c in range(len(doms)) if c != i][:npar]
    if npar > 1 and ctx.bool('rev'):
        P = P[::-1]
    sc = BDeuScore(D, sample_prior=s, structure_prior=t)
    got = sc(i, P)
    # the structure prior is judged only through its dependence on the number of parents
    vm = rows - 1
    prior = npar * math.log(t / vm) + (vm - npar) * math.log(1 - t / vm)
    ctx.close(got - prior, bdeu_spec(ctx, D, i, P, s), 'the score is not the BDeu marginal likelihood of the counts')
    ctx.cover('mixed', len(set(D[:, i])) > 1)


def bdeu_equiv(ctx, rows, doms):
    symnp.install(ctx)
    D = table(ctx, rows, doms)
    s = ctx.real('s', 0.25, 8)
    sc = BDeuScore(D, sample_prior=s, structure_prior=0.25)
    if len(doms) == 2:
        a = sc(0, []) + sc(1, [0])
        b = sc(1, []) + sc(0, [1])
    else:
        a = sc(0, [2]) + sc(1, [0, 2])
        b = sc(1, [2]) + sc(0, [1, 2])
    ctx.close(a, b, 'reversing a covered edge changes the score')
    ctx.cover('reached', True)


# ---------------------------------------------------------------- C18 caches of scores and tests
class DistinctScore(BaseLocalScoreFunction):
    def __init__(self, data, ctx):
        super().__init__(data)
        self.ctx = ctx
        self.count = 0

    def value(self, i, P):
        return self.ctx.real('s%d|%s' % (i, '_'.join(str(int(p)) for p in sorted(P))), -5, 5)

    def _score_function(self, i, parent_i):
        self.count += 1
        return self.value(i, list(parent_i))


def score_cache(ctx, ids, calls, kinds):
    t = DistinctScore(np.zeros((2, max(ids) + 1)), ctx)
    for c in range(calls):
        i = ctx.choice('i%d' % c, ids)
        P = subset(ctx, 'p%d_' % c, [p for p in ids if p != i])
        k = ctx.choice('k%d' % c, kinds)
        a = {'list': list(P), 'rev': P[::-1], 'tuple': tuple(P), 'set': set(P), 'array': np.array(P, dtype=int),
             'iter': iter(list(P)), 'gen': (p for p in list(P))}[k]
        ctx.close(t(i, a), t.value(i, P), 'a score is answered with the score of another family')
    ctx.cover('asked', True)


class DistinctCIT(BaseConditionalIndependenceTest):
    def __init__(self, data, ctx):
        super().__init__(data)
        self.ctx = ctx

    def value(self, x, y, z):
        return self.ctx.real('w%s|%s|%s' % ('_'.join(map(str, x)), '_'.join(map(str, y)), '_'.join(map(str, z or []))), 0, 1)

    def __call__(self, xs, ys, zs=None):
        return self._compute_p_value(xs, ys, zs, lambda x, y: (self.value(x, y, None), 0), lambda x, y, z: (self.value(x, y, z), 0))


def cit_cache(ctx, calls):
    names = ['c', 'a', 'b']
    X = np.zeros((2, 3))
    t = DistinctCIT(pd.DataFrame(X, columns=names), ctx)
    for c in range(calls):
        x, y = ctx.choice('q%d' % c, list(permutations(range(3), 2)))
        z = [v for v in range(3) if v not in (x, y)] if ctx.bool('z%d' % c) else []
        k = ctx.choice('k%d' % c, ['id', 'name', 'list', 'names', 'array'])
        f = {'id': lambda v: v[0] if len(v) == 1 else (v or None), 'name': lambda v: names[v[0]] if len(v) == 1 else None, 'list': list,
             'names': lambda v: [names[k] for k in v], 'array': lambda v: np.array(v, dtype=int)}[k]
        r = t(f([x]), f([y]), f(z))
        ctx.close(r[0], t.value([x], [y], z), 'a test is answered for other variables')
    ctx.cover('asked', True)


def cit_groups(ctx, ids, calls):
    """questions between groups of variables"""
    n = max(ids) + 1
    names = ['v%d' % (n - i) for i in range(n)]
    t = DistinctCIT(pd.DataFrame(np.zeros((2, n)), columns=names), ctx)
    for c in range(calls):
        g = [ctx.choice('g%d_%d' % (c, v), 'xyz-') for v in ids]
        grp = {k: [v for v, w in zip(ids, g) if w == k] for k in 'xyz'}
        ctx.assume(grp['x'] and grp['y'])
        k = ctx.choice('k%d' % c, ['list', 'names', 'array'])
        f = {'list': list, 'names': lambda v: [names[k] for k in v], 'array': lambda v: np.array(v, dtype=int)}[k]
        r = t(f(grp['x']), f(grp['y']), f(grp['z']))
        ctx.close(r[0], t.value(grp['x'], grp['y'], grp['z']), 'a test is answered for other groups of variables')
    ctx.cover('asked', True)


FZO = {'uf': 'const', 'path_timeout': 200, 'sqfact': False, 'guard': 'assume'}
FZS = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}

JOBS = {
    'C13': [
        Job('cache2', cached, ([0, 1, 12], 2, ['list', 'rev', 'iter', 'test']), engine='fork', covers=['asked'], cost=4, bounds='two questions over 3 of 13 variables'),
        Job('cache2w', cached, ([0, 1, 12, 11], 2, ['list']), engine='fork', covers=['asked'], cost=4, bounds='two questions over 4 of 13 variables'),
        Job('cache3', cached, ([0, 1, 11], 3, ['iter']), engine='fork', covers=['asked'], cost=4, tiers=T, bounds='three questions over 3 of 12 variables'),
    ],
    'C14': [
        Job('adapter3', adapter, (3,), engine='fork', covers=['conditioned'], cost=3, bounds='3 columns, symbolic data, every form, naming and collection'),
        Job('none3', adapter_none, (3,), engine='fork', covers=['dependent'], bounds='3 columns, no conditioning set'),
        Job('dsep_names3', dsep_names, (3,), engine='fork', covers=['separated', 'connected'], cost=3, bounds='any DAG on 3 variables, any order of the columns, any question by name or number'),
        Job('pc3', pc_forms, (3,), engine='fork', covers=['edge'], cost=4, bounds='PC on 3 variables, every form of data and argument passing'),
    ],
    'C15': [
        Job('fisher0', fisher, (3, 0), engine='fork', covers=['clipped or not'], bounds='no conditioning variable, any correlation', opts=FZO),
        Job('fisher1', fisher, (3, 1), engine='fork', covers=['clipped or not'], bounds='one conditioning variable, any correlations', cost=2, opts=FZO),
        Job('fisher2a', fisher, (4, 2, [(0, 1), (2, 3)]), engine='fork', covers=['clipped or not'], bounds='two conditioning variables, two of six correlations symbolic', cost=3, opts=FZO),
        Job('fisher2b', fisher, (4, 2, [(0, 2), (1, 3)]), engine='fork', covers=['clipped or not'], bounds='two conditioning variables, two of six correlations symbolic', cost=3, opts=FZO),
        Job('fisher2c', fisher, (4, 2, [(0, 1), (0, 2), (1, 2)]), engine='fork', covers=['clipped or not'], bounds='two conditioning variables, three of six correlations symbolic', cost=3, opts=FZO),
        Job('fisher2d', fisher, (4, 2, [(0, 1), (0, 2), (1, 2), (2, 3)]), engine='fork', covers=['clipped or not'], tiers=T, bounds='two conditioning variables, four of six correlations symbolic', cost=3, opts=FZO),
        Job('sign1', fisher_sign, (3, 1), engine='fork', covers=['negative'], bounds='one conditioning variable, one free correlation, others in {0.5, -0.25, 0}', cost=2, opts=FZS),
        Job('sign2', fisher_sign, (4, 2), engine='fork', covers=['negative'], bounds='two conditioning variables, one free correlation', cost=2, opts=FZS),
        Job('data_array', fisher_data, (8, 'array'), engine='fork', covers=['conditioned', 'marginal'], bounds='8 symbolic records, 3 variables', opts={'uf': 'const', 'path_timeout': 200}),
        Job('data_frame', fisher_data, (8, 'frame'), engine='fork', covers=['conditioned', 'marginal'], bounds='8 symbolic records, 3 variables', opts={'uf': 'const', 'path_timeout': 200}),
    ],
    'C16': [
        Job('bic0', bic, (3, 0, False), engine='fork', covers=['reached'], bounds='no parent', opts={'uf': 'const', 'path_timeout': 200}),
        Job('bic1', bic, (3, 1, True), engine='fork', covers=['reached'], bounds='one parent, any correlations and penalty', opts={'uf': 'const', 'path_timeout': 200}),
        Job('bic2', bic, (3, 2, True), engine='fork', covers=['reached'], cost=2, bounds='two parents, any correlations and penalty', opts={'uf': 'const', 'path_timeout': 200}),
        Job('bic3', bic, (4, 3, False), engine='fork', covers=['reached'], cost=3, tiers=T, bounds='three parents, any correlations', opts={'uf': 'const', 'path_timeout': 200}),
        Job('equiv', bic_equiv, (), engine='fork', covers=['reached'], cost=2, bounds='3 variables, any correlations and penalty', opts={'uf': 'const', 'path_timeout': 200}),
        Job('data', bic_data, (False,), engine='fork', covers=['reached'], bounds='3 symbolic records', opts={'uf': 'const', 'path_timeout': 200}),
        Job('frame', bic_data, (True,), engine='fork', covers=['reached'], bounds='3 symbolic records', opts={'uf': 'const', 'path_timeout': 200}),
    ],
    'C17': [
        Job('bdeu0', bdeu, (4, [2, 2], 0), engine='fork', covers=['mixed'], cost=2, bounds='4 records, 2 binary variables, any sample prior'),
        Job('bdeu1', bdeu, (4, [2, 2], 1), engine='fork', covers=['mixed'], cost=3, bounds='4 records, 2 binary variables, any sample prior'),
        Job('bdeu1t', bdeu, (3, [3, 2], 1), engine='fork', covers=['mixed'], cost=3, bounds='3 records, a ternary and a binary variable'),
        Job('bdeu2', bdeu, (3, [2, 2, 2], 2), engine='fork', covers=['mixed'], cost=4, bounds='3 records, 3 binary variables, two parents'),
        Job('equiv2', bdeu_equiv, (4, [2, 2]), engine='fork', covers=['reached'], cost=3, bounds='4 records, 2 binary variables'),
        Job('equiv3', bdeu_equiv, (4, [2, 2, 2]), engine='fork', covers=['reached'], cost=8, tiers=T, bounds='4 records, 3 binary variables', budget=700),
    ],
    'C18': [
        Job('score_hist2', score_cache, ([0, 1, 2], 2, ['list', 'rev', 'tuple', 'set', 'array', 'iter', 'gen']), engine='fork', covers=['asked'], cost=4,
            bounds='two questions over 3 variables, any kind of collection'),
        Job('score_hist3', score_cache, ([0, 1, 2], 3, ['list', 'iter']), engine='fork', covers=['asked'], cost=5, tiers=T, bounds='three questions over 3 variables'),
        Job('score_wide', score_cache, ([1, 2, 12], 2, ['list', 'array']), engine='fork', covers=['asked'], cost=3, bounds='two questions over 3 of 13 variables'),
        Job('cit_groups', cit_groups, ([1, 2, 12], 2), engine='fork', covers=['asked'], cost=3, bounds='two questions between groups of 3 of 13 variables'),
        Job('cit_hist2', cit_cache, (2,), engine='fork', covers=['asked'], cost=3, bounds='two questions over 3 named variables'),
    ],
}
