"""Harnesses over ICA-LiNGAM."""
from itertools import permutations

import numpy as np
import pandas as pd
from sklearn.decomposition import FastICA

import cdmir.discovery.funtional_based.lingam_based.ica_lingam as M
from cdmir.discovery.funtional_based.lingam_based.ica_lingam import ICA_LINGAM

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)
REC = np.array([[1.0, 2.0, -1.0, 0.5], [0.0, 3.0, 2.5, -2.0], [-2.0, 1.5, 4.0, 1.0], [3.5, -1.0, 0.25, 2.0], [1.25, 0.5, -3.0, -4.0], [2.0, -2.5, 1.0, 5.0], [-1.0, 4.0, 3.0, 0.0]])


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def inverse(ctx, W):
    return symnp.inv(W) if sym(ctx) else np.linalg.inv(W)


def least_squares(X, y):
    D = np.column_stack([np.array([1.0] * len(X)), X])
    return np.linalg.lstsq(D, y, rcond=None)[0][1:]


def unmixing(ctx, n, mode):
    """an unmixing matrix without exact zeros: rows in any order, any scale"""
    W = np.empty((n, n), dtype=object if sym(ctx) else float)
    if mode[0] == 'cells':
        for i in np.ndindex(n, n):
            W[i] = [[2.0, -0.5], [0.75, 1.25]][i[0]][i[1]]
        for i in mode[1]:
            W[i] = ctx.real('w%d%d' % i, -3, 3)
            ctx.assume(abs(W[i]) > 0.03125)
        ctx.assume(abs(W[0, 0] * W[1, 1] - W[0, 1] * W[1, 0]) > 0.03125)
        return W
    B = [[0, 0.25, -0.125, 0.0625], [0.5, 0, 0.1875, 0.75], [-0.75, 0.625, 0, -0.3125], [0.375, -0.4375, 0.875, 0]]
    sc = [2.0, -0.5, 4.0, -1.0]
    for k, (i, j) in enumerate(mode[0]):
        B[i][j] = ctx.real('b%d%d' % (i, j), -1, 1)
        ctx.assume(abs(B[i][j]) > 0.03125)
    order = ctx.choice('order', mode[1])
    rows = ctx.choice('rows', mode[2])
    for r in range(n):
        i = rows[r]
        for j in range(n):
            W[r, j] = sc[i] * (1 if i == j else -B[order[i]][order[j]])
    return W


def unique_min(ctx, costs):
    """position of the least cost; ties (and near ties) are left out"""
    best = 0
    for k in range(1, len(costs)):
        if bool(costs[k] < costs[best]):
            best = k
    for k in range(len(costs)):
        if k != best:
            ctx.assume(costs[k] > costs[best] + 0.001)
    return best


def learn(ctx, n, mode, symp, frame, first=0):
    symnp.install(ctx, zeros=True)
    W = unmixing(ctx, n, mode)
    A = inverse(ctx, W)
    data = REC[:, :n].copy()
    if first:
        data = np.roll(data, first, axis=1)
    alpha = ctx.choice('alpha', [None, 0.5])
    th = 0.05 if alpha is None else alpha
    P = np.empty((n, n), dtype=object if sym(ctx) else float)
    for i in range(n):
        for j in range(n):
            P[i, j] = ctx.real('p%d%d' % (i, j), 0, 1) if symp and i != j else [0.01, 0.6, 0.03, 0.4][(i + 2 * j) % 4]
    seen = {}

    class Fake:
        def __init__(self, n_components=None, *a, **k):
            ctx.check(n_components == n, 'ICA is asked for another number of components')

        def fit(self, X, y=None):
            seen['data'] = np.asarray(X)
            self.mixing_ = A.copy()
            self.components_ = W.copy()
            return self

        def fit_transform(self, X, y=None):
            self.fit(X)
            return np.asarray(X)

    def wald(X, V):
        seen['wald'] = (np.asarray(X), np.asarray(V))
        return P.copy()
    symnp.replace(ctx, FastICA, Fake)
    if sym(ctx):
        pinv = np.linalg.pinv

        def back(M, *a, **k):
            # the inverse of the reported matrix, without its expansion
            if np.shape(M) == (n, n) and all(M[i] is A[i] for i in np.ndindex(n, n)):
                return W.copy()
            return pinv(M, *a, **k)
        ctx.patch(np.linalg, 'pinv', back)
    ctx.patch(M, 'calcwald', wald)
    arg = pd.DataFrame(data, columns=['v%d' % k for k in range(n)]) if frame else data
    keep = data.copy()
    t = ICA_LINGAM() if alpha is None else ICA_LINGAM(wald_alpha=alpha) if ctx.bool('named') else ICA_LINGAM(alpha)
    for f in (t.get_coef, t.get_causal_graph):
        try:
            f()
            ctx.check(False, 'a result before fitting')
        except Exception:
            pass
    # reference: each row belongs to the variable that makes the sum of 1 / |diagonal| least
    ps = list(permutations(range(n)))
    k = unique_min(ctx, [sum(1 / abs(W[p[i], i]) for i in range(n)) for p in ps])
    V = [[W[ps[k][i], j] for j in range(n)] for i in range(n)]
    B = [[0 if i == j else -V[i][j] / V[i][i] for j in range(n)] for i in range(n)]
    # the order of the variables with the least sum of squared effects against it
    o = ps[unique_min(ctx, [sum(B[p[a]][p[b]] * B[p[a]][p[b]] for a in range(n) for b in range(a + 1, n)) for p in ps])]
    pos = {v: a for a, v in enumerate(o)}
    t.fit(arg)
    C, G = t.get_coef(), t.get_causal_graph()
    ctx.check(np.shape(C) == (n, n) and np.shape(G) == (n, n), 'shape of the result')
    ctx.check((data == keep).all() and (not frame or (arg.values == keep).all()), 'the data changes')
    ctx.check(np.array_equal(seen['data'], keep), 'ICA runs on other data')
    X, U = seen['wald']
    ctx.check(np.array_equal(X, keep.T), 'the Wald test runs on other data')
    for i in range(n):
        for j in range(n):
            ctx.close(U[i, j], V[i][j], 'the Wald test is given other unmixing rows than those of the variables')
    for i in range(n):
        par = [j for j in range(n) if j != i and pos[j] < pos[i] and bool(P[i, j] <= th)]
        beta = least_squares(keep[:, par], keep[:, i]) if par else []
        for j in range(n):
            if j in par:
                ctx.check(G[i, j] == 1, 'an effect that the Wald test keeps is missing')
                ctx.close(C[i, j], beta[par.index(j)], 'a coefficient is not the regression on the parents')
            else:
                ctx.check(G[i, j] == 0, 'an effect against the order or rejected by the Wald test is kept')
                ctx.check(C[i, j] == 0, 'a coefficient without an effect')
        ctx.cover('two parents', len(par) > 1)
        ctx.cover('parent dropped', any(pos[j] < pos[i] and j not in par for j in range(n)))
    ctx.cover('rows moved', ps[k] != tuple(range(n)))
    ctx.cover('order not that of the columns', o != tuple(range(n)))


O3 = list(permutations(range(3)))
E1 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}
C2 = ['parent dropped', 'rows moved', 'order not that of the columns']
C3 = C2 + ['two parents']
R3 = [(0, 1, 2), (1, 2, 0), (0, 2, 1)]
JOBS = {
    'C29': [
        Job('any2_%d%d' % (a, b), learn, (2, ('cells', (((0, 0), (0, 1), (1, 0), (1, 1))[a], ((0, 0), (0, 1), (1, 0), (1, 1))[b])), b == 0, False), engine='fork', covers=C2[:2], cost=3, bounds='2 variables, two entries of the unmixing matrix of any value', opts=E1)
        for a in range(4) for b in range(a)
    ] + [
        Job('frame2', learn, (2, ([(1, 0)], [(0, 1), (1, 0)], [(0, 1), (1, 0)]), True, True), engine='fork', covers=C2, bounds='2 variables in a data frame', opts=E1),
        Job('order3', learn, (3, ([(1, 0)], O3, R3), False, False), engine='fork', covers=C2, cost=3, bounds='3 variables in any order, rows in three orders, one effect symbolic', opts=E1),
        Job('rows3', learn, (3, ([(2, 0)], [(0, 1, 2), (2, 0, 1)], O3), False, True), engine='fork', covers=C2, cost=3, bounds='3 variables, rows in any order, one effect symbolic', opts=E1),
        Job('wald3', learn, (3, ([], [(0, 1, 2), (2, 1, 0), (1, 2, 0)], R3[:2]), True, False), engine='fork', covers=C3, cost=3, bounds='3 variables, any p-values', opts=E1),
        Job('effects3', learn, (3, ([(1, 0), (0, 2)], [(0, 1, 2)], R3[1:2]), False, False), engine='fork', covers=C2, cost=5, bounds='3 variables, two effects symbolic', opts=E1),
        Job('order4', learn, (4, ([(3, 1)], [(0, 1, 2, 3), (2, 0, 3, 1), (3, 1, 0, 2)], [(0, 1, 2, 3), (3, 2, 0, 1)]), False, False), engine='fork', covers=C2 + ['two parents'], cost=5, bounds='4 variables in three orders, one effect symbolic', opts=E1),
        Job('effects3t', learn, (3, ([(1, 0), (0, 2)], O3, R3), False, False), engine='fork', covers=C2, tiers=T, cost=9, budget=2000, hard=2400, bounds='3 variables in any order, two effects symbolic', opts=E1),
    ],
}
ASSUME = {'C29': ['FastICA reports any mixing matrix whose inverse has no exact zeros (entries above 1/32 in size)',
                  'the Wald p-values are any numbers; the asymptotic covariance formula itself is outside',
                  'no two row assignments or orders are tied (costs differ by more than 0.001)',
                  'the records are fixed numbers']}
