"""Harnesses over the data simulators.  The random draws are symbolic: np.random's functions are replaced, in
symbolic and in native runs, by functions that return the harness's inputs and record what was drawn."""
import math
import random
from itertools import combinations, permutations

import networkx as nx
import numpy as np

import cdmir.datasets.simlulators as SI
import cdmir.datasets.utils as UT
from cdmir.datasets.simlulators import HawkesSimulator, IIDSimulator, TimeLagSimulator

from harness.registry import Job
from harness.ref import *
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)


def shape_of(size):
    if size is None:
        return ()
    if np.isscalar(size):
        return (int(size),)
    return tuple(int(s) for s in size)


class Draws:
    """stands for np.random; every draw is an arbitrary value of its support"""

    def __init__(self, ctx, mask=None):
        self.ctx = ctx
        self.log = []
        self.seeds = []
        self.mask = mask
        self.urange = None
        r = np.random
        for nm in ('uniform', 'rand', 'normal', 'exponential', 'gumbel', 'laplace', 'permutation', 'binomial', 'poisson', 'randn', 'standard_normal',
                   'random', 'random_sample'):
            ctx.patch(r, nm, getattr(self, nm))
        ctx.patch(r, 'seed', lambda s=None: self.seeds.append((s, len(self.log))))
        ctx.patch(random, 'seed', lambda s=None: None)

    def fresh(self, kind, shape, lo, hi):
        k = len(self.log)
        r = self.ctx.reals('%s%d_' % (kind[0], k), shape, lo, hi)
        self.log.append((kind, r))
        return r

    def put(self, r, size):
        if size is None:
            return r.item()
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.fresh('uniform', shape_of(size), *(self.urange[len(self.log) % 2] if self.urange else (0, 1)))
        return self.put(r * (high - low) + low, size)

    def rand(self, *shape):
        k = len(self.log)
        r = np.empty(shape)
        for n, i in enumerate(np.ndindex(*r.shape)):
            if self.mask == 'free' or (self.mask and n < self.mask):
                r[i] = 0.25 if self.ctx.bool('sgn%d_%d' % (k, n)) else 0.75
            else:
                r[i] = 0.25 if n % 2 else 0.75
        self.log.append(('rand', r))
        return r

    def random(self, size=None):
        return self.rand(*shape_of(size))
    random_sample = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.put(loc + scale * self.fresh('normal', shape_of(size), -3, 3), size)

    def randn(self, *shape):
        return self.fresh('normal', shape, -3, 3)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def exponential(self, scale=1.0, size=None):
        return self.put(scale * self.fresh('exponential', shape_of(size), 0, 5), size)

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return self.put(loc + scale * self.fresh('gumbel', shape_of(size), -3, 5), size)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return self.put(loc + scale * self.fresh('laplace', shape_of(size), -4, 4), size)

    def permutation(self, x):
        n = x if np.isscalar(x) else len(x)
        p = list(self.ctx.choice('perm%d' % len(self.log), list(permutations(range(n)))))
        self.log.append(('permutation', p))
        return np.array(p) if np.isscalar(x) else np.asarray(x)[p]

    def binomial(self, n, p, size=None):
        p = np.asarray(p)
        r = np.zeros(p.shape if size is None else shape_of(size), dtype=int)
        k = len(self.log)
        for i in np.ndindex(*r.shape):
            r[i] = self.ctx.int('bin%d_%s' % (k, i), 0, n)
        self.log.append(('binomial', (r, p)))
        return r

    def poisson(self, lam=1.0, size=None):
        p = np.asarray(lam)
        r = np.zeros(p.shape if size is None else shape_of(size), dtype=int)
        k = len(self.log)
        for i in np.ndindex(*r.shape):
            r[i] = self.ctx.int('poi%d_%s' % (k, i), 0, 2)
        self.log.append(('poisson', (r, p)))
        return r


def to_nx(np_data, create_using=None):
    """what nx.from_numpy_array does, for a matrix with symbolic entries"""
    M = np.asarray(np_data)
    g = (create_using or nx.Graph)()
    g.add_nodes_from(range(len(M)))
    for i in range(len(M)):
        for j in range(len(M)):
            if bool(M[i, j] != 0):
                g.add_edge(i, j, weight=M[i, j])
    return g


def setup(ctx, mask=None):
    d = Draws(ctx, mask)
    symnp.install(ctx, zeros=True)
    if getattr(ctx, 'symbolic', False):
        ctx.patch(UT, 'np2nx', to_nx)
    return d


def sym_weights(ctx, n, cyc=False, tri=None):
    """support and weights of a directed graph on n nodes"""
    W = np.zeros((n, n), dtype=object) if getattr(ctx, 'symbolic', False) else np.zeros((n, n))
    S = [[False] * n for _ in range(n)]
    for i, j in permutations(range(n), 2):
        if tri is not None and tri.index(i) > tri.index(j):
            continue
        if ctx.bool('s%d%d' % (i, j)):
            S[i][j] = True
            W[i, j] = ctx.real('w%d%d' % (i, j), 0.25, 2) * (-1 if (i + j) % 2 else 1)
    return W, S


def scale_arg(ctx, n, forms=('none', 'scalar', 'list', 'array', 'int', 'int list')):
    k = ctx.choice('scale', list(forms))
    if k == 'none':
        return None, [1.0] * n
    if k == 'scalar':
        return 0.5, [0.5] * n
    if k == 'int':
        return 2, [2] * n
    if k == 'int list':
        return [1, 3, 2, 4][:n], [1, 3, 2, 4][:n]
    v = [0.5, 2.0, 1.5, 0.25][:n]
    return (list(v) if k == 'list' else np.array(v)), v


def same(ctx, a, b):
    """equality of two values, decided once and for all (not a branch)"""
    if getattr(ctx, 'symbolic', False):
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


KIND = {'gauss': 'normal', 'exp': 'exponential', 'gumbel': 'gumbel', 'uniform': 'uniform', 'laplace': 'laplace'}


def noise_of(noise_type, r):
    """the standard noise behind a recorded draw (the uniform noise lies between -1 and 1)"""
    return 2 * r - 1 if noise_type == 'uniform' else r


def match(ctx, resid, scale, cols, noise_type, used, label):
    """the residual column is the scaled noise of one not yet used draw"""
    ctx.check(match1(ctx, resid, scale, cols, noise_type, used), label)


def match1(ctx, resid, scale, cols, noise_type, used):
    for k, c in enumerate(cols):
        if k in used or len(c) != len(resid):
            continue
        if all(bool(same(ctx, r, scale * noise_of(noise_type, v))) for r, v in zip(resid, c)):
            used.add(k)
            return True
    return False


# ---------------------------------------------------------------- C23 linear models
def linear(ctx, n, samples, noise_type, tri):
    d = setup(ctx)
    W, S = sym_weights(ctx, n, tri=tri)
    W0 = W.copy()
    arg, scale = scale_arg(ctx, n) if tri is not None else (None, [1.0] * n)
    seed = ctx.choice('seed', [None, 7])
    R = reach_matrix(n, S)
    acyc = not any(S[i][j] and R[j][i] for i in range(n) for j in range(n))
    try:
        X = IIDSimulator.simulate_linear_anm(W, samples, noise_type, arg, seed)
    except ValueError:
        ctx.check(not acyc, 'an acyclic model is rejected')
        ctx.cover('rejected')
        return
    ctx.check(acyc, 'a cyclic model is simulated')
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(X.shape == (samples, n), 'the data has another shape')
    cols = [r for k, r in d.log if k == KIND[noise_type]]
    used = set()
    for j in range(n):
        resid = [X[s, j] - sum((X[s, i] * W[i, j] for i in range(n) if S[i][j]), 0) for s in range(samples)]
        match(ctx, resid, scale[j], cols, noise_type, used, 'a variable is not the weighted sum of its parents plus its scaled noise')
    for i in range(n):
        for j in range(n):
            ctx.check(W[i, j] is W0[i, j] or W[i, j] == W0[i, j], 'the simulation changes the weights')
    ctx.cover('simulated')


def population(ctx, n):
    """without a sample size: X'X/n is the covariance of the model"""
    d = setup(ctx)
    tri = list(ctx.choice('order', [[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0]]))
    W = np.zeros((n, n), dtype=object) if getattr(ctx, 'symbolic', False) else np.zeros((n, n))
    for a, b in combinations(range(n), 2):
        if (a + b) % 2 == 1 or (a, b) == (0, 2):
            W[tri[a], tri[b]] = ctx.real('w%d%d' % (a, b), 0.25, 2)
    arg, scale = scale_arg(ctx, n)
    X = IIDSimulator.simulate_linear_anm(W, None, 'gauss', arg, None)
    C = np.dot(X.T, X) / n
    B = np.eye(n) - W
    E = np.dot(np.dot(B.T, C), B)
    for i in range(n):
        for j in range(n):
            ctx.close(E[i, j], scale[i] ** 2 if i == j else 0, 'the population covariance is not that of the model')
    ctx.cover('reached')


def discrete(ctx, n, samples, noise_type):
    d = setup(ctx)
    tri = list(ctx.choice('order', list(permutations(range(n)))))
    W, S = sym_weights(ctx, n, tri=tri)
    X = IIDSimulator.simulate_linear_anm(W, samples, noise_type, None, None)
    draws = [r for k, r in d.log if k == {'logistic': 'binomial', 'poisson': 'poisson'}[noise_type]]
    ctx.check(len(draws) == n, 'a variable is not drawn once')
    used = set()
    for j in range(n):
        hit = None
        for k, (v, p) in enumerate(draws):
            if k in used:
                continue
            lin = [sum((X[s, i] * W[i, j] for i in range(n) if S[i][j]), 0) for s in range(samples)]
            if noise_type == 'logistic':
                want = [SI.sigmoid(x) for x in lin]
            else:
                want = [np.exp(x) for x in lin]
            if all(bool(same(ctx, X[s, j], v[s])) and bool(same(ctx, np.asarray(p)[s], want[s])) for s in range(samples)):
                hit = k
                used.add(k)
                break
        ctx.check(hit is not None, 'a variable is not drawn with the rate its parents give')
    ctx.cover('reached')


def bad_args(ctx):
    """scales of another length and unknown noise types are rejected"""
    d = setup(ctx)
    n = 3
    W = np.zeros((n, n))
    W[0, 1] = 1.0
    A = np.array([W, W])
    f = ctx.choice('f', [0, 1, 2, 3, 4])
    ln = ctx.int('len', 1, 5)
    nt = ctx.choice('nt', ['gauss', 'uniform', 'cauchy'])
    try:
        if f == 0:
            IIDSimulator.simulate_linear_anm(W, 2, nt, [1.0] * ln)
        elif f == 1:
            IIDSimulator.simulate_nonlinear_anm(W, 2, nt, [1.0] * ln, hidden=1)
        elif f == 2:
            IIDSimulator.simulate_pnl(W, 2, nt, [1.0] * ln)
        elif f == 3:
            TimeLagSimulator.simulate_linear_anm(A, 2, 1, nt, [1.0] * ln)
        else:
            TimeLagSimulator.simulate_pnl(A, 2, 1, nt, [1.0] * ln)
        ok = True
    except (ValueError, AssertionError):
        ok = False
    ctx.check(ok == (ln == 3 and nt != 'cauchy'), 'scales of another length or unknown noise are simulated, or good ones rejected')
    ctx.cover('rejected', not ok)
    ctx.cover('accepted', ok)


# ---------------------------------------------------------------- C23 nonlinear models
def leaky(x, s):
    return x if bool(x > 0) else x * s


def nonlinear(ctx, n, func, order, mask):
    """each variable is the chosen function of its parents only, plus its noise"""
    d = setup(ctx, mask=mask)
    tri = list(order)
    W, S = sym_weights(ctx, n, tri=tri)
    A = np.array([[1 if S[i][j] else 0 for j in range(n)] for i in range(n)])
    arg, scale = scale_arg(ctx, n, ('none', 'list'))
    samples, H = 2, 2
    X = IIDSimulator.simulate_nonlinear_anm(A, samples, 'gauss', arg, None, func, H if func == 'mlp' else None)
    ctx.check(X.shape == (samples, n), 'the data has another shape')
    cols = [r for k, r in d.log if k == 'normal']
    ws = []
    for a, b in zip(d.log, d.log[1:]):
        if a[0] == 'uniform' and b[0] == 'rand':
            ws.append((a[1] * 1.5 + 0.5) * np.where(b[1] < 0.5, -1, 1))
    used, wused, m = set(), set(), 2 if func == 'mlp' else 3
    for j in range(n):
        P = [i for i in range(n) if S[i][j]]
        cand = [()] if not P else [tuple(range(k, k + m)) for k in range(len(ws) - m + 1) if not wused & set(range(k, k + m))]
        found = False
        for c in cand:
            x, w = X[:, P], [ws[k] for k in c]
            if not P:
                f = [0] * samples
            elif any(v.shape[0] != len(P) for v in (w[:1] if func == 'mlp' else w)) or (func == 'mlp' and (w[0].ndim, w[1].ndim) != (2, 1)):
                continue
            elif func == 'mlp':
                h = x @ w[0]
                f = [sum(SI.sigmoid(h[s, k]) * w[1][k] for k in range(H)) for s in range(samples)]
            else:
                f = [np.tanh((x @ w[0])[s]) + np.cos((x @ w[1])[s]) + np.sin((x @ w[2])[s]) for s in range(samples)]
            if match1(ctx, [X[s, j] - f[s] for s in range(samples)], scale[j], cols, 'gauss', used):
                wused |= set(c)
                found = True
                break
        ctx.check(found, 'a variable is not the chosen function of its parents plus its scaled noise')
    ctx.cover('reached')


FN = {'tanh': np.tanh, 'cos': np.cos}


def elem(name, x, slope):
    if name == 'leaky_relu':
        return leaky(x, slope)
    return {'tanh': np.tanh, 'cos': np.cos}[name](x)


def pnl_value(P, x, e, scale, f1, f2, slope):
    if not P:
        return scale * e
    return sum(elem(f2, elem(f1, x[p], slope) + scale * e[k], slope) for k, p in enumerate(P))


def pnl(ctx, n, f1, f2, order):
    d = setup(ctx, mask=1)
    W, S = sym_weights(ctx, n, tri=list(order))
    A = np.array([[1.0 if S[i][j] else 0.0 for j in range(n)] for i in range(n)])
    arg, scale = scale_arg(ctx, n, ('none', 'list'))
    samples, slope = 2, 0.25
    X = IIDSimulator.simulate_pnl(A, samples, 'gauss', arg, None, f1, f2, slope)
    ctx.check(X.shape == (samples, n), 'the data has another shape')
    draws = [r for k, r in d.log if k == 'normal']
    used = set()
    for j in range(n):
        P = [i for i in range(n) if S[i][j]]
        found = False
        for k, e in enumerate(draws):
            if k in used or e.ndim != (2 if P else 1) or (P and e.shape[1] != len(P)):
                continue
            if all(bool(same(ctx, X[s, j], pnl_value(P, X[s], e[s], scale[j], f1, f2, slope))) for s in range(samples)):
                used.add(k)
                found = True
                break
        ctx.check(found, 'a variable is not the chosen functions of its parents and noise, sample by sample')
    ctx.cover('reached')


# ---------------------------------------------------------------- C23 time series
def lagged(ctx, n, lag, length, noise_type):
    d = setup(ctx)
    W = ctx.reals('w', (lag, n, n), -2, 2)
    arg, scale = scale_arg(ctx, n)
    seed = ctx.choice('seed', [None, 7])
    X = TimeLagSimulator.simulate_linear_anm(W, lag if ctx.bool('lag') else None, length, noise_type, arg, seed)
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(X.shape == (length + lag, n), 'the series has another shape')
    draws = [r for k, r in d.log if k == KIND[noise_type]]
    rows = [r for a in draws for r in (a if a.ndim == 2 else [a])]
    used = set()
    for t in range(length + lag):
        res = []
        for j in range(n):
            v = X[t, j]
            if t >= lag:
                v = v - sum(X[t - lag + l, i] * W[l, i, j] for l in range(lag) for i in range(n))
            res.append(v / scale[j])
        match(ctx, res, 1, rows, noise_type, used, 'a time point is not the lagged equation plus its scaled noise')
    ctx.cover('reached')


def lagged_logistic(ctx, n, lag, length):
    d = setup(ctx)
    W = ctx.reals('w', (lag, n, n), -2, 2)
    X = TimeLagSimulator.simulate_linear_anm(W, lag, length, 'logistic', None, None)
    draws = [r for k, r in d.log if k == 'binomial']
    ctx.check(len(draws) == length, 'a time point is not drawn once')
    for t in range(lag, length + lag):
        v, p = draws[t - lag]
        for j in range(n):
            lin = sum(X[t - lag + l, i] * W[l, i, j] for l in range(lag) for i in range(n))
            ctx.close(p[j], SI.sigmoid(lin), 'a time point is not drawn with the rate of the lagged equation')
            ctx.close(X[t, j], v[j], 'a time point is not the value drawn')
    ctx.cover('reached')


def lagged_nonlinear(ctx, n, lag, length, func, noise_type):
    """each time point is the chosen function of exactly the lagged parents plus scaled noise"""
    d = setup(ctx)
    A = np.zeros((lag, n, n))
    for l in range(lag):
        for i in range(n):
            for j in range(n):
                A[l, i, j] = 1.0 if ctx.bool('a%d%d%d' % (l, i, j)) else 0.0
    arg, scale = scale_arg(ctx, n, ('none', 'list'))
    seed = ctx.choice('seed', [None, 7])
    H = 2
    X = TimeLagSimulator.simulate_nonlinear_anm(A, lag, length, noise_type, arg, seed, func, H if func == 'mlp' else None)
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(X.shape == (length + lag, n), 'the series has another shape')
    kind = KIND[noise_type]
    rows = [r for k, r in d.log if k == kind and r.shape in ((lag, n), (n,))]
    ws = []
    for a, b in zip(d.log, d.log[1:]):
        if a[0] == 'uniform' and b[0] == 'rand':
            ws.append((a[1] * 1.5 + 0.5) * np.where(b[1] < 0.5, -1, 1))
    m = 2 if func == 'mlp' else 3
    for l in range(lag):
        for j in range(n):
            ctx.close(X[l, j], scale[j] * rows[0][l, j], 'the series does not start with scaled noise')
    for t in range(lag, length + lag):
        e = rows[1 + t - lag]
        for j in range(n):
            w = ws[((t - lag) * n + j) * m:][:m]
            past = [[X[t - lag + l, i] * A[l, i, j] for i in range(n)] for l in range(lag)]
            if func == 'mlp':
                f = sum(SI.sigmoid(sum(past[l][i] * w[0][i, k] for l in range(lag) for i in range(n))) * w[1][k] for k in range(H))
            else:
                lin = [sum(past[l][i] * v[i] for l in range(lag) for i in range(n)) for v in w]
                f = np.tanh(lin[0]) + np.cos(lin[1]) + np.sin(lin[2])
            ctx.close(X[t, j], f + scale[j] * e[j], 'a time point is not the function of its lagged parents plus scaled noise')
    ctx.cover('reached')


def lagged_pnl(ctx, n, lag, length, f1, f2):
    d = setup(ctx)
    A = np.zeros((lag, n, n))
    for l in range(lag):
        for i in range(n):
            for j in range(n):
                A[l, i, j] = 1.0 if ctx.bool('a%d%d%d' % (l, i, j)) else 0.0
    arg, scale = scale_arg(ctx, n, ('none', 'list'))
    slope = 0.25
    seed = ctx.choice('seed', [None, 7])
    X = TimeLagSimulator.simulate_pnl(A, lag, length, 'gauss', arg, seed, f1, f2, slope)
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(X.shape == (length + lag, n), 'the series has another shape')
    draws = [r for k, r in d.log if k == 'normal']
    for l in range(lag):
        for j in range(n):
            ctx.close(X[l, j], scale[j] * draws[0][l, j], 'the series does not start with scaled noise')
    for t in range(lag, length + lag):
        e = draws[1 + t - lag]
        for j in range(n):
            want = 0
            for k in range(n):
                inner = sum(elem(f1, X[t - lag + l, k] * A[l, k, j], slope) for l in range(lag))
                want = want + elem(f2, inner + scale[j] * e[k, j], slope)
            ctx.close(X[t, j], want, 'a time point is not the post-nonlinear equation of its parents')
    ctx.cover('reached')


# ---------------------------------------------------------------- C22 generators
def cycles(n):
    for k in range(2, n + 1):
        for c in permutations(range(n), k):
            if c[0] == min(c):
                yield c


def orientation(ctx, n):
    """orienting any undirected graph gives an acyclic graph with the same edges up to relabelling"""
    d = setup(ctx)
    sym = getattr(ctx, 'symbolic', False)
    G = np.zeros((n, n), dtype=object if sym else float)
    for i, j in combinations(range(n), 2):
        G[i, j] = G[j, i] = ctx.real('g%d%d' % (i, j), 0, 1)
    if not hasattr(UT, '_random_acyclic_orientation'):
        ctx.cover('reached')     # internal helper; 'erdos' asks the same of the public function
        return
    D = UT._random_acyclic_orientation(G)
    ctx.check(D.shape == (n, n), 'the oriented graph has another shape')
    tot = sum(G[i, j] for i, j in combinations(range(n), 2))
    ctx.close(sum(D[i, j] for i in range(n) for j in range(n)), tot, 'orienting a graph loses or doubles edges')
    for i in range(n):
        ctx.close(D[i, i], 0, 'an oriented graph has a loop')
    for c in cycles(n):
        p = 1
        for a, b in zip(c, c[1:] + c[:1]):
            p = p * D[a, b]
        ctx.close(p, 0, 'an oriented graph has a cycle')
    # as many neighbours: sum over nodes of squared degree is preserved (the skeleton is a relabelling)
    deg = lambda M: sum(sum(M[i, j] + M[j, i] for j in range(n)) ** 2 for i in range(n))
    ctx.close(deg(D), sum(sum(G[i, j] for j in range(n)) ** 2 for i in range(n)), 'orienting a graph changes its skeleton')
    ctx.cover('reached')


def weights(ctx, n, mask):
    d = setup(ctx, mask)
    A = np.zeros((n, n))
    for i, j in permutations(range(n), 2):
        A[i, j] = ctx.choice('a%d%d' % (i, j), [0, 1, 0.5] if n < 3 else [0, 1])
    lo, hi = ctx.choice('range', [(0.5, 2.0), (1, 3), (0.25, 0.25)])
    if not hasattr(UT, '_adj2weights'):
        ctx.cover('reached')
        return
    W = UT._adj2weights(A, n, (lo, hi) if ctx.bool('tuple') else [lo, hi])
    ctx.check(W.shape == (n, n), 'the weights have another shape')
    for i in range(n):
        for j in range(n):
            if A[i, j] == 0:
                ctx.close(W[i, j], 0, 'a missing edge has a weight')
            else:
                ctx.check((abs(W[i, j]) >= lo - 1e-9) & (abs(W[i, j]) <= hi + 1e-9), 'a weight is outside the range')
    ctx.cover('reached')


def erdos(ctx, n, weighted):
    """a random DAG of the requested size"""
    d = setup(ctx, mask=1)
    real = []
    m = ctx.int('m', 0, n * (n - 1) // 2)
    es = [(i, j) for i, j in combinations(range(n), 2)]

    def er(n=None, p=None, seed=None, directed=False, **k):
        real.append((n, p, seed, directed))
        g = nx.Graph()
        g.add_nodes_from(range(n))
        for i, j in es:
            if ctx.bool('g%d%d' % (i, j)):
                g.add_edge(i, j)
        real.append(g.number_of_edges())
        return g
    ctx.patch(nx, 'erdos_renyi_graph', er)
    seed = ctx.choice('seed', [None, 7])
    W = UT.erdos_renyi(n, m, (0.5, 2.0) if weighted else None, seed)
    ctx.check(len(real) == 2 and real[0][0] == n and real[0][2] == seed, 'the graph drawn has another size or seed')
    ctx.check(abs(real[0][1] - 2 * m / n ** 2) < 1e-9, 'the edge probability is not the one for the requested number of edges')
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(W.shape == (n, n), 'the graph has another shape')
    S = [[bool(W[i, j] != 0) for j in range(n)] for i in range(n)]
    R = reach_matrix(n, S)
    ctx.check(not any(S[i][j] and R[j][i] for i in range(n) for j in range(n)), 'the random graph has a cycle')
    ctx.check(sum(sum(r) for r in S) == real[1], 'the random graph has another number of edges than the graph drawn')
    for i in range(n):
        for j in range(n):
            if S[i][j]:
                if weighted:
                    ctx.check((abs(W[i, j]) >= 0.5 - 1e-9) & (abs(W[i, j]) <= 2 + 1e-9), 'a weight is outside the range')
                else:
                    ctx.check(W[i, j] == 1, 'an unweighted graph has weights')
    ctx.cover('an edge', real[1] > 0)


def transitions(ctx, n, lag):
    """every transition matrix has unit columns and an acceptable condition number"""
    d = setup(ctx)
    d.urange = [(0, 0.45), (0.55, 1)]
    conds = []

    def cond(A, *a, **k):
        c = 2.0 if not conds else ctx.choice('c%d' % len(conds), [2.0, 4.0]) if len(conds) < 3 else 1.0
        conds.append((A, c, A.copy()))
        return c
    ctx.patch(np.linalg, 'cond', cond)
    seed = ctx.choice('seed', [None, 7])
    M = UT.generate_lag_transitions(n, lag, seed, 25, 1)
    thr = conds[0][1]
    ctx.check(d.seeds == ([] if seed is None else [(7, 0)]), 'the seed is not set before the first draw, or set without one')
    ctx.check(M.shape == (lag, n, n), 'the transitions have another shape')
    for l in range(lag):
        B = M[l]
        for j in range(n):
            ctx.close(sum(B[i, j] ** 2 for i in range(n)), 1, 'a column of a transition matrix is not of unit length')
        hit = [c for A, c, A0 in conds[1:] if all(A0[i, j] is B[i, j] or (not getattr(ctx, 'symbolic', False) and same(ctx, A0[i, j], B[i, j])) for i in range(n) for j in range(n))]
        ctx.check(len(hit) > 0, 'a transition matrix was not checked')
        ctx.check(any(c <= thr for c in hit), 'a badly conditioned transition matrix is accepted')
    ctx.cover('rejected one', len(conds) > lag + 1)


def relu(ctx, n):
    x = [ctx.choice('i%d' % k, [-2, -1, 0, 1, 3]) for k in range(n)] if ctx.bool('ints') else None
    s = ctx.real('slope', 0.05, 2)
    setup(ctx)
    if x is None:
        v = ctx.reals('x', (n,), -3, 3)
        xs = list(v)
    else:
        v = np.array(x)
        xs = x
    r = UT.leaky_relu(v, s)
    ctx.check(np.shape(r) == (n,), 'the result has another shape')
    for a, b in zip(xs, r):
        ctx.close(b, a if bool(a > 0) else a * s, 'the leaky rectifier is wrong')
    ctx.cover('reached')


NL = {'uf': 'const', 'path_timeout': 200}
ORD3 = [2, 0, 1]

JOBS = {
    'C22': [
        Job('orient4', orientation, (4,), engine='fork', covers=['reached'], cost=3, bounds='any (weighted) undirected graph on 4 nodes, any permutations'),
        Job('weights2', weights, (2, 'free'), engine='fork', covers=['reached'], bounds='2 nodes, any signs'),
        Job('weights3', weights, (3, 2), engine='fork', covers=['reached'], cost=2, bounds='3 nodes, two free signs'),
        Job('erdos3', erdos, (3, False), engine='fork', covers=['an edge'], cost=3, bounds='3 nodes, any graph drawn'),
        Job('erdos3w', erdos, (3, True), engine='fork', covers=['an edge'], cost=3, bounds='3 nodes, any graph drawn, weights'),
        Job('transitions', transitions, (2, 2), engine='fork', covers=['rejected one'], cost=3, bounds='2 nodes, 2 lags', opts=NL),
        Job('relu3', relu, (3,), engine='fork', covers=['reached'], bounds='3 values, any slope', opts=NL),
    ],
    'C23': [
        Job('linear3', linear, (3, 2, 'gauss', None), engine='fork', covers=['simulated', 'rejected'], cost=3, bounds='any directed graph on 3 nodes, cycles included, 2 samples', opts=NL),
        Job('linear3s', linear, (3, 2, 'laplace', [1, 2, 0]), engine='fork', covers=['simulated'], cost=3, bounds='DAGs of one order on 3 nodes, every form of scale', opts=NL),
        Job('linear2u', linear, (2, 3, 'uniform', [1, 0]), engine='fork', covers=['simulated'], bounds='2 nodes, uniform noise', opts=NL),
        Job('linear2e', linear, (2, 3, 'exp', [1, 0]), engine='fork', covers=['simulated'], bounds='2 nodes, exponential noise', opts=NL),
        Job('linear2g', linear, (2, 3, 'gumbel', [1, 0]), engine='fork', covers=['simulated'], bounds='2 nodes, gumbel noise', opts=NL),
        Job('population4', population, (4,), engine='fork', covers=['reached'], cost=2, bounds='4 nodes, five weights', opts=NL),
        Job('logistic', discrete, (3, 1, 'logistic'), engine='fork', covers=['reached'], cost=2, bounds='3 nodes, 1 sample', opts=NL),
        Job('poisson', discrete, (2, 2, 'poisson'), engine='fork', covers=['reached'], cost=2, bounds='2 nodes, 2 samples', opts=NL),
        Job('badargs', bad_args, (), engine='fork', covers=['rejected', 'accepted'], bounds='scales of length 1 to 5', opts=NL),
    ],
    'C24': [
        Job('mlp3', nonlinear, (3, 'mlp', ORD3, None), engine='fork', covers=['reached'], cost=3, bounds='DAGs of one order on 3 nodes, fixed signs', opts=NL),
        Job('mlp2', nonlinear, (2, 'mlp', [1, 0], 4), engine='fork', covers=['reached'], cost=3, bounds='2 nodes, any signs', opts=NL),
        Job('mim3', nonlinear, (3, 'mim', ORD3, None), engine='fork', covers=['reached'], cost=3, bounds='DAGs of one order on 3 nodes, fixed signs', opts=NL),
        Job('mim2', nonlinear, (2, 'mim', [1, 0], 4), engine='fork', covers=['reached'], cost=3, bounds='2 nodes, any signs', opts=NL),
        Job('pnl3', pnl, (3, 'tanh', 'leaky_relu', ORD3), engine='fork', covers=['reached'], cost=3, bounds='DAGs of one order on 3 nodes', opts=NL),
        Job('pnl3c', pnl, (3, 'leaky_relu', 'cos', ORD3), engine='fork', covers=['reached'], cost=3, bounds='DAGs of one order on 3 nodes', opts=NL),
        Job('lagged2', lagged, (2, 2, 2, 'gauss'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 2 lags, 2 steps', opts=NL),
        Job('lagged2u', lagged, (2, 1, 3, 'uniform'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 1 lag, 3 steps', opts=NL),
        Job('lagged_log', lagged_logistic, (2, 2, 1), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 2 lags, 1 step', opts=NL),
        Job('lagged_mlp', lagged_nonlinear, (2, 2, 1, 'mlp', 'gauss'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 2 lags, 1 step', opts=NL),
        Job('lagged_mlp2', lagged_nonlinear, (2, 1, 2, 'mlp', 'laplace'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 1 lag, 2 steps', opts=NL),
        Job('lagged_mim', lagged_nonlinear, (2, 2, 1, 'mim', 'gauss'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 2 lags, 1 step', opts=NL),
        Job('lagged_pnl', lagged_pnl, (2, 2, 1, 'tanh', 'cos'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 2 lags, 1 step', opts=NL),
        Job('lagged_pnl1', lagged_pnl, (2, 1, 1, 'tanh', 'leaky_relu'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 1 lag, 1 step', opts=NL),
        Job('lagged_pnl2', lagged_pnl, (2, 1, 2, 'cos', 'tanh'), engine='fork', covers=['reached'], cost=3, bounds='2 variables, 1 lag, 2 steps', opts=NL),
    ],
}
