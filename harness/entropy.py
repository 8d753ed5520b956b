"""Harnesses over the utilities of the entropy-based learners: simulators, accuracy, and the linear learner."""
import types
from itertools import combinations, permutations, product

import igraph
import numpy as np
import sklearn.gaussian_process

import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.linear as LN
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils as EU

from harness.ref import *
from harness.registry import Job
from harness.simul import Draws, match1, sym_weights
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def support(L):
    return [[1 if bool(v != 0) else 0 for v in r] for r in L]


class GraphProxy:
    """igraph's Graph; matrices with symbolic entries are reduced to their support"""

    def __getattr__(self, k):
        return getattr(igraph.Graph, k)

    def __call__(self, *a, **k):
        return igraph.Graph(*a, **k)

    def Weighted_Adjacency(self, L, *a, **k):
        return igraph.Graph.Weighted_Adjacency(support(L), *a, **k)

    def Adjacency(self, L, *a, **k):
        return igraph.Graph.Adjacency(support(L), *a, **k)


def proxy(ctx, **methods):
    g = GraphProxy()
    for k, v in methods.items():
        setattr(g, k, v)
    m = types.SimpleNamespace(**{k: getattr(igraph, k) for k in dir(igraph) if not k.startswith('__')})
    m.Graph = g
    return m


class EDraws(Draws):
    """with the draws of integers; draws past the given number are fixed numbers"""

    def __init__(self, ctx, mask=None, free=None):
        Draws.__init__(self, ctx, mask)
        self.free = free
        ctx.patch(np.random, 'randint', self.randint)

    def fresh(self, kind, shape, lo, hi):
        if self.free is None:
            return Draws.fresh(self, kind, shape, lo, hi)
        k = len(self.log)
        r = np.empty(shape, dtype=object)
        for n, i in enumerate(np.ndindex(*r.shape)):
            if self.free > 0:
                self.free -= 1
                r[i] = self.ctx.real('%s%d_%d' % (kind[0], k, n), lo, hi)
            else:
                r[i] = lo + (hi - lo) * ((k * 37 + n * 11) % 64) / 64
        if not sym(self.ctx):
            r = r.astype(float)
        self.log.append((kind, r))
        return r

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        k = len(self.log)
        shape = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        r = np.zeros(shape, dtype=int)
        for n, i in enumerate(np.ndindex(*r.shape)):
            r[i] = self.ctx.int('ri%d_%d' % (k, n), lo, hi - 1) if n in self.ifree else lo + n % (hi - lo)
        self.log.append(('randint', r))
        return r if size is not None else int(r)
    ifree = ()


def setup(ctx, mask=None, free=None, **methods):
    d = EDraws(ctx, mask, free)
    symnp.install(ctx, zeros=True)
    if sym(ctx) or methods:
        ctx.patch(EU, 'ig', proxy(ctx, **methods))
    return d


def same(ctx, a, b):
    """the same number, up to the rounding of constants"""
    if not sym(ctx):
        return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    from vf import dse
    # the same function of the inputs (values that merely coincide do not count)
    return not dse.ratdiff(*[v.e if isinstance(v, dse.SymReal) else dse.rv(v) for v in (a, b)])


H12 = np.sqrt(12) / 2.


def std_noise(kind, r):
    """the standard noise behind a draw"""
    if kind == 'uniform':
        return [(2 * v - 1) * H12 for v in r]
    if kind == 'gumbel':
        return [v * np.sqrt(6 / (np.pi * np.pi)) for v in r]
    return list(r)


KIND = {'gauss': 'normal', 'exp': 'exponential', 'gumbel': 'gumbel', 'uniform': 'uniform'}


def pick(ctx, resid, scales, cols, used):
    """resid is a scale times one not yet used draw"""
    for s in scales:
        for k, c in enumerate(cols):
            if k not in used and len(c) == len(resid) and all(same(ctx, r, s * v) for r, v in zip(resid, c)):
                used.add(k)
                return True
    return False


# ---------------------------------------------------------------- C32 simulators
def dag(ctx, d, kind):
    """random graph: the generated graph, acyclically oriented (ER) and with nodes in random order"""
    made = []

    def gen(nm):
        def f(n=None, *a, **k):
            E = [(i, j) for i in range(d) for j in range(i + 1, d) if (kind != 'BP' or (i < 1 and j >= 1)) and ctx.bool('e%d%d' % (i, j))]
            if nm != 'ER':
                E = [(j, i) if nm == 'SF' else (i, j) for i, j in E]
            made.append((nm, n, a, k, E))
            return igraph.Graph(n=d, edges=E, directed=nm != 'ER')
        return f
    dr = setup(ctx, Erdos_Renyi=gen('ER'), Barabasi=gen('SF'), Random_Bipartite=gen('BP'))
    s0 = ctx.choice('s0', [d - 1, d, 2 * d])
    B = EU.simulate_dag(d, s0, kind)
    ctx.check(len(made) == 1 and made[0][0] == kind, 'another kind of graph')
    nm, n, a, k, E = made[0]
    if kind == 'ER':
        ctx.check(n == d and k.get('m') == s0 and not a, 'another number of nodes or edges')
    elif kind == 'SF':
        ctx.check(n == d and (k.get('m') if 'm' in k else a[0]) == round(s0 / d) and k.get('directed') is True, 'another number of nodes or edges')
    else:
        ctx.check(n == 1 and a == (d - 1,) and k.get('m') == s0 and k.get('directed') is True and k.get('neimode') == igraph.OUT, 'another number of nodes or edges')
    B = np.asarray(B)
    ctx.check(B.shape == (d, d) and all(v in (0, 1) for v in B.ravel()), 'not an adjacency matrix')
    F = {(i, j) for i in range(d) for j in range(d) if B[i, j] == 1}
    S = [[(i, j) in F for j in range(d)] for i in range(d)]
    R = reach_matrix(d, S)
    ctx.check(not any(S[i][j] and R[j][i] for i in range(d) for j in range(d)), 'the graph has a cycle')
    if kind == 'ER':
        iso = any({frozenset((p[i], p[j])) for i, j in E} == {frozenset(e) for e in F} for p in permutations(range(d))) and len(F) == len(E)
    else:
        iso = any({(p[i], p[j]) for i, j in E} == F for p in permutations(range(d)))
    ctx.check(iso, 'the graph is not the generated one up to the names of the nodes')
    ctx.cover('edges', len(F) > 1)


def parameters(ctx, n, ranges):
    d = setup(ctx)
    d.ifree = (0, 1, n * n - 1, n * n - n)
    B = np.array([[0 if i == j else int(bool(ctx.bool('b%d%d' % (i, j)))) if i < j else (i + j) % 2 for j in range(n)] for i in range(n)])
    rg = ctx.choice('ranges', ranges)
    W = EU.simulate_parameter(B) if rg is None else EU.simulate_parameter(B, rg)
    rg = ((-2.0, -0.5), (0.5, 2.0)) if rg is None else rg
    S = [r for k, r in d.log if k == 'randint']
    U = [r for k, r in d.log if k == 'uniform']
    ctx.check(len(S) == 1 and np.shape(W) == (n, n), 'shape')
    used = set()
    hit = set()
    for i in range(n):
        for j in range(n):
            if not B[i, j]:
                ctx.close(W[i, j], 0, 'a weight without an edge')
                continue
            ok = False
            for lo, hi in rg:
                for k, u in enumerate(U):
                    for c in np.ndindex(*u.shape):
                        if (k, c) not in used and not ok and same(ctx, W[i, j], lo + (hi - lo) * u[c]):
                            used.add((k, c))
                            hit.add((lo, hi))
                            ok = True
            ctx.check(ok, 'a weight is not a draw from one of the ranges of its own')
    ctx.cover('two ranges', len(hit) == 2)
    ctx.cover('reached', True)


def linear(ctx, n, samples, kind, tri, variable):
    d = setup(ctx)
    W, S = sym_weights(ctx, n, tri=tri)
    W0 = W.copy()
    R = reach_matrix(n, S)
    acyc = not any(S[i][j] and R[j][i] for i in range(n) for j in range(n))
    kw = {}
    if variable:
        if ctx.bool('range'):
            kw = {'scale_low': 0.5, 'scale_high': 2.5}
    else:
        f = ctx.choice('scale', ['none', 'scalar', 'list', 'array'] if tri else ['none'])
        scale = {'none': [1.0] * n, 'scalar': [0.5] * n}.get(f, [0.5, 2.0, 1.5, 0.25][:n])
        if f != 'none':
            kw = {'noise_scale': 0.5 if f == 'scalar' else list(scale) if f == 'list' else np.array(scale)}
    try:
        X = (EU.simulate_linear_sem_variable_scale if variable else EU.simulate_linear_sem)(W, samples, kind, **kw)
    except ValueError:
        ctx.check(not acyc, 'an acyclic model is rejected')
        ctx.cover('rejected')
        return
    ctx.check(acyc, 'a cyclic model is simulated')
    ctx.check(X.shape == (samples, n), 'the data has another shape')
    log = list(d.log)
    if variable:
        u = [k for k, (nm, r) in enumerate(log) if nm == 'uniform' and r.shape == (n,) and n != samples]
        ctx.check(len(u) >= 1, 'no scales drawn')
        lo, hi = kw.get('scale_low', 1.0), kw.get('scale_high', 10.0)
        scale = [lo + (hi - lo) * v for v in log.pop(u[0])[1]]
    cols = [std_noise(kind, r) for k, r in log if k == KIND[kind]]
    used = set()
    for j in range(n):
        resid = [X[s, j] - sum((X[s, i] * W[i, j] for i in range(n) if S[i][j]), 0) for s in range(samples)]
        ctx.check(pick(ctx, resid, [scale[j]], cols, used), 'a variable is not the weighted sum of its parents plus its scaled noise')
    for i in range(n):
        for j in range(n):
            ctx.check(W[i, j] is W0[i, j] or W[i, j] == W0[i, j], 'the simulation changes the weights')
    ctx.cover('simulated')


def discrete(ctx, n, samples, kind, variable):
    d = setup(ctx)
    W, S = sym_weights(ctx, n, tri=list(ctx.choice('order', list(permutations(range(n))))))
    X = (EU.simulate_linear_sem_variable_scale if variable else EU.simulate_linear_sem)(W, samples, kind)
    draws = [r for k, r in d.log if k == {'logistic': 'binomial', 'poisson': 'poisson'}[kind]]
    ctx.check(len(draws) == n, 'a variable is not drawn once')
    used = set()
    for j in range(n):
        hit = None
        lin = [sum((X[s, i] * W[i, j] for i in range(n) if S[i][j]), 0) for s in range(samples)]
        want = [EU.sigmoid(x) if kind == 'logistic' else np.exp(x) for x in lin]
        for k, (v, p) in enumerate(draws):
            if hit is None and k not in used and all(same(ctx, X[s, j], v[s]) and same(ctx, np.asarray(p)[s], want[s]) for s in range(samples)):
                hit = k
                used.add(k)
        ctx.check(hit is not None, 'a variable is not drawn with the rate its parents give')
    ctx.cover('reached')


def population(ctx, n, variable):
    d = setup(ctx)
    tri = list(ctx.choice('order', [[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0]]))
    tri = [t for t in tri if t < n]
    W = np.zeros((n, n), dtype=object) if sym(ctx) else np.zeros((n, n))
    for a, b in combinations(range(n), 2):
        if (a + b) % 2 == 1 or (a, b) == (0, 2):
            W[tri[a], tri[b]] = ctx.real('w%d%d' % (a, b), 0.25, 2)
    if variable:
        X = EU.simulate_linear_sem_variable_scale(W, np.inf, 'gauss')
        scale = [1 + 9 * v for v in [r for k, r in d.log if k == 'uniform'][0]]
    else:
        scale = [0.5, 2.0, 1.5, 0.25][:n]
        X = EU.simulate_linear_sem(W, np.inf, 'gauss', np.array(scale))
    C = np.dot(X.T, X) / n
    B = np.eye(n) - W
    E = np.dot(np.dot(B.T, C), B)
    for i in range(n):
        for j in range(n):
            ctx.close(E[i, j] + 1, scale[i] ** 2 + 1 if i == j else 1, 'the population covariance is not that of the model')
    ctx.cover('reached')


def bad(ctx):
    """unknown kinds and scales of another length are rejected"""
    setup(ctx)
    W = np.zeros((3, 3))
    W[0, 1] = 1.0
    f = ctx.choice('f', range(6))
    ln = ctx.int('len', 1, 5)
    good = False
    try:
        if f == 0:
            good = ln == 3
            EU.simulate_linear_sem(W, 2, 'gauss', [1.0] * ln)
        elif f == 1:
            EU.simulate_linear_sem(W, 2, 'cauchy')
        elif f == 2:
            EU.simulate_linear_sem(W, np.inf, 'exp')
        elif f == 3:
            EU.simulate_dag(3, 2, 'ZZ')
        elif f == 4:
            EU.simulate_nonlinear_sem(W, 2, 'mim', 'cauchy')
        else:
            EU.simulate_nonlinear_sem(W, 2, 'spline')
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == good, 'unknown kinds or scales of another length are simulated, or good ones rejected')
    ctx.cover('rejected', not ok)
    ctx.cover('accepted', ok)


def nonlinear(ctx, n, func, order, samples, kind='uniform', mask=None, free=None):
    """each variable is the chosen function of its parents only, plus its noise"""
    d = setup(ctx, mask=mask, free=free)
    calls = []

    class GP:
        def sample_y(self, X, n_samples=1, random_state=0):
            r = ctx.reals('g%d_' % len(calls), (len(X), 1), -3, 3)
            calls.append((np.array(X), r, random_state))
            return r
    ctx.patch(sklearn.gaussian_process, 'GaussianProcessRegressor', GP)
    tri = list(order)
    W, S = sym_weights(ctx, n, tri=tri)
    A = np.array([[1 if S[i][j] else 0 for j in range(n)] for i in range(n)])
    kw = {}
    scale = [1.0] * n
    if ctx.bool('scaled'):
        scale = [0.5, 2.0, 1.5, 0.25][:n]
        kw = {'noise_scale': np.array(scale)}
    if kind == 'uniform' and ctx.bool('default'):
        pass
    else:
        kw['noise_dist'] = kind
    X = EU.simulate_nonlinear_sem(A, samples, func, **kw)
    ctx.check(X.shape == (samples, n), 'the data has another shape')
    ws, wpos = [], set()
    for k, (a, b) in enumerate(zip(d.log, d.log[1:])):
        if a[0] == 'uniform' and b[0] == 'rand':
            ws.append((a[1] * 1.5 + 0.5) * np.where(b[1] < 0.5, -1, 1))
            wpos.add(k)
    cols = [std_noise(kind, r) for k, (nm, r) in enumerate(d.log) if nm == KIND[kind] and k not in wpos]
    m = {'mim': 3, 'gp': 0, 'gp-add': 0}.get(func, 2)
    used, wused = set(), set()
    for j in range(n):
        P = [i for i in range(n) if S[i][j]]
        x = X[:, P]
        cand = []
        if not P:
            cand = [((), [0] * samples)]
        elif m:
            for k in range(len(ws) - m + 1):
                c = tuple(range(k, k + m))
                w = ws[k:k + m]
                if wused & set(c) or any(v.shape[0] != len(P) for v in (w[:1] if m == 2 else w)) or (m == 2 and (w[0].ndim, w[1].ndim) != (2, 1)):
                    continue
                if m == 3:
                    f = [np.tanh((x @ w[0])[s]) + np.cos((x @ w[1])[s]) + np.sin((x @ w[2])[s]) for s in range(samples)]
                else:
                    h = x @ w[0]
                    act = EU.sigmoid if func == 'mlp' else lambda v: v ** int(func[3])
                    f = [sum(act(h[s, q]) * w[1][q] for q in range(len(w[1]))) for s in range(samples)]
                cand.append((c, f))
        elif func == 'gp':
            for k, (Z, r, rs) in enumerate(calls):
                if k not in wused and Z.shape == x.shape and all(same(ctx, p, q) for p, q in zip(Z.ravel(), x.ravel())):
                    cand.append(((k,), list(r.ravel())))
        else:
            hits = [[k for k, (Z, r, rs) in enumerate(calls) if k not in wused and Z.shape == (samples, 1) and
                     all(same(ctx, u, v) for u, v in zip(Z.ravel(), x[:, p]))] for p in range(len(P))]
            for c in product(*hits):
                if len(set(c)) == len(c):
                    cand.append((c, [sum(calls[k][1][s, 0] for k in c) for s in range(samples)]))
        found = False
        for c, f in cand:
            if pick(ctx, [X[s, j] - f[s] for s in range(samples)], [scale[j]], cols, used):
                wused |= set(c)
                found = True
                break
        ctx.check(found, 'a variable is not the chosen function of its parents plus its scaled noise')
    ctx.check(all(c[2] is None for c in calls), 'the random function is not random')
    ctx.cover('reached')


def pairwise(ctx, kind, samples):
    d = setup(ctx)
    w = ctx.real('weight', -3, 3)
    vc, ve = ctx.choice('var', [(1.0, 1.0), (4.0, 0.25)])
    direct, lin = ctx.choice('direct', [None, 0, 1]), bool(ctx.bool('linear'))
    kw = {} if direct is None else {'direct': direct}
    if (vc, ve) != (1.0, 1.0):
        kw.update(var_cause=vc, var_effect=ve)
    if not lin:
        kw['linear'] = False
    X = EU.simulate_pariwise(w, samples, distribution=kind, **kw)
    ctx.check(X.shape == (samples, 2), 'the data has another shape')
    c, e = (1, 0) if direct == 1 else (0, 1)
    kn = {'logistic': 'binomial', 'poisson': 'poisson'}.get(kind, KIND.get(kind))
    draws = [r for k, r in d.log if k == kn]
    if kind in ('logistic', 'poisson'):
        cols, sc = [list(v) for v, p in draws], (1, 1)
        ctx.check(kind == 'poisson' or all(abs(q - 0.6) < 1e-9 for v, p in draws for q in np.ravel(p)), 'another rate')
    elif kind == 'uniform':
        cols, sc = [[(2 * v - 1) * np.sqrt(3) for v in r] for r in draws], (vc ** 0.5, ve ** 0.5)
    else:
        cols, sc = [list(r) for r in draws], (vc ** 0.5, ve ** 0.5)
    used = set()
    ctx.check(pick(ctx, list(X[:, c]), [sc[0]], cols, used), 'the cause is not its scaled noise')
    f = [w * x if lin else np.tanh(x) + np.cos(x) + np.sin(x) for x in X[:, c]]
    ctx.check(pick(ctx, [X[s, e] - f[s] for s in range(samples)], [sc[1]], cols, used), 'the effect is not the function of the cause plus its scaled noise')
    ctx.cover('reached')


# ---------------------------------------------------------------- C33 accuracy
def marks(ctx, tag, n, vals, tri=None):
    r = np.zeros((n, n), dtype=object) if sym(ctx) else np.zeros((n, n))
    for i, j in permutations(range(n), 2):
        if tri is not None and tri.index(i) > tri.index(j):
            continue
        v = ctx.real('%s%d%d' % (tag, i, j), min(vals), max(vals))
        c = v == vals[0]
        for x in vals[1:]:
            c = c | (v == x)
        ctx.assume(c)
        r[i, j] = v
    return r


def accuracy(ctx, n, tri, vals, etri=None):
    symnp.install(ctx)
    if sym(ctx):
        ctx.patch(EU, 'ig', proxy(ctx))
    T_ = marks(ctx, 't', n, [0, 1], tri)
    P = marks(ctx, 'p', n, vals, etri)
    form = 'float' if sym(ctx) else ctx.choice('form', ['float', 'int', 'bool']) if -1 not in vals and 2 not in vals else 'float'
    if sym(ctx) and -1 not in vals and 2 not in vals:
        ctx.choice('form', ['float', 'int', 'bool'])
    Tn, Pn = (T_, P) if sym(ctx) else (T_.astype(int), P.astype({'float': float, 'int': int, 'bool': bool}[form]))
    try:
        r = EU.count_accuracy(Tn, Pn)
    except ValueError:
        r = None
    D = [[bool(P[i, j] == 1) for j in range(n)] for i in range(n)]
    U = [[bool(P[i, j] == -1) for j in range(n)] for i in range(n)]
    odd = any(bool(P[i, j] == 2) for i in range(n) for j in range(n))
    prs = list(combinations(range(n), 2))
    if any(D[i][j] and U[j][i] for i, j in permutations(range(n), 2)):
        return
    anyu = any(U[i][j] for i in range(n) for j in range(n))
    if anyu:
        good = not odd and not any(U[i][j] and U[j][i] for i, j in prs)
        if any(D[i][j] and D[j][i] for i, j in prs):
            return
    else:
        R = reach_matrix(n, D)
        good = not odd and not any(D[i][j] and R[j][i] for i in range(n) for j in range(n))
    ctx.check((r is not None) == good, 'an estimate is rejected, or one that is no graph is not')
    ctx.cover('rejected', r is None)
    if r is None or not good:
        return
    t = [[bool(T_[i, j] == 1) for j in range(n)] for i in range(n)]
    nt = sum(t[i][j] for i in range(n) for j in range(n))
    npred = sum(D[i][j] + U[i][j] for i in range(n) for j in range(n))
    adj = lambda M, i, j: M[i][j] or M[j][i]
    rev = sum(D[i][j] and t[j][i] and not t[i][j] for i, j in permutations(range(n), 2))
    fp = sum((D[i][j] or U[i][j]) and not adj(t, i, j) for i, j in permutations(range(n), 2))
    tp = sum((D[i][j] and t[i][j]) or (U[i][j] and adj(t, i, j)) for i, j in permutations(range(n), 2))
    diff = sum((adj(D, i, j) or adj(U, i, j)) != adj(t, i, j) for i, j in prs)
    want = {'fdr': (rev + fp) / max(npred, 1), 'tpr': tp / max(nt, 1), 'fpr': (rev + fp) / max(n * (n - 1) / 2 - nt, 1), 'shd': diff + rev, 'nnz': npred}
    ctx.check(set(r) == set(want), 'other figures')
    for k in want:
        ctx.check(abs(r[k] - want[k]) < 1e-9, k + ' is not the number of its definition')
    ctx.cover('reversed', rev > 0)
    ctx.cover('counted', True)

# ---------------------------------------------------------------- C34 linear learner
def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def cyc(W):
    """trace of (I + W*W/d)^d less d, and the power before the last"""
    d = len(W)
    M = [[(1 if i == j else 0) + W[i][j] * W[i][j] / d for j in range(d)] for i in range(d)]
    P = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
    for _ in range(d - 1):
        P = matmul(P, M)
    F = matmul(P, M)
    return sum(F[i][i] for i in range(d)) - d, P


def objective(ctx, kind, X, W, w, lam, rho, alpha):
    n, d = len(X), len(W)
    M = matmul(X, W)
    if kind == 'l2':
        loss = sum((X[s][j] - M[s][j]) ** 2 for s in range(n) for j in range(d)) * 0.5 / n
        D = [[M[s][j] - X[s][j] for j in range(d)] for s in range(n)]
    elif kind == 'logistic':
        loss = sum(np.logaddexp(0, M[s][j]) - X[s][j] * M[s][j] for s in range(n) for j in range(d)) / n
        D = [[LN.sigmoid(M[s][j]) - X[s][j] for j in range(d)] for s in range(n)]
    else:
        loss = sum(np.exp(M[s][j]) - X[s][j] * M[s][j] for s in range(n) for j in range(d)) / n
        D = [[np.exp(M[s][j]) - X[s][j] for j in range(d)] for s in range(n)]
    h, P = cyc(W)
    G = [[sum(X[s][i] * D[s][j] for s in range(n)) / n + (rho * h + alpha) * 2 * W[i][j] * P[j][i] for j in range(d)] for i in range(d)]
    g = [G[i][j] + lam for i in range(d) for j in range(d)] + [lam - G[i][j] for i in range(d) for j in range(d)]
    return loss + 0.5 * rho * h * h + alpha * h + lam * sum(w), g


XD = [[0.5, -1.25, 2.0], [1.5, 0.25, -0.5], [-1.0, 2.0, 0.75], [2.5, -0.75, 1.0]]


def learner(ctx, kind, d, samples, rounds, steps, free_w, free_x, defaults):
    """the optimisation problems posed, and the result, for any solutions"""
    symnp.install(ctx, zeros=True)
    X0 = [[ctx.real('x%d%d' % (s, j), -2, 2) if (s, j) in free_x else XD[s][j] for j in range(d)] for s in range(samples)]
    X = np.array(X0, dtype=object if sym(ctx) else float)
    mean = [sum(X0[s][j] for s in range(samples)) / samples for j in range(d)]
    Xc = [[X0[s][j] - (mean[j] if kind == 'l2' else 0) for j in range(d)] for s in range(samples)]
    lam = ctx.real('lambda', 0, 1) if defaults == 'free' else 0.25
    kw = {} if defaults is True else {'max_iter': rounds, 'rho_max': 10.0 ** steps, 'h_tol': 0.0625, 'w_threshold': 0.5}
    thr, tol, rmax, mx = (0.3, 1e-8, 1e16, 100) if defaults is True else (0.5, 0.0625, 10.0 ** steps, rounds)
    st = {'rho': 1.0, 'alpha': 0, 'h': None, 'w': [0] * (2 * d * d), 'it': 0, 'done': False}
    sols = []

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **k):
        ctx.check(not st['done'] and len(sols) < 8, 'an optimisation after the end')
        ctx.check(method == 'L-BFGS-B' and jac is True, 'another optimiser')
        bd = [tuple(b) for b in bounds]
        ctx.check(bd == [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)], 'bounds')
        for a, b in zip(list(x0), st['w']):
            ctx.close(a, b, 'the optimisation does not start from the last solution')
        t = len(sols)
        w = [ctx.real('w%d_%d' % (t, k), 0, 2) if k in free_w and t < 2 else ((k * 7 + t) % 5) / 4 for k in range(2 * d * d)]
        W = [[w[i * d + j] - w[d * d + i * d + j] for j in range(d)] for i in range(d)]
        obj, g = fun(np.array(w, dtype=object if sym(ctx) else float), *args)
        want, wg = objective(ctx, kind, Xc, W, w, lam, st['rho'], st['alpha'])
        ctx.close(obj, want, 'the objective is not the augmented Lagrangian')
        ctx.check(len(g) == 2 * d * d, 'shape of the gradient')
        for a, b in zip(list(np.ravel(g)), wg):
            ctx.close(a, b, 'the gradient is not that of the objective')
        # any solution: an edge of any weight, and a reverse one or none
        x = [0] * (2 * d * d)
        x[1] = ctx.choice('s%d' % t, [0.125, 1.0]) if defaults is True and not t else ctx.real('s%d' % t, 0, 2)
        ctx.assume(abs(x[1] - thr) > 1e-6)
        x[d * d + 1] = ctx.choice('n%d' % t, [0, 0.25])
        ctx.assume(abs(abs(x[1] - x[d * d + 1]) - thr) > 1e-6)
        x[d] = 0 if defaults is True and t else ctx.choice('r%d' % t, [0, 1.0])
        x[d * d + d] = 0.25 if t % 2 else 0
        if d > 2:
            x[d * d + 2], x[d * d + d + 2] = 0.75, 0.375
        S = [[x[i * d + j] - x[d * d + i * d + j] for j in range(d)] for i in range(d)]
        h, _ = cyc(S)
        sols.append(S)
        if st['h'] is not None:
            ctx.assume(abs(h - st['h'] / 4) > 1e-6)
        ctx.assume(abs(h - tol) > tol / 100)
        accept = not (st['h'] is not None and bool(h > st['h'] / 4))
        if not accept:
            st['rho'] *= 10
            ctx.cover('penalty raised')
        if accept or st['rho'] >= rmax:
            st['w'], st['h'] = list(x), h
            st['alpha'] = st['alpha'] + st['rho'] * h
            st['it'] += 1
            st['done'] = st['it'] >= mx or bool(h <= tol) or st['rho'] >= rmax
        return types.SimpleNamespace(x=np.array(x, dtype=object if sym(ctx) else float), fun=0.0, success=True)
    ctx.patch(LN.sopt, 'minimize', minimize)
    Wr = LN.notears_linear(X, lam, kind, **kw)
    ctx.check(st['done'], 'the search stops early')
    S = sols[-1]
    ctx.check(np.shape(Wr) == (d, d), 'shape')
    for i in range(d):
        for j in range(d):
            v = S[i][j]
            ctx.close(Wr[i, j], v if bool(abs(v) >= thr) else 0, 'the result is not the last solution less its small weights')
    ctx.check(all(X[s, j] is X0[s][j] or X[s, j] == X0[s][j] for s in range(samples) for j in range(d)), 'the data changes')
    ctx.cover('several rounds', st['it'] > 1)
    ctx.cover('reached', True)


NL = {'uf': 'const', 'guard': 'assume'}
O3 = [1, 2, 0]
JOBS = {
    'C32': [
        Job('er3', dag, (3, 'ER'), engine='fork', covers=['edges'], bounds='3 nodes, any undirected graph, any permutations'),
        Job('sf3', dag, (3, 'SF'), engine='fork', covers=['edges'], bounds='3 nodes, any directed acyclic graph of one order'),
        Job('bp4', dag, (4, 'BP'), engine='fork', tiers=T, covers=['edges'], bounds='4 nodes, one of them on top'),
        Job('bp3', dag, (5, 'BP'), engine='fork', tiers=T, covers=['edges'], bounds='5 nodes, one of them on top'),
        Job('er4', dag, (4, 'ER'), engine='fork', tiers=T, covers=['edges'], bounds='4 nodes'),
        Job('weights2', parameters, (2, [None, ((-3.0, -1.0), (0.25, 0.5)), ((1.0, 2.0),)]), engine='fork', covers=['two ranges', 'reached'], bounds='2 nodes', opts=NL),
        Job('weights3', parameters, (3, [None, ((0.5, 1.0), (2.0, 3.0))]), engine='fork', covers=['two ranges', 'reached'], cost=2, bounds='3 nodes', opts=NL),
        Job('linear3', linear, (3, 2, 'gauss', None, False), engine='fork', covers=['simulated', 'rejected'], cost=3, bounds='any directed graph on 3 nodes, cycles included', opts=NL),
        Job('linear3v', linear, (3, 2, 'uniform', O3, True), engine='fork', covers=['simulated'], cost=2, bounds='DAGs of one order on 3 nodes, any scales', opts=NL),
        Job('linear3s', linear, (3, 2, 'uniform', O3, False), engine='fork', covers=['simulated'], cost=2, bounds='DAGs of one order on 3 nodes, every form of scale', opts=NL),
        Job('linear2e', linear, (2, 3, 'exp', [1, 0], False), engine='fork', covers=['simulated'], bounds='2 nodes, exponential noise', opts=NL),
        Job('linear2g', linear, (2, 3, 'gumbel', [1, 0], False), engine='fork', covers=['simulated'], bounds='2 nodes, gumbel noise', opts=NL),
        Job('linear2n', linear, (2, 3, 'gauss', [1, 0], True), engine='fork', covers=['simulated'], bounds='2 nodes, any scales, gaussian noise', opts=NL),
        Job('linear2ve', linear, (2, 3, 'exp', [1, 0], True), engine='fork', covers=['simulated'], bounds='2 nodes, any scales, exponential noise', opts=NL),
        Job('linear2vg', linear, (2, 3, 'gumbel', [1, 0], True), engine='fork', covers=['simulated'], bounds='2 nodes, any scales, gumbel noise', opts=NL),
        Job('cyclic2v', linear, (2, 3, 'gauss', None, True), engine='fork', covers=['simulated', 'rejected'], bounds='2 nodes, cycles included, any scales', opts=NL),
        Job('logistic', discrete, (3, 1, 'logistic', False), engine='fork', covers=['reached'], cost=2, bounds='3 nodes, 1 sample', opts=NL),
        Job('poisson', discrete, (2, 2, 'poisson', False), engine='fork', covers=['reached'], bounds='2 nodes, 2 samples', opts=NL),
        Job('logisticv', discrete, (2, 2, 'logistic', True), engine='fork', covers=['reached'], bounds='2 nodes, 2 samples', opts=NL),
        Job('poissonv', discrete, (2, 1, 'poisson', True), engine='fork', covers=['reached'], bounds='2 nodes, 1 sample', opts=NL),
        Job('population3', population, (3, False), engine='fork', covers=['reached'], bounds='3 nodes', opts=NL),
        Job('population3v', population, (3, True), engine='fork', covers=['reached'], bounds='3 nodes, any scales', opts=NL),
        Job('bad', bad, (), engine='fork', covers=['rejected', 'accepted'], bounds='unknown kinds, lengths 1 to 5', opts=NL),
        Job('mim3', nonlinear, (3, 'mim', O3, 2), engine='fork', covers=['reached'], cost=2, bounds='DAGs of one order on 3 nodes, fixed signs', opts=NL),
        Job('mim2', nonlinear, (2, 'mim', [1, 0], 1, 'gauss', 4), engine='fork', covers=['reached'], cost=2, bounds='2 nodes, any signs', opts=NL),
        Job('pow2', nonlinear, (2, 'pow2', [1, 0], 1, 'exp'), engine='fork', covers=['reached'], cost=2, bounds='2 nodes', opts=NL),
        Job('pow3', nonlinear, (2, 'pow3', [0, 1], 1, 'gumbel', None, 8), engine='fork', covers=['reached'], cost=2, bounds='2 nodes, 8 draws free', opts=NL),
        Job('pow2b', nonlinear, (3, 'pow2', O3, 2, 'uniform', None, 12), engine='fork', covers=['reached'], cost=2, bounds='3 nodes, 12 draws free', opts=NL),
        Job('mlp2', nonlinear, (2, 'mlp', [1, 0], 1, 'uniform', None, 6), engine='fork', covers=['reached'], cost=2, bounds='2 nodes, 6 draws free', opts=NL),
        Job('gp3', nonlinear, (3, 'gp', O3, 2), engine='fork', covers=['reached'], cost=2, bounds='DAGs of one order on 3 nodes', opts=NL),
        Job('gpadd3', nonlinear, (3, 'gp-add', O3, 2, 'gauss'), engine='fork', covers=['reached'], cost=2, bounds='DAGs of one order on 3 nodes', opts=NL),
    ] + [Job('pair_' + k, pairwise, (k, 2), engine='fork', covers=['reached'], bounds='2 samples, any weight', opts=NL)
         for k in ('gauss', 'uniform', 'gumbel', 'exp', 'logistic', 'poisson')],
    'C34': [
        Job('l2', learner, ('l2', 2, 3, 2, 2, (1, 2, 5, 6), [(0, 1)], False), engine='fork', covers=['reached', 'several rounds', 'penalty raised'], cost=4, bounds='2 variables, 3 records, one of the cells and four weights free; 2 rounds, 2 penalties', opts=NL),
        Job('defaults', learner, ('l2', 2, 2, 0, 0, (2,), [], True), engine='fork', covers=['reached', 'several rounds'], cost=2, bounds='2 variables, 2 records, default options', opts=NL),
        Job('lambda', learner, ('l2', 2, 2, 1, 1, (1,), [], 'free'), engine='fork', covers=['reached'], cost=2, bounds='2 variables, 2 records, any penalty weight', opts=NL),
        Job('l2d3', learner, ('l2', 3, 2, 1, 1, (1, 3, 14), [(1, 2)], False), engine='fork', covers=['reached'], cost=3, bounds='3 variables, 2 records; 3 weights and a cell free', opts=NL),
        Job('logistic', learner, ('logistic', 2, 2, 2, 2, (1, 6), [], False), engine='fork', covers=['reached', 'several rounds', 'penalty raised'], cost=4, bounds='2 variables, 2 records; 2 weights free', opts=NL),
        Job('poisson', learner, ('poisson', 2, 2, 2, 1, (1, 2), [], False), engine='fork', covers=['reached'], cost=4, bounds='2 variables, 2 records; 2 weights free', opts=NL),
    ],
    'C33': [
        Job('dag3', accuracy, (3, O3, [0, 1]), engine='fork', covers=['reversed', 'counted', 'rejected'], cost=3, bounds='3 nodes, DAGs of one order, any directed estimate'),
        Job('cpdag3', accuracy, (3, [2, 0, 1], [0, 1, -1]), engine='fork', covers=['reversed', 'counted', 'rejected'], cost=5, bounds='3 nodes, DAGs of one order, any estimate with undirected edges'),
        Job('odd2', accuracy, (2, [1, 0], [0, 1, -1, 2]), engine='fork', covers=['counted', 'rejected'], bounds='2 nodes, other values'),
        Job('dag4', accuracy, (4, [3, 1, 0, 2], [0, 1], [0, 2, 3, 1]), engine='fork', tiers=T, covers=['reversed', 'counted'], cost=5, bounds='4 nodes, truth and estimate of one order each'),
    ],
}
ASSUME = {
    'C32': ['np.random and igraph\'s random generators are replaced by functions that return any value of their support', 'Gaussian process samples are any numbers'],
    'C34': ['scipy minimize is replaced by any solutions; exp, sigmoid and softplus are uninterpreted'],
    'C33': ['no pair has an arrow one way and an undirected mark the other way'],
}
