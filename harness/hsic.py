"""Harnesses over the HSIC statistics and the additive noise model."""
import math
from itertools import permutations

import numpy as np
from scipy.stats import gamma
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.preprocessing import scale

import cdmir.discovery.funtional_based.anm.ANM as A
import cdmir.utils.independence.functional.HSIC as H

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


class Arr(np.ndarray):
    """array whose symbolic numbers survive a conversion to float"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)


def vec(ctx, v):
    if not sym(ctx):
        return np.array(v, dtype=float)
    return np.array(v, dtype=object).view(Arr)


def sample(ctx, name, base, free, span=None):
    """fixed records, some of them any number; no two equal"""
    v = list(base)
    for i in free:
        v[i] = ctx.real('%s%d' % (name, i), -4, 4) if span is None else ctx.real('%s%d' % (name, i), v[i] - span, v[i] + span)
    for i in range(len(v)):
        for j in range(i):
            if i in free or j in free:
                ctx.assume(abs(v[i] - v[j]) > 0.03125)
    return v


def sq2(v):
    n = len(v)
    return [[(v[i] - v[j]) * (v[i] - v[j]) for j in range(n)] for i in range(n)]


def kernel(ctx, v, width):
    """Gaussian kernel; no width given: half of the median of the squared distances is the squared width"""
    D = sq2(v)
    n = len(v)
    if width == -1:
        L = [D[i][j] for i in range(n) for j in range(i + 1, n)]
        w2 = 0.5 * symnp._median(np.array(L, dtype=object if sym(ctx) else float))
    else:
        w2 = width * width
    K = np.empty((n, n), dtype=object if sym(ctx) else float)
    for i in range(n):
        for j in range(n):
            K[i, j] = np.exp(-0.5 * D[i][j] / w2)
    return K


def centred(K):
    n = len(K)
    r = [sum(K[i, j] for j in range(n)) / n for i in range(n)]
    t = sum(r) / n
    C = np.empty(K.shape, dtype=K.dtype)
    for i in range(n):
        for j in range(n):
            C[i, j] = K[i, j] - r[i] - r[j] + t
    return C


def hsic(ctx, x, y, sx=-1, sy=-1):
    P, R = centred(kernel(ctx, x, sx)), centred(kernel(ctx, y, sy))
    n = len(x)
    return sum(P[i, j] * R[i, j] for i in range(n) for j in range(n)) / n


def standard(ctx, v):
    n = len(v)
    m = sum(v) / n
    s2 = sum((a - m) * (a - m) for a in v) / n
    sd = s2.sqrt() if hasattr(s2, 'sqrt') else math.sqrt(s2)
    return [(a - m) / sd for a in v]


XB = [0.5, -1.25, 2.0, 3.5, -0.25, 1.125, -3.0]
YB = [1.0, 2.75, -0.5, 0.25, 4.0, -2.0, 0.625]


def fast(ctx, n, fx, fy, given, column, span=None):
    """the statistic of the additive noise model for any records"""
    symnp.install(ctx, zeros=True)
    x, y = sample(ctx, 'x', XB[:n], fx, span), sample(ctx, 'y', YB[:n], fy, span)
    kw, s = {}, [-1, -1]
    if given:
        s = ctx.choice('sig', [[0.5, 2.0], [1.5, -1], [-1, 1.5]])
        kw['sig'] = list(s)
    X, Y = vec(ctx, x), vec(ctx, y)
    if column:
        X, Y = X.reshape(-1, 1), Y.reshape(-1, 1)
    maxp = ctx.choice('maxpnt', [None, 3, 200]) if n == 5 else None
    if maxp:
        kw['maxpnt'] = maxp
    if maxp == 3:
        x, y = x[::2], y[::2]
        ctx.cover('thinned', True)
    K0 = list(X.ravel()) + list(Y.ravel())
    r = A.FastHsicTestGamma(X, Y, **kw)
    ctx.close(r, hsic(ctx, x, y, *s), 'the statistic is not the trace of the product of the centred Gaussian kernels over the number of records')
    ctx.check(all(a is b or a == b for a, b in zip(K0, list(X.ravel()) + list(Y.ravel()))), 'the data changes')
    ctx.cover('reached', True)


def normalised(ctx, n, fx, fy, span=None):
    symnp.install(ctx, zeros=True)
    x, y = sample(ctx, 'x', XB[:n], fx, span), sample(ctx, 'y', YB[:n], fy, span)
    r = A.normalized_hsic(vec(ctx, x).reshape(-1, 1), vec(ctx, y).reshape(-1, 1))
    ctx.close(r, hsic(ctx, standard(ctx, x), standard(ctx, y)), 'the statistic is not that of the standardised records')
    ctx.cover('reached', True)


def anm(ctx, n, free, both, span=None):
    """scores of the two directions for any fitted values"""
    symnp.install(ctx, zeros=True)
    x, y = list(XB[:n]), list(YB[:n])
    asked = []
    fit = [sample(ctx, 'f%d_' % d, ([0.25, -1.0, 1.5, 0.75, -2.0, 0.5] if d == 0 else [-0.75, 1.25, 0.5, -1.5, 2.5, 0.125])[:n], free if d == both else [], span) for d in range(2)]

    class GP:
        def __init__(self, *a, **k):
            self.xy = None

        def fit(self, X, Y):
            self.xy = (np.array(X), np.array(Y))
            return self

        def predict(self, X, **k):
            asked.append((self.xy, np.array(X)))
            v = fit[min(len(asked), 2) - 1]
            r = vec(ctx, v)
            return r if ctx.bool('flat') or np.ndim(self.xy[1]) == 1 else r.reshape(-1, 1)
    symnp.replace(ctx, GaussianProcessRegressor, GP)
    if sym(ctx):
        # scaling of fixed numbers, kept as an array of objects
        symnp.replace(ctx, scale, lambda v, *a, **k: np.array(scale(np.asarray(v, dtype=float), *a, **k), dtype=object).view(Arr))
    f, b = A.ANM().cause_or_effect(np.array(x), np.array(y))
    ctx.check(len(asked) == 2, 'two regressions')
    zs = standard(ctx, x), standard(ctx, y)
    res = []
    for d in range(2):
        (X, Y), Z = asked[d]
        c, e = (zs[0], zs[1]) if d == 0 else (zs[1], zs[0])
        ctx.check(np.shape(X) == (n, 1) and np.size(Y) == n and np.shape(Z) == (n, 1), 'shapes of the regression')
        for i in range(n):
            ctx.close(X[i, 0], c[i], 'the regression is not on the standardised cause')
            ctx.close(np.ravel(Y)[i], e[i], 'the regression is not of the standardised effect')
            ctx.close(Z[i, 0], c[i], 'the fitted values are not those of the cause')
        res.append(hsic(ctx, standard(ctx, [fit[d][i] - e[i] for i in range(n)]), standard(ctx, c)))
    ctx.close(f, res[0], 'the forward score is not the dependence of residual and cause')
    ctx.close(b, res[1], 'the backward score is not the dependence of residual and cause')
    ctx.cover('reached', True)


# ---------------------------------------------------------------- HSIC gamma test
def moments(ctx, K, L):
    n = len(K)
    P, R = centred(K), centred(L)
    stat = sum(P[i, j] * R[i, j] for i in range(n) for j in range(n)) / n
    off = [(i, j) for i in range(n) for j in range(n) if i != j]
    v = sum((P[i, j] * R[i, j] / 6) * (P[i, j] * R[i, j] / 6) for i, j in off) / (n * (n - 1))
    v = v * 72 * (n - 4) * (n - 5) / (n * (n - 1) * (n - 2) * (n - 3))
    mx = sum(K[i] for i in off) / (n * (n - 1))
    my = sum(L[i] for i in off) / (n * (n - 1))
    m = (1 + mx * my - mx - my) / n
    return stat, m, v


class Gamma:
    """the gamma distribution, with its inverse an uninterpreted function"""

    def __init__(self, ctx):
        self.ctx = ctx

    def cdf(self, x, a, loc=0, scale=1):
        return self._each('gammacdf', x, a, loc, scale)

    def ppf(self, q, a, loc=0, scale=1):
        return self._each('gammappf', q, a, loc, scale)

    def _each(self, nm, *a):
        B = np.broadcast_arrays(*[np.asarray(v, dtype=object) for v in a])
        R = np.empty(B[0].shape, dtype=object)
        for i in np.ndindex(*R.shape):
            R[i] = self.ctx.uf(nm, *[b[i] for b in B])
        return R if R.shape else R.item()


def gamma_test(ctx, n, fx, fy, span):
    symnp.install(ctx, zeros=True)
    if sym(ctx):
        G = Gamma(ctx)
        symnp.replace(ctx, gamma, G)
    else:
        G = gamma
    x, y = sample(ctx, 'x', XB[:n], fx, span), sample(ctx, 'y', YB[:n], fy, span)
    alpha = ctx.choice('alpha', [None, 0.2])
    stat, m, v = moments(ctx, kernel(ctx, x, -1), kernel(ctx, y, -1))
    X, Y = vec(ctx, x), vec(ctx, y)
    s, th = H.hsic_gam(X.reshape(-1, 1), Y.reshape(-1, 1), alpha) if alpha else H.hsic_gam(X.reshape(-1, 1), Y.reshape(-1, 1))
    ctx.close(s, stat, 'the statistic is not the trace of the product of the centred Gaussian kernels over the number of records')
    ctx.close(th, G.ppf(1 - (alpha or 0.01), m * m / v, scale=v * n / m), 'the threshold is not the quantile of the matched gamma distribution')
    ctx.cover('reached', True)


def decision(ctx):
    """the decision for any statistic and threshold"""
    s, th = ctx.real('stat', 0, 3), ctx.real('threshold', 0, 3)
    ctx.assume(s != th)
    asked = []

    def gam(X, Y, alph=0.01):
        asked.append((np.array(X), np.array(Y), alph))
        return s, th
    ctx.patch(H, 'hsic_gam', gam)
    x, y = np.array(XB[:4]), np.array(YB[:4])
    alpha = ctx.choice('alpha', [None, 0.2])
    r = H.test(x, y) if alpha is None else H.test(x, y, alpha)
    ctx.check(len(asked) == 1, 'one test')
    X, Y, a = asked[0]
    ctx.check(np.array_equal(X, x.reshape(-1, 1)) and np.array_equal(Y, y.reshape(-1, 1)), 'the test is of other records')
    ctx.check(a == (0.05 if alpha is None else alpha), 'another level')
    ctx.check(bool(r) == bool(s < th), 'independent exactly when the statistic is below the threshold')
    ctx.cover('independent', bool(r))
    ctx.cover('dependent', not bool(r))


E1 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}
JOBS = {
    'C31': [
        Job('fast3', fast, (3, [2], [0], False, False), engine='fork', covers=['reached'], bounds='3 records, one free value in each variable', opts=E1),
        Job('fast4', fast, (4, [1], [], True, True), engine='fork', covers=['reached'], bounds='4 records in columns, given widths', opts=E1),
        Job('fast5', fast, (5, [2], [], False, False, 0.5), engine='fork', covers=['reached', 'thinned'], bounds='5 records, at most 3 used', opts=E1),
        Job('norm3', normalised, (3, [2], [], 0.125), engine='fork', covers=['reached'], bounds='3 records, one value in an interval', opts=dict(E1, sqfact=False)),
        Job('anm3', anm, (3, [1], 0, 0.125), engine='fork', covers=['reached'], bounds='3 records, one fitted value in an interval', opts=E1),
        Job('anm3b', anm, (3, [1], 1, 0.125), engine='fork', covers=['reached'], bounds='3 records, one fitted value in an interval (backward)', opts=E1),
        Job('gam6x', gamma_test, (6, [2], [], 0.125), engine='fork', covers=['reached'], bounds='6 records, one value of the first variable in an interval', opts=E1),
        Job('gam6y', gamma_test, (6, [], [4], 0.125), engine='fork', covers=['reached'], bounds='6 records, one value of the second variable in an interval', opts=E1),
        Job('gam7', gamma_test, (7, [3], [], 0.0625), engine='fork', covers=['reached'], cost=3, bounds='7 records, one value of the first variable in an interval', opts=E1),
        Job('decision', decision, (), engine='fork', covers=['independent', 'dependent'], bounds='any statistic and threshold'),
    ],
}
ASSUME = {'C31': ['exp, square root and the gamma quantile are uninterpreted', 'the Gaussian process is replaced by any fitted values', 'no two records are equal']}
