"""Harnesses over kernels and kernel independence tests."""
import math
from itertools import combinations, permutations, product

import numpy as np
import pandas as pd

from cdmir.utils.independence.kernel_based import KCI
from cdmir.utils.independence.functional.kci import KCI as SimpleKCI
from cdmir.utils.kernel import BaseKernel, GaussianKernel, LinearKernel, PolynomialKernel
from scipy.stats import gamma

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)
WS = GaussianKernel.WidthStrategyEnum


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def new(ctx, shape):
    return np.zeros(shape, dtype=object if sym(ctx) else float)


def expo(ctx, v):
    return np.exp(v)


# ---------------------------------------------------------------- C25 kernels
def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


def sq(x, y):
    return sum((a - b) * (a - b) for a, b in zip(x, y))


def poly(v, deg):
    r = 1
    for _ in range(deg):
        r = r * v
    return r


def want(ctx, kind, par, X, Y):
    R = new(ctx, (len(X), len(Y)))
    for i in range(len(X)):
        for j in range(len(Y)):
            if kind == 'linear':
                R[i, j] = dot(X[i], Y[j])
            elif kind == 'poly':
                R[i, j] = poly(par[1] + dot(X[i], Y[j]), par[0])
            else:
                R[i, j] = expo(ctx, -0.5 * par[0] * sq(X[i], Y[j]))
    return R


def same(ctx, A, B, label):
    ctx.check(np.shape(A) == np.shape(B), label + ' (shape)')
    A, B = np.asarray(A), np.asarray(B)
    for i in np.ndindex(*B.shape):
        ctx.close(A[i], B[i], label)


def distinct(ctx, L):
    for u, v in combinations(L, 2):
        ctx.assume(u != v)


def kernel_hist(ctx, kind, n, m, d, calls):
    """any history of questions on one kernel object, with the arrays and parameters changed in between"""
    symnp.install(ctx)
    if calls == 1:
        A = ctx.reals('a', (n, d), -2, 2)
        B = ctx.reals('b', (m, d), -2, 2)
    else:
        # one cell of each array is any number
        A, B = new(ctx, (n, d)), new(ctx, (m, d))
        A[:] = np.arange(n * d).reshape(n, d) + 3
        B[:] = np.arange(m * d).reshape(m, d) - 9
        A[n - 1, 0] = ctx.real('a', -2, 2)
        B[0, d - 1] = ctx.real('b', -2, 2)
    C = A.copy()
    if not ctx.bool('same'):
        C[n - 1, 0] = ctx.real('c', -2, 2)       # differs from A in one cell (or not at all)
    distinct(ctx, list(A.ravel()) + list(B.ravel()) + ([] if C[n - 1, 0] is A[n - 1, 0] else [C[n - 1, 0]]))
    if kind == 'linear':
        k, par = LinearKernel(), None
    elif kind == 'poly':
        deg = ctx.choice('deg', [1, 2, 3])
        const = ctx.real('const', -2, 2)
        k, par = PolynomialKernel(deg, const), [deg, const]
    else:
        w = ctx.real('width', 0, 3)
        k, par = GaussianKernel(w), [w]
    work = A.copy()
    for t in range(calls):
        q = ctx.choice('q%d' % t, ['AB', 'AA', 'BA', 'CB', 'CC', 'AC', 'WB'] + (['A-', 'C-'] if kind == 'gauss' else []))
        if q == 'WB':
            # one array object whose content changes between questions
            work[...] = A if ctx.bool('w%d' % t) else C
        X = {'A': A, 'B': B, 'C': C, 'W': work}[q[0]]
        Y = {'A': A, 'B': B, 'C': C, '-': None}[q[1]]
        if t and kind == 'gauss' and ctx.bool('p%d' % t):
            old = par[0]
            k.width = par[0] = ctx.real('width%d' % t, 0, 3)
            ctx.assume(par[0] != old)
        if t and kind == 'poly' and ctx.bool('p%d' % t):
            if ctx.bool('pd%d' % t):
                k.degree = par[0] = ctx.choice('deg%d' % t, [1, 2])
            else:
                old = par[1]
                k.const = par[1] = ctx.real('const%d' % t, -2, 2)
                ctx.assume(par[1] != old)
        X0 = np.array(X, dtype=object)
        R = k(X, Y)
        same(ctx, R, want(ctx, kind, par, X, X if Y is None else Y), 'a kernel matrix is not that of the data and the parameters')
        for i in np.ndindex(*X0.shape):
            ctx.check(X[i] is X0[i] or not sym(ctx) and X[i] == X0[i], 'the data changes')
    ctx.cover('asked', True)


def widths(ctx, strategy):
    """the width that the strategies choose for any number of records and columns"""
    n = ctx.choice('n', [2, 100, 199, 200, 201, 1199, 1200, 1201])
    d = ctx.choice('d', [1, 2, 3])
    X = np.zeros((n, d))
    a = ctx.choice('first', [0.0, 0.5, -0.25])
    X[0, 0] = a
    data = pd.DataFrame(X) if ctx.bool('frame') else X
    k = GaussianKernel(width=ctx.choice('given', [1.0, 5.0]), width_strategy=strategy)
    if ctx.bool('before'):
        k(np.array([[0.0], [1.0]]), None)
    R = k(data, data[:2] if n > 1000 else None)
    if strategy is WS.empirical_kci:
        w = 1.2 if n < 200 else 0.7 if n < 1200 else 0.4
        th = 1 / w ** 2 / d
    else:
        w = 0.8 if n < 200 else 0.5 if n < 1200 else 0.3
        th = 1 / w ** 2 * d
    ctx.close(k.width, th, 'the empirical width is not that of the number of records and columns')
    ctx.close(R[1][0] if n > 1000 else R[0][1], math.exp(-0.5 * th * a * a), 'the kernel matrix does not use the width of the strategy')
    ctx.check(k.width_strategy is strategy, 'the strategy changes')
    ctx.cover('small', n < 200)
    ctx.cover('large', n >= 1200)


def median_width(ctx, n, d):
    """the median strategy uses the median of the distances between distinct records"""
    symnp.install(ctx)
    X = ctx.reals('x', (n, d), -2, 2)
    k = GaussianKernel(width_strategy=WS.median)
    for c in range(d):
        for i, j in combinations(range(n), 2):
            if (i, j) == (0, 1) and c == 0 and bool(X[i, c] == X[j, c]):
                X[j, c] = X[i, c]
            else:
                ctx.assume(X[i, c] != X[j, c])
    R = k(X, None if ctx.bool('none') else X)
    if d == 1:
        L = [abs(X[i, 0] - X[j, 0]) for i, j in combinations(range(n), 2)]
        L = [v for v in L if bool(v > 0)]
        if not bool(X[0, 0] == X[1, 0]):
            distinct(ctx, L)
        # the median by its definition: as many distances below as above
        import functools
        S = sorted(L, key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else 1 if bool(q < p) else 0))
        S = [v for v in S for _ in range(2)]            # every distance is counted twice in the matrix
        h = len(S) // 2
        med = (S[h - 1] + S[h]) / 2
        ctx.close(k.width * 2 * med * med, 1, 'the width is not that of the median distance')
    same(ctx, R, want(ctx, 'gauss', [k.width], X, X), 'the kernel matrix does not use the width of the strategy')
    ctx.cover('reached', True)


def symmat(ctx, name, n):
    K = new(ctx, (n, n))
    for i in range(n):
        for j in range(i, n):
            K[i, j] = K[j, i] = ctx.real('%s%d%d' % (name, i, j), -2, 2)
    return K


def centred(ctx, K):
    n = len(K)
    H = new(ctx, (n, n))
    for i in range(n):
        for j in range(n):
            H[i, j] = (1 if i == j else 0) - div(1, n, ctx)
    return H.dot(K).dot(H)


def div(a, b, ctx):
    import fractions
    return fractions.Fraction(a, b) if sym(ctx) else a / b


def patch_la(ctx, name, f):
    symnp.replace(ctx, getattr(np.linalg, name), f)
    ctx.patch(np.linalg, name, f)


def center(ctx, n):
    symnp.install(ctx)
    K = symmat(ctx, 'k', n)
    K0 = K.copy()
    R = BaseKernel.center_kernel_matrix(K)
    same(ctx, R, centred(ctx, K0), 'the centred matrix is not HKH')
    for i in range(n):
        ctx.close(sum(R[i]), 0, 'a row of the centred matrix does not sum to zero')
    same(ctx, K, K0, 'centring changes the matrix given')
    ctx.cover('reached', True)


def center_reg(ctx, n):
    """R K R for the residual maker of ridge regression on Kz"""
    symnp.install(ctx)
    K = symmat(ctx, 'k', n)
    Kz = symmat(ctx, 'z', n)
    eps = ctx.real('eps', 0.01, 1)
    M = Kz.copy()
    for i in range(n):
        M[i, i] = M[i, i] + eps
    ctx.assume(symnp.det(M) > 0.001)
    C, R = BaseKernel.center_kernel_matrix_regression(K, Kz, eps)
    same(ctx, R.dot(M), eps * np.eye(n, dtype=int).astype(object if sym(ctx) else float), 'R is not the residual maker of the regression on Kz')
    same(ctx, C, R.dot(K).dot(R), 'the matrix is not centred by the regression on Kz')
    ctx.cover('reached', True)


# ---------------------------------------------------------------- C26 kernel independence tests
class AnyKernel(BaseKernel):
    """a kernel that returns a given matrix and remembers what it was asked about"""

    def __init__(self, K):
        super().__init__()
        self.K = K
        self.seen = []

    def __call__(self, xs, ys, *a, **k):
        self.seen.append((np.array(xs), np.array(ys)))
        return self.K.copy()


def zs(ctx, col):
    n = len(col)
    mu = sum(col) / n
    v = sum((x - mu) * (x - mu) for x in col) / (n - 1)
    if bool(v == 0):
        return [0] * n
    s = v.sqrt() if hasattr(v, 'sqrt') else math.sqrt(v)
    return [(x - mu) / s for x in col]


def setup(ctx):
    G = symnp.GammaDist(gamma, ctx)
    symnp.install(ctx, zeros=True, extra=[(gamma, G)])
    return G if sym(ctx) else gamma


def gparam(Kx, Ky):
    """parameters of the gamma approximation, from the centred kernel matrices"""
    n = len(Kx)
    m = sum(Kx[i, i] for i in range(n)) * sum(Ky[i, i] for i in range(n)) / n
    v = 2 * sum(Kx[i] ** 2 for i in np.ndindex(n, n)) * sum(Ky[i] ** 2 for i in np.ndindex(n, n)) / n / n
    return m * m / v, v / m


def ukci(ctx, n):
    """statistic and p-value for any kernel matrices"""
    G = setup(ctx)
    Kx, Ky = symmat(ctx, 'x', n), symmat(ctx, 'y', n)
    A, B = centred(ctx, Kx), centred(ctx, Ky)
    tx, ty = sum(A[i, i] for i in range(n)), sum(B[i, i] for i in range(n))
    ctx.assume(tx > 0.01)
    ctx.assume(ty > 0.01)
    data = np.arange(1.0, 3 * n + 1).reshape(n, 3) ** 2
    t = KCI(data, kernel_x=AnyKernel(Kx), kernel_y=AnyKernel(Ky))
    p, s = t(0, 2) if ctx.bool('omitted') else t([0], [2], [])
    st = sum(A[i] * B[i] for i in np.ndindex(n, n))
    ctx.close(s, st, 'the statistic is not the trace of the product of the centred kernel matrices')
    k, th = gparam(A, B)
    ctx.close(p, 1 - G.cdf(st, k, 0, th), 'the p-value is not that of the matched gamma distribution')
    ctx.cover('reached', True)


def columns(ctx, n, cols, cond):
    """the kernels see the standardised columns that were asked for"""
    setup(ctx)
    names = ['b', 'a', 'c', 'd'][:cols]
    X = np.array([[(7 * i + 3 * j * j + i * i * (j + 1)) % 11 for j in range(cols)] for i in range(n)], dtype=object if sym(ctx) else float)
    c = ctx.choice('symbolic column', range(cols))
    X[:, c] = [ctx.real('x%d' % i, -2, 2) for i in range(n)]
    one = symmat_fixed(ctx, n)
    kx, ky, kz = AnyKernel(one), AnyKernel(one), AnyKernel(one)
    g = [ctx.choice('g%d' % v, 'xyz-' if cond else 'xy-') for v in range(cols)]
    grp = {k: [v for v in range(cols) if g[v] == k] for k in 'xyz'}
    ctx.assume(grp['x'] and grp['y'] and (grp['z'] or not cond))
    frame = ctx.bool('frame')
    X0 = X.copy()
    data = pd.DataFrame(X, columns=names) if frame else X
    t = KCI(data, kernel_x=kx, kernel_y=ky, kernel_z=kz)
    f = (lambda v: [names[k] for k in v]) if frame and ctx.bool('by name') else list
    if cond and sym(ctx):
        patch_la(ctx, 'eigh', lambda M: (np.array([1, 2][:1] + [3] * (n - 1), dtype=object), np.eye(n, dtype=int).astype(object)))
    t(f(grp['x']), f(grp['y']), f(grp['z']))
    Z = {v: zs(ctx, X[:, v]) for v in range(cols)}
    ex = new(ctx, (n, len(grp['x']) + (len(grp['z']) if cond else 0)))
    for j, v in enumerate(grp['x']):
        ex[:, j] = Z[v]
    for j, v in enumerate(grp['z']):
        ex[:, len(grp['x']) + j] = [0.5 * q for q in Z[v]]
    for (k, E, lab) in ((kx, ex, 'x'), (ky, np.array([Z[v] for v in grp['y']], dtype=ex.dtype).T, 'y')):
        ctx.check(len(k.seen) == 1, 'a kernel is not evaluated once')
        same(ctx, k.seen[0][0], E, 'the kernel of %s does not see the standardised columns' % lab)
        same(ctx, k.seen[0][1], E, 'the kernel of %s does not see the standardised columns' % lab)
    if cond:
        E = np.array([Z[v] for v in grp['z']], dtype=ex.dtype).T
        ctx.check(len(kz.seen) == 1, 'the kernel of z is not evaluated once')
        same(ctx, kz.seen[0][0], E, 'the kernel of z does not see the standardised columns')
    else:
        ctx.check(not kz.seen, 'an unconditional test evaluates the kernel of z')
    same(ctx, X, X0, 'the data changes')
    ctx.cover('groups', len(grp['x']) > 1)


def symmat_fixed(ctx, n):
    return np.array([[4 if i == j else 1 + (i + j) % 2 for j in range(n)] for i in range(n)], dtype=object if sym(ctx) else float)


def gauss_sym(ctx, n):
    """with Gaussian kernels: the class and the function agree, and the test is symmetric"""
    G = setup(ctx)
    X = new(ctx, (n, 2))
    X[:, 0] = [ctx.real('x%d' % i, -2, 2) for i in range(n)]
    X[:, 1] = [0, 1, 3, 4][:n]
    v = X[0, 0] - X[1, 0]
    ctx.assume(v * v > 0.01)
    k = GaussianKernel()
    t = KCI(X, kernel_x=k, kernel_y=GaussianKernel() if ctx.bool('two') else k)
    p, s = t(0, 1)
    q, r = t(1, 0)
    ctx.close(s, r, 'the test statistic is not symmetric')
    ctx.close(p, q, 'the p-value is not symmetric')
    q, r = SimpleKCI().test(X[:, :1], X[:, 1:])
    ctx.close(s, r, 'the functional test has another statistic')
    ctx.close(p, q, 'the functional test has another p-value')
    Z = [zs(ctx, X[:, 0]), zs(ctx, X[:, 1])]
    A = [centred(ctx, want(ctx, 'gauss', [1], [[a] for a in z], [[a] for a in z])) for z in Z]
    st = sum(A[0][i] * A[1][i] for i in np.ndindex(n, n))
    ctx.close(r, st, 'the functional test is not the trace of the product of the centred kernel matrices')
    kk, th = gparam(*A)
    ctx.close(q, 1 - G.cdf(st, kk, 0, th), 'the functional p-value is not that of the matched gamma distribution')
    ctx.cover('reached', True)


def linear_corr(ctx, n):
    """with linear kernels the statistic is ((n - 1) r)^2"""
    setup(ctx)
    X = new(ctx, (n, 2))
    X[:, 0] = [ctx.real('x%d' % i, -2, 2) for i in range(n)]
    X[:, 1] = [0, 1, 3, -1][:n]
    t = KCI(X, kernel_x=LinearKernel(), kernel_y=LinearKernel())
    D = [[X[i, c] - sum(X[:, c]) / n for i in range(n)] for c in range(2)]
    v = [dot(d, d) for d in D]
    ctx.assume(v[0] > 0.01)
    ctx.assume(v[1] > 0.01)
    p, s = t(0, 1)
    c = dot(D[0], D[1])
    ctx.close(s * v[0] * v[1], c * c * (n - 1) ** 2, 'the linear statistic is not the squared correlation')
    ctx.cover('reached', True)


def spectral(ctx, n, samples):
    """the simulated null distribution, for any eigenvalues and draws"""
    setup(ctx)
    lx = [ctx.real('lx%d' % i, 0.01, 2) for i in range(n)]
    ly = [ctx.real('ly%d' % i, 0.01, 2) for i in range(n)]
    f = [ctx.real('f%d' % i, 0, 3) for i in range(samples)]
    th = ctx.choice('threshold', [1e-6, 0.25, 0.6])
    K = np.eye(n, dtype=object if sym(ctx) else float)
    Kx = symmat(ctx, 'k', n)
    which = []

    def eig(M):
        # eigvalsh is asked about the two centred matrices, in either order
        d = [bool(abs(np.asarray(M)[i] - A[i]) < 1e-9) for i in np.ndindex(n, n)]
        which.append(all(d))
        return np.array(lx if all(d) else ly, dtype=object if sym(ctx) else float)

    class Rnd:
        def __getattr__(self, k):
            return getattr(np.random, k)
    calls = []

    def chis(df, size=None):
        calls.append((df, size))
        R = new(ctx, size)
        for s in range(samples):
            R[:, s] = [f[s]] * size[0]
        return R
    A = centred(ctx, Kx)
    B = centred(ctx, K)
    ctx.assume(A[0, 0] > 0.8)
    data = np.arange(1.0, 2 * n + 1).reshape(n, 2) ** 2
    patch_la(ctx, 'eigvalsh', eig)
    ctx.patch(np.random, 'chisquare', chis)
    t = KCI(data, kernel_x=AnyKernel(Kx), kernel_y=AnyKernel(K), approximate_mode=False, null_distribution_sample_size=samples, lambda_product_threshold=th)
    p, s = t(0, 1)
    st = sum(A[i] * B[i] for i in np.ndindex(n, n))
    ctx.close(s, st, 'the statistic is not the trace of the product of the centred kernel matrices')
    ctx.check(sorted(which) == [False, True], 'the spectrum of another matrix is used')
    prod = [a * b for a in lx for b in ly]
    mx = prod[0]
    for q in prod[1:]:
        mx = q if bool(q > mx) else mx
    tot = 0
    m = 0
    for q in prod:
        if bool(q > mx * th):
            tot = tot + q
            m += 1
    ctx.check(calls == [(1, (m, samples))], 'the null distribution is not drawn from chi squares of one degree of freedom')
    cnt = sum(1 for s_ in range(samples) if bool(f[s_] * tot / n > st))
    ctx.close(p, cnt / samples, 'the p-value is not the fraction of null samples above the statistic')
    ctx.cover('some', 0 < cnt)
    ctx.cover('truncated', m < n * n)


def spectral_big(ctx, n):
    """many records: only the larger half of the spectrum is used"""
    setup(ctx)
    k = ctx.choice('large eigenvalues', [1, 3])
    f = ctx.real('f', 0, 2000000)
    ev = np.array([0.01] * (n - k) + [1.0] * k)
    calls = []

    def chis(df, size=None):
        calls.append((df, size))
        R = new(ctx, size)
        R[:, 0] = [f] * size[0]
        R[:, 1] = [0] * size[0]
        return R
    patch_la(ctx, 'eigvalsh', lambda M: ev.copy())
    ctx.patch(np.random, 'chisquare', chis)
    th = ctx.choice('threshold', [0.5, 0.005])
    K = np.eye(n)
    data = np.arange(1.0, 2 * n + 1).reshape(n, 2) ** 2
    t = KCI(data, kernel_x=AnyKernel(K), kernel_y=AnyKernel(K), approximate_mode=False, null_distribution_sample_size=2, lambda_product_threshold=th)
    p, s = t(0, 1)
    ctx.close(s, n - 1, 'the statistic is not the trace of the product of the centred kernel matrices')
    h = n // 2 if n > 1000 else n
    m = k * k if th == 0.5 else k * k + 2 * k * (h - k)
    ctx.check(calls == [(1, (m, 2))], 'the null distribution is not drawn from chi squares of one degree of freedom')
    tot = k * k + (0 if th == 0.5 else 2 * k * (h - k) * 0.01)
    d = f * tot - (n - 1) * n
    ctx.assume((d > 0.01) | (d < -0.01))
    ctx.close(p, 0.5 if bool(d > 0) else 0, 'the p-value is not the fraction of null samples above the statistic')
    ctx.cover('reached', True)


def ckci(ctx, n, sameeps, spectra):
    """conditional test with a kernel for z: the statistic for any kernel matrices, or the p-value for any spectra"""
    G = setup(ctx)
    if spectra:
        Kx, Ky, Kz = [symmat_fixed(ctx, n) + k for k in range(3)]
    elif n > 2:
        Kx, Ky, Kz = symmat(ctx, 'x', n), symmat(ctx, 'y', n), symmat_fixed(ctx, n) + 0.5
    else:
        Kx, Ky, Kz = symmat(ctx, 'x', n), symmat(ctx, 'y', n), symmat(ctx, 'z', n)
    ex = 0.5 if spectra or n > 2 else ctx.choice('eps_x', [1e-3, 0.5])
    ey = ex if sameeps else 0.25 if spectra else ctx.choice('eps_y', [0.25, 0.75])
    data = np.arange(1.0, 3 * n + 1).reshape(n, 3) ** 2
    kw = {} if sameeps and ex == 1e-3 and ctx.bool('default') else dict(epsilon_x=ex, epsilon_y=ey)
    Rs = []
    Z = centred(ctx, Kz)
    for e in (ex, ey):
        M = Z.copy()
        for i in range(n):
            M[i, i] = M[i, i] + e
        d = symnp.det(M)
        ctx.assume(d > 1e-5)
        Rs.append(e * (symnp.inv(M) if sym(ctx) else np.linalg.inv(M)))
    A = Rs[0].dot(centred(ctx, Kx)).dot(Rs[0])
    B = Rs[1].dot(centred(ctx, Ky)).dot(Rs[1])
    w = [[ctx.real('w%d_%d' % (m, i), 0.01, 2) if spectra else 1 + m + i for i in range(2)] for m in range(2)]
    V = [new(ctx, (n, 2)) for _ in range(2)]
    for m in range(2):
        for i in range(n):
            for j in range(2):
                V[m][i, j] = 1 + m * i - 3 * i * j
    asked = []

    def eigh(M):
        asked.append(np.asarray(M))
        m = (len(asked) - 1) % 2
        return np.array(w[m], dtype=object if sym(ctx) else float), V[m].copy()
    patch_la(ctx, 'eigh', eigh)
    th = ctx.choice('threshold', [1e-5, 0.5])
    t = KCI(data, kernel_x=AnyKernel(Kx), kernel_y=AnyKernel(Ky), kernel_z=AnyKernel(Kz), lambda_product_threshold=th, **kw)
    p, s = t(0, 1, 2)
    st = sum(A[i] * B[i] for i in np.ndindex(n, n))
    ctx.close(s, st, 'the statistic is not the trace of the product of the kernel matrices centred by the regression on z')
    ctx.check(len(asked) == 2, 'not two spectra')
    same(ctx, asked[0], A, 'the spectrum of another matrix is used')
    same(ctx, asked[1], B, 'the spectrum of another matrix is used')
    ctx.cover('reached', True)
    if not spectra:
        return
    # moments of the null distribution from the spectra
    kept = []
    for m in range(2):
        a, b = w[m]
        mx = a if bool(a > b) else b
        kept.append([i for i in range(2) if bool(w[m][i] > mx * th)])
    U = []
    for i in kept[0]:
        for j in kept[1]:
            U.append((w[0][i] * w[1][j], [V[0][r, i] * V[1][r, j] for r in range(n)]))
    mean = sum(c * dot(u, u) for c, u in U)
    var = 2 * sum(c * e * dot(u, v) ** 2 for c, u in U for e, v in U)
    ctx.close(p, 1 - G.cdf(st, mean ** 2 / var, 0, var / mean), 'the p-value is not that of the matched gamma distribution')
    ctx.cover('truncated', len(U) < 4)
    ctx.cover('full', len(U) == 4)


K0 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume', 'hash': 'fork'}
K1 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}
K2 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume', 'sqfact': False}

JOBS = {
    'C25': [
        Job('linear_hist', kernel_hist, ('linear', 2, 1, 2, 2), engine='fork', covers=['asked'], cost=2, bounds='two questions on one linear kernel, 2 and 1 records, 2 columns', opts=K0),
        Job('poly_hist', kernel_hist, ('poly', 2, 1, 1, 2), engine='fork', covers=['asked'], cost=3, bounds='two questions on one polynomial kernel, degree 1 to 3, any constant', opts=K0),
        Job('gauss_hist', kernel_hist, ('gauss', 2, 1, 1, 2), engine='fork', covers=['asked'], cost=3, bounds='two questions on one Gaussian kernel, any width', opts=K0),
        Job('gauss_wide', kernel_hist, ('gauss', 2, 2, 2, 1), engine='fork', covers=['asked'], cost=2, bounds='2 x 2 records of 2 columns', opts=K0),
        Job('width_kci', widths, (WS.empirical_kci,), engine='fork', covers=['small', 'large'], bounds='2 to 1201 records around the thresholds, 1 to 3 columns'),
        Job('width_hsic', widths, (WS.empirical_hsic,), engine='fork', covers=['small', 'large'], bounds='2 to 1201 records around the thresholds, 1 to 3 columns'),
        Job('median3', median_width, (3, 1), engine='fork', covers=['reached'], bounds='3 records', opts=K0),
        Job('center3', center, (3,), engine='fork', covers=['reached'], bounds='every symmetric 3 x 3 matrix', opts=K1),
        Job('center4', center, (4,), engine='fork', covers=['reached'], bounds='every symmetric 4 x 4 matrix', opts=K1),
        Job('center_reg2', center_reg, (2,), engine='fork', covers=['reached'], bounds='every symmetric 2 x 2 pair and ridge', opts=K1),
        Job('center_reg3', center_reg, (3,), engine='fork', covers=['reached'], tiers=T, bounds='every symmetric 3 x 3 pair and ridge', opts=K1),
    ],
    'C26': [
        Job('ukci3', ukci, (3,), engine='fork', covers=['reached'], bounds='every pair of symmetric 3 x 3 kernel matrices', opts=K1),
        Job('columns', columns, (3, 3, False), engine='fork', covers=['groups'], bounds='3 records of 3 columns, one column symbolic', opts=K2),
        Job('columns_z', columns, (3, 4, True), engine='fork', covers=['groups'], bounds='3 records of 4 columns, one column symbolic', opts=K2),
        Job('gauss_sym', gauss_sym, (3,), engine='fork', covers=['reached'], bounds='3 records, one symbolic column', opts=dict(K2, hash='fork')),
        Job('linear', linear_corr, (3,), engine='fork', covers=['reached'], bounds='3 records, one symbolic column', opts=dict(K2, hash='fork')),
        Job('spectral2', spectral, (2, 2), engine='fork', covers=['some', 'truncated'], bounds='2 eigenvalues each, 2 null samples', opts=K1),
        Job('spectral1001', spectral_big, (1001,), engine='fork', covers=['reached'], bounds='1001 records, two null samples, one of any size', opts=K1),
        Job('ckci2', ckci, (2, True, False), engine='fork', covers=['reached'], bounds='every triple of symmetric 2 x 2 kernel matrices', opts=K1),
        Job('ckci2e', ckci, (2, False, False), engine='fork', covers=['reached'], bounds='every triple of symmetric 2 x 2 kernel matrices, two ridges', opts=K1),
        Job('ckci3', ckci, (3, True, False), engine='fork', covers=['reached'], bounds='every pair of symmetric 3 x 3 kernel matrices, one matrix of z', opts=K1),
        Job('ckci2w', ckci, (2, True, True), engine='fork', covers=['full', 'truncated'], bounds='two eigenvalues each, any values', opts=K1),
        Job('ckci3w', ckci, (3, False, True), engine='fork', covers=['full', 'truncated'], bounds='two eigenvalues each, any values', opts=K1),
    ],
}
