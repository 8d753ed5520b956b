"""numpy/scipy functions on arrays that hold symbolic reals.

Only functions that numpy cannot run itself on object arrays are replaced, and only for the duration of a
symbolic path; concrete arguments still go to the real function.
"""
import math
import sys

import numpy as np


def install(ctx, zeros=False, extra=()):
    """replace the functions wherever the code under test refers to them (native runs: nothing is replaced)"""
    if not getattr(ctx, 'symbolic', False):
        return
    t = table(zeros)
    t.update({id(o): (o, n) for o, n in extra})
    import scipy.special
    import scipy.spatial.distance
    import scipy.stats
    mods = [m for k, m in list(sys.modules.items()) if (k == 'cdmir' or k.startswith('cdmir.')) and m is not None]
    for m in mods:
        for k, v in list(vars(m).items()):
            e = t.get(id(v))
            if e is not None and e[0] is v:
                ctx.patch(m, k, e[1])
    for m in (np, np.linalg, scipy.special, scipy.stats, scipy.spatial.distance, math):
        for k, v in list(vars(m).items()):
            if callable(v) and not k.startswith('_'):
                e = t.get(id(v))
                if e is not None and e[0] is v:
                    ctx.patch(m, k, e[1])


def replace(ctx, orig, new):
    """replace a function or class wherever the code under test refers to it"""
    for k, m in list(sys.modules.items()):
        if (k == 'cdmir' or k.startswith('cdmir.')) and m is not None:
            for a, v in list(vars(m).items()):
                if v is orig:
                    ctx.patch(m, a, new)


def isobj(x):
    from .dse import SymReal
    if isinstance(x, SymReal):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(isobj(y) for y in x)
    return False


def elementwise(meth, nat):
    from .dse import SymReal
    ufunc = getattr(np, meth, None)

    def one(v):
        if isinstance(v, SymReal):
            return getattr(v, meth)()
        return nat(float(v))

    def f(x, *a, **k):
        if isinstance(x, SymReal):
            return one(x)
        if isobj(x):
            x = np.asanyarray(x, dtype=object)
            if x.ndim == 0:
                return one(x.item())
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = one(np.asarray(x)[i])
            return r.view(type(x)) if type(x) is not np.ndarray else r
        return (ufunc or nat)(x, *a, **k)
    f.__name__ = meth
    return f


def mat(x):
    return np.asarray(x, dtype=object)


def det(A):
    A = mat(A)
    n = A.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    r = 0
    for j in range(n):
        m = np.delete(np.delete(A, 0, 0), j, 1)
        c = A[0, j] * det(m)
        r = r + c if j % 2 == 0 else r - c
    return r


def inv(A):
    from .dse import SymReal
    B = mat(A)
    n = B.shape[0]
    d = det(B)
    R = np.empty((n, n), dtype=object)
    if not isinstance(d, SymReal) and d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(B, j, 0), i, 1)
            c = det(m)
            if (i + j) % 2:
                c = -c
            R[i, j] = c / d
    return R.view(type(A)) if isinstance(A, np.matrix) else R


def _wrap(orig, f):
    def g(A, *a, **k):
        if isobj(A) or any(isobj(x) for x in a):
            return f(A, *a, **k)
        return orig(A, *a, **k)
    g.__name__ = getattr(orig, '__name__', 'f')
    return g


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = mat(m)
    if y is not None:
        Y = mat(y)
        X = np.atleast_2d(X)
        Y = np.atleast_2d(Y)
        if not rowvar:
            X, Y = X.T, Y.T
        X = np.concatenate([X, Y], 0)
        rowvar = True
    if X.ndim == 1:
        X = X[None, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    mu = [sum(r) / n for r in X]
    D = np.array([[x - a for x in r] for r, a in zip(X, mu)], dtype=object)
    C = D.dot(D.T)
    for i in np.ndindex(*C.shape):
        C[i] = C[i] / (n - ddof)
    return C if C.shape != (1, 1) else C[0, 0]


def _corrcoef(x, y=None, rowvar=True, **k):
    C = np.atleast_2d(_cov(x, y, rowvar))
    n = C.shape[0]
    sd = [C[i, i].sqrt() if hasattr(C[i, i], 'sqrt') else math.sqrt(C[i, i]) for i in range(n)]
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = 1 if i == j else C[i, j] / (sd[i] * sd[j])
    return R


def _isnan(x, *a, **k):
    x = np.asarray(x)
    if x.dtype == object and x.ndim:
        return np.array([isinstance(v, (float, np.floating)) and v != v for v in x.ravel()], bool).reshape(x.shape)
    return np.zeros(x.shape, bool) if x.ndim else False


def _zscore(a, axis=0, ddof=0, **k):
    X = mat(a)
    assert axis == 0
    R = np.empty(X.shape, dtype=object)
    for c in np.ndindex(*X.shape[1:]):
        col = X[(slice(None),) + c]
        n = len(col)
        mu = sum(col) / n
        d = [v - mu for v in col]
        var = sum(v * v for v in d) / (n - ddof)
        zero = bool(var == 0)
        sd = None if zero else var.sqrt() if hasattr(var, 'sqrt') else math.sqrt(var)
        for i in range(n):
            R[(i,) + c] = math.nan if zero else d[i] / sd
    return R


def _sqd(x, y):
    return sum((a - b) * (a - b) for a, b in zip(x, y))


def _dist(metric):
    if metric == 'sqeuclidean':
        return _sqd
    if metric == 'euclidean':
        def f(x, y):
            v = _sqd(x, y)
            if len(x) == 1:
                return abs(x[0] - y[0])
            return v.sqrt() if hasattr(v, 'sqrt') else math.sqrt(v)
        return f
    from .dse import ForkUnsupported
    raise ForkUnsupported('distance ' + str(metric))


def _cdist(X, Y, metric='euclidean', **k):
    X, Y = mat(X), mat(Y)
    f = _dist(metric)
    R = np.empty((len(X), len(Y)), dtype=object)
    for i in range(len(X)):
        for j in range(len(Y)):
            R[i, j] = f(X[i], Y[j])
    return R


def _pdist(X, metric='euclidean', **k):
    X = mat(X)
    f = _dist(metric)
    L = [f(X[i], X[j]) for i in range(len(X)) for j in range(i + 1, len(X))]
    R = np.empty(len(L), dtype=object)
    for i, v in enumerate(L):
        R[i] = v
    return R


def _squareform(X, *a, **k):
    X = mat(X)
    if X.ndim == 2:
        R = np.empty(len(X) * (len(X) - 1) // 2, dtype=object)
        for t, (i, j) in enumerate((i, j) for i in range(len(X)) for j in range(i + 1, len(X))):
            R[t] = X[i, j]
        return R
    n = int(round((1 + math.sqrt(1 + 8 * len(X))) / 2))
    R = np.zeros((n, n), dtype=object)
    for t, (i, j) in enumerate((i, j) for i in range(n) for j in range(i + 1, n)):
        R[i, j] = R[j, i] = X[t]
    return R


def _median(x, *a, **k):
    import functools
    L = sorted(mat(x).ravel().tolist(), key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else 1 if bool(q < p) else 0))
    m = len(L) // 2
    return math.nan if not L else L[m] if len(L) % 2 else (L[m - 1] + L[m]) / 2


def _var(x, axis=None, ddof=0):
    X = mat(x)
    if axis is None:
        L = X.ravel().tolist()
        m = sum(L) / len(L)
        return sum((v - m) * (v - m) for v in L) / (len(L) - ddof)
    X = np.moveaxis(X, axis, 0)
    R = np.empty(X.shape[1:], dtype=object)
    for c in np.ndindex(*R.shape):
        R[c] = _var(X[(slice(None),) + c], None, ddof)
    return R if R.shape else R.item()


def _root(v):
    if isinstance(v, np.ndarray):
        R = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            R[i] = _root(v[i])
        return R
    return v.sqrt() if hasattr(v, 'sqrt') else math.sqrt(v)


def _logaddexp(a, b):
    one = lambda p, q: q + elementwise('softplus', lambda v: math.log1p(math.exp(v)))(p - q)
    B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    R = np.empty(B[0].shape, dtype=object)
    for i in np.ndindex(*R.shape):
        R[i] = one(B[0][i], B[1][i])
    return R if R.shape else R.item()


def _sign(x):
    from .dse import SymReal
    def one(v):
        if isinstance(v, SymReal):
            return 1 if v > 0 else -1 if v < 0 else 0
        return int(v > 0) - int(v < 0)
    if isinstance(x, np.ndarray):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = one(x[i])
        return r
    return one(x)


def table(zeros):
    t = {}

    def put(orig, f):
        t[id(orig)] = (orig, f)

    def put2(orig, f):
        put(orig, _wrap(orig, f))
    import scipy.special
    for nm, nat in (('log', math.log), ('exp', math.exp), ('sqrt', math.sqrt), ('tanh', math.tanh), ('sin', math.sin),
                    ('cos', math.cos), ('log1p', math.log1p), ('arctanh', math.atanh), ('arctan', math.atan), ('expm1', math.expm1), ('log2', math.log2), ('log10', math.log10)):
        f = elementwise(nm, nat)
        put(getattr(np, nm), f)
        if hasattr(math, nm):
            put(getattr(math, nm), f)
    put(math.atanh, elementwise('arctanh', math.atanh))
    put(math.lgamma, elementwise('lgamma', math.lgamma))
    put(scipy.special.gammaln, elementwise('lgamma', math.lgamma))
    put(scipy.special.expit, elementwise('expit', scipy.special.expit))
    put2(np.logaddexp, _logaddexp)
    put2(np.linalg.inv, inv)
    put2(np.linalg.pinv, lambda A, *a, **k: inv(A))
    put2(np.linalg.det, det)
    put2(np.linalg.slogdet, lambda A: (_sign(det(A)), abs(det(A)).log()))
    put2(np.linalg.solve, lambda A, B: inv(A).dot(B))
    put2(np.cov, _cov)
    put2(np.corrcoef, _corrcoef)
    put2(np.isnan, _isnan)
    put2(np.sign, _sign)
    put2(np.median, _median)
    put2(np.std, lambda x, axis=None, ddof=0, **k: _root(_var(x, axis, ddof)))
    put2(np.var, lambda x, axis=None, ddof=0, **k: _var(x, axis, ddof))
    import scipy.spatial.distance
    import scipy.stats
    put2(scipy.stats.zscore, _zscore)
    for nm, f in (('cdist', _cdist), ('pdist', _pdist), ('squareform', _squareform)):
        put2(getattr(scipy.spatial.distance, nm), f)
    if zeros:
        for nm, v in (('zeros', 0), ('ones', 1), ('empty', 0)):
            orig = getattr(np, nm)

            def mk(orig, v):
                def g(shape, dtype=float, *a, **k):
                    if dtype in (float, np.float64, 'float64', 'float', object):
                        r = np.ndarray.__new__(np.ndarray, shape if not np.isscalar(shape) else (shape,), dtype=object)
                        r.fill(v)
                        return r
                    return orig(shape, dtype, *a, **k)
                return g
            put(orig, mk(orig, v))
        for nm, v in (('zeros_like', 0), ('ones_like', 1), ('empty_like', 0)):
            orig = getattr(np, nm)

            def mk2(orig, v):
                def g(a, dtype=None, *x, **k):
                    d = np.asarray(a).dtype if dtype is None else dtype
                    if d in (float, np.float64, 'float64', 'float', object):
                        r = np.ndarray.__new__(np.ndarray, np.shape(a), dtype=object)
                        r.fill(v)
                        return r
                    return orig(a, dtype, *x, **k)
                return g
            put(orig, mk2(orig, v))
    return t


class NormDist:
    """the standard normal distribution function as an uninterpreted symmetric function"""

    @staticmethod
    def _cdf(x):
        from .dse import SymReal
        if isinstance(x, SymReal):
            a = abs(x)
            c = a._u('normcdf')
            return c if bool(x >= 0) else 1 - c
        return None

    def __init__(self, orig):
        self.orig = orig

    def cdf(self, x, *a, **k):
        r = self._cdf(x)
        return self.orig.cdf(x, *a, **k) if r is None else r

    def sf(self, x, *a, **k):
        r = self._cdf(x)
        return self.orig.sf(x, *a, **k) if r is None else 1 - r

    def __getattr__(self, k):
        return getattr(self.orig, k)


class GammaDist:
    """the gamma distribution function as an uninterpreted function of its argument and parameters"""

    def __init__(self, orig, ctx):
        self.orig = orig
        self.ctx = ctx

    def cdf(self, x, a, loc=0, scale=1):
        if isobj([x, a, scale, loc]):
            return self.ctx.uf('gammacdf', x - loc, a, scale)
        return self.orig.cdf(x, a, loc, scale)

    def sf(self, x, a, loc=0, scale=1):
        if isobj([x, a, scale, loc]):
            return 1 - self.cdf(x, a, loc, scale)
        return self.orig.sf(x, a, loc, scale)

    def __getattr__(self, k):
        return getattr(self.orig, k)
