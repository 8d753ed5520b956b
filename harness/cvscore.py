"""Harnesses over the cross-validated likelihood scores."""
import math
import numbers
from fractions import Fraction as F

import numpy as np
import pandas as pd

from cdmir.utils.local_score.cross_validated_base import GeneralCVScore, MultiCVScore

import cdmir.utils.local_score.score_utils as SU
from cdmir.utils.local_score.marginal_base import GeneralMarginalScore, MultiMarginalScore

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)
EMPTY, INV = np.empty, np.linalg.inv
EXP, LOG, SQRT = math.exp, math.log, math.sqrt


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


# ---------------------------------------------------------------- exact numbers with unknowns
from sympy import QQ, field
GEN = ['lam', 'x'] + ['e%d' % i for i in range(20)]
FIELD, *GENS = field(GEN, QQ)


def rational(x):
    """the simplest number that is stored as this one"""
    f = F(float(x)).limit_denominator(1000)
    return f if float(f) == float(x) else F(repr(float(x)))


def qq(v):
    f = v if isinstance(v, F) else rational(v) if isinstance(v, (float, np.floating)) else F(int(v))
    return QQ(f.numerator, f.denominator)


class Num:
    """sum of c * a1 * a2 * ... with rational functions c of the unknowns and atoms a (square roots, logarithms)"""
    __slots__ = ('d',)
    env = None

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(v):
        if isinstance(v, Num):
            return v
        if isinstance(v, (int, float, F, np.integer, np.floating, bool, np.bool_)):
            c = qq(v)
            return Num({(): FIELD(c)} if c else {})
        return None

    def const(self):
        """the rational number this is, or None"""
        if not self.d:
            return F(0)
        if list(self.d) == [()]:
            f = self.d[()]
            if f.numer.is_ground and f.denom.is_ground:
                a, b = f.numer.LC, f.denom.LC
                return F(int(a.numerator), int(a.denominator)) / F(int(b.numerator), int(b.denominator))
        return None

    def __add__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        r = dict(self.d)
        for k, c in o.d.items():
            v = r[k] + c if k in r else c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return Num(r)
    __radd__ = __add__

    def __neg__(self):
        return Num({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        o = Num.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = Num.of(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = Num.of(o)
        if o is None:
            return NotImplemented
        r = Num({})
        for k, c in self.d.items():
            for l, e in o.d.items():
                both = [a for a in k if a in l and a[0] == 'sqrt']
                m = tuple(sorted([a for a in k + l if a not in both]))
                t = Num({m: c * e})
                for a in both:
                    t = t * Num.env.sqrt[a]
                r = r + t
        return r
    __rmul__ = __mul__

    def inverse(self):
        if len(self.d) != 1:
            from vf.dse import ForkUnsupported
            raise ForkUnsupported('division by a sum' if self.d else 'division by zero')
        (k, c), = self.d.items()
        r = Num({k: 1 / c})
        for a in k:
            r = r * Num.env.sqrt[a].inverse()
        return r

    def __truediv__(self, o):
        o = Num.of(o)
        return NotImplemented if o is None else self * o.inverse()

    def __rtruediv__(self, o):
        o = Num.of(o)
        return NotImplemented if o is None else o * self.inverse()

    def __pow__(self, k):
        assert int(k) == k and k >= 0
        r = Num.of(1)
        for _ in range(int(k)):
            r = r * self
        return r

    def z3(self):
        """the same as a term of the solver"""
        import z3
        from vf.dse import SymReal, mkr, mkuf, rv

        def q(c):
            return z3.RealVal('%d/%d' % (c.numerator, c.denominator))

        def poly(p):
            t = []
            for m, c in p.terms():
                e = q(c)
                for g, x in enumerate(m):
                    for _ in range(x):
                        e = e * Num.env.term[g]
                t.append(e)
            return z3.Sum(t) if t else z3.RealVal(0)
        t = z3.RealVal(0)
        for k, c in sorted(self.d.items()):
            e = poly(c.numer) / poly(c.denom)
            for a in k:
                e = e * Num.env.atom(a)
            t = t + e
        return t

    def _cmp(self, o, f):
        from vf.dse import mkr
        o = Num.of(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.const()
        return f(c, 0) if c is not None else f(mkr(d.z3()), 0)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        o = Num.of(o)
        return o is not None and not (self - o).d

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def conjugate(self):
        return self

    def sqrt(self):
        c = self.const()
        if c is not None:
            r = _rootq(c)
            if r is not None:
                return Num.of(r)
        return Num({(Num.env.newsqrt(self),): FIELD(1)})

    def log(self):
        return _log1(self)

    def exp(self):
        return Num.env.exp(self)


numbers.Number.register(Num)


class Env:
    """the unknowns of one path"""

    def __init__(self, ctx):
        import z3
        self.ctx = ctx
        self.sqrt, self.logs = {}, {}
        self.term = {}
        self.exps = []
        self.near = {}
        self.free = None

    def unknown(self, g, v):
        self.term[g] = v.e
        return Num({(): GENS[g]})

    def newsqrt(self, v):
        for a, w in self.sqrt.items():
            if w == v:
                return a
        a = ('sqrt', len(self.sqrt))
        self.sqrt[a] = v
        return a

    def newlog(self, p):
        """log of the absolute value of a primitive polynomial"""
        if p not in self.logs:
            self.logs[p] = ('log', len(self.logs))
        return self.logs[p]

    def atom(self, a):
        import z3
        return z3.Real('%s!%d' % a)

    def exp(self, v):
        """a fixed positive value where the argument is a number, any value where it has unknowns"""
        import z3
        c = v.const()
        if c is not None:
            c = c.limit_denominator(10 ** 6)
            if self.free is not None and c == self.free:
                self.term[2] = z3.Real('exp!free')
                self.ctx.eng.fact(self.term[2] > 0)
                return Num({(): GENS[2]})
            if c not in self.near:
                self.near[c] = F(1) if c == 0 else F(EXP(c)).limit_denominator(40) or F(1, 64)
            return Num.of(self.near[c])
        for w, g in self.exps:
            if w == v:
                return Num({(): GENS[g]})
        g = 3 + len(self.exps)
        self.exps.append((v, g))
        self.term[g] = z3.Real('exp!%d' % g)
        self.ctx.eng.fact(self.term[g] > 0)
        return Num({(): GENS[g]})


def _rootq(v):
    """exact square root of a rational number, if there is one"""
    v = F(v)
    a, b = math.isqrt(max(v.numerator, 0)), math.isqrt(v.denominator)
    return F(a, b) if a * a == v.numerator and b * b == v.denominator else None


def _sqrt1(v):
    return Num.of(v).sqrt()


def _log1(v):
    """log c = log of numerator less log of denominator; log of a root is half the log; numbers by value"""
    v = Num.of(v)
    c = v.const()
    if c is not None:
        return Num.of(F(LOG(c)))
    (k, c), = v.d.items()
    r = Num({})
    for p, s in ((c.numer, 1), (c.denom, -1)):
        u, p = p.primitive()
        if p.LC < 0:
            p = -p
        r = r + s * F(LOG(abs(F(int(u.numerator), int(u.denominator)))))
        if not p.is_ground:
            r = r + Num({(Num.env.newlog(p),): FIELD(s)})
    for a in k:
        r = r + _log1(Num.env.sqrt[a]) / 2
    return r


def difference(a, b):
    """a - b without the terms that are the rounding of constants"""
    a = Num.of(a)
    r = {}

    def size(c):
        return max(abs(x) for x in c.numer.coeffs()) / max(abs(x) for x in c.denom.coeffs())
    for k, c in (a - b).d.items():
        if size(c) * 10 ** 12 > (size(a.d[k]) if k in a.d else 0):
            r[k] = c
    return Num(r)


def _map(one):
    def f(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray):
            r = EMPTY(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                r[i] = one(np.asarray(x)[i])
            return r.view(np.matrix) if isinstance(x, np.matrix) else r
        return one(x)
    return f


def _cholesky(A):
    A0 = np.asarray(A)
    n = len(A0)
    L = np.full((n, n), F(0), dtype=object)
    for j in range(n):
        L[j, j] = _sqrt1(A0[j, j] - sum((L[j, k] * L[j, k] for k in range(j)), F(0)))
        for i in range(j + 1, n):
            L[i, j] = (A0[i, j] - sum((L[i, k] * L[j, k] for k in range(j)), F(0))) / L[j, j]
    return L.view(np.matrix) if isinstance(A, np.matrix) else L


def inverse(A):
    """by elimination; the leading minors are not zero"""
    if not symnp.isobj(A):
        return INV(A)
    n = len(A)
    B = np.asarray(A)
    M = [[Num.of(B[i, j]) for j in range(n)] + [Num.of(int(i == j)) for j in range(n)] for i in range(n)]
    for j in range(n):
        p = next((i for i in range(j, n) if M[i][j].d), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[j], M[p] = M[p], M[j]
        c = M[j][j].inverse()
        M[j] = [v * c if v.d else v for v in M[j]]
        for i in range(n):
            if i != j and M[i][j].d:
                c = M[i][j]
                M[i] = [a - c * b if b.d else a for a, b in zip(M[i], M[j])]
    R = EMPTY((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            R[i, j] = M[i][n + j]
    return R.view(np.matrix) if isinstance(A, np.matrix) else R


def _median(x, axis=None, **k):
    x0 = np.asarray(x)
    if axis is None or x0.ndim < 2:
        return symnp._median(x0)
    M = np.moveaxis(x0, axis, -1)
    r = EMPTY(M.shape[:-1], dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = symnp._median(M[i])
    return np.asmatrix(np.expand_dims(r, axis)) if isinstance(x, np.matrix) else r


def install(ctx):
    if not sym(ctx):
        return

    def ones(shape, *a, **k):
        return np.full(shape, F(1), dtype=object)

    def eye(n, *a, **k):
        r = np.full((n, n), F(0), dtype=object)
        for i in range(n):
            r[i, i] = F(1)
        return r
    def empty(shape, dtype=float, *a, **k):
        return np.full(shape, F(0), dtype=object) if dtype in (float, np.float64, object) else EMPTY(shape, dtype, *a, **k)

    def plain(f, orig):
        return lambda v, *a: f(v) if isinstance(v, (Num, F)) else orig(v, *a)
    P = np.linalg
    ex = lambda v: Num.env.exp(Num.of(v))
    extra = [(np.exp, _map(ex)), (np.sqrt, _map(_sqrt1)), (np.log, _map(_log1)), (np.median, _median), (np.ones, ones), (np.zeros, empty), (np.empty, empty), (P.inv, inverse), (np.eye, eye), (np.identity, eye),
             (P.cholesky, _cholesky), (P.slogdet, lambda A: (1, _log1(symnp.det(A)))), (math.exp, plain(ex, EXP)), (math.log, plain(_log1, LOG)), (math.sqrt, plain(_sqrt1, SQRT))]
    symnp.install(ctx, extra=extra)


# ---------------------------------------------------------------- the definition
def gram(ctx, cols, width):
    """centred Gaussian kernel of the records; cols: list of (list of columns, factor of the width, dimension counted)"""
    n = len(cols[0][0])
    K = [[F(1) if sym(ctx) else 1.0 for _ in range(n)] for _ in range(n)]
    for block, dim in cols:
        D = [[sum((r - s) * (r - s) for r, s in zip(block[i], block[j])) for j in range(n)] for i in range(n)]
        L = [D[i][j] for i in range(n) for j in range(i + 1, n)]
        L = [d for d in L if bool(d > 0)]
        med = symnp._median(np.array(L, dtype=object if sym(ctx) else float))
        w2 = width * width * med * dim          # twice the squared width
        for i in range(n):
            for j in range(n):
                K[i][j] = K[i][j] * np.exp(-D[i][j] / w2)
    r = [sum(K[i]) / n for i in range(n)]
    t = sum(r) / n
    return np.array([[K[i][j] - r[i] - r[j] + t for j in range(n)] for i in range(n)], dtype=object if sym(ctx) else float)


def logdet(ctx, B):
    """of a positive definite matrix, by its pivots"""
    B = [list(r) for r in B]
    n = len(B)
    s = 0
    for j in range(n):
        s = s + np.log(B[j][j])
        for i in range(j + 1, n):
            c = B[i][j] / B[j][j]
            for k in range(j, n):
                B[i][k] = B[i][k] - c * B[j][k]
    return s


def inv(ctx, A):
    return inverse(A) if sym(ctx) else np.linalg.inv(A)


def reference(ctx, X, parents, k, lam, width):
    """minus the mean over the folds of the held-out Gaussian likelihood term in the feature space"""
    g = F(1, 100) if sym(ctx) else 0.01
    n = len(X[0])
    K = gram(ctx, [X], width)
    P = gram(ctx, parents, width) if parents else None
    m = n // k
    total = 0
    for f in range(k):
        te = list(range(f * m, n if f == k - 1 else (f + 1) * m))
        tr = [i for i in range(n) if i not in te]
        n1 = len(tr)
        I = np.array([[1 if i == j else 0 for j in range(n1)] for i in range(n1)], dtype=object if sym(ctx) else float)
        Ktr, Kc, Kte = K[np.ix_(tr, tr)], K[np.ix_(tr, te)], K[np.ix_(te, te)]
        if P is not None:
            # residual features of the training records: Phi S, of the test records: phi - Phi R
            S = inv(ctx, P[np.ix_(tr, tr)] + n1 * lam * I)
            R = S.dot(P[np.ix_(tr, te)])
            S = n1 * lam * S
            E = S.dot(Ktr).dot(S)
            c = S.dot(Kc - Ktr.dot(R))
            base = Kte - Kc.T.dot(R) - R.T.dot(Kc) + R.T.dot(Ktr).dot(R)
        else:
            E, c, base = Ktr, Kc, Kte
        W = inv(ctx, g * n1 * I + E)
        A = (base - c.T.dot(W).dot(c)) / g
        tr_ = sum(A[i, i] for i in range(len(te)))
        B = I + E / (g * n1)
        nv = len(te)
        total = total + (nv * nv * np.log(2 * np.pi) + nv * logdet(ctx, B) / 2 + tr_) / 2
    return -total / k


# ---------------------------------------------------------------- jobs
# columns whose pairwise distances have the same median of squares, 2 * 5 * 5
COL = [[0, 2, 6, 14], [6, 14, 0, 2], [14, 0, 2, 6], [2, 6, 14, 0]]


def scored(ctx, kind, npar, k, mode, frame):
    """score of variable 1 given npar parents of 4 records"""
    n = 4
    width = 2 if kind == 'general' else 3
    one = F(1) if sym(ctx) else 1.0
    small = mode in ('default', 'cell', 'pcell')
    u = one / 8 if small else one
    data = [[u * COL[c][r] for c in range(4)] for r in range(n)]
    lam = F(1, 8) if sym(ctx) else 0.125
    Num.env = Env(ctx)
    U = (lambda g, v: Num.env.unknown(g, v)) if sym(ctx) else (lambda g, v: v)
    i, par = 1, [3, 0][:npar] if kind == 'general' or npar < 2 else [2, 0]
    if mode == 'lambda':
        lam = U(0, ctx.real('lambda', 0.01, 2))
    elif mode == 'default':
        lam = F(1, 100) if sym(ctx) else 0.01
    elif mode == 'entry':
        d = ctx.choice('distance', [2, 4, 6, 8, 12, 14])
        Num.env.free = -F(d * d, 200 if kind == 'general' else 450)
    elif mode == 'cell':
        r = ctx.choice('record', range(n))
        data[r][i] = U(1, ctx.real('x', data[r][i] - u if mode == 'cell' else data[r][par[0]] - u, data[r][i] + u if mode == 'cell' else data[r][par[0]] + u))
        for q in range(n):
            if q != r:
                ctx.assume(abs(data[r][i] - data[q][i]) > 0.0078125)
    elif mode == 'pcell':
        r = ctx.choice('record', range(n))
        data[r][par[0]] = U(1, ctx.real('x', data[r][i] - u if mode == 'cell' else data[r][par[0]] - u, data[r][i] + u if mode == 'cell' else data[r][par[0]] + u))
        for q in range(n):
            if q != r:
                ctx.assume(abs(data[r][par[0]] - data[q][par[0]]) > 0.0078125)
    install(ctx)
    A = np.array(data, dtype=object if sym(ctx) else float)
    D = pd.DataFrame(A, columns=['a', 'b', 'c', 'd']) if frame else A
    kw = {} if mode == 'default' else {'lambda_value': lam}
    kw['k_fold'] = k
    lab = {v: v for v in range(4)}
    if kind == 'labels':
        lab = {0: [0], 1: [1, 3], 2: [2], 3: [3]}
        kw['d_label'] = lab
    sc = (GeneralCVScore if kind == 'general' else MultiCVScore)(D, **kw)
    before = A.copy()
    s = sc(i, par)
    blocks = []
    for v in [i] + par:
        c = lab[v] if isinstance(lab[v], list) else [lab[v]]
        blocks.append(([[data[r][j] for j in c] for r in range(n)], 1 if kind == 'general' else len(c)))
    ref = reference(ctx, blocks[0], blocks[1:], k, lam, width)
    if sym(ctx):
        from vf.dse import mkr
        s, ref = mkr(difference(s, ref).z3()), 0
    ctx.close(s, ref, 'the score is not the mean held-out likelihood over the folds')
    ctx.check(all(a is b or a == b for a, b in zip(A.ravel(), before.ravel())), 'the data changes')
    ctx.cover('reached', True)


K = {'uf': 'const', 'path_timeout': 300, 'guard': 'assume', 'sqfact': False}
WHAT = {'lambda': 'any regularisation', 'entry': 'any value of the kernel at one distance', 'default': 'default regularisation', 'cell': 'any value of one record near a fixed one',
        'pcell': 'any value of one record of a parent near a fixed one'}


def _jobs():
    r = []
    for kind in ('general', 'multi', 'labels'):
        for mode, npar, k in [('entry', 0, 2), ('entry', 0, 3), ('entry', 0, 4), ('lambda', 1, 2), ('lambda', 1, 3), ('lambda', 1, 4), ('lambda', 2, 2), ('lambda', 2, 3), ('lambda', 2, 4),
                              ('default', 1, 3), ('entry', 1, 2), ('entry', 1, 3), ('entry', 2, 2), ('cell', 0, 2), ('cell', 1, 2), ('pcell', 1, 2)]:
            slow = mode == 'pcell' or mode == 'cell' and npar
            r.append(Job('%s_%s%d_%d' % (kind, mode, npar, k), scored, (kind, npar, k, mode, k == 3), engine='fork', covers=['reached'], tiers=T if slow else Q,
                         bounds='4 records, %d parents, %d folds, %s' % (npar, k, WHAT[mode]), opts=K, cost=3 if npar else 1))
    return r


# ---------------------------------------------------------------- marginal likelihood
def gp(ctx, cols, Y, th):
    """minus the log marginal likelihood of the columns of Y and its derivative by the noise parameter;
    th: log length scale of every column, log of signal and noise deviation"""
    n = len(cols[0])
    ell = [np.exp(t) for t in th[:-2]]
    sf, s2 = np.exp(2 * th[-2]), np.exp(2 * th[-1])
    K = np.array([[sf * np.exp(-sum((c[i] - c[j]) / l * ((c[i] - c[j]) / l) for c, l in zip(cols, ell)) / 2) + (s2 if i == j else 0) for j in range(n)] for i in range(n)],
                 dtype=object if sym(ctx) else float)
    R = inv(ctx, K)
    al = R.dot(Y)
    m = Y.shape[1]
    fit = sum(Y[i, j] * al[i, j] for i in range(n) for j in range(m))
    f = fit / 2 + m * logdet(ctx, K) / 2 + m * n * np.log(2 * np.pi) / 2
    g = s2 * (m * sum(R[i, i] for i in range(n)) - sum(al[i, j] * al[i, j] for i in range(n) for j in range(m)))
    return f, g


COL8 = [[0, 2, 6, 14, 3, 9, 1, 20], [6, 14, 0, 2, 11, 3, 25, 8], [14, 0, 2, 6, 1, 30, 4, 9], [2, 6, 14, 0, 7, 12, 5, 17]]
SPECTRA = {'in order': [4.0, 1.0, 0.25], 'small': [4.0, 2e-6, 1e-6], 'out of order': [1.0, 0.25, 4.0]}


def equal(ctx, a, b, label):
    if sym(ctx):
        from vf.dse import mkr
        a, b = mkr(difference(a, b).z3()), 0
    ctx.close(a, b, label)


def marginal(ctx, kind, npar, n, mode):
    one = F(1) if sym(ctx) else 1.0
    C = COL if n == 4 else COL8
    u = one / 8 if mode in ('noise', 'cell') else one
    data = [[u * C[c][r] for c in range(4)] for r in range(n)]
    i, par = 1, [3, 0, 2][:npar]
    Num.env = Env(ctx)
    U = (lambda g, v: Num.env.unknown(g, v)) if sym(ctx) else (lambda g, v: v)
    lab = {v: v for v in range(4)}
    if kind == 'labels':
        lab = {0: [0], 1: [1, 2], 2: [2], 3: [3, 2]}
    cols = lambda v: lab[v] if isinstance(lab[v], list) else [lab[v]]
    pc = [j for v in par for j in cols(v)]
    D = max(len(pc), 1)
    th = [one * [1, 1.5, 0.5, 2][j] for j in range(D)] + [one * 0.5, one * -0.25]
    t1 = [one * [0.5, 2, 1, 1.5][j] for j in range(D)] + [one * 0.25, one * 0.5]
    if mode == 'noise':
        th[-1] = U(0, ctx.real('noise', -1, 1))
    elif mode == 'signal':
        th[-2] = U(0, ctx.real('signal', -1, 1))
    elif mode == 'gradient':
        t1[-1] = U(0, ctx.real('noise', -1, 1))
    elif mode == 'cell':
        r = ctx.choice('record', range(n))
        data[r][i] = U(1, ctx.real('x', data[r][i] - u, data[r][i] + u))
        for q in range(n):
            if q != r:
                ctx.assume(abs(data[r][i] - data[q][i]) > 0.0078125)
    elif mode == 'pcell':
        r = ctx.choice('record', range(n))
        data[r][pc[0]] = U(1, ctx.real('x', data[r][pc[0]] - 0.5, data[r][pc[0]] + 0.5))
        for q in range(n):
            if q != r:
                ctx.assume(abs(data[r][pc[0]] - data[q][pc[0]]) > 0.0078125)
    install(ctx)
    spec = SPECTRA[ctx.choice('spectrum', list(SPECTRA))] if mode == 'spectrum' else SPECTRA['in order']
    w = np.array((spec + [0.0] * n)[:n]) if spec[0] == 4.0 else np.array(([1.0] + [0.0] * (n - 2) + [4.0]))
    V = np.array([[((3 * a + 5 * b) % 7 - 3) / 4 for b in range(n)] for a in range(n)])
    asked, starts = [], []

    def eig(M, *a, **k):
        asked.append(np.asarray(M))
        return w.copy(), V.copy().view(np.matrix) if isinstance(M, np.matrix) else V.copy()
    for nm in ('eig', 'eigh'):
        symnp.replace(ctx, getattr(np.linalg, nm), eig)
        ctx.patch(np.linalg, nm, eig)

    def column(v):
        return np.array([[x] for x in v], dtype=object if sym(ctx) else float)

    def minimize(X, f, length, *args):
        starts.append([x for x in np.asarray(X).ravel()])
        fn = getattr(SU, f) if isinstance(f, str) else f
        tried.append(fn(column(t1), *args, None, 2))
        return column(th), [0.0], 1
    tried = []
    symnp.replace(ctx, SU.minimize, minimize)
    ctx.patch(SU, 'minimize', minimize)
    A = np.array(data, dtype=object if sym(ctx) else float)
    kw = {'d_label': lab} if kind == 'labels' else {}
    sc = (GeneralMarginalScore if kind == 'general' else MultiMarginalScore)(A, **kw)
    before = A.copy()
    s = sc(i, par)
    ctx.check(len(asked) == 1 and len(starts) == 1, 'not one decomposition and one optimisation')
    X = [[data[r][j] for j in cols(i)] for r in range(n)]
    G = gram(ctx, [(X, 1)], F(5, 2) if sym(ctx) else 2.5)
    for a in range(n):
        for b in range(n):
            equal(ctx, asked[0][a, b], G[a, b], 'the features are not those of the centred kernel of the variable')
    # features: leading eigenvectors, relative to the largest eigenvalue
    order = sorted(range(n), key=lambda a: -w[a])[:n // 4]
    order = [a for a in order if w[a] > 1e-5 * max(w)]
    root = lambda v: _exact(np.sqrt(v))
    ex = (lambda v: F(float(v))) if sym(ctx) else float
    Y = np.array([[2 * root(n) * ex(V[r, a]) * root(w[a] / max(w)) for a in order] for r in range(n)], dtype=object if sym(ctx) else float)
    Z = [[data[r][j] for r in range(n)] for j in pc] or [[0 * one] * n]
    exp = []
    for v in par:
        B = [[data[r][j] for j in cols(v)] for r in range(n)]
        ds = [sum((p - q) * (p - q) for p, q in zip(B[a], B[b])) for a in range(n) for b in range(a)]
        med = symnp._median(np.array([d for d in ds if bool(d > 0)], dtype=object if sym(ctx) else float))
        for j in cols(v):
            exp.append(np.log(med * (one * 25 / 8)) / 2)
    exp = (exp or [100 * one]) + [0 * one, np.log(one / 10) / 2]
    ctx.check(len(starts[0]) == len(exp), 'the optimiser gets another number of parameters')
    for a, b in zip(starts[0], exp):
        equal(ctx, a, b, 'the optimisation starts at other parameters')
    f, g = gp(ctx, Z, Y, t1)
    equal(ctx, tried[0][0], f, 'the objective is not minus the log marginal likelihood')
    equal(ctx, np.asarray(tried[0][1]).ravel()[-1], g, 'the slope in the noise is not the derivative')
    f, _ = gp(ctx, Z, Y, th)
    equal(ctx, s, -f, 'the score is not the log marginal likelihood at the parameters found')
    ctx.check(all(a is b or a == b for a, b in zip(A.ravel(), before.ravel())), 'the data changes')
    ctx.cover('reached', True)


def _exact(v):
    c = v.const() if isinstance(v, Num) else None
    return c if c is not None else v


def _jobs38():
    r = []
    for kind in ('general', 'multi', 'labels'):
        for mode, npar, n in [('noise', 0, 4), ('noise', 1, 4), ('noise', 2, 4), ('signal', 1, 4), ('gradient', 1, 4), ('gradient', 2, 4), ('cell', 0, 4), ('cell', 1, 4), ('pcell', 1, 4), ('spectrum', 1, 8)]:
            r.append(Job('%s_%s%d_%d' % (kind, mode, npar, n), marginal, (kind, npar, n, mode), engine='fork', covers=['reached'], bounds='%d records, %d parents, %s' % (n, npar, mode), opts=K))
    return r


JOBS = {'C37': _jobs(), 'C38': _jobs38()}
