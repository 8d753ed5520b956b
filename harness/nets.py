"""Harnesses over the learners built on torch: models, losses, dual ascent and the optimiser wrapper."""
import math
import types

import numpy as np
import torch

import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy as LB
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.linear_ent as LE
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected as LC
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.nonlinear as NM
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.nonlinear_ent as NE
import cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils as EU

from harness.ref import *
from harness.registry import Job
from vf import symnp, symtorch
from vf.symtorch import Ten, give, val, wrap

MODS = {'ent': NE, 'mse': NM}
Q = ('quick', 'thorough')
T = ('thorough',)


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def fun(name, v):
    """sigmoid, sin, exp, log, sqrt, cosh of a number, symbolic or not"""
    from vf.dse import SymReal
    if isinstance(v, SymReal):
        return {'sigmoid': v.expit, 'cosh': lambda: v._u('cosh')}.get(name, None)() if name in ('sigmoid', 'cosh') else getattr(v, name)()
    return {'sigmoid': lambda t: 1 / (1 + math.exp(-t))}.get(name, getattr(math, name, None))(float(v))


def fixed(k, spread=7, scale=4.0):
    return ((k * 5 + 3) % spread - spread // 2) / scale


def table(ctx, name, rows, cols, free, lo=-2, hi=2, off=0):
    return [[ctx.real('%s%d_%d' % (name, i, j), lo, hi) if (i, j) in free else fixed(i * cols + j + off) for j in range(cols)] for i in range(rows)]


def tensor(ctx, rows):
    if sym(ctx):
        return wrap(np.array(rows, dtype=object))
    return torch.tensor([[float(v) for v in r] for r in rows], dtype=torch.double)


def number(x):
    v = val(x)
    return v.reshape(-1)[0] if np.size(v) == 1 else None


def cycles(A):
    """trace of (I + A / d)^d less d"""
    d = len(A)
    M = [[(1 if i == j else 0) + A[i][j] / d for j in range(d)] for i in range(d)]
    E = M
    for _ in range(d - 1):
        E = [[sum(E[i][k] * M[k][j] for k in range(d)) for j in range(d)] for i in range(d)]
    return sum(E[i][i] for i in range(d)) - d


def absv(v):
    return v if bool(v >= 0) else -v


def model_checks(ctx, m, A, x, out, pred):
    d = len(A)
    ctx.close(number(m.h_func()), cycles(A), 'the cycle measure is not the trace of (I + A/d)^d less d')
    o = val(out)
    ctx.check(o.shape == (len(x), d), 'shape of the prediction')
    for s in range(len(x)):
        for j in range(d):
            ctx.close(o[s, j], pred[s][j], 'the prediction is not the stated function of the variables')


def weights_bounds(ctx, p, d, per):
    """bounds of a weight of shape [out, in]: per(o, i) says whether it is a weight of a variable on itself"""
    b = [tuple(x) for x in p.bounds]
    r, c = tuple(p.shape)
    ctx.check(len(b) == r * c, 'number of bounds')
    for o in range(r):
        for i in range(c):
            ctx.check(b[o * c + i] == ((0, 0) if per(o, i) else (0, None)), 'bounds: weights are non-negative, those of a variable on itself are zero')


def adjacency(ctx, W, A):
    d = len(A)
    ctx.check(np.shape(W) == (d, d), 'shape of the adjacency')
    for i in range(d):
        for j in range(d):
            ctx.close(W[i, j], fun('sqrt', A[i][j]) if not plain(A[i][j]) else math.sqrt(A[i][j]), 'the adjacency is not the root of the summed squares of the weights')


def plain(v):
    return isinstance(v, (int, float, np.generic))


def linear_model(ctx, d, samples, bias, free):
    symtorch.install(ctx)
    m = LE.linear_nonGauss(d, bias=bias)
    P = table(ctx, 'p', d, d, free.get('p', ()))
    N = table(ctx, 'n', d, d, free.get('n', ()), off=11)
    for p in (m.linear_pos.weight, m.linear_neg.weight):
        weights_bounds(ctx, p, d, lambda o, i: o == i)
        ctx.check(not val(p).any(), 'the weights do not start at zero')
    give(ctx, m.linear_pos, 'weight', P)
    give(ctx, m.linear_neg, 'weight', N)
    bp, bn = [0] * d, [0] * d
    if bias:
        bp, bn = [fixed(j + 2) for j in range(d)], [ctx.real('b%d' % j, -1, 1) if j == 0 else fixed(j + 5) for j in range(d)]
        give(ctx, m.linear_pos, 'bias', bp)
        give(ctx, m.linear_neg, 'bias', bn)
    x = table(ctx, 'x', samples, d, free.get('x', ()), off=4)
    X = tensor(ctx, x)
    W = [[P[j][i] - N[j][i] for j in range(d)] for i in range(d)]      # from i to j
    A = [[W[i][j] * W[i][j] for j in range(d)] for i in range(d)]
    pred = [[sum(x[s][i] * W[i][j] for i in range(d)) + bp[j] - bn[j] for j in range(d)] for s in range(samples)]
    model_checks(ctx, m, A, x, m(X), pred)
    ctx.close(number(m.L2()), sum(v * v for r in x for v in r) / samples, 'squared size of the inputs')
    ctx.close(number(m.L1()), sum(v for r in W for v in r), 'sum of the weights')
    ctx.close(number(m.abs_L1()), sum(absv(v) for r in W for v in r), 'sum of the sizes of the weights')
    R = m.weight_test()
    ctx.check(np.shape(R) == (d, d), 'shape of the weights')
    for i in range(d):
        for j in range(d):
            ctx.close(R[i, j], W[i][j], 'the reported weight [i, j] is not that from i to j')
    ctx.cover('reached', True)


def mlp_model(ctx, mod, dims, samples, bias, free):
    symtorch.install(ctx)
    d, m1 = dims[0], dims[1]
    m = MODS[mod].NotearsMLP(dims, bias=bias)
    P = table(ctx, 'p', d * m1, d, free.get('p', ()))
    N = table(ctx, 'n', d * m1, d, free.get('n', ()), off=11)
    for p in (m.fc1_pos.weight, m.fc1_neg.weight):
        weights_bounds(ctx, p, d, lambda o, i: o // m1 == i)
    give(ctx, m.fc1_pos, 'weight', P)
    give(ctx, m.fc1_neg, 'weight', N)
    b1 = [0] * (d * m1)
    if bias:
        give(ctx, m.fc1_pos, 'bias', [fixed(k) for k in range(d * m1)])
        q = [ctx.real('b', -1, 1)] + [fixed(k + 4) for k in range(1, d * m1)]
        give(ctx, m.fc1_neg, 'bias', q)
        b1 = [fixed(k) - q[k] for k in range(d * m1)]
    fcs = []
    for l, fc in enumerate(m.fc2):
        a, b = dims[l + 1], dims[l + 2]
        w = [[[ctx.real('v%d_%d%d%d' % (l, j, u, v), -2, 2) if (l, j, u, v) in free.get('v', ()) else fixed(l * 17 + (j * a + u) * b + v + 1) for v in range(b)] for u in range(a)] for j in range(d)]
        give(ctx, fc, 'weight', w)
        c = [[0] * b for _ in range(d)]
        if bias:
            c = [[fixed(l * 3 + j * b + v + 2) for v in range(b)] for j in range(d)]
            give(ctx, fc, 'bias', c)
        else:
            ctx.check(fc.bias is None, 'a bias that was not asked for')
        fcs.append((w, c, a, b))
    x = table(ctx, 'x', samples, d, free.get('x', ()), off=4)
    X = tensor(ctx, x)
    D = [[[P[j * m1 + k][i] - N[j * m1 + k][i] for k in range(m1)] for j in range(d)] for i in range(d)]
    A = [[sum(v * v for v in D[i][j]) for j in range(d)] for i in range(d)]
    pred = []
    for s in range(samples):
        row = []
        for j in range(d):
            z = [sum(x[s][i] * D[i][j][k] for i in range(d)) + b1[j * m1 + k] for k in range(m1)]
            for w, c, a, b in fcs:
                g = [fun('sigmoid', v) for v in z]
                z = [sum(g[u] * w[j][u][v] for u in range(a)) + c[j][v] for v in range(b)]
            row.append(z[0])
        pred.append(row)
    model_checks(ctx, m, A, x, m(X), pred)
    ctx.close(number(m.l2_reg()), sum(v for r in A for v in r) + sum(t * t for w, _, _, _ in fcs for p in w for q in p for t in q), 'squared size of the weights')
    ctx.close(number(m.fc1_l1_reg()), sum(v for r in P + N for v in r), 'sum of the positive and negative weights')
    adjacency(ctx, m.fc1_to_adj(), A)
    ctx.cover('reached', True)


def sobolev_model(ctx, mod, d, k, samples, free):
    symtorch.install(ctx)
    m = MODS[mod].NotearsSobolev(d, k)
    P = table(ctx, 'p', d, d * k, free.get('p', ()))
    N = table(ctx, 'n', d, d * k, free.get('n', ()), off=11)
    for p in (m.fc1_pos.weight, m.fc1_neg.weight):
        weights_bounds(ctx, p, d, lambda o, i: i // k == o)
        ctx.check(not val(p).any(), 'the weights do not start at zero')
    give(ctx, m.fc1_pos, 'weight', P)
    give(ctx, m.fc1_neg, 'weight', N)
    x = table(ctx, 'x', samples, d, free.get('x', ()), off=4)
    X = tensor(ctx, x)
    D = [[[P[j][i * k + q] - N[j][i * k + q] for q in range(k)] for j in range(d)] for i in range(d)]
    A = [[sum(v * v for v in D[i][j]) for j in range(d)] for i in range(d)]
    pred = []
    for s in range(samples):
        B = []
        for i in range(d):
            B.append([2.0 / (2 * q + 1) / math.pi * fun('sin', x[s][i] / (2.0 / (2 * q + 1) / math.pi)) for q in range(k)])
        pred.append([sum(B[i][q] * D[i][j][q] for i in range(d) for q in range(k)) for j in range(d)])
    model_checks(ctx, m, A, x, m(X), pred)
    ctx.close(number(m.l2_reg()), sum(v * v for r in pred for v in r) / samples, 'squared size of the prediction')
    ctx.close(number(m.fc1_l1_reg()), sum(v for r in P + N for v in r), 'sum of the positive and negative weights')
    adjacency(ctx, m.fc1_to_adj(), A)
    ctx.cover('reached', True)


def local_layer(ctx, d, a, b, samples, bias, free):
    symtorch.install(ctx)
    fc = LC.LocallyConnected(d, a, b, bias=bias)
    bound = 1 / math.sqrt(a)
    ctx.check(tuple(fc.weight.shape) == (d, a, b), 'shape of the weights')
    ctx.check(all(abs(float(v)) <= bound + 1e-9 for p in fc.parameters() for v in p.detach().numpy().ravel()), 'range of the first weights')
    w = [[[ctx.real('w%d%d%d' % (j, u, v), -2, 2) if (j, u, v) in free else fixed((j * a + u) * b + v) for v in range(b)] for u in range(a)] for j in range(d)]
    give(ctx, fc, 'weight', w)
    c = [[0] * b for _ in range(d)]
    if bias:
        c = [[fixed(j * b + v + 2) for v in range(b)] for j in range(d)]
        c[0][0] = ctx.real('c', -1, 1)
        give(ctx, fc, 'bias', c)
    x = [[[ctx.real('x%d%d%d' % (s, j, u), -2, 2) if (s, j, u) in ((0, 0, 0), (samples - 1, d - 1, a - 1)) else fixed((s * d + j) * a + u + 3) for u in range(a)] for j in range(d)] for s in range(samples)]
    X = wrap(np.array(x, dtype=object)) if sym(ctx) else torch.tensor(np.array(x, dtype=float))
    keep = val(X).copy()
    o = val(fc(X))
    ctx.check(o.shape == (samples, d, b), 'shape of the layer')
    for s in range(samples):
        for j in range(d):
            for v in range(b):
                ctx.close(o[s, j, v], sum(x[s][j][u] * w[j][u][v] for u in range(a)) + c[j][v], 'the layer mixes variables or features')
    ctx.check(all(p is q or p == q for p, q in zip(keep.ravel(), val(X).ravel())), 'the input changes')
    ctx.cover('reached', True)


def moments(r):
    v = [t for row in r for t in row]
    n = len(v)
    mu = sum(v) / n
    var = sum((t - mu) * (t - mu) for t in v) / (n - 1)
    return v, n, mu, var


def losses(ctx, kind, samples, d, free):
    """losses of the difference between inputs and predictions"""
    symtorch.install(ctx)
    x = table(ctx, 'x', samples, d, free.get('x', ()), off=4)
    y = table(ctx, 'y', samples, d, free.get('y', ()), off=9)
    X, Y = tensor(ctx, x), tensor(ctx, y)
    r = [[x[s][j] - y[s][j] for j in range(d)] for s in range(samples)]
    if kind.startswith('squared'):
        for mod in (LE, NE, NM):
            got = number(mod.squared_loss(Y, X))
            ctx.close(got, sum(v * v for row in r for v in row) / (2 * samples), 'half the squared error per record')
        ctx.cover('reached', True)
        return
    v, n, mu, var = moments(r)
    ctx.assume(var > 0.01)
    sd = fun('sqrt', var)
    z = [(t - mu) / sd for t in v]
    if kind == 'mentappr':
        got = EU.entropy_loss_mentappr(Y, X)
        e = [fun('exp', -(t * t) / 2) for t in z]
        k2, k1 = 24 / (16 * math.sqrt(3) - 27), 36 / (8 * math.sqrt(3) - 9)
        k2, k1, con = 33.66942333606287, 7.412888581800331, 0.7071067811865476
        p = sum(e) / n - con
        q = sum(a * b for a, b in zip(z, e)) / n
        want = 1.4189385332046727 - k2 * p * p - k1 * q * q + fun('log', sd)
    elif kind == 'high':
        got = EU.entropy_loss_high_order(Y, X)
        want = cumulants(z, n, var)
    elif kind == 'G1':
        got = EU.entropy_loss_G1(Y, X)
        want = -(sum(fun('log', fun('cosh', t)) for t in z) / n) ** 2
    elif kind == 'G1high':
        got = EU.entropy_loss_G1_high_order(Y, X)
        want = cumulants(z, n, var) - (sum(fun('log', fun('cosh', t)) for t in z) / n) ** 2
    elif kind == 'variance':
        got = EU.variance_loss(Y, X)
        want = sd
    ctx.close(number(got), want, 'the loss is not the stated function of the residuals')
    ctx.cover('reached', True)


def cumulants(z, n, var):
    m2 = sum(t ** 2 for t in z) / n
    m3 = sum(t ** 3 for t in z) / n
    m4 = sum(t ** 4 for t in z) / n
    k3 = m3 / (fun('sqrt', m2) * m2)
    k4 = m4 / (m2 * m2)
    return fun('log', var) / 2 - k3 * k3 / 12 - k4 * k4 / 48


def knn(ctx, samples, d, k, free):
    """nearest-neighbour entropy: each column standardised and sorted, log of the least squared distance"""
    symtorch.install(ctx)
    x = table(ctx, 'x', samples, d, free, off=4)
    y = [[0.0] * d for _ in range(samples)]
    X, Y = tensor(ctx, x), tensor(ctx, y)
    total = 0
    eps = 1e-5
    for j in range(d):
        col = [x[s][j] for s in range(samples)]
        mu = sum(col) / samples
        var = sum((t - mu) * (t - mu) for t in col) / (samples - 1)
        ctx.assume(var > 0.01)
        sd = fun('sqrt', var)
        for a in range(samples):
            for b in range(a):
                ctx.assume(absv(col[a] - col[b]) > 0.01)
        srt = []
        for t in col:
            p = 0
            while p < len(srt) and bool(srt[p] < t):
                p += 1
            srt.insert(p, t)
        z = [(t - mu) / sd for t in srt]
        for i in range(samples):
            for s in range(1, k + 1):
                lo = (z[i] - z[i - s]) if i >= s else None
                hi = (z[i + s] - z[i]) if i + s < samples else None
                if i < k:
                    lo = None
                elif i >= samples - k:
                    hi = None
                gs = [fun('log', g * g + eps) for g in (lo, hi) if g is not None]
                if len(gs) == 2:
                    if bool(hi < lo):
                        ctx.assume(gs[1] < gs[0])
                        gs = gs[1:]
                    else:
                        ctx.assume(gs[1] >= gs[0])
                total = total + gs[0]
    got = EU.entropy_loss_knn(Y, X, k=k)
    ctx.close(number(got), total / k, 'nearest-neighbour entropy')
    ctx.cover('reached', True)


# ---- dual ascent -------------------------------------------------------------------------------------------

class Fake:
    """a model whose predictions, cycle measure and regularisers are any numbers"""

    def __init__(self, ctx, samples, d):
        self.ctx, self.samples, self.dd = ctx, samples, d
        self.w = [self.leaf(0.0), self.leaf(0.0)]
        self.seen = []
        self.training = True
        self.set(0, [[0.0] * d for _ in range(samples)], 0.0, 0.0, [[0.0] * d for _ in range(d)])

    def leaf(self, v):
        if sym(self.ctx):
            return wrap(v)
        return torch.tensor([0.0], dtype=torch.double, requires_grad=True)

    def num(self, v):
        if sym(self.ctx):
            return wrap(v)
        return torch.tensor(float(v), dtype=torch.double) + 0 * self.w[0].sum()

    def set(self, h, pred, l1, l2, W):
        self.h, self.p, self.l1, self.l2, self.W = h, pred, l1, l2, W

    def parameters(self, *a, **k):
        return iter(self.w)

    def train(self, *a):
        return self

    def eval(self):
        return self

    def __call__(self, x):
        self.seen.append(x)
        if sym(self.ctx):
            return wrap(np.array(self.p, dtype=object))
        return torch.tensor([[float(v) for v in r] for r in self.p], dtype=torch.double) + 0 * self.w[0].sum()
    forward = __call__

    def h_func(self):
        return self.num(self.h)

    def L2(self):
        return self.num(self.l2)
    l2_reg = L2

    def abs_L1(self):
        return self.num(self.l1)
    fc1_l1_reg = abs_L1

    def weight_test(self):
        r = np.array(self.W, dtype=object if sym(self.ctx) else float)
        return r
    fc1_to_adj = weight_test


def entropy_of(x, p):
    v, n, mu, var = moments([[a - b for a, b in zip(r, q)] for r, q in zip(x, p)])
    sd = fun('sqrt', var)
    z = [(t - mu) / sd for t in v]
    e = [fun('exp', -(t * t) / 2) for t in z]
    a = sum(e) / n - 0.7071067811865476
    b = sum(s * t for s, t in zip(z, e)) / n
    return 1.4189385332046727 - 33.66942333606287 * a * a - 7.412888581800331 * b * b + fun('log', sd)


def ascent(ctx, which, rounds, steps, free, defaults, anneal=False):
    """the optimisation problems posed by the learner and its result, for any solutions"""
    symtorch.install(ctx)
    d, samples = 2, 2
    x = table(ctx, 'x', samples, d, free.get('x', ()), off=4)
    X = np.array(x, dtype=object if sym(ctx) else float)
    m = Fake(ctx, samples, d)
    mod = {'linear': LE, 'ent': NE, 'mse': NM}[which]
    lam1 = ctx.real('lambda1', 0, 1) if 'l1' in free else 0.25
    lam2 = ctx.real('lambda2', 0, 1) if 'l2' in free else 0.5
    beta, gama = 1.0, 1.0
    kw = dict(lambda1=lam1, lambda2=lam2)
    thr, tol, rmax, mx = 0.3, 1e-8, 1e16, (100 if which == 'linear' else 10)
    if defaults:
        kw = {}
        lam1 = lam2 = 0
    else:
        thr, tol, rmax, mx = 0.5, 0.0625, 10.0 ** steps, rounds
        kw.update(max_iter=mx, h_tol=tol, rho_max=rmax, w_threshold=thr)
        if which == 'linear':
            beta = ctx.real('beta', 0, 2) if 'beta' in free else 0.75
            gama = ctx.real('gama', 0, 2) if 'gama' in free else 0.5
            if anneal:
                beta = ctx.choice('beta0', [0.25, 0.0625, 0.15]) if anneal != 'many' else 0.25
                kw['anneal'] = True
            kw.update(beta=beta, gama=gama)
    st = {'rho': 1.0, 'alpha': 0, 'h': None, 'it': 0, 'done': False, 'n': 0, 'beta': beta, 'new': True}
    hs = ['h%d' % t for t in range(8)]

    class Opt:
        def __init__(self, params, *a, **k):
            ctx.check(list(params) == list(m.w) or all(p is q for p, q in zip(params, m.w)), 'the parameters of the model are not those optimised')
            self.zero = 0

        def zero_grad(self, *a, **k):
            self.zero += 1
            for p in m.w:
                p.grad = None

        def step(self, closure):
            t = st['n']
            ctx.check(not st['done'] and t < 8, 'an optimisation after the end')
            st['n'] = t + 1
            if anneal and st['new'] and st['beta'] > 0.1:
                st['beta'] = st['beta'] - 0.1
            st['new'] = False
            # any intermediate point
            p = [[ctx.real('p%d_%d%d' % (t, i, j), -2, 2) if (i, j) in free.get('p', ()) and t < 2 else ((i * 3 + j * 5 + t * 2 + 1) % 11) / 4 for j in range(d)] for i in range(samples)]
            hv = ctx.real('v%d' % t, 0, 4) if t < 2 and 'v' in free else 0.75 + t
            l1 = ctx.real('a%d' % t, 0, 4) if t < 2 and 'a' in free else 1.5
            l2 = ctx.real('c%d' % t, 0, 4) if t < 2 and 'c' in free else 2.25
            m.set(hv, p, l1, l2, [[9.0] * d] * d)
            mse = sum((a - b) * (a - b) for r, q in zip(x, p) for a, b in zip(r, q)) / (2 * samples)
            pen = st['rho'] * hv * hv / 2 + st['alpha'] * hv + lam2 * l2 / 2 + lam1 * l1
            if which == 'mse':
                want = mse + pen
            else:
                e = entropy_of(x, p)
                want = e + pen if which == 'ent' else st['beta'] * e + gama * mse + pen
            z, b = self.zero, len(symtorch.BACK)
            del m.seen[:]
            loss = closure()
            ctx.close(number(loss), want, 'the objective is not the augmented Lagrangian')
            ctx.check(len(m.seen) == 1 and val(m.seen[0]).shape == (samples, d), 'the model is not applied to the data')
            for i in range(samples):
                for j in range(d):
                    ctx.close(val(m.seen[0])[i, j], x[i][j], 'the model is not applied to the data')
            ctx.check(self.zero == z + 1, 'gradients are not reset')
            if sym(ctx):
                ctx.check(len(symtorch.BACK) == b + 1 and symtorch.BACK[-1] is loss, 'no gradient of the objective')
            else:
                ctx.check(m.w[0].grad is not None, 'no gradient of the objective')
            # any solution
            h = ctx.real(hs[t], 0, 2)
            if st['h'] is not None:
                ctx.assume(abs(h - st['h'] / 4) > 1e-6)
            if defaults:
                ctx.assume(h < 1e-9 if t else h > 0.5)
            else:
                ctx.assume(abs(h - tol) > tol / 100)
            accept = not (st['h'] is not None and bool(h > st['h'] / 4))
            if not accept:
                st['rho'] *= 10
                ctx.cover('penalty raised')
            if accept or st['rho'] >= rmax:
                st['h'] = h
                st['alpha'] = st['alpha'] + st['rho'] * h
                st['it'] += 1
                st['new'] = True
                st['done'] = st['it'] >= mx or bool(h <= tol) or st['rho'] >= rmax
            W = [[0.0, 0.875 + t], [0.25, 0.0]]
            if st['done']:
                W = [[0.0, ctx.real('s%d' % t, -1, 1)], [ctx.choice('r%d' % t, [0.0, -1.0, 0.125]), 0.0]]
                ctx.assume(abs(abs(W[0][1]) - thr) > 1e-6)
            m.set(h, [[8.0] * d] * samples, 7.0, 7.0, W)
            st['W'] = W
    symnp.replace(ctx, LB.LBFGSBScipy, Opt)
    keep = [list(r) for r in X]
    if which == 'linear':
        R = mod.train_LBFGSB(m, X, **kw)
    else:
        R = mod.notears_nonlinear(m, X, **kw)
    ctx.check(st['done'], 'the search stops early')
    ctx.check(np.shape(R) == (d, d), 'shape')
    for i in range(d):
        for j in range(d):
            v = st['W'][i][j]
            ctx.close(R[i, j], v if bool(absv(v) >= thr) else 0, 'the result is not the last solution less its small weights')
    ctx.check(all(a is b or a == b for r, q in zip(keep, X) for a, b in zip(r, q)), 'the data changes')
    ctx.cover('several rounds', st['it'] > 1)
    ctx.cover('reached', True)


def wrapper(ctx, shapes, bound, nograd, calls):
    """the optimiser wrapper hands over parameters, bounds and gradients in one order and puts the solution back"""
    symtorch.install(ctx)
    total = sum(int(np.prod(s)) for s in shapes)
    w0 = [ctx.real('w%d' % k, -2, 2) if k < 2 else fixed(k) for k in range(total)]
    ps, at = [], []
    o = 0
    for n, s in enumerate(shapes):
        c = int(np.prod(s))
        if sym(ctx):
            p = wrap(np.array(w0[o:o + c], dtype=object).reshape(s))
        else:
            p = torch.nn.Parameter(torch.tensor([float(v) for v in w0[o:o + c]], dtype=torch.double).view(*s))
        if n in bound:
            p.bounds = [(0, 0) if k % 3 == 0 else (0, None) if k % 3 == 1 else (None, 2.0 + n) for k in range(c)]
        ps.append(p)
        at.append((o, c))
        o += c
    want_b = [b for n, (q, c) in enumerate(at) for b in (ps[n].bounds if n in bound else [(None, None)] * c)]
    if sym(ctx):
        def init(self, params, defaults):
            self.param_groups = [{'params': list(params)}]
            self.defaults, self.state = defaults, {}
        ctx.patch(torch.optim.Optimizer, '__init__', init)
    opt = LB.LBFGSBScipy(iter(ps))
    done = []
    cur = list(w0)
    for r in range(calls):
        def closure():
            for n, p in enumerate(ps):
                q, c = at[n]
                v = val(p)
                ctx.check(v.shape == tuple(shapes[n]), 'shape of a parameter')
                for k in range(c):
                    ctx.close(v.ravel()[k], trial[q + k], 'a trial point is not in the parameters when the objective is evaluated')
                if n in nograd:
                    p.grad = None
                    continue
                g = np.array(grads[q:q + c], dtype=object).reshape(shapes[n])
                p.grad = wrap(g) if sym(ctx) else torch.tensor(np.array(g, dtype=float))
            return wrap(loss) if sym(ctx) else torch.tensor(float(loss), dtype=torch.double)

        def minimize(f, x0, args=(), method=None, jac=None, bounds=None, **k):
            nonlocal trial, loss, grads
            ctx.check(method == 'L-BFGS-B' and jac is True, 'another optimiser')
            ctx.check(len(x0) == total, 'number of values')
            for a, b in zip(list(x0), cur):
                ctx.close(a, b, 'the search does not start at the parameters')
            ctx.check([tuple(b) for b in bounds] == [tuple(b) for b in want_b], 'the bounds are not those of the parameters')
            for e in range(2):
                trial = [ctx.real('t%d_%d_%d' % (r, e, k), -2, 2) if k in (0, total - 1) else fixed(k + 3 * e + r) for k in range(total)]
                grads = [ctx.real('g%d_%d_%d' % (r, e, k), -2, 2) if k in (1, total - 1) else fixed(2 * k + e + r + 1) for k in range(total)]
                loss = ctx.real('l%d_%d' % (r, e), -2, 2)
                v, g = f(np.array(trial, dtype=object if sym(ctx) else float), *args)
                ctx.close(v, loss, 'the value is not that of the objective')
                ctx.check(len(g) == total, 'number of derivatives')
                for n, (q, c) in enumerate(at):
                    for k in range(q, q + c):
                        ctx.close(g[k], 0 if n in nograd else grads[k], 'the derivatives are not those of the parameters')
            sol = [ctx.real('s%d_%d' % (r, k), -2, 2) if k in (0, total - 1) else fixed(3 * k + r + 2) for k in range(total)]
            done.append(sol)
            return types.SimpleNamespace(x=np.array(sol, dtype=object if sym(ctx) else float), fun=0.0, success=True)
        trial = loss = grads = None
        if r == 0:
            ctx.patch(LB.sopt, 'minimize', lambda *a, **k: now(*a, **k))
        now = minimize
        opt.step(closure)
        ctx.check(len(done) == r + 1, 'one search per step')
        cur = done[-1]
        for n, p in enumerate(ps):
            v = val(p)
            ctx.check(v.shape == tuple(shapes[n]), 'shape of a parameter')
            for k in range(at[n][1]):
                ctx.close(v.ravel()[k], cur[at[n][0] + k], 'the parameters are not the solution')
    ctx.cover('reached', True)


NL = {'uf': 'const', 'guard': 'assume'}
J = lambda n, f, a, b, **k: Job(n, f, a, engine='fork', covers=k.pop('covers', ['reached']), bounds=b, opts=k.pop('opts', NL), **k)
JOBS = {
    'C35': [
        J('linear2', linear_model, (2, 2, False, {'p': [(0, 1), (1, 0)], 'n': [(0, 1), (1, 1)], 'x': [(0, 0)]}), '2 variables; 4 weights and a cell free'),
        J('linear3', linear_model, (3, 2, True, {'p': [(0, 1), (1, 2), (2, 0)], 'n': [(0, 2)], 'x': [(1, 2)]}), '3 variables with biases; 4 weights and a cell free', cost=2),
        J('mlp2_ent', mlp_model, ('ent', [2, 2, 1], 2, True, {'p': [(0, 1), (3, 0)], 'n': [(2, 0), (1, 0)], 'x': [(1, 0)], 'v': [(0, 1, 0, 0)]}), '2 variables, 2 hidden units', cost=2),
        J('mlp2_mse', mlp_model, ('mse', [2, 2, 1], 2, True, {'p': [(0, 1), (3, 0)], 'n': [(2, 0), (1, 0)], 'x': [(1, 0)], 'v': [(0, 1, 0, 0)]}), '2 variables, 2 hidden units', cost=2),
        J('mlp3_ent', mlp_model, ('ent', [3, 2, 1], 1, False, {'p': [(0, 1), (3, 0), (5, 1)], 'n': [(4, 0)], 'v': [(0, 2, 1, 0)]}), '3 variables, 2 hidden units', cost=2),
        J('mlp3_mse', mlp_model, ('mse', [3, 2, 1], 1, False, {'p': [(0, 1), (3, 0), (5, 1)], 'n': [(4, 0)], 'v': [(0, 2, 1, 0)]}), '3 variables, 2 hidden units', cost=2),
        J('deep_ent', mlp_model, ('ent', [2, 2, 3, 1], 1, True, {'p': [(1, 1)], 'n': [(2, 0)], 'v': [(0, 1, 1, 2), (1, 0, 2, 0)]}), '2 variables, 2 hidden layers', cost=2),
        J('deep_mse', mlp_model, ('mse', [2, 2, 3, 1], 1, True, {'p': [(1, 1)], 'n': [(2, 0)], 'v': [(0, 1, 1, 2), (1, 0, 2, 0)]}), '2 variables, 2 hidden layers', cost=2),
        J('sobolev_ent', sobolev_model, ('ent', 2, 2, 2, {'p': [(0, 2), (1, 1)], 'n': [(1, 0), (0, 3)], 'x': [(0, 1)]}), '2 variables, 2 basis functions', cost=2),
        J('sobolev_mse', sobolev_model, ('mse', 2, 2, 2, {'p': [(0, 2), (1, 1)], 'n': [(1, 0), (0, 3)], 'x': [(0, 1)]}), '2 variables, 2 basis functions', cost=2),
        J('sobolev3_ent', sobolev_model, ('ent', 3, 2, 1, {'p': [(0, 2), (1, 5), (2, 1)], 'n': [(1, 0)], 'x': [(0, 1)]}), '3 variables, 2 basis functions', cost=2),
        J('sobolev3_mse', sobolev_model, ('mse', 3, 2, 1, {'p': [(0, 2), (1, 5), (2, 1)], 'n': [(1, 0)], 'x': [(0, 1)]}), '3 variables, 2 basis functions', cost=2),
        J('local', local_layer, (2, 3, 2, 2, True, [(0, 1, 0), (1, 2, 1)]), '2 variables, 3 to 2 features'),
        J('local_plain', local_layer, (3, 2, 2, 2, False, [(0, 1, 0), (2, 1, 1)]), '3 variables, no bias'),
        J('squared', losses, ('squared', 3, 2, {'x': [(0, 0), (2, 1)], 'y': [(1, 1)]}), '3 records of 2 variables; 3 cells free'),
        J('mentappr', losses, ('mentappr', 3, 2, {'x': [(0, 0)]}), '3 records of 2 variables; a cell free', cost=2),
        J('mentappr_y', losses, ('mentappr', 2, 2, {'y': [(1, 0)]}), '2 records of 2 variables; a cell free', cost=2),
        J('high', losses, ('high', 2, 2, {'x': [(0, 1)]}), '2 records of 2 variables; a cell free', cost=2),
        J('G1', losses, ('G1', 2, 2, {'x': [(0, 1)]}), '2 records of 2 variables; a cell free', cost=2),
        J('G1high', losses, ('G1high', 2, 2, {'y': [(0, 1)]}), '2 records of 2 variables; a cell free', cost=2),
        J('variance', losses, ('variance', 3, 2, {'x': [(0, 1)], 'y': [(2, 0)]}), '3 records of 2 variables; 2 cells free'),
        J('knn1', knn, (3, 2, 1, [(1, 0)]), '3 records of 2 variables, 1 neighbour; a cell free', cost=2),
        J('knn2', knn, (4, 1, 2, [(1, 0)]), '4 records, 2 neighbours; a cell free', cost=2),
    ],
    'C36': [
        J('linear', ascent, ('linear', 2, 2, dict.fromkeys(['v', 'a', 'c']), False), '2 rounds, 2 penalties; any values of the model', covers=['reached', 'several rounds', 'penalty raised'], cost=4),
        J('ent', ascent, ('ent', 2, 2, dict.fromkeys(['v', 'a', 'c']), False), '2 rounds, 2 penalties; any values of the model', covers=['reached', 'several rounds', 'penalty raised'], cost=4),
        J('mse', ascent, ('mse', 2, 2, dict.fromkeys(['v', 'a', 'c']), False), '2 rounds, 2 penalties; any values of the model', covers=['reached', 'several rounds', 'penalty raised'], cost=4),
        J('linear_data', ascent, ('linear', 1, 1, {'x': [(0, 0)], 'p': [(1, 1)], 'beta': 1, 'gama': 1}, False), 'any data, prediction and balance of losses', cost=2),
        J('ent_data', ascent, ('ent', 1, 1, {'x': [(0, 0)], 'p': [(1, 1)]}, False), 'any data and prediction', cost=2),
        J('mse_data', ascent, ('mse', 1, 1, {'x': [(0, 0)], 'p': [(1, 1)], 'l1': 1, 'l2': 1}, False), 'any data, prediction and regularisation', cost=2),
        J('linear_reg', ascent, ('linear', 1, 1, dict.fromkeys(['l1', 'l2', 'a', 'c']), False), 'any regularisation', cost=2),
        J('ent_reg', ascent, ('ent', 1, 1, dict.fromkeys(['l1', 'l2', 'a', 'c']), False), 'any regularisation', cost=2),
        J('anneal', ascent, ('linear', 3, 1, {}, False, True), '3 rounds with annealing', covers=['reached', 'several rounds'], cost=2),
        J('linear_default', ascent, ('linear', 0, 0, {}, True), 'default options', covers=['reached', 'several rounds']),
        J('ent_default', ascent, ('ent', 0, 0, {}, True), 'default options', covers=['reached', 'several rounds']),
        J('mse_default', ascent, ('mse', 0, 0, {}, True), 'default options', covers=['reached', 'several rounds']),
        J('wrapper', wrapper, ([(2, 3), (4,), (1, 2, 2)], (0, 2), (), 2), 'three parameters of 14 values, two steps'),
        J('wrapper_grad', wrapper, ([(2,), (2, 2)], (1,), (0,), 1), 'a parameter without derivative'),
    ],
}
ASSUME = {'C35': ['sigmoid, sine, exponential, logarithm, cosh and square root (with its square) are uninterpreted', 'residuals are not constant; no equal values for the nearest-neighbour entropy', 'the derivatives are those of torch'],
          'C36': ['scipy minimize and the model are replaced by any solutions and values; derivatives are those of torch', 'cycle measures within 1e-6 of a threshold are left out']}
