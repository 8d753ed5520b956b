"""Harnesses over the point process learner (SHP)."""
import math
from itertools import product

import numpy as np
import pandas as pd

from cdmir.discovery.point_process.SHP import SHP, check_DAG

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)
CUT = 0.0001


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def new(ctx, shape, v=0):
    a = np.empty(shape, dtype=object if sym(ctx) else float)
    a[...] = v
    return a


def close_all(ctx, A, B, label):
    A, B = np.asarray(A), np.asarray(B)
    ctx.check(A.shape == B.shape, label + ' (shape)')
    for i in np.ndindex(*B.shape):
        ctx.close(A[i], B[i], label)


class Draws:
    """any outcome of the starting values of the coefficients"""

    def __init__(self, ctx, values):
        self.ctx = ctx
        self.values = values
        self.k = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        shape = (size,) if isinstance(size, int) else tuple(size)
        r = new(self.ctx, shape)
        for i in np.ndindex(*shape):
            r[i] = low + (high - low) * self.values(self.k, i)
        self.k += 1
        return r


def quiet(ctx):
    import cdmir.discovery.point_process.SHP as M
    if hasattr(M, 'tqdm'):
        ctx.patch(M, 'tqdm', lambda x, *a, **k: x)


# ---------------------------------------------------------------- the table
def bins(events, step):
    """counts by (sequence, time from its start) and type"""
    ev = [(s, t if step is None else int(t / step) * step, e) for s, t, e in events]
    start = {}
    for s, t, e in ev:
        start[s] = min(t, start.get(s, t))
    names = sorted({e for _, _, e in ev})
    cnt = {}
    for s, t, e in ev:
        r = cnt.setdefault((s, t - start[s]), [0] * len(names))
        r[names.index(e)] += 1
    return names, dict(sorted(cnt.items()))


def influence(keys, X, decay):
    """decayed sum of the counts of the same sequence up to each bin; integral of the kernel to the end of the sequence"""
    end = {}
    for s, t in keys:
        end[s] = max(t, end.get(s, t))
    S = [[0] * len(X[0]) for _ in keys]
    D = [[0] * len(X[0]) for _ in keys]
    for a, (s, t) in enumerate(keys):
        for i in range(len(X[0])):
            D[a][i] = X[a][i] * ((1 - math.exp(-decay * (end[s] - t))) / decay)
            for b, (s2, t2) in enumerate(keys):
                if s2 == s and t2 >= t and math.exp(-decay * (t2 - t)) >= CUT:
                    S[b][i] = S[b][i] + X[a][i] * math.exp(-decay * (t2 - t))
    return S, D, end


def table(ctx, names, times, step, free, decays):
    """every table with the given number of events"""
    quiet(ctx)
    ev = [(7, times[0], names[0])]
    for k in range(free):
        ev.append((ctx.choice('seq%d' % k, [7, 2]), ctx.choice('time%d' % k, times), ctx.choice('type%d' % k, names)))
    decay = ctx.choice('decay', decays)
    kw = {} if step is None else dict(time_interval=step)
    df = pd.DataFrame(ev, columns=['who', 'when', 'what'])
    df0 = df.copy()
    s = SHP(df, decay, **kw)
    ctx.check(df.equals(df0), 'the table of the caller changes')
    nm, cnt = bins(ev, step)
    ctx.check(list(s.event_names) == nm, 'event types are not the sorted types of the table')
    ctx.check(s.n == len(nm), 'number of types')
    keys = [(q, t) for q, t in s.X_df.index]
    ctx.check(keys == list(cnt), 'time bins are not those of the table, counted from the start of each sequence')
    ctx.check(np.asarray(s.X).tolist() == [list(map(float, cnt[k])) for k in cnt], 'counts per bin and type')
    S, D, end = influence(list(cnt), list(cnt.values()), decay)
    ctx.check(s.T == sum(end.values()), 'total time is not the sum of the lengths of the sequences')
    close_all(ctx, s.sum_t_X_kappa, S, 'influence of earlier events')
    close_all(ctx, np.asarray(s.decay_effect_integral_to_T, dtype=float), D, 'kernel integral to the end of the sequence')
    ctx.cover('two sequences', len(end) == 2)
    ctx.cover('shared bin', any(sum(c) > 1 for c in cnt.values()))


def spread(ctx, times, decay):
    """influence for any counts"""
    symnp.install(ctx, zeros=True)
    quiet(ctx)
    s = SHP.__new__(SHP)
    idx = pd.MultiIndex.from_tuples(times)
    n = 2
    X = ctx.reals('x', (len(times), n), 0, 5)
    if not sym(ctx):
        X = np.array(X, dtype=float)
    s.decay = decay
    s.X_df = pd.DataFrame(X, index=idx)
    s.X = s.X_df.values
    S, D, end = influence(times, X, decay)
    s.T_each_seq = pd.Series(end)
    a, b = s.calculate_influence_of_each_event()
    close_all(ctx, a, S, 'influence of earlier events')
    close_all(ctx, b.values, D, 'kernel integral to the end of the sequence')
    ctx.cover('reached', True)


# ---------------------------------------------------------------- EM
def blank(ctx, n, X, S, D, total, decay, step, penalty, reg, draws):
    s = SHP.__new__(SHP)
    s.random_state = Draws(ctx, draws)
    s.reg = reg
    s.time_interval = step
    s.event_names = pd.Index(list('abc')[:n])
    s.n = n
    s.hist_likelihood = {i: {} for i in range(n)}
    s.penalty = penalty
    s.decay = decay
    s.T = total
    s.X = np.array(X, dtype=object if sym(ctx) else float)
    s.X_df = pd.DataFrame(s.X)
    s.sum_t_X_kappa = np.array(S, dtype=object if sym(ctx) else float)
    s.decay_effect_integral_to_T = pd.DataFrame(np.array(D, dtype=object if sym(ctx) else float))
    s.event_table = pd.DataFrame({'times': [int(v) for r in X for v in r]})
    return s


def lg(x):
    return np.log(x) if not hasattr(x, 'log') else x.log()


def em_family(ctx, i, parents, start, X, S, D, total, decay, step, rounds):
    """the exact updates from the starting values until the gain is below 0.0085"""
    m, n = len(X), len(X[0])
    al = {j: start[j] for j in parents}
    mu = 1
    last = None
    for r in range(rounds + 1):
        lam = [mu + sum(S[t][j] * al[j] for j in parents) for t in range(m)]
        ll = sum(X[t][i] * lg(lam[t]) for t in range(m) if X[t][i] != 0) - mu * total
        for j in parents:
            ll = ll - al[j] * sum(X[t][j] for t in range(m)) / decay
        if last is not None and bool(ll - last < 0.0085):
            return ll, al, mu, r
        if r == rounds:
            ctx.assume(False)
        last = ll
        mu2 = sum(mu / lam[t] * X[t][i] for t in range(m)) / total
        for j in parents:
            lower = sum(D[t][j] for t in range(m)) * (1 if step is None else step)
            al[j] = 0 if bool(lower == 0) else sum(al[j] * S[t][j] / lam[t] * X[t][i] for t in range(m)) / lower
        mu = mu2


def cyclic(A):
    n = len(A)
    R = [[bool(A[i][j]) and i != j for j in range(n)] for i in range(n)]
    for k, i, j in product(range(n), repeat=3):
        R[i][j] = R[i][j] or (R[i][k] and R[k][j])
    return any(R[i][i] for i in range(n))


DATA = {
    1: ([[1], [2]], [[1.0], [2.5]], [[0.5], [0.0]]),
    2: ([[1, 0], [1, 2], [0, 1]], [[1.0, 0.0], [1.5, 2.0], [0.75, 2.0]], [[0.875, 0.0], [0.75, 1.5], [0.0, 0.5]]),
    3: ([[1, 0, 1], [1, 2, 0]], [[1.0, 0.0, 1.0], [1.5, 2.0, 0.5]], [[0.75, 0.0, 0.5], [0.5, 1.0, 0.0]]),
}


def em(ctx, n, graphs, rounds, which, symbolic):
    """the score of one structure and then of another one with shared families"""
    symnp.install(ctx, zeros=True)
    X, S, D = [[list(r) for r in a] for a in DATA[n]]
    total, decay, reg = 3, 2, 0.5
    if 'total' in symbolic:
        total = ctx.real('total', 0.5, 6)
    if 'decay' in symbolic:
        decay = ctx.real('decay', 0.5, 6)
    if 'reg' in symbolic:
        reg = ctx.real('reg', 0.125, 4)
    if 'S' in symbolic:
        S[-1][0] = ctx.real('s', 0, 3)
    if 'D' in symbolic:
        D[0][0] = ctx.real('d', 0, 3)
        D[1][0] = 0 if len(D) < 3 else D[1][0]
    if 'zero' in symbolic:
        for r in D:
            r[0] = 0
    step = ctx.choice('step', [None, 2])
    penalty = ctx.choice('penalty', ['BIC', 'AIC'])
    free = [(0, (a, b)) for a, b in symbolic.get('alpha', ())]

    def draw(k, i):
        if (k, i) in free:
            return ctx.real('alpha%d_%d' % i, 0.0625, 0.9375)
        return [0.25, 0.5, 0.75, 0.375][(k + i[0] * n + i[1]) % 4]
    s = blank(ctx, n, X, S, D, total, decay, step, penalty, reg, draw)
    cells = [(a, b) for a in range(n) for b in range(n)]
    memo = {}
    nev = sum(v for r in X for v in r)
    drawn = {}
    asked = 0
    for t in range(len(graphs)):
        g = np.array(graphs[t] if not isinstance(graphs[t], list) else ctx.choice('g%d' % t, graphs[t]), dtype=float).reshape(n, n)
        if which == 'EM' and cyclic(g):
            L, al, mu = s.EM(g)
            ctx.check(L == -math.inf, 'a cyclic structure has a finite score')
            ctx.cover('cyclic', True)
            continue
        want = 0
        A, M = new(ctx, (n, n)), new(ctx, (n,))
        k = asked
        asked += 1
        for i in range(n):
            pa = tuple(j for j in range(n) if g[j, i] == 1)
            if (i, pa) not in memo:
                memo[i, pa] = em_family(ctx, i, pa, [draw(k, (j, i)) for j in range(n)], X, S, D, total, decay, step, rounds)
                ctx.cover('updated', memo[i, pa][3] > 1)
            ll, a, mu, _ = memo[i, pa]
            want = want + ll
            M[i] = mu
            for j in pa:
                A[j, i] = a[j]
        g0 = g.copy()
        L, al, mu = getattr(s, which)(g)
        ctx.check((g == g0).all(), 'the structure changes')
        size = n + int(g.sum())
        if penalty == 'BIC':
            want = want - size * math.log(nev) * reg
        else:
            want = want - size * (1 if which == 'EM' else reg)
        ctx.close(L, want, 'the score is not the likelihood after the updates less the penalty')
        close_all(ctx, al, A, 'the coefficients are not those of the updates')
        close_all(ctx, mu, M, 'the base rates are not those of the updates')
        ctx.cover('scored', True)


def options(ctx, n):
    """prior structure and penalty"""
    quiet(ctx)
    df = pd.DataFrame([(0, 1, 0), (0, 2, 1), (0, 4, 0), (1, 5, 1), (1, 7, 0)], columns=['s', 't', 'e'])
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            A[i, j] = ctx.choice('a%d%d' % (i, j), [0, 1, 2, 0.5] if i != j else [0, 1])
    good = all(v in (0, 1) for v in A.ravel())
    pen = ctx.choice('penalty', [None, 'BIC', 'AIC', 'MDL'])
    given = ctx.bool('given')
    kw = {} if pen is None else {'penalty': pen}
    if given:
        kw['init_structure'] = A
    bad = pen == 'MDL' or given and not good
    A0 = A.copy()
    try:
        s = SHP(df, 2.0, **kw)
    except Exception:
        ctx.check(bad, 'valid options are rejected')
        ctx.cover('rejected', True)
        return
    ctx.check(not bad, 'invalid options are accepted')
    if given:
        ctx.check(np.array_equal(s.init_structure, A0) and np.array_equal(A, A0), 'the given structure is not the one searched from')
    else:
        ctx.check(np.array_equal(s.init_structure, np.zeros((n, n))), 'the search does not start from the empty structure')
    ctx.check(s.penalty == (pen or 'BIC'), 'another penalty')
    L, al, mu = s.Hill_Climb()
    if not given or not cyclic(A0):
        e = SHP(df, 2.0, **kw)
        L0 = e.EM(np.zeros((n, n)) if not given else A0)[0]
        ctx.check(L >= L0 or given, 'worse than the start')
    ctx.check(np.array_equal(A, A0), 'the given structure changes')
    ctx.cover('accepted', given)


def dag_test(ctx, n):
    A = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            A[i, j] = 1 if ctx.bool('e%d%d' % (i, j)) else 0
    A0 = A.copy()
    ctx.check(bool(check_DAG(A)) == (not cyclic(A)), 'the test for cycles is wrong (a type may influence itself)')
    ctx.check((A == A0).all(), 'the matrix changes')
    ctx.cover('cyclic', cyclic(A))
    ctx.cover('acyclic', not cyclic(A))


# ---------------------------------------------------------------- hill climbing
def off(A):
    n = len(A)
    return tuple(int(A[i][j] != 0) for i in range(n) for j in range(n) if i != j)


def climb(ctx, n, nfree, start):
    """any scores of the structures"""
    quiet(ctx)
    fam = {}
    count = [0]
    pas = [(i, pa) for i in range(n) for pa in product((0, 1), repeat=n - 1)]
    rank = sorted(pas, key=lambda q: ((sum(q[1]) * 7 + q[0] * 5 + sum(b << k for k, b in enumerate(q[1])) * 3) % 11, q))
    free = rank[::max(1, len(rank) // nfree)][:nfree] if nfree < len(rank) else rank
    val = {q: ctx.real('f%d_%s' % (q[0], ''.join(map(str, q[1]))), -4, 4) if q in free else ((k * 5) % 7) / 2.0 - 1.5 for k, q in enumerate(rank)}

    def score(A):
        if cyclic(A):
            return -math.inf
        r = 0
        for i in range(n):
            r = r + val[i, tuple(int(A[j][i] != 0) for j in range(n) if j != i)]
        return r

    def em(self, A):
        A = np.asarray(A)
        return score(A), ('alpha', off(A)), ('mu', off(A))
    ctx.patch(SHP, 'EM', em)
    s = SHP.__new__(SHP)
    s.event_names = list('abc')[:n]
    s.n = n
    A = np.zeros((n, n))
    if start == 'any':
        for i in range(n):
            for j in range(n):
                if i != j:
                    A[i, j] = 1 if ctx.bool('e%d%d' % (i, j)) else 0
    s.init_structure = A
    A0 = A.copy()
    L, al, mu = s.Hill_Climb()
    ctx.check((A == A0).all(), 'the given structure changes')
    ctx.check(al[1] == mu[1], 'coefficients and rates of different structures')
    B = np.zeros((n, n))
    it = iter(al[1])
    for i in range(n):
        for j in range(n):
            if i != j:
                B[i, j] = next(it)
    fin = score(B)
    ctx.check(L == fin if isinstance(fin, float) and fin == -math.inf else bool(L == fin), 'the score is not that of the structure')
    if L == -math.inf:
        ctx.check(cyclic(A0), 'a structure with a cycle is returned')
    ctx.check(L >= score(A0), 'the score is below that of the given structure')
    for i in range(n):
        for j in range(i):
            for a, b in ((0, 0), (1, 0), (0, 1)):
                C = B.copy()
                C[i, j], C[j, i] = a, b
                ctx.check(score(C) <= L, 'changing one edge improves the score')
    ctx.cover('moved', off(B) != off(A0))
    ctx.cover('stayed', off(B) == off(A0))


E1 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}
G2 = [(0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 1, 1, 0), (1, 1, 0, 0), (1, 0, 0, 1)]
JOBS = {
    'C28': [
        Job('table_int', table, (['b', 'a'], [1, 0, 3], None, 2, [1.0]), engine='fork', covers=['two sequences', 'shared bin'], cost=3,
            bounds='every table of three events of two types in two sequences at times 0, 1, 3'),
        Job('table_step', table, ([4, 3], [1.5, 0.25, 2.0, 5.5], 2, 2, [0.5]), engine='fork', covers=['two sequences', 'shared bin'], cost=3,
            bounds='every table of three events of two numbered types in two sequences at four real times, time interval 2'),
        Job('table_real', table, ([4, 3], [1.5, 0.25, 13.0], None, 2, [1.0]), engine='fork', covers=['two sequences', 'shared bin'], cost=3,
            bounds='every table of three events of two numbered types in two sequences at three real times, influence cut off'),
        Job('spread1', spread, ([(0, 0.0), (0, 1.0), (0, 4.0), (1, 0.0), (1, 12.0)], 1.0), engine='fork', covers=['reached'], bounds='any counts of 2 types in 5 bins of 2 sequences', opts=E1),
        Job('spread2', spread, ([(0, 0.0), (0, 1.0), (0, 2.0), (0, 6.0), (2, 0.0), (2, 0.5)], 2.5), engine='fork', covers=['reached'], bounds='any counts of 2 types in 6 bins of 2 sequences', opts=E1),
        Job('options', options, (2,), engine='fork', covers=['accepted', 'rejected'], bounds='every prior structure on 2 types with entries 0, 1 or others, every penalty'),
        Job('dag3', dag_test, (3,), engine='fork', covers=['cyclic', 'acyclic'], bounds='every 3 x 3 zero-one matrix'),
        Job('em2', em, (2, [G2, G2], 60, 'EM', {'reg': 1}), engine='fork', covers=['scored', 'cyclic', 'updated'], cost=3, bounds='every structure on 2 types, scored one after the other', opts=E1),
        Job('em2a', em, (2, [(0, 1, 0, 0)], 2, 'EM', {'alpha': [(0, 1)]}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='any starting coefficient', opts=E1),
        Job('em2d', em, (2, [(0, 1, 0, 0)], 2, 'EM', {'D': 1}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='any kernel integral', opts=E1),
        Job('em2z', em, (2, [(0, 1, 0, 0)], 2, 'EM', {'zero': 1, 'total': 1}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='parent without integral, any total time', opts=E1),
        Job('em2s', em, (2, [(0, 1, 0, 0)], 2, 'EM', {'S': 1}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='any influence in one bin', opts=E1),
        Job('em3', em, (3, [(0, 0, 1, 0, 0, 1, 0, 0, 0), (0, 1, 1, 0, 0, 1, 0, 0, 0)], 60, 'EM', {'reg': 1}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='structures of 3 types with shared families', opts=E1),
        Job('emn2', em, (2, [G2, G2], 60, 'EM_not_HC', {'reg': 1}), engine='fork', covers=['scored', 'updated'], cost=3, bounds='every structure on 2 types, without search', opts=E1),
        Job('climb2', climb, (2, 99, 'any'), engine='fork', covers=['moved', 'stayed'], bounds='any scores of 2 types, any starting structure'),
        Job('climb3', climb, (3, 4, 'empty'), engine='fork', covers=['moved'], cost=4, bounds='3 types, four free family scores'),
        Job('climb3s', climb, (3, 2, 'any'), engine='fork', covers=['moved', 'stayed'], cost=4, bounds='3 types, two free family scores, any starting structure'),
        Job('climb3t', climb, (3, 7, 'empty'), engine='fork', covers=['moved'], cost=9, tiers=T, budget=2000, hard=2400, bounds='3 types, seven free family scores'),
    ],
}
ASSUME = {'C28': ['updates: at most 2 rounds after the first (every run that needs more is left out)']}
