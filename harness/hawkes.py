"""Harnesses over the simulation of event sequences."""
from itertools import permutations

import numpy as np
import pandas as pd

import cdmir.datasets.simlulators as M
from cdmir.datasets.simlulators import HawkesSimulator

from harness.registry import Job
from vf import symnp

Q = ('quick', 'thorough')
T = ('thorough',)


def sym(ctx):
    return getattr(ctx, 'symbolic', False)


def arr(ctx, shape):
    return np.empty(shape, dtype=object if sym(ctx) else float)


class State:
    """stands for np.random.RandomState: every draw is an arbitrary value of its support"""
    made = []

    def __init__(self, ctx, seed, perms):
        self.ctx = ctx
        self.perms = perms
        self.seed = seed
        self.k = 0
        self.log = []

    def name(self, s):
        self.k += 1
        return '%s%d' % (s, self.k)

    def order(self, n):
        ps = self.perms or list(permutations(range(n)))
        return list(self.ctx.choice(self.name('order'), [tuple(p) for p in ps]))

    def shuffle(self, x):
        y = list(x)
        for a, b in enumerate(self.order(len(y))):
            x[a] = y[b]

    def permutation(self, x):
        n = x if np.isscalar(x) else len(x)
        p = self.order(n)
        return np.array(p) if np.isscalar(x) else np.asarray(x)[p]

    def uniform(self, low=0.0, high=1.0, size=None):
        shape = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        r = arr(self.ctx, shape)
        nm = self.name('u')
        for i in np.ndindex(*shape):
            u = self.ctx.real('%s_%s' % (nm, '_'.join(map(str, i))), 0.0625, 1)
            r[i] = low + (high - low) * u
        return r if shape else r.item()

    def poisson(self, lam=1.0, size=None):
        shape = () if size is None else (size,) if np.isscalar(size) else tuple(size)
        r = np.zeros(shape, dtype=int)
        nm = self.name('p')
        for i in np.ndindex(*shape):
            r[i] = self.ctx.int('%s_%s' % (nm, i), 0, 2)
        self.log.append(('poisson', lam, r.copy()))
        return r

    def binomial(self, n, p, size=None):
        if np.ndim(n):
            return np.array([self.binomial(int(v), p) for v in n], dtype=int)
        shape = () if size is None else (int(size),) if np.isscalar(size) else tuple(size)
        r = np.zeros(shape, dtype=int)
        nm = self.name('b')
        for i in np.ndindex(*shape):
            r[i] = self.ctx.int('%s_%s' % (nm, i), 0, int(n))
        self.log.append(('binomial', (n, p), r.copy()))
        return r if shape else int(r)


def states(ctx, perms=None):
    made = []

    def mk(seed=None):
        s = State(ctx, seed, perms)
        made.append(s)
        return s
    ctx.patch(np.random, 'RandomState', mk)
    return made


TS = [[[0.5, 3.25], [], [2.0]], [[], [0.25, 1.0], [4.5]], [[1.5], [1.5], []], [[], [], []]]


def hawkes(ctx, n, rates, seqs, perms, text):
    symnp.install(ctx, zeros=True)
    made = states(ctx, perms)
    rate = ctx.choice('rate', rates)
    step = None if text else ctx.choice('step', [None, 2])
    seed = ctx.choice('seed', [None, 5])
    plan = [[list(TS[ctx.choice('seq%d' % q, [0, 1, 2] if q == 0 else [0, 1, 2, 3])][i % 3]) if i < 3 else [] for i in range(n)] for q in range(seqs)]
    sims = []

    class Kernel:
        def __init__(self, intensity, decay):
            self.intensity = intensity
            self.decay = decay

    class Simu:
        def __init__(self, baseline=None, max_jumps=None, verbose=True, seed=None, **k):
            ctx.check(not k, 'other options of the simulator')
            self.baseline, self.max_jumps, self.seed = baseline, max_jumps, seed
            self.kernels = {}
            self.runs = 0
            self.clean = True
            self.timestamps = None
            sims.append(self)

        def set_kernel(self, i, j, kernel):
            ctx.check(self.runs == 0, 'a kernel is set after the simulation')
            self.kernels[i, j] = kernel

        def reset(self):
            self.clean = True

        def simulate(self):
            ctx.check(self.clean, 'a sequence continues the one before')
            self.clean = False
            ctx.check(self.runs < seqs, 'more sequences than asked for')
            self.timestamps = [np.array(x, dtype=float) for x in plan[self.runs]] if self.runs < seqs else [np.zeros(0)] * n
            self.runs += 1
    ctx.patch(M, 'SimuHawkes', Simu)
    ctx.patch(M, 'HawkesKernelExp', Kernel)
    lo, hi, alo, ahi = 0.25, 0.5, 0.5, 0.75
    if text:
        r = HawkesSimulator.generate_data(n, '0.25,0.5', '0.5, 0.75', 60, rate, seqs, 3, seed=seed)
    else:
        r = HawkesSimulator.get_artificial_data((lo, hi), (alo, ahi), n, sample_size=60, out_degree_rate=rate, NE_num=seqs, decay=3, time_interval=step, seed=seed)
    table, edges, alpha, mu, events = r
    ctx.check(len(sims) == 1, 'one simulator')
    s = sims[0]
    ctx.check(s.seed == seed and all(x.seed == seed for x in made), 'another seed is used')
    ctx.check(s.max_jumps == 60 / seqs, 'the events are not split evenly over the sequences')
    ctx.check(s.runs == seqs, 'number of sequences')
    ctx.check(np.shape(edges) == (n, n) and np.shape(alpha) == (n, n) and np.shape(mu) == (n,) and np.shape(s.baseline) == (n,), 'shapes')
    for i in range(n):
        ctx.check(mu[i] >= lo, 'a base rate outside its range')
        ctx.check(mu[i] <= hi, 'a base rate outside its range')
        ctx.close(s.baseline[i], mu[i], 'the base rates of the simulation are not those returned')
    ctx.check(len({id(v) for v in mu}) == n or not sym(ctx), 'base rates are one draw')
    count = 0
    for i in range(n):
        for j in range(n):
            e = edges[i, j]
            ctx.check(e == 0 or e == 1, 'an edge that is neither 0 nor 1')
            if bool(e == 0):
                ctx.check(alpha[i, j] == 0, 'an effect without an edge')
                ctx.check((j, i) not in s.kernels, 'the simulation has an effect without an edge')
            else:
                count += 1
                ctx.check(i < j, 'an edge against the order of the types')
                ctx.check(alpha[i, j] >= alo, 'an effect outside its range')
                ctx.check(alpha[i, j] <= ahi, 'an effect outside its range')
                ctx.check((j, i) in s.kernels, 'the simulation lacks an effect')
                k = s.kernels.get((j, i))
                if k is not None:
                    ctx.close(k.intensity, alpha[i, j], 'the effect in the simulation is not the one returned')
                    ctx.check(k.decay == 3, 'another decay')
    ctx.check(count == min(round(rate * n), n * (n - 1) // 2), 'number of edges')
    want = [(q, t if step is None else int(t / step) * step, i) for q in range(seqs) for i in range(n) for t in plan[q][i]]
    ctx.check(list(table.columns) == ['seq_id', 'time_stamp', 'event_type'], 'columns of the table')
    ctx.check(sorted(map(tuple, table.values.tolist())) == sorted(want), 'the table does not list every event of every sequence once')
    types = sorted({i for _, _, i in want})
    lists = [[[t for q2, t, i2 in want if q2 == q and i2 == i] for i in types] for q in range(seqs) if any(any(x) for x in plan[q])]
    ctx.check([[list(x) for x in q] for q in events] == lists, 'the lists of events are not those of the table')
    ctx.cover('all pairs', count == n * (n - 1) // 2)
    ctx.cover('some pairs', count < n * (n - 1) // 2)


def insem(ctx, size):
    made = states(ctx)
    seed = ctx.choice('seed', [None, 5])
    kw = dict(sample_size=size, lambda_x=1.5, theta=0.25, lambda_e=2.5, seed=seed)
    df = None
    try:
        df = HawkesSimulator.INSEM_data(**kw)
    except ValueError:
        pass
    log = [e for s in made for e in s.log]
    ctx.check(all(s.seed == seed for s in made), 'another seed is used')
    poi = [(a, r) for k, a, r in log if k == 'poisson']
    ctx.check(len(poi) == 2 and all(np.shape(r) == (size,) for _, r in poi), 'cause and noise are one Poisson draw for each record')
    xs = [r for a, r in poi if a == 1.5]
    es = [r for a, r in poi if a == 2.5]
    ctx.check(len(xs) == 1 and len(es) == 1, 'rates of the cause and the noise')
    if len(xs) != 1 or len(es) != 1:
        return
    x, e = xs[0], es[0]
    thin = [(a, r) for k, a, r in log if k == 'binomial']
    ctx.check(all(a[1] == 0.25 for a, _ in thin), 'thinning with another probability')
    # the draws of record i: x[i] trials in all
    trials = sum(int(a[0]) * int(np.size(r)) for a, r in thin)
    ctx.check(trials == int(x.sum()), 'number of trials of the thinning')
    per = []
    it = [(int(a[0]) * int(np.size(r)), int(np.sum(r))) for a, r in thin]
    k = 0
    for i in range(size):
        need, got = int(x[i]), 0
        while need > 0 and k < len(it):
            need -= it[k][0]
            got += it[k][1]
            k += 1
        per.append(got)
    y = [per[i] + int(e[i]) for i in range(size)]
    want = sorted([(0, i, 0) for i in range(size) for _ in range(int(x[i]))] + [(0, i, 1) for i in range(size) for _ in range(y[i])])
    if want:
        ctx.check(df is not None, 'an error')
        if df is not None:
            ctx.check(list(df.columns) == ['seq_id', 'time_stamp', 'event_type'], 'columns of the table')
            ctx.check(sorted(tuple(int(v) for v in r) for r in df.values.tolist()) == want, 'the table does not list each event of cause and effect once at its record')
    ctx.cover('thinned', sum(per) < int(x.sum()))
    ctx.cover('kept', sum(per) > 0)


E1 = {'uf': 'const', 'path_timeout': 200, 'guard': 'assume'}
P6 = [(0, 1, 2, 3, 4, 5), (5, 3, 1, 0, 2, 4), (2, 4, 0, 5, 1, 3)]
JOBS = {
    'C30': [
        Job('hawkes3', hawkes, (3, [0.34, 0.6, 1.5], 1, None, False), engine='fork', covers=['all pairs', 'some pairs'], cost=3, bounds='3 types, every order of the pairs, any rates and effects', opts=E1),
        Job('hawkes3s', hawkes, (3, [0.34], 3, [(2, 0, 1)], False), engine='fork', covers=['some pairs'], cost=3, bounds='3 types, three sequences, any rates and effects', opts=E1),
        Job('hawkes4', hawkes, (4, [0.4, 1, 2], 1, P6, False), engine='fork', covers=['all pairs', 'some pairs'], cost=3, bounds='4 types, three orders of the pairs, any rates and effects', opts=E1),
        Job('text3', hawkes, (3, [0.34, 1.5], 2, [(2, 0, 1), (0, 1, 2)], True), engine='fork', covers=['all pairs', 'some pairs'], cost=2, bounds='3 types, ranges as text', opts=E1),
        Job('insem1', insem, (1,), engine='fork', covers=['thinned', 'kept'], bounds='one record, counts up to 2'),
        Job('insem2', insem, (2,), engine='fork', covers=['thinned', 'kept'], cost=3, bounds='two records, counts up to 2'),
    ],
}
ASSUME = {'C30': ['np.random.RandomState and the tick simulator are replaced by any draws and any time stamps (symbolic and native runs)', 'count data without any event is left out']}
