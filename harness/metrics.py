"""Harnesses over the evaluation metrics."""
from itertools import combinations, permutations

import numpy as np
from sklearn.metrics import f1_score, precision_score, recall_score

import cdmir.utils.metrics.graph_evaluation as GE
from cdmir.graph import DiGraph, Edge, Graph, Mark, PDAG
from cdmir.utils.metrics.graph_evaluation import (arrow_evaluation, directed_edge_evaluation, get_performance, graph_equal, shd,
                                                  skeleton_evaluation)

from harness.registry import Job
from harness.ref import *
from harness.container import MK

Q = ('quick', 'thorough')
T = ('thorough',)


# the definitions of the scikit-learn scores (used in place of them in symbolic runs)
def counts(t, p):
    tp, fp, fn = 0, 0, 0
    for a, b in zip(t, p):
        if a:
            if b:
                tp = tp + 1
            else:
                fn = fn + 1
        elif b:
            fp = fp + 1
    return tp, fp, fn


def prec(y_true, y_pred):
    tp, fp, fn = counts(y_true, y_pred)
    if tp + fp == 0:
        return 0.0
    return tp / (tp + fp)


def rec(y_true, y_pred):
    tp, fp, fn = counts(y_true, y_pred)
    if tp + fn == 0:
        return 0.0
    return tp / (tp + fn)


def f1(y_true, y_pred):
    tp, fp, fn = counts(y_true, y_pred)
    if tp + fp + fn == 0:
        return 0.0
    return 2 * tp / (2 * tp + fp + fn)


STUBS = [(precision_score, prec), (recall_score, rec), (f1_score, f1)]


def rand_graph(ctx, tag, cls, names, mk):
    """any graph; returns it and the marks M[i][j] at j of the edge i, j (None: no edge)"""
    n = len(names)
    g = cls(names)
    M = [[None] * n for _ in range(n)]
    for i, j in combinations(range(n), 2):
        if ctx.bool('%se%d_%d' % (tag, i, j)):
            if mk is None:
                if ctx.bool('%sd%d_%d' % (tag, i, j)):
                    a, b = Mark.Tail, Mark.Arrow
                else:
                    a, b = Mark.Arrow, Mark.Tail
            else:
                a = ctx.choice('%sm%d_%d' % (tag, i, j), mk)
                b = ctx.choice('%sm%d_%d' % (tag, j, i), mk)
            if b == Mark.Tail and a == Mark.Arrow:
                g.add_edge(Edge(names[j], names[i], b, a))
            else:
                g.add_edge(Edge(names[i], names[j], a, b))
            M[j][i] = a
            M[i][j] = b
    return g, M


def distance(ctx, cls, names, mk):
    n = len(names)
    g, G = rand_graph(ctx, 'g', cls, names, mk)
    h, H = rand_graph(ctx, 'h', cls, names, mk)
    d = 0
    for i, j in combinations(range(n), 2):
        if G[i][j] != H[i][j] or G[j][i] != H[j][i]:
            d = d + 1
    ctx.check(shd(g, h) == d, 'the distance is not the number of differing pairs')
    ctx.check(shd(h, g) == d, 'the distance is not symmetric')
    ctx.check(graph_equal(g, h) == (d == 0), 'equality of graphs is decided wrongly')
    ctx.check(graph_equal(h, g) == (d == 0), 'equality of graphs is not symmetric')
    ctx.cover('equal', d == 0)
    ctx.cover('two differ', d == 2)


def scores(ctx, cls, names, mk, which):
    n = len(names)
    g, G = rand_graph(ctx, 'g', cls, names, mk)
    h, H = rand_graph(ctx, 'h', cls, names, mk)
    t, p = [], []
    if which == 'skeleton':
        r = skeleton_evaluation(g, h)
        for i, j in combinations(range(n), 2):
            t.append(G[i][j] is not None)
            p.append(H[i][j] is not None)
    elif which == 'arrow':
        r = arrow_evaluation(g, h)
        for i, j in permutations(range(n), 2):
            t.append(G[i][j] == Mark.Arrow)
            p.append(H[i][j] == Mark.Arrow)
    else:
        r = directed_edge_evaluation(g, h)
        for i, j in permutations(range(n), 2):
            t.append(G[i][j] == Mark.Arrow and G[j][i] == Mark.Tail)
            p.append(H[i][j] == Mark.Arrow and H[j][i] == Mark.Tail)
    ctx.check(abs(r['precision'] - prec(t, p)) < 1e-9, 'the precision is not that of the edges')
    ctx.check(abs(r['recall'] - rec(t, p)) < 1e-9, 'the recall is not that of the edges')
    ctx.check(abs(r['f1'] - f1(t, p)) < 1e-9, 'the F1 score is not that of the edges')
    ctx.cover('partial', counts(t, p) == (1, 1, 1))


def mismatch(ctx, names):
    """graphs of other types or over other nodes are not compared"""
    cs = [Graph, DiGraph, PDAG]
    c1 = ctx.choice('c1', cs)
    c2 = ctx.choice('c2', cs)
    n1 = [v for v in names if ctx.bool('n%s' % v)]
    n2 = ctx.choice('order', [list(p) for p in permutations(names)])
    n2 = [v for v in n2 if ctx.bool('k%s' % v)]
    f = ctx.choice('f', [graph_equal, skeleton_evaluation, arrow_evaluation, directed_edge_evaluation, shd])
    ctx.assume(len(n1) > 1)
    g, h = c1(n1), c2(n2)
    rej = False
    try:
        f(g, h)
    except AssertionError:
        rej = True
    ctx.check(rej == (c1 is not c2 or n1 != n2), 'graphs are compared although they do not match, or not although they do')
    ctx.cover('rejected', rej)
    ctx.cover('accepted', not_(rej))


def performance(ctx, n, form, drop, k=0):
    """matrix and graph inputs"""
    names = ['v%d' % i for i in (range(n) if form != 'graph' else range(n, 0, -1))]
    sym = getattr(ctx, 'symbolic', False)
    W = np.zeros((n, n), dtype=object) if sym else np.zeros((n, n))
    pos = [(i, j) for i in range(n) for j in range(n) if i != j or not drop]
    real = np.zeros((n, n), dtype=int)
    free = pos[k:k + 4]
    if form == 'graph':
        g, G = rand_graph(ctx, 'g', PDAG, names, [Mark.Tail, Mark.Arrow])
        h, H = rand_graph(ctx, 'h', PDAG, names, [Mark.Tail, Mark.Arrow])
        t = [G[i][j] == Mark.Arrow for i, j in permutations(range(n), 2)]
        p = [H[i][j] == Mark.Arrow for i, j in permutations(range(n), 2)]
        r = get_performance(h, g)
        thr = 0
    else:
        thr = ctx.choice('thr', [0, 0.25])
        for i, j in pos:
            W[i, j] = ctx.real('w%d%d' % (i, j), -1, 1) if (i, j) in free else [0, 0.5, -0.75][(2 * i + j) % 3]
            real[i, j] = 1 if (ctx.bool('r%d%d' % (i, j)) if (i, j) in free else (i + j) % 2) else 0
        if not sym:
            for i, j in free:
                ctx.assume(abs(abs(W[i, j]) - thr) > 1e-7 or W[i, j] == 0)
        if drop and ctx.bool('diag'):
            for i in range(n):
                W[i, i] = ctx.real('d%d' % i, -1, 1)
                real[i, i] = 1
        t = [bool(real[i, j]) for i, j in pos]
        p = [bool(abs(W[i, j]) > thr) for i, j in pos]
        B = W.copy()
        r = get_performance(W, real, threshold=thr, drop_diag=drop)
        for i in range(n):
            for j in range(n):
                ctx.check(B[i, j] is W[i, j] or B[i, j] == W[i, j], 'evaluation changes the estimate')
    ctx.close(r['Precision'][0], prec(t, p), 'the precision is not that of the entries above the threshold')
    ctx.close(r['Recall'][0], rec(t, p), 'the recall is not that of the entries above the threshold')
    ctx.close(r['F1'][0], f1(t, p), 'the F1 score is not that of the entries above the threshold')
    ctx.close(r['threshold'][0], thr, 'another threshold is reported')
    ctx.cover('partial', counts(t, p)[0] > 0 and counts(t, p)[1] > 0)


PM = [Mark.Tail, Mark.Arrow]

JOBS = {
    'C21': [
        Job('shd_pdag3', distance, (PDAG, ['b', 'a', 'c'], PM), covers=['equal', 'two differ'], cost=3, bounds='two PDAGs on 3 nodes', fallback=(PDAG, ['b', 'a'], PM)),
        Job('shd_digraph4', distance, (DiGraph, ['b', 'd', 'a', 'c'], None), covers=['equal', 'two differ'], cost=3, bounds='two digraphs on 4 nodes', fallback=(DiGraph, ['b', 'a', 'c'], None)),
        Job('shd_pdag4', distance, (PDAG, ['b', 'd', 'a', 'c'], PM), covers=['equal', 'two differ'], cost=3, bounds='two PDAGs on 4 nodes', fallback=(PDAG, ['b', 'a'], PM)),
        Job('arrow4', scores, (PDAG, ['b', 'd', 'a', 'c'], PM, 'arrow'), covers=['partial'], cost=3, tiers=T, bounds='two PDAGs on 4 nodes', fallback=(PDAG, ['b', 'a'], PM, 'arrow'), opts={'stubs': STUBS}),
        Job('directed4', scores, (PDAG, ['b', 'd', 'a', 'c'], PM, 'directed'), covers=['partial'], cost=3, tiers=T, bounds='two PDAGs on 4 nodes', fallback=(PDAG, ['b', 'a'], PM, 'directed'), opts={'stubs': STUBS}),
        Job('shd_graph3', distance, (Graph, [2, 0, 1], MK), covers=['equal', 'two differ'], cost=3, bounds='two graphs with any marks on 3 nodes', fallback=(Graph, [1, 0], MK)),
        Job('skeleton4', scores, (PDAG, ['b', 'd', 'a', 'c'], PM, 'skeleton'), covers=['partial'], cost=3, bounds='two PDAGs on 4 nodes', fallback=(PDAG, ['b', 'a'], PM, 'skeleton'), opts={'stubs': STUBS}),
        Job('arrow3', scores, (Graph, ['b', 'a', 'c'], MK, 'arrow'), covers=['partial'], cost=3, bounds='two graphs on 3 nodes', fallback=(Graph, ['b', 'a'], MK, 'arrow'), opts={'stubs': STUBS}),
        Job('directed3', scores, (PDAG, ['b', 'a', 'c'], PM, 'directed'), covers=['partial'], cost=3, bounds='two PDAGs on 3 nodes', fallback=(PDAG, ['b', 'a'], PM, 'directed'), opts={'stubs': STUBS}),
        Job('directed_di3', scores, (DiGraph, ['b', 'a', 'c'], None, 'directed'), covers=['partial'], cost=3, bounds='two digraphs on 3 nodes', fallback=(DiGraph, ['b', 'a'], None, 'directed'), opts={'stubs': STUBS}),
        Job('mismatch3', mismatch, (['b', 'a', 'c'],), covers=['rejected', 'accepted'], cost=3, bounds='graph types and node lists of up to 3 nodes', fallback=(['b', 'a'],), opts={'stubs': STUBS}),
        Job('perf2', performance, (2, 'array', False), engine='fork', covers=['partial'], cost=3, bounds='2 by 2 matrices, diagonal kept'),
        Job('perf3', performance, (3, 'array', True, 0), engine='fork', covers=['partial'], cost=4, bounds='3 by 3 matrices, four symbolic entries'),
        Job('perf3b', performance, (3, 'array', True, 2), engine='fork', covers=['partial'], cost=4, bounds='3 by 3 matrices, four symbolic entries'),
        Job('perf_graph2', performance, (2, 'graph', True), engine='fork', covers=[], cost=4, bounds='two PDAGs on 2 nodes'),
    ],
}
