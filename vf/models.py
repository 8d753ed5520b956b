"""Exact models of the builtins, containers and numpy functions the code uses."""
import ast
import builtins
import collections
import copy
import functools
import itertools
import operator

import numpy as np

from .values import *


def noop(*a, **k):
    return None


def opaque_method(*a, **k):
    return OPAQUE


def lazy(run, tag):
    return SLazy(run, tag)


def ents_of(I, v):
    """guarded entries without Unions as elements (Union elements expanded)"""
    out = []
    for g, x in I.tolist(v):
        if isinstance(x, (Union, SB)):
            base = I.pc
            I.pc = I.AND(base, g) if I.sat(I.AND(base, g)) else base
            al = I.alts(x)
            I.pc = base
            for h, w in al:
                out.append((I.AND(g, h), w))
        else:
            out.append((g, x))
    return out


def concrete(v):
    if isinstance(v, Sym):
        return False
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return True


# ------------------------------------------------------------------ len etc
def m_len(I, a, k):
    def one(v):
        if isinstance(v, (SList, GArr)):
            return I.lcount(v.e)
        if isinstance(v, SSet):
            return I.lcount([(g, x) for x, g in v.m.items()])
        if isinstance(v, SDict):
            return I.lcount([(s[1], s[0]) for s in v.s])
        if isinstance(v, SArr):
            if not v.shape:
                I.throw(TypeError('len() of unsized object'))
            return v.shape[0]
        if isinstance(v, SObj):
            m = I.lookup_cls(v.cls, '__len__')
            if m is None:
                I.throw(TypeError('object has no len()'))
            return I.call(Bound(I.tofunc(m), v), [], {})
        if isinstance(v, SLazy):
            I.throw(TypeError("object of type 'generator' has no len()"))
        if isinstance(v, Sym):
            raise Unsupported('len of %s' % type(v).__name__)
        try:
            return len(v)
        except Exception as ex:
            I.throw(ex)
    return I.splitu(a[0], one)


def m_range(I, a, k):
    if any(isinstance(x, (Union, SB)) for x in a):
        if len(a) == 1 and isinstance(a[0], Union) and all(isinstance(v, int) for _, v in a[0].alts):
            # range(U): entry i present iff i < U
            m = max(v for _, v in a[0].alts)
            e = []
            for i in range(m):
                e.append([I.b.ors(g for g, v in a[0].alts if v > i), i])
            return SList(e, 1, 'range')
        return I.splitn(list(a), lambda vs: m_range(I, vs, {}))
    try:
        return range(*a)
    except Exception as ex:
        I.throw(ex)


def m_list(I, a, k):
    if not a:
        return SList([], I.pc)
    birth = I.pc
    return SList([[g, x] for g, x in I.tolist(a[0])], birth)


def m_deque(I, a, k):
    if len(a) > 1 or k:
        raise Unsupported('deque(maxlen)')
    birth = I.pc
    return SList([[g, x] for g, x in I.tolist(a[0])] if a else [], birth, 'deque')


def m_tuple(I, a, k):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return tuple(a[0])
    birth = I.pc
    e = [[g, x] for g, x in I.tolist(a[0])]
    if all(g == 1 for g, _ in e):
        return tuple(x for _, x in e)
    try:
        c = I.explode(SList(e, birth), 64)
        return I.merge([(g, tuple(x)) for g, x in c])
    except Unsupported:
        return SList(e, birth, 'tuple')


def mkset(I, it, kind):
    s = SSet(I.pc, kind)
    if it is None:
        return s
    birth = I.pc

    def cb(x):
        for g, key in I.keyalts(x):
            p = I.AND(I.pc, g)
            if I.sat(p):
                s.m[key] = I.rel(birth, I.OR(s.m.get(key, 0), p))
    I.iterate(it, cb)
    return s


def m_set(I, a, k):
    return mkset(I, a[0] if a else None, set)


def m_frozenset(I, a, k):
    return mkset(I, a[0] if a else None, frozenset)


def m_dict(I, a, k):
    d = SDict(I.pc)
    if a:
        method(I, d, 'update', [a[0]], {})
    for kk, v in k.items():
        I.dset(d, kk, v)
    return d


def m_ordereddict(I, a, k):
    d = m_dict(I, a, k)
    d.kind = collections.OrderedDict
    return d


def m_defaultdict(I, a, k):
    d = SDict(I.pc)
    d.kind = collections.defaultdict
    if a:
        d.default = a[0]
        if len(a) > 1:
            method(I, d, 'update', [a[1]], {})
    return d


def m_bool(I, a, k):
    if not a:
        return False
    return I.mk(I.truth(a[0]))


def m_int(I, a, k):
    def one(v):
        if isinstance(v, SArr) and len(v.c) == 1:
            return m_int(I, [v.c[0]], {})
        if isinstance(v, Sym):
            raise Unsupported('int()')
        try:
            return int(v, *a[1:])
        except Exception as ex:
            I.throw(ex)
    if not a:
        return 0
    return I.split(a[0], one)


def m_float(I, a, k):
    def one(v):
        if isinstance(v, SArr) and len(v.c) == 1:
            return m_float(I, [v.c[0]], {})
        if isinstance(v, Sym):
            raise Unsupported('float()')
        try:
            return float(v)
        except Exception as ex:
            I.throw(ex)
    return I.split(a[0], one) if a else 0.0


def m_str(I, a, k):
    if not a:
        return ''
    if a[0] is OPAQUE:
        return OPAQUE
    if isinstance(a[0], SObj):
        m = I.lookup_cls(a[0].cls, '__str__') or I.lookup_cls(a[0].cls, '__repr__')
        if m is None:
            return OPAQUE
        return I.call(Bound(I.tofunc(m), a[0]), [], {})
    try:
        c = I.explode(a[0], 300)
    except Unsupported:
        return OPAQUE
    return I.merge([(g, str(x)) for g, x in c])


def m_repr(I, a, k):
    try:
        c = I.explode(a[0], 64)
    except Unsupported:
        return OPAQUE
    return I.merge([(g, repr(x)) for g, x in c])


def m_abs(I, a, k):
    v = a[0]
    if isinstance(v, (SArr,)):
        return SArr([m_abs(I, [x], {}) for x in v.c], v.shape, v.dtype if v.dtype is not bool else int, I.pc)

    def one(w):
        if isinstance(w, Sym):
            raise Unsupported('abs')
        return abs(w)
    return I.split(v, one)


def m_sum(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    acc = [start]

    def cb(x):
        new = I.binop(ast.Add, acc[0], x)
        acc[0] = I.merge2(I.pc, new, acc[0])
    # fast path: everything definite under one pc
    I.iterate(a[0], cb)
    return acc[0]


def m_any(I, a, k, neg=0):
    base = I.pc
    found = [0]
    fp = []

    def cb(v):
        l = I.truth(v) ^ neg
        h = I.AND(I.pc, l)
        if h and I.sat(h):
            found[0] = I.OR(found[0], h)
            fp.append(h)
            I.setpc(I.AND(I.pc, l ^ 1))
    try:
        I.iterate(a[0], cb)
        out = I.pc
    except Dead:
        out = 0
    I.join(base, [out] + fp)
    return I.mk(found[0] if not neg else found[0] ^ 1)


def m_all(I, a, k):
    # all == not any(not x); paths outside pc are don't-care
    return m_any(I, a, k, neg=1)


def keyed(I, v, key):
    out = []
    for g, x in ents_of(I, v):
        if key is None:
            kx = x
        else:
            base = I.pc
            p = I.AND(base, g)
            if not I.sat(p):
                continue
            I.pc = p
            kx = I.call(key, [x], {})
            if I.norm(p, I.pc) != p:
                raise Unsupported('exception in sort key')
            I.pc = base
        if isinstance(kx, (Union, SB)):
            base = I.pc
            I.pc = I.AND(base, g)
            al = I.alts(kx)
            I.pc = base
            for h, w in al:
                out.append((I.AND(g, h), x, w))
        else:
            out.append((g, x, kx))
    for g, x, w in out:
        if not concrete(w):
            raise Unsupported('symbolic sort key')
    return out


def m_sorted(I, a, k):
    birth = I.pc
    es = keyed(I, a[0], k.get('key'))
    rev = bool(k.get('reverse', False))
    try:
        es = sorted(es, key=lambda t: t[2], reverse=rev)
    except TypeError as ex:
        I.throw(ex)
    return SList([[g, x] for g, x, _ in es], birth)


def minmax(ismax):
    def m(I, a, k):
        src = a[0] if len(a) == 1 else tuple(a)
        es = keyed(I, src, k.get('key'))
        es2 = list(enumerate(es))
        # first extreme element wins
        es2.sort(key=lambda t: t[0])
        es2.sort(key=lambda t: t[1][2], reverse=ismax)
        if ismax:
            pass
        pairs = []
        none = 1
        for _, (g, x, w) in es2:
            h = I.AND(none, g)
            if h and I.sat(I.AND(I.pc, h)):
                pairs.append((h, x))
            none = I.AND(none, g ^ 1)
        if none and I.sat(I.AND(I.pc, none)):
            if 'default' in k:
                pairs.append((none, k['default']))
            else:
                I.throw(ValueError('arg is an empty sequence'), none)
        return I.merge(pairs)
    return m


def m_reversed(I, a, k):
    birth = I.pc
    return SList([[g, x] for g, x in I.tolist(a[0])][::-1], birth)


def m_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    src = a[0]
    ents = I.entries(src) if not isinstance(src, (Union, SLazy, SObj, SIter)) else None
    if ents is not None and all(g == 1 for g, _ in ents) and not isinstance(src, SList):
        return lazy(lambda cb: I.iterate(tuple((start + i, x) for i, (_, x) in enumerate(ents)), cb), 'enumerate')

    def run(cb):
        cnt = [start]

        def each(x):
            c = cnt[0]
            cnt[0] = I.merge2(I.pc, I.binop(ast.Add, c, 1), c)
            al = I.alts(c) if isinstance(c, Union) else None
            if al and len(al) == 1:
                c = al[0][1]
            cb((c, x))
        I.iterate(src, each)
    return lazy(run, 'enumerate')


def m_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        return lazy(lambda cb: I.iterate(a[1], lambda x: cb(I.call(f, [x], {}))), 'map')
    z = m_zip(I, a[1:], {})
    return lazy(lambda cb: I.iterate(z, lambda t: cb(I.call(f, list(t), {}))), 'map')


def m_filter(I, a, k):
    f = a[0]

    def run(cb):
        def each(x):
            l = I.truth(x if f is None else I.call(f, [x], {}))
            p = I.pc
            q = I.AND(p, l ^ 1)
            outs = []
            if I.sat(q):
                outs.append(q)
            t = I.AND(p, l)
            if I.sat(t):
                I.pc = t
                try:
                    cb(x)
                    outs.append(I.pc)
                except Dead:
                    pass
            I.join(p, outs)
        I.iterate(a[1], each)
    return lazy(run, 'filter')


def pure_seq(I, v):
    return isinstance(v, (tuple, range, str, SList, SDict, SSet, GArr, SArr, list, dict, set, np.ndarray)) or \
        (isinstance(v, SLazy) and v.tag in ('combinations', 'enumerate_pure'))


def m_zip(I, a, k):
    if len(a) == 1:
        return lazy(lambda cb: I.iterate(a[0], lambda x: cb((x,))), 'zip')
    for i, v in enumerate(a):
        if isinstance(v, Union):
            return I.split(v, lambda w: m_zip(I, a[:i] + [w] + a[i + 1:], k))
    lz = [i for i, v in enumerate(a) if not pure_seq(I, v)]
    if len(lz) > 1:
        raise Unsupported('zip of two lazy iterables')
    lead = lz[0] if lz else 0
    snap = {i: I.tolist(v) for i, v in enumerate(a) if i != lead}
    if not lz:
        le = I.tolist(a[0])
        if all(g == 1 for g, _ in le) and all(all(g == 1 for g, _ in s) for s in snap.values()):
            cols = [le if i == 0 else snap[i] for i in range(len(a))]
            rows = [tuple(c[j][1] for c in cols) for j in range(min(len(c) for c in cols))]
            return lazy(lambda cb: I.iterate(tuple(rows), cb), 'zip')

    def run(cb):
        cnt = [0]
        stopped = []
        base = I.pc

        def each(x):
            c = cnt[0]
            cnt[0] = I.merge2(I.pc, I.binop(ast.Add, c, 1), c)

            def at(ci):
                vals = []
                for i in range(len(a)):
                    if i == lead:
                        vals.append(x)
                        continue
                    n = I.lcount(snap[i])
                    short = I.truth(I.compare(ast.LtE(), n, ci))
                    h = I.AND(I.pc, short)
                    if I.sat(h):
                        stopped.append(h)
                        I.setpc(I.AND(I.pc, short ^ 1))
                    vals.append(I.lget(snap[i], ci))
                return tuple(vals)
            base = I.pc
            outs = []
            for g, ci in I.alts(c):
                I.pc = I.AND(base, g)
                try:
                    cb(at(ci))
                    outs.append(I.pc)
                except Dead:
                    pass
            I.join(base, outs)
        try:
            I.iterate(a[lead], each)
            out = I.pc
        except Dead:
            out = 0
        I.join(base, [out] + stopped)
    return lazy(run, 'zip')


def m_iter(I, a, k):
    v = a[0]
    if isinstance(v, (SLazy, SIter)):
        return v
    if isinstance(v, SObj):
        return I.call(Bound(I.tofunc(I.lookup_cls(v.cls, '__iter__')), v), [], {})
    return SIter(v)


def m_next(I, a, k):
    it = a[0]
    if isinstance(it, SIter):
        raise Unsupported('next() on iterator')
    if not isinstance(it, SLazy):
        raise Unsupported('next()')
    base = I.pc
    if I.sat(I.AND(base, I.OR(it.part, it.done))):
        raise Unsupported('next() on a started iterator')
    vals, fp = [], []

    def cb(v):
        vals.append((I.pc, v))
        fp.append(I.pc)
        I.pc = 0
        raise Dead()
    try:
        I.iterate(it, cb)
        out = I.pc
    except Dead:
        out = 0
    if out:
        I.pc = out
        if len(a) > 1:
            vals.append((out, a[1]))
            fp.append(out)
        else:
            try:
                I.throw(StopIteration())
            except Dead:
                pass
    I.join(base, fp)
    return I.merge(vals)


def m_isinstance(I, a, k):
    cls = a[1]

    def one(v):
        t = pytype(I, v)
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, tuple):
                if m_isinstance(I, [v, c], {}):
                    return True
            elif hasattr(c, '__mro__'):
                try:
                    if issubclass(t, c):
                        return True
                except TypeError:
                    raise Unsupported('isinstance')
            else:
                import types
                if isinstance(c, types.UnionType):
                    if m_isinstance(I, [v, c.__args__], {}):
                        return True
                else:
                    raise Unsupported('isinstance')
        return False
    return I.splitu(a[0], one)


def pytype(I, v):
    if isinstance(v, SB):
        return bool
    if isinstance(v, SList):
        return {'list': list, 'deque': collections.deque, 'range': range, 'tuple': tuple}[v.kind]
    if isinstance(v, SDict):
        return v.kind
    if isinstance(v, SSet):
        return v.kind
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, (SArr, GArr)):
        return np.ndarray
    if isinstance(v, SLazy):
        return type(x for x in ())
    if isinstance(v, (SFunc,)):
        import types
        return types.FunctionType
    if isinstance(v, Opaque):
        return str
    if isinstance(v, Sym):
        raise Unsupported('type of %s' % type(v).__name__)
    return type(v)


def m_type(I, a, k):
    if len(a) != 1:
        raise Unsupported('type(3)')
    return I.splitu(a[0], lambda v: pytype(I, v))


def m_hasattr(I, a, k):
    def one(v):
        saved, I.sink = I.sink, []
        base = I.pc
        try:
            I.getattr(v, a[1])
            if I.sink:
                raise Unsupported('partial hasattr')
            return True
        except Dead:
            I.pc = base
            return False
        finally:
            I.sink = saved
    return I.splitu(a[0], one)


def m_getattr(I, a, k):
    if len(a) == 3:
        h = m_hasattr(I, a[:2], {})
        return I.cond(I.truth(h), lambda: I.getattr(a[0], a[1]), lambda: a[2])
    return I.getattr(a[0], a[1])


def m_setattr(I, a, k):
    return I.splitu(a[0], lambda w: I.setattr(w, a[1], a[2]))


def m_id(I, a, k):
    return I.splitu(a[0], lambda v: id(v))


def m_hash(I, a, k):
    c = I.explode(a[0])
    try:
        return I.merge([(g, hash(x)) for g, x in c])
    except TypeError as ex:
        I.throw(ex)


def m_callable(I, a, k):
    return I.splitu(a[0], lambda v: isinstance(v, (SFunc, Bound, NatMethod)) or (not isinstance(v, Sym) and callable(v))
                    or (isinstance(v, SObj) and I.lookup_cls(v.cls, '__call__') is not None))


def m_issubclass(I, a, k):
    return issubclass(*a)


def m_round(I, a, k):
    return I.split(a[0], lambda v: round(v, *a[1:]))


def m_print(I, a, k):
    return None


# ------------------------------------------------------------------ itertools
def pool(I, v):
    return [(g, x) for g, x in I.tolist(v)]


def m_combinations(I, a, k):
    r = a[1] if len(a) > 1 else k['r']
    if isinstance(r, (Union, SB)):
        return I.split(r, lambda w: m_combinations(I, [a[0], w], {}))
    es = pool(I, a[0])
    birth = I.pc

    def run(cb):
        seq = []
        for c in itertools.combinations(es, r):
            seq.append([I.b.ands(g for g, _ in c), tuple(x for _, x in c)])
        I.iterate(SList([s for s in seq if s[0]], birth), cb)
    if r < 0:
        I.throw(ValueError('r must be non-negative'))
    return lazy(run, 'combinations')


def m_permutations(I, a, k):
    es = pool(I, a[0])
    r = a[1] if len(a) > 1 else k.get('r')
    if r is None:
        if any(g != 1 for g, _ in es):
            raise Unsupported('permutations of symbolic length')
        r = len(es)
    if isinstance(r, (Union, SB)):
        return I.split(r, lambda w: m_permutations(I, [SList([list(e) for e in es], I.pc), w], {}))
    birth = I.pc

    def run(cb):
        seq = [[I.b.ands(g for g, _ in c), tuple(x for _, x in c)] for c in itertools.permutations(es, r)]
        I.iterate(SList([s for s in seq if s[0]], birth), cb)
    return lazy(run, 'combinations')


def m_product(I, a, k):
    rep = k.get('repeat', 1)
    if not isinstance(rep, int):
        raise Unsupported('product repeat')
    ps = [pool(I, v) for v in a] * rep
    birth = I.pc

    def run(cb):
        seq = [[I.b.ands(g for g, _ in c), tuple(x for _, x in c)] for c in itertools.product(*ps)]
        I.iterate(SList([s for s in seq if s[0]], birth), cb)
    return lazy(run, 'combinations')


def m_chain(I, a, k):
    def run(cb):
        for v in a:
            I.iterate(v, cb)
    return lazy(run, 'chain')


def m_chain_from(I, a, k):
    return lazy(lambda cb: I.iterate(a[0], lambda v: I.iterate(v, cb)), 'chain')


def m_count_unsup(I, a, k):
    raise Unsupported('itertools')


def m_reduce(I, a, k):
    f = a[0]
    acc = [a[2] if len(a) > 2 else UNBOUND]

    def cb(x):
        if acc[0] is UNBOUND:
            if I.pc != base:
                raise Unsupported('reduce over symbolic-length sequence without initial value')
            acc[0] = x
            return
        old = acc[0]
        new = I.call(f, [old, x], {})
        acc[0] = I.merge2(I.pc, new, old)
    base = I.pc
    I.iterate(a[1], cb)
    if acc[0] is UNBOUND:
        I.throw(TypeError('reduce() of empty iterable'))
    return acc[0]


def m_partial(I, a, k):
    f0, a0, k0 = a[0], a[1:], dict(k)

    def g(*args, **kw):
        raise Unsupported('partial')
    g.__module__ = 'vf.models'
    I.models[g] = lambda I2, a2, k2: I2.call(f0, a0 + a2, {**k0, **k2})
    return g


# ------------------------------------------------------------------ copy
def m_deepcopy(I, a, k, deep=True):
    memo = {}

    def cp(v, top=False):
        if isinstance(v, Union):
            return Union(tuple((g, cp(w)) for g, w in v.alts))
        if not deep and not top:
            return v
        if isinstance(v, tuple):
            if not any(isinstance(x, Sym) or isinstance(x, tuple) for x in v):
                return v
            t = tuple(cp(x) for x in v)
            return t if type(v) is tuple else I.retuple(type(v), t)
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, SList):
            r = SList([], I.pc, v.kind)
            memo[id(v)] = (v, r)
            r.e = [[g, cp(x)] for g, x in v.e]
            return r
        if isinstance(v, SDict):
            r = SDict(I.pc)
            r.kind, r.default = v.kind, v.default
            memo[id(v)] = (v, r)
            for s in v.s:
                t = [cp(s[0]), s[1], cp(s[2])]
                r.s.append(t)
                r.idx.setdefault(t[0], []).append(t)
            return r
        if isinstance(v, SSet):
            r = SSet(I.pc, v.kind)
            memo[id(v)] = (v, r)
            r.m = {cp(x): g for x, g in v.m.items()}
            return r
        if isinstance(v, SObj):
            m = I.lookup_cls(v.cls, '__deepcopy__' if deep else '__copy__')
            if m is not None:
                raise Unsupported('__deepcopy__')
            r = SObj(v.cls, I.pc)
            memo[id(v)] = (v, r)
            for n, x in v.a.items():
                r.a[n] = cp(x)
            return r
        if isinstance(v, SArr):
            r = SArr(list(v.c), v.shape, v.dtype, I.pc)
            memo[id(v)] = (v, r)
            return r
        if isinstance(v, (GArr, SB, SFunc, Bound, Opaque)):
            return v
        if isinstance(v, Sym):
            raise Unsupported('deepcopy of %s' % type(v).__name__)
        if isinstance(v, np.ndarray):
            return v.copy()
        return v
    return I.splitu(a[0], lambda w: cp(w, True))


def m_copy(I, a, k):
    return m_deepcopy(I, a, k, deep=False)


# ------------------------------------------------------------------ containers
def idx_of(I, i, n):
    return i


def norm_index(I, i):
    if isinstance(i, SArr) and len(i.c) == 1 and i.shape == ():
        return i.c[0]
    return i


def getitem(I, o, i):
    if isinstance(o, Union):
        return I.split(o, lambda w: getitem(I, w, i))
    i = norm_index(I, i)
    if isinstance(o, SDict):
        return dict_get_any(I, o, i, None, True)
    if isinstance(o, (SList, tuple)) and not (isinstance(o, tuple) and isinstance(i, slice)):
        if isinstance(o, SList) and isinstance(i, slice):
            return slice_list(I, o, i)
        if isinstance(i, (Union, SB)):
            return I.split(i, lambda w: getitem(I, o, w))
        if isinstance(i, Sym):
            raise Unsupported('list index %s' % type(i).__name__)
        if not isinstance(i, (int, np.integer)):
            I.throw(TypeError('indices must be integers'))
        if isinstance(o, tuple):
            try:
                return o[i]
            except IndexError as ex:
                I.throw(ex)
        return I.lget(o.e, int(i))
    if isinstance(o, SArr):
        return arr_get(I, o, i)
    if isinstance(o, GArr):
        if isinstance(i, slice):
            return GArr([tuple(x) for x in slice_list(I, SList([list(t) for t in o.e], I.pc), i).e])
        if isinstance(i, (Union,)):
            return I.split(i, lambda w: getitem(I, o, w))
        if isinstance(i, int):
            return I.lget(o.e, i)
        if isinstance(i, GMask):
            return GArr([(I.AND(g, I.truth(m)), x) for (g, x), m in zip(o.e, i.m)])
        raise Unsupported('GArr index')
    if isinstance(o, np.ndarray):
        if conc_index(i):
            try:
                return np_out(I, o[lower_index(I, i)])
            except Exception as ex:
                I.throw(ex)
        return arr_get(I, from_np(I, o), i)
    if isinstance(o, SObj):
        m = I.lookup_cls(o.cls, '__getitem__')
        if m is None:
            I.throw(TypeError('object is not subscriptable'))
        return I.call(Bound(I.tofunc(m), o), [i], {})
    if isinstance(o, Sym):
        raise Unsupported('subscript of %s' % type(o).__name__)
    if isinstance(i, (Union, SB)):
        return I.split(i, lambda w: getitem(I, o, w))
    if isinstance(i, slice) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
        return I.splitn([i.start, i.stop, i.step], lambda v: getitem(I, o, slice(*v)))
    try:
        return o[i]
    except Exception as ex:
        I.throw(ex)


def dict_get_any(I, d, key, dflt, strict):
    def one(kk):
        def missing():
            if strict:
                if d.default is not None:
                    v = I.call(d.default, [], {})
                    I.dset(d, kk, v)
                    return v
                I.throw(KeyError(kk))
            return dflt
        return I.dget(d, kk, missing)
    ka = I.keyalts(key)
    if len(ka) == 1:
        return one(ka[0][1])
    base = I.pc
    res, outs = [], []
    for g, kk in ka:
        p = I.AND(base, g)
        if not I.sat(p):
            continue
        I.pc = p
        try:
            res.append((g, one(kk)))
            outs.append(I.pc)
        except Dead:
            pass
    I.join(base, outs)
    return I.merge(res)


def forkeys(I, key, fn):
    """run fn(key) under each concrete key alternative"""
    ka = I.keyalts(key)
    if len(ka) == 1:
        return fn(ka[0][1])
    base = I.pc
    res, outs = [], []
    for g, kk in ka:
        p = I.AND(base, g)
        if not I.sat(p):
            continue
        I.pc = p
        try:
            res.append((g, fn(kk)))
            outs.append(I.pc)
        except Dead:
            pass
    I.join(base, outs)
    return I.merge(res)


def slice_list(I, l, s):
    parts = [s.start, s.stop, s.step]
    if any(isinstance(x, Union) for x in parts):
        return I.splitn(parts, lambda v: slice_list(I, l, slice(*v)))
    if all(g == 1 for g, _ in l.e):
        return SList([list(x) for x in l.e[s]], I.pc, l.kind)
    st, en, step = parts
    if step == -1 and st is None and en is None:
        return SList([list(x) for x in l.e[::-1]], I.pc, l.kind)
    if step not in (None, 1):
        raise Unsupported('slice step')
    # general: positions
    if (st is None or st >= 0) and (en is None or en >= 0):
        st = st or 0
        m = max(st, en or 0)
        cnt = [1] + [0] * m
        out = []
        for g, v in l.e:
            ge_st = 1
            # number seen so far >= st  <=> not in {0..st-1}
            lt = I.b.ors(cnt[:st])
            ge_st = lt ^ 1
            lt_en = I.b.ors(cnt[:en]) if en is not None else 1
            h = I.b.ands([g, ge_st, lt_en])
            if h:
                out.append([h, v])
            for c in range(m, -1, -1):
                if c == m:
                    # saturating is not needed below en/st comparisons
                    cnt[c] = I.OR(I.AND(cnt[c], g ^ 1), I.AND(cnt[c - 1], g) if c else 0)
                else:
                    cnt[c] = I.OR(I.AND(cnt[c], g ^ 1), I.AND(cnt[c - 1], g) if c else 0)
        return SList(out, I.pc, l.kind)
    if st is None and en is not None and en < 0:
        rev = slice_list(I, SList([list(x) for x in l.e[::-1]], I.pc, l.kind), slice(-en, None, None))
        rev.e = rev.e[::-1]
        return rev
    if en is None and st is not None and st < 0:
        rev = slice_list(I, SList([list(x) for x in l.e[::-1]], I.pc, l.kind), slice(0, -st, None))
        rev.e = rev.e[::-1]
        return rev
    raise Unsupported('slice')


def setitem(I, o, i, v):
    if isinstance(o, Union):
        return I.split(o, lambda w: setitem(I, w, i, v))
    i = norm_index(I, i)
    if isinstance(o, SDict):
        return forkeys(I, i, lambda kk: I.dset(o, kk, v))
    if isinstance(o, SList):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        if isinstance(i, (Union, SB)):
            return I.split(i, lambda w: setitem(I, o, w, v))
        if o.kind == 'tuple':
            I.throw(TypeError('tuple does not support item assignment'))
        if all(g == 1 for g, _ in o.e):
            try:
                ent = o.e[i]
            except IndexError as ex:
                I.throw(ex)
            ent[1] = v if I.covers(o.birth) else I.merge2(I.pc, v, ent[1])
            return
        ents = o.e if i >= 0 else o.e[::-1]
        kx = i if i >= 0 else -i - 1
        cnt = [1] + [0] * kx
        found = 0
        todo = []
        for ent in ents:
            g = ent[0]
            hit = I.AND(cnt[kx], g)
            if hit:
                todo.append((ent, hit))
                found = I.OR(found, hit)
            for c in range(kx, -1, -1):
                cnt[c] = I.OR(I.AND(cnt[c], g ^ 1), I.AND(cnt[c - 1], g) if c else 0)
        I.throw(IndexError('list assignment index out of range'), found ^ 1)
        for ent, hit in todo:
            p = I.AND(I.pc, hit)
            if I.sat(p):
                ent[1] = I.merge2(p, v, ent[1])
        return
    if isinstance(o, SArr):
        return arr_set(I, o, i, v)
    if isinstance(o, SObj):
        m = I.lookup_cls(o.cls, '__setitem__')
        if m is None:
            I.throw(TypeError('object does not support item assignment'))
        return I.call(Bound(I.tofunc(m), o), [i, v], {})
    if isinstance(o, tuple):
        I.throw(TypeError('tuple does not support item assignment'))
    raise Unsupported('setitem on %s' % type(o).__name__)


def delitem(I, o, i):
    if isinstance(o, SDict):
        def one(kk):
            I.throw(KeyError(kk), I.dhas(o, kk) ^ 1)
            I.ddel(o, kk)
        return forkeys(I, i, one)
    if isinstance(o, SList) and not isinstance(i, slice):
        return method(I, o, 'pop', [i], {})
    raise Unsupported('del item')


def first_present(I, ents):
    """[(guard, entry)] of the first present entry, and guard of none"""
    none = 1
    out = []
    for ent in ents:
        h = I.AND(none, ent[0])
        if h and I.sat(I.AND(I.pc, h)):
            out.append((h, ent))
        none = I.AND(none, ent[0] ^ 1)
        if none == 0 or not I.sat(I.AND(I.pc, none)):
            none = 0
            break
    return out, none


def method(I, o, name, a, k):
    if isinstance(o, SList):
        return list_method(I, o, name, a, k)
    if isinstance(o, SDict):
        return dict_method(I, o, name, a, k)
    if isinstance(o, SSet):
        return set_method(I, o, name, a, k)
    if isinstance(o, SArr):
        return arr_method(I, o, name, a, k)
    if isinstance(o, GArr):
        return garr_method(I, o, name, a, k)
    if isinstance(o, SLazy):
        if name == '__next__':
            return m_next(I, [o], {})
        if name == '__iter__':
            return o
        raise Unsupported('generator.%s' % name)
    if isinstance(o, tuple):
        if name == 'count':
            return m_sum(I, [tuple(I.mk(I.eq(x, a[0])) for x in o)], {})
        if name == 'index':
            return list_method(I, SList([[1, x] for x in o], I.pc), name, a, k)
        if name == '_replace':
            vals = list(o)
            for f, v in k.items():
                vals[type(o)._fields.index(f)] = v
            return I.retuple(type(o), vals)
        raise Unsupported('tuple.%s' % name)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def list_method(I, o, name, a, k):
    if o.kind == 'tuple' and name not in ('index', 'count', '__len__', '__contains__', '__iter__'):
        I.throw(AttributeError(name))
    if name == 'append':
        I.lappend(o, a[0])
        return None
    if name == 'appendleft' or (name == 'insert' and a[0] == 0):
        v = a[-1]
        o.rm = I.OR(o.rm, I.pc)
        o.e.insert(0, [I.rel(o.birth, I.pc), v])
        return None
    if name == 'insert':
        if isinstance(a[0], int) and all(g == 1 for g, _ in o.e) and I.covers(o.birth):
            o.rm = I.OR(o.rm, I.pc)
            o.e.insert(a[0], [1, a[1]])
            return None
        raise Unsupported('list.insert')
    if name in ('extend', '__iadd__', 'extendleft'):
        src = a[0]
        if src is o:
            src = SList([list(x) for x in o.e], I.pc)
        if name == 'extendleft':
            I.iterate(src, lambda x: list_method(I, o, 'appendleft', [x], {}))
        else:
            I.iterate(src, lambda x: I.lappend(o, x))
        return None
    if name in ('pop', 'popleft'):
        if name == 'popleft':
            if o.kind != 'deque':
                I.throw(AttributeError('popleft'))
            i = 0
        else:
            i = a[0] if a else -1
        if isinstance(i, (Union, SB)):
            return I.split(i, lambda w: list_method(I, o, 'pop', [w], {}))
        if i == 0:
            fp, none = first_present(I, o.e)
        elif i == -1:
            fp, none = first_present(I, o.e[::-1])
        else:
            ents = o.e if i >= 0 else o.e[::-1]
            kx = i if i >= 0 else -i - 1
            cnt = [1] + [0] * kx
            fp, found = [], 0
            for ent in ents:
                g = ent[0]
                hit = I.AND(cnt[kx], g)
                if hit and I.sat(I.AND(I.pc, hit)):
                    fp.append((hit, ent))
                    found = I.OR(found, hit)
                for c in range(kx, -1, -1):
                    cnt[c] = I.OR(I.AND(cnt[c], g ^ 1), I.AND(cnt[c - 1], g) if c else 0)
            none = found ^ 1
        I.throw(IndexError('pop from an empty list'), none)
        o.rm = I.OR(o.rm, I.pc)
        pairs = [(h, ent[1]) for h, ent in fp]
        pc = I.pc
        for h, ent in fp:
            I.lrmentry(o, ent, I.AND(pc, h))
        return I.merge(pairs)
    if name == 'remove':
        none = 1
        hits = []
        for ent in o.e:
            h = I.b.ands([none, ent[0], I.eq(ent[1], a[0])])
            if h and I.sat(I.AND(I.pc, h)):
                hits.append((h, ent))
                none = I.AND(none, h ^ 1)
        I.throw(ValueError('list.remove(x): x not in list'), none)
        o.rm = I.OR(o.rm, I.pc)
        pc = I.pc
        for h, ent in hits:
            I.lrmentry(o, ent, I.AND(pc, h))
        return None
    if name == 'index':
        none = 1
        pairs = []
        pre = []
        for ent in o.e:
            h = I.b.ands([none, ent[0], I.eq(ent[1], a[0])])
            if h and I.sat(I.AND(I.pc, h)):
                pos = I.lcount(pre)
                pairs.append((h, pos))
                none = I.AND(none, h ^ 1)
            pre.append(tuple(ent))
        I.throw(ValueError('not in list'), none)
        return I.merge(pairs)
    if name == 'count':
        return I.lcount([(I.AND(g, I.eq(x, a[0])), x) for g, x in o.e])
    if name == 'copy':
        return SList([list(x) for x in o.e], I.pc, o.kind)
    if name == 'clear':
        o.rm = I.OR(o.rm, I.pc)
        for ent in list(o.e):
            I.lrmentry(o, ent, I.pc)
        return None
    if name == 'reverse' or name == 'sort':
        o.rm = I.OR(o.rm, I.pc)
        if not I.covers(o.birth):
            raise Unsupported('partial in-place reordering')
        if name == 'reverse':
            o.e = o.e[::-1]
        else:
            o.e = m_sorted(I, [o], k).e
        return None
    if name == '__len__':
        return m_len(I, [o], {})
    if name == '__contains__':
        return I.mk(I.contains(o, a[0]))
    if name == '__iter__':
        return SIter(o)
    if name == '__getitem__':
        return getitem(I, o, a[0])
    raise Unsupported('list.%s' % name)


def dict_method(I, o, name, a, k):
    if name == 'get':
        return dict_get_any(I, o, a[0], a[1] if len(a) > 1 else k.get('default'), False)
    if name == 'keys':
        return DView(I, o, 'k')
    if name == 'values':
        return DView(I, o, 'v')
    if name == 'items':
        return DView(I, o, 'i')
    if name == 'pop':
        def one(kk):
            def missing():
                if len(a) > 1:
                    return a[1]
                I.throw(KeyError(kk))
            v = I.dget(o, kk, missing)
            I.ddel(o, kk)
            return v
        return forkeys(I, a[0], one)
    if name == 'setdefault':
        def one(kk):
            def missing():
                v = a[1] if len(a) > 1 else None
                I.dset(o, kk, v)
                return v
            return I.dget(o, kk, missing)
        return forkeys(I, a[0], one)
    if name == 'update':
        if a:
            src = a[0]
            if isinstance(src, Union):
                return I.split(src, lambda w: dict_method(I, o, name, [w], k))
            if isinstance(src, SDict):
                base = I.pc
                for s in list(src.s):
                    p = I.AND(base, s[1])
                    if I.sat(p):
                        I.pc = p
                        I.dset(o, s[0], s[2])
                        I.pc = base
            elif isinstance(src, dict):
                for kk, v in src.items():
                    I.dset(o, kk, I.lift(v))
            else:
                def cb(x):
                    t = x if isinstance(x, tuple) else tuple(y for _, y in I.tolist(x))
                    setitem(I, o, t[0], t[1])
                I.iterate(src, cb)
        for kk, v in k.items():
            I.dset(o, kk, v)
        return None
    if name == 'copy':
        return m_copy(I, [o], {})
    if name == 'clear':
        for kk in list(o.idx):
            I.ddel(o, kk)
        return None
    if name == '__contains__':
        return I.mk(I.contains(o, a[0]))
    if name == '__len__':
        return m_len(I, [o], {})
    if name == '__getitem__':
        return getitem(I, o, a[0])
    if name == 'popitem' and not a:
        raise Unsupported('popitem')
    if name == 'fromkeys':
        raise Unsupported('fromkeys')
    raise Unsupported('dict.%s' % name)


class DVObj(SLazy):
    """re-iterable dict view"""
    __slots__ = ('d', 'mode')


def DView(I, d, mode):
    if mode == 'k':
        v = DKeys(d)
        return v
    return DItems(d, mode)


class DKeys(SDict):
    """keys view: shares the slots of the dict"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    s = property(lambda self: self.d.s)
    idx = property(lambda self: self.d.idx)
    birth = property(lambda self: self.d.birth)
    default = None
    kind = type({}.keys())

    def _gi(self):
        return self.d.mut_ins

    def _si(self, v):
        self.d.mut_ins = v
    mut_ins = property(_gi, _si)

    def _gd(self):
        return self.d.mut_del

    def _sd(self, v):
        self.d.mut_del = v
    mut_del = property(_gd, _sd)


class DItems(Heap):
    __slots__ = ('d', 'mode')

    def __init__(self, d, mode):
        self.d = d
        self.mode = mode


def set_ents(I, v):
    """key -> guard of any iterable of hashables"""
    if isinstance(v, Union):
        r = {}
        base = I.pc
        for g, w in I.alts(v):
            I.pc = I.AND(base, g)
            for kk, h in set_ents(I, w).items():
                r[kk] = I.OR(r.get(kk, 0), I.AND(g, h))
            I.pc = base
        return r
    m = I.asset(v)
    if m is not None:
        return dict(m)
    if isinstance(v, SDict):
        return {kk: I.dhas(v, kk) for kk in v.idx}
    return mkset(I, v, set).m


def set_put(I, s, key, g):
    """make key's presence g under pc"""
    old = s.m.get(key, 0)
    if I.covers(s.birth):
        new = g
    else:
        new = I.b.ITE(I.pc, g, old)
    if new != old:
        ch = I.AND(I.pc, I.b.XOR(old, g))
        if ch and I.sat(ch):
            s.mut = I.OR(s.mut, ch)
        else:
            return
    if new == 0 or not I.sat(I.AND(s.birth, new)):
        s.m.pop(key, None)
    else:
        s.m[key] = I.rel(s.birth, new)


def set_method(I, o, name, a, k):
    if o.kind is frozenset and name in ('add', 'remove', 'discard', 'update', 'pop', 'clear'):
        I.throw(AttributeError(name))
    if name == 'add':
        return forkeys(I, a[0], lambda kk: set_put(I, o, kk, 1))
    if name == 'discard':
        return forkeys(I, a[0], lambda kk: set_put(I, o, kk, 0))
    if name == 'remove':
        def one(kk):
            I.throw(KeyError(kk), o.m.get(kk, 0) ^ 1)
            set_put(I, o, kk, 0)
        return forkeys(I, a[0], one)
    if name == 'clear':
        for kk in list(o.m):
            set_put(I, o, kk, 0)
        return None
    if name == 'copy':
        r = SSet(I.pc, o.kind)
        r.m = dict(o.m)
        return r
    if name in ('update', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
        for x in a:
            m = set_ents(I, x)
            for kk in list({**o.m, **m}):
                p, q = o.m.get(kk, 0), m.get(kk, 0)
                n = {'update': lambda: I.OR(p, q), 'intersection_update': lambda: I.AND(p, q),
                     'difference_update': lambda: I.AND(p, q ^ 1),
                     'symmetric_difference_update': lambda: I.b.XOR(p, q)}[name]()
                if n != p:
                    set_put(I, o, kk, n)
        return None
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        r = SSet(I.pc, o.kind)
        m = dict(o.m)
        for x in a:
            q = set_ents(I, x)
            m = setop(I, name, m, q)
        r.m = m
        return r
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        q = set_ents(I, a[0])
        if name == 'issubset':
            return I.mk(I.b.ands(I.OR(g ^ 1, q.get(kk, 0)) for kk, g in o.m.items()))
        if name == 'issuperset':
            return I.mk(I.b.ands(I.OR(g ^ 1, o.m.get(kk, 0)) for kk, g in q.items()))
        return I.mk(I.b.ands(I.AND(g, q.get(kk, 0)) ^ 1 for kk, g in o.m.items()))
    if name == 'pop':
        ents = [[g, kk] for g, kk in I.entries(o)]
        fp, none = first_present(I, ents)
        I.throw(KeyError('pop from an empty set'), none)
        base = I.pc
        for h, ent in fp:
            I.pc = I.AND(base, h)
            if I.sat(I.pc):
                set_put(I, o, ent[1], 0)
        I.pc = base
        return I.merge([(h, ent[1]) for h, ent in fp])
    if name == '__contains__':
        return I.mk(I.contains(o, a[0]))
    if name == '__len__':
        return m_len(I, [o], {})
    raise Unsupported('set.%s' % name)


def setop(I, name, m, q):
    r = {}
    for kk in {**m, **q}:
        x, y = m.get(kk, 0), q.get(kk, 0)
        if name in ('union', ast.BitOr):
            g = I.OR(x, y)
        elif name in ('intersection', ast.BitAnd):
            g = I.AND(x, y)
        elif name in ('difference', ast.Sub):
            g = I.AND(x, y ^ 1)
        else:
            g = I.b.XOR(x, y)
        if g and I.sat(g):
            r[kk] = g
    return r


def binop(I, op, a, b):
    if isinstance(a, SSet) or isinstance(b, SSet):
        x, y = I.asset(a), I.asset(b)
        if x is None and isinstance(a, SDict):
            x = set_ents(I, a)
        if y is None and isinstance(b, SDict):
            y = set_ents(I, b)
        if x is None or y is None:
            I.throw(TypeError('unsupported operand type(s) for set operation'))
        if op not in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            I.throw(TypeError('unsupported operand type(s)'))
        r = SSet(I.pc, a.kind if isinstance(a, SSet) else type(a) if isinstance(a, (set, frozenset)) else set)
        r.m = setop(I, op, x, y)
        return r
    if isinstance(a, DKeys) and isinstance(b, DKeys):
        r = SSet(I.pc)
        r.m = setop(I, op, set_ents(I, a), set_ents(I, b))
        return r
    if isinstance(a, SDict) and isinstance(b, SDict) and op is ast.BitOr:
        d = m_copy(I, [a], {})
        dict_method(I, d, 'update', [b], {})
        return d
    if isinstance(a, SList) and isinstance(b, SList) and op is ast.Add:
        return SList([list(x) for x in a.e] + [list(x) for x in b.e], I.pc, a.kind)
    if isinstance(a, SList) and a.kind == 'tuple' and isinstance(b, tuple) and op is ast.Add:
        return SList([list(x) for x in a.e] + [[1, x] for x in b], I.pc, a.kind)
    if isinstance(b, SList) and b.kind == 'tuple' and isinstance(a, tuple) and op is ast.Add:
        return SList([[1, x] for x in a] + [list(x) for x in b.e], I.pc, b.kind)
    if isinstance(a, SList) and isinstance(b, int) and op is ast.Mult:
        return SList([list(x) for _ in range(b) for x in a.e], I.pc, a.kind)
    if isinstance(b, SList) and isinstance(a, int) and op is ast.Mult:
        return binop(I, op, b, a)
    if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
        return arr_binop(I, op, a, b)
    if isinstance(a, GArr) and not isinstance(b, Heap):
        return GArr([(g, I.binop(op, x, b)) for g, x in a.e])
    if isinstance(a, (SList,)) or isinstance(b, (SList,)):
        I.throw(TypeError('unsupported operand type(s)'))
    names = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitOr: '__or__', ast.BitAnd: '__and__'}
    if isinstance(a, SObj) and op in names:
        m = I.lookup_cls(a.cls, names[op])
        if m is not None:
            return I.call(Bound(I.tofunc(m), a), [b], {})
    raise Unsupported('%s on %s, %s' % (op.__name__, type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ arrays
class GMask(Heap):
    """boolean mask aligned with a GArr's entries"""
    __slots__ = ('src', 'm')

    def __init__(self, src, m):
        self.src = src
        self.m = m


def from_np(I, v):
    return SArr([x.item() if isinstance(x, np.generic) else x for x in v.ravel()], v.shape, v.dtype, I.pc)


def np_out(I, r):
    if isinstance(r, np.ndarray):
        return r
    if isinstance(r, np.generic):
        return r.item()
    return r


def as_arr(I, v):
    """array-like value -> SArr (or None)"""
    if isinstance(v, SArr):
        return v
    if isinstance(v, np.ndarray):
        return from_np(I, v)
    if isinstance(v, (SList, tuple)):
        ents = I.entries(v)
        if any(g != 1 for g, _ in ents):
            return None
        vals = [x for _, x in ents]
        if vals and all(isinstance(x, (SList, tuple, SArr, np.ndarray)) for x in vals):
            rows = [as_arr(I, x) for x in vals]
            if any(r is None for r in rows) or len({r.shape for r in rows}) != 1:
                return None
            return SArr([c for r in rows for c in r.c], (len(rows),) + rows[0].shape, rows[0].dtype, I.pc)
        if any(isinstance(x, Heap) for x in vals):
            return None
        return SArr(vals, (len(vals),), dt_of(vals), I.pc)
    if isinstance(v, (range, list)):
        return SArr(list(v), (len(v),), dt_of(list(v)), I.pc)
    return None


def dt_of(vals):
    def d(x):
        if isinstance(x, SB) or isinstance(x, bool):
            return 0
        if isinstance(x, Union):
            return max(d(w) for _, w in x.alts)
        if isinstance(x, int):
            return 1
        return 2
    if not vals:
        return np.dtype(float)
    return np.dtype([bool, int, float][max(d(x) for x in vals)])


def conc_index(i):
    if isinstance(i, slice):
        return not any(isinstance(x, Sym) for x in (i.start, i.stop, i.step))
    if isinstance(i, tuple):
        return all(conc_index(x) for x in i)
    if isinstance(i, SList):
        return all(g == 1 and concrete(x) for g, x in i.e)
    if isinstance(i, SArr):
        return all(concrete(x) for x in i.c)
    if isinstance(i, GArr):
        return all(g == 1 for g, _ in i.e)
    return not isinstance(i, Sym)


def lower_index(I, i):
    if isinstance(i, tuple):
        return tuple(lower_index(I, x) for x in i)
    if isinstance(i, SList):
        return [x for _, x in i.e]
    if isinstance(i, SArr):
        return np.array(i.c, dtype=i.dtype).reshape(i.shape)
    if isinstance(i, GArr):
        return np.array([x for _, x in i.e], dtype=int)
    return i


def arr_get(I, o, i):
    if isinstance(i, Union):
        return I.split(i, lambda w: arr_get(I, o, w))
    if isinstance(i, tuple) and any(isinstance(x, (Union, SB)) for x in i):
        return I.splitn(list(i), lambda v: arr_get(I, o, tuple(v)))
    if isinstance(i, SList) and not conc_index(i):
        return arr_get_sym(I, o, i)
    if isinstance(i, tuple) and not conc_index(i):
        raise Unsupported('symbolic array index')
    if isinstance(i, SArr) and not conc_index(i):
        raise Unsupported('symbolic mask')
    if not conc_index(i):
        raise Unsupported('symbolic array index')
    pos = np.arange(len(o.c)).reshape(o.shape)
    li = lower_index(I, i)
    try:
        p = pos[li]
    except Exception as ex:
        I.throw(ex)
    if isinstance(p, np.ndarray):
        fancy = not all(isinstance(x, (int, slice)) or x is None or x is Ellipsis for x in
                        (li if isinstance(li, tuple) else (li,)))
        return SArr([o.c[j] for j in p.ravel()], p.shape, o.dtype, I.pc, view=not fancy)
    return o.c[int(p)]


def arr_get_sym(I, o, i):
    raise Unsupported('symbolic fancy index')


def arr_set(I, o, i, v):
    if o.view:
        raise Unsupported('write through a view')
    if isinstance(i, Union):
        return I.split(i, lambda w: arr_set(I, o, w, v))
    if isinstance(i, tuple) and any(isinstance(x, (Union, SB)) for x in i):
        return I.splitn(list(i), lambda w: arr_set(I, o, tuple(w), v))
    if isinstance(i, SArr) and i.dtype == bool and i.shape == o.shape:
        if isinstance(v, (SArr, SList, tuple, np.ndarray)):
            raise Unsupported('masked array write')
        base = I.pc
        for j, m in enumerate(i.c):
            l = I.truth(m)
            p = I.AND(base, l)
            if I.sat(p):
                o.c[j] = I.merge2(p, castv(I, o.dtype, v), o.c[j])
        return
    if isinstance(i, GArr) and len(o.shape) == 1 and not isinstance(v, (Heap, np.ndarray)):
        base = I.pc
        for g, x in i.e:
            p = I.AND(base, g)
            if I.sat(p):
                I.pc = p
                arr_set(I, o, x, v)
        I.pc = base
        return
    if not conc_index(i):
        raise Unsupported('symbolic array index')
    pos = np.arange(len(o.c)).reshape(o.shape)
    try:
        p = pos[lower_index(I, i)]
    except Exception as ex:
        I.throw(ex)
    cov = I.covers(o.birth)
    if isinstance(p, np.ndarray):
        va = as_arr(I, v)
        if va is None:
            vals = [v] * p.size
        else:
            vpos = np.broadcast_to(np.arange(len(va.c)).reshape(va.shape), p.shape)
            vals = [va.c[j] for j in vpos.ravel()]
        for j, x in zip(p.ravel(), vals):
            x = castv(I, o.dtype, x)
            o.c[j] = x if cov else I.merge2(I.pc, x, o.c[j])
        return
    j = int(p)
    if isinstance(v, (SArr, GArr)) and v is not None:
        if isinstance(v, SArr) and len(v.c) == 1:
            v = v.c[0]
        else:
            I.throw(ValueError('setting an array element with a sequence.'))
    v = castv(I, o.dtype, v)
    o.c[j] = v if cov else I.merge2(I.pc, v, o.c[j])


def castv(I, dt, v):
    k = np.dtype(dt).kind
    if k == 'O':
        return v

    def one(w):
        if isinstance(w, Sym):
            raise Unsupported('array cell %s' % type(w).__name__)
        try:
            return np.dtype(dt).type(w).item()
        except Exception as ex:
            I.throw(ex)
    if isinstance(v, SB):
        if k == 'b':
            return v
        return I.merge([(v.lit, np.dtype(dt).type(1).item()), (v.lit ^ 1, np.dtype(dt).type(0).item())])
    if isinstance(v, Union):
        return I.merge([(g, one(w)) for g, w in v.alts])
    return one(v)


def arr_T(I, o):
    pos = np.arange(len(o.c)).reshape(o.shape).T
    return SArr([o.c[j] for j in pos.ravel()], pos.shape, o.dtype, I.pc, view=True)


def bcast(I, a, b):
    x, y = as_arr(I, a), as_arr(I, b)
    sa = x.shape if x is not None else ()
    sb = y.shape if y is not None else ()
    try:
        sh = np.broadcast_shapes(sa, sb)
    except ValueError as ex:
        I.throw(ex)
    def cells(z, v):
        if z is None:
            n = 1
            for s in sh:
                n *= s
            return [v] * n
        p = np.broadcast_to(np.arange(len(z.c)).reshape(z.shape), sh)
        return [z.c[j] for j in p.ravel()]
    return cells(x, a), cells(y, b), sh


def arr_binop(I, op, a, b):
    if op is ast.MatMult:
        x, y = as_arr(I, a), as_arr(I, b)
        if len(x.shape) != 2 or len(y.shape) != 2:
            raise Unsupported('matmul')
        n, m = x.shape
        m2, p = y.shape
        out = []
        for i in range(n):
            for j in range(p):
                s = 0
                for t in range(m):
                    s = I.binop(ast.Add, s, I.binop(ast.Mult, x.c[i * m + t], y.c[t * p + j]))
                out.append(s)
        return SArr(out, (n, p), dt_of(out), I.pc)
    ca, cb, sh = bcast(I, a, b)
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        f = {ast.BitAnd: I.AND, ast.BitOr: I.OR, ast.BitXor: I.b.XOR}[op]
        if all(isinstance(x, (SB, bool)) for x in ca + cb):
            return SArr([I.mk(f(I.truth(x), I.truth(y))) for x, y in zip(ca, cb)], sh, np.dtype(bool), I.pc)
        raise Unsupported('bit op on int arrays')
    if op is ast.Sub and ca and all(isinstance(x, (SB, bool)) for x in ca + cb):
        I.throw(TypeError('numpy boolean subtract'))
    out = [I.binop(op, x, y) for x, y in zip(ca, cb)]
    if all(isinstance(x, (SB, bool)) for x in ca + cb):
        raise Unsupported('arithmetic on boolean arrays')
    return SArr(out, sh, dt_of(out), I.pc)


def arr_compare(I, t, a, b):
    import ast as _a
    if isinstance(a, GArr) or isinstance(b, GArr):
        if isinstance(a, GArr) and not isinstance(b, Heap):
            return GMask(a, [I.compare(t(), x, b) for _, x in a.e])
        if isinstance(b, GArr) and not isinstance(a, Heap):
            return GMask(b, [I.compare(t(), a, x) for _, x in b.e])
        raise Unsupported('compare of index arrays')
    if a is None or b is None:
        x = as_arr(I, a if a is not None else b)
        return SArr([t is not _a.Eq] * len(x.c), x.shape, np.dtype(bool), I.pc)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        f = {_a.Eq: operator.eq, _a.NotEq: operator.ne, _a.Lt: operator.lt, _a.LtE: operator.le,
             _a.Gt: operator.gt, _a.GtE: operator.ge}[t]
        return np_out(I, f(a, b))
    try:
        ca, cb, sh = bcast(I, a, b)
    except Dead:
        raise
    r = [I.compare(t(), x, y) for x, y in zip(ca, cb)]
    return SArr(r, sh, np.dtype(bool), I.pc)


def fold(I, cells, f, init):
    acc = init
    for c in cells:
        acc = f(acc, c)
    return acc


def reduce_axis(I, o, axis, f):
    if axis is None:
        return f(o.c)
    nd = len(o.shape)
    if axis < 0:
        axis += nd
    pos = np.moveaxis(np.arange(len(o.c)).reshape(o.shape), axis, -1)
    sh = pos.shape[:-1]
    pos = pos.reshape(-1, pos.shape[-1])
    out = [f([o.c[j] for j in row]) for row in pos]
    return SArr(out, sh, dt_of(out), I.pc)


def arr_method(I, o, name, a, k):
    axis = k.get('axis', a[0] if a and isinstance(a[0], int) and name in ('sum', 'all', 'any', 'min', 'max') else None)
    if name == 'sum':
        return reduce_axis(I, o, axis, lambda cs: fold(I, cs, lambda x, y: I.binop(ast.Add, x, y), 0))
    if name == 'all':
        return reduce_axis(I, o, axis, lambda cs: I.mk(I.b.ands(I.truth(c) for c in cs)))
    if name == 'any':
        return reduce_axis(I, o, axis, lambda cs: I.mk(I.b.ors(I.truth(c) for c in cs)))
    if name in ('copy',):
        return SArr(list(o.c), o.shape, o.dtype, I.pc)
    if name == 'astype':
        dt = np.dtype(a[0])
        return SArr([castv(I, dt, x) for x in o.c], o.shape, dt, I.pc)
    if name in ('ravel', 'flatten'):
        return SArr(list(o.c), (len(o.c),), o.dtype, I.pc, view=name == 'ravel')
    if name == 'tolist':
        if len(o.shape) == 1:
            return SList([[1, x] for x in o.c], I.pc)
        return SList([[1, arr_method(I, I.arr_row(o, i), 'tolist', [], {})] for i in range(o.shape[0])], I.pc)
    if name == 'transpose' and not a:
        return arr_T(I, o)
    if name == 'reshape':
        sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
        p = np.arange(len(o.c)).reshape(sh)
        return SArr(list(o.c), p.shape, o.dtype, I.pc, view=True)
    if name == 'item':
        return o.c[0]
    if name == 'dot':
        return arr_binop(I, ast.MatMult, o, a[0])
    if name in ('max', 'min') and axis is None:
        return minmax(name == 'max')(I, [tuple(o.c)], {})
    if name == 'fill':
        o.c = [a[0] if I.covers(o.birth) else I.merge2(I.pc, a[0], x) for x in o.c]
        return None
    if name == 'nonzero':
        return np_where(I, [o], {})
    raise Unsupported('ndarray.%s' % name)


def garr_method(I, o, name, a, k):
    if name == 'tolist':
        return SList([list(x) for x in o.e], I.pc)
    if name == 'astype':
        return o
    if name == 'copy':
        return o
    if name == 'sum':
        return m_sum(I, [SList([list(x) for x in o.e], I.pc)], {})
    if name in ('max', 'min'):
        return minmax(name == 'max')(I, [SList([list(x) for x in o.e], I.pc)], {})
    raise Unsupported('1-d array.%s' % name)


def arr_new(fill):
    def m(I, a, k):
        sh = a[0] if a else k['shape']
        if isinstance(sh, (Union, SB)):
            return I.split(sh, lambda w: m(I, [w] + a[1:], k))
        if isinstance(sh, (SList,)):
            sh = tuple(x for _, x in sh.e)
        if isinstance(sh, int):
            sh = (sh,)
        if any(isinstance(x, Union) for x in sh):
            return I.splitn(list(sh), lambda v: m(I, [tuple(v)] + a[1:], k))
        dt = k.get('dtype', a[1] if len(a) > 1 else float)
        dt = np.dtype(dt if dt is not None else float)
        n = 1
        for s in sh:
            n *= s
        return SArr([dt.type(fill).item()] * n, sh, dt, I.pc)
    return m


def np_full(I, a, k):
    r = arr_new(0)(I, [a[0]], {'dtype': k.get('dtype') or dt_of([a[1]])})
    r.c = [a[1]] * len(r.c)
    return r


def np_zeros_like(I, a, k):
    x = as_arr(I, a[0])
    dt = np.dtype(k.get('dtype') or x.dtype)
    return SArr([dt.type(0).item()] * len(x.c), x.shape, dt, I.pc)


def np_eye(I, a, k):
    n = a[0]
    if isinstance(n, Union):
        return I.split(n, lambda w: np_eye(I, [w] + a[1:], k))
    return from_np(I, np.eye(*a, **k))


def np_array(I, a, k):
    v = a[0]
    if isinstance(v, Union):
        return I.split(v, lambda w: np_array(I, [w] + a[1:], k))
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if isinstance(v, SLazy):
        raise Unsupported('np.array(generator)')
    if isinstance(v, GArr):
        return v
    x = as_arr(I, v)
    if x is None:
        if isinstance(v, SList) and all(isinstance(e, int) for _, e in v.e):
            return GArr([tuple(t) for t in v.e])
        if isinstance(v, SList) and not any(isinstance(e, Heap) for _, e in v.e):
            return GArr([tuple(t) for t in v.e])
        if not isinstance(v, Sym):
            return np_out(I, np.array(v, **({'dtype': dt} if dt else {})))
        raise Unsupported('np.array of symbolic length')
    d = np.dtype(dt) if dt is not None else x.dtype
    return SArr([castv(I, d, c) for c in x.c] if dt is not None else list(x.c), x.shape, d, I.pc)


def np_where(I, a, k):
    if len(a) == 3:
        c = as_arr(I, a[0])
        if c is None:
            raise Unsupported('where/3')
        x = bcast(I, c, a[1])[1]
        y = bcast(I, c, a[2])[1]
        out = [I.cond(I.truth(t), lambda: p, lambda: q) for t, p, q in zip(c.c, x, y)]
        return SArr(out, c.shape, dt_of(out), I.pc)
    v = a[0]
    if isinstance(v, Union):
        return I.split(v, lambda w: np_where(I, [w], k))
    if isinstance(v, GMask):
        # positions of the true entries of a symbolic-length array
        pre = []
        out = []
        for (g, x), m in zip(v.src.e, v.m):
            pos = I.lcount(pre)
            h = I.AND(g, I.truth(m))
            if h and I.sat(h):
                if isinstance(pos, Union):
                    for gg, w in pos.alts:
                        out.append((I.AND(h, gg), w))
                else:
                    out.append((h, pos))
            pre.append((g, x))
        out.sort(key=lambda t: t[1])
        return (GArr(out),)
    x = as_arr(I, v)
    if x is None:
        if isinstance(v, SList):
            # guarded list of bools
            return np_where(I, [GMask(GArr([(g, 0) for g, _ in v.e]), [t for _, t in v.e])], {})
        raise Unsupported('where')
    if len(x.shape) == 1:
        return (GArr([(l, i) for i, l in ((i, I.truth(c)) for i, c in enumerate(x.c)) if l]),)
    if all(concrete(c) for c in x.c):
        r = np.where(np.array(x.c, dtype=x.dtype).reshape(x.shape))
        return tuple(GArr([(1, int(i)) for i in ax]) for ax in r)
    if len(x.shape) == 2:
        rows, cols = [], []
        for j, c in enumerate(x.c):
            l = I.truth(c)
            if l:
                rows.append((l, j // x.shape[1]))
                cols.append((l, j % x.shape[1]))
        return (GArr(rows), GArr(cols))
    raise Unsupported('where on nd')


def keyset(I, v):
    """concrete value -> guard for a 1-d array-like of ints"""
    if isinstance(v, Union):
        r = {}
        base = I.pc
        for g, w in I.alts(v):
            I.pc = I.AND(base, g)
            for kk, h in keyset(I, w).items():
                r[kk] = I.OR(r.get(kk, 0), I.AND(g, h))
            I.pc = base
        return r
    if isinstance(v, (int, float)):
        return {v: 1}
    if isinstance(v, SArr):
        v = tuple(v.c)
    r = {}
    base = I.pc
    for g, x in ents_of(I, v):
        if isinstance(x, Sym) or not isinstance(x, (int, float, str, np.generic)):
            raise Unsupported('set op on %s' % type(x).__name__)
        r[x] = I.OR(r.get(x, 0), g)
    return r


def np_setop(name):
    def m(I, a, k):
        if k:
            raise Unsupported('set op kwargs')
        x, y = keyset(I, a[0]), keyset(I, a[1])
        r = setop(I, name, x, y)
        return GArr([(r[kk], kk) for kk in sorted(r)])
    return m


def np_unique(I, a, k):
    if k:
        raise Unsupported('unique kwargs')
    x = keyset(I, a[0])
    return GArr([(x[kk], kk) for kk in sorted(x)])


def np_delete(I, a, k):
    arr, idx = a[0], a[1]
    if len(a) > 2 or k:
        raise Unsupported('np.delete axis')
    if isinstance(arr, Union):
        return I.split(arr, lambda w: np_delete(I, [w, idx], k))
    ents = I.entries(arr)
    if ents is None:
        raise Unsupported('np.delete')
    ks = keyset(I, idx) if not isinstance(idx, int) else {idx: 1}
    out = []
    pre = []
    for g, x in ents:
        pos = I.lcount(pre)
        al = pos.alts if isinstance(pos, Union) else ((1, pos),)
        kill = I.b.ors(I.AND(gg, ks.get(w, 0)) for gg, w in al)
        h = I.AND(g, kill ^ 1)
        if h:
            out.append((h, x))
        pre.append((g, x))
    return GArr(out)


def np_arange(I, a, k):
    if any(isinstance(x, Sym) for x in a):
        raise Unsupported('arange')
    return from_np(I, np.arange(*a, **k))


def np_all(I, a, k):
    v = a[0]
    if isinstance(v, (SB, bool)):
        return v
    x = as_arr(I, v)
    if x is None:
        return m_all(I, a, {})
    return arr_method(I, x, 'all', a[1:], k)


def np_any(I, a, k):
    v = a[0]
    if isinstance(v, (SB, bool)):
        return v
    x = as_arr(I, v)
    if x is None:
        return m_any(I, a, {})
    return arr_method(I, x, 'any', a[1:], k)


def np_sum(I, a, k):
    x = as_arr(I, a[0])
    if x is None:
        return m_sum(I, [a[0]], {})
    return arr_method(I, x, 'sum', a[1:], k)


def np_abs(I, a, k):
    v = a[0]
    x = as_arr(I, v) if isinstance(v, (SList, tuple, SArr, np.ndarray)) else None
    return m_abs(I, [x if x is not None else v], {})


def np_tri(f):
    def m(I, a, k):
        x = as_arr(I, a[0])
        kk = k.get('k', a[1] if len(a) > 1 else 0)
        mask = f(np.ones(x.shape, dtype=int), k=kk).ravel()
        z = np.dtype(x.dtype).type(0).item()
        return SArr([c if t else z for c, t in zip(x.c, mask)], x.shape, x.dtype, I.pc)
    return m


def np_diag(I, a, k):
    x = as_arr(I, a[0])
    if len(x.shape) == 2:
        n = min(x.shape)
        return SArr([x.c[i * x.shape[1] + i] for i in range(n)], (n,), x.dtype, I.pc)
    n = len(x.c)
    z = np.dtype(x.dtype).type(0).item()
    return SArr([x.c[i] if i == j else z for i in range(n) for j in range(n)], (n, n), x.dtype, I.pc)


def np_array_equal(I, a, k):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x is None or y is None:
        raise Unsupported('array_equal')
    if x.shape != y.shape:
        return False
    return I.mk(I.b.ands(I.eq(p, q) for p, q in zip(x.c, y.c)))


def np_concatenate(I, a, k):
    parts = I.entries(a[0])
    if any(g != 1 for g, _ in parts):
        raise Unsupported('concatenate')
    parts = [x for _, x in parts]
    for i, v in enumerate(parts):
        if isinstance(v, Union):
            return I.split(v, lambda w: np_concatenate(I, [tuple(parts[:i] + [w] + parts[i + 1:])] + a[1:], k))
    if all(isinstance(p, GArr) or (as_arr(I, p) is not None and len(as_arr(I, p).shape) == 1) for p in parts):
        e = []
        for p in parts:
            e += [tuple(t) for t in I.entries(p)]
        if all(g == 1 for g, _ in e):
            return SArr([x for _, x in e], (len(e),), dt_of([x for _, x in e]), I.pc)
        return GArr(e)
    raise Unsupported('concatenate nd')


def np_ix(I, a, k):
    lists = []
    for v in a:
        e = I.entries(v)
        if any(g != 1 for g, _ in e):
            c = [I.explode(SList([list(t) for t in I.entries(v)], I.pc) if True else v) for v in a]
            raise Unsupported('ix_ symbolic')
        lists.append([x for _, x in e])
    return np.ix_(*lists)


def np_isnan(I, a, k):
    raise Unsupported('isnan')


def np_fill_diagonal(I, a, k):
    o = a[0]
    if not isinstance(o, SArr):
        raise Unsupported('fill_diagonal')
    for i in range(min(o.shape)):
        arr_set(I, o, (i, i), a[1])


def np_copy(I, a, k):
    x = as_arr(I, a[0])
    return SArr(list(x.c), x.shape, x.dtype, I.pc)


def np_transpose(I, a, k):
    return arr_T(I, as_arr(I, a[0]))


def np_count_nonzero(I, a, k):
    x = as_arr(I, a[0])
    return I.lcount([(I.truth(c), 0) for c in x.c])


def np_logical(f):
    def m(I, a, k):
        ca, cb, sh = bcast(I, a[0], a[1])
        r = [I.mk(getattr(I.b, f)(I.truth(x), I.truth(y))) for x, y in zip(ca, cb)]
        if sh == ():
            return r[0]
        return SArr(r, sh, np.dtype(bool), I.pc)
    return m


def np_logical_not(I, a, k):
    x = as_arr(I, a[0])
    if x is None:
        return I.mk(I.truth(a[0]) ^ 1)
    return SArr([I.mk(I.truth(c) ^ 1) for c in x.c], x.shape, np.dtype(bool), I.pc)


def install(I):
    M = I.models
    M.update({
        len: m_len2, range: m_range, list: m_list, tuple: m_tuple, set: m_set, frozenset: m_frozenset, dict: m_dict,
        bool: m_bool, int: m_int, float: m_float, str: m_str, repr: m_repr, abs: m_abs, sum: m_sum, any: m_any,
        all: m_all, sorted: m_sorted, min: minmax(False), max: minmax(True), reversed: m_reversed,
        enumerate: m_enumerate, map: m_map, filter: m_filter, zip: m_zip, iter: m_iter, next: m_next,
        isinstance: m_isinstance, type: m_type, hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr,
        id: m_id, hash: m_hash, callable: m_callable, issubclass: m_issubclass, round: m_round, print: m_print,
        collections.deque: m_deque, collections.OrderedDict: m_ordereddict, collections.defaultdict: m_defaultdict,
        itertools.combinations: m_combinations, itertools.permutations: m_permutations, itertools.product: m_product,
        itertools.chain: m_chain, itertools.chain.from_iterable: m_chain_from,
        functools.reduce: m_reduce, functools.partial: m_partial,
        copy.deepcopy: m_deepcopy, copy.copy: m_copy,
        np.zeros: arr_new(0), np.ones: arr_new(1), np.empty: arr_new(0), np.full: np_full, np.zeros_like: np_zeros_like,
        np.eye: np_eye, np.identity: np_eye,
        np.array: np_array, np.asarray: np_array, np.where: np_where, np.intersect1d: np_setop('intersection'),
        np.union1d: np_setop('union'), np.setdiff1d: np_setop('difference'), np.setxor1d: np_setop('symmetric_difference'),
        np.unique: np_unique, np.delete: np_delete, np.arange: np_arange, np.all: np_all, np.any: np_any,
        np.sum: np_sum, np.abs: np_abs, np.tril: np_tri(np.tril), np.triu: np_tri(np.triu), np.diag: np_diag,
        np.array_equal: np_array_equal, np.concatenate: np_concatenate, np.ix_: np_ix, np.copy: np_copy,
        np.transpose: np_transpose, np.count_nonzero: np_count_nonzero, np.logical_and: np_logical('AND'),
        np.logical_or: np_logical('OR'), np.logical_not: np_logical_not, np.fill_diagonal: np_fill_diagonal,
        np.nonzero: np_where, np.flatnonzero: lambda I, a, k: np_where(I, [arr_method(I, as_arr(I, a[0]), 'ravel', [], {})], {})[0],
        np.isnan: np_isnan,
        operator.itemgetter: None,
    })
    M = {k: v for k, v in M.items() if v is not None}
    I.models = M
    import warnings
    import logging
    M[warnings.warn] = lambda I, a, k: None
    M[noop] = lambda I, a, k: None
    M[opaque_method] = lambda I, a, k: OPAQUE


_len0 = m_len


def m_len2(I, a, k):
    if isinstance(a[0], DItems):
        return _len0(I, [a[0].d], {})
    return _len0(I, a, k)
