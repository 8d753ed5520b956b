"""Merging (predicated) symbolic executor for the Python source in /repo.

The functions under check are found through the real, imported function
objects; their source is re-read and parsed on every run and interpreted over
guarded values, so one execution covers every value of the symbolic inputs
within the harness's bounds.  Anything without an exact encoding raises
Unsupported (never guessed).
"""
import ast
import builtins
import collections
import itertools
import inspect
import operator
import sys
import time
import types

import numpy as np

from .aig import Bools
from .values import *

sys.setrecursionlimit(200000)

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
       ast.MatMult: operator.matmul}
IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.BitOr: operator.ior,
        ast.BitAnd: operator.iand, ast.BitXor: operator.ixor}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
HEAP = (SList, SDict, SSet, SObj, SArr, GArr, SLazy, SIter)
MAXALT = 400


def _scope_names(node):
    """names local to a function body (incl. parameters), plus global/nonlocal sets"""
    names, globs, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gen = [False]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names.add(sub.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    names -= globs
    names -= nonl
    return names, globs, nonl, gen[0]


_scope_cache = {}
_src_cache = {}


def parse_file(fn):
    if fn not in _src_cache:
        with open(fn) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}

        def walk(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    lines = {c.lineno}
                    if isinstance(c, ast.FunctionDef):
                        for d in c.decorator_list:
                            lines.add(d.lineno)
                        nm = c.name
                    else:
                        nm = '<lambda>'
                    for ln in lines:
                        idx.setdefault((nm, ln), []).append((c, cls))
                    walk(c, None)
                elif isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                else:
                    walk(c, cls)
        walk(tree, None)
        _src_cache[fn] = idx
    return _src_cache[fn]


class Interp:
    def __init__(self, roots, seed=1, loop_bound=200, deadline=None):
        self.b = Bools(seed)
        self.AND, self.OR, self.sat = self.b.AND, self.b.OR, self.b.sat
        self.pc = 1
        self.sink = []
        self.roots = roots
        self.frame = None
        self.loop_bound = loop_bound
        self.functions = {}
        self.natives = set()
        self.nonterm = []
        self.fcache = {}
        self.liftmemo = {}
        self.depth = 0
        self.deadline = deadline
        self.steps = 0
        self.models = {}
        self.super_stack = []
        self.itrest = 0
        from . import models
        models.install(self)

    # ------------------------------------------------------------ guards
    def mk(self, lit):
        if lit == 0:
            return False
        if lit == 1:
            return True
        return SB(lit)

    def covers(self, birth):
        """every path in birth is in the current path condition"""
        return self.pc == birth or not self.sat(self.AND(birth, self.pc ^ 1))

    def rel(self, birth, g):
        """simplify guard g of something only reachable under birth"""
        if g == birth or not self.sat(self.AND(birth, g ^ 1)):
            return 1
        return g

    def norm(self, p, out):
        if out == p or out == 0:
            return out
        if not self.sat(self.AND(p, out ^ 1)):
            return p
        if not self.sat(out):
            return 0
        return out

    def setpc(self, pc):
        self.pc = pc
        if pc == 0 or not self.sat(pc):
            self.pc = 0
            raise Dead()

    def join(self, base, outs):
        outs = [o for o in outs if o]
        if not outs:
            self.pc = 0
            raise Dead()
        r = self.b.ors(outs)
        self.pc = self.norm(base, r)
        if self.pc == 0:
            raise Dead()

    def under(self, g, fn):
        """run fn() under pc & g; returns (ok, value, p, out)"""
        base = self.pc
        p = self.AND(base, g)
        if not self.sat(p):
            return False, None, 0, 0
        self.pc = p
        try:
            v = fn()
            out = self.pc
        except Dead:
            v = None
            out = 0
        self.pc = base
        return out != 0, v, p, out

    def throw(self, exc, g=1):
        """raise exc on the paths of pc & g"""
        p = self.AND(self.pc, g)
        if not self.sat(p):
            return
        self.sink.append((p, exc))
        self.setpc(self.AND(self.pc, g ^ 1))

    # ------------------------------------------------------------ values
    def isconc(self, v):
        if isinstance(v, Sym):
            return False
        if isinstance(v, tuple):
            return all(self.isconc(x) for x in v)
        if isinstance(v, (frozenset,)):
            return True
        return True

    def key(self, v):
        if isinstance(v, Sym):
            return ('id', id(v))
        t = type(v)
        if t in (int, str, bool, float, type(None)):
            return (t, v) if not (t is float and v == 0) else (t, repr(v))
        if isinstance(v, tuple):
            if self.isconc(v):
                try:
                    hash(v)
                    return (t, tuple(self.key(x) for x in v))
                except TypeError:
                    pass
            return ('id', id(v))
        import enum
        if isinstance(v, enum.Enum):
            return (t, v.name)
        return ('id', id(v))

    def flat(self, g, v, out):
        if g == 0:
            return
        if isinstance(v, Union):
            for h, w in v.alts:
                self.flat(self.AND(g, h), w, out)
        elif isinstance(v, SB):
            out.append((self.AND(g, v.lit), True))
            out.append((self.AND(g, v.lit ^ 1), False))
        else:
            out.append((g, v))

    def merge(self, pairs, total=None):
        """value of the exclusive guarded pairs"""
        if len(pairs) == 1:
            return pairs[0][1]
        allb = True
        for g, v in pairs:
            if not (isinstance(v, (SB, bool))):
                allb = False
                break
        if allb:
            r = 0
            for g, v in pairs:
                l = v.lit if isinstance(v, SB) else int(v)
                r = self.OR(r, self.AND(g, l))
            # do not care outside the guards
            return self.mk(r) if r > 1 or r == 0 else True
        fl = []
        for g, v in pairs:
            self.flat(g, v, fl)
        d = {}
        for g, v in fl:
            if g == 0:
                continue
            k = self.key(v)
            if k in d:
                d[k][0] = self.OR(d[k][0], g)
            else:
                d[k] = [g, v]
        alts = [(g, v) for g, v in d.values() if self.sat(g)]
        if not alts:
            return pairs[0][1]
        if len(alts) == 1:
            return alts[0][1]
        if len(alts) > MAXALT:
            raise Unsupported('too many alternatives')
        if all(isinstance(v, bool) for _, v in alts):
            for g, v in alts:
                if v is True:
                    return self.mk(g)
        return Union(tuple(alts))

    def merge2(self, g, a, b):
        """a under g, else b"""
        if a is b or g == 1:
            return a
        if g == 0:
            return b
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            la = a.lit if isinstance(a, SB) else int(a)
            lb = b.lit if isinstance(b, SB) else int(b)
            return self.mk(self.b.ITE(g, la, lb))
        return self.merge([(g, a), (g ^ 1, b)])

    def alts(self, v):
        """feasible alternatives of v under pc: list of (guard, non-Union value)"""
        if isinstance(v, Union):
            r = []
            for g, w in v.alts:
                if self.sat(self.AND(self.pc, g)):
                    r.append((g, w))
            if not r:
                raise Dead()
            if len(r) == 1:
                return [(1, r[0][1])]
            return r
        if isinstance(v, SB):
            t = self.sat(self.AND(self.pc, v.lit))
            f = self.sat(self.AND(self.pc, v.lit ^ 1))
            if t and f:
                return [(v.lit, True), (v.lit ^ 1, False)]
            return [(1, True)] if t else [(1, False)]
        return [(1, v)]

    def split(self, v, fn):
        """apply fn to every feasible alternative of v under its guard; merge"""
        if not isinstance(v, (Union, SB)):
            return fn(v)
        al = self.alts(v)
        if len(al) == 1:
            return fn(al[0][1])
        base = self.pc
        res, outs, full = [], [], True
        for g, w in al:
            p = self.AND(base, g)
            self.pc = p
            try:
                r = fn(w)
                out = self.pc
            except Dead:
                full = False
                continue
            res.append((g, r))
            outs.append(out)
            if out != p:
                full = False
        if full:
            self.pc = base
        else:
            self.join(base, outs)
        return self.merge(res)

    def splitu(self, v, fn):
        """like split but leaves SB alone"""
        return self.split(v, fn) if isinstance(v, Union) else fn(v)

    def splitn(self, vs, fn):
        """fn(list of alternatives) for all combinations"""
        for i, v in enumerate(vs):
            if isinstance(v, (Union, SB)):
                return self.split(v, lambda w: self.splitn(vs[:i] + [w] + vs[i + 1:], fn))
        return fn(vs)

    def truth(self, v):
        """literal of bool(v)"""
        if v is True:
            return 1
        if v is False or v is None:
            return 0
        if isinstance(v, SB):
            return v.lit
        if isinstance(v, Union):
            r = 0
            for g, w in self.alts(v):
                if isinstance(w, SObj):
                    w2 = self.split(v, lambda x: self.mk(self.truth(x)))
                    return w2.lit if isinstance(w2, SB) else int(w2)
                r = self.OR(r, self.AND(g, self.truth(w)))
            return r
        if isinstance(v, SList):
            return self.b.ors(g for g, _ in v.e)
        if isinstance(v, SSet):
            return self.b.ors(v.m.values())
        if isinstance(v, SDict):
            return self.b.ors(s[1] for s in v.s)
        if isinstance(v, SObj):
            m = self.lookup_cls(v.cls, '__bool__')
            if m is not None:
                return self.truth(self.call(Bound(self.tofunc(m), v), [], {}))
            m = self.lookup_cls(v.cls, '__len__')
            if m is not None:
                r = self.call(Bound(self.tofunc(m), v), [], {})
                return self.truth(r)
            return 1
        if isinstance(v, SArr):
            if len(v.c) == 1:
                return self.truth(v.c[0])
            if len(v.c) == 0:
                return 0
            self.throw(ValueError('The truth value of an array with more than one element is ambiguous'))
        if isinstance(v, (SFunc, Bound, NatMethod, SLazy, SIter)):
            return 1
        if isinstance(v, Sym):
            raise Unsupported('truth of %r' % (type(v),))
        if isinstance(v, tuple):
            return int(len(v) > 0)
        try:
            return int(bool(v))
        except Exception as ex:
            self.throw(ex)

    def eq(self, a, b):
        """literal of a == b"""
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            la = a.lit if isinstance(a, SB) else int(a)
            lb = b.lit if isinstance(b, SB) else int(b)
            return self.b.IFF(la, lb)
        if isinstance(a, (SB, Union)) or isinstance(b, (SB, Union)):
            r = 0
            for ga, va in self.alts(a):
                for gb, vb in self.alts(b):
                    g = self.AND(ga, gb)
                    if g == 0:
                        continue
                    r = self.OR(r, self.AND(g, self.eq(va, vb)))
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return 0
            return self.b.ands(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, HEAP) and isinstance(b, (list, dict, collections.deque)):
            b = self.lift(b)
        elif isinstance(b, HEAP) and isinstance(a, (list, dict, collections.deque)):
            a = self.lift(a)
        if isinstance(a, SList) and a.kind == 'tuple' and isinstance(b, tuple):
            return self.seqeq(a.e, [[1, x] for x in b])
        if isinstance(b, SList) and b.kind == 'tuple' and isinstance(a, tuple):
            return self.seqeq([[1, x] for x in a], b.e)
        if isinstance(a, SList) and isinstance(b, SList):
            if a.kind != b.kind:
                return 0
            return self.seqeq(a.e, b.e)
        if isinstance(a, SSet) or isinstance(b, SSet):
            a2, b2 = self.asset(a), self.asset(b)
            if a2 is None or b2 is None:
                return 0
            return self.b.ands(self.b.IFF(a2.get(k, 0), b2.get(k, 0)) for k in {**a2, **b2})
        if isinstance(a, SDict) and isinstance(b, SDict):
            r = 1
            for k in {**a.idx, **b.idx}:
                pa, pb = self.dhas(a, k), self.dhas(b, k)
                r = self.AND(r, self.b.IFF(pa, pb))
                both = self.AND(pa, pb)
                if both:
                    ne = 0
                    for s in a.idx[k]:
                        for t in b.idx[k]:
                            g = self.AND(s[1], t[1])
                            if g:
                                ne = self.OR(ne, self.AND(g, self.eq(s[2], t[2]) ^ 1))
                    r = self.AND(r, ne ^ 1)
            return r
        if isinstance(a, SObj) or isinstance(b, SObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SObj):
                    m = self.lookup_cls(x.cls, '__eq__')
                    if m is not None and isinstance(m, types.FunctionType):
                        return self.truth(self.call(Bound(self.tofunc(m), x), [y], {}))
            return int(a is b)
        if isinstance(a, (SFunc,)) or isinstance(b, (SFunc,)):
            return int(a is b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return int(a.fn is b.fn and a.self is b.self)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, HEAP) and not isinstance(b, Sym) and not isinstance(b, np.ndarray):
                return 0
            if isinstance(b, HEAP) and not isinstance(a, Sym) and not isinstance(a, np.ndarray):
                return 0
            if isinstance(a, HEAP) and isinstance(b, HEAP) and type(a) != type(b) and \
                    not isinstance(a, (SArr, GArr)) and not isinstance(b, (SArr, GArr)):
                return 0
            raise Unsupported('== of %s and %s' % (type(a), type(b)))
        try:
            return int(bool(a == b))
        except Exception as ex:
            self.throw(ex)

    def asset(self, v):
        if isinstance(v, SSet):
            return v.m
        if isinstance(v, (set, frozenset)):
            return {k: 1 for k in v}
        return None

    def seqeq(self, ea, eb):
        memo = {}
        na, nb = len(ea), len(eb)

        def E(i, j):
            k = (i, j)
            if k in memo:
                return memo[k]
            if i == na and j == nb:
                r = 1
            elif i == na:
                r = self.b.ands(g ^ 1 for g, _ in eb[j:])
            elif j == nb:
                r = self.b.ands(g ^ 1 for g, _ in ea[i:])
            else:
                gi, gj = ea[i][0], eb[j][0]
                r = 0
                if gi != 0 and gj != 0:
                    e = self.eq(ea[i][1], eb[j][1])
                    if e:
                        r = self.AND(e, E(i + 1, j + 1))
                if gj != 1:
                    r = self.b.ITE(gj, r, E(i, j + 1))
                if gi != 1:
                    r = self.b.ITE(gi, r, E(i + 1, j))
            memo[k] = r
            return r
        return E(0, 0)

    # ---------------------------------------------- native <-> symbolic
    def lift(self, v):
        """native value -> interpreter value (mutable containers become S-containers)"""
        if isinstance(v, Sym) or v is None or isinstance(v, (bool, int, float, str)):
            return v
        t = type(v)
        if t in (list, dict, set) or t in (collections.deque, collections.OrderedDict, collections.defaultdict):
            k = id(v)
            if k in self.liftmemo:
                return self.liftmemo[k][1]
            if t in (list, collections.deque):
                r = SList([], 1, 'deque' if t is collections.deque else 'list')
                self.liftmemo[k] = (v, r)
                r.e = [[1, self.lift(x)] for x in v]
            elif t is set:
                r = SSet(1)
                self.liftmemo[k] = (v, r)
                for x in v:
                    r.m[x] = 1
            else:
                r = SDict(1)
                r.kind = t
                if t is collections.defaultdict:
                    r.default = v.default_factory
                self.liftmemo[k] = (v, r)
                for kk, x in v.items():
                    s = [kk, 1, self.lift(x)]
                    r.s.append(s)
                    r.idx.setdefault(kk, []).append(s)
            return r
        if t is tuple:
            return tuple(self.lift(x) for x in v)
        if isinstance(v, type) or isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            return v
        if self.owncls(t) and not self.builtin_based(t) and hasattr(v, '__dict__'):
            k = id(v)
            if k in self.liftmemo:
                return self.liftmemo[k][1]
            o = SObj(t, 1)
            self.liftmemo[k] = (v, o)
            for n, x in v.__dict__.items():
                o.a[n] = self.lift(x)
            return o
        return v

    def fresh(self, v):
        """lift a native value freshly returned by a native call (no aliasing memo)"""
        r = self._fresh(v)
        return r

    def _fresh(self, v):
        t = type(v)
        if t is list or t is collections.deque:
            return SList([[1, self._fresh(x)] for x in v], self.pc, 'list' if t is list else 'deque')
        if t is dict:
            d = SDict(self.pc)
            for k, x in v.items():
                s = [k, 1, self._fresh(x)]
                d.s.append(s)
                d.idx.setdefault(k, []).append(s)
            return d
        if t is set:
            s = SSet(self.pc)
            for x in v:
                s.m[x] = 1
            return s
        if t is tuple:
            return tuple(self._fresh(x) for x in v)
        if t is np.ndarray and v.dtype != object:
            return SArr([x.item() for x in v.ravel()], v.shape, v.dtype, self.pc)
        if isinstance(v, np.generic):
            return v.item()
        return v

    def explode(self, v, cap=300):
        """list of (guard, native value) covering v under pc"""
        if isinstance(v, (Union, SB)):
            r = []
            base = self.pc
            for g, w in self.alts(v):
                self.pc = self.AND(base, g)
                for h, x in self.explode(w, cap):
                    r.append((self.AND(g, h), x))
                self.pc = base
            if len(r) > cap:
                raise Unsupported('explode cap')
            return r
        if isinstance(v, tuple):
            out = [(1, ())]
            base = self.pc
            for x in v:
                nout = []
                for g, pre in out:
                    self.pc = self.AND(base, g)
                    for h, y in self.explode(x, cap):
                        gg = self.AND(g, h)
                        if g == 1 or h == 1 or self.sat(self.AND(base, gg)):
                            nout.append((gg, pre + (y,)))
                    self.pc = base
                out = nout
                if len(out) > cap:
                    raise Unsupported('explode cap')
            if type(v) is not tuple:
                out = [(g, self.retuple(type(v), t)) for g, t in out]
            return out
        if isinstance(v, (SList, GArr)):
            out = [(1, ())]
            base = self.pc
            for g0, x in v.e:
                nout = []
                for g, pre in out:
                    bp = self.AND(base, g)
                    p1 = self.AND(bp, g0)
                    if self.sat(p1):
                        self.pc = p1
                        full = not self.sat(self.AND(bp, g0 ^ 1))
                        for h, y in self.explode(x, cap):
                            nout.append((self.AND(g, h) if full else self.AND(g, self.AND(g0, h)), pre + (y,)))
                        if not full:
                            nout.append((self.AND(g, g0 ^ 1), pre))
                    else:
                        nout.append((g, pre))
                    self.pc = base
                out = nout
                if len(out) > cap:
                    raise Unsupported('explode cap')
            f = np.array if isinstance(v, GArr) else (collections.deque if v.kind == 'deque' else list)
            return [(g, f(list(t)) if f is not np.array else np.array(list(t), dtype=int)) for g, t in out]
        if isinstance(v, SSet):
            l = SList([[g, k] for k, g in v.m.items()], v.birth)
            return [(g, v.kind(x)) for g, x in self.explode(l, cap)]
        if isinstance(v, SDict):
            l = SList([[g, (k, x)] for k, g, x in v.s], v.birth)
            return [(g, v.kind(x) if v.kind in (dict, collections.OrderedDict) else dict(x)) for g, x in self.explode(l, cap)]
        if isinstance(v, SArr):
            return [(g, np.array(list(t), dtype=v.dtype).reshape(v.shape)) for g, t in self.explode(tuple(v.c), cap)]
        if isinstance(v, Sym):
            raise Unsupported('explode %s' % type(v).__name__)
        return [(1, v)]

    def retuple(self, t, vals):
        if hasattr(t, '_make'):
            return tuple.__new__(t, vals)
        return t(vals)

    def keyalts(self, v):
        """hashable concrete keys of v under pc"""
        if isinstance(v, (int, str)) or v is None:
            return [(1, v)]
        if isinstance(v, (SList, SDict, SSet)) and not (isinstance(v, SSet) and v.kind is frozenset):
            self.throw(TypeError('unhashable type'))
        if isinstance(v, SObj):
            self.chkhash(v)
            return [(1, v)]
        if isinstance(v, (Union, tuple, SB)) or isinstance(v, SSet):
            if isinstance(v, tuple) and self.isconc(v):
                return [(1, v)]
            r = []
            if isinstance(v, Union):
                for g, w in self.alts(v):
                    if isinstance(w, SObj):
                        self.chkhash(w)
                        r.append((g, w))
                    elif isinstance(w, tuple) and not self.isconc(w):
                        r += [(self.AND(g, h), x) for h, x in self.explode(w)]
                    elif isinstance(w, Sym):
                        raise Unsupported('key %s' % type(w))
                    else:
                        r.append((g, w))
                return r
            return self.explode(v)
        if isinstance(v, Sym):
            raise Unsupported('key of type %s' % type(v).__name__)
        try:
            hash(v)
        except TypeError as ex:
            self.throw(ex)
        return [(1, v)]

    def chkhash(self, o):
        if self.lookup_cls(o.cls, '__eq__') is not None and isinstance(self.lookup_cls(o.cls, '__eq__'), types.FunctionType):
            raise Unsupported('hash of object with __eq__')

    # ------------------------------------------------------------ dicts
    def dhas(self, d, k):
        sl = d.idx.get(k)
        if not sl:
            return 0
        if len(sl) == 1:
            return sl[0][1]
        return self.b.ors(s[1] for s in sl)

    def dget(self, d, k, missing):
        """value under concrete key; missing() called under the absent guard"""
        sl = [s for s in d.idx.get(k, ()) if s[1] == 1 or self.sat(self.AND(self.pc, s[1]))]
        if len(sl) == 1 and (sl[0][1] == 1 or not self.sat(self.AND(self.pc, sl[0][1] ^ 1))):
            return sl[0][2]
        pres = self.b.ors(s[1] for s in sl)
        pairs = [(s[1], s[2]) for s in sl]
        p = self.AND(self.pc, pres ^ 1)
        if self.sat(p):
            base = self.pc
            self.pc = p
            try:
                v = missing()
                out = self.pc
                pairs.append((pres ^ 1, v))
            except Dead:
                out = 0
            if out != p:
                self.join(base, [self.AND(base, pres), out])
            else:
                self.pc = base
        return self.merge(pairs)

    def dset(self, d, k, v):
        sl = d.idx.get(k)
        pres = 0
        if sl:
            for s in sl:
                if self.sat(self.AND(self.pc, s[1])):
                    s[2] = v if self.covers(self.AND(d.birth, s[1])) else self.merge2(self.pc, v, s[2])
            pres = self.dhas(d, k)
        new = self.AND(self.pc, pres ^ 1)
        if self.sat(new):
            d.mut_ins = self.OR(d.mut_ins, new)
            g = self.rel(d.birth, new)
            # an adjacent last slot of the same key can be extended
            if sl and d.s and d.s[-1][0] is sl[-1][0] and d.s[-1] is sl[-1]:
                s = d.s[-1]
                s[2] = self.merge2(new, v, s[2]) if s[1] else v
                s[1] = self.rel(d.birth, self.OR(s[1], g))
            else:
                s = [k, g, v]
                d.s.append(s)
                d.idx.setdefault(k, []).append(s)

    def ddel(self, d, k):
        """delete k where present under pc"""
        sl = d.idx.get(k)
        if not sl:
            return
        for s in list(sl):
            g = self.AND(self.pc, s[1])
            if self.sat(g):
                d.mut_del = self.OR(d.mut_del, g)
                s[1] = self.AND(s[1], self.pc ^ 1)
                if s[1] == 0 or not self.sat(self.AND(d.birth, s[1])):
                    s[1] = 0
                    d.s.remove(s) if False else self._rmslot(d, s, sl)

    def _rmslot(self, d, s, sl):
        for i, t in enumerate(d.s):
            if t is s:
                del d.s[i]
                break
        for i, t in enumerate(sl):
            if t is s:
                del sl[i]
                break

    # ------------------------------------------------------------ lists
    def lcount(self, e):
        """Union of the number of present entries"""
        if all(g == 1 for g, _ in e):
            return len(e)
        cnt = [1]
        base = 0
        for g, _ in e:
            if g == 1:
                base += 1
                continue
            n = len(cnt)
            new = [0] * (n + 1)
            for i, c in enumerate(cnt):
                new[i] = self.OR(new[i], self.AND(c, g ^ 1))
                new[i + 1] = self.OR(new[i + 1], self.AND(c, g))
            while len(new) > 1 and new[-1] == 0:
                new.pop()
            cnt = new
        return self.merge([(c, base + i) for i, c in enumerate(cnt) if c])

    def lget(self, e, i):
        """element at concrete index i"""
        if all(g == 1 for g, _ in e):
            try:
                return e[i][1]
            except IndexError:
                self.throw(IndexError('list index out of range'))
        ents = e if i >= 0 else e[::-1]
        k = i if i >= 0 else -i - 1
        # cnt[c] = guard that exactly c present entries have been seen (c<=k)
        cnt = [1] + [0] * k
        pairs = []
        found = 0
        for g, v in ents:
            hit = self.AND(cnt[k], g)
            if hit and self.sat(self.AND(self.pc, hit)):
                pairs.append((hit, v))
                found = self.OR(found, hit)
            for c in range(k, -1, -1):
                cnt[c] = self.OR(self.AND(cnt[c], g ^ 1), self.AND(cnt[c - 1], g) if c else 0)
            if cnt[k] == 0 and all(x == 0 for x in cnt):
                break
        self.throw(IndexError('list index out of range'), found ^ 1)
        return self.merge(pairs)

    def lappend(self, l, v):
        g = self.rel(l.birth, self.pc)
        l.e.append([g, v])

    def ladddirty(self, l):
        l.rm = self.OR(l.rm, self.pc)

    def lrmentry(self, l, ent, g):
        """remove entry under guard g"""
        ent[0] = self.AND(ent[0], g ^ 1)
        if ent[0] == 0 or not self.sat(self.AND(l.birth, ent[0])):
            for i, t in enumerate(l.e):
                if t is ent:
                    del l.e[i]
                    break

    # ------------------------------------------------------------ iterate
    def entries(self, v):
        """guarded entries of a container-like value, or None if it must be run lazily"""
        if isinstance(v, (SList, GArr)):
            return v.e
        if isinstance(v, tuple):
            return [(1, x) for x in v]
        if isinstance(v, SSet):
            order = list(v.kind(v.m.keys())) if len(v.m) else []
            return [(v.m[k], k) for k in order]
        if isinstance(v, SDict):
            return [(s[1], s[0]) for s in v.s]
        if isinstance(v, SArr):
            if len(v.shape) == 1:
                return [(1, x) for x in v.c]
            return [(1, self.arr_row(v, i)) for i in range(v.shape[0])]
        if isinstance(v, (range, str, frozenset, dict, set, list)):
            return [(1, x) for x in v]
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return [(1, x) for x in v]
        if isinstance(v, np.ndarray):
            return [(1, self._fresh(x) if v.ndim > 1 else x.item() if isinstance(x, np.generic) else x) for x in v]
        if isinstance(v, type) and issubclass(v, __import__('enum').Enum):
            return [(1, x) for x in v]
        return None

    def arr_row(self, a, i):
        n = 1
        for s in a.shape[1:]:
            n *= s
        return SArr(a.c[i * n:(i + 1) * n], a.shape[1:], a.dtype, a.birth, view=True)

    def iterate(self, v, cb):
        if isinstance(v, Union):
            base = self.pc
            outs = []
            al = self.alts(v)
            if len(al) == 1:
                return self.iterate(al[0][1], cb)
            for g, w in al:
                p = self.AND(base, g)
                self.pc = p
                srest = self.itrest
                self.itrest = self.OR(srest, base)
                try:
                    self.iterate(w, cb)
                    outs.append(self.pc)
                except Dead:
                    pass
                finally:
                    self.itrest = srest
            self.join(base, outs)
            return
        if isinstance(v, SLazy):
            if v.part and self.sat(self.AND(self.pc, v.part)):
                raise Unsupported('re-iterating a partially consumed iterator')
            base = self.pc
            p = self.AND(base, v.done ^ 1)
            if not self.sat(p):
                return
            skip = self.AND(base, v.done)
            v.part = self.OR(v.part, p)
            self.pc = p
            out = 0
            srest = self.itrest
            rest = srest if v.tag in ('combinations', 'enumerate_pure', 'enumerate') and skip == 0 else self.OR(srest, base)

            def cbr(x):
                s2 = self.itrest
                self.itrest = self.OR(s2, rest)
                try:
                    cb(x)
                finally:
                    self.itrest = s2
            try:
                v.run(cbr)
                out = self.pc
            except Dead:
                pass
            finally:
                self.itrest = srest
            if out:
                v.part = self.AND(v.part, out ^ 1)
                v.done = self.OR(v.done, out)
            self.join(base, [out, skip])
            return
        if isinstance(v, SIter):
            if v.pos:
                raise Unsupported('iterating an iterator after next()')
            return self.iterate(v.src, cb)
        if isinstance(v, SObj):
            m = self.lookup_cls(v.cls, '__iter__')
            if m is None:
                self.throw(TypeError('object is not iterable'))
            return self.iterate(self.call(Bound(self.tofunc(m), v), [], {}), cb)
        from . import models
        if isinstance(v, models.DItems):
            md, mode = v.d, v.mode
            cb0 = cb
            if mode == 'i':
                cb = lambda s: cb0((s[0], s[2]))
            else:
                cb = lambda s: cb0(s[2])
            ents = [(s[1], s) for s in md.s]
            v = md
        else:
            ents = self.entries(v)
        if ents is None:
            if isinstance(v, (SB, Opaque, SFunc, Bound)):
                raise Unsupported('iterating %s' % type(v).__name__)
            if isinstance(v, (itertools.combinations, itertools.permutations, itertools.product, map, filter, zip,
                              enumerate, itertools.chain)) or inspect.isgenerator(v):
                ents = [(1, x) for x in v]
            else:
                try:
                    iter(v)
                except TypeError as ex:
                    self.throw(ex)
                raise Unsupported('iterating %s' % type(v).__name__)
        dyn = isinstance(v, SList)
        dd = isinstance(v, (SDict, SSet))
        if isinstance(v, SDict):
            i0, d0 = v.mut_ins, v.mut_del
            v.mut_ins = v.mut_del = 0
        elif isinstance(v, SSet):
            i0 = v.mut
            v.mut = 0
        elif dyn:
            r0 = v.rm
            v.rm = 0
            lst = v.e
            ents = list(lst)
            nlen, rmcount = len(lst), 0
        live = self.pc
        i = 0
        try:
            while True:
                if dyn:
                    if v.e is not lst:
                        raise Unsupported('list replaced during iteration')
                    if v.rm and self.sat(self.AND(live, v.rm)):
                        raise Unsupported('list shrunk during iteration')
                if dd:
                    mi = v.mut if isinstance(v, SSet) else self.OR(v.mut_ins, v.mut_del)
                    if mi and self.sat(self.AND(live, mi)):
                        if isinstance(v, SDict) and self.sat(self.AND(live, self.AND(v.mut_ins, v.mut_del))):
                            raise Unsupported('dict grown and shrunk during iteration')
                        self.pc = live
                        self.throw(RuntimeError('container changed size during iteration'), mi)
                        live = self.pc
                if dyn and (len(v.e) != nlen or rmcount != v.rm):
                    ids = {id(e) for e in ents[:i]}
                    ents = ents[:i] + [e for e in v.e if id(e) not in ids]
                    nlen, rmcount = len(v.e), v.rm
                if i >= len(ents):
                    break
                g, x = ents[i]
                i += 1
                p = self.AND(live, g)
                if g != 1 and not self.sat(p):
                    continue
                if g != 1 and p != live and not self.sat(self.AND(live, g ^ 1)):
                    p = live
                self.pc = p
                srest = self.itrest
                if p != live:
                    self.itrest = self.OR(srest, live)
                try:
                    cb(x)
                    out = self.norm(p, self.pc)
                except Dead:
                    out = 0
                finally:
                    self.itrest = srest
                if out != p:
                    if p == live:
                        live = out
                    else:
                        rest = self.AND(live, g ^ 1)
                        live = self.OR(rest, out) if self.sat(rest) else out
                    if live == 0 or not self.sat(live):
                        raise Dead()
        finally:
            if isinstance(v, SDict):
                v.mut_ins, v.mut_del = self.OR(i0, v.mut_ins), self.OR(d0, v.mut_del)
            elif isinstance(v, SSet):
                v.mut = self.OR(i0, v.mut)
            elif dyn:
                v.rm = self.OR(r0, v.rm)
        self.pc = live

    def tolist(self, v):
        """materialise an iterable into guarded entries"""
        out = []
        birth = self.pc

        def cb(x):
            out.append([self.rel(birth, self.pc), x])
        self.iterate(v, cb)
        return out

    # ------------------------------------------------------------ classes
    def owncls(self, t):
        f = getattr(sys.modules.get(getattr(t, '__module__', None)), '__file__', None)
        return f is not None and self.own(f)

    def own(self, f):
        return any(f.startswith(r) for r in self.roots)

    def builtin_based(self, t):
        for c in t.__mro__[1:]:
            if c is object:
                continue
            if not self.owncls(c):
                return True
        return False

    def lookup_cls(self, cls, name):
        for c in cls.__mro__:
            if c is object:
                return None
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def tofunc(self, f):
        """native python function -> SFunc"""
        if isinstance(f, SFunc):
            return f
        if f in self.fcache:
            return self.fcache[f]
        fn = f.__code__.co_filename
        idx = parse_file(fn)
        c = idx.get((f.__name__ if f.__code__.co_name != '<lambda>' else '<lambda>', f.__code__.co_firstlineno)) or \
            idx.get((f.__code__.co_name, f.__code__.co_firstlineno))
        if not c or len(c) != 1:
            raise Unsupported('cannot locate source of %s' % f)
        node, _ = c[0]
        env = Env(None, set())
        if f.__closure__:
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                env.names.add(n)
                try:
                    env.v[n] = self.lift(cell.cell_contents)
                except ValueError:
                    pass
        s = self.mkfunc(node, env, f.__globals__, f.__qualname__)
        s.defaults = [self.lift(x) for x in (f.__defaults__ or ())]
        s.kwdefaults = {k: self.lift(x) for k, x in (f.__kwdefaults__ or {}).items()}
        self.fcache[f] = s
        return s

    def mkfunc(self, node, env, glob, qual):
        s = SFunc()
        s.node = node
        s.env = env
        s.glob = glob
        s.defaults = []
        s.kwdefaults = {}
        s.name = getattr(node, 'name', '<lambda>')
        s.qual = qual
        k = id(node)
        if k not in _scope_cache:
            _scope_cache[k] = (node, _scope_names(node))
        s.locals = _scope_cache[k][1]
        s.isgen = s.locals[3]
        s.attrs = {}
        return s

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Union):
            return self.split(f, lambda w: self.call(w, args, kwargs))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, SFunc):
            return self.call_sfunc(f, list(args), kwargs)
        if isinstance(f, NatMethod):
            from . import models
            return models.method(self, f.obj, f.name, list(args), kwargs)
        if isinstance(f, SObj):
            m = self.lookup_cls(f.cls, '__call__')
            if m is None:
                self.throw(TypeError('object is not callable'))
            return self.call(Bound(self.tofunc(m), f), args, kwargs)
        if isinstance(f, Sym):
            raise Unsupported('call of %s' % type(f).__name__)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, list(args), kwargs)
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, types.FunctionType) and self.own(f.__func__.__code__.co_filename):
                return self.call(self.tofunc(f.__func__), [self.lift(f.__self__)] + list(args), kwargs)
        if isinstance(f, types.FunctionType) and self.own(f.__code__.co_filename):
            return self.call_sfunc(self.tofunc(f), list(args), kwargs)
        if isinstance(f, type) and self.owncls(f):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, staticmethod):
            return self.call(f.__func__, args, kwargs)
        return self.native_call(f, list(args), kwargs)

    SAFE = ('builtins', 'math', 'numpy', 'itertools', 'operator', '_operator', 'collections', 'string', 'functools',
            '_collections', 'cmath', 'fractions', 'decimal', 'enum')

    def native_call(self, f, args, kwargs):
        mod = getattr(f, '__module__', None)
        if mod is None:
            mod = type(getattr(f, '__self__', None)).__module__
        nm = getattr(f, '__qualname__', repr(f))
        if not (mod.split('.')[0] in self.SAFE or (isinstance(f, type) and issubclass(f, BaseException))
                or (isinstance(f, type) and self.owncls(f))):
            raise Unsupported('native call %s.%s' % (mod, nm))
        self.natives.add('%s.%s' % (mod, nm))
        ks = list(kwargs)
        args = list(args)
        args = [SList([list(e) for e in self.tolist(a)], self.pc) if isinstance(a, SLazy) else a for a in args]
        if isinstance(f, type) and issubclass(f, BaseException):
            args = ['' if not self.isconc(a) or isinstance(a, Sym) else a for a in args]
        combos = self.explode(tuple(args) + tuple(kwargs[k] for k in ks))

        def one(t):
            try:
                r = f(*t[:len(args)], **dict(zip(ks, t[len(args):])))
            except Unsupported:
                raise
            except Exception as ex:
                self.throw(ex)
            return self._fresh(r)
        if len(combos) == 1:
            return one(combos[0][1])
        base = self.pc
        res, outs = [], []
        for g, t in combos:
            p = self.AND(base, g)
            if not self.sat(p):
                continue
            self.pc = p
            try:
                res.append((g, one(t)))
                outs.append(self.pc)
            except Dead:
                pass
        self.join(base, outs)
        return self.merge(res)

    def instantiate(self, cls, args, kwargs):
        import enum
        if issubclass(cls, BaseException) or self.builtin_based(cls):
            if issubclass(cls, (tuple, enum.Enum, int, str, float, BaseException)):
                return self.native_call(cls, list(args), kwargs)
            raise Unsupported('class %s with a builtin base' % cls)
        if self.lookup_cls(cls, '__new__') is not None:
            raise Unsupported('__new__ in %s' % cls)
        if type(cls) is not type:
            raise Unsupported('metaclass of %s' % cls)
        o = SObj(cls, self.pc)
        init = self.lookup_cls(cls, '__init__')
        if init is not None:
            self.call(Bound(self.tofunc(init), o), args, kwargs)
        elif args or kwargs:
            self.throw(TypeError('%s() takes no arguments' % cls.__name__))
        return o

    def call_sfunc(self, f, args, kwargs):
        # split on small concrete alternatives
        for i, a in enumerate(args):
            if isinstance(a, Union) and len(a.alts) <= 64 and all(
                    isinstance(v, (int, str, tuple, float)) or v is None or v is UNBOUND for _, v in a.alts):
                return self.split(a, lambda w: self.call_sfunc(f, args[:i] + [w] + args[i + 1:], kwargs))
        env = Env(f.env, f.locals[0])
        self.bind(f, env, args, kwargs)

        def mkframe(env):
            fr = Frame()
            fr.fn = f
            fr.env = env
            fr.glob = f.glob
            fr.globs = f.locals[1]
            fr.nonloc = f.locals[2]
            fr.first = args[0] if args else None
            return fr
        if not f.isgen:
            return self.run_frame(mkframe(env), f)

        def run(cb):
            consumer = self.frame
            env2 = Env(f.env, f.locals[0])
            env2.v.update(env.v)
            fr = mkframe(env2)
            csink = self.sink

            def ycb(v):
                gframe, gsink = self.frame, self.sink
                self.frame, self.sink = consumer, csink
                try:
                    cb(v)
                finally:
                    self.frame, self.sink = gframe, gsink
            fr.ycb = ycb
            self.run_frame(fr, f)
        return SLazy(run, f.qual)

    def run_frame(self, fr, f):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the encoder exhausted')
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported('recursion depth')
        mod = f.glob.get('__name__', '?')
        if not mod.startswith('harness'):
            self.functions[mod + '.' + f.qual] = self.functions.get(mod + '.' + f.qual, 0) + 1
        saved = self.frame
        self.frame = fr
        entry = self.pc
        fr.live = entry
        node = f.node
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(node.body)
                return r
            try:
                self.body(node.body)
                if self.pc:
                    fr.rets.append((self.pc, None))
            except Dead:
                pass
            if not fr.rets:
                self.pc = 0
                raise Dead()
            if len(fr.rets) == 1:
                self.pc = fr.rets[0][0]
                return fr.rets[0][1]
            self.join(entry, [g for g, _ in fr.rets])
            return self.merge(fr.rets)
        finally:
            self.frame = saved
            self.depth -= 1

    def bind(self, f, env, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        v = env.v
        kwargs = dict(kwargs)
        n = len(pos)
        if len(args) > n and not a.vararg:
            self.throw(TypeError('%s() takes %d positional arguments but %d were given' % (f.name, n, len(args))))
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kwargs and p not in a.posonlyargs:
                    self.throw(TypeError("%s() got multiple values for argument '%s'" % (f.name, p.arg)))
                v[p.arg] = args[i]
            elif p.arg in kwargs and p not in a.posonlyargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif i >= n - nd:
                v[p.arg] = f.defaults[i - (n - nd)]
            else:
                self.throw(TypeError("%s() missing required argument: '%s'" % (f.name, p.arg)))
        if a.vararg:
            v[a.vararg.arg] = tuple(args[n:])
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                v[p.arg] = f.kwdefaults[p.arg]
            else:
                self.throw(TypeError("%s() missing keyword-only argument '%s'" % (f.name, p.arg)))
        if a.kwarg:
            d = SDict(self.pc)
            for k, x in kwargs.items():
                self.dset(d, k, x)
            v[a.kwarg.arg] = d
        elif kwargs:
            self.throw(TypeError("%s() got an unexpected keyword argument '%s'" % (f.name, list(kwargs)[0])))

    # ------------------------------------------------------------ names
    def load(self, name):
        fr = self.frame
        if name not in fr.globs:
            e = fr.env
            while e is not None:
                if name in e.names:
                    if name in e.v:
                        v = e.v[name]
                        if isinstance(v, Union):
                            for g, w in v.alts:
                                if w is UNBOUND:
                                    if self.sat(self.AND(self.pc, g)):
                                        self.throw(UnboundLocalError(name), g)
                                    al = tuple((h, x) for h, x in v.alts if x is not UNBOUND)
                                    if len(al) == 1:
                                        return al[0][1]
                                    if all(isinstance(x, bool) for _, x in al):
                                        return self.merge(list(al))
                                    return Union(al)
                        if v is UNBOUND:
                            self.throw(UnboundLocalError(name))
                        return v
                    self.throw(UnboundLocalError("cannot access local variable '%s'" % name))
                e = e.parent
        g = fr.glob
        if name in g:
            return self.lift(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError("name '%s' is not defined" % name))

    def store(self, name, val):
        fr = self.frame
        if name in fr.globs:
            raise Unsupported('assignment to a global')
        e = fr.env
        while e is not None and name not in e.names:
            e = e.parent
        if e is None:
            raise Unsupported('store to %s' % name)
        if e is fr.env and (e.direct or self.pc == fr.live or not self.sat(self.AND(fr.live, self.pc ^ 1))):
            e.v[name] = val
            return
        old = e.v.get(name, UNBOUND)
        e.v[name] = self.merge2(self.pc, val, old)

    # ------------------------------------------------------------ statements
    def body(self, stmts):
        fr = self.frame
        for s in stmts:
            # paths on which the values of this frame's variables still matter
            live = self.OR(self.pc, fr.others)
            for L in fr.loops:
                for x in L[0]:
                    live = self.OR(live, x)
                for x in L[1]:
                    live = self.OR(live, x)
            fr.live = live
            self.st(s)
            if self.pc == 0:
                raise Dead()

    def st(self, n):
        self.steps += 1
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        return m(n)

    def x_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value)

    def x_Pass(self, n):
        pass

    def x_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def x_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.splitu(o, lambda w: self.setattr(w, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_slice(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assign target')

    def unpack(self, elts, v):
        if isinstance(v, Union):
            # componentwise merge of equal-length tuples
            al = self.alts(v)
            if all(isinstance(w, tuple) and len(w) == len(elts) for _, w in al) and \
                    not any(isinstance(e, ast.Starred) for e in elts):
                for i, e in enumerate(elts):
                    self.assign(e, self.merge([(g, w[i]) for g, w in al]))
                return
            base = self.pc
            outs = []
            for g, w in al:
                self.pc = self.AND(base, g)
                try:
                    self.unpack(elts, w)
                    outs.append(self.pc)
                except Dead:
                    pass
            self.join(base, outs)
            return
        if isinstance(v, tuple):
            vals = list(v)
        else:
            ents = self.tolist(v)
            if any(g != 1 for g, _ in ents):
                def one(w):
                    self.unpack(elts, tuple(w))
                base = self.pc
                outs = []
                for g, w in self.explode(SList(ents, self.pc)):
                    p = self.AND(base, g)
                    if not self.sat(p):
                        continue
                    self.pc = p
                    try:
                        self.unpack(elts, tuple(w))
                        outs.append(self.pc)
                    except Dead:
                        pass
                self.join(base, outs)
                return
            vals = [x for _, x in ents]
        st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if st:
            k = st[0]
            tail = len(elts) - k - 1
            if len(vals) < len(elts) - 1:
                self.throw(ValueError('not enough values to unpack'))
            mid = vals[k:len(vals) - tail]
            parts = vals[:k] + [SList([[1, x] for x in mid], self.pc)] + vals[len(vals) - tail:]
            for e, x in zip(elts, parts):
                self.assign(e, x)
            return
        if len(vals) != len(elts):
            self.throw(ValueError('wrong number of values to unpack'))
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def x_AugAssign(self, n):
        t = n.target
        op = type(n.op)
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            self.store(t.id, self.aug(op, cur, self.ev(n.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            val = self.ev(n.value)
            self.splitu(o, lambda w: self.setattr(w, t.attr, self.aug(op, self.getattr(w, t.attr), val)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_slice(t.slice)
            cur = self.getitem(o, i)
            val = self.ev(n.value)
            self.setitem(o, i, self.aug(op, cur, val))
        else:
            raise Unsupported('augassign')

    def aug(self, op, cur, val):
        def f(c):
            from . import models
            if isinstance(c, SSet) and c.kind is set and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                nm = {ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update',
                      ast.BitXor: 'symmetric_difference_update'}[op]
                models.method(self, c, nm, [val], {})
                return c
            if isinstance(c, SList) and op is ast.Add:
                models.method(self, c, 'extend', [val], {})
                return c
            return self.binop(op, c, val)
        if isinstance(cur, Union) and any(isinstance(w, Heap) for _, w in cur.alts):
            return self.split(cur, f)
        return f(cur)

    def x_Return(self, n):
        v = self.ev(n.value) if n.value is not None else None
        self.frame.rets.append((self.pc, v))
        self.pc = 0
        raise Dead()

    def x_If(self, n):
        c = self.truth(self.ev(n.test))
        base = self.pc
        if c == 1:
            return self.nest(n.body)
        if c == 0:
            return self.nest(n.orelse) if n.orelse else None
        t = self.AND(base, c)
        e = self.AND(base, c ^ 1)
        if not self.sat(e):
            return self.nest(n.body)
        if not self.sat(t):
            return self.nest(n.orelse) if n.orelse else None
        self.pc = t
        try:
            self.nest(n.body, e)
            o1 = self.norm(t, self.pc)
        except Dead:
            o1 = 0
        o2 = e
        if n.orelse:
            self.pc = e
            try:
                self.nest(n.orelse, o1)
                o2 = self.norm(e, self.pc)
            except Dead:
                o2 = 0
        if o1 == t and o2 == e:
            self.pc = base
            return
        self.join(base, [o1, o2])

    def nest(self, stmts, others=0):
        fr = self.frame
        fr.depth += 1
        so = fr.others
        if others:
            fr.others = self.OR(so, others)
        try:
            self.body(stmts)
        finally:
            fr.depth -= 1
            fr.others = so

    def x_For(self, n):
        it = self.ev(n.iter)
        fr = self.frame
        L = [[], []]
        base = self.pc
        outer_rest = self.itrest
        self.itrest = 0

        def cb(v):
            fr.depth += 1
            fr.loops.append(L)
            L[1] = []
            p = self.pc
            so = fr.others
            try:
                if self.itrest:
                    # paths on which the iteration has ended or skips this element
                    fr.others = self.OR(so, self.itrest)
                    self.itrest = 0
                live = self.OR(self.pc, fr.others)
                for M in fr.loops:
                    for x in M[0]:
                        live = self.OR(live, x)
                    for x in M[1]:
                        live = self.OR(live, x)
                fr.live = live
                self.assign(n.target, v)
                self.body(n.body)
                out = self.pc
            except Dead:
                out = 0
            finally:
                fr.others = so
                fr.loops.pop()
                fr.depth -= 1
            if L[1]:
                conts = L[1]
                L[1] = []
                self.join(p, [out] + conts)
            else:
                self.setpc(out)
        try:
            self.iterate(it, cb)
            out = self.pc
        except Dead:
            out = 0
        finally:
            self.itrest = outer_rest
        if n.orelse and out:
            self.pc = out
            try:
                self.nest(n.orelse)
                out = self.pc
            except Dead:
                out = 0
        if L[0]:
            self.join(base, [out] + L[0])
        else:
            self.setpc(out)

    def x_While(self, n):
        fr = self.frame
        L = [[], []]
        base = live = self.pc
        exits = []
        k = 0
        while True:
            self.pc = live
            try:
                c = self.truth(self.ev(n.test))
                live = self.pc
            except Dead:
                break
            p = self.AND(live, c)
            ex = self.AND(live, c ^ 1)
            hasex = self.sat(ex)
            if hasex:
                exits.append(ex)
            else:
                p = live
            if not self.sat(p):
                break
            if k >= self.loop_bound:
                self.nonterm.append((p, n.lineno, fr.fn.qual))
                break
            k += 1
            L[1] = []
            self.pc = p
            fr.depth += 1
            fr.loops.append(L)
            so = fr.others
            for x in exits:
                fr.others = self.OR(fr.others, x)
            try:
                self.body(n.body)
                out = self.norm(p, self.pc)
            except Dead:
                out = 0
            finally:
                fr.others = so
                fr.loops.pop()
                fr.depth -= 1
            if L[1]:
                out = self.b.ors([out] + L[1])
                out = self.norm(p, out)
            live = out
            if live == 0 or not self.sat(live):
                break
        outs = exits
        if n.orelse and exits:
            try:
                self.join(base, exits)
                self.nest(n.orelse)
                outs = [self.pc]
            except Dead:
                outs = []
        self.join(base, outs + L[0])

    def x_Break(self, n):
        self.frame.loops[-1][0].append(self.pc)
        self.pc = 0
        raise Dead()

    def x_Continue(self, n):
        self.frame.loops[-1][1].append(self.pc)
        self.pc = 0
        raise Dead()

    def x_Assert(self, n):
        c = self.truth(self.ev(n.test))
        self.throw(AssertionError('line %d' % n.lineno), c ^ 1)

    def x_Raise(self, n):
        if n.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise Unsupported('bare raise')
            for g, ex in cur[-1]:
                p = self.AND(self.pc, g)
                if self.sat(p):
                    self.sink.append((p, ex))
            self.pc = 0
            raise Dead()
        ex = self.ev(n.exc)

        def one(e):
            if isinstance(e, type):
                e = self.call(e, [], {})
            if not isinstance(e, BaseException):
                if isinstance(e, Sym):
                    raise Unsupported('raise of %s' % type(e))
                self.throw(TypeError('exceptions must derive from BaseException'))
            self.throw(e)
        self.split(ex, one)
        raise Dead()

    def x_Try(self, n):
        if n.finalbody:
            return self.try_finally(n)
        base = self.pc
        saved = self.sink
        self.sink = new = []
        try:
            self.nest(n.body, base)
            out = self.pc
        except Dead:
            out = 0
        finally:
            self.sink = saved
        outs = []
        rem = new
        for h in n.handlers:
            if h.type is None:
                types_ = (BaseException,)
            else:
                self.pc = base
                types_ = self.ev(h.type)
            hit = [(g, e) for g, e in rem if isinstance(e, types_)]
            rem = [(g, e) for g, e in rem if not isinstance(e, types_)]
            if not hit:
                continue
            self.pc = self.b.ors(g for g, _ in hit)
            if not hasattr(self, 'handling'):
                self.handling = []
            self.handling.append(hit)
            try:
                if h.name:
                    self.store(h.name, self.merge(hit))
                self.nest(h.body, base)
                outs.append(self.pc)
            except Dead:
                pass
            finally:
                self.handling.pop()
        for x in rem:
            self.sink.append(x)
        if n.orelse and out:
            self.pc = out
            try:
                self.nest(n.orelse, base)
                out = self.pc
            except Dead:
                out = 0
        self.join(base, [out] + outs)

    def try_finally(self, n):
        fr = self.frame
        base = self.pc
        inner = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse, finalbody=[])
        saved = self.sink
        self.sink = new = []
        nr = len(fr.rets)
        nl = [(len(L[0]), len(L[1])) for L in fr.loops]
        try:
            if n.handlers or n.orelse:
                so = fr.others
                fr.others = self.OR(so, base)
                try:
                    self.x_Try(inner)
                finally:
                    fr.others = so
            else:
                self.nest(n.body, base)
            out = self.pc
        except Dead:
            out = 0
        finally:
            self.sink = saved
        if [(len(L[0]), len(L[1])) for L in fr.loops] != nl:
            raise Unsupported('break/continue through finally')
        # normal, returned and raised paths run the finally block
        pcs = [out] + [g for g, _ in fr.rets[nr:]] + [g for g, _ in new]
        allp = self.b.ors(pcs)
        self.pc = self.norm(base, allp)
        before = self.pc
        self.nest(n.finalbody, base)
        if self.norm(before, self.pc) != before:
            raise Unsupported('finally block that does not fall through')
        for x in new:
            self.sink.append(x)
        self.setpc(out)

    def x_With(self, n):
        for it in n.items:
            cm = self.ev(it.context_expr)
            if isinstance(cm, Sym) and not isinstance(cm, SObj):
                raise Unsupported('with')
            if isinstance(cm, SObj):
                raise Unsupported('with object')
            mod = type(cm).__module__
            if mod not in ('warnings', 'contextlib', 'numpy'):
                raise Unsupported('with %s' % type(cm))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, None)
        self.nest(n.body)

    def x_FunctionDef(self, n):
        fr = self.frame
        f = self.mkfunc(n, fr.env, fr.glob, fr.fn.qual + '.<locals>.' + n.name)
        f.defaults = [self.ev(d) for d in n.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.store(n.name, v)

    def x_ClassDef(self, n):
        raise Unsupported('local class')

    def x_Import(self, n):
        for al in n.names:
            m = __import__(al.name)
            if al.asname:
                m = sys.modules[al.name]
            self.store((al.asname or al.name).split('.')[0], m)

    def x_ImportFrom(self, n):
        import importlib
        if n.level:
            pkg = self.frame.glob.get('__package__')
            m = importlib.import_module('.' * n.level + (n.module or ''), pkg)
        else:
            m = importlib.import_module(n.module)
        for al in n.names:
            if not hasattr(m, al.name):
                importlib.import_module(m.__name__ + '.' + al.name)
            self.store(al.asname or al.name, self.lift(getattr(m, al.name)))

    def x_Global(self, n):
        pass

    def x_Nonlocal(self, n):
        pass

    def x_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.load(t.id)
                self.store(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev_slice(t.slice)
                from . import models
                self.splitu(o, lambda w: models.delitem(self, w, i))
            else:
                raise Unsupported('del target')

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        return self.load(n.id)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store(n.target.id, v)
        return v

    def e_Tuple(self, n):
        return tuple(self.starred(n.elts))

    def starred(self, elts):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                ents = self.tolist(v)
                if any(g != 1 for g, _ in ents):
                    raise Unsupported('star of symbolic-length sequence')
                r += [x for _, x in ents]
            else:
                r.append(self.ev(e))
        return r

    def e_List(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += [[g, x] for g, x in self.tolist(self.ev(e.value))]
            else:
                out.append([1, self.ev(e)])
        return SList(out, self.pc)

    def e_Set(self, n):
        vals = self.starred(n.elts)
        s = SSet(self.pc)
        from . import models
        for v in vals:
            models.method(self, s, 'add', [v], {})
        return s

    def e_Dict(self, n):
        vals = []
        for k, v in zip(n.keys, n.values):
            vals.append((None if k is None else self.ev(k), self.ev(v), k is None))
        d = SDict(self.pc)
        from . import models
        for k, v, star in vals:
            if star:
                models.method(self, d, 'update', [v], {})
            else:
                self.setitem(d, k, v)
        return d

    def comp(self, gens, cb):
        fr = self.frame
        saved = fr.env

        def level(i):
            if i == len(gens):
                cb()
                return
            g = gens[i]
            it = self.ev(g.iter) if i else first
            fr.env = env

            def each(v):
                s2 = fr.env
                fr.env = env
                p = self.pc
                try:
                    self.assign(g.target, v)
                    base = self.pc
                    outs = []
                    ok = True
                    for c in g.ifs:
                        l = self.truth(self.ev(c))
                        q = self.AND(self.pc, l ^ 1)
                        if self.sat(q):
                            outs.append(q)
                            nx = self.AND(self.pc, l)
                            if not self.sat(nx):
                                ok = False
                                break
                            self.pc = nx
                    if ok:
                        try:
                            level(i + 1)
                            outs.append(self.pc)
                        except Dead:
                            pass
                    self.join(base, outs)
                finally:
                    fr.env = s2
            self.iterate(it, each)
        first = self.ev(gens[0].iter)
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        env = Env(saved, names)
        env.direct = True
        slive, sdepth = fr.live, fr.depth
        fr.depth += 1
        try:
            fr.env = env
            level(0)
        finally:
            fr.env = saved
            fr.depth = sdepth

    def e_ListComp(self, n):
        out = SList([], self.pc)

        def cb():
            v = self.ev(n.elt)
            self.lappend(out, v)
        self.comp(n.generators, cb)
        return out

    def e_SetComp(self, n):
        s = SSet(self.pc)
        from . import models

        def cb():
            models.method(self, s, 'add', [self.ev(n.elt)], {})
        self.comp(n.generators, cb)
        return s

    def e_DictComp(self, n):
        d = SDict(self.pc)

        def cb():
            k = self.ev(n.key)
            self.setitem(d, k, self.ev(n.value))
        self.comp(n.generators, cb)
        return d

    def e_GeneratorExp(self, n):
        fr = self.frame
        env0 = fr.env
        firstv = self.ev(n.generators[0].iter)

        def run(cb):
            consumer, csink = self.frame, self.sink
            f2 = Frame()
            f2.fn, f2.glob, f2.globs, f2.nonloc, f2.first = fr.fn, fr.glob, fr.globs, fr.nonloc, fr.first
            f2.env = env0
            f2.live = self.pc
            f2.loops = []
            f2.depth = 1
            gens = list(n.generators)

            def item():
                v = self.ev(n.elt)
                gf, gs = self.frame, self.sink
                self.frame, self.sink = consumer, csink
                try:
                    cb(v)
                finally:
                    self.frame, self.sink = gf, gs
            self.frame = f2
            try:
                self.comp_with(gens, firstv, item)
            finally:
                self.frame = consumer
        return SLazy(run, 'genexpr')

    def comp_with(self, gens, firstv, cb):
        fake = _Pre(firstv)
        g0 = gens[0]
        g = ast.comprehension(target=g0.target, iter=fake, ifs=g0.ifs, is_async=0)
        self.comp([g] + gens[1:], cb)

    def e__Pre(self, n):
        return n.v

    def e_Lambda(self, n):
        fr = self.frame
        f = self.mkfunc(n, fr.env, fr.glob, fr.fn.qual + '.<lambda>')
        f.defaults = [self.ev(d) for d in n.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        return f

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        return self.cond(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def cond(self, c, ft, ff):
        if c == 1:
            return ft()
        if c == 0:
            return ff()
        base = self.pc
        t, e = self.AND(base, c), self.AND(base, c ^ 1)
        if not self.sat(e):
            return ft()
        if not self.sat(t):
            return ff()
        res, outs = [], []
        for p, g, f in ((t, c, ft), (e, c ^ 1, ff)):
            self.pc = p
            try:
                v = f()
                res.append((g, v))
                outs.append(self.norm(p, self.pc))
            except Dead:
                outs.append(0)
        if outs == [t, e]:
            self.pc = base
        else:
            self.join(base, outs)
        return self.merge(res)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def rec(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            c = t if isand else t ^ 1      # continue condition
            return self.cond(c, lambda: rec(i + 1), lambda: v)
        return rec(0)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return self.mk(self.truth(v) ^ 1)
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)]
        return self.unary(f, v)

    def unary(self, f, v):
        if isinstance(v, SArr):
            if f is operator.invert and v.dtype == bool:
                return SArr([self.mk(self.truth(x) ^ 1) for x in v.c], v.shape, v.dtype, self.pc)
            return SArr([self.unary(f, x) for x in v.c], v.shape, v.dtype, self.pc)

        def one(w):
            if isinstance(w, Sym):
                raise Unsupported('unary on %s' % type(w).__name__)
            try:
                return f(w)
            except Exception as ex:
                self.throw(ex)
        return self.split(v, one)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        from . import models
        if isinstance(a, (Union, SB)) or isinstance(b, (Union, SB)):
            if isinstance(a, (SArr, GArr)) or isinstance(b, (SArr, GArr)):
                pass
            elif isinstance(a, SB) and isinstance(b, (SB, bool)) or isinstance(b, SB) and isinstance(a, (SB, bool)):
                la = a.lit if isinstance(a, SB) else int(a)
                lb = b.lit if isinstance(b, SB) else int(b)
                if op is ast.BitAnd:
                    return self.mk(self.AND(la, lb))
                if op is ast.BitOr:
                    return self.mk(self.OR(la, lb))
                if op is ast.BitXor:
                    return self.mk(self.b.XOR(la, lb))
                return self.splitn([a, b], lambda vs: self.binop(op, vs[0], vs[1]))
            else:
                return self.splitn([a, b], lambda vs: self.binop(op, vs[0], vs[1]))
        if a is OPAQUE or b is OPAQUE:
            return OPAQUE
        if op is ast.Mod and isinstance(a, str):
            return self.native_call(operator.mod, [a, b], {})
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (list, dict, set, collections.deque)):
                a = self.lift(a)
            if isinstance(b, (list, dict, set, collections.deque)):
                b = self.lift(b)
            return models.binop(self, op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return tuple(a) + tuple(b)
        if isinstance(a, tuple) and isinstance(b, int) and op is ast.Mult:
            return a * b
        if not (self.isconc(a) and self.isconc(b)):
            raise Unsupported('binop on tuples')
        try:
            return self._fresh2(BIN[op](a, b))
        except Exception as ex:
            self.throw(ex)

    def _fresh2(self, v):
        if isinstance(v, (set, list, dict)):
            return self._fresh(v)
        return v

    def e_Compare(self, n):
        left = self.ev(n.left)
        if len(n.ops) == 1:
            return self.compare(n.ops[0], left, self.ev(n.comparators[0]))

        def rec(left, i):
            right = self.ev(n.comparators[i])
            v = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return v
            return self.cond(self.truth(v), lambda: rec(right, i + 1), lambda: v)
        return rec(left, 0)

    def compare(self, op, a, b):
        from . import models
        t = type(op)
        if t in (ast.Eq, ast.NotEq):
            if isinstance(a, (SArr, GArr, np.ndarray)) or isinstance(b, (SArr, GArr, np.ndarray)):
                return models.arr_compare(self, t, a, b)
            if isinstance(a, Union) and any(isinstance(w, (SArr, GArr)) for _, w in a.alts) or \
                    isinstance(b, Union) and any(isinstance(w, (SArr, GArr)) for _, w in b.alts):
                return self.splitn([a, b], lambda vs: self.compare(op, *vs))
            l = self.eq(a, b)
            return self.mk(l if t is ast.Eq else l ^ 1)
        if t in (ast.Is, ast.IsNot):
            l = 0
            for ga, va in self.alts(a):
                for gb, vb in self.alts(b):
                    same = va is vb
                    if not same and isinstance(va, bool) and isinstance(vb, bool):
                        same = va == vb
                    if same:
                        l = self.OR(l, self.AND(ga, gb))
            return self.mk(l if t is ast.Is else l ^ 1)
        if t in (ast.In, ast.NotIn):
            l = self.contains(b, a)
            return self.mk(l if t is ast.In else l ^ 1)
        f = CMP[t]
        if isinstance(a, (SArr, GArr)) or isinstance(b, (SArr, GArr)):
            return models.arr_compare(self, t, a, b)

        def one(vs):
            x, y = vs
            if isinstance(x, (SSet,)) or isinstance(y, SSet):
                sx, sy = self.asset(x), self.asset(y)
                le = self.b.ands(self.OR(g ^ 1, sy.get(k, 0)) for k, g in sx.items())
                ge = self.b.ands(self.OR(g ^ 1, sx.get(k, 0)) for k, g in sy.items())
                r = {ast.LtE: le, ast.GtE: ge, ast.Lt: self.AND(le, ge ^ 1), ast.Gt: self.AND(ge, le ^ 1)}[t]
                return self.mk(r)
            if isinstance(x, Sym) or isinstance(y, Sym) or not (self.isconc(x) and self.isconc(y)):
                raise Unsupported('ordering of %s' % type(x).__name__)
            try:
                return self._fresh(f(x, y))
            except Exception as ex:
                self.throw(ex)
        return self.splitn([a, b], one)

    def contains(self, c, x):
        from . import models
        if isinstance(c, Union):
            base = self.pc
            r = 0
            al = self.alts(c)
            if len(al) == 1:
                return self.contains(al[0][1], x)
            outs = []
            for g, w in al:
                self.pc = self.AND(base, g)
                try:
                    r = self.OR(r, self.AND(g, self.contains(w, x)))
                    outs.append(self.pc)
                except Dead:
                    pass
            self.join(base, outs)
            return r
        if isinstance(c, (SDict, SSet)):
            r = 0
            for g, k in self.keyalts(x):
                h = self.dhas(c, k) if isinstance(c, SDict) else c.m.get(k, 0)
                r = self.OR(r, self.AND(g, h))
            return r
        if isinstance(c, (SList, tuple, GArr)):
            ents = self.entries(c)
            return self.b.ors(self.AND(g, self.eq(v, x)) if g else 0 for g, v in ents)
        if isinstance(c, SArr):
            return self.b.ors(self.eq(v, x) for v in c.c)
        if isinstance(c, (SLazy, SIter)):
            base = self.pc
            found = [0]
            fpc = []

            def cb(v):
                l = self.eq(v, x)
                h = self.AND(self.pc, l)
                if self.sat(h):
                    found[0] = self.OR(found[0], h)
                    fpc.append(h)
                    self.setpc(self.AND(self.pc, l ^ 1))
            try:
                self.iterate(c, cb)
                out = self.pc
            except Dead:
                out = 0
            self.join(base, [out] + fpc)
            return found[0]
        if isinstance(c, SObj):
            m = self.lookup_cls(c.cls, '__contains__')
            if m is not None:
                return self.truth(self.call(Bound(self.tofunc(m), c), [x], {}))
            return self.contains(self.call(Bound(self.tofunc(self.lookup_cls(c.cls, '__iter__')), c), [], {}), x)
        if isinstance(c, Sym):
            raise Unsupported('in %s' % type(c).__name__)
        if isinstance(x, Sym) or not self.isconc(x):
            r = 0
            for g, w in self.explode(x):
                try:
                    r = self.OR(r, self.AND(g, int(w in c)))
                except Exception as ex:
                    self.throw(ex, g)
            return r
        try:
            return int(x in c)
        except Exception as ex:
            self.throw(ex)

    def e_Call(self, n):
        fnode = n.func
        if isinstance(fnode, ast.Name) and fnode.id == 'super' and not n.args:
            return self.mksuper()
        f = self.ev(fnode)
        if f in (print,) if not isinstance(f, Sym) else False:
            return None
        name = None
        if not isinstance(f, Sym):
            mod = getattr(f, '__module__', None)
            if mod in ('logging', 'warnings', 'pprint', '_warnings') or type(f).__module__ == 'logging' or \
                    type(getattr(f, '__self__', None)).__module__ in ('logging', 'pprint'):
                return None
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                ents = self.tolist(v)
                if any(g != 1 for g, _ in ents):
                    raise Unsupported('*args of symbolic length')
                args += [x for _, x in ents]
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, SDict):
                    for s in d.s:
                        if s[1] != 1:
                            raise Unsupported('**kwargs symbolic')
                        if s[0] in kwargs:
                            self.throw(TypeError('multiple values for keyword'))
                        kwargs[s[0]] = s[2]
                else:
                    raise Unsupported('**kwargs')
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs)

    def mksuper(self):
        fr = self.frame
        obj = fr.first
        if fr.fn.isgen or '<locals>' in fr.fn.qual:
            raise Unsupported('super() in nested function')
        cname = fr.fn.qual.rsplit('.', 1)[0]
        cls = None
        if isinstance(obj, SObj):
            mro = obj.cls.__mro__
        elif isinstance(obj, type):
            mro = obj.__mro__
        else:
            raise Unsupported('super()')
        for c in mro:
            if c.__qualname__ == cname and c.__module__ == fr.glob.get('__name__'):
                cls = c
        if cls is None:
            raise Unsupported('super() class')
        return SSuper(cls, obj)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, self.mangle(n.attr))

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            q = self.frame.fn.qual.split('.')
            q = [x for x in q if x != '<locals>']
            # the class is the component before the outermost function
            cls = None
            g = self.frame.glob
            if len(q) >= 2 and isinstance(g.get(q[0]), type):
                cls = q[0]
            if cls:
                return '_' + cls.lstrip('_') + name
        return name

    def getattr(self, o, name):
        from . import models
        if isinstance(o, Union):
            return self.split(o, lambda w: self.getattr(w, name))
        if isinstance(o, SObj):
            d = self.lookup_cls(o.cls, name)
            if isinstance(d, property):
                if d.fget is None:
                    self.throw(AttributeError(name))
                return self.call(self.tofunc(d.fget), [o], {})
            if name in o.a:
                v = o.a[name]
                if isinstance(v, Union):
                    for g, w in v.alts:
                        if w is UNBOUND:
                            self.throw(AttributeError(name), g)
                            return self.merge([(h, x) for h, x in v.alts if x is not UNBOUND])
                return v
            if d is not None:
                if isinstance(d, types.FunctionType):
                    return Bound(self.tofunc(d) if self.own(d.__code__.co_filename) else d, o)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return Bound(self.tofunc(d.__func__), o.cls)
                if hasattr(type(d), '__get__'):
                    raise Unsupported('descriptor %s' % type(d))
                return self.lift(d)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            g = self.lookup_cls(o.cls, '__getattr__')
            if g is not None:
                return self.call(Bound(self.tofunc(g), o), [name], {})
            self.throw(AttributeError('%s has no attribute %s' % (o.cls.__name__, name)))
        if isinstance(o, SSuper):
            mro = (o.obj.cls if isinstance(o.obj, SObj) else o.obj).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if c is object:
                    if name == '__init__':
                        return models.noop
                    raise Unsupported('super().%s' % name)
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return Bound(self.tofunc(d), o.obj)
                    if isinstance(d, property):
                        return self.call(self.tofunc(d.fget), [o.obj], {})
                    if isinstance(d, staticmethod):
                        return d.__func__
                    raise Unsupported('super attr')
            self.throw(AttributeError(name))
        if isinstance(o, SArr):
            if name == 'T':
                return models.arr_T(self, o)
            if name == 'shape':
                return o.shape
            if name == 'size':
                return len(o.c)
            if name == 'ndim':
                return len(o.shape)
            if name == 'dtype':
                return o.dtype
            return NatMethod(o, name)
        if isinstance(o, GArr):
            if name == 'size':
                return self.lcount(o.e)
            if name == 'shape':
                return (self.lcount(o.e),)
            if name == 'ndim':
                return 1
            return NatMethod(o, name)
        if isinstance(o, (SFunc,)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            self.throw(AttributeError(name))
        if isinstance(o, (SList, SDict, SSet, SLazy)):
            if name == '__class__':
                return models.pytype(self, o)
            return NatMethod(o, name)
        if isinstance(o, SB):
            return self.split(o, lambda w: self.getattr(w, name))
        if isinstance(o, Opaque):
            return models.opaque_method
        if isinstance(o, Bound):
            if name == '__func__':
                return o.fn
            if name == '__self__':
                return o.self
            if name == '__name__':
                return o.fn.name
        if isinstance(o, Sym):
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        try:
            v = getattr(o, name)
        except Exception as ex:
            self.throw(ex)
        if isinstance(o, tuple) and not self.isconc(o) and isinstance(v, types.BuiltinMethodType):
            return NatMethod(o, name)
        if isinstance(v, types.MethodType) and isinstance(o, tuple) and \
                isinstance(v.__func__, types.FunctionType) and self.own(v.__func__.__code__.co_filename):
            return Bound(self.tofunc(v.__func__), o)
        return self.lift(v)

    def setattr(self, o, name, v):
        name = self.mangle(name)
        if isinstance(o, SObj):
            d = self.lookup_cls(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.throw(AttributeError(name))
                self.call(self.tofunc(d.fset), [o, v], {})
                return
            if self.covers(o.birth):
                o.a[name] = v
            else:
                o.a[name] = self.merge2(self.pc, v, o.a.get(name, UNBOUND))
            return
        if isinstance(o, SFunc):
            o.attrs[name] = v
            return
        raise Unsupported('setattr on %s' % type(o).__name__)

    def ev_slice(self, n):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None,
                         self.ev(n.step) if n.step else None)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_slice(e) for e in n.elts)
        return self.ev(n)

    def e_Slice(self, n):
        return self.ev_slice(n)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev_slice(n.slice)
        return self.getitem(o, i)

    def getitem(self, o, i):
        from . import models
        return models.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import models
        return models.setitem(self, o, i, v)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = self.e_JoinedStr(v.format_spec) if v.format_spec else ''
                if x is OPAQUE or spec is OPAQUE:
                    return OPAQUE
                parts.append((x, v.conversion, spec))
        vals = [p[0] for p in parts if isinstance(p, tuple)]
        try:
            combos = self.explode(tuple(vals), 64)
        except Unsupported:
            return OPAQUE
        if len(combos) > 40:
            return OPAQUE

        def fmt(t):
            it = iter(t)
            s = ''
            for p in parts:
                if isinstance(p, tuple):
                    x = next(it)
                    if p[1] == 114:
                        x = repr(x)
                    elif p[1] == 115:
                        x = str(x)
                    s += format(x, p[2])
                else:
                    s += p
            return s
        try:
            return self.merge([(g, fmt(t)) for g, t in combos])
        except Exception:
            return OPAQUE

    def e_Starred(self, n):
        raise Unsupported('starred')

    def e_Yield(self, n):
        fr = self.frame
        v = self.ev(n.value) if n.value is not None else None
        fr.ycb(v)
        return None

    def e_YieldFrom(self, n):
        fr = self.frame
        v = self.ev(n.value)
        self.iterate(v, lambda x: fr.ycb(x))
        return None


class _Pre(ast.expr):
    def __init__(self, v):
        super().__init__()
        self.v = v
