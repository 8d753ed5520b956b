"""Path-forking symbolic execution of the real, natively running code.

The real functions run in CPython on proxy values; every branch on a symbolic
condition asks z3 which sides are feasible and all feasible sides are
explored (depth first, by re-execution).  Assertions are decided by z3 for all
values on the path.
"""
import builtins
import fractions
import math
import os
import random
import sys
import threading
import time
import traceback
import warnings

import numpy as np
import z3

from .ctx import Ctx, Skip, nbits


class ForkUnsupported(BaseException):
    pass


class PathEnd(BaseException):
    pass


ENG = None


def zb(c):
    if isinstance(c, SymBool):
        return c.e
    return z3.BoolVal(bool(c))


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(keep(z3.And(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return int(bool(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(keep(z3.Or(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return int(bool(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(keep(z3.Xor(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return SymBool(keep(z3.Not(self.e))) if o else self
        return int(bool(self)) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(keep(self.e == o.e))
        if isinstance(o, (bool, np.bool_)):
            return self if o else SymBool(keep(z3.Not(self.e)))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_keep = {}


def keep(e):
    """expressions stay alive so that a re-execution builds identical ones (and simplifies them identically)"""
    _keep[e.get_id()] = e
    return e


_simp_cache = {}


def simplify(e, som=False):
    k = (e.get_id(), som)
    r = _simp_cache.get(k)
    if r is None:
        keep(e)
        r = z3.simplify(e, som=True) if som else z3.simplify(e)
        keep(r)
        _simp_cache[k] = r
    return r


def mkb(e):
    e = simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


UF = {}


def uf(name, n=1):
    if (name, n) not in UF:
        UF[(name, n)] = z3.Function('uf_' + name, *([z3.RealSort()] * (n + 1)))
    return UF[(name, n)]


# ---- rational normal form: every real expression is p/q with polynomials over atoms
ATOMS = {}
SQ = {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 400000:
        raise ForkUnsupported('polynomial too large')
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


ONE = {(): fractions.Fraction(1)}
_rat = {}


def _mono(q):
    return len(q) == 1


def _qreduce(p, q):
    """divide a common monomial and scale"""
    if _mono(q):
        (m, c), = q.items()
        if not m:
            return {k: v / c for k, v in p.items()}, ONE
    if p == q:
        return ONE, ONE
    return p, q


def ratadd(a, b, k=1):
    (p, q), (r, t) = a, b
    if q == t:
        return _qreduce(padd(p, r, k), q)
    if t == ONE:
        return _qreduce(padd(p, pmul(r, q), k), q)
    if q == ONE:
        return _qreduce(padd(pmul(p, t), r, k), t)
    return _qreduce(padd(pmul(p, t), pmul(r, q), k), pmul(q, t))


def rat(e):
    k = e.get_id()
    r = _rat.get(k)
    if r is None:
        keep(e)
        r = _rat[k] = _rat1(e)
    return r


def _rat1(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = e.as_fraction() if z3.is_rational_value(e) else fractions.Fraction(e.as_long())
        return ({(): f} if f else {}), ONE
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = rat(ch[0])
        for c in ch[1:]:
            r = ratadd(r, rat(c))
        return r
    if d == z3.Z3_OP_SUB:
        r = rat(ch[0])
        for c in ch[1:]:
            r = ratadd(r, rat(c), -1)
        return r
    if d == z3.Z3_OP_UMINUS:
        p, q = rat(ch[0])
        return {m: -c for m, c in p.items()}, q
    if d == z3.Z3_OP_MUL:
        p, q = rat(ch[0])
        for c in ch[1:]:
            r, t = rat(c)
            p, q = pmul(p, r), (q if t == ONE else t if q == ONE else pmul(q, t))
        return _qreduce(p, q)
    if d == z3.Z3_OP_DIV:
        p, q = rat(ch[0])
        r, t = rat(ch[1])
        return _qreduce(p if t == ONE else pmul(p, t), r if q == ONE else pmul(q, r))
    if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and ch[1].as_fraction() >= 0:
        p, q = rat(ch[0])
        a, b = ONE, ONE
        for _ in range(int(ch[1].as_fraction())):
            a, b = pmul(a, p), pmul(b, q)
        return a, b
    k = e.get_id()
    ATOMS[k] = e
    return {((k, 1),): fractions.Fraction(1)}, ONE


def sqreduce(p):
    """replace squares of square roots in a polynomial that is to be compared with zero"""
    for _ in range(12):
        s = None
        for m in p:
            for i, x in m:
                if x >= 2 and i in SQ:
                    s = i
        if s is None:
            return p
        A, B = rat(SQ[s])
        mx = max(dict(m).get(s, 0) // 2 for m in p)
        pa, pb = [ONE], [ONE]
        for _k in range(mx):
            pa.append(pmul(pa[-1], A))
            pb.append(pmul(pb[-1], B))
        r = {}
        for m, c in p.items():
            d = dict(m)
            h = d.get(s, 0) // 2
            d[s] = d.get(s, 0) - 2 * h
            if not d[s]:
                del d[s]
            r = padd(r, pmul({tuple(sorted(d.items())): c}, pmul(pa[h], pb[mx - h])))
        p = r
    return p


def poly2z3(p):
    ts = []
    for m, c in p.items():
        t = z3.RealVal(str(c))
        for i, x in m:
            for _ in range(x):
                t = t * ATOMS[i]
        ts.append(t)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def ratdiff(a, b):
    """a - b with denominators cleared (they are nonzero on this path)"""
    p, q = rat(a)
    r, t = rat(b)
    if q != t:
        p, r = pmul(p, t), pmul(r, q)
    # both sides are reduced by the same factor
    w = sqreduce(padd(p, {tuple(sorted(m + ((-1, 1),))): c for m, c in r.items()}))
    p = {m: c for m, c in w.items() if not m or m[0][0] != -1}
    r = {m[1:]: c for m, c in w.items() if m and m[0][0] == -1}
    n = padd(p, r, -1)
    if n:
        # coefficients that differ only by the rounding of constants of the code are the same
        s = max(abs(c) for c in [*p.values(), *r.values()])
        for m in list(n):
            if abs(n[m]) * 10 ** 13 < s:
                del n[m]
    return n


def rateq(a, b):
    """the formula a == b"""
    return poly2z3(ratdiff(a, b)) == 0


def mkuf(name, *args):
    """application of an unknown function; in 'const' mode applications to equal arguments are one real constant"""
    args = [simp(a) for a in args]
    if ENG.opts.get('uf') != 'const':
        return uf(name, len(args))(*args)
    for old, c in ENG.apps.setdefault((name, len(args)), []):
        if all(x.eq(y) or not ratdiff(x, y) for x, y in zip(old, args)):
            return c
    c = keep(z3.Real('%s!%d' % (name, len(ENG.apps[(name, len(args))]))))
    ENG.apps[(name, len(args))].append((args, c))
    if name == 'sqrt':
        SQ[c.get_id()] = args[0]
        ATOMS[c.get_id()] = c
    return c


def rv(x):
    """z3 real of a concrete number"""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise ForkUnsupported('non-finite constant in symbolic arithmetic')
        # decimal literals in the source mean the decimal number
        f = fractions.Fraction(repr(x))
        return z3.RealVal(str(f))
    raise ForkUnsupported('number of type %s' % type(x).__name__)


def simp(e):
    return simplify(e, som=True)


def isnum(o):
    return isinstance(o, (int, float, np.integer, np.floating, bool, np.bool_, fractions.Fraction))


class SymReal:
    """a real number; integers of the code are exact, floats are treated as reals"""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        nm = UFUNC1.get(ufunc)
        if method == '__call__' and len(inputs) == 1 and nm is not None:
            return getattr(self, nm)()
        ins = []
        for x in inputs:
            if isinstance(x, SymReal):
                y = np.empty((), dtype=object)
                y[()] = x
                x = y
            elif isinstance(x, np.ndarray) and x.dtype != object:
                x = x.astype(object)
            elif isinstance(x, np.generic):
                x = x.item()
            ins.append(x)
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
            return r.item()
        return r

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, SymBool):
            return rv(bool(o))
        if isnum(o):
            return rv(o)
        return None

    def _bin(self, o, f, lin=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and o in (math.inf, -math.inf):
            if lin:
                return f(0.0, float(o))
            raise ForkUnsupported('product with an infinity')
        x = self._o(o)
        if x is None:
            return NotImplemented
        return mkr(f(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        x = self._o(o)
        if x is None:
            return NotImplemented
        return div(self.e, x)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        x = self._o(o)
        if x is None:
            return NotImplemented
        return div(x, self.e)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) or (isinstance(o, float) and o == int(o)):
            o = int(o)
            if 0 <= o <= 8:
                r = SymReal(z3.RealVal(1))
                for _ in range(o):
                    r = r * self
                return r
            if -8 <= o < 0:
                return 1 / (self ** (-o))
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        if isinstance(o, SymReal) or isnum(o):
            return mkr(mkuf('pow', self.e, self._o(o)))
        return NotImplemented

    def __rpow__(self, o):
        if isnum(o):
            return mkr(mkuf('pow', rv(o), self.e))
        return NotImplemented

    def __neg__(self):
        return mkr(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if ENG.opts.get('uf') == 'const':
            return self if self >= 0 else -self
        return mkr(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _cmp(self, o, f):
        if isinstance(o, (float, np.floating)) and (o != o or o in (math.inf, -math.inf)):
            # comparison of a finite number with an infinity / nan
            return bool(f(0.0, float(o)))
        x = self._o(o)
        if x is None:
            return NotImplemented
        return mkb(f(self.e, x))

    def __eq__(self, o):
        if isinstance(o, (float, np.floating)) and (o != o or o in (math.inf, -math.inf)):
            return False
        x = self._o(o)
        if x is None:
            return False
        return mkb(self.e == x)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        if ENG.opts.get('hash') == 'fork':
            return ENG.intern(self)
        raise ForkUnsupported('hash of a symbolic number')

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __float__(self):
        raise ForkUnsupported('float() of a symbolic number')

    def __int__(self):
        raise ForkUnsupported('int() of a symbolic number')
    __index__ = __int__

    def __round__(self, n=None):
        raise ForkUnsupported('round() of a symbolic number')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy object-dtype ufuncs call these methods
    def _u(self, name):
        return mkr(mkuf(name, self.e))

    def log(self):
        if ENG.opts.get('guard_log', False):
            ENG.guard(self.e > 0, 'log of a non-positive number')
        return self._u('log')

    def exp(self):
        r = self._u('exp')
        if isinstance(r, SymReal):
            ENG.fact(r.e > 0)
        return r

    def sqrt(self):
        r = self._u('sqrt')
        if isinstance(r, SymReal):
            if ENG.opts.get('sqfact', True):
                ENG.fact(z3.Implies(self.e >= 0, z3.And(r.e >= 0, r.e * r.e == self.e)))
            else:
                ENG.fact(r.e >= 0)
        return r

    def tanh(self):
        return self._u('tanh')

    def sin(self):
        return self._u('sin')

    def cos(self):
        return self._u('cos')

    def arctan(self):
        return self._u('arctan')

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def arctanh(self):
        return ((1 + self) / (1 - self)).log() / 2

    def log2(self):
        return self.log() / math.log(2)

    def log10(self):
        return self.log() / math.log(10)

    def lgamma(self):
        return self._u('lgamma')

    def softplus(self):
        return self._u('softplus')

    def expit(self):
        return self._u('expit')

    def absolute(self):
        return abs(self)
    fabs = absolute

    def negative(self):
        return -self

    def sign(self):
        return 1 if self > 0 else -1 if self < 0 else 0

    def isnan(self):
        return np.False_

    def isfinite(self):
        return np.True_
    isinf = isnan

    def square(self):
        return self * self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return np.dtype(object)

    def sum(self, *a, **k):
        return self

    def __repr__(self):
        if ENG is not None and ENG.opts.get('hash') == 'fork':
            return ENG.text(self)
        return '<%s>' % (str(self.e)[:60].replace('\n', ' '),)


UFUNC1 = {getattr(np, k): k for k in ('log', 'exp', 'sqrt', 'tanh', 'sin', 'cos', 'arctan', 'log1p', 'expm1', 'arctanh', 'square',
                                      'absolute', 'fabs', 'negative', 'sign', 'isnan', 'isfinite', 'isinf', 'conjugate', 'log2', 'log10')}


def div(a, b):
    if z3.is_rational_value(b) or z3.is_int_value(b):
        if b.as_fraction() == 0:
            raise ZeroDivisionError('division by zero')
        return mkr(a / b)
    b = simp(b)
    if ENG.opts.get('guard_div', True):
        ENG.guard(b != 0, 'division by zero')
    if ENG.opts.get('div', 'native') == 'uf':
        return mkr(a * mkuf('inv', b))
    return mkr(a / b)


def mkr(e):
    if not isinstance(e, z3.ExprRef):
        return e
    e = simp(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        if f.denominator == 1:
            return int(f)
        return f
    return SymReal(e)


def frac(x):
    if z3.is_int_value(x):
        return str(x.as_long())
    f = x.as_fraction()
    if f.denominator > 10 ** 15:
        f = f.limit_denominator(10 ** 12)
    return str(f)


sys.set_int_max_str_digits(0)


class Engine:
    def __init__(self, job, seed, deadline):
        self.job = job
        self.opts = job.opts
        self.deadline = deadline
        if job.opts.get('uf') == 'const' and not job.opts.get('tactic'):
            job.opts.setdefault('timeout_ms', 5000)
            job.opts.setdefault('unknown', 'both')
            self.solver = z3.SolverFor('QF_NRA')
        else:
            self.solver = z3.Solver() if not job.opts.get('tactic') else z3.Tactic(job.opts['tactic']).solver()
        self.apps = {}
        self.undecided = []
        self.nunk = 0
        self.timeout = int(job.opts.get('timeout_ms', 60000))
        self.since = None
        threading.Thread(target=self.watch, daemon=True).start()
        self.solver.set('timeout', self.timeout)
        self.solver.set('random_seed', seed)
        self.stack = []      # [expr, taken, alt_pending]
        self.pos = 0
        self.levels = 0      # pushed levels in the solver == entries of stack asserted
        self.nq = self.nsat = self.nunsat = self.nbranch = 0
        self.tsolve = 0.0
        self.model = None
        self.paths = 0
        self.extra = []      # facts/assumptions asserted at the current point of the path
        self.inputs = {}
        self.ranges = {}
        self.violations = []
        self.seen = set()
        self.covers = {}
        self.assertions = 0
        self.val = []
        self.mism = []
        self.pathmodels = 0

    def watch(self):
        """interrupt the solver where it does not keep to its time limit"""
        while True:
            time.sleep(2)
            t = self.since
            if t is not None and time.time() - t > self.timeout / 1000 + 10:
                z3.main_ctx().interrupt()

    # --- solver
    def check(self, *a, soft=False):
        t = time.time()
        if t > self.deadline:
            raise ForkUnsupported('time budget exhausted after %d paths' % self.paths)
        self.since = t
        try:
            r = self.solver.check(*a)
        finally:
            self.since = None
        self.tsolve += time.time() - t
        self.nq += 1
        if r == z3.sat:
            self.nsat += 1
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            self.nunsat += 1
            return False
        if soft and self.opts.get('unknown') == 'both':
            self.nunk += 1
            self.solver.set('timeout', 800)
            if self.refuted(a):
                self.nunsat += 1
                return False
            self.model = None
            return True
        raise ForkUnsupported('solver returned unknown (%s)' % self.solver.reason_unknown())

    def holds(self, e):
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, e):
        self.nbranch += 1
        keep(e)
        s = simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.stack):
            ent = self.stack[self.pos]
            if ent[0] is not None and not ent[0].eq(e):
                raise ForkUnsupported('non-deterministic re-execution: %s vs %s' % (str(ent[0])[:200], str(e)[:200]))
            self.pos += 1
            if self.pos > self.levels:
                self._push(e if ent[1] else z3.Not(e))
            return ent[1]
        h = self.holds(e)
        ms = self.model
        if h is True:
            t = True
            mt = ms
            f = self.check(z3.Not(e), soft=True)
            mf = self.model if f else None
        elif h is False:
            f = True
            mf = ms
            t = self.check(e, soft=True)
            mt = self.model if t else None
        else:
            t = self.check(e, soft=True)
            mt = self.model if t else None
            f = self.check(z3.Not(e), soft=True)
            mf = self.model if f else None
        if not t and not f:
            raise PathEnd()
        if t and f:
            self.stack.append([e, True, True, mf])
            self.model = mt
            r = True
        else:
            self.stack.append([e, t, False, None])
            self.model = mt if t else mf
            r = t
        self.pos += 1
        self._push(e if r else z3.Not(e))
        return r

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)
        self.levels += 1

    def fact(self, e):
        """a true fact about the values (definition of a function)"""
        k = e.get_id()
        if k in self.factset:
            return
        self.factset.add(k)
        self._add(e)

    def _add(self, e):
        # an added constraint is a level of its own so that backtracking removes it
        if self.pos < len(self.stack):
            ent = self.stack[self.pos]
            if ent[0] is not None:
                raise ForkUnsupported('non-deterministic re-execution (constraint)')
            self.pos += 1
            if self.pos > self.levels:
                self._push(e)
            return
        self.stack.append([None, True, False, None])
        self.pos += 1
        self._push(e)
        if self.holds(e) is not True:
            self.model = None

    def assume(self, e):
        keep(e)
        s = simplify(e)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise Skip()
        fresh = self.pos >= len(self.stack)
        self._add(e)
        if fresh and self.model is None:
            if not self.check(soft=True):
                raise Skip()

    def guard(self, e, what):
        """the code needs e; a path where it fails is explored as an error of the code"""
        if not self.branch(e):
            if self.opts.get('guard') == 'assume':
                raise Skip()
            raise ZeroDivisionError(what)

    def intern(self, x):
        """equal numbers have equal hashes (which numbers are equal is decided by forking)"""
        for v, h in self.interned:
            if v is x or v.e.eq(x.e) or bool(v == x):
                return h
        self.interned.append((x, 7919 * (len(self.interned) + 1)))
        return self.interned[-1][1]

    def text(self, x):
        """numbers print the same exactly when they agree to eight decimals"""
        for v, h in self.texts:
            if v is x or v.e.eq(x.e) or bool(mkb(z3.ToInt(v.e * 10 ** 8 + z3.RealVal('1/2')) == z3.ToInt(x.e * 10 ** 8 + z3.RealVal('1/2')))):
                return h
        self.texts.append((x, '%d.5' % len(self.texts)))
        return self.texts[-1][1]

    def getmodel(self):
        if self.model is None:
            if not self.check():
                raise PathEnd()
        return self.model

    def refuted(self, a):
        """unsatisfiable even when every nonlinear term is an arbitrary number"""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.set('smt.arith.nl', False)
        s.add(self.solver.assertions())
        s.add(*a)
        return s.check() == z3.unsat

    def tautology(self, e):
        """valid without the path condition"""
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(z3.Not(e))
        t = time.time()
        r = s.check()
        self.tsolve += time.time() - t
        self.nq += 1
        if r == z3.unsat:
            self.nunsat += 1
            return True
        return False

    def concrete(self, m):
        r = {}
        for n, (kind, v) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if kind == 'bool':
                r[n] = z3.is_true(x)
            else:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                r[n] = frac(x)
        return r

    def violation(self, label, m):
        k = sum(v['label'] == label for v in self.violations)
        c = self.concrete(m)
        if label in self.seen or any(v['label'] == label and v['model'] == c for v in self.violations):
            return
        if k >= 3 or not self.ranges:
            self.seen.add(label)
        self.violations.append({'label': label, 'model': c, 'path': self.paths})

    def diversify(self, e, label):
        """more counterexamples, away from the first: uninterpreted functions may make one of them spurious"""
        if not self.ranges or label in self.seen or self.paths > 200:
            return
        first = self.model
        for gap in ('1/8', '1/512'):
            far = []
            for n in self.ranges:
                v = self.inputs[n][1]
                x = first.eval(v, model_completion=True)
                g = z3.RealVal(gap)
                far.append(z3.Or(v > x + g, v < x - g))
            try:
                self.solver.set('timeout', 3000)
                if self.check(e, z3.And(far)) or self.check(e, z3.Or(far)):
                    self.violation(label, self.model)
            except ForkUnsupported:
                pass
            finally:
                self.solver.set('timeout', self.timeout)
            self.model = first

    def decide(self, c, label, tol=None):
        """assert c; record a violation when the solver finds values that break it"""
        self.assertions += 1
        if isinstance(c, SymBool):
            if label in self.seen:
                return
            ms = self.model
            if self.opts.get('uf') == 'const' and self.tautology(c.e):
                return
            try:
                if self.check(z3.Not(c.e)):
                    self.violation(label, self.model)
                    self.diversify(z3.Not(c.e), label)
            except ForkUnsupported:
                if ms is None or time.time() > self.deadline:
                    raise
                # no verdict: look for a concrete failure near a value of this path before giving up
                self.undecided.append((label, self.concrete(ms)))
            self.model = ms
        elif not bool(c):
            self.violation(label, self.getmodel())


class ForkCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.obs = []
        self.covered = set()
        self.undo = []
        self.patched = False

    def bool(self, name):
        v = z3.Bool(name)
        self.eng.inputs.setdefault(name, ('bool', v))
        return SymBool(v)

    def _bits(self, name, n):
        c = 0
        for i in range(nbits(n)):
            if bool(self.bool('%s#%d' % (name, i))):
                c |= 1 << i
        return min(c, n - 1)

    def choice(self, name, options):
        options = list(options)
        n = len(options)
        if n == 1:
            return options[0]
        # values past the end are excluded (they duplicate the last option)
        bits = [z3.Bool('%s#%d' % (name, i)) for i in range(nbits(n))]
        for i, b in enumerate(bits):
            self.eng.inputs.setdefault('%s#%d' % (name, i), ('bool', b))
        val = z3.Sum([z3.If(b, 1 << i, 0) for i, b in enumerate(bits)])
        if n & (n - 1):
            self.eng.assume(val < n)
        return options[self._bits(name, n)]

    def int(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def real(self, name, lo=None, hi=None, ne=None):
        v = z3.Real(name)
        self.eng.inputs.setdefault(name, ('real', v))
        self.eng.ranges.setdefault(name, (lo, hi))
        if lo is not None:
            self.eng.assume(v >= rv(lo))
        if hi is not None:
            self.eng.assume(v <= rv(hi))
        return SymReal(v)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c.e)
        elif not c:
            raise Skip()

    def check(self, c, label):
        if isinstance(c, np.ndarray):
            c = c.item()
        self.eng.decide(c, label)

    def close(self, a, b, label):
        """a and b are the same number (up to rounding in the native run)"""
        a, b = unwrap(a), unwrap(b)
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            if not isinstance(a, SymReal):
                a, b = b, a
            if self.eng.opts.get('uf') == 'const' and a._o(b) is not None:
                self.eng.decide(mkb(rateq(a.e, a._o(b))), label)
            else:
                self.eng.decide(a == b, label)
        else:
            self.eng.decide(near(a, b), label)

    def cover(self, label, c=True):
        if label in self.eng.covers:
            return
        nra = self.eng.opts.get('uf') == 'const'
        if isinstance(c, SymBool):
            ms = self.eng.model
            if self.eng.check(c.e, soft=nra) and self.eng.model is not None:
                self.eng.covers[label] = self.eng.concrete(self.eng.model)
            self.eng.model = ms
        elif c:
            if nra and self.eng.model is None:
                self.eng.check(soft=True)
            if self.eng.model is not None or not nra:
                self.eng.covers[label] = self.eng.concrete(self.eng.getmodel())

    def observe(self, name, value):
        pass

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def reals(self, name, shape, lo=None, hi=None):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = self.real(name + '_'.join(str(k) for k in i), lo, hi)
        return r

    def uf(self, name, *args):
        """an unknown but fixed real function of real arguments"""
        return mkr(mkuf(name, *[a.e if isinstance(a, SymReal) else rv(a) for a in args]))

    def unpatch(self):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)
        self.undo = []


def unwrap(a):
    if isinstance(a, np.ndarray) and a.size == 1:
        return a.ravel()[0]
    return a


def near(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    a, b = complex(a), complex(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def randmodel(eng, base, rng, bits):
    m = dict(base)
    for n, (lo, hi) in eng.ranges.items():
        lo2 = float(lo) if lo is not None else (float(hi) - 4 if hi is not None else -2.0)
        hi2 = float(hi) if hi is not None else lo2 + 4
        m[n] = str(fractions.Fraction(round(rng.uniform(lo2, hi2), 3)).limit_denominator(1000))
    if bits:
        for n in m:
            if isinstance(m[n], bool) and rng.random() < 0.4:
                m[n] = rng.random() < 0.5
    return m


def nearmodel(eng, base, rng, k):
    """the same case with the real inputs a little different, on any scale"""
    m = dict(base)
    names = [n for n in eng.ranges if n in m]
    some = names if k % 4 == 1 else [n for n in names if rng.random() < 0.4] or names[:1]
    for n in some:
        lo, hi = eng.ranges[n]
        x = float(fractions.Fraction(m[n])) + rng.choice((-1, 1)) * 10 ** -rng.uniform(0.5, 4.5)
        x = max(x, float(lo)) if lo is not None else x
        x = min(x, float(hi)) if hi is not None else x
        m[n] = str(fractions.Fraction(round(x, 7)).limit_denominator(10 ** 7))
    return m


_seen_codes = {}


def monitor(prefix):
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'vf')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(prefix):
            k = code.co_filename[len(prefix):].replace('/', '.').replace('.py', '') + '.' + code.co_qualname
            _seen_codes[k] = _seen_codes.get(k, 0) + 1
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def run(job, seed, deadline, Native):
    global ENG
    from .runner import REPO, with_alarm, Timeout
    t0 = time.time()
    monitor(REPO.rstrip('/') + '/')
    eng = ENG = Engine(job, seed, deadline)
    res = {'job': job.name, 'engine': 'fork', 'error': None}
    rng = random.Random(seed)
    maxpaths = job.opts.get('max_paths', 400000)
    real_paths = 0
    nval = 0
    try:
        while True:
            eng.pos = 0
            eng.factset = set()
            eng.interned, eng.texts = [], []
            ctx = ForkCtx(eng)
            end = None
            so = sys.stdout
            dn = open(os.devnull, 'w')
            try:
                sys.stdout = dn
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with_alarm(job.opts.get('path_timeout', 60), lambda: job.fn(ctx, *job.args))
                real_paths += 1
            except (Skip, PathEnd):
                end = 'skip'
            except Timeout:
                if time.time() > eng.deadline:
                    raise ForkUnsupported('time budget exhausted after %d paths' % eng.paths)
                eng.violation('nontermination', eng.getmodel())
            except Exception as ex:
                real_paths += 1
                end = 'exc'
                eng.assertions += 1
                if 'exception:' + type(ex).__name__ not in eng.seen and os.environ.get('VF_DEBUG'):
                    sys.stderr.write(traceback.format_exc())
                try:
                    eng.violation('exception:' + type(ex).__name__, eng.getmodel())
                except PathEnd:
                    pass
            finally:
                sys.stdout = so
                dn.close()
                ctx.unpatch()
            eng.paths += 1
            if eng.paths > maxpaths:
                raise ForkUnsupported('more than %d paths' % maxpaths)
            if len(eng.violations) >= 3:
                break
            if end is None and nval < job.validate and (nval < 4 or rng.random() < 0.05):
                nval += 1
                if eng.model is None:
                    try:
                        eng.check(soft=True)
                    except ForkUnsupported:
                        pass
                if eng.model is not None:
                    eng.val.append(eng.concrete(eng.model))
            # backtrack
            st = eng.stack
            while st and not st[-1][2]:
                st.pop()
            if not st:
                break
            while eng.levels > len(st) - 1:
                eng.solver.pop()
                eng.levels -= 1
            st[-1][1] = not st[-1][1]
            st[-1][2] = False
            eng.model = st[-1][3]
    except ForkUnsupported as ex:
        res['error'] = 'unsupported: %s' % ex
        res['unsupported'] = True
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
    if eng.ranges and not res['error']:
        for k in range(80):
            # reachability witnesses the nonlinear solver did not find
            if all(c in eng.covers for c in job.covers):
                break
            m = randmodel(eng, {n: False for n in eng.inputs}, rng, True)
            nat = Native(job, m, limit=60)
            for c in nat.c.covers if not nat.skip else ():
                eng.covers.setdefault(c, m)
    res['covers'] = sorted(eng.covers)
    miss = [c for c in job.covers if c not in eng.covers]
    res['missing_covers'] = miss
    if not res['error'] and not eng.violations:
        if miss:
            res['error'] = 'vacuous: not reachable: %s' % miss
        elif real_paths == 0:
            res['error'] = 'vacuous: no feasible path'
    # the paths' models must behave natively as predicted
    ok = soft = 0
    softm = []
    for m in eng.val + list(eng.covers.values()):
        nat = Native(job, m, limit=60)
        if nat.skip:
            continue
        if nat.bad() and not eng.violations:
            x = {'model': m, 'native': nat.bad(), 'tb': nat.tb[-600:]}
            if set(nat.bad()) <= nat.c.soft:
                softm.append(x)     # equal as reals, but not within the rounding tolerance
            else:
                eng.mism.append(x)
        ok += 1
    if len(softm) * 2 > ok:
        eng.mism += softm
    res['rounding'] = len(softm)
    # an undecided assertion is an error, unless the real code shows a violation
    if eng.undecided and not eng.violations:
        lab, m = eng.undecided[0]
        eng.violations.append({'label': lab, 'model': m, 'path': -1})
        res['undecided'] = len(eng.undecided)
    # a counterexample of the real-number model is turned into one that the real code shows as well
    if eng.ranges:
        shown = set()
        for v in eng.violations:
            if v['label'] in shown:
                continue
            if v['label'] in Native(job, v['model'], limit=60).bad():
                shown.add(v['label'])
                continue
            for k in range(120):
                m = nearmodel(eng, v['model'], rng, k) if k % 2 else randmodel(eng, v['model'], rng, k % 3 == 2)
                if v['label'] in Native(job, m, limit=60).bad():
                    v['model'] = m
                    v['adjusted'] = True
                    shown.add(v['label'])
                    break
    res['validated'] = ok
    if eng.mism and not res['error']:
        # a native failure on a solver-generated input is itself a reproducible counterexample
        m = eng.mism[0]
        res['violations_native'] = len(eng.mism)
        eng.violations.append({'label': m['native'][0], 'model': m['model'], 'path': -1})
    res['violations'] = eng.violations
    res['mismatches'] = eng.mism[:2]
    smp = next(iter(eng.covers.values()), None) or (eng.val[0] if eng.val else None)
    res['sample'] = {'inputs': dict(list((smp or {}).items())[:40])}
    res.update(functions=dict(_seen_codes), natives=[], queries=eng.nq, sat=eng.nsat, unsat=eng.nunsat, paths=eng.paths,
               branches=eng.nbranch, assertions=eng.assertions, solver_s=round(eng.tsolve, 3), nodes=0,
               inputs=len(eng.inputs), wall=round(time.time() - t0, 2))
    return res
