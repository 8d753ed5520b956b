"""The harness interface: one harness runs symbolically (merging or forking) and concretely."""
from .values import Union, SB, Dead


class HarnessFail(Exception):
    pass


class Skip(Exception):
    """the concrete inputs do not satisfy an assumption"""


class Ctx:
    """interface seen by a harness; subclasses give the three executions"""
    symbolic = False

    def bool(self, name):
        raise NotImplementedError

    def choice(self, name, options):
        raise NotImplementedError

    def int(self, name, lo, hi):
        raise NotImplementedError

    def assume(self, c):
        raise NotImplementedError

    def check(self, c, label):
        raise NotImplementedError

    def cover(self, label, c=True):
        raise NotImplementedError

    def observe(self, name, value):
        raise NotImplementedError


def nbits(n):
    k = 0
    while (1 << k) < n:
        k += 1
    return k


class ConcreteCtx(Ctx):
    """replay on the real code with the values of a model"""

    def __init__(self, model):
        self.m = model
        self.fails = []
        self.soft = set()
        self.covers = set()
        self.obs = []
        self.inputs = {}
        self.undo = []

    def bool(self, name):
        v = bool(self.m.get(name, False))
        self.inputs[name] = v
        return v

    def _code(self, name, n):
        c = 0
        for i in range(nbits(n)):
            if self.m.get('%s#%d' % (name, i), False):
                c |= 1 << i
        return min(c, n - 1)

    def choice(self, name, options):
        options = list(options)
        v = options[self._code(name, len(options))]
        self.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        v = lo + self._code(name, hi - lo + 1)
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        import fractions
        v = float(fractions.Fraction(str(self.m.get(name, 0))))
        self.inputs[name] = v
        return v

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as np
        r = np.empty(shape)
        for i in np.ndindex(*r.shape):
            r[i] = self.real(name + '_'.join(str(k) for k in i), lo, hi)
        return r

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        if not bool(c):
            self.fails.append(label)

    def close(self, a, b, label):
        from .dse import near, unwrap
        if not near(unwrap(a), unwrap(b)):
            self.fails.append(label)
            self.soft.add(label)

    def patch(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def unpatch(self):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)
        self.undo = []

    def cover(self, label, c=True):
        if c:
            self.covers.add(label)

    def observe(self, name, value):
        self.obs.append((name, freeze(value)))


def freeze(v):
    import numpy as np
    import collections
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, tuple(freeze(x) for x in v.ravel()))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, collections.deque)):
        return ('list', tuple(freeze(x) for x in v))
    if isinstance(v, tuple):
        return ('tuple', tuple(freeze(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted((freeze(x) for x in v), key=repr)))
    if isinstance(v, dict):
        return ('dict', tuple((freeze(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, bool) or v is None or isinstance(v, (int, float, str)):
        import enum
        if isinstance(v, enum.Enum):
            return int(v)
        return v
    return ('obj', type(v).__name__)


class SymCtx(Ctx):
    """merging symbolic execution"""

    def __init__(self, I):
        self.I = I
        self.checks = []
        self.covers = {}
        self.obs = []
        self.inputs = []
        self.seeded = False
        self.assumed = 1
        for n in ('bool', 'choice', 'int', 'assume', 'check', 'cover', 'observe'):
            I.models[getattr(self, n)] = getattr(self, '_' + n)

    def _bool(self, I, a, k):
        if a[0] not in self.inputs:
            self.inputs.append(a[0])
        return SB(I.b.var(a[0]))

    def mkchoice(self, name, options):
        I = self.I
        n = len(options)
        if n == 1:
            return options[0]
        kb = nbits(n)
        bits = [I.b.var('%s#%d' % (name, i)) for i in range(kb)]
        pairs = []
        rest = 1
        for c in range(n - 1):
            g = I.b.ands(bits[i] if c >> i & 1 else bits[i] ^ 1 for i in range(kb))
            pairs.append((g, options[c]))
            rest = I.AND(rest, g ^ 1)
        pairs.append((rest, options[-1]))
        return I.merge(pairs)

    def _choice(self, I, a, k):
        ents = I.tolist(a[1])
        self.inputs.append(a[0])
        return self.mkchoice(a[0], [x for _, x in ents])

    def _int(self, I, a, k):
        self.inputs.append(a[0])
        return self.mkchoice(a[0], list(range(a[1], a[2] + 1)))

    def _assume(self, I, a, k):
        l = I.truth(a[0])
        if not self.seeded:
            self.seeded = True
            I.b.seed(1500, I.AND(I.pc, l))
        self.assumed = I.AND(self.assumed, I.OR(I.pc ^ 1, l))
        I.setpc(I.AND(I.pc, l))

    def _check(self, I, a, k):
        l = I.truth(a[0])
        self.checks.append((a[1], I.AND(I.pc, l ^ 1), I.pc))
        return None

    def _cover(self, I, a, k):
        l = I.truth(a[1] if len(a) > 1 else k.get('c', True))
        self.covers[a[0]] = I.OR(self.covers.get(a[0], 0), I.AND(I.pc, l))

    def _observe(self, I, a, k):
        self.obs.append((I.pc, a[0], I.splitu(a[1], lambda v: v) if False else snapshot(I, a[1])))


def snapshot(I, v):
    """copy of a value as it is now (containers are mutable)"""
    from . import models
    return models.m_deepcopy(I, [v], {})


def evalv(I, v, md):
    """frozen concrete value of v under model md (dict node->bool with memo)"""
    from .values import SList, SDict, SSet, SArr, GArr, SObj
    ev = lambda l: I.b.evalm(l, md)
    if isinstance(v, SB):
        return ev(v.lit)
    if isinstance(v, Union):
        for g, w in v.alts:
            if ev(g):
                return evalv(I, w, md)
        return ('none',)
    if isinstance(v, tuple):
        return ('tuple', tuple(evalv(I, x, md) for x in v))
    if isinstance(v, SList):
        t = tuple(evalv(I, x, md) for g, x in v.e if ev(g))
        return ('tuple' if v.kind == 'tuple' else 'list', t)
    if isinstance(v, GArr):
        t = tuple(evalv(I, x, md) for g, x in v.e if ev(g))
        return ('arr', (len(t),), t)
    if isinstance(v, SArr):
        return ('arr', v.shape, tuple(evalv(I, x, md) for x in v.c))
    if isinstance(v, SSet):
        return ('set', tuple(sorted((freeze(k) for k, g in v.m.items() if ev(g)), key=repr)))
    if isinstance(v, SDict):
        return ('dict', tuple((freeze(s[0]), evalv(I, s[2], md)) for s in v.s if ev(s[1])))
    if isinstance(v, SObj):
        return ('obj', v.cls.__name__)
    return freeze(v)
