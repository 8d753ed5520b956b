"""Value representations of the merging symbolic executor."""


class Unsupported(Exception):
    """The encoder met a construct it has no exact encoding for."""


class Dead(BaseException):
    """The current path condition has become false."""


def _no(self, *a, **k):
    raise Unsupported('symbolic value used by native code')


class Sym:
    __slots__ = ()
    __bool__ = __eq__ = __ne__ = __hash__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __len__ = __iter__ = __int__ = __index__ = __float__ = __add__ = __radd__ = __str__ = _no
    __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __contains__ = __array__ = _no


class SB(Sym):
    """symbolic bool"""
    __slots__ = ('lit',)

    def __init__(self, lit):
        self.lit = lit

    def __repr__(self):
        return 'SB(%d)' % self.lit


class Union(Sym):
    """guarded alternatives; guards are mutually exclusive"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%r)' % (self.alts,)


class _U:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _U()
NONE_ABSENT = _U()


class Heap(Sym):
    __slots__ = ()

    def __repr__(self):
        return '<%s@%x>' % (type(self).__name__, id(self))


class SList(Heap):
    """list / deque: entries [guard, value]; present entries in order"""
    __slots__ = ('e', 'birth', 'kind', 'rm', 'maxlen')

    def __init__(self, e, birth, kind='list'):
        self.e = e
        self.birth = birth
        self.kind = kind
        self.rm = 0          # guard under which something was removed/inserted not at end


class SDict(Heap):
    """slots [key, guard, value]; several slots may share a key (exclusive guards)"""
    __slots__ = ('s', 'idx', 'birth', 'default', 'mut_ins', 'mut_del', 'kind')

    def __init__(self, birth):
        self.s = []
        self.idx = {}
        self.birth = birth
        self.default = None
        self.mut_ins = 0
        self.mut_del = 0
        self.kind = dict


class SSet(Heap):
    __slots__ = ('m', 'birth', 'mut', 'kind')

    def __init__(self, birth, kind=set):
        self.m = {}          # key -> guard
        self.birth = birth
        self.mut = 0
        self.kind = kind


class SObj(Heap):
    __slots__ = ('cls', 'a', 'birth')

    def __init__(self, cls, birth):
        self.cls = cls
        self.a = {}
        self.birth = birth

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return '<SObj %s@%x>' % (self.cls.__name__, id(self))


class SArr(Heap):
    """numpy array of fixed shape with possibly symbolic cells"""
    __slots__ = ('c', 'shape', 'dtype', 'birth', 'view')

    def __init__(self, c, shape, dtype, birth, view=False):
        self.c = c
        self.shape = tuple(shape)
        self.dtype = dtype
        self.birth = birth
        self.view = view


class GArr(Heap):
    """1-d numpy array of symbolic length: guarded entries in order (immutable)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class SFunc(Heap):
    __slots__ = ('node', 'env', 'glob', 'defaults', 'kwdefaults', 'name', 'isgen', 'cls', 'qual',
                 'locals', 'attrs')

    def __repr__(self):
        return '<SFunc %s>' % self.qual


class Bound(Heap):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class NatMethod(Heap):
    """method of a modelled container"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SLazy(Heap):
    """lazy iterable: it(cb) runs cb on every element"""
    __slots__ = ('run', 'done', 'part', 'tag', 'elem')

    def __init__(self, run, tag):
        self.run = run
        self.done = 0        # guard under which already exhausted
        self.part = 0        # guard under which partially consumed
        self.tag = tag


class SSuper(Heap):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class SIter(Heap):
    """iter(list) with next()"""
    __slots__ = ('src', 'pos')

    def __init__(self, src):
        self.src = src
        self.pos = 0


class Opaque(Sym):
    """a string nobody looks at (log and error messages)"""
    __slots__ = ()


OPAQUE = Opaque()


class Env:
    __slots__ = ('v', 'parent', 'names', 'direct')

    def __init__(self, parent, names):
        self.v = {}
        self.parent = parent
        self.names = names
        self.direct = False


class Frame:
    __slots__ = ('fn', 'env', 'glob', 'live', 'rets', 'loops', 'cls', 'ycb', 'globs', 'nonloc', 'first', 'depth', 'others')

    def __init__(self):
        self.rets = []
        self.loops = []
        self.ycb = None
        self.globs = ()
        self.nonloc = ()
        self.first = None
        self.depth = 0
        self.others = 0
