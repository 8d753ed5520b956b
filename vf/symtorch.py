"""torch tensors that hold symbolic reals.

`Ten` wraps a numpy array of objects and takes part in torch's own dispatch (`__torch_function__`): real torch
code that computes with a `Ten` - layers, functions, operators with real tensors - is carried out here on the
symbolic values.  Gradients are torch's business and are not modelled: `backward` is only recorded.
"""
import math
import operator

import numpy as np

from . import symnp
from .dse import ForkUnsupported, SymBool, SymReal


class OA(np.ndarray):
    """array of symbolic reals that survives a conversion to a type of float"""

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind == 'f' and any(isinstance(v, SymReal) for v in np.asarray(self).ravel()):
            return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)


def arr(x):
    import torch
    if isinstance(x, Ten):
        return x.a
    if isinstance(x, torch.Tensor):
        return np.asarray(x.detach().cpu().numpy())
    if isinstance(x, SymReal):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)) and any(isinstance(y, Ten) for y in x):
        return np.stack([arr(y) for y in x])
    return np.asarray(x)


def sub(x, *a):
    """elementwise function of arrays that may hold symbolic values"""
    return np.frompyfunc(x, len(a), 1)(*a)


def wrap(a):
    if not isinstance(a, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = a
        a = r
    if a.dtype != object:
        a = a.astype(object) if a.dtype.kind == 'f' else a
    t = Ten(np.asarray(a))
    return t


def ax(dim, axis=None):
    dim = axis if dim is None else dim
    if isinstance(dim, list):
        dim = tuple(dim)
    if dim == ():
        dim = None
    return dim


def uplift(v):
    return v.item() if isinstance(v, np.generic) else v


def un(meth, nat):
    f = symnp.elementwise(meth, nat)

    def g(x, *a, **k):
        return wrap(f(arr(x).astype(object)))
    return g


def _sig(v):
    return 1.0 / (1.0 + math.exp(-v)) if v >= 0 else math.exp(v) / (1.0 + math.exp(v))


def _cosh(v):
    if isinstance(v, SymReal):
        return v._u('cosh')
    return math.cosh(v)


def bin_(op, flip=False):
    def g(x, y, *a, **k):
        al = k.get('alpha', a[0] if a else 1)
        p, q = arr(x), arr(y)
        if al != 1:
            q = q * al
        if flip:
            p, q = q, p
        if p.dtype != object and q.dtype != object:
            r = op(p, q)
        else:
            r = sub(lambda u, v: op(uplift(u), uplift(v)), p.astype(object), q.astype(object))
        return wrap(r)
    return g


def _div(x, y, *a, **k):
    if k.get('rounding_mode'):
        raise ForkUnsupported('rounded division')
    return bin_(operator.truediv)(x, y)


def _pow(x, e, *a, **k):
    def ip(u, n):
        r = 1
        for _ in range(abs(n)):
            r = r * u
        return r if n >= 0 else 1 / r

    def p(u, v):
        v = uplift(v)
        if isinstance(v, SymReal):
            return u ** v
        n = int(v * 2)
        if n != v * 2 or abs(n) > 64:
            return u ** v
        if n % 2 == 0:
            return ip(u, n // 2)
        return (u.sqrt() if isinstance(u, SymReal) else float(u) ** 0.5) * ip(u, (n - 1) // 2)
    return wrap(sub(p, arr(x).astype(object), arr(e).astype(object)))


def red(f):
    def g(x, dim=None, keepdim=False, axis=None, **k):
        a = arr(x)
        d = ax(dim, axis)
        r = f(a, d)
        if keepdim:
            if d is None:
                r = np.reshape(r, (1,) * a.ndim)
            else:
                r = np.expand_dims(r, d)
        return wrap(r)
    return g


def _cnt(a, d):
    if d is None:
        return a.size
    return int(np.prod([a.shape[i] for i in (d if isinstance(d, tuple) else (d,))]))


def _mean(a, d):
    s = np.sum(a, axis=d)
    return s / _cnt(a, d) if isinstance(s, np.ndarray) else s / _cnt(a, d)


def _var(a, d, ddof):
    m = _mean(a, d)
    if d is not None:
        m = np.expand_dims(m, d)
    return np.sum((a - m) * (a - m), axis=d) / (_cnt(a, d) - ddof)


def _ddof(k):
    if k.get('correction') is not None:
        return k['correction']
    return 1 if k.get('unbiased', True) in (True, None) else 0


def _sqrt(v):
    return symnp.elementwise('sqrt', math.sqrt)(v)


def var(x, dim=None, unbiased=True, keepdim=False, **k):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    k['unbiased'] = unbiased
    n = _ddof(k)
    return red(lambda a, d: _var(a.astype(object), d, n))(x, dim, keepdim, k.get('axis'))


def std(x, *a, **k):
    return wrap(_sqrt(arr(var(x, *a, **k))))


def norm(x, p='fro', dim=None, keepdim=False, ord=None, **k):
    p = ord if ord is not None else p

    def f(a, d):
        if p == 1:
            return np.sum(sub(lambda v: abs(v), a.astype(object)), axis=d)
        if p in ('fro', 2, None):
            return _sqrt(np.sum(a.astype(object) * a, axis=d))
        raise ForkUnsupported('norm of order %r' % (p,))
    return red(f)(x, dim, keepdim)


def lnorm(x, ord=None, dim=None, keepdim=False, **k):
    if ord not in (None, 'fro', 2) and arr(x).ndim > 1 and dim is None:
        raise ForkUnsupported('matrix norm')
    return norm(x, 'fro' if ord is None else ord, dim, keepdim)


def matmul(x, y, *a, **k):
    p, q = arr(x).astype(object), arr(y).astype(object)
    if p.ndim <= 2 and q.ndim <= 2:
        return wrap(np.dot(p, q))
    one, two = p.ndim == 1, q.ndim == 1
    if one:
        p = p[None, :]
    if two:
        q = q[:, None]
    r = np.sum(p[..., :, :, None] * q[..., None, :, :], axis=-2)
    if one:
        r = r[..., 0, :]
    if two:
        r = r[..., 0]
    return wrap(r)


def matrix_power(x, n):
    a = arr(x).astype(object)
    r = np.array([[1 if i == j else 0 for j in range(a.shape[0])] for i in range(a.shape[0])], dtype=object)
    for _ in range(int(n)):
        r = np.dot(r, a)
    return wrap(r)


def einsum(eq, *ops, **k):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    eq = eq.replace(' ', '')
    ins, arrow, out = eq.partition('->')
    ins = ins.split(',')
    if not arrow:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    if '.' in eq:
        raise ForkUnsupported('einsum with an ellipsis')
    A = [arr(o).astype(object) for o in ops]
    size = {c: n for s, a in zip(ins, A) for c, n in zip(s, a.shape)}
    rest = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for i in np.ndindex(*r.shape):
        e = dict(zip(out, i))
        t = 0
        for j in np.ndindex(*[size[c] for c in rest]):
            e.update(zip(rest, j))
            p = 1
            for s, a in zip(ins, A):
                p = p * a[tuple(e[c] for c in s)]
            t = t + p
        r[i] = t
    return wrap(r)


def linear(x, w, b=None):
    r = np.dot(arr(x).astype(object), arr(w).astype(object).T)
    if b is not None:
        r = r + arr(b)
    return wrap(r)


def shape_(*s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(int(v) for v in s)


def reshape(x, *s, **k):
    s = k.get('shape', s)
    return wrap(arr(x).reshape(shape_(*s)))


def squeeze(x, dim=None, **k):
    a = arr(x)
    if dim is None:
        return wrap(np.squeeze(a))
    ds = dim if isinstance(dim, (tuple, list)) else (dim,)
    ds = tuple(d for d in ds if a.shape[d] == 1)
    return wrap(np.squeeze(a, axis=ds) if ds else a)


def sort(x, dim=-1, descending=False, **k):
    a = np.moveaxis(arr(x).astype(object), dim, 0).copy()
    ix = np.empty(a.shape, dtype=int)
    for r in np.ndindex(*a.shape[1:]):
        v = [(a[(i,) + r], i) for i in range(a.shape[0])]
        for i in range(1, len(v)):
            j = i
            while j > 0 and (bool(v[j - 1][0] > v[j][0]) if not descending else bool(v[j - 1][0] < v[j][0])):
                v[j - 1], v[j] = v[j], v[j - 1]
                j -= 1
        for i, (u, n) in enumerate(v):
            a[(i,) + r] = u
            ix[(i,) + r] = n
    return wrap(np.moveaxis(a, 0, dim)), Ten(np.moveaxis(ix, 0, dim))


def extreme(gt):
    pick = (lambda u, v: u if bool(u >= v) else v) if gt else (lambda u, v: u if bool(u <= v) else v)

    def g(x, y=None, *a, **k):
        if y is None and 'dim' not in k:
            p = arr(x).astype(object).ravel()
            r = p[0]
            for v in p[1:]:
                r = pick(r, v)
            return wrap(r)
        if isinstance(y, int) or 'dim' in k:
            d = y if y is not None else k['dim']
            s, i = sort(x, d, gt)
            return wrap(np.take(s.a, 0, axis=d)), Ten(np.take(i.a, 0, axis=d))
        return wrap(sub(pick, arr(x).astype(object), arr(y).astype(object)))
    return g


def clamp(x, min=None, max=None, **k):
    def f(v):
        if min is not None and bool(v < min):
            return min
        if max is not None and bool(v > max):
            return max
        return v
    return wrap(sub(f, arr(x).astype(object)))


def where(c, x, y, *a, **k):
    return wrap(sub(lambda b, u, v: u if bool(b) else v, arr(c).astype(object), arr(x).astype(object), arr(y).astype(object)))


def like(v):
    def g(x, *a, **k):
        r = np.empty(arr(x).shape, dtype=object)
        r.fill(v)
        return wrap(r)
    return g


def tri(lower):
    def g(x, diagonal=0, **k):
        a = arr(x).copy()
        for i in np.ndindex(*a.shape):
            if (i[1] > i[0] + diagonal) if lower else (i[1] < i[0] + diagonal):
                a[i] = 0
        return wrap(a)
    return g


def diagonal(x, offset=0, *a, **k):
    p = arr(x)
    if p.ndim == 1:
        r = np.empty((p.size, p.size), dtype=object)
        r.fill(0)
        for i, v in enumerate(p):
            r[i, i] = v
        return wrap(r)
    return wrap(np.array([p[i, i + offset] for i in range(min(p.shape[0], p.shape[1] - offset))], dtype=object))


def trace(x):
    p = arr(x)
    return wrap(sum(p[i, i] for i in range(min(p.shape))))


def mse(x, y, *a, reduction='mean', **k):
    d = arr(x) - arr(y)
    d = d * d
    return wrap(d if reduction == 'none' else np.sum(d) / (d.size if reduction == 'mean' else 1))


def cat(ts, dim=0, axis=None, **k):
    return wrap(np.concatenate([arr(t).astype(object) for t in ts], axis=dim if axis is None else axis))


def stack(ts, dim=0, axis=None, **k):
    return wrap(np.stack([arr(t).astype(object) for t in ts], axis=dim if axis is None else axis))


def transpose(x, *d, **k):
    return wrap(np.swapaxes(arr(x), k.get('dim0', d[0] if d else 0), k.get('dim1', d[1] if d else 1)))


def permute(x, *d, **k):
    return wrap(np.transpose(arr(x), shape_(*(k.get('dims') or d))))


def expand(x, *s):
    a = arr(x)
    s = shape_(*s)
    s = tuple(a.shape[i - len(s) + a.ndim] if v == -1 else v for i, v in enumerate(s))
    return wrap(np.broadcast_to(a, s))


def view_as(x, y):
    return wrap(arr(x).reshape(arr(y).shape))


def flatten(x, *a, **k):
    return wrap(arr(x).reshape(-1))


def same(x, *a, **k):
    return x if isinstance(x, Ten) else wrap(arr(x))


def copy(x, *a, **k):
    return wrap(arr(x).copy())


def getitem(x, i):
    return x[i]


F = {
    'add': bin_(operator.add), 'sub': bin_(operator.sub), 'rsub': bin_(operator.sub, True), 'mul': bin_(operator.mul), 'div': _div,
    '__radd__': bin_(operator.add), '__rsub__': bin_(operator.sub, True), '__rmul__': bin_(operator.mul), '__rdiv__': bin_(operator.truediv, True),
    '__rtruediv__': bin_(operator.truediv, True), '__rmatmul__': lambda x, y: matmul(y, x), '__rpow__': lambda x, y: _pow(y, x),
    'true_divide': _div, 'divide': _div, 'multiply': bin_(operator.mul), 'subtract': bin_(operator.sub),
    'pow': _pow, 'float_power': _pow, 'square': lambda x: bin_(operator.mul)(x, x), 'gt': bin_(operator.gt), 'lt': bin_(operator.lt), 'ge': bin_(operator.ge), 'le': bin_(operator.le),
    'eq': bin_(operator.eq), 'ne': bin_(operator.ne),
    'neg': lambda x: wrap(-arr(x)), 'negative': lambda x: wrap(-arr(x)), 'abs': lambda x: wrap(sub(abs, arr(x).astype(object))), 'absolute': lambda x: wrap(sub(abs, arr(x).astype(object))),
    'reciprocal': lambda x: bin_(operator.truediv)(1.0, x),
    'matmul': matmul, 'mm': matmul, 'bmm': matmul, 'mv': matmul, 'dot': matmul, '__matmul__': matmul, 'matrix_power': matrix_power, 'linalg_matrix_power': matrix_power,
    'einsum': einsum, 'linear': linear, 'trace': trace, 'diagonal': diagonal, 'diag': diagonal, 'tril': tri(True), 'triu': tri(False),
    'sum': red(lambda a, d: np.sum(a, axis=d)), 'mean': red(_mean), 'prod': red(lambda a, d: np.prod(a, axis=d)), 'var': var, 'std': std, 'norm': norm, 'linalg_norm': lnorm, 'linalg_vector_norm': norm,
    'exp': un('exp', math.exp), 'log': un('log', math.log), 'sqrt': un('sqrt', math.sqrt), 'sin': un('sin', math.sin), 'cos': un('cos', math.cos), 'tanh': un('tanh', math.tanh),
    'sigmoid': un('expit', _sig), 'special_expit': un('expit', _sig), 'cosh': lambda x: wrap(sub(_cosh, arr(x).astype(object))), 'log1p': un('log1p', math.log1p),
    'reshape': reshape, 'view': reshape, 'view_as': view_as, 'reshape_as': view_as, 'flatten': flatten, 'ravel': flatten, 'squeeze': squeeze,
    'unsqueeze': lambda x, dim: wrap(np.expand_dims(arr(x), dim)), 't': lambda x: wrap(arr(x).T), 'transpose': transpose, 'swapaxes': transpose, 'permute': permute, 'expand': expand,
    'expand_as': lambda x, y: wrap(np.broadcast_to(arr(x), arr(y).shape)), 'repeat': lambda x, *s: wrap(np.tile(arr(x), shape_(*s))),
    'cat': cat, 'concat': cat, 'concatenate': cat, 'stack': stack, 'sort': sort, 'max': extreme(True), 'min': extreme(False), 'maximum': extreme(True), 'minimum': extreme(False), 'amax': extreme(True), 'amin': extreme(False),
    'clamp': clamp, 'clip': clamp, 'relu': lambda x, *a, **k: clamp(x, 0), 'where': where, 'zeros_like': like(0), 'ones_like': like(1), 'empty_like': like(0), 'mse_loss': mse,
    'contiguous': same, 'cpu': same, 'detach': same, 'to': same, 'double': same, 'float': same, 'type': same, 'requires_grad_': same, 'numpy_': same, 'to_dense': same, 'clone': copy,
    'numel': lambda x: int(arr(x).size), 'dim': lambda x: arr(x).ndim, 'tolist': lambda x: arr(x).tolist(), 'select': lambda x, d, i: wrap(np.take(arr(x), i, axis=d)),
    'narrow': lambda x, d, s, n: wrap(np.take(arr(x), range(s, s + n), axis=d)), '__getitem__': lambda x, i: wrap(arr(x)).__getitem__(i), 'unbind': lambda x, dim=0: tuple(wrap(v) for v in np.moveaxis(arr(x), dim, 0)),
    'logical_not': lambda x: wrap(~arr(x)), 'outer': lambda x, y: wrap(np.outer(arr(x), arr(y))), 'is_tensor': lambda x: True,
    'softplus': lambda x, *a, **k: wrap(sub(lambda v: v.softplus() if isinstance(v, SymReal) else math.log1p(math.exp(-abs(v))) + max(v, 0), arr(x).astype(object))),
    'masked_fill': lambda x, m, v: where(m, wrap(np.broadcast_to(arr(v), arr(x).shape)), x),
}
IN = {'add_': 'add', 'sub_': 'sub', 'mul_': 'mul', 'div_': 'div', 'pow_': 'pow', 'neg_': 'neg', 'sqrt_': 'sqrt', 'exp_': 'exp', 'abs_': 'abs', 'clamp_': 'clamp', 'masked_fill_': 'masked_fill', 'sigmoid_': 'sigmoid', 'square_': 'square'}
MISSING = []


class Named:
    def __init__(self, n):
        self.__name__ = n


class Ten:
    __array_ufunc__ = None
    __slots__ = ('a', 'grad', 'bounds', 'calls', 'hook', 'requires_grad')

    def __init__(self, a, hook=None):
        self.a = np.asarray(a)
        self.grad = None
        self.hook = hook
        self.requires_grad = True

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = func.__name__
        if n == '__get__' or n == '__set__':
            raise ForkUnsupported('torch attribute')
        f = F.get(n)
        if f is None:
            if n in IN or not hasattr(Ten, n):
                MISSING.append(n)
                raise ForkUnsupported('torch function ' + n)
            return getattr(args[0], n)(*args[1:], **(kwargs or {}))
        k = dict(kwargs or {})
        for x in ('input', 'self'):
            if x in k:
                args = (k.pop(x),) + tuple(args)
        for x, y in (('other', 1), ('exponent', 1), ('tensors', 0)):
            if x in k:
                args = tuple(args) + (k.pop(x),)
        for x in ('out', 'dtype', 'stable', 'requires_grad', 'device'):
            k.pop(x, None)
        return f(*args, **k)

    def __getattr__(self, n):
        f = F.get(n)
        if f is not None:
            def g(*a, **k):
                return Ten.__torch_function__(Named(n), (), (self,) + a, k)
            return g
        if n in IN:
            def h(*a, **k):
                r = F[IN[n]](self, *a, **k).a
                if r.shape == self.a.shape and self.a.dtype == object and self.a.flags.writeable:
                    self.a[...] = r
                else:
                    self.a = r
                return self
            return h
        raise AttributeError(n)

    # attributes
    @property
    def T(self):
        return wrap(self.a.T)
    mT = T

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self.a = arr(v)

    @property
    def shape(self):
        import torch
        return torch.Size(self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def dtype(self):
        import torch
        return torch.float64

    @property
    def device(self):
        import torch
        return torch.device('cpu')

    @property
    def is_sparse(self):
        return False

    @property
    def is_cuda(self):
        return False

    @property
    def grad_fn(self):
        return None

    @property
    def is_leaf(self):
        return True

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def nelement(self):
        return int(self.a.size)

    def new(self, *s):
        return like(0)(np.empty(shape_(*s)))

    def new_zeros(self, *s, **k):
        return like(0)(np.empty(shape_(*s)))

    def zero_(self):
        self.a = like(0)(self).a
        return self

    def fill_(self, v):
        self.a = like(uplift(v))(self).a
        return self

    def copy_(self, o):
        self.a = np.broadcast_to(arr(o), self.a.shape).copy()
        return self

    def fill_diagonal_(self, v):
        a = self.a.copy()
        for i in range(min(a.shape)):
            a[i, i] = v
        self.a = a
        return self

    def item(self):
        v = self.a.reshape(-1)
        if v.size != 1:
            raise RuntimeError('a tensor with %d elements cannot be converted to a number' % v.size)
        return uplift(v[0])

    def numpy(self, *a, **k):
        return self.a.view(OA) if self.a.dtype == object else self.a

    def __array__(self, *a, **k):
        return self.a

    def backward(self, *a, **k):
        if self.a.size != 1:
            raise RuntimeError('grad can be implicitly created only for scalar outputs')
        BACK.append(self)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (wrap(v) for v in self.a)

    def __getitem__(self, i):
        return wrap(self.a[self._ix(i)])

    def __setitem__(self, i, v):
        self.a[self._ix(i)] = arr(v) if isinstance(v, Ten) else v

    def _ix(self, i):
        if isinstance(i, tuple):
            return tuple(self._ix(x) for x in i)
        if isinstance(i, Ten) or hasattr(i, 'detach'):
            a = arr(i)
            if a.dtype == object:
                a = np.array([bool(v) for v in a.ravel()]).reshape(a.shape)
            return a
        return i

    def __bool__(self):
        return bool(self.item())

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'Ten' + str(self.a.shape)

    def __format__(self, s):
        return repr(self)

    def __copy__(self):
        return wrap(self.a.copy())

    def __deepcopy__(self, memo):
        return wrap(self.a.copy())


BACK = []


def _op(name, fn, ref=False):
    f = F[fn]

    def g(self, o):
        if not isinstance(o, (Ten, SymReal, int, float, np.ndarray, np.generic, SymBool)) and not hasattr(o, 'detach'):
            return NotImplemented
        return f(o, self) if ref else f(self, o)
    setattr(Ten, name, g)


for _n, _f in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('pow', 'pow'), ('matmul', 'matmul')):
    _op('__%s__' % _n, _f)
    _op('__r%s__' % _n, _f, True)
for _n in ('gt', 'lt', 'ge', 'le', 'eq', 'ne'):
    _op('__%s__' % _n, _n)
for _n, _f in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div')):
    def _mk(f):
        def g(self, o):
            r = f(self, o).a
            if r.shape == self.a.shape and self.a.dtype == object and self.a.flags.writeable:
                self.a[...] = r
            else:
                self.a = r
            return self
        return g
    setattr(Ten, '__i%s__' % _n, _mk(F[_f]))
Ten.__neg__ = lambda self: F['neg'](self)
Ten.__abs__ = lambda self: F['abs'](self)
Ten.__invert__ = lambda self: F['logical_not'](self)
Ten.__hash__ = lambda self: id(self)


def install(ctx):
    """symbolic runs: arrays of symbolic values become symbolic tensors"""
    import torch
    del BACK[:]
    torch.set_default_dtype(torch.double)
    symnp.install(ctx, zeros=True)
    if not getattr(ctx, 'symbolic', False):
        return
    for nm in ('from_numpy', 'tensor', 'as_tensor', 'Tensor'):
        orig = getattr(torch, nm)
        if nm == 'Tensor':
            continue

        def mk(orig):
            def g(x, *a, **k):
                if isinstance(x, Ten):
                    return x
                if isinstance(x, SymReal) or (isinstance(x, np.ndarray) and x.dtype == object) or (isinstance(x, (list, tuple)) and symnp.isobj(x)):
                    return wrap(x if isinstance(x, (np.ndarray, SymReal)) else np.array(x, dtype=object))
                return orig(x, *a, **k)
            return g
        ctx.patch(torch, nm, mk(orig))


def give(ctx, module, name, values):
    """set the parameter of a real module to the values (symbolic or not)"""
    import torch
    p = module._parameters[name]
    if getattr(ctx, 'symbolic', False):
        t = wrap(np.array(values, dtype=object).reshape(tuple(p.shape)))
        if hasattr(p, 'bounds'):
            t.bounds = p.bounds
        module.__dict__[name] = t
        return t
    with torch.no_grad():
        p.copy_(torch.tensor([float(v) for v in np.ravel(np.array(values, dtype=object))], dtype=torch.double).view_as(p))
    return p


def val(x):
    """values of a tensor (real or symbolic) as an array"""
    return arr(x)
