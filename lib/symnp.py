"""numpy / scipy / math / matplotlib stand-ins for symbolic execution.

Arrays are real numpy object arrays (subclass SymArray), so indexing, slicing, reshaping and views are
numpy's own.  Element arithmetic is exact symbolic arithmetic (symeng).  Comparisons are decided on the
current path and yield ordinary boolean arrays.  Everything numpy does with floats natively (fft, mean,
interp, polyfit, simpson, welch ...) has a symbolic model here, written from its documented definition.
"""
import sys, math, types, builtins
from fractions import Fraction as F
import numpy as np
import z3
import symeng as E
from symeng import SymReal, SymInt, SymComplex, SymFP, EngineLimit, add, sub, mul, div, power, is_sym

nd = np.ndarray


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (float, SymFP)) or (builtins.isinstance(x, SymReal) and not builtins.isinstance(x, SymInt))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)

    def __call__(cls, x=0.0):
        if builtins.isinstance(x, SymInt):
            return SymReal(x.p)
        if builtins.isinstance(x, (SymReal, SymFP)):
            return x
        if builtins.isinstance(x, nd):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return FloatT(x.reshape(-1)[0])
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatT(metaclass=FloatMeta):
    """stands in for builtins.float in the code under analysis"""
    fromhex = float.fromhex


class ComplexMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (complex, SymComplex))

    def __call__(cls, re=0.0, im=0.0):
        if is_sym(re) or is_sym(im):
            if builtins.isinstance(re, SymComplex):
                return re
            return E.mkc(re, im)
        return complex(re, im)

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class ComplexT(metaclass=ComplexMeta):
    pass


def dt_kind(dt):
    """'f' 'c' 'i' 'b' 'O' of a dtype-like"""
    if dt is None or dt is FloatT or dt is SymReal:
        return 'f'
    if dt is ComplexT or dt is SymComplex:
        return 'c'
    if dt is SymInt:
        return 'i'
    if dt is SymFP:
        return 'f'
    d = np.dtype(dt)
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(d.kind, 'O')


def dt_prec(dt):
    """significand bits of a reduced-precision float dtype, otherwise None"""
    if dt is None:
        return None
    try:
        dt = getattr(dt, '_real', dt)
        d = np.dtype(dt)
    except TypeError:
        return None
    return {('f', 4): 24, ('c', 8): 24, ('f', 2): 11}.get((d.kind, d.itemsize))


def reduce_prec(x, prec):
    """rounding to a reduced precision: exact for numbers, bounded by half a unit for symbolic values"""
    if isinstance(x, (SymComplex, complex, np.complexfloating)):
        re, im = E.cparts(x)
        re, im = reduce_prec(re, prec), reduce_prec(im, prec)
        return E.SymComplex(re, im) if is_sym(re) or is_sym(im) else complex(re, im)
    if isinstance(x, SymReal):
        return E.r_reduce(x, prec)
    if isinstance(x, SymFP):
        z = z3.fpToFP(z3.RNE(), z3.fpToFP(z3.RNE(), x.e, z3.FPSort(8, 24) if prec == 24 else z3.FPSort(5, 11)), SymFP.SORT)
        return SymFP(z)
    if isinstance(x, (float, np.floating)):
        with np.errstate(all='ignore'):
            return float((np.float32 if prec == 24 else np.float16)(x))
    return x


KIND_DT = {'f': np.dtype('float64'), 'c': np.dtype('complex128'), 'i': np.dtype('int64'), 'b': np.dtype(bool), 'O': np.dtype(object)}
RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}


def el_kind(x):
    if isinstance(x, (SymComplex, complex, np.complexfloating)):
        return 'c'
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (SymInt, int, np.integer)):
        return 'i'
    if isinstance(x, (SymReal, SymFP, float, np.floating)):
        return 'f'
    return 'O'


def cast(x, k):
    """element cast on assignment into an array of kind k"""
    if isinstance(x, nd):
        x = x.item() if x.size == 1 else x
    if k == 'f':
        if isinstance(x, SymInt):
            return SymReal(x.p)
        if isinstance(x, (SymReal, SymFP)):
            return x
        if isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, (complex, np.complexfloating)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return float(x)
    if k == 'c':
        if isinstance(x, (SymComplex,)):
            return x
        if isinstance(x, SymReal):
            return E.SymComplex(x, 0.0)
        return complex(x)
    if k == 'i':
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            t = E.r_intpart(x, 'trunc')
            return SymInt(t.p) if isinstance(t, SymReal) else int(t)
        if isinstance(x, SymFP):
            return int(x)
        return int(x)
    if k == 'b':
        return bool(x)
    return x


def npval(x):
    """concrete python scalar -> numpy scalar (numpy's division and error semantics)"""
    t = type(x)
    if t is float:
        return np.float64(x)
    if t is complex:
        return np.complex128(x)
    if t is int:
        return np.int64(x) if -2 ** 62 < x < 2 ** 62 else x
    if t is bool:
        return np.bool_(x)
    return x


class SymArray(nd):
    """object array with a logical element kind"""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', 'f')
        self.prec = getattr(obj, 'prec', None)

    @property
    def dtype(self):
        if self.prec and self.kind in 'fc':
            return np.dtype({'f24': 'float32', 'c24': 'complex64', 'f11': 'float16'}[f'{self.kind}{self.prec}'])
        return KIND_DT[self.kind]

    @property
    def itemsize(self):
        return 8

    def __getitem__(self, i):
        i = fix_index(i)
        r = nd.__getitem__(self, i)
        if isinstance(r, nd):
            return r
        return npval(r)

    def __setitem__(self, i, v):
        i = fix_index(i)
        k = self.kind
        if isinstance(v, nd) and v.ndim > 0:
            v = as_obj(v)
            c = np.empty(v.shape, dtype=object)
            cf = c.reshape(-1)
            for j, x in enumerate(v.reshape(-1)):
                cf[j] = cast(x, k)
                if self.prec:
                    cf[j] = reduce_prec(cf[j], self.prec)
            nd.__setitem__(self, i, c)
        elif isinstance(v, (list, tuple)):
            self.__setitem__(i, asarray(v))
        else:
            if isinstance(v, nd):
                v = as_obj(v).item()
            v = cast(v, k)
            nd.__setitem__(self, i, reduce_prec(v, self.prec) if self.prec else v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for j in range(self.shape[0]):
            yield self[j]

    def item(self, *a):
        r = nd.item(self, *a)
        return r

    def tolist(self):
        return nd.tolist(self.view(nd))

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        k = dt_kind(dt)
        if k == 'O':
            return self.copy()
        if self.kind == 'c' and k in 'fi':
            src = real_of(self)
        else:
            src = self
        out = new(self.shape, k)
        o, s = raw(out).reshape(-1), raw(src).reshape(-1)
        for j in range(len(s)):
            o[j] = cast(s[j], k)
        out.prec = dt_prec(dt)
        if out.prec and out.prec != self.prec:
            for j in range(len(s)):
                o[j] = reduce_prec(o[j], out.prec)
        if k == 'b' or (k == 'i' and not any(is_sym(x) for x in o)):
            return raw(out).astype(bool if k == 'b' else np.int64)
        return out

    @property
    def real(self):
        return part_view(self, 're') if self.kind == 'c' else real_of(self)

    @real.setter
    def real(self, v):
        part_view(self, 're')[...] = v

    @property
    def imag(self):
        return part_view(self, 'im') if self.kind == 'c' else imag_of(self)

    @imag.setter
    def imag(self, v):
        part_view(self, 'im')[...] = v

    def conj(self):
        return ew1(np.conjugate, self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return m_sum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return m_mean(self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return m_var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return ew1(np.sqrt, m_var(self, axis, ddof, keepdims))

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return m_minmax(self, axis, '>', keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return m_minmax(self, axis, '<', keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, out=None, **kw):
        return m_arg(self, axis, '>')

    def argmin(self, axis=None, out=None, **kw):
        return m_arg(self, axis, '<')

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return m_argsort(self, axis, kind)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        raw(self)[...] = raw(m_sort(self, axis))

    def prod(self, axis=None, **kw):
        return handle_ufunc(np.multiply, 'reduce', (self,), {'axis': axis})

    def cumsum(self, axis=None, **kw):
        return handle_ufunc(np.add, 'accumulate', (self.reshape(-1) if axis is None else self,), {'axis': 0 if axis is None else axis})

    def dot(self, o, out=None):
        return generic(np.dot, (self, o), {})

    def round(self, decimals=0, out=None):
        return m_round(self, decimals)

    def all(self, axis=None, **kw):
        return truth(self).all(axis=axis)

    def any(self, axis=None, **kw):
        return truth(self).any(axis=axis)

    def nonzero(self):
        return truth(self).nonzero()

    def clip(self, min=None, max=None, out=None, **kw):
        return m_clip(self, min, max)

    def fill(self, v):
        self[...] = v

    def copy(self, order='C'):
        return wrap(raw(self).copy(), self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return handle_function(func, types, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(npval(raw(self).reshape(-1)[0]))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return FloatT(raw(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(raw(self).reshape(-1)[0])

    def __index__(self):
        if self.size != 1 or self.kind != 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return raw(self).reshape(-1)[0].__index__()

    def __contains__(self, v):
        return bool((self == v).any())

    def __repr__(self):
        return f'SymArray{self.shape}'

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


class PartView(SymArray):
    """real or imaginary part of a complex array: writing to it writes to the array"""
    _of = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', 'f')
        self.prec = getattr(obj, 'prec', None)
        self._of = 'derived' if getattr(obj, '_of', None) is not None else None

    def __setitem__(self, i, v):
        if self._of == 'derived':
            raise EngineLimit('writing to a slice of a real or imaginary part')
        SymArray.__setitem__(self, i, v)
        if self._of is not None:
            a, part = self._of
            o, w = raw(a), raw(self)
            for idx in np.ndindex(*o.shape):
                re, im = E.cparts(o[idx])
                re, im = (w[idx], im) if part == 're' else (re, w[idx])
                o[idx] = E.mkc(re, im) if is_sym(re) or is_sym(im) else complex(re, im)

    def __getitem__(self, i):
        r = SymArray.__getitem__(self, i)
        return plain(r) if isinstance(r, PartView) and not np.may_share_memory(r, self) else r

    def copy(self, order='C'):
        return wrap(raw(self).copy(), self.kind)


def plain(r):
    return raw(r).view(SymArray)


def part_view(a, part):
    if a.kind != 'c':
        if part == 're':
            return a
        raise EngineLimit('imaginary part of a real array set')
    r = real_of(a) if part == 're' else imag_of(a)
    if not isinstance(r, SymArray):
        r = wrap(as_obj(r), 'f')
    v = raw(r).view(PartView)
    v.kind = 'f'
    v._of = (a, part)
    return v


def raw(a):
    """plain object ndarray view"""
    return a.view(nd) if isinstance(a, SymArray) else a


def as_obj(a):
    if isinstance(a, SymArray):
        return raw(a)
    a = np.asarray(a)
    if a.dtype == object:
        return a
    return a.astype(object)


def fix_index(i):
    def f(x):
        if isinstance(x, SymArray):
            if x.kind == 'i':
                return np.array([int(v) for v in raw(x).reshape(-1)], dtype=np.int64).reshape(x.shape)
            if x.kind == 'b':
                return raw(x).astype(bool)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(x, SymInt):
            return int(x)
        if isinstance(x, slice):
            return slice(f(x.start), f(x.stop), f(x.step))
        if isinstance(x, (SymReal, SymFP)):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        return x
    return tuple(f(x) for x in i) if isinstance(i, tuple) else f(i)


def wrap(a, kind=None):
    """plain array -> SymArray (object), or plain bool/int arrays unchanged"""
    if isinstance(a, SymArray):
        if kind and a.kind != kind:
            a = a.view(SymArray)
            a.kind = kind
        return a
    if not isinstance(a, nd):
        return npval(a)
    if a.dtype != object:
        if a.dtype.kind in 'fc':
            k = a.dtype.kind
            o = a.astype(object).view(SymArray)
            o.kind = kind or k
            return o
        return a
    if kind is None:
        kind = 'f'
        ks = {el_kind(x) for x in a.reshape(-1)}
        if ks:
            kind = max(ks, key=lambda k: RANK[k])
    if kind == 'b' or (kind == 'i' and not any(is_sym(x) for x in a.reshape(-1))):
        return a.astype(bool if kind == 'b' else np.int64)
    if kind == 'O':
        return a
    r = a.view(SymArray)
    r.kind = kind
    return r


def arr_kind(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, nd):
        return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind, 'O')
    return el_kind(x)


def new(shape, kind='f', fill=None):
    a = np.empty(shape, dtype=object)
    if fill is None:
        fill = {'f': 0.0, 'c': 0j, 'i': 0, 'b': False}.get(kind)
    a.fill(fill)
    r = a.view(SymArray)
    r.kind = kind
    return r


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return any(is_sym(v) for v in raw(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def to_native(x):
    """SymArray without symbolic elements -> native array"""
    if isinstance(x, SymArray):
        return np.array(raw(x).tolist(), dtype=KIND_DT[x.kind]).reshape(x.shape)
    if isinstance(x, list):
        return [to_native(v) for v in x]
    if isinstance(x, tuple):
        return tuple(to_native(v) for v in x)
    return x


def from_native(x):
    if isinstance(x, nd):
        return wrap(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_native(v) for v in x)
    if isinstance(x, list):
        return [from_native(v) for v in x]
    return x


def asarray(x, dtype=None, copy=False):
    if dtype is not None and dt_prec(dtype) and not (isinstance(x, SymArray) and x.prec == dt_prec(dtype)):
        r = asarray(x, KIND_DT[dt_kind(dtype)])
        return (r if isinstance(r, SymArray) else wrap(r)).astype(dtype)
    if isinstance(x, SymArray):
        if dtype is not None and dt_kind(dtype) != x.kind and dt_kind(dtype) != 'O':
            return x.astype(dtype)
        return x.copy() if copy else x
    if isinstance(x, nd):
        if dtype is not None:
            k = dt_kind(dtype)
            if k in 'fc':
                return wrap(x.astype(object)).astype(dtype) if x.dtype == object else wrap(x.astype(KIND_DT[k]))
            return x.astype(KIND_DT[k])
        r = wrap(x)
        return r.copy() if copy and r is x else r
    # scalars and nested sequences

    def norm(v):
        if isinstance(v, (list, tuple)):
            return [norm(q) for q in v]
        if isinstance(v, nd):
            return [norm(q) for q in as_obj(v)] if v.ndim > 0 else norm(as_obj(v).item())
        if isinstance(v, range):
            return list(v)
        return v
    y = norm(x)

    def shp(v):
        if not isinstance(v, list):
            return ()
        if not v:
            return (0,)
        s = [shp(q) for q in v]
        if any(q != s[0] for q in s):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(v),) + s[0]
    s = shp(y)
    flat = []

    def rec(v):
        if isinstance(v, list):
            for q in v:
                rec(q)
        else:
            flat.append(v)
    rec(y)
    a = np.empty(len(flat), dtype=object)
    for j, v in enumerate(flat):
        a[j] = v.item() if isinstance(v, np.generic) else v
    a = a.reshape(s)
    if not flat:
        r = new(s, 'f')
        return r if dtype is None else r.astype(dtype)
    ks = {el_kind(v) for v in flat}
    if 'O' in ks:
        return np.array(x)
    k = max(ks, key=lambda q: RANK[q])
    if dtype is not None and dt_kind(dtype) != 'O':
        k2 = dt_kind(dtype)
        if k == 'c' and k2 in 'fi':
            raise TypeError('float() argument must be a real number')
        k = k2
    o = a.reshape(-1)
    for j in range(len(flat)):
        o[j] = cast(o[j], k)
    return wrap(a, k)


# ------------------------------------------------------------------------------------------ element ufuncs

def _cmpop(op):
    def f(a, b):
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            if not isinstance(a, SymFP):
                return {'<': b.__gt__, '<=': b.__ge__, '>': b.__lt__, '>=': b.__le__, '==': b.__eq__, '!=': b.__ne__}[op](npu(a))
            b = npu(b)
            return {'<': a.__lt__, '<=': a.__le__, '>': a.__gt__, '>=': a.__ge__, '==': a.__eq__, '!=': a.__ne__}[op](b)
        if E._is_c(a) or E._is_c(b):
            ar, ai = E.cparts(a)
            br, bi = E.cparts(b)
            if op in ('==', '!='):
                r = bool(E.r_cmp(ar, br, '==')) and bool(E.r_cmp(ai, bi, '=='))
                return r if op == '==' else not r
            # lexicographic, as numpy
            if E.r_cmp(ar, br, '=='):
                return E.r_cmp(ai, bi, op)
            return E.r_cmp(ar, br, op.rstrip('='))
        na, nb = E._num(a), E._num(b)
        if na is None or nb is None:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
        return E.r_cmp(na, nb, op)
    return f


def _fpwrap(f, name):
    def g(a, b):
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            if not isinstance(a, SymFP):
                return {'add': b.__radd__, 'sub': b.__rsub__, 'mul': b.__rmul__, 'div': b.__rtruediv__}[name](npu(a))
            b = npu(b)
            return {'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__, 'div': a.__truediv__}[name](b)
        return f(npu(a), npu(b))
    return g


def npu(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, nd) and x.ndim == 0:
        return npu(x.item())
    return x


def _cdiv(a, b):
    if not is_sym(a) and not is_sym(b) and (isinstance(a, complex) or isinstance(b, complex)):
        with np.errstate(all='ignore'):
            return complex(np.complex128(a) / np.complex128(b))
    return div(a, b)


def _isnan(a):
    if isinstance(a, SymFP):
        return a.mono is None and E.cur().branch(E.z3.fpIsNaN(a.e))
    if isinstance(a, SymReal):
        return False
    re, im = E.cparts(a)
    return any(not isinstance(v, SymReal) and v != v for v in (re, im))


def _isinf(a):
    if isinstance(a, SymFP):
        return a.mono is None and E.cur().branch(E.z3.fpIsInf(a.e))
    re, im = E.cparts(a)
    return any(not isinstance(v, SymReal) and v in (math.inf, -math.inf) for v in (re, im))


def _abs(a):
    return abs(a) if not isinstance(a, np.generic) else abs(a.item())


def _sign(a):
    if isinstance(a, SymFP):
        return 1.0 if a > 0 else (-1.0 if a < 0 else 0.0)
    if isinstance(a, (SymReal, int, float)):
        s = E.sgn(a)
        return float(s) if el_kind(a) == 'f' else int(s)
    return np.sign(a)


def _native1(name):
    fn = getattr(np, name)

    def f(a):
        with np.errstate(all='ignore'):
            r = fn(np.complex128(a) if isinstance(a, complex) else np.float64(a))
        return r.item()
    return f


def _u1(name, sym):
    nat = _native1(name)

    def f(a):
        a = npu(a)
        if is_sym(a):
            return sym(a)
        return nat(a)
    return f


def _max(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if _cmpop('>=')(a, b) else b


def _min(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return a if _cmpop('<=')(a, b) else b


def _hypot(a, b):
    return E.r_sqrt(add(mul(a, a), mul(b, b)))


def _sin(a):
    return E.cos_sin(a)[1]


def _cos(a):
    return E.cos_sin(a)[0]


def _exp(a):
    if isinstance(a, SymComplex):
        return E.c_exp(a)
    return E.r_fn('exp', a)


def _sqrt(a):
    if isinstance(a, SymComplex):
        raise EngineLimit('complex square root')
    return E.r_sqrt(a)


def _conj(a):
    a = npu(a)
    return a.conjugate()


def _fn(name):
    return lambda a: E.r_fn(name, a)


def _expm1(a):
    return sub(E.r_fn('exp', a), 1.0)


def _log1p(a):
    return E.r_fn('log', add(a, 1.0))


def _log10(a):
    return mul(E.r_fn('log', a), 1 / math.log(10))


def _log2(a):
    return mul(E.r_fn('log', a), 1 / math.log(2))


def _tan(a):
    c, s = E.cos_sin(a)
    return div(s, c)


def _sinh(a):
    e = E.r_fn('exp', a)
    return mul(sub(e, div(1.0, e)), 0.5)


def _cosh(a):
    e = E.r_fn('exp', a)
    return mul(add(e, div(1.0, e)), 0.5)


def _angle_unsupported(a):
    raise EngineLimit('inverse trigonometric function')


U1 = {
    'negative': lambda a: -npu(a), 'positive': lambda a: npu(a), 'absolute': lambda a: _abs(a), 'fabs': lambda a: _abs(a),
    'sign': lambda a: _sign(npu(a)), 'conjugate': _conj,
    'sqrt': _u1('sqrt', _sqrt), 'exp': _u1('exp', _exp), 'log': _u1('log', _fn('log')), 'tanh': _u1('tanh', _fn('tanh')),
    'cos': _u1('cos', _cos), 'sin': _u1('sin', _sin), 'tan': _u1('tan', _tan), 'sinh': _u1('sinh', _sinh), 'cosh': _u1('cosh', _cosh),
    'expm1': _u1('expm1', _expm1), 'log1p': _u1('log1p', _log1p), 'log10': _u1('log10', _log10), 'log2': _u1('log2', _log2),
    'square': lambda a: mul(npu(a), npu(a)), 'reciprocal': lambda a: _cdiv(1.0, npu(a)),
    'cbrt': _u1('cbrt', lambda a: E.nth_root(E.cur(), a, 3) if E.sgn(a) > 0 else (0.0 if E.sgn(a) == 0 else -E.nth_root(E.cur(), -a, 3))),
    'floor': lambda a: _ip(a, 'floor'), 'ceil': lambda a: _ip(a, 'ceil'), 'rint': lambda a: _ip(a, 'rint'), 'trunc': lambda a: _ip(a, 'trunc'),
    'deg2rad': lambda a: mul(npu(a), math.pi / 180), 'rad2deg': lambda a: mul(npu(a), 180 / math.pi),
    'arctan': _u1('arctan', _fn('arctan')),
}
U1B = {'isnan': lambda a: _isnan(npu(a)), 'isinf': lambda a: _isinf(npu(a)), 'isfinite': lambda a: not _isnan(npu(a)) and not _isinf(npu(a)),
       'logical_not': lambda a: not bool(npu(a)), 'signbit': lambda a: bool(npu(a) < 0)}
U2 = {
    'add': _fpwrap(add, 'add'), 'subtract': _fpwrap(sub, 'sub'), 'multiply': _fpwrap(mul, 'mul'), 'divide': _fpwrap(_cdiv, 'div'),
    'power': lambda a, b: power(npu(a), npu(b)), 'float_power': lambda a, b: power(npu(a), npu(b)),
    'floor_divide': lambda a, b: E.floordiv(npu(a), npu(b)), 'remainder': lambda a, b: E.mod(npu(a), npu(b)),
    'maximum': lambda a, b: _max(npu(a), npu(b)), 'minimum': lambda a, b: _min(npu(a), npu(b)),
    'fmax': lambda a, b: _max(npu(a), npu(b)), 'fmin': lambda a, b: _min(npu(a), npu(b)),
    'hypot': lambda a, b: _hypot(npu(a), npu(b)),
    'copysign': lambda a, b: _copysign(npu(a), npu(b)), 'heaviside': lambda a, b: _heaviside(npu(a), npu(b)), 'fmod': lambda a, b: _fmod(npu(a), npu(b)),
}
U2B = {'less': _cmpop('<'), 'less_equal': _cmpop('<='), 'greater': _cmpop('>'), 'greater_equal': _cmpop('>='),
       'equal': _cmpop('=='), 'not_equal': _cmpop('!='),
       'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
       'logical_xor': lambda a, b: bool(a) != bool(b),
       'bitwise_and': lambda a, b: bool(a) and bool(b), 'bitwise_or': lambda a, b: bool(a) or bool(b)}


def _copysign(a, b):
    a = _abs(a)
    if is_sym(b):
        return -a if b < 0 else a
    return -a if math.copysign(1.0, b) < 0 else a


def _heaviside(a, b):
    return 0.0 if a < 0 else 1.0 if a > 0 else b


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        return sub(a, mul(b, E.r_intpart(div(a, b), 'trunc')))
    return math.fmod(a, b)


def _ip(a, mode):
    a = npu(a)
    if isinstance(a, SymFP):
        return getattr(a, mode)()
    return E.r_intpart(a, mode)


def ew1(uf, a):
    return handle_ufunc(uf, '__call__', (a,), {})


def elementwise(f, a, b):
    """python-level operator on a SymArray/array"""
    name = {add: 'add', sub: 'subtract', mul: 'multiply', div: 'divide', power: 'power', E.floordiv: 'floor_divide', E.mod: 'remainder'}[f]
    return handle_ufunc(getattr(np, name), '__call__', (a, b), {})


def res_kind(name, ins):
    k = max((arr_kind(x) for x in ins), key=lambda q: RANK[q])
    if name in ('divide', 'sqrt', 'exp', 'log', 'tanh', 'cos', 'sin', 'tan', 'sinh', 'cosh', 'expm1', 'log1p', 'log10', 'log2', 'reciprocal', 'hypot', 'float_power', 'floor', 'ceil', 'rint', 'trunc', 'deg2rad', 'rad2deg', 'arctan', 'cbrt'):
        k = max(k, 'f', key=lambda q: RANK[q])
    if name in ('absolute', 'fabs') and k == 'c':
        k = 'f'
    if k == 'b':
        k = 'i'
    return k


def handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('subok', None)
    dtype = kw.pop('dtype', None)
    kw.pop('order', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    ins = []
    for x in inputs:
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        elif isinstance(x, nd) and x.dtype == object and not isinstance(x, SymArray):
            x = wrap(x)
        ins.append(x)
    if method == '__call__':
        if name == 'matmul':
            return generic(np.dot, tuple(ins), {})
        if name == 'divmod':
            return tuple(handle_ufunc(u, '__call__', tuple(ins), {}) for u in (np.floor_divide, np.remainder))
        f = U1.get(name) or U2.get(name)
        fb = U1B.get(name) or U2B.get(name)
        if name in ('divmod', 'modf', 'frexp') or (f is None and fb is None):
            if not any(has_sym(x) for x in ins):
                r = getattr(ufunc, method)(*[to_native(x) for x in ins])
                return store(from_native(r), out)
            raise EngineLimit(f'ufunc {name} on symbolic values')
        if fb is not None and name.startswith('bitwise') and any(arr_kind(x) != 'b' for x in ins):
            raise EngineLimit('bit operations')
        if name == 'power' and all(arr_kind(x) in 'ib' for x in ins):
            e = ins[1]
            ev = as_obj(e).reshape(-1) if isinstance(e, nd) else [e]
            if any(not is_sym(v) and v < 0 for v in ev):
                raise ValueError('Integers to negative integer powers are not allowed.')
        # 0-d / scalars
        if all(not isinstance(x, nd) or x.ndim == 0 for x in ins) and where is True:
            xs = [x.item() if isinstance(x, nd) else x for x in ins]
            r = (f or fb)(*xs)
            if fb:
                r = np.bool_(r)
            else:
                if not is_sym(r):
                    r = cast(r, res_kind(name, ins))
                r = npval(r)
            return store(r, out)
        objs = [as_obj(x) if isinstance(x, nd) else x for x in ins]
        bc = np.broadcast(*[o if isinstance(o, nd) else _box(o) for o in objs])
        res = np.empty(bc.shape, dtype=object)
        rf = res.reshape(-1)
        wh = None
        if where is not True:
            wh = np.broadcast_to(truth(where), bc.shape).reshape(-1)
            if out is None:
                raise EngineLimit('ufunc where without out')
        k = 'b' if fb else res_kind(name, ins)
        g = f or fb
        for j, xs in enumerate(bc):
            if wh is not None and not wh[j]:
                rf[j] = None
                continue
            v = g(*xs)
            rf[j] = v if (is_sym(v) or fb) else cast(v, k)
        if wh is not None:
            of = as_obj(out)
            for idx in np.ndindex(*bc.shape):
                if res[idx] is not None:
                    out[idx] = res[idx]
            return out
        r = wrap(res, k)
        if dtype is not None and not fb and dt_kind(dtype) in 'fci' and dt_kind(dtype) != k:
            r = r.astype(dtype)
        return store(r, out)
    if method in ('reduce', 'accumulate'):
        a = asarray(ins[0]) if not isinstance(ins[0], nd) else ins[0]
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        init = kw.get('initial', np._NoValue)
        if name in ('logical_and', 'logical_or') and method == 'reduce':
            t = truth(a)
            r = (t.all if name == 'logical_and' else t.any)(axis=axis, keepdims=keep)
            return store(r, out)
        if not isinstance(a, SymArray):
            return store(getattr(ufunc, method)(a, axis=axis), out)
        g = U2.get(name)
        if g is None:
            raise EngineLimit(f'{name}.{method}')
        o = raw(a)
        if method == 'reduce':
            if axis is None:
                vals = list(o.reshape(-1))
                if init is not np._NoValue and init is not None:
                    vals = [init] + vals
                if not vals:
                    if name in ('maximum', 'minimum'):
                        raise ValueError('zero-size array to reduction operation has no identity')
                    return npval(cast({'add': 0, 'multiply': 1}[name], a.kind))
                r = fold(g, name, vals)
                r = npval(r)
                if keep:
                    r = asarray(r).reshape((1,) * a.ndim)
                return store(r, out)
            axes = (axis,) if not isinstance(axis, tuple) else axis
            m = np.moveaxis(o, axes, range(len(axes)))
            m = m.reshape((-1,) + m.shape[len(axes):])
            res = np.empty(m.shape[1:], dtype=object)
            for idx in np.ndindex(*m.shape[1:]):
                vals = [m[(i,) + idx] for i in range(m.shape[0])]
                if not vals:
                    if name in ('maximum', 'minimum'):
                        raise ValueError('zero-size array to reduction operation has no identity')
                    res[idx] = cast({'add': 0, 'multiply': 1}[name], a.kind)
                else:
                    res[idx] = fold(g, name, vals)
            if keep:
                for ax in sorted(x % a.ndim for x in axes):
                    res = np.expand_dims(res, ax)
            r = wrap(res, a.kind) if res.ndim else npval(res.item())
            return store(r, out)
        m = np.moveaxis(o, axis, 0)
        res = np.empty(m.shape, dtype=object)
        for idx in np.ndindex(*m.shape[1:]):
            acc = None
            for i in range(m.shape[0]):
                acc = m[(i,) + idx] if acc is None else g(acc, m[(i,) + idx])
                res[(i,) + idx] = acc
        return store(wrap(np.moveaxis(res, 0, axis), a.kind), out)
    if method == 'outer':
        a, b = asarray(ins[0]), asarray(ins[1])
        return handle_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == 'at':
        a, idx = ins[0], inputs[1]
        i = fix_index(idx)
        b = ins[2] if len(ins) > 2 else None
        n = np.arange(a.shape[0])[i] if a.ndim == 1 else None
        if n is None or isinstance(n, (int, np.integer)):
            raise EngineLimit('ufunc.at')
        for k, j in enumerate(n):
            v = () if b is None else (b[k] if isinstance(b, nd) and b.ndim else b,)
            a[int(j)] = handle_ufunc(ufunc, '__call__', (a[int(j)],) + v, {})
        return None
    if method == 'reduceat':
        a = asarray(ins[0])
        idx = [int(i) for i in np.asarray(inputs[1]).reshape(-1)]
        axis = kw.get('axis', 0)
        n = a.shape[axis]
        m = np.moveaxis(a, axis, 0)
        parts = []
        for k, i in enumerate(idx):
            if not 0 <= i < n:
                raise IndexError('index out of bounds')
            j = idx[k + 1] if k + 1 < len(idx) else n
            parts.append(handle_ufunc(ufunc, 'reduce', (m[i:j],), {'axis': 0}) if j > i else m[i])
        r = asarray(parts) if a.ndim == 1 else generic(np.stack, (parts,), {})
        if a.ndim == 1 and isinstance(r, SymArray) and r.kind != a.kind:
            r = wrap(as_obj(r), a.kind)
        return store(np.moveaxis(r, 0, axis) if a.ndim > 1 else r, out)
    raise EngineLimit(f'ufunc method {method}')


def fold(g, name, vals):
    if name == 'add' and len(vals) > 8 and not any(isinstance(v, SymFP) for v in vals):
        return sum_list(vals)
    r = vals[0]
    for v in vals[1:]:
        r = g(r, v)
    return r


def sum_list(vals):
    """exact sum, one polynomial accumulation"""
    re, im = {}, None
    cplx = False
    ints = True
    spec = None
    for v in vals:
        v = npu(v)
        if E._is_c(v):
            cplx = True
            a, b = E.cparts(v)
        else:
            a, b = v, 0.0
        if el_kind(v) not in 'ib':
            ints = False
        if E._special(a) or E._special(b):
            spec = True
        if spec:
            continue
        for x, which in ((a, 0), (b, 1)):
            if which == 1:
                if not cplx and not isinstance(b, SymReal):
                    continue
                if im is None:
                    im = {}
            t = re if which == 0 else im
            for m, c in E.lift(x).items():
                w = t.get(m)
                t[m] = c if w is None else w + c
    if spec:
        r = vals[0]
        for v in vals[1:]:
            r = add(npu(r), npu(v))
        return r
    re = {m: c for m, c in re.items() if c}
    if not any(is_sym(npu(v)) for v in vals):
        # concrete: keep machine arithmetic
        s = sum(npu(v) for v in vals)
        return s
    r = E.mk(re, 'i' if ints else 'f')
    if cplx:
        return E.mkc(r, E.mk({m: c for m, c in (im or {}).items() if c}))
    return r


def _box(o):
    a = np.empty((), dtype=object)
    a[()] = o
    return a


def store(r, out):
    if out is None:
        return r
    if isinstance(out, SymArray):
        k = arr_kind(r)
        if RANK[k] > RANK[out.kind] and not (k == 'f' and out.kind == 'f'):
            raise TypeError(f"Cannot cast ufunc output from dtype('{KIND_DT[k]}') to dtype('{KIND_DT[out.kind]}') with casting rule 'same_kind'")
        out[...] = r
        return out
    if isinstance(out, nd):
        if out.dtype.kind in 'iu' and arr_kind(r) in 'fc':
            raise TypeError("Cannot cast ufunc output to integer with casting rule 'same_kind'")
        if has_sym(r):
            raise EngineLimit('symbolic result stored in a native array')
        out[...] = to_native(r) if isinstance(r, nd) else r
        return out
    raise EngineLimit('out argument')


def truth(a):
    if isinstance(a, SymArray):
        o = raw(a)
        r = np.empty(o.shape, dtype=bool)
        for idx in np.ndindex(*o.shape):
            r[idx] = bool(o[idx])
        return r
    return np.asarray(a, dtype=bool)


def real_of(a):
    if not isinstance(a, SymArray):
        if is_sym(a) or not isinstance(a, nd):
            return a.real
        return a.real
    if a.kind != 'c':
        return a
    out = new(a.shape, 'f')
    o, s = raw(out).reshape(-1), raw(a).reshape(-1)
    for j in range(len(s)):
        o[j] = E.cparts(s[j])[0]
    return out


def imag_of(a):
    if not isinstance(a, SymArray):
        return a.imag
    out = new(a.shape, 'f')
    if a.kind == 'c':
        o, s = raw(out).reshape(-1), raw(a).reshape(-1)
        for j in range(len(s)):
            o[j] = E.cparts(s[j])[1]
    return out


# ------------------------------------------------------------------------------------------ reductions

def _axis_apply(a, axis, f, kind, keepdims=False):
    o = raw(a)
    if axis is None:
        r = npval(f(list(o.reshape(-1))))
        return asarray(r).reshape((1,) * a.ndim) if keepdims else r
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise EngineLimit('several axes')
    m = np.moveaxis(o, axis, -1)
    res = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        res[idx] = f(list(m[idx]))
    if keepdims:
        res = np.expand_dims(res, axis)
    return wrap(res, kind) if res.ndim else npval(res.item())


def lsum(v):
    if any(isinstance(x, SymFP) for x in v):
        return fold(U2['add'], 'x', v)
    return sum_list(v) if v else 0.0


def lmean(v):
    if not v:
        return math.nan
    if any(isinstance(x, SymFP) for x in v):
        return U2['divide'](fold(U2['add'], 'x', v), float(len(v)))
    if not any(is_sym(npu(x)) for x in v):
        return npu(np.mean(np.array([npu(x) for x in v])))
    return div(lsum(v), len(v))


def m_sum(a, axis=None, keepdims=False):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.sum(a, axis=axis, keepdims=keepdims)
    return _axis_apply(a, axis, lsum, a.kind, keepdims)


def fkind(a):
    return 'c' if arr_kind(a) == 'c' else 'f'


def m_mean(a, axis=None, keepdims=False):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return from_native(np.mean(a, axis=axis, keepdims=keepdims))
    return _axis_apply(a, axis, lmean, fkind(a), keepdims)


def m_var(a, axis=None, ddof=0, keepdims=False):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return from_native(np.var(a, axis=axis, ddof=ddof, keepdims=keepdims))

    def f(v):
        if not v:
            return math.nan
        if not any(is_sym(npu(x)) for x in v):
            return npu(np.var(np.array([npu(x) for x in v]), ddof=ddof))
        m = lmean(v)
        q = []
        for x in v:
            d = sub(npu(x), m)
            if E._is_c(d):
                re, im = E.cparts(d)
                q.append(add(mul(re, re), mul(im, im)))
            else:
                q.append(mul(d, d))
        return _cdiv(sum_list(q), len(v) - ddof)
    return _axis_apply(a, axis, f, 'f', keepdims)


def lbest(v, op):
    if not v:
        raise ValueError('zero-size array to reduction operation has no identity')
    c = _cmpop(op)
    b = v[0]
    for x in v[1:]:
        if _isnan(b):
            return b
        if _isnan(x):
            return x
        if c(x, b):
            b = x
    return b


def m_minmax(a, axis, op, keepdims=False):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return (np.max if op == '>' else np.min)(a, axis=axis, keepdims=keepdims)
    return _axis_apply(a, axis, lambda v: lbest(v, op), a.kind, keepdims)


def m_arg(a, axis, op):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return (np.argmax if op == '>' else np.argmin)(a, axis=axis)

    def f(v):
        if not v:
            raise ValueError('attempt to get argmin of an empty sequence')
        c = _cmpop(op)
        b = 0
        for i in range(len(v)):
            if _isnan(v[i]):
                return i
            if i and c(v[i], v[b]):
                b = i
        return b
    r = _axis_apply(a, axis, f, 'i')
    return r


def sort_idx(v):
    """stable ascending order (numpy leaves the order of ties unspecified); nan last"""
    import functools
    c = _cmpop('<')

    def cmp(i, j):
        a, b = v[i], v[j]
        na, nb = _isnan(a), _isnan(b)
        if na or nb:
            return (na > nb) - (na < nb)
        if c(a, b):
            return -1
        return 1 if c(b, a) else 0
    return sorted(range(len(v)), key=functools.cmp_to_key(cmp))


def m_argsort(a, axis=-1, kind=None):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.argsort(a, axis=axis, kind=kind)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    m = np.moveaxis(raw(a), axis, -1)
    res = np.empty(m.shape, dtype=np.int64)
    for idx in np.ndindex(*m.shape[:-1]):
        res[idx] = sort_idx(list(m[idx]))
    return np.moveaxis(res, -1, axis)


def m_sort(a, axis=-1):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.sort(a, axis=axis)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    m = np.moveaxis(raw(a), axis, -1)
    res = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        v = list(m[idx])
        for j, i in enumerate(sort_idx(v)):
            res[idx + (j,)] = v[i]
    return wrap(np.moveaxis(res, -1, axis), a.kind)


def m_round(a, decimals=0):
    s = 10 ** decimals

    def f(x):
        x = npu(x)
        if isinstance(x, SymFP):
            return x.rint()
        if isinstance(x, (SymInt, int)):
            return x
        if not is_sym(x):
            return npu(np.round(x, decimals))
        if isinstance(x, SymComplex):
            return E.mkc(f(x.re), f(x.im))
        return E.r_intpart(x, 'rint') if decimals == 0 else div(E.r_intpart(mul(x, s), 'rint'), s)
    if not isinstance(a, nd) or a.ndim == 0:
        return npval(f(a.item() if isinstance(a, nd) else a))
    a = asarray(a)
    if not isinstance(a, SymArray):
        return from_native(np.round(a, decimals))
    out = new(a.shape, a.kind)
    o, s2 = raw(out).reshape(-1), raw(a).reshape(-1)
    for j in range(len(s2)):
        o[j] = f(s2[j])
    return out


def m_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = handle_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = handle_ufunc(np.minimum, '__call__', (r, hi), {})
    return r


def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineLimit('periodic interp')
    scalar = not isinstance(x, (nd, list, tuple))
    xs = asarray([x] if scalar else x)
    xp, fp = asarray(xp), asarray(fp)
    if xp.ndim != 1 or fp.ndim != 1:
        raise ValueError('object too deep for desired array')
    xp, fp = list(as_obj(xp)), list(as_obj(fp))
    n = len(xp)
    if n != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    if n == 0:
        raise ValueError('array of sample points is empty')
    lt, eq = _cmpop('<'), _cmpop('==')
    res = []
    for v in as_obj(xs).reshape(-1):
        if lt(v, xp[0]):
            res.append(fp[0] if left is None else left)
            continue
        if lt(xp[-1], v):
            res.append(fp[-1] if right is None else right)
            continue
        j = 0
        while j < n - 1 and not lt(v, xp[j + 1]):
            j += 1
        if j >= n - 1 or eq(xp[j], v):
            res.append(fp[j])
            continue
        sl = _cdiv(sub(npu(fp[j + 1]), npu(fp[j])), sub(npu(xp[j + 1]), npu(xp[j])))
        res.append(add(mul(sl, sub(npu(v), npu(xp[j]))), npu(fp[j])))
    r = asarray([cast(v, 'f') if not is_sym(v) else v for v in res]).reshape(xs.shape)
    return r[0] if scalar else wrap(r, 'f')


def solve_lin(A, b):
    """Gauss elimination on small symbolic systems (pivot must be known non-zero on the path)"""
    n = len(A)
    A = [list(map(npu, r)) for r in A]
    b = list(map(npu, b))
    for i in range(n):
        p = None
        for r in range(i, n):
            if not _cmpop('==')(A[r][i], 0.0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        A[i], A[p] = A[p], A[i]
        b[i], b[p] = b[p], b[i]
        for r in range(i + 1, n):
            f = div(A[r][i], A[i][i])
            if not is_sym(f) and f == 0:
                continue
            for k in range(i, n):
                A[r][k] = sub(A[r][k], mul(f, A[i][k]))
            b[r] = sub(b[r], mul(f, b[i]))
    x = [None] * n
    for i in reversed(range(n)):
        s = b[i]
        for k in range(i + 1, n):
            s = sub(s, mul(A[i][k], x[k]))
        x[i] = div(s, A[i][i])
    return x


def m_polyfit(x, y, deg, *a, **k):
    xs = [npu(v) for v in as_obj(asarray(x)).reshape(-1)]
    ys = [npu(v) for v in as_obj(asarray(y)).reshape(-1)]
    if len(xs) != len(ys):
        raise TypeError('expected x and y to have same length')
    if not any(map(is_sym, xs + ys)):
        return from_native(np.polyfit(xs, ys, deg))
    fx = [E.SymReal(E.lift(v)) if not is_sym(v) else v for v in xs]

    def pw(v, e):
        return SymReal({(): F(1)}) if e == 0 else power(v, e)
    n = len(xs)
    if n == deg + 1 and deg == 2:
        # through three points: exact interpolation (divided differences)
        d01 = div(sub(ys[1], ys[0]), sub(fx[1], fx[0]))
        d12 = div(sub(ys[2], ys[1]), sub(fx[2], fx[1]))
        a2 = div(sub(d12, d01), sub(fx[2], fx[0]))
        b2 = sub(d01, mul(a2, add(fx[0], fx[1])))
        c2 = sub(ys[0], add(mul(a2, mul(fx[0], fx[0])), mul(b2, fx[0])))
        return wrap(asarray([a2, b2, c2]), 'f')
    V = [[pw(v, deg - j) for j in range(deg + 1)] for v in fx]
    A = [[sum_list([mul(V[i][r], V[i][c]) for i in range(n)]) for c in range(deg + 1)] for r in range(deg + 1)]
    b = [sum_list([mul(V[i][r], ys[i]) for i in range(n)]) for r in range(deg + 1)]
    return wrap(asarray(solve_lin(A, b)), 'f')


def m_polyval(p, x):
    r = 0.0
    for c in as_obj(asarray(p)).reshape(-1):
        r = r * x + c
    return r


# ------------------------------------------------------------------------------------------ fft

_TW = {}


def twiddle(n):
    if n not in _TW:
        t = []
        for k in range(n):
            a = F(k, n) % 1
            ex = {F(0): (1.0, 0.0), F(1, 4): (0.0, 1.0), F(1, 2): (-1.0, 0.0), F(3, 4): (0.0, -1.0)}
            if a in ex:
                t.append(ex[a])
            else:
                # symmetric, correctly rounded as far as libm is
                q = a % F(1, 4)
                m = int(a / F(1, 4))
                c, s = math.cos(2 * math.pi * float(q)), math.sin(2 * math.pi * float(q))
                if q == F(1, 8):
                    c = s = math.sqrt(0.5)
                if q == F(1, 12):
                    s = 0.5
                if q == F(1, 6):
                    c = 0.5
                for _ in range(m):
                    c, s = -s, c
                t.append((c, s))
        _TW[n] = t
    return _TW[n]


def dft(v, sign, n=None):
    """sum_j v_j exp(sign 2 pi i j k / n), exact in the values, machine doubles as twiddle factors"""
    if n is None:
        n = len(v)
    v = [npu(x) for x in v[:n]] + [0.0] * (n - len(v))
    if n == 0:
        raise ValueError('Invalid number of FFT data points (0) specified.')
    parts = [E.cparts(x) for x in v]
    if n >= FFT_FAST:
        return dft_fast(parts, sign, n)
    tw = twiddle(n)
    res = []
    for k in range(n):
        re, im = {}, {}
        for j, (a, b) in enumerate(parts):
            c, s = tw[(j * k) % n]
            s = sign * s
            for x, kr, ki in ((a, c, s), (b, -s, c)):
                if not is_sym(x):
                    if x == 0:
                        continue
                    if E._special(x):
                        raise EngineLimit('fft of non-finite values')
                p = E.lift(x)
                if kr:
                    fr = E._frac(kr)
                    for m, q in p.items():
                        re[m] = re.get(m, 0) + q * fr
                if ki:
                    fi = E._frac(ki)
                    for m, q in p.items():
                        im[m] = im.get(m, 0) + q * fi
        res.append(mkc2(E.mk({m: q for m, q in re.items() if q}), E.mk({m: q for m, q in im.items() if q})))
    return res


FFT_FAST = 30


def dft_fast(parts, sign, n):
    """the transform is linear: numpy's own, one per monomial of the coefficients in double precision"""
    cols = {}
    for j, (a, b) in enumerate(parts):
        for x, u in ((a, 0), (b, 1)):
            if not is_sym(x):
                if x == 0:
                    continue
                if E._special(x):
                    raise EngineLimit('fft of non-finite values')
            for m, q in E.lift(x).items():
                w = cols.get(m)
                if w is None:
                    w = cols[m] = np.zeros((2, n))
                w[u, j] = float(q)
    re, im = [{} for _ in range(n)], [{} for _ in range(n)]
    for m, w in cols.items():
        w = w[0] + 1j * w[1] if w[1].any() else w[0]
        r = np.fft.fft(w) if sign < 0 else np.fft.ifft(w) * n
        for k in range(n):
            x, y = float(r[k].real), float(r[k].imag)
            if x:
                re[k][m] = F(x)
            if y:
                im[k][m] = F(y)
    return [mkc2(E.mk(a), E.mk(b)) for a, b in zip(re, im)]


def mkc2(re, im):
    if isinstance(re, SymReal) or isinstance(im, SymReal):
        return SymComplex(re, im)
    return complex(re, im)


def _scale(v, s):
    return [mul(x, s) for x in v]


def _fft_norm(norm, n, inverse):
    if norm in (None, 'backward'):
        return F(1, n) if inverse else F(1)
    if norm == 'forward':
        return F(1) if inverse else F(1, n)
    return F(1 / math.sqrt(n))


def m_fft1(a, n=None, axis=-1, norm=None, inverse=False, kind='c', **kw):
    a = asarray(a)
    if not has_sym(a):
        fn = {('c', False): np.fft.fft, ('c', True): np.fft.ifft, ('r', False): np.fft.rfft, ('r', True): np.fft.irfft}[(kind, inverse)]
        return from_native(fn(to_native(a), n=n, axis=axis, norm=norm))
    m = np.moveaxis(as_obj(a), axis, -1)
    L = m.shape[-1]
    if kind == 'r' and inverse:
        nn = 2 * (L - 1) if n is None else int(n)
        lo = nn
    else:
        nn = L if n is None else int(n)
        lo = nn if kind == 'c' else nn // 2 + 1
    s = _fft_norm(norm, nn, inverse)
    res = np.empty(m.shape[:-1] + (lo,), dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        v = [npu(x) for x in m[idx]]
        if kind == 'r' and inverse:
            h = nn // 2 + 1
            v = v[:h] + [0.0] * (h - len(v))
            full = [0.0] * nn
            for k in range(h):
                full[k] = v[k]
                if k == 0 or 2 * k == nn:
                    full[k] = E.cparts(v[k])[0]
                elif nn - k < nn:
                    full[nn - k] = _conj(v[k]) if E._is_c(v[k]) else v[k]
            r = [E.cparts(x)[0] for x in dft(full, 1, nn)]
        else:
            r = dft(v, 1 if inverse else -1, nn)[:lo]
        if s != 1:
            sp = SymReal({(): s})
            r = [cmul_const(x, s) for x in r]
        for j, x in enumerate(r):
            res[idx + (j,)] = x
    return wrap(np.moveaxis(res, -1, axis), 'f' if (kind == 'r' and inverse) else 'c')


def cmul_const(x, s):
    if isinstance(x, SymComplex) or isinstance(x, complex):
        re, im = E.cparts(x)
        return mkc2(E.mk(E.p_scale(E.lift(re), s)), E.mk(E.p_scale(E.lift(im), s)))
    return E.mk(E.p_scale(E.lift(x), s))


def m_hilbert(x, N=None, axis=-1):
    a = asarray(x)
    if arr_kind(a) == 'c':
        raise ValueError('x must be real.')
    if not has_sym(a):
        from scipy.signal import hilbert
        return from_native(hilbert(to_native(a), N=N, axis=axis))
    if a.ndim != 1:
        raise EngineLimit('hilbert of 2d arrays')
    n = len(a) if N is None else N
    if n <= 0:
        raise ValueError('N must be positive.')
    X = dft(list(as_obj(a)), -1, n)
    h = [0] * n
    if n % 2 == 0:
        h[0] = h[n // 2] = 1
        for i in range(1, n // 2):
            h[i] = 2
    else:
        h[0] = 1
        for i in range(1, (n + 1) // 2):
            h[i] = 2
    Y = [cmul_const(X[i], F(h[i])) for i in range(n)]
    r = [cmul_const(v, F(1, n)) for v in dft(Y, 1, n)]
    return wrap(asarray(r), 'c')


# ------------------------------------------------------------------------------------------ integration

def m_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    ys = [npu(v) for v in as_obj(y).reshape(-1)]
    if y.ndim != 1:
        raise EngineLimit('trapezoid of 2d arrays')
    d = [dx] * (len(ys) - 1) if x is None else None
    if x is not None:
        xs = [npu(v) for v in as_obj(asarray(x)).reshape(-1)]
        d = [sub(xs[i + 1], xs[i]) for i in range(len(xs) - 1)]
    t = [mul(d[i], mul(add(ys[i], ys[i + 1]), 0.5)) for i in range(len(ys) - 1)]
    return npval(sum_list(t)) if t else np.float64(0.0)


def m_simpson(y, x=None, dx=1.0, axis=-1, **kw):
    """scipy.integrate.simpson (>=1.11: Cartwright correction for an even number of points)"""
    y = asarray(y)
    if y.ndim != 1:
        raise EngineLimit('simpson of 2d arrays')
    ys = [npu(v) for v in as_obj(y)]
    N = len(ys)
    if x is not None:
        xa = asarray(x)
        xs = [npu(v) for v in as_obj(xa).reshape(-1)]
        if len(xs) != N:
            raise ValueError('If given, length of x along axis must be the same as y.')
    if not has_sym(y) and (x is None or not has_sym(asarray(x))):
        from scipy.integrate import simpson
        return simpson(to_native(y), x=None if x is None else to_native(xa), dx=dx)
    if N == 0:
        # scipy: reduction over empty slices
        from scipy.integrate import simpson
        return simpson(np.zeros(0), x=np.zeros(0))
    h = [sub(xs[i + 1], xs[i]) for i in range(N - 1)] if x is not None else [dx] * (N - 1)
    uniform = x is None
    if not uniform:
        ph = [E.lift(v) for v in h]
        uniform = N > 1 and all(p == ph[0] for p in ph)

    def basic(stop):
        ts = []
        for i in range(0, stop, 2):
            y0, y1, y2 = ys[i], ys[i + 1], ys[i + 2]
            if uniform:
                ts.append(mul(div(h[i], 3), add(add(y0, mul(4.0, y1)), y2)))
            else:
                h0, h1 = h[i], h[i + 1]
                hs, hp, q = add(h0, h1), mul(h0, h1), div(h0, h1)
                ts.append(mul(div(hs, 6), add(add(mul(y0, sub(2.0, div(1.0, q))), mul(y1, mul(hs, div(hs, hp)))), mul(y2, sub(2.0, q)))))
        return sum_list([0.0] + ts)
    if N % 2 == 0:
        if N == 2:
            return npval(mul(0.5, mul(h[-1], add(ys[-1], ys[-2]))))
        r = basic(N - 2)
        h0, h1 = h[-2], h[-1]
        if uniform:
            al, be, et = mul(h1, SymReal({(): F(5, 12)})), mul(h1, SymReal({(): F(8, 12)})), mul(h1, SymReal({(): F(1, 12)}))
        else:
            # numpy divides with where=den!=0, else 0
            al = _wdiv(add(mul(2.0, mul(h1, h1)), mul(3.0, mul(h0, h1))), mul(6.0, add(h1, h0)))
            be = _wdiv(add(mul(h1, h1), mul(3.0, mul(h0, h1))), mul(6.0, h0))
            et = _wdiv(mul(1.0, power(h1, 3)), mul(mul(6.0, h0), add(h0, h1)))
        r = add(r, sub(add(mul(al, ys[-1]), mul(be, ys[-2])), mul(et, ys[-3])))
        return npval(r)
    if N == 1:
        return np.float64(0.0)
    return npval(basic(N - 2))


def _wdiv(a, b):
    if _cmpop('==')(b, 0.0):
        return 0.0
    return div(a, b)


# ------------------------------------------------------------------------------------------ __array_function__

def generic(func, args, kwargs):
    """numpy's own implementation on plain object arrays"""
    if not any(has_sym(x) for x in args) and not any(has_sym(x) for x in kwargs.values()):
        r = func(*[to_native(x) for x in args], **{k: to_native(v) for k, v in kwargs.items()})
        return from_native(r)

    kinds = set()

    def strip(x):
        if isinstance(x, SymArray):
            kinds.add(x.kind)
            return raw(x)
        if is_sym(x):
            kinds.add(el_kind(x))
            return _box(x)
        if isinstance(x, (list, tuple)):
            return type(x)(strip(v) for v in x)
        if isinstance(x, nd):
            kinds.add(arr_kind(x))
        return x
    a = [strip(x) for x in args]
    k = {n: strip(x) for n, x in kwargs.items()}
    try:
        r = func(*a, **k)
    except (EngineLimit, E.PathAbort, E.ViolationFound):
        raise
    except (TypeError, AttributeError) as e:
        raise EngineLimit(f'{func.__name__}: {e}')
    kk = max(kinds, key=lambda q: RANK[q]) if kinds else None

    def back(v):
        if isinstance(v, tuple):
            return tuple(back(q) for q in v)
        if isinstance(v, list):
            return [back(q) for q in v]
        if isinstance(v, nd) and v.dtype == object:
            w = wrap(v)
            if isinstance(w, SymArray) and kk in ('f', 'c', 'i') and RANK[kk] >= RANK[w.kind]:
                w = wrap(v, kk)
                o = raw(w).reshape(-1) if w.flags.c_contiguous else None
                if o is not None and isinstance(w, SymArray):
                    for j in range(len(o)):
                        o[j] = cast(o[j], kk)
            elif not isinstance(w, SymArray) and kk in ('f', 'c') and w.dtype.kind == 'i':
                w = wrap(w.astype(float))
            return w
        if isinstance(v, nd):
            return wrap(v) if v.dtype.kind in 'fc' else v
        return npval(v)
    return back(r)


def _impl(func):
    return getattr(func, '_implementation', func)


STRUCT = {'reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'concatenate', 'stack', 'hstack', 'vstack', 'column_stack',
          'append', 'insert', 'delete', 'flip', 'flipud', 'fliplr', 'roll', 'repeat', 'tile', 'take', 'split', 'array_split', 'moveaxis',
          'swapaxes', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'diag', 'tril', 'triu', 'rot90', 'compress', 'extract', 'pad', 'resize', 'rollaxis',
          'array_equiv', 'meshgrid', 'ndim', 'shape', 'size', 'copyto', 'put', 'take_along_axis', 'dstack', 'hsplit', 'vsplit'}

HANDLERS = {}


def handles(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def handle_function(func, types, args, kwargs):
    name = func.__name__
    h = HANDLERS.get(name)
    if h is not None:
        return h(*args, **kwargs)
    mod = getattr(func, '__module__', '') or ''
    if 'fft' in mod or 'linalg' in mod:
        if not any(has_sym(x) for x in args):
            return generic(func, args, kwargs)
        raise EngineLimit(f'{mod}.{name} on symbolic values')
    kwargs = dict(kwargs)
    if 'dtype' in kwargs and kwargs['dtype'] is not None:
        dt = kwargs.pop('dtype')
        r = generic(func, args, kwargs)
        return r.astype(dt) if isinstance(r, nd) else asarray([r]).astype(dt)[0]
    return generic(func, args, kwargs)


@handles('sum', 'nansum')
def _(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=np._NoValue, **kw):
    if where is not np._NoValue and where is not True:
        a = asarray(a) * np.asarray(truth(where))
    r = m_sum(a, axis, keepdims if keepdims is not np._NoValue else False)
    return r if initial is np._NoValue else r + initial


@handles('mean', 'nanmean')
def _(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return m_mean(a, axis, keepdims if keepdims is not np._NoValue else False)


@handles('average')
def _(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return m_mean(a, axis)
    w = asarray(weights)
    return m_sum(asarray(a) * w, axis) / m_sum(w, axis)


@handles('var', 'nanvar')
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return m_var(a, axis, ddof, keepdims if keepdims is not np._NoValue else False)


@handles('std', 'nanstd')
def _(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return ew1(np.sqrt, m_var(a, axis, ddof))


@handles('max', 'amax', 'nanmax')
def _(a, axis=None, out=None, keepdims=False, **kw):
    if is_sym(a):
        return a
    return m_minmax(a, axis, '>', keepdims if keepdims is not np._NoValue else False)


@handles('min', 'amin', 'nanmin')
def _(a, axis=None, out=None, keepdims=False, **kw):
    if is_sym(a):
        return a
    return m_minmax(a, axis, '<', keepdims if keepdims is not np._NoValue else False)


@handles('ptp')
def _(a, axis=None, **kw):
    return m_minmax(a, axis, '>') - m_minmax(a, axis, '<')


@handles('argmax', 'nanargmax')
def _(a, axis=None, out=None, **kw):
    return m_arg(a, axis, '>')


@handles('argmin', 'nanargmin')
def _(a, axis=None, out=None, **kw):
    return m_arg(a, axis, '<')


@handles('argsort')
def _(a, axis=-1, kind=None, order=None, stable=None, **kw):
    return m_argsort(a, axis, kind)


@handles('sort')
def _(a, axis=-1, kind=None, order=None, stable=None, **kw):
    return m_sort(a, axis)


@handles('lexsort')
def _(keys, axis=-1):
    ks = [list(as_obj(asarray(k))) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        o = sort_idx([k[i] for i in idx])
        idx = [idx[i] for i in o]
    return np.array(idx, dtype=np.int64)


@handles('round', 'around', 'round_')
def _(a, decimals=0, out=None):
    return m_round(a, decimals)


@handles('fix')
def _(a, out=None):
    return ew1(np.trunc, a)


@handles('clip')
def _(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    if a_min is None or a_min is np._NoValue:
        a_min = min
    if a_max is None or a_max is np._NoValue:
        a_max = max
    return m_clip(a, a_min, a_max)


@handles('real')
def _(a):
    return real_of(a if isinstance(a, nd) or is_sym(a) else asarray(a))


@handles('imag')
def _(a):
    if isinstance(a, (SymReal, SymFP)):
        return 0.0
    return imag_of(a if isinstance(a, nd) or is_sym(a) else asarray(a))


@handles('iscomplexobj')
def _(a):
    return arr_kind(asarray(a) if not is_sym(a) else a) == 'c'


@handles('isrealobj')
def _(a):
    return arr_kind(asarray(a) if not is_sym(a) else a) != 'c'


@handles('isclose')
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = abs(asarray(a) - asarray(b)) if isinstance(a, (nd, list)) or isinstance(b, (nd, list)) else abs(a - b)
    return d <= atol + rtol * ew1(np.absolute, b if isinstance(b, nd) or not isinstance(b, list) else asarray(b))


@handles('allclose')
def _(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = HANDLERS['isclose'](a, b, rtol, atol)
    return bool(np.all(r))


@handles('array_equal')
def _(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


@handles('interp')
def _(x, xp, fp, left=None, right=None, period=None):
    return m_interp(x, xp, fp, left, right, period)


@handles('polyfit')
def _(*a, **k):
    return m_polyfit(*a, **k)


@handles('polyval')
def _(p, x):
    return m_polyval(p, x)


@handles('trapezoid', 'trapz')
def _(y, x=None, dx=1.0, axis=-1):
    return m_trapezoid(y, x, dx, axis)


@handles('diff')
def _(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    for v, first in ((prepend, True), (append, False)):
        if v is not None and v is not np._NoValue:
            v = asarray(v)
            if v.ndim == 0:
                v = v.reshape((1,) * a.ndim) if a.ndim == 1 else generic(np.broadcast_to, (v, a.shape[:axis % a.ndim] + (1,) + a.shape[axis % a.ndim + 1:]), {})
            a = generic(np.concatenate, ((v, a) if first else (a, v),), {'axis': axis})
    for _ in range(n):
        m = np.moveaxis(a, axis, 0) if a.ndim > 1 else a
        d = m[1:] - m[:-1]
        a = np.moveaxis(d, 0, axis) if a.ndim > 1 else d
    return a


@handles('cumsum')
def _(a, axis=None, dtype=None, out=None):
    a = asarray(a)
    return a.cumsum(axis)


@handles('prod')
def _(a, axis=None, **kw):
    a = asarray(a)
    return handle_ufunc(np.multiply, 'reduce', (a,), {'axis': axis})


@handles('all')
def _(a, axis=None, out=None, keepdims=False, **kw):
    return truth(a if isinstance(a, nd) else asarray(a)).all(axis=axis)


@handles('any')
def _(a, axis=None, out=None, keepdims=False, **kw):
    return truth(a if isinstance(a, nd) else asarray(a)).any(axis=axis)


@handles('nonzero')
def _(a):
    return truth(a if isinstance(a, nd) else asarray(a)).nonzero()


@handles('flatnonzero')
def _(a):
    return truth(a).reshape(-1).nonzero()[0]


@handles('argwhere')
def _(a):
    return np.argwhere(truth(a))


@handles('count_nonzero')
def _(a, axis=None, **kw):
    return np.count_nonzero(truth(a), axis=axis)


@handles('where')
def _(cond, x=None, y=None, *rest):
    c = truth(cond) if isinstance(cond, nd) else (bool(cond) if not isinstance(cond, (list, tuple)) else truth(asarray(cond)))
    if x is None and y is None:
        return np.asarray(c).nonzero()
    xa = x if isinstance(x, nd) else asarray(x)
    ya = y if isinstance(y, nd) else asarray(y)
    k = max((arr_kind(xa), arr_kind(ya)), key=lambda q: RANK[q])
    r = np.where(c, as_obj(xa), as_obj(ya))
    o = r.reshape(-1)
    for j in range(len(o)):
        o[j] = cast(o[j], k)
    return wrap(r, k)


@handles('select')
def _(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = HANDLERS['where'](c, v, r)
    return r


@handles('piecewise')
def _(x, condlist, funclist, *a, **k):
    raise EngineLimit('piecewise')


@handles('searchsorted')
def _(a, v, side='left', sorter=None):
    a = list(as_obj(asarray(a)))
    if sorter is not None:
        a = [a[i] for i in sorter]
    lt = _cmpop('<')

    def one(x):
        # number of entries < x (left) or <= x (right)
        j = 0
        while j < len(a) and (lt(a[j], x) if side == 'left' else not lt(x, a[j])):
            j += 1
        return j
    if isinstance(v, (nd, list, tuple)):
        va = asarray(v)
        return np.array([one(x) for x in as_obj(va).reshape(-1)], dtype=np.int64).reshape(va.shape)
    return np.int64(one(v))


@handles('unique')
def _(a, *args, **k):
    if any(k.values()) or args:
        raise EngineLimit('unique with options')
    s = m_sort(asarray(a).reshape(-1))
    out = []
    for x in as_obj(s):
        if not out or not _cmpop('==')(out[-1], x):
            out.append(x)
    return asarray(out)


@handles('nan_to_num')
def _(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = npu(v)
        if is_sym(v):
            return v
        return npu(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    if not isinstance(x, nd):
        return npval(f(x))
    r = x.copy() if copy else x
    o = raw(r)
    for i in np.ndindex(*o.shape):
        o[i] = f(o[i])
    return r


@handles('isreal')
def _(x):
    return imag_of(asarray(x)) == 0


@handles('iscomplex')
def _(x):
    return imag_of(asarray(x)) != 0


@handles('copy')
def _(a, order='K', subok=False):
    return asarray(a).copy()


@handles('zeros_like')
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
    return with_prec(new(np.shape(a) if shape is None else shape, arr_kind(a) if dtype is None else dt_kind(dtype)), dtype if dtype is not None else getattr(a, 'dtype', None))


@handles('empty_like')
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
    return with_prec(new(np.shape(a) if shape is None else shape, arr_kind(a) if dtype is None else dt_kind(dtype)), dtype if dtype is not None else getattr(a, 'dtype', None))


@handles('ones_like')
def _(a, dtype=None, order='K', subok=True, shape=None, **k):
    kd = arr_kind(a) if dtype is None else dt_kind(dtype)
    return new(np.shape(a) if shape is None else shape, kd, cast(1, kd))


@handles('full_like')
def _(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    kd = arr_kind(a) if dtype is None else dt_kind(dtype)
    r = new(np.shape(a) if shape is None else shape, kd)
    r[...] = fill_value
    return r


@handles('shape')
def _(a):
    return a.shape


@handles('size')
def _(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@handles('ndim')
def _(a):
    return a.ndim


@handles('dot', 'vdot', 'inner')
def _(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError('shapes not aligned')
        return npval(sum_list([0.0] + [mul(npu(x), npu(y)) for x, y in zip(as_obj(a), as_obj(b))]))
    return generic(np.dot, (a, b), {})


@handles('median', 'nanmedian')
def _(a, axis=None, **kw):
    s = list(as_obj(m_sort(asarray(a).reshape(-1))))
    n = len(s)
    return npval(s[n // 2]) if n % 2 else npval(div(add(s[n // 2 - 1], s[n // 2]), 2.0))


@handles('gradient')
def _(f, *v, axis=None, edge_order=1):
    f = asarray(f)
    if f.ndim != 1 or edge_order != 1 or len(v) > 1:
        raise EngineLimit('gradient')
    n = f.shape[0]
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical gradient')
    h = v[0] if v else 1.0
    if isinstance(h, (nd, list, tuple)) and asarray(h).ndim == 1:
        x = list(as_obj(asarray(h)))
    else:
        x = [mul(h.item() if isinstance(h, nd) else h, i) for i in range(n)]
    y = list(as_obj(f))
    r = [div(sub(y[1], y[0]), sub(x[1], x[0]))]
    for i in range(1, n - 1):
        a, b = sub(x[i], x[i - 1]), sub(x[i + 1], x[i])
        r.append(div(add(mul(mul(a, a), y[i + 1]), sub(mul(sub(mul(b, b), mul(a, a)), y[i]), mul(mul(b, b), y[i - 1]))), mul(mul(a, b), add(a, b))))
    r.append(div(sub(y[-1], y[-2]), sub(x[-1], x[-2])))
    return wrap(as_obj(asarray(r)), 'f')


@handles('piecewise')
def _(x, condlist, funclist, *args, **kw):
    x = asarray(x)
    cl = [np.asarray(truth(q)) for q in condlist]
    if len(funclist) == len(cl) + 1:
        cl.append(~np.any(cl, axis=0))
    y = new(x.shape, x.kind if isinstance(x, SymArray) else 'f')
    y[...] = 0
    for q, f in zip(cl, funclist):
        if callable(f):
            v = x[q]
            if v.size:
                y[q] = f(v, *args, **kw)
        else:
            y[q] = f
    return y


@handles('bincount')
def _(x, weights=None, minlength=0):
    x = np.asarray(to_native(asarray(x)))
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = list(as_obj(asarray(weights)).reshape(-1))
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    r = [0.0] * n
    for i, v in zip(x, w):
        r[int(i)] = add(r[int(i)], v)
    return wrap(as_obj(asarray(r)), 'f')


@handles('result_type')
def _(*a):
    ks = [arr_kind(x) if isinstance(x, SymArray) or is_sym(x) else np.result_type(x).kind for x in a]
    return np.dtype({'c': complex, 'f': float, 'i': np.int64, 'b': bool}[max(ks, key=lambda q: RANK[q])])


@handles('sinc')
def _(x):
    raise EngineLimit('sinc')


@handles('angle')
def _(x, deg=False):
    raise EngineLimit('angle')


@handles('tri', 'vander')
def _(*a, **k):
    raise EngineLimit('unsupported')


@handles('linspace')
def _(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    d = n - 1 if endpoint else n
    st = div(sub(stop, start), d) if d > 0 else math.nan
    r = asarray([add(start, mul(st, i)) if i else (start + 0.0) for i in range(n)])
    if endpoint and n > 1:
        r[-1] = stop
    r = wrap(r, 'f') if isinstance(r, SymArray) else r
    return (r, st) if retstep else r


@handles('fft', )
def _(a, n=None, axis=-1, norm=None, out=None):
    return m_fft1(a, n, axis, norm, False, 'c')


@handles('ifft')
def _(a, n=None, axis=-1, norm=None, out=None):
    return m_fft1(a, n, axis, norm, True, 'c')


@handles('rfft')
def _(a, n=None, axis=-1, norm=None, out=None):
    return m_fft1(a, n, axis, norm, False, 'r')


@handles('irfft')
def _(a, n=None, axis=-1, norm=None, out=None):
    return m_fft1(a, n, axis, norm, True, 'r')


@handles('fftshift', 'ifftshift')
def _(x, axes=None):
    raise EngineLimit('fftshift')


def _shift(inv):
    def f(x, axes=None):
        x = asarray(x)
        axes = tuple(range(x.ndim)) if axes is None else (axes,) if isinstance(axes, int) else axes
        for a in axes:
            n = x.shape[a]
            x = generic(np.roll, (x, -(n // 2) if inv else n // 2), {'axis': a})
        return x
    return f


HANDLERS['fftshift'], HANDLERS['ifftshift'] = _shift(False), _shift(True)


@handles('solve')
def _(a, b):
    a, b = asarray(a), asarray(b)
    if b.ndim != 1:
        raise EngineLimit('solve with matrix rhs')
    return asarray(solve_lin([list(r) for r in as_obj(a)], list(as_obj(b))))


@handles('inv')
def _(a):
    a = asarray(a)
    n = a.shape[0]
    cols = [solve_lin([list(r) for r in as_obj(a)], [1.0 if i == j else 0.0 for i in range(n)]) for j in range(n)]
    return asarray([[cols[j][i] for j in range(n)] for i in range(n)])


@handles('det')
def _(a):
    a = as_obj(asarray(a))
    n = a.shape[0]
    if n == 2:
        return sub(mul(a[0, 0], a[1, 1]), mul(a[0, 1], a[1, 0]))
    raise EngineLimit('det')


@handles('norm')
def _(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if axis is not None or ord not in (None, 2):
        raise EngineLimit('norm')
    return ew1(np.sqrt, m_sum(abs(x) ** 2))


@handles('lstsq', 'eig', 'eigh', 'svd', 'pinv', 'qr', 'roots')
def _(*a, **k):
    raise EngineLimit('linear algebra routine')


# ------------------------------------------------------------------------------------------ numpy module stand-in

class _Scalar:
    """np.float64 & co. as constructors and dtypes"""


class _Shim(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, n):
        v = getattr(self.__dict__['_real'], n)
        return v


def _arr_of_func(name):
    """functions that create arrays from python arguments: symbolic arguments do not dispatch by themselves"""
    real = getattr(np, name)
    h = HANDLERS.get(name)

    def f(*a, **k):
        aa = tuple(_seq(x) for x in a)
        if h is not None and (any(isinstance(x, SymArray) or is_sym(x) for x in aa)):
            return h(*aa, **k)
        r = real(*aa, **k)
        return from_native(r) if isinstance(r, (nd, tuple)) and not isinstance(r, SymArray) else r
    f.__name__ = name
    return f


def _seq(x):
    """lists/tuples holding symbolic scalars become arrays so that dispatch works"""
    if isinstance(x, (list, tuple)) and has_sym_shallow(x):
        return asarray(x)
    return x


def has_sym_shallow(x):
    for v in x:
        if is_sym(v):
            return True
        if isinstance(v, (list, tuple)) and has_sym_shallow(v):
            return True
    return False


def sh_zeros(shape, dtype=None, order='C', **k):
    return _mk(shape, dtype, 0)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(v) for v in s)
    if isinstance(s, SymArray):
        return tuple(int(v) for v in s)
    if isinstance(s, (SymReal, SymFP)) and not isinstance(s, SymInt):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(s) if not isinstance(s, nd) else tuple(int(v) for v in s)


def _mk(shape, dtype, v):
    k = dt_kind(dtype)
    s = _shape(shape)
    if k == 'b':
        return np.full(s, bool(v))
    if k == 'O':
        return np.full(s, v, dtype=object)
    return with_prec(new(s, k, cast(v, k)), dtype)


def with_prec(r, dtype):
    if isinstance(r, SymArray):
        r.prec = dt_prec(dtype)
    return r


def sh_ones(shape, dtype=None, order='C', **k):
    return _mk(shape, dtype, 1)


def sh_empty(shape, dtype=None, order='C', **k):
    # contents of an uninitialised array: a distinctive value nobody may rely on
    return _mk(shape, dtype, 0 if dt_kind(dtype) in 'bO' else 77777)


def sh_full(shape, fill_value, dtype=None, order='C', **k):
    kd = arr_kind(fill_value) if dtype is None else dt_kind(dtype)
    if kd == 'b':
        return np.full(_shape(shape), bool(fill_value))
    r = with_prec(new(_shape(shape), kd), dtype)
    r[...] = fill_value
    return r


def sh_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    r = asarray(x, dtype, copy=True if copy is None else copy)
    if isinstance(x, nd) and copy and r is x:
        r = r.copy()
    while isinstance(r, nd) and r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def sh_asarray(x, dtype=None, order=None, **k):
    return asarray(x, dtype)


def sh_arange(*a, dtype=None, **k):
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a[:3]
    start, stop, step = npu(start), npu(stop), npu(step)
    if any(isinstance(v, nd) and v.size == 1 for v in (start, stop, step)):
        start, stop, step = [v.reshape(-1)[0] if isinstance(v, nd) else v for v in (start, stop, step)]
    if any(isinstance(v, SymInt) for v in (start, stop, step)) and all(el_kind(v) in 'ib' for v in (start, stop, step)):
        start, stop, step = int(start), int(stop), int(step)
    if not any(is_sym(v) for v in (start, stop, step)):
        r = np.arange(start, stop, step, dtype=None if dtype is None else KIND_DT[dt_kind(dtype)])
        return from_native(r)
    # numpy: length = ceil((stop - start)/step), values start + i*step
    n = E.r_intpart(div(sub(stop, start), step), 'ceil')
    n = E.cur().concretize(n.p) if isinstance(n, SymReal) else int(n)
    if n <= 0:
        return new((0,), 'f')
    if n > 2000:
        raise EngineLimit('arange too long')
    return wrap(asarray([add(start, mul(step, i)) if i else (start if is_sym(start) else float(start)) for i in range(n)]), 'f')


def sh_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = npu(start), npu(stop)
    if not is_sym(start) and not is_sym(stop):
        return from_native(np.linspace(start, stop, int(num), endpoint=endpoint, retstep=retstep))
    return HANDLERS['linspace'](start, stop, num, endpoint, retstep)


def sh_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def sh_fromiter(it, dtype=None, count=-1):
    return asarray(list(it), dtype)


def sh_isnan_like(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        return real(_seq(x), *a, **k)
    return f


def scalar_ctor(name, kind):
    real = getattr(np, name)

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or (is_sym(x) and el_kind(x) == kind)

        def __call__(cls, x=0):
            if isinstance(x, (nd, list, tuple)):
                return asarray(x, real)
            if is_sym(x):
                pr = dt_prec(real)
                if pr:
                    return reduce_prec(cast(x, kind), pr)
                return cast(x, kind) if kind != 'f' or not isinstance(x, SymFP) else x
            return real(x)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)
    c = M(name, (), {'_real': real})
    SCALARS[c] = kind
    return c


SCALARS = {}
_dt_kind0 = dt_kind


def dt_kind(dt):
    try:
        if dt in SCALARS:
            return SCALARS[dt]
    except TypeError:
        pass
    return _dt_kind0(dt)


class RandomState:
    """arbitrary outcomes: every draw is a fresh symbolic value in [0,1); equal seeds replay equal draws"""

    def __init__(self, seed=None):
        self.reset(seed)

    def reset(self, seed):
        self._seed = ('s', seed) if seed is not None else ('n', id(self), RandomState.count())
        self.i = 0

    @staticmethod
    def count():
        c = E.cur().table('rngcount')
        c[0] = c.get(0, 0) + 1
        return c[0]

    def draw(self):
        hook = E.cur().tables.get('rand_hook')
        self.i += 1
        if hook:
            return hook(self._seed, self.i)
        t = E.cur().table('rand')
        key = (self._seed, self.i)
        if key not in t:
            c = E.cur()
            a = c.atom(c.fresh('u'), sign='>=', lo=0, hi=1)
            c.add(E.z3.And(a.z >= 0, a.z < 1))
            t[key] = SymReal({((a.idx, 1),): F(1)})
        return t[key]

    def arr(self, shape):
        if shape is None or shape == ():
            return self.draw()
        r = new(_shape(shape), 'f')
        o = raw(r).reshape(-1)
        for j in range(len(o)):
            o[j] = self.draw()
        return r

    def rand(self, *shape):
        return self.arr(shape if shape else None)

    def random(self, size=None, **k):
        return self.arr(size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.arr(size)
        return low + (high - low) * u

    def seed(self, s=None):
        if s is None:
            self.reset(None)
            return
        if is_sym(s):
            t = E.cur().table('seedkeys')
            k = E.p_key(E.lift(s))
            self._seed = ('sym', k)
        else:
            s = int(s)
            if s < 0 or s > 2 ** 32 - 1:
                raise ValueError('Seed must be between 0 and 2**32 - 1')
            self._seed = ('s', s)
        self.i = 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineLimit(f'random.{n}')


class RandomShim:
    @property
    def _g(self):
        t = E.cur().tables
        if 'grandom' not in t:
            t['grandom'] = RandomState()
        return t['grandom']

    def seed(self, s=None):
        self._g.seed(s)

    def rand(self, *s):
        return self._g.rand(*s)

    def random(self, size=None):
        return self._g.random(size)

    random_sample = random
    ranf = random

    def uniform(self, *a, **k):
        return self._g.uniform(*a, **k)

    def default_rng(self, seed=None):
        r = RandomState()
        if seed is not None:
            r.seed(seed)
            r._seed = ('rng',) + r._seed
        return r

    def RandomState(self, seed=None):
        r = RandomState()
        if seed is not None:
            r.seed(seed)
        return r

    def get_state(self, *a, **k):
        g = self._g
        return (g._seed, g.i)

    def set_state(self, s):
        self._g._seed, self._g.i = s

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineLimit(f'random.{n}')


def _fftmod():
    o = {n: _farr(n) for n in ('fft', 'ifft', 'rfft', 'irfft')}

    def fftfreq(n, d=1.0, **k):
        return _freqs(n, d, [i if i < (n + 1) // 2 else i - n for i in range(n)])

    def rfftfreq(n, d=1.0, **k):
        return _freqs(n, d, list(range(n // 2 + 1)))
    o['fftfreq'], o['rfftfreq'] = fftfreq, rfftfreq
    return _Shim('fft', np.fft, o)


def _farr(n):
    h = HANDLERS[n]

    def f(a, n=None, axis=-1, norm=None, out=None, **k):
        return h(asarray(a), n, axis, norm)
    return f


def _freqs(n, d, idx):
    return wrap(asarray([div(float(i), mul(d, n)) for i in idx]), 'f')


def np_shim():
    over = dict(zeros=sh_zeros, ones=sh_ones, empty=sh_empty, full=sh_full, array=sh_array, asarray=sh_asarray,
                asanyarray=sh_asarray, ascontiguousarray=sh_asarray, asfarray=sh_asarray, arange=sh_arange, linspace=sh_linspace,
                isscalar=sh_isscalar, vectorize=vectorize, frompyfunc=sh_frompyfunc, r_=RClass(), c_=CClass(), fromiter=sh_fromiter, random=RandomShim(), fft=_fftmod(),
                float64=scalar_ctor('float64', 'f'), float32=scalar_ctor('float32', 'f'), float16=scalar_ctor('float16', 'f'), complex64=scalar_ctor('complex64', 'c'), complex128=scalar_ctor('complex128', 'c'),
                int64=scalar_ctor('int64', 'i'), int32=scalar_ctor('int32', 'i'), intp=scalar_ctor('intp', 'i'))
    over['double'] = over['float64']
    over['single'], over['half'], over['csingle'] = over['float32'], over['float16'], over['complex64']
    over['float_'] = over['float64']
    over['cdouble'] = over['complex128']
    for n in ('diff', 'sum', 'mean', 'var', 'std', 'max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'argsort', 'sort', 'append', 'delete',
              'insert', 'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'flip', 'flipud', 'roll', 'round', 'around', 'real', 'imag',
              'interp', 'polyfit', 'polyval', 'trapezoid', 'all', 'any', 'where', 'nonzero', 'clip', 'isclose', 'allclose', 'array_equal',
              'cumsum', 'prod', 'searchsorted', 'dot', 'reshape', 'ravel', 'size', 'shape', 'median', 'average', 'unique', 'lexsort',
              'zeros_like', 'ones_like', 'empty_like', 'full_like', 'atleast_1d', 'atleast_2d', 'squeeze', 'count_nonzero', 'flatnonzero',
              'ptp', 'nan_to_num', 'take', 'repeat', 'tile', 'pad', 'outer', 'copy', 'select', 'cross', 'convolve', 'trim_zeros', 'split',
              'array_split', 'gradient', 'piecewise', 'bincount', 'ediff1d', 'vdot', 'inner', 'tensordot', 'einsum', 'compress', 'extract', 'nanmax', 'nanmin', 'nanmean', 'nansum'):
        if hasattr(np, n):
            over[n] = _arr_of_func(n)
    for n in list(U1) + list(U1B) + list(U2) + list(U2B):
        over[n] = UfuncShim(getattr(np, n))
    over['abs'] = over['absolute']
    over['conj'] = over['conjugate']
    over['true_divide'] = over['divide']
    over['mod'] = over['remainder']
    over['pow'] = over['power']
    over['deepcopy'] = None
    del over['deepcopy']
    return _Shim('numpy', np, over)


class vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if excluded or signature:
            raise EngineLimit('vectorize')
        self.f, self.ot, self.__name__ = pyfunc, otypes, getattr(pyfunc, '__name__', 'vectorized')

    def __call__(self, *a, **k):
        aa = [asarray(x) for x in a]
        shape = np.broadcast_shapes(*[x.shape for x in aa])
        bs = [np.broadcast_to(as_obj(x), shape) for x in aa]
        r = np.empty(shape, dtype=object)
        many = None
        for idx in np.ndindex(*shape):
            r[idx] = self.f(*[npval(b[idx]) for b in bs], **k)
            if isinstance(r[idx], tuple):
                raise EngineLimit('vectorize with several outputs')
            if isinstance(r[idx], nd):
                r[idx] = r[idx].item()
        if not shape:
            return npval(r.item())
        # the type of the first result, as numpy does
        w = wrap(r)
        k0 = dt_kind(self.ot[0]) if self.ot else el_kind(r.reshape(-1)[0]) if r.size else 'f'
        return w.astype({'f': float, 'c': complex, 'i': int, 'b': bool}[k0]) if arr_kind(w) != k0 else w


def sh_frompyfunc(f, nin, nout, **k):
    if nout != 1:
        raise EngineLimit('frompyfunc')

    def g(*a):
        return vectorize(f)(*a)
    return g


class RClass:
    """np.r_ of one-dimensional pieces"""

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if not any(has_sym(k) or isinstance(k, SymArray) for k in key if not isinstance(k, slice)):
            return from_native(np.r_[key])
        parts = []
        for k in key:
            if isinstance(k, str):
                raise EngineLimit('r_ directive')
            if isinstance(k, slice):
                parts.append(from_native(np.r_[k]))
            else:
                k = asarray(k)
                parts.append(k.reshape(1) if k.ndim == 0 else k)
        return generic(np.concatenate, (parts,), {'axis': -1})


class CClass:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = [asarray(k) for k in key]
        return generic(np.concatenate, ([p.reshape(-1, 1) if p.ndim < 2 else p for p in parts],), {'axis': -1})


class UfuncShim:
    """np.sqrt(5.0) etc. on plain numbers stays numpy's own; lists with symbolic entries are converted"""

    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        aa = tuple(asarray(x) if isinstance(x, (list, tuple)) else x for x in a)
        if any(isinstance(x, SymArray) or is_sym(x) for x in aa) or isinstance(k.get('out'), SymArray):
            return handle_ufunc(self._real, '__call__', aa, dict(k))
        r = self._real(*aa, **k)
        return from_native(r) if isinstance(r, nd) and r.dtype.kind in 'fc' else r

    def __getattr__(self, n):
        if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            def g(*a, **k):
                if n == 'reduceat' and len(a) > 2:
                    k['axis'] = a[2]
                    a = a[:2]
                if n in ('at', 'reduceat'):
                    if isinstance(a[0], (list, tuple)) and n == 'reduceat':
                        a = (asarray(a[0]),) + a[1:]
                    if isinstance(a[0], SymArray) or any(is_sym(x) or isinstance(x, SymArray) for x in a):
                        return handle_ufunc(self._real, n, a, k)
                    return getattr(self._real, n)(*a, **k)
                if n != 'outer' and len(a) > 1:
                    k['axis'] = a[1]
                    a = a[:1]
                aa = tuple(asarray(x) if isinstance(x, (list, tuple)) else x for x in a)
                if any(isinstance(x, SymArray) or is_sym(x) for x in aa):
                    return handle_ufunc(self._real, n, aa, k)
                return getattr(self._real, n)(*aa, **k)
            return g
        return getattr(self._real, n)


# ------------------------------------------------------------------------------------------ scipy

def sh_welch(x, fs=1.0, window='hann', nperseg=None, noverlap=None, nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1, average='mean'):
    """contract stub: frequency axis per scipy's documentation, arbitrary non-negative densities; arguments recorded"""
    x = asarray(x)
    n = x.shape[-1]

    def asint(v, nm):
        if v is None:
            return None
        if isinstance(v, (SymReal, SymFP)):
            return int(v)
        return int(v)
    np_ = asint(nperseg, 'nperseg')
    if np_ is not None and np_ < 1:
        raise ValueError('nperseg must be a positive integer')
    seg = 256 if np_ is None else np_
    if seg > n:
        seg = n
    nf = asint(nfft, 'nfft')
    if nf is None:
        nf = seg
    elif nf < seg:
        raise ValueError('nfft must be greater than or equal to nperseg.')
    no = asint(noverlap, 'noverlap')
    if no is not None and no >= seg:
        raise ValueError('noverlap must be less than nperseg.')
    rec = dict(x=x, fs=fs, window=window, nperseg=np_, noverlap=no, nfft=asint(nfft, 'nfft'), detrend=detrend, return_onesided=return_onesided,
               scaling=scaling, axis=axis, average=average, seg=seg, nfft_used=nf)
    c = E.cur()
    c.tables.setdefault('welch_calls', []).append(rec)
    m = nf // 2 + 1 if return_onesided else nf
    fr = wrap(asarray([mul(fs, F2(i, nf)) for i in range(m)]), 'f')
    S = new((m,), 'f')
    flat = [npu(v) for v in raw(x).reshape(-1)] if isinstance(x, SymArray) else [float(v) for v in x.reshape(-1)]
    step = seg - (seg // 2 if no is None else no)
    atoms = {i for v in flat if isinstance(v, SymReal) for mo in v.p for i, _ in mo}
    exact = (x.ndim == 1 and return_onesided and scaling == 'density' and detrend in ('constant', False) and average == 'mean' and axis in (-1, 0)
             and len(atoms) ** 2 * m * ((n - seg) // step + 1) < 4000)
    if exact:
        import scipy.signal
        w = np.asarray(scipy.signal.get_window(window, seg), dtype=float) if isinstance(window, (str, tuple)) else np.asarray(window, dtype=float)
        tot, k = [0.0] * m, 0
        for i in range(0, n - seg + 1, step):
            v = flat[i:i + seg]
            if detrend:
                mu = F2(1, seg) * total(v)
                v = [sub(y, mu) for y in v]
            v = [mul(y, float(z)) for y, z in zip(v, w)]
            sp = m_fft1(wrap(asarray(v), 'f') if any(is_sym(y) for y in v) else np.array(v), nf, -1, None, False, 'r')
            for j in range(m):
                re, im = E.cparts(npu(sp[j]))
                tot[j] = add(tot[j], add(mul(re, re), mul(im, im)))
            k += 1
        sc = div(1.0, mul(fs, float((w * w).sum()) * k))
        for j in range(m):
            d = 1.0 if j == 0 or (nf % 2 == 0 and j == m - 1) else 2.0
            raw(S)[j] = mul(mul(tot[j], sc), d)
        return fr, S
    # uninterpreted function of all arguments
    key = (tuple(_ckey(v) for v in flat), _ckey(fs), str(window), seg, step, nf, str(detrend), return_onesided, scaling, axis, average)
    memo = c.tables.setdefault('welch_memo', {})
    if key not in memo:
        memo[key] = []
        for i in range(m):
            a = c.atom(c.fresh('pxx'), sign='>=', lo=0, hi=None)
            c.add(a.z >= 0)
            memo[key].append(SymReal({((a.idx, 1),): F(1)}))
    for i in range(m):
        raw(S)[i] = memo[key][i]
    return fr, S


def _ckey(v):
    return ('s', E.p_key(v.p)) if isinstance(v, SymReal) else v


def total(v):
    t = 0.0
    for x in v:
        t = add(t, x)
    return t


def F2(i, n):
    q = F(i, n)
    return SymReal({(): q}) if q else 0.0


class _RV:
    def __init__(self, real, name):
        self._real, self._n = real, name

    def ppf(self, q, *a, **k):
        if has_sym(q) or any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            hook = E.cur().tables.get('rv_hook')
            if hook:
                return hook(self._n, 'ppf', q, a, k)
            raise EngineLimit(f'{self._n}.ppf on symbolic values')
        r = self._real.ppf(to_native(q), *a, **k)
        return from_native(r)

    def __getattr__(self, n):
        raise EngineLimit(f'{self._n}.{n}')


def _special_fn(name, real):
    def f(*a):
        if any(has_sym(x) for x in a):
            hook = E.cur().tables.get('special_hook')
            if hook:
                return hook(name, a)
            raise EngineLimit(f'special.{name} on symbolic values')
        return from_native(real(*[to_native(x) for x in a]))
    f.__name__ = name
    return f


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = asarray(y)
    if y.ndim != 1:
        raise EngineLimit('cumulative integration')
    v = list(as_obj(y))
    t = None if x is None else list(as_obj(asarray(x)))
    r = [] if initial is None else [initial]
    acc = 0.0
    for i in range(1, len(v)):
        h = dx if t is None else sub(t[i], t[i - 1])
        acc = add(acc, mul(mul(h, 0.5), add(v[i], v[i - 1])))
        r.append(acc)
    return wrap(as_obj(asarray(r)), 'f')


def build_shims():
    import scipy.integrate, scipy.special, scipy.signal, scipy.stats, scipy.fft
    npm = np_shim()
    integ = _Shim('scipy.integrate', scipy.integrate, dict(simpson=m_simpson, trapezoid=m_trapezoid, cumulative_trapezoid=cumtrapz))
    spec = _Shim('scipy.special', scipy.special, {n: _special_fn(n, getattr(scipy.special, n)) for n in ('gamma', 'gammainc', 'gammaincc', 'gammaln', 'erf', 'erfc')})
    sig = _Shim('scipy.signal', scipy.signal, dict(welch=sh_welch, hilbert=m_hilbert))
    st = _Shim('scipy.stats', scipy.stats, dict(rayleigh=_RV(scipy.stats.rayleigh, 'rayleigh'), exponweib=_RV(scipy.stats.exponweib, 'exponweib')))
    sfft = _Shim('scipy.fft', scipy.fft, {n: npm.fft.__dict__[n] for n in ('fft', 'ifft', 'rfft', 'irfft', 'fftfreq', 'rfftfreq')})
    import scipy
    sp = _Shim('scipy', scipy, dict(integrate=integ, special=spec, signal=sig, stats=st, fft=sfft))

    def mfn(name):
        real = getattr(math, name)

        def f(*a):
            aa = [x.item() if isinstance(x, nd) and x.size == 1 else x for x in a]
            if any(is_sym(x) for x in aa):
                if name in ('floor', 'ceil', 'trunc'):
                    return getattr(aa[0], f'__{name}__')()
                if name == 'isnan':
                    return _isnan(aa[0])
                if name == 'isinf':
                    return _isinf(aa[0])
                if name == 'isfinite':
                    return not _isnan(aa[0]) and not _isinf(aa[0])
                if name == 'fabs':
                    return abs(aa[0])
                if name == 'pow':
                    return power(*aa)
                if name == 'hypot':
                    return _hypot(*aa)
                if name == 'sqrt' and _cmpop('<')(aa[0], 0):
                    raise ValueError('math domain error')
                if name == 'log' and len(aa) == 1 and _cmpop('<=')(aa[0], 0):
                    raise ValueError('math domain error')
                if name in U1 and len(aa) == 1:
                    return U1[name](aa[0])
                if name == 'copysign':
                    return _copysign(*aa)
                if name == 'fmod':
                    return _fmod(*aa)
                raise EngineLimit(f'math.{name}')
            return real(*aa)
        return f
    mover = {n: mfn(n) for n in ('floor', 'ceil', 'trunc', 'sqrt', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'isnan', 'isinf', 'isfinite', 'fabs', 'pow', 'hypot', 'atan', 'copysign', 'fmod')}

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        a, b = (x.item() if isinstance(x, nd) else x for x in (a, b))
        if not is_sym(a) and not is_sym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(sub(a, b))
        return bool(d <= mul(rel_tol, _max(abs(a), abs(b))) or d <= abs_tol)
    mover['isclose'] = isclose

    def fsum(v):
        return sum_list([0.0] + list(v))

    def prod(v, start=1):
        r = start
        for x in v:
            r = r * x
        return r
    mover['fsum'], mover['prod'] = fsum, prod
    mm = _Shim('math', math, mover)
    return {'numpy': npm, 'numpy.fft': npm.fft, 'numpy.random': npm.random, 'scipy': sp, 'scipy.integrate': integ, 'scipy.special': spec, 'scipy.signal': sig,
            'scipy.stats': st, 'scipy.fft': sfft, 'math': mm}


class Dummy(types.ModuleType):
    """matplotlib stand-in: accepts everything, returns itself"""

    def __init__(self, name='dummy'):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__call__',):
            raise AttributeError(n)
        d = Dummy(n)
        self.__dict__[n] = d
        return d

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((self, self))

    def __getitem__(self, i):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Axes:
    """what is drawn in one set of axes"""

    def __init__(self, fig):
        self.figure, self.lines_, self.hists, self.ticks, self.xlim_, self.xscale, self.yscale = fig, [], [], None, None, 'linear', 'linear'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(n)

    def plot(self, *a, **k):
        out = []
        a = list(a)
        arr = lambda v: v if isinstance(v, nd) else nd_of(v)
        while a:
            if len(a) > 1 and not isinstance(a[1], str):
                x, y = arr(a[0]), arr(a[1])
                del a[:2]
            else:
                y = arr(a[0])
                x = nd_of([float(i) for i in range(len(y))])
                del a[:1]
            if a and isinstance(a[0], str):
                del a[0]
            if x.shape[:1] != y.shape[:1]:
                raise ValueError(f'x and y must have same first dimension, but have shapes {x.shape} and {y.shape}')
            self.lines_.append((k.get('label', ''), list(x.ravel()), list(y.ravel())))
            out.append(Dummy('line'))
        return out

    def semilogy(self, *a, **k):
        self.yscale = 'log'
        return self.plot(*a, **k)

    def semilogx(self, *a, **k):
        self.xscale = 'log'
        return self.plot(*a, **k)

    def hist(self, x, *a, **k):
        self.hists.append(list((x if isinstance(x, nd) else nd_of(x)).ravel()))
        return Dummy(), Dummy(), Dummy()

    def set_yscale(self, v, **k):
        self.yscale = v

    def set_xscale(self, v, **k):
        self.xscale = v

    def set_xlim(self, *a, **k):
        v = a or (k.get('left', k.get('xmin')), k.get('right', k.get('xmax')))
        self.xlim_ = tuple(v[0]) if isinstance(v[0], (tuple, list, nd)) else tuple(v)
        return self.xlim_

    def set_xticks(self, ticks=None, labels=None, **k):
        if ticks is not None:
            lab = None if labels is None else [x.item() if isinstance(x, nd) else x for x in (list(labels.ravel()) if isinstance(labels, nd) else labels)]
            self.ticks = (list((ticks if isinstance(ticks, nd) else nd_of(ticks)).ravel()), lab)

    def set(self, **k):
        for n, v in k.items():
            getattr(self, 'set_' + n)(v)


class Fig:
    def __init__(self):
        self.ax = None
        self.saved = []

    def gca(self, *a, **k):
        if self.ax is None:
            self.ax = Axes(self)
        return self.ax

    add_subplot = subplots = add_axes = gca

    @property
    def axes(self):
        return [self.ax] if self.ax else []

    def savefig(self, path, *a, **k):
        ax = self.ax
        self.saved.append((path, (len(ax.lines_), len(ax.hists)) if ax else (0, 0)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(n)


def nd_of(v):
    return asarray(v)


class PyPlot(Dummy):
    """matplotlib.pyplot stand-in that records what is drawn"""

    def __init__(self):
        super().__init__('matplotlib.pyplot')
        self.__dict__['cur'] = None

    def reset(self):
        self.__dict__['cur'] = None

    def figure(self, *a, **k):
        if a and isinstance(a[0], Fig):
            self.__dict__['cur'] = a[0]
        else:
            self.__dict__['cur'] = Fig()
        return self.cur

    def gcf(self):
        return self.cur or self.figure()

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.gca()

    def gca(self, **k):
        return self.gcf().gca()

    def axes(self, *a, **k):
        return self.gca()

    def subplot(self, *a, **k):
        return self.gca()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def semilogy(self, *a, **k):
        return self.gca().semilogy(*a, **k)

    def semilogx(self, *a, **k):
        return self.gca().semilogx(*a, **k)

    def hist(self, *a, **k):
        return self.gca().hist(*a, **k)

    def xscale(self, v, **k):
        self.gca().set_xscale(v)

    def yscale(self, v, **k):
        self.gca().set_yscale(v)

    def xlim(self, *a, **k):
        return self.gca().set_xlim(*a, **k)

    def xticks(self, *a, **k):
        return self.gca().set_xticks(*a, **k)

    def savefig(self, path, *a, **k):
        self.gcf().savefig(path)

    def close(self, *a, **k):
        self.__dict__['cur'] = None

    clf = cla = close
