"""Symbolic arrays (SArr) and the numpy module the code under test sees.

SArr is an object-dtype ndarray with a logical dtype: shape, view, indexing,
broadcasting and structural functions are numpy's own; elementwise arithmetic,
reductions and conversions go through symk.val.
"""
import builtins
import functools
import math as _math
import operator
import types

import numpy as np

from . import core, val
from .core import Unsupported, Poly, ctx, Cons, ATOMS
from .val import Val, FV, lift, cast, retype, F32, F64, I64

OBJ = np.dtype(object)


def real_dtype(dt):
    """numpy dtype for anything used as a dtype"""
    if dt is None:
        return F64
    if isinstance(dt, np.dtype):
        return dt
    if isinstance(dt, type) and hasattr(dt, '_np'):
        return np.dtype(dt._np)
    if dt is float or dt is SymFloat:
        return F64
    if dt is int or dt is SymInt:
        return I64
    if isinstance(dt, list):
        return np.dtype([tuple(_fd(f)) for f in dt])
    return np.dtype(dt)


def _fd(f):
    f = list(f)
    f[1] = real_dtype(f[1])
    if len(f) > 2:
        f[2] = plain_index(f[2])
    return f


def plain_index(x):
    if isinstance(x, tuple):
        return tuple(plain_index(y) for y in x)
    if isinstance(x, list):
        return [plain_index(y) for y in x]
    if isinstance(x, Val):
        return int(x.__index__()) if val.kind(x.dt) != 'b' else bool(x)
    if isinstance(x, SArr):
        if x._ldt.kind in 'iu':
            return np.array([int(v) for v in x.obj().ravel()],
                            dtype=np.int64).reshape(x.shape)
        if x._ldt.kind == 'b':
            return np.array([bool(v) for v in x.obj().ravel()],
                            dtype=bool).reshape(x.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(x, np.ndarray) and x.dtype == OBJ:
        return plain_index(wrap(x))
    return x


class SArr(np.ndarray):
    _ldt = F64
    __array_priority__ = 500.

    def __array_finalize__(self, obj):
        self._ldt = getattr(obj, '_ldt', F64)

    # -- basic
    @property
    def dtype(self):
        return self._ldt

    @property
    def itemsize(self):
        return self._ldt.itemsize

    @property
    def nbytes(self):
        return self._ldt.itemsize * self.size

    @property
    def real(self):
        return self

    def obj(self):
        return np.ndarray.view(self, np.ndarray)

    def __getitem__(self, k):
        k = plain_index(k)
        r = self.obj()[k]
        if isinstance(r, np.ndarray):
            return wrap(r, self._ldt)
        return settype(r, self._ldt)

    def __setitem__(self, k, v):
        k = plain_index(k)
        o = self.obj()
        if isinstance(v, SRec):
            raise Unsupported('record into array')
        if is_scalar(v):
            lv = lift(v)
            if lv is None:
                raise TypeError("cannot store %r" % (v,))
            if lv.shape == ():
                o[k] = cast(lv, self._ldt)
                return
        a = toobj(v)
        if a.dtype == OBJ:
            b = np.empty(a.shape, dtype=object)
            for i, x in np.ndenumerate(a):
                b[i] = cast(lift(x), self._ldt)
            a = b
        tgt = o[k]
        if isinstance(tgt, np.ndarray) and tgt.dtype == OBJ:
            if a.ndim == 0:
                o[k] = a[()]
            else:
                o[k] = a
        else:
            if a.size != 1:
                raise ValueError("setting an array element with a sequence.")
            o[k] = a.reshape(())[()]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return do_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)

    def astype(self, dt, copy=True, **kw):
        dt = real_dtype(dt)
        if dt == self._ldt and not copy:
            return self
        return castarr(self, dt)

    def view(self, *a, **k):
        if not a and not k:
            return wrap(self.obj().view(), self._ldt)
        if a and a[0] is np.ndarray:
            return self
        raise Unsupported('view')

    def copy(self, order='C'):
        return wrap(self.obj().copy(), self._ldt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickle')

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return settype(a[()], self._ldt).item()
            return [rec(a[i]) for i in range(a.shape[0])]
        return rec(self.obj())

    def item(self, *a):
        if a:
            return settype(self.obj().item(*a), self._ldt)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return settype(self.obj().reshape(-1)[0], self._ldt)

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element"
                         " is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0 or self.size == 1:
            return self.item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype) != OBJ:
            return np.array([x.const() if isinstance(x, Val) else x
                             for x in self.obj().ravel()], dtype=dtype).reshape(self.shape)
        return self.obj()

    def __repr__(self):
        return 'SArr%s(%r)' % (self.shape, list(self.obj().ravel()))

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __contains__(self, v):
        return bool(np.any(self == v))

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if kw.get('where', True) is not True or kw.get('initial') is not None or out is not None:
            return HANDLERS[np.sum](self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)
        return reduce_(operator.add, self, axis, keepdims, 0, dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if kw.get('where', True) is not True or kw.get('initial') is not None or out is not None:
            return HANDLERS[np.prod](self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **kw)
        return reduce_(operator.mul, self, axis, keepdims, 1, dtype)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        if kw.get('where', True) is not True or kw.get('initial') is not None or out is not None:
            return HANDLERS[np.max](self, axis=axis, out=out, keepdims=keepdims, **kw)
        return reduce_(lambda a, b: val.binop('maximum', a, b), self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        if kw.get('where', True) is not True or kw.get('initial') is not None or out is not None:
            return HANDLERS[np.min](self, axis=axis, out=out, keepdims=keepdims, **kw)
        return reduce_(lambda a, b: val.binop('minimum', a, b), self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if kw.get('where', True) is not True or kw.get('initial') is not None or out is not None:
            return HANDLERS[np.mean](self, axis=axis, out=out, keepdims=keepdims, **kw)
        n = self.size if axis is None else \
            int(np.prod([self.shape[a] for a in np.atleast_1d(axis)]))
        return settype_any(reduce_(operator.add, self, axis, keepdims, 0, dtype) / n,
                           self._ldt if self._ldt.kind == 'f' else F64)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np.any(tobool(self), axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np.all(tobool(self), axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return HANDLERS[np.var](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return HANDLERS[np.std](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def trace(self, offset=0, axis1=0, axis2=1, **kw):
        return HANDLERS[np.trace](self, offset, axis1, axis2)

    def compress(self, condition, axis=None, out=None):
        return HANDLERS[np.compress](condition, self, axis)

    def cumprod(self, axis=None, **kw):
        return HANDLERS[np.cumprod](self, axis)

    def nonzero(self):
        return tobool(self).nonzero()

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(self.obj().cumsum(axis=axis), self._ldt)

    def dot(self, b, out=None):
        return do_function(np.dot, (self, b), {})

    def clip(self, min=None, max=None, out=None, **kw):
        return f_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def argmax(self, axis=None, out=None, **kw):
        return do_function(np.argmax, (self,), {'axis': axis})

    def argmin(self, axis=None, out=None, **kw):
        return do_function(np.argmin, (self,), {'axis': axis})

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        if self.ndim != 1:
            raise Unsupported('sort')
        self.obj()[...] = self.obj()[f_argsort(self)]

    def searchsorted(self, v, side='left', sorter=None):
        return f_searchsorted(self, v, side)

    def repeat(self, repeats, axis=None):
        return wrap(self.obj().repeat(plain_index(repeats), axis=axis), self._ldt)

    def take(self, idx, axis=None, **kw):
        return wrap(self.obj().take(plain_index(idx), axis=axis), self._ldt)

    def partition(self, *a, **k):
        raise Unsupported('partition')

    def conj(self):
        return self

    conjugate = conj

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def byteswap(self, *a, **k):
        return self

    # comparison of an SArr with None / str, as numpy does it
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.zeros(self.shape, dtype=bool)
        return do_ufunc(np.equal, '__call__', (self, o), {})

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return np.ones(self.shape, dtype=bool)
        return do_ufunc(np.not_equal, '__call__', (self, o), {})

    __hash__ = None


def settype(v, dt):
    if isinstance(v, Val):
        if dt.kind == 'b':
            return np.bool_(bool(v))
        return retype(v, dt)
    l = lift(v)
    return retype(l, dt) if l is not None else v


def settype_any(v, dt):
    if isinstance(v, SArr):
        v._ldt = dt
        return v
    return settype(v, dt)


def is_scalar(v):
    return isinstance(v, (Val, bool, int, float, np.generic)) and not isinstance(v, np.ndarray)


def obj0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def wrap(a, dt=None):
    """SArr around an object ndarray"""
    if isinstance(a, SArr):
        a = a.obj()
    if dt is None:
        dt = dtype_of(a)
    r = np.ndarray.view(a, SArr)
    r._ldt = dt
    return r


def dtype_of(a):
    dt = None
    for x in a.ravel():
        l = lift(x)
        d = l.dt if l is not None else F64
        dt = d if dt is None else val.promote(dt, d)
    return val.concrete_dt(dt) if dt is not None else F64


def toobj(x):
    """plain ndarray (object dtype where symbolic) of anything array-like"""
    if isinstance(x, SArr):
        return x.obj()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, Val):
        return obj0(x)
    if isinstance(x, SymShaped):
        return x.force().obj()
    if isinstance(x, (list, tuple)):
        if not has_sym(x):
            return np.array(x)
        items = [toobj(y) for y in x]
        shapes = set(i.shape for i in items)
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested "
                             "array has an inhomogeneous shape")
        shp = shapes.pop()
        r = np.empty((len(items),) + shp, dtype=object)
        for i, it in enumerate(items):
            if it.dtype == OBJ:
                r[i] = it if shp else it[()]
            else:
                for j, v in np.ndenumerate(it):
                    r[(i,) + j] = v
        return r
    return np.asarray(x)


def has_sym(x):
    if isinstance(x, (Val, SArr, SymShaped)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    return False


def ldtype(x):
    """logical dtype of anything (weak for python scalars)"""
    if isinstance(x, SArr):
        return x._ldt
    if isinstance(x, Val):
        return x.dt
    if isinstance(x, SymShaped):
        return x.dtype
    if isinstance(x, np.ndarray):
        return dtype_of(x) if x.dtype == OBJ else x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (bool,)):
        return np.dtype(bool)
    if isinstance(x, int):
        return val.WI
    if isinstance(x, float):
        return val.WF
    if isinstance(x, (list, tuple)):
        a = toobj(x)
        return dtype_of(a) if a.dtype == OBJ else a.dtype
    return F64


def tobool(a):
    o = toobj(a)
    if o.dtype != OBJ:
        return o.astype(bool)
    r = np.empty(o.shape, dtype=bool)
    for i, x in np.ndenumerate(o):
        r[i] = bool(x)
    return r


def objify(a):
    """object array whose elements are Val"""
    o = toobj(a)
    r = np.empty(o.shape, dtype=object)
    for i, x in np.ndenumerate(o):
        l = lift(x)
        if l is None:
            raise Unsupported("array of %s" % type(x))
        r[i] = l
    return r


def castarr(a, dt):
    o = toobj(a)
    if o.dtype.kind in 'US':
        return np.array(o, dtype=dt)
    if dt.kind == 'b':
        return tobool(o)
    r = np.empty(o.shape, dtype=object)
    for i, x in np.ndenumerate(o):
        l = lift(x)
        if l is None:
            raise Unsupported("array of %s" % type(x))
        r[i] = cast(l, dt)
    return wrap(r, dt)


def reduce_(op, a, axis, keepdims=False, init=None, dtype=None):
    dt = a._ldt
    if dt.kind == 'b':
        dt = I64
    if dtype is not None:
        dt = real_dtype(dtype)
    o = a.obj()
    if axis is None:
        ax = tuple(range(o.ndim))
    else:
        ax = tuple(int(x) % o.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(rest + list(ax)).reshape([o.shape[i] for i in rest] + [-1])
    r = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(*t.shape[:-1]):
        items = list(t[i])
        if not items and init is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        acc = lift(init) if not items else items[0]
        for x in items[1:]:
            acc = op(acc, x)
        r[i] = retype(acc, dt)
    if keepdims:
        shp = [1 if i in ax else o.shape[i] for i in range(o.ndim)]
        return wrap(r.reshape(shp), dt)
    if r.ndim == 0:
        return settype(r[()], dt)
    return wrap(r, dt)


# ---------------------------------------------------------------- ufuncs

BOOLF = {'isnan', 'isinf', 'isfinite', 'logical_not', 'signbit', 'isneginf', 'isposinf'}


def nin(uf):
    return uf.nin


def do_ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if method == '__call__':
        if kw and name != 'vecdot':
            raise Unsupported("ufunc %s with %s" % (name, list(kw)))
        if name == 'matmul':
            r = f_matmul(*inputs)
            return store(out, r)
        if name == 'vecdot':
            ax = kw.pop('axis', -1)
            a, b = aswrap(inputs[0]), aswrap(inputs[1])
            return store(out, (a * b).sum(axis=ax))
        if name == 'divmod':
            return (do_ufunc(np.floor_divide, '__call__', inputs, {}),
                    do_ufunc(np.remainder, '__call__', inputs, {}))
        if uf.nout != 1:
            raise Unsupported("ufunc %s" % name)
        arrs = [toobj(x) for x in inputs]
        dts = [ldtype(x) for x in inputs]
        if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert') and \
                not all(_k(d) == 'b' for d in dts):
            if any(_k(d) == 'f' for d in dts):
                raise TypeError("ufunc '%s' not supported for the input types" % name)
        if name == 'invert':
            name = 'logical_not'
        bc = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
        shp = bc[0].shape if len(bc) else ()
        wh = None
        if where is not True:
            wh = np.broadcast_to(tobool(where), shp)
        if name in BOOLF or name in val.COMPARE or name in val.LOGICAL:
            r = np.zeros(shp, dtype=bool)
            for i in np.ndindex(*shp):
                if wh is not None and not wh[i]:
                    continue
                xs = [typed(b[i], d) for b, d in zip(bc, dts)]
                r[i] = call(name, xs)
            if out is not None:
                return store(out, r, wh)
            return r if shp else np.bool_(r[()])
        r = np.empty(shp, dtype=object)
        rdt = None
        for i in np.ndindex(*shp):
            if wh is not None and not wh[i]:
                r[i] = None
                continue
            xs = [typed(b[i], d) for b, d in zip(bc, dts)]
            r[i] = call(name, xs)
        if len(dts) == 1:
            rdt = dts[0] if _k(dts[0]) == 'f' or name in (
                'negative', 'absolute', 'positive', 'conjugate', 'square', 'sign',
                'floor', 'ceil', 'rint', 'trunc') else (
                    F64 if dts[0] != val.WI else val.WF)
        else:
            rdt = val.promote(dts[0], dts[1], div=name in ('divide', 'true_divide'))
        rdt = val.concrete_dt(rdt)
        if rdt.kind == 'b':
            rdt = np.dtype(np.int8)
        if dtype is not None:
            rdt = real_dtype(dtype)
        if out is not None:
            return store(out, r, wh)
        for i in np.ndindex(*shp):
            if r[i] is None:
                r[i] = fresh_undef(rdt)
            else:
                r[i] = retype(r[i], rdt)
        if shp == ():
            return r[()]
        return wrap(r, rdt)
    if method == 'reduce':
        a = aswrap(inputs[0])
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        init = kw.get('initial', None)
        if name in ('add', 'multiply', 'maximum', 'fmax', 'minimum', 'fmin'):
            f = {'add': np.sum, 'multiply': np.prod, 'maximum': np.max, 'fmax': np.nanmax,
                 'minimum': np.min, 'fmin': np.nanmin}[name]
            if name in ('fmax', 'fmin'):
                if where is not True or init not in (None, np._NoValue):
                    raise Unsupported('reduce with where/initial')
                return HANDLERS[f](a, axis=axis, out=out, keepdims=keep)
            k = {'dtype': dtype} if dtype is not None and name in ('add', 'multiply') else {}
            return HANDLERS[f](a, axis=axis, out=out, keepdims=keep, initial=init,
                               where=where, **k)
        if name == 'logical_and':
            return np.all(tobool(a), axis=axis, keepdims=keep)
        if name == 'logical_or':
            return np.any(tobool(a), axis=axis, keepdims=keep)
        raise Unsupported('reduce %s' % name)
    if method == 'outer':
        a, b = aswrap(inputs[0]), aswrap(inputs[1])
        return do_ufunc(uf, '__call__',
                        (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == 'accumulate':
        a = aswrap(inputs[0])
        if a.ndim != 1:
            raise Unsupported('accumulate')
        r = np.empty(a.shape, dtype=object)
        acc = None
        for i, x in enumerate(a.obj()):
            acc = x if acc is None else call(name, [acc, x])
            r[i] = acc
        return wrap(r, a._ldt)
    if method == 'at':
        a, idx = inputs[0], plain_index(inputs[1])
        if name in ('add', 'subtract', 'multiply') and isinstance(a, SArr):
            o = a.obj()
            idxs = np.atleast_1d(np.asarray(idx)) if not isinstance(idx, tuple) else None
            if idxs is None:
                raise Unsupported('ufunc.at')
            b = np.broadcast_to(toobj(inputs[2]), idxs.shape)
            for j, v in zip(idxs, b):
                o[j] = cast(call(name, [o[j], lift(v)]), a._ldt)
            return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _k(d):
    return val.kind(d)


def typed(x, d):
    l = lift(x)
    if l is None:
        return x
    return retype(l, d) if not isinstance(l, FV) else l


def call(name, xs):
    if len(xs) == 1:
        return val.ufunc1(name, xs[0])
    if len(xs) == 2:
        r = val.binop(name, xs[0], xs[1])
        if r is NotImplemented:
            raise TypeError("unsupported operand types for %s" % name)
        return r
    raise Unsupported(name)


_undef = [0]


def fresh_undef(dt):
    """contents of np.empty / ufunc outputs outside where="""
    c = ctx()
    nm = c.newname('undef')
    a = ATOMS.get('VAR', ('undef', nm), nm, lo=-10**6, hi=10**6)
    return Val(Poly.atom(a), dt)


def store(out, r, wh=None):
    if out is None:
        return r
    if isinstance(out, SArr):
        if wh is None:
            out[...] = r
        else:
            o = out.obj()
            ro = np.broadcast_to(toobj(r), o.shape)
            for i in np.ndindex(*o.shape):
                if wh[i]:
                    o[i] = cast(lift(ro[i]), out._ldt)
        return out
    if isinstance(out, np.ndarray):
        if out.dtype == bool:
            if wh is None:
                out[...] = r
            else:
                out[wh] = r[wh]
            return out
        o = toobj(r)
        for i in np.ndindex(*out.shape):
            if wh is None or wh[i]:
                v = np.broadcast_to(o, out.shape)[i]
                if isinstance(v, Val) and not v.is_const():
                    raise Unsupported("symbolic result into a concrete array")
                out[i] = v.const() if isinstance(v, Val) else v
        return out
    if isinstance(out, SymShaped):
        store(out.force(), r, wh)
        return out
    raise Unsupported('out=')


def aswrap(x):
    if isinstance(x, SArr):
        return x
    o = toobj(x)
    if o.dtype == OBJ:
        dt = ldtype(x)
        return wrap(o, val.concrete_dt(dt))
    dt = o.dtype
    return wrap(objify(o), dt)


# ---------------------------------------------------------------- functions

HANDLERS = {}


def handles(*fs):
    def deco(g):
        for f in fs:
            HANDLERS[f] = g
        return g
    return deco


def strip(x):
    if isinstance(x, SArr):
        return x.obj()
    if isinstance(x, SymShaped):
        return x.force().obj()
    if isinstance(x, Val):
        return obj0(x)
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    if isinstance(x, list):
        if has_sym(x):
            return [strip(y) for y in x]
        return x
    return x


def rewrap(r, dt):
    if isinstance(r, np.ndarray):
        if r.dtype == OBJ:
            if not all(isinstance(x, (Val, FV)) for x in r.ravel()):
                if any(lift(x) is None for x in r.ravel()):
                    raise Unsupported('array of objects')
                if r.flags.writeable:
                    for i, x in np.ndenumerate(r):
                        r[i] = lift(x)
                else:
                    r = objify(r)
            return wrap(r, dt)
        return r
    if isinstance(r, Val):
        return settype(r, dt)
    if isinstance(r, tuple):
        return type(r)(*[rewrap(x, dt) for x in r]) if hasattr(r, '_fields') else \
            tuple(rewrap(x, dt) for x in r)
    if isinstance(r, list):
        return [rewrap(x, dt) for x in r]
    return r


def collect_dt(args):
    dt = None
    for a in args:
        if isinstance(a, (SArr, Val, np.ndarray)) and not (
                isinstance(a, np.ndarray) and a.dtype.kind not in 'fiubO'):
            d = ldtype(a)
            dt = d if dt is None else val.promote(dt, d)
        elif isinstance(a, (list, tuple)):
            d = collect_dt(a)
            if d is not None:
                dt = d if dt is None else val.promote(dt, d)
    return dt


OPAQUE = {'percentile', 'quantile', 'median', 'nanmedian', 'histogram', 'save', 'savetxt',
          'bincount', 'packbits', 'unpackbits', 'fft', 'lstsq', 'solve', 'inv', 'svd', 'eig',
          'eigh', 'qr', 'det', 'pinv', 'polyfit', 'corrcoef', 'convolve', 'correlate',
          'array2string', 'array_repr', 'array_str', 'unwrap', 'i0', 'partition', 'argpartition'}
GENERIC_OK = {'iterable', 'reshape', 'transpose', 'squeeze', 'ravel', 'tile', 'repeat', 'stack',
              'concatenate', 'vstack', 'hstack', 'column_stack', 'dstack', 'append',
              'insert', 'delete', 'expand_dims', 'broadcast_to', 'broadcast_arrays',
              'atleast_1d', 'atleast_2d', 'atleast_3d', 'moveaxis', 'swapaxes',
              'rollaxis', 'flip', 'fliplr', 'flipud', 'roll', 'take', 'take_along_axis',
              'split', 'array_split', 'diag', 'diagonal', 'dot',
              'vdot', 'inner', 'outer', 'einsum', 'tensordot', 'copy', 'shape', 'ndim',
              'size', 'diff', 'cumsum', 'kron', 'meshgrid', 'block', 'choose', 'rot90',
              'hsplit', 'vsplit', 'tri', 'tril', 'triu', 'argmax', 'argmin', 'resize',
              'ix_', 'apply_along_axis', 'cross', 'unstack', 'matrix_transpose'}


def do_function(func, args, kwargs):
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    name = func.__name__
    if name not in GENERIC_OK:
        # numpy's own Python implementation, its calls coming back here
        impl = getattr(func, '_implementation', None)
        if impl is None or not isinstance(impl, types.FunctionType) or name in OPAQUE:
            raise Unsupported("numpy function %s" % name)
        return impl(*args, **kwargs)
    dt = collect_dt(list(args) + list(kwargs.values()))
    if name in ('take', 'compress', 'extract', 'take_along_axis', 'repeat', 'choose',
                'insert', 'delete', 'tile', 'roll'):
        dt = ldtype(args[0])
        args = tuple([args[0]] + [plain_index(a) for a in args[1:]])
    if name in ('reshape', 'broadcast_to', 'resize', 'expand_dims', 'squeeze', 'moveaxis', 'split',
                'array_split', 'transpose'):
        dt = ldtype(args[0]) if len(args) else dt
        args = tuple([args[0]] + [plain_index(a) for a in args[1:]]) if args else args
        kwargs = {k: plain_index(v) if k in ('shape', 'newshape', 'axis') else v
                  for k, v in kwargs.items()}
    if dt is None:
        dt = F64
    dt = val.concrete_dt(dt)
    if name in ('dot', 'inner', 'outer', 'einsum', 'vdot', 'tensordot', 'kron'):
        args = tuple(strip(objify(a)) if isinstance(a, (SArr, Val, np.ndarray, list, float, int))
                     else a for a in args)
    sargs = tuple(strip(a) for a in args)
    kwargs = {k: real_dtype(v) if k == 'dtype' else v for k, v in kwargs.items()}
    kdt = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    if 'optimize' in kwargs:
        kwargs.pop('optimize')
    out = kwargs.pop('out', None)
    skw = {k: strip(v) for k, v in kwargs.items()}
    r = func(*sargs, **skw)
    r = rewrap(r, kdt or dt)
    if out is not None:
        return store(out, r)
    return r


def f_matmul(a, b, **kw):
    dt = val.concrete_dt(val.promote(ldtype(a), ldtype(b)))
    r = np.matmul(objify(a), objify(b))
    if isinstance(r, np.ndarray):
        return wrap(r, dt)
    return settype(r, dt)


def _red(name, neutral):
    """np.sum and the like; where= selects, initial= is one more item"""
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        a = aswrap(a)
        no = (None, np._NoValue)
        keepdims = bool(keepdims) and keepdims is not np._NoValue
        if where is not True and where is not np._NoValue:
            if neutral is None and initial in no:
                raise ValueError("reduction operation with where needs initial")
            a = f_where(where, a, neutral if neutral is not None else initial)
        kw = {'dtype': dtype} if name in ('sum', 'prod') else {}
        r = getattr(a, name)(axis=axis, keepdims=keepdims, **kw)
        if initial not in no:
            op = {'sum': np.add, 'prod': np.multiply, 'max': np.maximum, 'min': np.minimum}[name]
            r = do_ufunc(op, '__call__', (r, initial), {})
        return store(out, r)
    return f


f_sum = HANDLERS[np.sum] = _red('sum', 0)
f_prod = HANDLERS[np.prod] = _red('prod', 1)


def _minmax(name):
    g = _red(name, None)

    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        return g(a, axis, None, out, keepdims, initial, where)
    return f


HANDLERS[np.max] = HANDLERS[np.amax] = _minmax('max')
HANDLERS[np.min] = HANDLERS[np.amin] = _minmax('min')


@handles(np.mean)
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = aswrap(a)
    keepdims = bool(keepdims) and keepdims is not np._NoValue
    if where is not True and where is not np._NoValue:
        w = np.broadcast_to(tobool(where), a.shape)
        n = np.sum(w, axis=axis, keepdims=keepdims)
        return store(out, f_where(w, a, 0).sum(axis=axis, keepdims=keepdims) / n)
    return store(out, a.mean(axis=axis, keepdims=keepdims))


def _isnan(a):
    r = np.zeros(a.shape, dtype=bool)
    for i, v in np.ndenumerate(a.obj()):
        r[i] = v.sp == 'nan' if not isinstance(v, FV) else bool(call('isnan', [v]))
    return r


@handles(np.nansum)
def f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aswrap(a)
    return store(out, f_sum(a, axis, dtype, None, keepdims, None, ~_isnan(a)))


@handles(np.nanprod)
def f_nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aswrap(a)
    return store(out, f_prod(a, axis, dtype, None, keepdims, None, ~_isnan(a)))


@handles(np.nanmean)
def f_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aswrap(a)
    return f_mean(a, axis, dtype, out, keepdims, ~_isnan(a))


@handles(np.median)
def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = aswrap(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    s = f_sort(a, axis)
    n = s.shape[axis]
    m = np.take(s, [(n - 1) // 2, n // 2], axis=axis).mean(axis=axis, keepdims=keepdims)
    return store(out, m)


@handles(np.compress)
def f_compress(condition, a, axis=None, out=None):
    c = tobool(condition)
    if axis is None:
        return aswrap(a).reshape(-1)[np.flatnonzero(c)]
    return np.take(aswrap(a), np.flatnonzero(c), axis=axis)


@handles(np.extract)
def f_extract(condition, arr):
    return aswrap(arr).reshape(-1)[np.flatnonzero(tobool(condition))]


@handles(np.trace)
def f_trace(a, offset=0, axis1=0, axis2=1, **kw):
    return np.diagonal(aswrap(a), offset, axis1, axis2).sum(axis=-1)


@handles(np.may_share_memory, np.shares_memory)
def f_share(a, b, **kw):
    return bool(np.may_share_memory(np.asarray(strip(a)), np.asarray(strip(b))))


@handles(np.convolve)
def f_convolve(a, v, mode='full'):
    x, y = list(aswrap(a).obj().ravel()), list(aswrap(v).obj().ravel())
    full = [sum((x[i] * y[k - i] for i in range(len(x)) if 0 <= k - i < len(y)), val.const(0))
            for k in range(len(x) + len(y) - 1)]
    n, m = max(len(x), len(y)), min(len(x), len(y))
    if mode == 'same':
        full = full[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        full = full[m - 1:n]
    r = np.empty(len(full), dtype=object)
    r[:] = full
    dt = val.concrete_dt(val.promote(ldtype(a), ldtype(v)))
    return wrap(r, dt)


@handles(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **kw):
    return np.any(tobool(a), axis=axis, keepdims=keepdims)


@handles(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **kw):
    return np.all(tobool(a), axis=axis, keepdims=keepdims)


@handles(np.count_nonzero)
def f_cnz(a, axis=None, **kw):
    return np.count_nonzero(tobool(a), axis=axis)


@handles(np.nonzero)
def f_nonzero(a):
    return tobool(a).nonzero()


@handles(np.flatnonzero)
def f_flatnonzero(a):
    return np.flatnonzero(tobool(a))


@handles(np.argwhere)
def f_argwhere(a):
    return np.argwhere(tobool(a))


@handles(np.where)
def f_where(cond, x=None, y=None):
    c = tobool(cond)
    if x is None and y is None:
        return np.where(c)
    dt = val.concrete_dt(val.promote(ldtype(x), ldtype(y)))
    xo, yo = toobj(x), toobj(y)
    c, xo, yo = np.broadcast_arrays(c, xo, yo)
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        r[i] = cast(lift(xo[i] if c[i] else yo[i]), dt)
    return wrap(r, dt)


@handles(np.select)
def f_select(condlist, choicelist, default=0):
    r = default
    for c, x in list(zip(condlist, choicelist))[::-1]:
        r = f_where(c, x, r)
    return r


@handles(np.clip)
def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if a_min is not None:
        r = do_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = do_ufunc(np.minimum, '__call__', (r, a_max), {})
    return store(out, r)


@handles(np.round, np.around)
def f_round(a, decimals=0, out=None):
    if decimals != 0:
        f = 10 ** decimals
        r = do_ufunc(np.rint, '__call__', (a * val.const(f),), {})
        return r / val.const(f)
    return do_ufunc(np.rint, '__call__', (a,), {})


@handles(np.nan_to_num)
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = aswrap(x)
    r = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a.obj()):
        if v.sp == 'nan':
            v = lift(nan)
        elif v.sp == 'inf':
            v = lift(posinf if posinf is not None else float(np.finfo(a._ldt).max))
        elif v.sp == '-inf':
            v = lift(neginf if neginf is not None else float(np.finfo(a._ldt).min))
        r[i] = retype(v, a._ldt)
    if isinstance(x, Val):
        return r[()]
    if not copy:
        return store(x, wrap(r, a._ldt))
    return wrap(r, a._ldt)


@handles(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = do_ufunc(np.subtract, '__call__', (a, b), {})
    lhs = do_ufunc(np.absolute, '__call__', (d,), {})
    rhs = do_ufunc(np.add, '__call__', (do_ufunc(np.multiply, '__call__', (
        do_ufunc(np.absolute, '__call__', (b,), {}), rtol), {}), atol), {})
    return do_ufunc(np.less_equal, '__call__', (lhs, rhs), {})


@handles(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(f_isclose(a, b, rtol, atol)))


@handles(np.array_equal)
def f_array_equal(a, b, equal_nan=False):
    x, y = toobj(a), toobj(b)
    if x.shape != y.shape:
        return False
    return bool(np.all(do_ufunc(np.equal, '__call__', (aswrap(a), aswrap(b)), {})))


@handles(np.argsort)
def f_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = aswrap(a)
    if a.ndim != 1:
        if axis is None:
            return f_argsort(a.reshape(-1))
        o = np.moveaxis(np.empty(a.shape, dtype=np.int64), axis, -1)
        m = np.moveaxis(a.obj(), axis, -1)
        for i in np.ndindex(*o.shape[:-1]):
            o[i] = f_argsort(wrap(m[i].copy(), a._ldt))
        return np.ascontiguousarray(np.moveaxis(o, -1, axis))
    o = list(a.obj())
    idx = sorted(range(len(o)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(o[i] < o[j]) else (1 if bool(o[i] > o[j]) else 0)))
    return np.array(idx, dtype=np.int64)


@handles(np.sort)
def f_sort(a, axis=-1, kind=None, order=None, **kw):
    a = aswrap(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if a.ndim != 1:
        return np.take_along_axis(a, f_argsort(a, axis), axis)
    return a[f_argsort(a)]


@handles(np.lexsort)
def f_lexsort(keys, axis=-1):
    ks = [list(aswrap(k).obj().ravel()) for k in keys][::-1]

    def cmp(i, j):
        for k in ks:
            if bool(k[i] < k[j]):
                return -1
            if bool(k[i] > k[j]):
                return 1
        return 0
    return np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), dtype=np.int64)


@handles(np.isin)
def f_isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    e = aswrap(element)
    t = list(aswrap(test_elements).obj().ravel())
    r = np.zeros(e.shape, dtype=bool)
    for i, x in np.ndenumerate(e.obj()):
        r[i] = any(bool(x == y) for y in t) != invert
    return r


if hasattr(np, 'in1d'):
    HANDLERS[np.in1d] = lambda a, b, assume_unique=False, invert=False, **k: f_isin(
        aswrap(a).reshape(-1), b, invert=invert)


def _nan_reduce(op, name):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        a = aswrap(a)
        if not any(v.sp == 'nan' for v in a.obj().ravel()):
            return getattr(a, name)(axis=axis, keepdims=keepdims)
        return store(out, reduce_(lambda x, y: val.binop(op, x, y), a, axis, keepdims))
    return f


HANDLERS[np.nanmax] = _nan_reduce('fmax', 'max')
HANDLERS[np.nanmin] = _nan_reduce('fmin', 'min')


@handles(np.ptp)
def f_ptp(a, axis=None, out=None, keepdims=False):
    a = aswrap(a)
    return a.max(axis=axis, keepdims=keepdims) - a.min(axis=axis, keepdims=keepdims)


@handles(np.average)
def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = aswrap(a)
    if weights is None:
        return a.mean(axis=axis, keepdims=keepdims)
    w = aswrap(weights)
    if w.ndim != a.ndim and axis is not None:
        w = w.reshape([a.shape[i] if i == axis % a.ndim else 1 for i in range(a.ndim)])
    w = f_zeros_like(a) + w
    return (a * w).sum(axis=axis, keepdims=keepdims) / w.sum(axis=axis, keepdims=keepdims)


@handles(np.var)
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = aswrap(a)
    d = a - a.mean(axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)


@handles(np.std)
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return do_ufunc(np.sqrt, '__call__', (f_var(a, axis, ddof=ddof, keepdims=keepdims),), {})


@handles(np.cumprod)
def f_cumprod(a, axis=None, dtype=None, out=None):
    a = aswrap(a)
    if axis is None or a.ndim == 1:
        return do_ufunc(np.multiply, 'accumulate', (a.reshape(-1),), {})
    raise Unsupported('cumprod')


@handles(np.piecewise)
def f_piecewise(x, condlist, funclist, *args, **kw):
    x = aswrap(x)
    conds = [tobool(c) for c in (condlist if isinstance(condlist, list) else [condlist])]
    if len(funclist) == len(conds) + 1:
        conds.append(~np.logical_or.reduce(conds))
    r = f_zeros_like(x)
    for c, g in zip(conds, funclist):
        if c.any():
            r[c] = g(x[c], *args, **kw) if callable(g) else g
    return r


@handles(np.unique)
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = aswrap(a).reshape(-1)
    idx = f_argsort(a)
    keep = []
    inv = np.zeros(len(idx), dtype=int)
    for j in idx:
        if not keep or not bool(a.obj()[j] == a.obj()[keep[-1]]):
            keep.append(int(j))
        inv[j] = len(keep) - 1
    r = a[np.array(keep, dtype=int)]
    if not (return_index or return_inverse or return_counts):
        return r
    out = [r]
    if return_index:
        out.append(np.array(keep, dtype=int))
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(np.bincount(inv, minlength=len(keep)))
    return tuple(out)


@handles(np.searchsorted)
def f_searchsorted(a, v, side='left', sorter=None):
    o = list(aswrap(a).obj())

    def one(x):
        k = 0
        for y in o:
            if (bool(y < x) if side == 'left' else bool(y <= x)):
                k += 1
            else:
                break
        return k
    if is_scalar(v) or (isinstance(v, np.ndarray) and v.ndim == 0):
        return np.int64(one(lift(v) if not isinstance(v, np.ndarray) else lift(v[()])))
    w = aswrap(v)
    return np.array([one(x) for x in w.obj().ravel()], dtype=np.int64).reshape(w.shape)


@handles(np.digitize)
def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side='left' if right else 'right')


@handles(np.interp)
def f_interp(x, xp, fp, left=None, right=None, period=None):
    xs = aswrap(x)
    xp = [lift(v) for v in aswrap(xp).obj().ravel()]
    fp = [lift(v) for v in aswrap(fp).obj().ravel()]

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else lift(left)
        if bool(v > xp[-1]):
            return fp[-1] if right is None else lift(right)
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    r = np.empty(xs.shape, dtype=object)
    for i, v in np.ndenumerate(xs.obj()):
        r[i] = retype(one(v), F64)
    return wrap(r, F64) if r.ndim else r[()]


def trapz(y, x=None, dx=1.0, axis=-1):
    y = aswrap(y)
    if x is not None:
        x = aswrap(x)
    yo = np.moveaxis(y.obj(), axis, -1)
    n = yo.shape[-1]
    r = np.empty(yo.shape[:-1], dtype=object)
    if x is not None and x.ndim > 1:
        xo = np.broadcast_to(np.moveaxis(x.obj(), axis, -1), yo.shape)
    elif x is not None:
        if x.shape[0] != n:
            raise ValueError("operands could not be broadcast together with shapes "
                             "(%d,) (%d,)" % (x.shape[0] - 1, n - 1))
        xo = np.broadcast_to(x.obj(), yo.shape)
    dt = y._ldt if x is None else val.promote(y._ldt, x._ldt)
    for i in np.ndindex(*yo.shape[:-1]):
        acc = val.const(0)
        for k in range(n - 1):
            w = (xo[i][k + 1] - xo[i][k]) if x is not None else lift(dx)
            acc = acc + w * (yo[i][k + 1] + yo[i][k]) * val.const(core.FH)
        r[i] = retype(acc, dt)
    return wrap(r, dt) if r.ndim else r[()]


if hasattr(np, 'trapezoid'):
    HANDLERS[np.trapezoid] = trapz


@handles(np.linalg.norm)
def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported('norm')
    a = aswrap(x)
    return do_ufunc(np.sqrt, '__call__', ((a * a).sum(axis=axis),), {})


@handles(np.copyto)
def f_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        store(dst, src, np.broadcast_to(tobool(where), dst.shape))


@handles(np.put)
def f_put(a, ind, v, mode='raise'):
    a.reshape(-1)[plain_index(ind)] = v


@handles(np.putmask)
def f_putmask(a, mask, values):
    store(a, values, np.broadcast_to(tobool(mask), a.shape))


@handles(np.place)
def f_place(a, mask, vals):
    a[tobool(mask)] = vals


def _dtyped(f):
    return f


def create(shape, dt, v):
    dt = real_dtype(dt)
    if dt.names is not None:
        return SRec(shape, dt)
    if dt.kind in 'bUSO' or dt.kind not in 'fiu':
        if dt.kind == 'O':
            a = np.empty(plain_index(shape), dtype=object)
            a[...] = v
            return wrap(a, F64) if v is not None else a
        return np.full(plain_index(shape), v, dtype=dt)
    shape = plain_index(shape)
    a = np.empty(shape, dtype=object)
    if v is None:
        for i in np.ndindex(*a.shape):
            a[i] = fresh_undef(dt)
    else:
        a[...] = cast(lift(v), dt)
    return wrap(a, dt)


def like_dtype(a, dtype):
    if dtype is not None:
        return real_dtype(dtype)
    return val.concrete_dt(ldtype(a))


@handles(np.zeros_like)
def f_zeros_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return create(shape if shape is not None else toobj(a).shape, like_dtype(a, dtype), 0)


@handles(np.ones_like)
def f_ones_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return create(shape if shape is not None else toobj(a).shape, like_dtype(a, dtype), 1)


@handles(np.empty_like)
def f_empty_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return create(shape if shape is not None else toobj(a).shape, like_dtype(a, dtype), None)


@handles(np.full_like)
def f_full_like(a, v, dtype=None, order='K', subok=True, shape=None, **kw):
    r = create(shape if shape is not None else toobj(a).shape, like_dtype(a, dtype), 0)
    r[...] = v
    return r


class SRec:
    """record array of a structured dtype: one SArr per field"""

    def __init__(self, shape, dt, fields=None, index=None):
        self._rdt = dt
        self.shape = (int(shape),) if isinstance(shape, (int, np.integer)) else tuple(shape)
        if fields is None:
            fields = {}
            for n in dt.names:
                f = dt.fields[n][0]
                fields[n] = create(self.shape + f.shape, f.base, 0 if f.base.kind in 'fiub' else '')
        self.fields = fields

    @property
    def dtype(self):
        return self._rdt

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape))

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields:
                for n in self.fields:
                    if n.lower() == k.lower():
                        return self.fields[n]
                raise KeyError("Key '%s' does not exist." % k)
            return self.fields[k]
        k = plain_index(k)
        fs = {n: v[k] for n, v in self.fields.items()}
        any_ = next(iter(fs.values()))
        base = self._rdt.fields[next(iter(fs))][0].shape
        shp = np.shape(strip(any_)) if not isinstance(any_, str) else ()
        shp = shp[:len(shp) - len(base)] if base else shp
        return SRec(shp, self._rdt, fs)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            if k not in self.fields:
                raise ValueError("no field of name %s" % k)
            self.fields[k][...] = v
            return
        raise Unsupported('record assignment')

    def __array__(self, *a, **k):
        raise Unsupported('record array to C code')

    @property
    def names(self):
        return list(self._rdt.names)

    def copy(self):
        return SRec(self.shape, self._rdt, {k: v.copy() for k, v in self.fields.items()})


# ---------------------------------------------------------------- shapes only

class Accepted(BaseException):
    """the code used arrays whose shapes fit"""


class SymShaped:
    """an array of which only the shape matters: symbolic lengths, number of
    dimensions chosen when first asked for.  Using its contents ends the path
    as accepted where the claim says the shapes fit; otherwise the lengths are
    fixed (small values, all explored) and the code goes on with a real array."""

    def __init__(self, st, dtype=F32):
        self._st = st
        self._dt = np.dtype(dtype)
        self._a = None

    def __copy__(self):
        return self.copy() if hasattr(type(self), 'copy') else self

    def __deepcopy__(self, memo):
        return self.__copy__()

    @property
    def shape(self):
        return self._st.dims()

    @property
    def ndim(self):
        return len(self._st.dims())

    @property
    def size(self):
        r = None
        for d in self._st.dims():
            r = d if r is None else d * r
        return 1 if r is None else r

    @property
    def dtype(self):
        return self._dt

    def cast(self, dt, ndmin=0, copy=False):
        if self._a is not None or self.ndim < ndmin:
            r = self.force().astype(dt)
            return r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        if dt == self._dt and not copy:
            return self
        return SymShaped(self._st, dt)

    def astype(self, dt, *a, **k):
        return self.cast(real_dtype(dt), copy=True)

    def copy(self, *a, **k):
        return self.cast(self._dt, copy=True)

    def force(self):
        if self._a is None:
            shp = self._st.fix()
            if not shp:
                self._a = wrap(obj0(cast(lift(0.5), self._dt)), self._dt)
            else:
                self._a = create(shp, self._dt, 0)
                for i in range(shp[-1]):
                    self._a[..., i] = 0.5 + self._st.step * i
        return self._a

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __setitem__(self, k, v):
        self.force()[k] = v

    def __bool__(self):
        return bool(self.force())

    def __float__(self):
        return float(self.force())

    def __array__(self, *a, **k):
        raise Unsupported('shape-only array to C code')

    def __array_ufunc__(self, uf, method, *a, **k):
        a, k = forced(a), {n: forced(v) for n, v in k.items()}
        return getattr(uf, method)(*a, **k)

    def __array_function__(self, f, types, a, k):
        a, k = forced(a), {n: forced(v) for n, v in k.items()}
        return f(*a, **k)

    __hash__ = object.__hash__


def forced(x):
    if isinstance(x, SymShaped):
        return x.force()
    if isinstance(x, (list, tuple)):
        return type(x)([forced(y) for y in x])
    return x


def _shaped_op(n):
    def op(self, *a):
        a = tuple(x.force() if isinstance(x, SymShaped) else x for x in a)
        return getattr(self.force(), n)(*a)
    return op


for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'floordiv', 'mod', 'matmul'):
    for _p in ('__%s__', '__r%s__'):
        setattr(SymShaped, _p % _n, _shaped_op(_p % _n))
for _n in ('neg', 'pos', 'abs', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'invert'):
    setattr(SymShaped, '__%s__' % _n, _shaped_op('__%s__' % _n))


# ---------------------------------------------------------------- dtype proxies

class _DT(type):
    def __call__(cls, x=0, *a):
        dt = np.dtype(cls._np)
        if isinstance(x, SRec):
            raise Unsupported('record conversion')
        if isinstance(x, SymShaped):
            return x.cast(dt)
        if isinstance(x, SArr):
            # (kept: real numpy returns the very same array when no conversion is needed)
            if x._ldt == dt:
                return x if x.ndim else settype(x.obj()[()], dt)
            r = castarr(x, dt)
            return r if isinstance(r, SArr) and r.ndim else (
                r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r)
        if isinstance(x, Val):
            return cast(x, dt) if dt.kind != 'b' else np.bool_(bool(x))
        if isinstance(x, (list, tuple)) and has_sym(x):
            return castarr(x, dt)
        from .stubs import SymStr
        if isinstance(x, SymStr):
            return cast(x.val, dt)
        return cls._np(x, *a)

    def __instancecheck__(cls, x):
        if isinstance(x, Val):
            return x.dt not in (val.WF, val.WI) and np.dtype(cls._np) == x.dt or \
                (cls._np is np.float64 and x.dt == val.WF)
        return isinstance(x, cls._np)

    def __subclasscheck__(cls, o):
        o = getattr(o, '_np', o)
        return issubclass(o, cls._np)

    def __eq__(cls, o):
        if isinstance(o, _DT):
            return cls._np is o._np
        if isinstance(o, np.dtype):
            return np.dtype(cls._np) == o
        return cls._np is o

    def __hash__(cls):
        return hash(np.dtype(cls._np))

    def __getattr__(cls, n):
        return getattr(cls._np, n)


DTS = {}
for _n in ('float16', 'float32', 'float64', 'int8', 'int16', 'int32', 'int64',
           'uint8', 'uint16', 'uint32', 'uint64', 'bool_'):
    DTS[_n] = _DT(_n, (), {'_np': getattr(np, _n), 'dtype': np.dtype(getattr(np, _n))}) \
        if False else type.__new__(_DT, _n, (), {'_np': getattr(np, _n),
                                                 'dtype': np.dtype(getattr(np, _n))})
ALIAS = {'single': 'float32', 'double': 'float64', 'half': 'float16', 'intp': 'int64',
         'int_': 'int64', 'intc': 'int32', 'longlong': 'int64', 'bool': 'bool_',
         'uint': 'uint64', 'short': 'int16'}


class SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Val) and x.dt in (val.WF, F64))

    def __call__(cls, x=0.0):
        from .stubs import SymStr
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SymStr):
            return retype(x.val, val.WF)
        if isinstance(x, Val):
            return cast(x, val.WF)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or (isinstance(o, np.dtype) and o == F64)

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=SymFloatMeta):
    dtype = F64
    fromhex = builtins.float.fromhex


class SymIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Val) and x.dt == val.WI)

    def __call__(cls, x=0, *a):
        from .stubs import SymStr
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SymStr):
            return retype(val.trunc(x.val), val.WI)
        if isinstance(x, Val):
            if x.sp is not None:
                raise ValueError("cannot convert float NaN to integer")
            return retype(val.trunc(x), val.WI)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or (isinstance(o, np.dtype) and o == I64)

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=SymIntMeta):
    dtype = I64


# ---------------------------------------------------------------- numpy module

class NumpyProxy:
    """what `import numpy` gives the code under test"""

    def __init__(self, effects=None):
        d = self.__dict__
        d.update(DTS)
        for a, b in ALIAS.items():
            d[a] = DTS[b]
        d['pi'] = Val(Poly.atom(core.PI()), val.WF)
        d['ndarray'] = np.ndarray

    def __getattr__(self, n):
        f = getattr(np, n)
        if isinstance(f, np.ufunc):
            g = UfuncProxy(f)
        elif callable(f) and not isinstance(f, type):
            g = FuncProxy(f)
        else:
            g = f
        self.__dict__[n] = g
        return g

    # creation
    def zeros(self, shape, dtype=None, order='C', **kw):
        return create(shape, dtype, 0)

    def ones(self, shape, dtype=None, order='C', **kw):
        return create(shape, dtype, 1)

    def empty(self, shape, dtype=None, order='C', **kw):
        return create(shape, dtype, None)

    def full(self, shape, fill_value, dtype=None, order='C', **kw):
        if dtype is None:
            dtype = val.concrete_dt(ldtype(fill_value))
        r = create(shape, dtype, 0)
        r[...] = fill_value
        return r

    def _array(self, x, dtype=None, copy=True, ndmin=0):
        if isinstance(x, SRec):
            return x
        if dtype is not None:
            dtype = real_dtype(dtype)
        if isinstance(x, SymShaped):
            return x.cast(dtype or x.dtype, ndmin, copy)
        if isinstance(x, SArr) or has_sym(x):
            dt = dtype or val.concrete_dt(ldtype(x))
            if isinstance(x, SArr) and x._ldt == dt and not copy:
                r = x
            else:
                r = castarr(x, dt)
        else:
            if isinstance(x, (list, tuple)) and len(x) and any(
                    isinstance(y, SRec) for y in x):
                raise Unsupported('records')
            from .stubs import SymStr
            if isinstance(x, (list, tuple)) and any(isinstance(y, SymStr) for y in x):
                if dtype is None:
                    return np.array(x)
                return castarr([cast(y.val, dtype) if isinstance(y, SymStr) else
                                dtype.type(y) for y in x], dtype)
            if not copy and isinstance(x, np.ndarray) and (dtype is None or x.dtype == dtype):
                r = x
            else:
                if isinstance(x, list) and any(isinstance(y, builtins.type) for y in x):
                    r = np.array(x)
                else:
                    r = np.array(x, dtype=dtype)
            if r.dtype.kind in 'fiu' and not (not copy and r is x):
                r = wrap(objify(r), r.dtype)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    def array(self, x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
        return self._array(x, dtype, copy is not False and copy is not None, ndmin)

    def asarray(self, x, dtype=None, order=None, copy=None, **kw):
        return self._array(x, dtype, bool(copy))

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None, **kw):
        return self._array(x, dtype, False, 1)

    asfortranarray = ascontiguousarray

    def asarray_chkfinite(self, x, dtype=None, order=None):
        r = self._array(x, dtype, False)
        if not np.all(do_ufunc(np.isfinite, '__call__', (r,), {})):
            raise ValueError("array must not contain infs or NaNs")
        return r

    def zeros_like(self, a, dtype=None, **kw):
        return f_zeros_like(a, dtype, **kw)

    def ones_like(self, a, dtype=None, **kw):
        return f_ones_like(a, dtype, **kw)

    def empty_like(self, a, dtype=None, **kw):
        return f_empty_like(a, dtype, **kw)

    def full_like(self, a, v, dtype=None, **kw):
        return f_full_like(a, v, dtype, **kw)

    def copy(self, a, **kw):
        if isinstance(a, np.ndarray):
            return a.copy()
        return self.array(a)

    def arange(self, *a, dtype=None, **kw):
        a = [x if not isinstance(x, Val) else x for x in a]
        kw = {k: v for k, v in kw.items()}
        if 'start' in kw:
            a = [kw.get('start'), kw['stop'], kw.get('step', 1)]
        elif 'stop' in kw:
            a = [0, kw['stop'], kw.get('step', 1)] if not a else [a[0], kw['stop'], kw.get('step', 1)]
        dt = real_dtype(dtype) if dtype is not None else None
        isint = all(val.kind(ldtype(x)) in 'iu' for x in a)
        if isint:
            r = np.arange(*[int(plain_index(lift(x))) if not isinstance(x, int) else x for x in a])
            if dt is not None and dt.kind == 'f':
                return wrap(objify(r.astype(dt)), dt)
            return r.astype(dt) if dt is not None else r
        if not all(lift(x).is_const() for x in a):
            raise Unsupported('arange with symbolic limits')
        r = np.arange(*[lift(x).const() for x in a])
        start = lift(a[0]) if len(a) > 1 else val.const(0)
        step = lift(a[2]) if len(a) > 2 else val.const(1)
        dt = dt or F64
        o = np.empty(r.shape, dtype=object)
        for i in range(len(r)):
            o[i] = cast(start + step * i, dt)
        return wrap(o, dt) if dt.kind == 'f' else r.astype(dt)

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        dt = real_dtype(dtype)
        num = int(plain_index(lift(num)))
        start, stop = lift(start), lift(stop)
        div = (num - 1) if endpoint else num
        if val.Context_mode() == 'fp' and not (start.is_const() and stop.is_const()):
            # as numpy does it: arange * step + start in the inexact result type
            ct = val.concrete_dt(val.promote(val.promote(ldtype(start), ldtype(stop)), val.WF))
            start, stop = retype(start, ct), retype(stop, ct)
            step = (stop - start) / div if div > 0 else None
            o = np.empty((num,), dtype=object)
            for i in range(num):
                k = val.const(i, ct)
                o[i] = (k * step + start) if step is not None else start
                if i == num - 1 and endpoint and num > 1:
                    o[i] = stop
                o[i] = cast(o[i], dt if dtype is not None else ct)
            r = wrap(o, dt if dtype is not None else ct)
            return (r, step) if retstep else r
        o = np.empty((num,), dtype=object)
        step = (stop - start) / div if div > 0 else val.const(0)
        for i in range(num):
            if i == num - 1 and endpoint and num > 1:
                o[i] = cast(stop, dt)
            else:
                o[i] = cast(start + (stop - start) * i / div if div else start, dt)
        r = wrap(o, dt)
        return (r, step) if retstep else r

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        r = np.eye(plain_index(n), m, k)
        return castarr(r, real_dtype(dtype))

    def dtype(self, x, *a, **k):
        return real_dtype(x)

    def float32_(self):
        pass

    def isscalar(self, x):
        return isinstance(x, Val) or np.isscalar(x)

    def shape(self, x):
        if isinstance(x, SymShaped):
            return x.shape
        return np.shape(strip(x))

    def ndim(self, x):
        if isinstance(x, SymShaped):
            return x.ndim
        return np.ndim(strip(x))

    def size(self, x, axis=None):
        if isinstance(x, SymShaped):
            return x.size if axis is None else x.shape[axis]
        return np.size(strip(x), axis)

    def issubdtype(self, a, b):
        return np.issubdtype(real_dtype(a) if not isinstance(a, type) or hasattr(a, '_np') else a,
                             getattr(b, '_np', b) if not (b is float or b is int or b is SymFloat or b is SymInt)
                             else real_dtype(b))

    def result_type(self, *a):
        dt = None
        for x in a:
            d = ldtype(x) if isinstance(x, (SArr, Val, np.ndarray, np.generic, int, float)) \
                else real_dtype(x)
            dt = d if dt is None else val.promote(dt, d)
        return val.concrete_dt(dt)

    promote_types = result_type

    def finfo(self, x):
        return np.finfo(real_dtype(x) if not isinstance(x, (Val, SArr)) else x.dtype)

    def iinfo(self, x):
        return np.iinfo(real_dtype(x) if not isinstance(x, (Val, SArr)) else x.dtype)

    def errstate(self, *a, **k):
        return np.errstate(*a, **k)

    def seterr(self, *a, **k):
        return {}

    def where(self, c, *a, **k):
        if not a and not k:
            return np.where(tobool(c))
        return f_where(c, *a, **k)

    def vectorize(self, f=None, *a, **k):
        def g(*args):
            arrs = np.broadcast_arrays(*[toobj(x) for x in args])
            r = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*r.shape):
                r[i] = lift(f(*[x[i] for x in arrs]))
            return wrap(r)
        return g if f is not None else (lambda ff: self.vectorize(ff))

    def frompyfunc(self, f, nin=1, nout=1, **k):
        return self.vectorize(f)

    def fromiter(self, it, dtype=None, count=-1, **kw):
        return self.array(list(it), dtype=dtype)

    def einsum(self, sub, *ops, **kw):
        kw.pop('optimize', None)
        if any(has_sym(o) for o in ops):
            return do_function(np.einsum, (sub,) + ops, kw)
        return np.einsum(sub, *ops, **kw)

    def outer(self, a, b, out=None):
        return do_ufunc(np.multiply, 'outer', (aswrap(a).reshape(-1), aswrap(b).reshape(-1)), {})

    def save(self, *a, **k):
        raise Unsupported('np.save')

    load = savez = savetxt = loadtxt = genfromtxt = fromfile = frombuffer = save
    fromstring = save


class UfuncProxy:
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__
        self.nin = f.nin
        self.nout = f.nout

    def __call__(self, *a, **k):
        if 'dtype' in k:
            k['dtype'] = real_dtype(k['dtype'])
        return unary_exact(self._f, a, k)

    def __getattr__(self, n):
        m = getattr(self._f, n)
        if callable(m):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    return do_ufunc(self._f, n, a, k)
                return m(*a, **k)
            return g
        return m


EXACT1 = {'log', 'log10', 'log2', 'exp', 'sinh', 'cosh', 'sqrt', 'exp2', 'tanh'}


def unary_exact(f, a, k):
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        return do_ufunc(f, '__call__', a, k)
    if f.__name__ in EXACT1 and len(a) == 1 and not k and \
            isinstance(a[0], (int, float, np.generic)) and Val is not None and \
            not isinstance(a[0], np.ndarray):
        # exact value instead of its rounding
        try:
            l = lift(a[0])
            if l is not None and val.Context_mode() == 'real':
                return val.ufunc1(f.__name__, l)
        except core.Unsupported:
            pass
    if f.__name__ == 'power' and val.Context_mode() == 'real' and not k and len(a) == 2 and \
            all(isinstance(x, (int, float)) for x in a):
        return val.binop('power', lift(a[0]), lift(a[1]))
    return f(*a, **k)


class FuncProxy:
    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, '__name__', 'func')

    def __call__(self, *a, **k):
        if 'dtype' in k and k['dtype'] is not None:
            k['dtype'] = real_dtype(k['dtype'])
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return do_function(self._f, a, k)
        return self._f(*a, **k)

    def __getattr__(self, n):
        return getattr(self._f, n)
