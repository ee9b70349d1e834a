"""Contract stubs for what the code under test calls in scipy, astropy and the
operating system.  Each stub is part of the claim and is listed in DESIGN.md.
"""
import builtins
import math as _math
import os as _os
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.interpolate as _interp

from . import core, val, snp
from .core import Unsupported, Poly, Cons, ATOMS, ctx
from .val import Val, lift, cast, retype, F32, F64
from .snp import SArr, SRec, wrap, objify, toobj, aswrap, has_sym


class SymStr(str):
    """a text token that stands for a symbolic number"""
    def __new__(cls, name, v):
        r = str.__new__(cls, name)
        r.val = v
        return r

    def strip(self, *a):
        return self

    lstrip = rstrip = lower = upper = strip

    def __float__(self):
        raise Unsupported('float(token)')


class SymText(str):
    """file contents made of tokens; only split() sees the values"""
    def __new__(cls, tokens, lines=None):
        r = str.__new__(cls, ' '.join(map(str, tokens)))
        r.tokens = list(tokens)
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None and maxsplit == -1:
            return list(self.tokens)
        raise Unsupported('text.split(sep)')

    def splitlines(self, keepends=False):
        return [SymText(self.tokens[i:i + 8]) for i in range(0, len(self.tokens), 8)]

    def strip(self, *a):
        return self

    rstrip = lstrip = strip


# ---------------------------------------------------------------- interp1d

_cubic_cache = {}


def cubic_weights(xk, x, kind):
    """weights w with interp1d(xk, y, kind)(x) == sum w_i y_i (rational x, xk)"""
    key = (tuple(xk), x, kind)
    r = _cubic_cache.get(key)
    if r is not None:
        return r
    if x in xk:
        i = list(xk).index(x)
        r = [Fraction(int(j == i)) for j in range(len(xk))]
    else:
        f = _cubic_cache.get((tuple(xk), kind))
        if f is None:
            f = _interp.interp1d(np.array([float(v) for v in xk]), np.eye(len(xk)),
                                 kind=kind, axis=0, fill_value='extrapolate')
            _cubic_cache[(tuple(xk), kind)] = f
        w = f(float(x))
        r = [Fraction(float(v)).limit_denominator(10**15) for v in w]
    _cubic_cache[key] = r
    return r


class interp1d:
    """scipy.interpolate.interp1d: 'linear' is the piecewise-linear interpolant
    (ValueError outside the knots unless bounds_error is off); 'cubic' is linear
    in y with scipy's own weights, for concrete knots and abscissae."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None,
                 fill_value=np.nan, assume_sorted=False):
        x = aswrap(x)
        y = aswrap(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        xo = list(x.obj())
        yo = np.moveaxis(y.obj(), axis, 0)
        if yo.shape[0] != len(xo):
            raise ValueError("x and y arrays must be equal in length along "
                             "interpolation axis.")
        if not assume_sorted:
            idx = snp.f_argsort(x)
            xo = [xo[i] for i in idx]
            yo = yo[idx]
        for v in xo:
            if v.sp is not None:
                raise ValueError("array must not contain infs or NaNs")
        self.xs = xo
        self.ys = yo.copy()
        self.kind = kind
        self.axis = axis % y.ndim
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if bounds_error is None:
            bounds_error = not self.extrap and (
                not isinstance(fill_value, tuple) and lift(fill_value).sp == 'nan')
        self.bounds_error = bounds_error and not self.extrap
        self.fill_value = fill_value
        self.x = wrap(np.array(xo + [None], dtype=object)[:-1], x._ldt)
        self.y = y
        need = {'linear': 2, 'slinear': 2, 'nearest': 1, 'previous': 1, 'next': 1,
                'zero': 1, 'quadratic': 3, 'cubic': 4}
        if isinstance(kind, (int, np.integer)) and not isinstance(kind, bool):
            # the order of the spline
            self.kind = kind = {0: 'zero', 1: 'linear', 2: 'quadratic',
                                3: 'cubic'}.get(int(kind), kind)
        if kind not in need:
            if isinstance(kind, str):
                raise NotImplementedError("%s is unsupported" % kind)
            raise Unsupported('interp1d kind %r' % kind)
        if len(xo) < need[kind]:
            raise ValueError("The number of derivatives at boundaries does not match: "
                             "expected %d, got 0+0" % (need[kind] - 1))

    def __call__(self, x):
        x = aswrap(x)
        rest = self.ys.shape[1:]
        outs = np.empty(x.shape + rest, dtype=object)
        # all points first: out of bounds raises
        cells = []
        for v in x.obj().ravel():
            cells.append(self.locate(v))
        for (i, c) in zip(np.ndindex(*x.shape), cells):
            v = x.obj()[i]
            r = self.at(v, c)
            outs[i] = r if rest else r
        # the x axes take the place of the interpolation axis
        nx = x.ndim
        ax = self.axis
        if nx > 0 and ax > 0:
            order = list(range(nx, nx + ax)) + list(range(nx)) + \
                list(range(nx + ax, nx + len(rest)))
            outs = outs.transpose(order)
        if outs.ndim == 0:
            return wrap(outs, F64)
        return wrap(outs, F64)

    def locate(self, v):
        if v.sp is not None:
            if v.sp == 'nan':
                return 'nan'
            below = v.sp == '-inf'
            above = v.sp == 'inf'
        else:
            below = bool(v < self.xs[0])
            above = (not below) and bool(v > self.xs[-1])
        if below or above:
            if self.bounds_error:
                raise ValueError("A value in x_new is %s the interpolation range." %
                                 ('below' if below else 'above'))
            if not self.extrap:
                return 'below' if below else 'above'
        n = len(self.xs)
        if self.kind in ('cubic', 'quadratic'):
            return 'c'
        for i in range(n - 2):
            if bool(v <= self.xs[i + 1]):
                return i
        return n - 2

    def at(self, v, c):
        rest = self.ys.shape[1:]
        if c == 'nan':
            return full(rest, Val(None, F64, 'nan'))
        if c in ('below', 'above'):
            fv = self.fill_value
            if isinstance(fv, tuple):
                fv = fv[0] if c == 'below' else fv[1]
            if isinstance(fv, np.ndarray) and fv.ndim:
                raise Unsupported('array fill_value')
            return full(rest, lift(fv))
        if c == 'c':
            if not v.is_const() or not all(k.is_const() for k in self.xs):
                # exact at the knots; elsewhere unsupported
                for i, k in enumerate(self.xs):
                    if bool(v == k):
                        return self.ys[i] if rest else self.ys[i]
                raise Unsupported('cubic interpolation at a symbolic abscissa')
            w = cubic_weights(tuple(k.p.const_value() for k in self.xs),
                              v.p.const_value(), self.kind)
            r = None
            for wi, yi in zip(w, self.ys):
                if wi == 0:
                    continue
                t = yi * val.const(wi) if rest else yi * val.const(wi)
                r = t if r is None else r + t
            return r
        x0, x1 = self.xs[c], self.xs[c + 1]
        y0, y1 = self.ys[c], self.ys[c + 1]
        if self.kind in ('previous', 'zero'):
            return y1 if bool(v >= x1) else y0
        if self.kind == 'next':
            return y0 if bool(v <= x0) else y1
        if self.kind == 'nearest':
            return y0 if bool(v + v <= x0 + x1) else y1
        if v is x0:
            return y0
        if v is x1:
            return y1
        t = (v - x0) / (x1 - x0)
        return y0 + (y1 - y0) * t if not rest else y0 + (y1 - y0) * t


class _Spline:
    """not-a-knot cubic spline objects of scipy (CubicSpline,
    InterpolatedUnivariateSpline k=3, make_interp_spline k=3; k=1 piecewise
    linear): linear in the ordinates with scipy's own weights"""

    def __init__(self, x, y, k=3, ext=0, axis=0):
        if k not in (1, 2, 3):
            raise Unsupported('spline of order %r' % k)
        x = aswrap(x)
        xo = list(x.obj())
        for a, b in zip(xo[:-1], xo[1:]):
            if not bool(a < b):
                raise ValueError("`x` must be strictly increasing sequence.")
        self.ext = ext
        kind = {1: 'linear', 2: 'quadratic', 3: 'cubic'}[k]
        self.f = interp1d(x, y, kind, axis=axis, bounds_error=False, fill_value='extrapolate')
        self.x = self.f.x

    def __call__(self, x, nu=0, extrapolate=None, ext=None):
        if nu:
            raise Unsupported('spline derivative')
        e = self.ext if ext is None else ext
        if extrapolate is not None:
            e = 0 if extrapolate else 'nan'
        f = self.f
        if e in (0, 'extrapolate'):
            f.extrap, f.bounds_error = True, False
        elif e in (1, 'zeros'):
            f.extrap, f.bounds_error, f.fill_value = False, False, 0.
        elif e in (2, 'raise'):
            f.extrap, f.bounds_error = False, True
        elif e == 'nan':
            f.extrap, f.bounds_error, f.fill_value = False, False, np.nan
        elif e in (3, 'const'):
            f.extrap, f.bounds_error = False, False
            f.fill_value = (scal(f.ys[0]), scal(f.ys[-1]))
        else:
            raise Unsupported('ext')
        return f(x)


def CubicSpline(x, y, axis=0, bc_type='not-a-knot', extrapolate=None):
    if bc_type != 'not-a-knot':
        raise Unsupported('CubicSpline bc_type')
    return _Spline(x, y, 3, 'nan' if extrapolate is False else 0, axis)


def InterpolatedUnivariateSpline(x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
    if w is not None or bbox not in (None, [None, None]):
        raise Unsupported('weights')
    if k == 2:
        raise Unsupported('k=2')
    return _Spline(x, y, k, ext)


def make_interp_spline(x, y, k=3, t=None, bc_type=None, axis=0, check_finite=True):
    if t is not None or bc_type is not None or k not in (1, 3):
        raise Unsupported('make_interp_spline options')
    return _Spline(x, y, k, 0, axis)


def full(shape, v):
    if shape == ():
        return v
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


# ---------------------------------------------------------------- nnls

def nnls(A, b, maxiter=None, atol=None):
    """scipy.optimize.nnls: some x >= 0 satisfying the Karush-Kuhn-Tucker
    conditions of min |Ax-b|; a function of its arguments.
    numpy semantics of NaN/inf input: ValueError."""
    c = ctx()
    A = aswrap(A)
    b = aswrap(b)
    if A.ndim != 2:
        raise ValueError("Expected a two-dimensional array (matrix), but the shape of A is %s"
                         % (A.shape,))
    if b.ndim != 1:
        raise ValueError("Expected a one-dimensional array (vector), but the shape of b is %s"
                         % (b.shape,))
    m, n = A.shape
    if m != b.shape[0]:
        raise ValueError("Incompatible dimensions. The first dimension of A is %d, while "
                         "the shape of b is %s" % (m, b.shape))
    for v in list(A.obj().ravel()) + list(b.obj().ravel()):
        v = val.lift(v)
        if v.sp is not None:
            raise ValueError("array must not contain infs or NaNs")
    k = c.lets.get('nnls_calls', 0)
    c.lets['nnls_calls'] = k + 1
    if maxiter is None and k in c.lets.get('nnls_fail', ()):
        raise RuntimeError("Maximum number of iterations reached.")
    if c.mode == 'fp':
        # any nonnegative numbers: enough for claims about which redshifts are usable
        o = np.empty((n,), dtype=object)
        for j in range(n):
            t = core.z3.FP(c.newname('nnls'), val.fpsort(F64))
            c.facts.append(core.RawCons(core.z3.fpGEQ(t, val.fpconst(1., F64))))
            c.facts.append(core.RawCons(core.z3.fpLEQ(t, val.fpconst(2., F64))))
            o[j] = val.FV(t, F64)
        return wrap(o, F64), val.const(0)
    key = ('nnls', tuple(v.p.key() for v in A.obj().ravel()),
           tuple(v.p.key() for v in b.obj().ravel()), m, n)
    r = c.lets.get(key)
    if r is None:
        c.nnls_count = getattr(c, 'nnls_count', 0) + 1
        xs = []
        for j in range(n):
            a = ATOMS.get('DEF', (key, j), 'nnls%d_%d' % (c.nnls_count, j),
                          data={'facts': (), 'nnls': (key, j)})
            xs.append(Poly.atom(a))
        Ap = [[A.obj()[i, j].p for j in range(n)] for i in range(m)]
        bp = [b.obj()[i].p for i in range(m)]
        for j in range(n):
            c.assume(Cons(xs[j], '>='))
        for j in range(n):
            g = Poly()
            for i in range(m):
                res = bp[i]
                for k in range(n):
                    res = res - Ap[i][k] * xs[k]
                g = g + Ap[i][j] * res
            c.assume(Cons(g.scale(-1), '>='))
            c.assume(Cons(g * xs[j], '=='))
        o = np.empty((n,), dtype=object)
        for j in range(n):
            o[j] = Val(xs[j], F64)
        rn = Val(Poly.atom(ATOMS.get('DEF', (key, 'r'), 'rnorm%d' % c.nnls_count,
                                     data={'facts': ()}, lo=0)), F64)
        c.nnls_instances = getattr(c, 'nnls_instances', []) + [
            (xs, Ap, bp)]
        r = (o, rn)
        c.lets[key] = r
    return wrap(r[0].copy(), F64), r[1]


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100,
           full_output=False, disp=True):
    """a root of f inside [a, b]; ValueError without a sign change"""
    if full_output:
        r = brentq(f, a, b, args)
        return r, types.SimpleNamespace(root=r, converged=True, flag='converged')
    if not isinstance(args, tuple):
        args = (args,)
    a, b = lift(a), lift(b)
    fa, fb = lift(scal(f(a, *args))), lift(scal(f(b, *args)))
    if bool(fa * fb > 0):
        raise ValueError("f(a) and f(b) must have different signs")
    if bool(fa == 0):
        return retype(a, val.WF)
    if bool(fb == 0):
        return retype(b, val.WF)
    c = ctx()
    nm = c.newname('root')
    at = ATOMS.get('DEF', nm, nm, data={'facts': ()})
    r = Val(Poly.atom(at), val.WF)
    c.assume(Cons(r.p - a.p, '>='))
    c.assume(Cons(b.p - r.p, '>='))
    c.roots = getattr(c, 'roots', []) + [(r, f, a, b, fa, fb)]
    return r


def toms748(f, a, b, args=(), k=1, xtol=2e-12, rtol=8.9e-16, maxiter=100,
            full_output=False, disp=True):
    return brentq(f, a, b, args, xtol, rtol, maxiter, full_output, disp)


def root_scalar(f, args=(), method=None, bracket=None, **kw):
    if bracket is None or method not in (None, 'bisect', 'brentq', 'brenth', 'ridder', 'toms748'):
        raise Unsupported('root_scalar without bracket')
    r = brentq(f, bracket[0], bracket[1], args)
    return types.SimpleNamespace(root=r, converged=True, flag='converged', iterations=1,
                                 function_calls=1)


def scal(x):
    if isinstance(x, np.ndarray):
        return toobj(x).reshape(-1)[0]
    return x


def settype_(v):
    return retype(v, F64)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    """trapezoidal rule"""
    return snp.trapz(y, x, dx, axis)


def simpson(y, x=None, dx=1.0, axis=-1):
    """linear in y with scipy's own weights, for concrete abscissae"""
    import scipy.integrate
    y = aswrap(y)
    yo = np.moveaxis(y.obj(), axis, -1)
    n = yo.shape[-1]
    if x is not None:
        xo = aswrap(x).obj()
        if xo.ndim != 1 or not all(v.is_const() for v in xo):
            raise Unsupported('simpson at symbolic abscissae')
        w = scipy.integrate.simpson(np.eye(n), x=np.array([float(v.p.const_value()) for v in xo]))
    else:
        w = scipy.integrate.simpson(np.eye(n), dx=float(dx))
    out = np.empty(yo.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        r = None
        for k in range(n):
            t = yo[i][k] * val.const(Fraction(float(w[k])).limit_denominator(10**12))
            r = t if r is None else r + t
        out[i] = r
    return wrap(out, F64) if out.ndim else settype_(out[()])


# ---------------------------------------------------------------- random

class Noise:
    """every draw is an independent arbitrary real number; after seeding, a stream
    repeats the draws of the earlier stream of that seed"""

    def __init__(self, seed=None):
        self.seed = seed
        self.pos = 0

    def index(self, env):
        if self.seed is not None:
            key = (self.seed, self.pos)
            self.pos += 1
        elif env.lets.get('noise_seed') is not None:
            key = env.lets['noise_seed']
            env.lets['noise_seed'] = (key[0], key[1] + 1)
        else:
            key = None
        known = env.lets.setdefault('noise_known', {})
        if key in known:
            return known[key]
        k = env.lets.get('noise_k', 0)
        env.lets['noise_k'] = k + 1
        if key is not None:
            known[key] = k
        return k

    def draw(self, size, dt=F64):
        env = ctx()
        if size is None:
            shape = ()
        elif isinstance(size, (int, np.integer, Val)):
            shape = (int(plain(size)),)
        else:
            shape = tuple(int(plain(s)) for s in size)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            k = self.index(env)
            at = ATOMS.get('VAR', ('noise', k), 'noise%d' % k, lo=-8, hi=8)
            v = Val(Poly.atom(at), dt)
            env.inputs['noise%d' % k] = v
            o[i] = v
        return o[()] if shape == () else wrap(o, dt)


def plain(x):
    return int(x.__index__()) if isinstance(x, Val) else x


def seed_key(seed):
    """None for a fresh stream"""
    if seed is None:
        return None
    return repr(np.asarray(snp.strip(seed)).tolist()) if not isinstance(seed, Val) else plain(seed)


class RandomStub:
    def __init__(self, seed=None):
        self._n = Noise(seed)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            shp = np.broadcast_shapes(np.shape(snp.strip(loc)), np.shape(snp.strip(scale)))
            size = shp if shp else None
        x = self._n.draw(size)
        if isinstance(loc, float) and loc == 0. and isinstance(scale, float) and scale == 1.:
            return x
        return x * scale + loc

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._n.draw(size)

    def randn(self, *shape):
        return self._n.draw(shape if shape else None)

    def default_rng(self, seed=None):
        if isinstance(seed, RandomStub):
            return seed
        return RandomStub(('rng', seed_key(seed))) if seed is not None else self

    def RandomState(self, seed=None):
        return RandomStub(('state', seed_key(seed))) if seed is not None else self

    def Generator(self, *a):
        return self

    def seed(self, seed=None):
        if self._n.seed is not None:
            self._n = Noise(('state', seed_key(seed)) if seed is not None else None)
        else:
            ctx().lets['noise_seed'] = (('state', seed_key(seed)), 0) if seed is not None else None

    def __getattr__(self, n):
        raise Unsupported('np.random.%s' % n)


# ---------------------------------------------------------------- math module

class MathStub:
    pi = property(lambda self: Val(Poly.atom(core.PI()), val.WF))
    inf = _math.inf
    nan = _math.nan
    e = _math.e

    def _dom(self, n, x):
        r = val.ufunc1(n, lift(scal(x)))
        if isinstance(r, Val) and r.sp is not None:
            raise ValueError("math domain error")
        return r

    def log10(self, x):
        return self._dom('log10', x)

    def log(self, x, base=None):
        r = self._dom('log', x)
        return r if base is None else r / self._dom('log', base)

    def log2(self, x):
        return self._dom('log2', x)

    def exp(self, x):
        return val.ufunc1('exp', lift(scal(x)))

    def sinh(self, x):
        return val.ufunc1('sinh', lift(scal(x)))

    def cosh(self, x):
        return val.ufunc1('cosh', lift(scal(x)))

    def sqrt(self, x):
        return self._dom('sqrt', x)

    def pow(self, a, b):
        return val.binop('power', lift(scal(a)), lift(scal(b)))

    def fabs(self, x):
        return val.ufunc1('absolute', lift(scal(x)))

    def floor(self, x):
        return int(val.retype(val.floor_(lift(scal(x))), val.WI).__index__())

    def ceil(self, x):
        return -self.floor(-lift(scal(x)))

    def isnan(self, x):
        return val.ufunc1('isnan', lift(scal(x)))

    def isfinite(self, x):
        return val.ufunc1('isfinite', lift(scal(x)))

    def isinf(self, x):
        return val.ufunc1('isinf', lift(scal(x)))

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.):
        a, b = lift(scal(a)), lift(scal(b))
        m = val.binop('maximum', abs(a), abs(b))
        return bool(abs(a - b) <= m * rel_tol) or bool(abs(a - b) <= abs_tol)

    def prod(self, it, start=1):
        r = start
        for x in it:
            r = r * x
        return r

    def fsum(self, it):
        r = 0.
        for x in it:
            r = r + x
        return r

    def __getattr__(self, n):
        f = getattr(_math, n)

        def g(*a):
            if any(isinstance(x, (Val, SArr)) for x in a):
                raise Unsupported('math.%s' % n)
            return f(*a)
        return g if callable(f) else f


# ---------------------------------------------------------------- FITS

class Store:
    """files written during one path: name -> object"""

    def __init__(self):
        self.files = {}


def fits_image_value(a):
    """an image keeps the values of its array, big-endian of the same dtype"""
    if isinstance(a, SArr):
        return a.copy()
    if isinstance(a, np.ndarray):
        if a.dtype.kind == 'b':
            raise KeyError('bool')
        return aswrap(a).copy() if a.dtype.kind in 'fiu' else a.copy()
    if a is None:
        return None
    if isinstance(a, Val):
        return wrap(snp.obj0(a), val.concrete_dt(a.dt))
    raise TypeError("data object %r could not be coerced into numpy array" % (a,))


class Header(dict):
    def __setitem__(self, k, v):
        # (value, comment)
        dict.__setitem__(self, str(k).upper(), v[0] if isinstance(v, tuple) else v)

    def __getitem__(self, k):
        return dict.__getitem__(self, str(k).upper())

    def __contains__(self, k):
        return dict.__contains__(self, str(k).upper())

    def get(self, k, d=None):
        return dict.get(self, str(k).upper(), d)

    def set(self, k, v=None, comment=None, **kw):
        self[k] = v

    def copy(self):
        h = Header()
        for k in self:
            h[k] = self[k]
        return h


class HDU:
    def __init__(self, data=None, header=None, name=None):
        self.name = (name or 'PRIMARY').upper()
        self.header = Header()
        for k in (header or {}):
            self.header[k] = header[k]
        self.data = data

    def copyhdu(self):
        h = self.__class__.__new__(self.__class__)
        h.name = self.name
        h.header = self.header.copy()
        h.data = self.data.copy() if self.data is not None else None
        return h


class ImageHDU(HDU):
    def __init__(self, data=None, header=None, name=None, **kw):
        super().__init__(fits_image_value(data), header, name or '')


class PrimaryHDU(ImageHDU):
    pass


class BinTableHDU(HDU):
    def __init__(self, data=None, header=None, name=None, **kw):
        if isinstance(data, np.ndarray) and data.dtype.names:
            data = from_real_rec(data)
        if not isinstance(data, SRec):
            raise Unsupported('BinTableHDU of %s' % type(data))
        if data.ndim == 0:
            raise Unsupported('0-d table')
        # a table stores strings as bytes, trailing blanks dropped on reading
        super().__init__(data.copy(), header, name or '')

    @property
    def columns(self):
        return types.SimpleNamespace(names=list(self.data._rdt.names))

    def writeto(self, filename, overwrite=False, **kw):
        l = HDUList([PrimaryHDU(), self])
        l.writeto(filename, overwrite=overwrite)


ImageHDU.writeto = lambda self, filename, overwrite=False, **kw: HDUList([self]).writeto(
    filename, overwrite=overwrite)


def from_real_rec(d):
    fs = {}
    for n in d.dtype.names:
        c = d[n]
        fs[n] = wrap(objify(c), c.dtype) if c.dtype.kind in 'fiu' else c.copy()
    return SRec(d.shape, d.dtype, fs)


class HDUList(list):
    def __init__(self, hdus=(), filename=None, mode=None):
        list.__init__(self, hdus if isinstance(hdus, (list, tuple)) else [hdus])
        self._fn = filename
        self._mode = mode

    def _find(self, k):
        if isinstance(k, (int, np.integer)):
            return int(k)
        if isinstance(k, tuple):
            k = k[0]
        for i, h in enumerate(self):
            if h.name == str(k).upper():
                return i
        raise KeyError("Extension %r not found." % (k,))

    def __getitem__(self, k):
        return list.__getitem__(self, k if isinstance(k, slice) else self._find(k))

    def __contains__(self, k):
        try:
            self._find(k)
            return True
        except KeyError:
            return False

    def index_of(self, k):
        return self._find(k)

    def writeto(self, filename, overwrite=False, **kw):
        st = fs_store()
        filename = str(filename)
        if filename in st.files and not overwrite:
            raise OSError("File %r already exists." % filename)
        st.files[filename] = ('fits', [h.copyhdu() for h in self])

    def flush(self, *a, **k):
        if self._mode in ('update', 'append') and self._fn is not None:
            self.writeto(self._fn, overwrite=True)

    def close(self, *a, **k):
        self.flush()
        self._mode = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def info(self, *a, **k):
        return None


def fs_store():
    c = ctx()
    st = c.lets.get('files')
    if st is None:
        st = c.lets['files'] = Store()
    return st


def fits_open(name, mode='readonly', **kw):
    st = fs_store()
    name = str(name)
    if name not in st.files:
        if mode in ('append',):
            return HDUList([], name, mode)
        if mode == 'readonly' and _os.path.exists(name):
            return real_fits(name)
        raise FileNotFoundError(2, "No such file or directory: %r" % name)
    k, hd = st.files[name]
    if k != 'fits':
        raise OSError('not a FITS file')
    return HDUList([h.copyhdu() for h in hd], name, mode)


def real_fits(name):
    import astropy.io.fits as rf
    out = HDUList([], name, 'readonly')
    with rf.open(name) as h:
        for x in h:
            d = x.data
            if d is None:
                n = PrimaryHDU()
            elif d.dtype.names:
                n = HDU.__new__(BinTableHDU)
                n.header = Header()
                n.data = from_real_rec(np.array(d))
            else:
                n = ImageHDU(np.array(d))
            n.name = x.name
            out.append(n)
    return out


def fits_getdata(name, *ext, **kw):
    h = fits_open(name)
    e = ext[0] if ext else kw.get('ext', kw.get('extname', None))
    if e is None:
        for x in h:
            if x.data is not None:
                return x.data
    return h[e].data


class Table:
    """astropy.table.Table of fixed-size columns (columns are views)"""

    def __init__(self, data=None, names=None, copy=True, **kw):
        if isinstance(data, Table):
            data = data._d
        if isinstance(data, (list, tuple)) and names is not None:
            data = dict(zip(names, data))
            names = None
        if isinstance(data, np.ndarray) and data.dtype.names:
            data = from_real_rec(data)
        if isinstance(data, dict):
            data2 = {k: v for k, v in data.items()}
            n = len(next(iter(data2.values())))
            dt = np.dtype([(k, snp.val.concrete_dt(snp.ldtype(v)),
                            toobj(v).shape[1:]) for k, v in data2.items()])
            data = SRec((n,), dt, {k: aswrap(v).copy() for k, v in data2.items()})
        if data is None:
            self._d = None
            return
        if not isinstance(data, SRec):
            raise Unsupported('Table(%s)' % type(data))
        if names is not None:
            raise Unsupported('Table(names)')
        self._d = data.copy() if copy else data

    def _new(self, d):
        t = Table.__new__(type(self))
        t._d = d
        return t

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            return Table({x: self._d[x] for x in k})
        if isinstance(k, str) or isinstance(k, (int, np.integer)):
            return self._d[k]
        return self._new(self._d[k])

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported('Table row assignment')
        cols = {n: self._d[n] for n in self.colnames} if self._d is not None else {}
        if k in cols and np.ndim(snp.strip(v)) == 0:
            self._d[k][...] = v
            return
        if not isinstance(v, np.ndarray):
            v = np.asarray(v) if isinstance(v, (list, tuple)) else v
        if np.ndim(snp.strip(v)) == 0:
            n = len(self)
            o = np.empty((n,), dtype=object)
            o[...] = lift(scal(v))
            v = wrap(o, lift(scal(v)).dt)
        cols[k] = v
        self._d = Table(cols)._d

    def __len__(self):
        return 0 if self._d is None else len(self._d)

    def __iter__(self):
        for i in range(len(self)):
            yield self._d[i]

    def __contains__(self, k):
        return k in self.colnames

    @property
    def colnames(self):
        return [] if self._d is None else list(self._d._rdt.names)

    @property
    def dtype(self):
        return self._d._rdt

    def keys(self):
        return self.colnames

    def itercols(self):
        return iter([self._d[n] for n in self.colnames])

    @property
    def columns(self):
        return {n: self._d[n] for n in self.colnames}

    def as_array(self):
        return self._d.copy()

    def copy(self, copy_data=True):
        return self._new(self._d.copy())

    def argsort(self, keys=None, kind=None, reverse=False):
        keys = self.colnames if keys is None else keys
        keys = [keys] if isinstance(keys, str) else list(keys)
        ix = snp.f_lexsort([self._d[k] for k in reversed(keys)]) if len(keys) > 1 else \
            snp.f_argsort(self._d[keys[0]])
        return ix[::-1] if reverse else ix

    def sort(self, keys=None, kind=None, reverse=False):
        ix = self.argsort(keys, kind, reverse)
        for n in self.colnames:
            self._d[n][...] = self._d[n][ix].copy()

    def rename_column(self, a, b):
        self._d = Table({b if n == a else n: self._d[n] for n in self.colnames})._d

    def remove_column(self, a):
        self._d = Table({n: self._d[n] for n in self.colnames if n != a})._d

    def write(self, filename, format=None, overwrite=False, **kw):
        if format not in (None, 'fits') or not str(filename).endswith(('.fits', '.fit', '.fits.gz')):
            if format != 'fits':
                raise Unsupported('Table.write format')
        HDUList([PrimaryHDU(), BinTableHDU(self._d)]).writeto(filename, overwrite=overwrite)

    @classmethod
    def read(cls, filename, *args, format=None, hdu=None, **kw):
        st = fs_store()
        if (str(filename) in st.files and st.files[str(filename)][0] != 'fits') or \
                (format or '').startswith('ascii'):
            return ascii_read(filename, format=(format or 'ascii').replace('ascii.', ''), **kw)
        h = fits_open(filename)
        if hdu is None:
            hdu = next(i for i, x in enumerate(h) if isinstance(x, BinTableHDU))
        return cls(h[hdu].data)


def ascii_read(table, format=None, **kw):
    st = fs_store()
    if str(table) in st.files:
        k, d = st.files[str(table)]
        if isinstance(d, Exception):
            raise d
        if k != 'ascii':
            raise Unsupported('ascii.read of %s' % k)
        return Table(d)
    import astropy.io.ascii as ra
    t = ra.read(table, format=format, **kw)
    cols = {n: np.array(t[n]) for n in t.colnames}
    return Table(cols)


# ---------------------------------------------------------------- units

class Unit:
    def __init__(self, name, scale=1):
        self.name = name
        self.scale = scale

    def __eq__(self, o):
        return isinstance(o, Unit) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __rmul__(self, v):
        return Quantity(v, self)

    def __repr__(self):
        return self.name


MAG = Unit('mag')
MPC = Unit('Mpc')
PC = Unit('pc')
KPC = Unit('kpc')
CM = Unit('cm')
PC_PER = {'Mpc': Fraction(10**6), 'kpc': Fraction(1000), 'pc': Fraction(1),
          'cm': 1 / Fraction('3.0856775814913673e18'), 'm': 1 / Fraction('3.0856775814913673e16')}


class Quantity:
    def __init__(self, v, unit):
        self._v = v
        self.unit = unit

    @property
    def value(self):
        return self._v

    def to_value(self, unit=None):
        if unit is None:
            return self._v
        if isinstance(unit, str):
            unit = Unit(unit)
        if unit == self.unit:
            return self._v
        if unit.name in PC_PER and self.unit.name in PC_PER:
            return self._v * val.const(PC_PER[self.unit.name] / PC_PER[unit.name])
        raise TypeError("units not convertible")

    def to(self, unit):
        if isinstance(unit, str):
            unit = Unit(unit)
        return Quantity(self.to_value(unit), unit)

    def __array__(self, *a, **k):
        return np.asarray(snp.strip(self._v))

    @property
    def shape(self):
        return np.shape(snp.strip(self._v))


class UnitsModule(types.ModuleType):
    def __init__(self):
        super().__init__('astropy.units')
        self.mag = MAG
        self.Mpc = MPC
        self.pc = PC
        self.kpc = KPC
        self.cm = CM
        self.m = Unit('m')
        self.Quantity = Quantity
        self.Unit = Unit

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('astropy.units.%s' % n)
