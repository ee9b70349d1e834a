"""Symbolic scalars.

Val: a scalar of a logical dtype whose value is an exact-real term (or NaN/inf).
FV:  a scalar whose value is an IEEE-754 term of its own format (fp mode).

A comparison of Vals decides itself on the current path (forking where both
outcomes are feasible), so masks, shapes and indices are always concrete.
"""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import core
from .core import (Poly, Cons, RawCons, ATOMS, F0, F1, FH, NAN, INF, NINF,
                   Unsupported, ctx, z3)

WF = 'wf'          # python float (weakly typed)
WI = 'wi'          # python int
F32 = np.dtype(np.float32)
F64 = np.dtype(np.float64)
F16 = np.dtype(np.float16)
I64 = np.dtype(np.int64)


def kind(dt):
    if dt == WF:
        return 'f'
    if dt == WI:
        return 'i'
    return dt.kind


def promote(a, b, div=False):
    """result dtype of an arithmetic operation (NEP 50)"""
    if a in (WF, WI) and b in (WF, WI):
        r = WI if (a == WI and b == WI) else WF
        return WF if (div and r == WI) else r
    if a in (WF, WI):
        a, b = b, a
    if b in (WF, WI):
        if b == WF and a.kind in 'iub':
            r = F64
        elif a.kind == 'b':
            r = I64
        else:
            r = a
    else:
        r = np.result_type(a, b)
    if div and r.kind in 'iub':
        r = F64
    return r


def concrete_dt(dt):
    if dt == WF:
        return F64
    if dt == WI:
        return I64
    return dt


class Val:
    __slots__ = ('p', 'sp', 'dt')
    __array_priority__ = 1000.

    def __init__(self, p, dt=F64, sp=None):
        self.p = p
        self.dt = dt
        self.sp = sp

    # ---- numpy scalar look-alike
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        return concrete_dt(self.dt).itemsize

    itemsize = nbytes

    @property
    def dtype(self):
        return concrete_dt(self.dt)

    def astype(self, dt, **kw):
        from . import snp
        return cast(self, snp.real_dtype(dt))

    def item(self):
        return retype(self, WF if kind(self.dt) == 'f' else WI)

    def tolist(self):
        return self.item()

    def copy(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def squeeze(self, *a, **k):
        return self

    def _arr(self):
        from . import snp
        return snp.wrap(snp.obj0(self), concrete_dt(self.dt))

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def any(self, *a, **k):
        return bool(self)

    all = any

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def flatten(self, *a, **k):
        return self._arr().reshape((1,))

    ravel = flatten

    def dot(self, o):
        return self * o

    def __getitem__(self, k):
        r = self._arr()[k]
        return r

    def round(self, n=0):
        return ufunc1('rint', self)

    def conj(self):
        return self

    conjugate = conj

    def is_integer(self):
        return bool(ufunc1('floor', self) == self)

    def __array__(self, dtype=None, copy=None):
        if self.is_const() and dtype is not None and np.dtype(dtype) != object:
            return np.array(self.const(), dtype=dtype)
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import snp
        return snp.do_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.do_function(func, args, kwargs)

    # ---- constants
    def is_const(self):
        return self.sp is not None or self.p.is_const()

    def const(self):
        """concrete python/numpy value of a constant"""
        if self.sp is not None:
            v = float(self.sp)
        else:
            c = self.p.const_value()
            v = int(c) if kind(self.dt) in 'iu' else float(c)
        if self.dt in (WF, WI):
            return v
        return self.dt.type(v)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value in a C-level call")

    def __int__(self):
        if self.is_const():
            if self.sp is not None:
                raise ValueError("cannot convert float NaN/inf to integer")
            return math.trunc(self.p.const_value())
        return concretise(trunc(self))

    def __index__(self):
        if kind(self.dt) not in 'iub':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.is_const():
            return int(self.p.const_value())
        return concretise(self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, n=None):
        if not n:
            r = ufunc1('rint', self)
            return retype(r, WI) if n is None else r
        s = const(10 ** abs(n))
        if n < 0:
            return retype(ufunc1('rint', self / s) * s, self.dt)
        return retype(ufunc1('rint', self * s) / s, self.dt)

    def __floor__(self):
        return ufunc1('floor', self)

    def __ceil__(self):
        return ufunc1('ceil', self)

    def __complex__(self):
        raise Unsupported("complex()")

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        # unequal terms may have equal values: comparison decides
        return hash('symbolic')

    def __bool__(self):
        if self.sp is not None:
            return True
        return not ctx().branch(Cons(self.p, '=='))

    def __repr__(self):
        return 'Val(%s)' % (self.sp or self.p)

    def __format__(self, spec):
        if self.is_const():
            return format(self.const(), spec)
        return '<sym>'

    def __str__(self):
        if self.is_const():
            return str(self.const())
        return '<sym>'

    # ---- arithmetic
    def __add__(self, o):
        return binop('add', self, o)

    def __radd__(self, o):
        return binop('add', o, self)

    def __sub__(self, o):
        return binop('subtract', self, o)

    def __rsub__(self, o):
        return binop('subtract', o, self)

    def __mul__(self, o):
        return binop('multiply', self, o)

    def __rmul__(self, o):
        return binop('multiply', o, self)

    def __truediv__(self, o):
        return binop('divide', self, o)

    def __rtruediv__(self, o):
        return binop('divide', o, self)

    def __floordiv__(self, o):
        return binop('floor_divide', self, o)

    def __rfloordiv__(self, o):
        return binop('floor_divide', o, self)

    def __mod__(self, o):
        return binop('remainder', self, o)

    def __rmod__(self, o):
        return binop('remainder', o, self)

    def __pow__(self, o):
        return binop('power', self, o)

    def __rpow__(self, o):
        return binop('power', o, self)

    def __neg__(self):
        return ufunc1('negative', self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ufunc1('absolute', self)

    def __lt__(self, o):
        return npbool(binop('less', self, o), self, o)

    def __le__(self, o):
        return npbool(binop('less_equal', self, o), self, o)

    def __gt__(self, o):
        return npbool(binop('greater', self, o), self, o)

    def __ge__(self, o):
        return npbool(binop('greater_equal', self, o), self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return npbool(binop('equal', self, o), self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return True
        return npbool(binop('not_equal', self, o), self, o)

    # methods numpy's object loops look for
    def sqrt(self):
        return ufunc1('sqrt', self)

    def log10(self):
        return ufunc1('log10', self)

    def log(self):
        return ufunc1('log', self)

    def exp(self):
        return ufunc1('exp', self)

    def sinh(self):
        return ufunc1('sinh', self)

    def cosh(self):
        return ufunc1('cosh', self)

    def isnan(self):
        return self.sp == NAN

    def rint(self):
        return ufunc1('rint', self)


numbers.Real.register(Val)


class FV(Val):
    """IEEE-754 value; .p holds the z3 FP term"""
    __slots__ = ()

    def is_const(self):
        return z3.is_fp_value(z3.simplify(self.p)) if self.sp is None else True

    def const(self):
        t = z3.simplify(self.p)
        return concrete_dt(self.dt).type(fp_value(t))

    def __bool__(self):
        return not ctx().branch(RawCons(z3.fpIsZero(self.p)))

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported("int() of a symbolic fp value")

    __index__ = __int__

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'FV(%s)' % self.p

    def isnan(self):
        return ctx().branch(RawCons(z3.fpIsNaN(self.p)))


def fp_value(t):
    if t.isNaN():
        return float('nan')
    if t.isInf():
        return float('-inf') if t.isNegative() else float('inf')
    if t.isZero():
        return -0.0 if t.isNegative() else 0.0
    m = t.significand_as_long()
    e = t.exponent_as_long(False)
    sb = t.sort().sbits()
    sub = t.isSubnormal()
    fr = Fraction(m, 2 ** (sb - 1)) + (0 if sub else 1)
    fr = fr * Fraction(2) ** e
    v = float(fr)
    return -v if t.isNegative() else v


RNE = z3.RNE()
SORTS = {F16: z3.FPSort(5, 11), F32: z3.Float32(), F64: z3.Float64()}


def fpsort(dt):
    dt = concrete_dt(dt)
    if dt not in SORTS:
        raise Unsupported("fp mode: dtype %s" % dt)
    return SORTS[dt]


def fpconst(x, dt):
    v = concrete_dt(dt).type(x)
    v = float(v)
    if math.isnan(v):
        return z3.fpNaN(fpsort(dt))
    if math.isinf(v):
        return z3.fpPlusInfinity(fpsort(dt)) if v > 0 else z3.fpMinusInfinity(fpsort(dt))
    return z3.FPVal(v, fpsort(dt))


def is_fp(v):
    return isinstance(v, FV)


# ---------------------------------------------------------------- lifting

def lift(x):
    """Val of a python/numpy scalar (None if not a number)"""
    if isinstance(x, Val):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Val(Poly.const(int(x)), np.dtype(bool))
    if isinstance(x, np.generic):
        dt = x.dtype
        if dt.kind in 'iu':
            return Val(Poly.const(int(x)), dt)
        if dt.kind == 'f':
            return _lift_float(x, dt)
        return None
    if isinstance(x, int):
        return Val(Poly.const(x), WI)
    if isinstance(x, float):
        return _lift_float(x, WF)
    if isinstance(x, Fraction):
        return Val(Poly.const(x), WF)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


def _lift_float(x, dt):
    f = float(x)
    if math.isnan(f):
        return Val(None, dt, NAN)
    if math.isinf(f):
        return Val(None, dt, INF if f > 0 else NINF)
    n = NAMED.get(f)
    if n is not None and Context_mode() == 'real':
        return Val(n(), dt)
    return Val(Poly.const(core.frac_of_float(x)), dt)


def Context_mode():
    c = core.Context.current
    return c.mode if c is not None else 'real'


NAMED = {math.pi: lambda: Poly.atom(core.PI()),
         math.log(10.): lambda: Poly.atom(core.LN10())}


def const(c, dt=WF):
    return Val(Poly.const(c), dt)


def retype(v, dt):
    if isinstance(v, FV):
        return v if concrete_dt(dt) == concrete_dt(v.dt) and dt == v.dt else \
            FV(v.p, dt) if concrete_dt(dt) == concrete_dt(v.dt) else cast(v, dt)
    return Val(v.p, dt, v.sp)


def cast(v, dt):
    """conversion to a logical dtype"""
    if isinstance(v, FV):
        k = kind(dt)
        if k == 'f':
            if concrete_dt(dt) == concrete_dt(v.dt):
                return FV(v.p, dt)
            return FV(z3.fpFPToFP(RNE, v.p, fpsort(dt)), dt)
        raise Unsupported("fp mode: cast to %s" % dt)
    k = kind(dt)
    if k == 'f':
        if concrete_dt(dt) == F16 and v.sp is None and not v.p.is_const() and \
                concrete_dt(v.dt) != F16:
            return half(v)
        return Val(v.p, dt, v.sp)
    if k in 'iu':
        if kind(v.dt) in 'iub':
            return Val(v.p, dt, v.sp)
        if v.sp is not None:
            return Val(Poly.const(-2**31), dt)
        return Val(trunc(v).p, dt)
    if k == 'b':
        return Val(Poly.const(int(bool(v))), dt)
    if k == 'O':
        return v
    raise Unsupported("cast to %s" % dt)


def half(v):
    """float16: a value within 2**-11 of the original (relative)"""
    c = ctx()
    key = ('half', v.p.key())
    r = c.lets.get(key)
    if r is None:
        a = ATOMS.get('DEF', key, 'half(%r)' % v.p, data={'facts': (), 'half': v.p})
        r = Poly.atom(a)
        eps = Fraction(1, 2048)
        if c.branch(Cons(v.p, '>=')):
            c.assume(Cons(r - v.p.scale(1 - eps), '>='))
            c.assume(Cons(v.p.scale(1 + eps) - r, '>='))
        else:
            c.assume(Cons(v.p.scale(1 - eps) - r, '>='))
            c.assume(Cons(r - v.p.scale(1 + eps), '>='))
        c.lets[key] = r
    return Val(r, F16)


def trunc(v):
    if kind(v.dt) in 'iub':
        return v
    if v.p.is_const():
        return Val(Poly.const(math.trunc(v.p.const_value())), WI)
    if ctx().branch(Cons(v.p, '>=')):
        return floor_(v)
    return ufunc1('negative', floor_(ufunc1('negative', v)))


def floor_(v):
    if v.p.is_const():
        return Val(Poly.const(math.floor(v.p.const_value())), WI)
    if is_int_poly(v.p):
        return Val(v.p, WI)
    c = ctx()
    key = ('floor', v.p.key())
    r = c.lets.get(key)
    if r is None:
        a = ATOMS.get('DEF', key, 'floor(%r)' % v.p,
                      data={'facts': (), 'floor': v.p}, is_int=True)
        r = Poly.atom(a)
        c.assume(Cons(v.p - r, '>='))
        c.assume(Cons(r + Poly.const(1) - v.p, '>'))
        c.lets[key] = r
    return Val(r, WI)


def is_int_poly(p):
    return all(c.denominator == 1 and
               all(ATOMS.atoms[a].is_int and e.denominator == 1 and e > 0
                   for a, e in m) for m, c in p.d.items())


def concretise(v):
    """concrete integer on this path: forks over the feasible values"""
    c = ctx()
    if v.p.is_const():
        return int(v.p.const_value())
    hook = c.lets.get('concretise')
    if hook:
        return hook(v)
    for k in range(0, 40):
        for s in ((k,) if k == 0 else (k, -k)):
            if c.branch(Cons(v.p - Poly.const(s), '==')):
                return s
    raise Unsupported("integer out of the concretisation range")


# ---------------------------------------------------------------- operations

def pow_poly(p, e):
    """p**e for a rational e; p is not zero; p > 0 unless e is an integer"""
    if e == 0:
        return Poly.const(1)
    if e.denominator == 1 and 0 < e <= 6:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    coef, mono, qq = core.poly_content(p)
    if coef < 0:
        if e.denominator == 1:
            # keep the sign in the coefficient
            r = core.const_pow(-coef, e).scale((-1) ** (int(e) % 2))
        else:
            coef, qq = -coef, qq.scale(-1)
            r = core.const_pow(coef, e)
    else:
        r = core.const_pow(coef, e)
    if e.denominator != 1:
        # fractional powers split over the positive atoms only
        c = ctx()
        keep = []
        for a, x in mono:
            if x * e == int(x * e) and int(x) % 2 == 0 and int(x * e) % 2 == 0:
                keep.append((a, x))
            elif c.is_positive(ATOMS.atoms[a]):
                keep.append((a, x))
            else:
                qq = qq * Poly({((a, x),): F1})
        if not qq.is_const() and len(keep) != len(mono):
            mono = tuple(keep)
    mm, k = core.mono_pow(mono, e)
    r = r * Poly({mm: k})
    if not qq.is_const():
        a = core.poly_atom(qq)
        r = r * Poly.atom(a, e)
    else:
        cq = qq.const_value()
        if cq != 1:
            r = r * core.const_pow(cq, e)
    return r


def log10_poly(p):
    """log10 of a positive p"""
    if p.is_const():
        return log10_const(p.const_value())
    c = ctx()
    coef, mono, qq = core.poly_content(p)
    if coef < 0:
        coef, qq = -coef, qq.scale(-1)
    out = log10_const(coef)
    rest = []
    for a, e in mono:
        at = ATOMS.atoms[a]
        if at.kind == 'E10':
            out = out + Poly({at.data: F1}).scale(e)
        elif at.kind == 'PRIME':
            out = out + log10_const(Fraction(at.data)).scale(e)
        elif c.is_positive(at):
            out = out + Poly.atom(core.log_atom(at)).scale(e)
        else:
            rest.append((a, e, at))
    todo, rest = rest, []
    for a, e, at in todo:
        if at.kind == 'POLY' and e.denominator == 1 and \
                c.check([Cons(Poly.atom(at), '>=')])[0] == 'unsat':
            # a negative polynomial: the logarithm of its opposite
            if int(e) % 2:
                qq = qq.scale(-1)
            out = out + Poly.atom(core.log_atom(core.poly_atom(at.data.scale(-1)))).scale(e)
        else:
            rest.append((a, e))
    if rest:
        qq = qq * Poly({tuple(rest): F1})
    if not qq.is_const():
        out = out + Poly.atom(core.log_atom(core.poly_atom(qq)))
    elif qq.const_value() != 1:
        out = out + log10_const(qq.const_value())
    return out


def log10_const(cst):
    out = Poly()
    for n, s in ((cst.numerator, 1), (cst.denominator, -1)):
        for pr, m in core.factor(n).items():
            if pr == 5:
                out = out + Poly.const(m * s)
                out = out - log10_const(Fraction(2)).scale(m * s)
            else:
                a = core.log_atom(core.prime_atom(pr))
                if a.lo is None:
                    v = Fraction(math.log10(pr))
                    a.lo = v - Fraction(1, 10**14)
                    a.hi = v + Fraction(1, 10**14)
                out = out + Poly.atom(a).scale(m * s)
    return out


def exp10_poly(p):
    out = Poly.const(1)
    for m, cf in p.d.items():
        if m == ():
            out = out * core.const_pow(Fraction(10), cf)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS.atoms[m[0][0]].kind == 'LOG':
            base = ATOMS.atoms[m[0][0]].data
            if base.kind == 'PRIME':
                out = out * core.const_pow(Fraction(base.data), cf)
            elif base.kind == 'POLY' and cf.denominator == 1 and 0 < cf <= 4:
                out = out * pow_poly(base.data, cf)
            else:
                out = out * Poly.atom(base, cf)
        else:
            out = out * Poly.atom(core.e10_atom(m), cf)
    return out


INVALID = object()


def ufunc1(name, v):
    v = lift(v)
    if isinstance(v, FV):
        return fp1(name, v)
    if Context_mode() == 'fp' and kind(v.dt) == 'f':
        return fp1(name, FV(tofp(v, v.dt), v.dt))
    dt = v.dt
    if name == 'negative':
        if v.sp is not None:
            return Val(None, dt, {NAN: NAN, INF: NINF, NINF: INF}[v.sp])
        return Val(v.p.scale(-1), dt)
    if name == 'positive' or name == 'conjugate':
        return v
    if name == 'absolute' or name == 'fabs':
        if v.sp is not None:
            return Val(None, dt, NAN if v.sp == NAN else INF)
        if v.p.is_const():
            return Val(Poly.const(abs(v.p.const_value())), dt)
        return v if ctx().branch(Cons(v.p, '>=')) else Val(v.p.scale(-1), dt)
    if name == 'sign':
        if v.sp is not None:
            return v if v.sp == NAN else Val(Poly.const(1 if v.sp == INF else -1), dt)
        if ctx().branch(Cons(v.p, '>')):
            return Val(Poly.const(1), dt)
        return Val(Poly.const(0 if ctx().branch(Cons(v.p, '==')) else -1), dt)
    if name == 'isnan':
        return v.sp == NAN
    if name == 'isinf':
        return v.sp in (INF, NINF)
    if name == 'isfinite':
        return v.sp is None
    if name == 'isneginf':
        return v.sp == NINF
    if name == 'isposinf':
        return v.sp == INF
    if name == 'signbit':
        if v.sp is not None:
            return v.sp == NINF
        return ctx().branch(Cons(v.p.scale(-1), '>'))
    if name == 'logical_not':
        return not bool(v)
    if name == 'square':
        return binop('multiply', v, v)
    if name == 'reciprocal':
        return binop('divide', const(1, dt), v)
    if name in ('floor', 'ceil', 'rint', 'trunc', 'fix'):
        if v.sp is not None or kind(dt) in 'iub':
            return v
        if name == 'floor':
            return Val(floor_(v).p, dt)
        if name == 'ceil':
            return Val(floor_(ufunc1('negative', v)).p.scale(-1), dt)
        if name == 'trunc' or name == 'fix':
            return Val(trunc(v).p, dt)
        # rint: half-way cases not distinguished from floor(x+1/2)
        if v.p.is_const():
            return Val(Poly.const(round(v.p.const_value())), dt)
        return Val(floor_(Val(v.p + Poly.const(FH), dt)).p, dt)
    # float functions
    rdt = dt if kind(dt) == 'f' else (WF if dt == WI else F64)
    if name == 'sqrt':
        if v.sp is not None:
            return Val(None, rdt, INF if v.sp == INF else NAN)
        if v.p.is_const():
            c = v.p.const_value()
            if c < 0:
                return Val(None, rdt, NAN)
            if c == 0:
                return Val(Poly(), rdt)
            return Val(core.const_pow(c, FH), rdt)
        if ctx().branch(Cons(v.p, '>')):
            return Val(pow_poly(v.p, FH), rdt)
        if ctx().branch(Cons(v.p, '==')):
            return Val(Poly(), rdt)
        return Val(None, rdt, NAN)
    if name == 'cbrt':
        if v.sp is None and ctx().branch(Cons(v.p, '>')):
            return Val(pow_poly(v.p, Fraction(1, 3)), rdt)
        raise Unsupported('cbrt')
    if name in ('log10', 'log', 'log2', 'log1p'):
        if name == 'log1p':
            v = binop('add', v, const(1, rdt))
            name = 'log'
        if v.sp is not None:
            return Val(None, rdt, INF if v.sp == INF else NAN)
        if v.p.is_const():
            c = v.p.const_value()
            pos, zero = c > 0, c == 0
        else:
            pos = ctx().branch(Cons(v.p, '>'))
            zero = False if pos else ctx().branch(Cons(v.p, '=='))
        if not pos:
            return Val(None, rdt, NINF if zero else NAN)
        r = log10_poly(v.p)
        if name == 'log':
            r = r * Poly.atom(core.LN10())
        elif name == 'log2':
            r = r * pow_poly(log10_const(Fraction(2)), Fraction(-1))
        return Val(r, rdt)
    if name in ('exp', 'exp2', 'expm1', 'sinh', 'cosh', 'tanh'):
        if v.sp is not None:
            if v.sp == NAN:
                return Val(None, rdt, NAN)
            if name in ('exp', 'exp2'):
                return Val(None, rdt, INF) if v.sp == INF else Val(Poly(), rdt)
            if name == 'cosh':
                return Val(None, rdt, INF)
            if name == 'sinh':
                return Val(None, rdt, v.sp)
            raise Unsupported(name)
        if name == 'exp2':
            return Val(exp10_poly(v.p * log10_const(Fraction(2))), rdt)
        x = v.p * Poly.atom(core.LN10(), -1)
        e = exp10_poly(x)
        if name == 'exp':
            return Val(e, rdt)
        if name == 'expm1':
            return Val(e - Poly.const(1), rdt)
        ei = exp10_poly(x.scale(-1))
        if name == 'sinh':
            return Val((e - ei).scale(FH), rdt)
        if name == 'cosh':
            return Val((e + ei).scale(FH), rdt)
        return binop('divide', Val(e - ei, rdt), Val(e + ei, rdt))
    if name == 'arcsinh':
        r = ufunc1('sqrt', binop('add', binop('multiply', v, v), const(1)))
        return ufunc1('log', binop('add', v, r))
    if name in ('deg2rad', 'radians'):
        return binop('multiply', v, Val(Poly.atom(core.PI()).scale(Fraction(1, 180)), rdt))
    raise Unsupported("function %s" % name)


COMPARE = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'}
LOGICAL = {'logical_and', 'logical_or', 'logical_xor', 'bitwise_and',
           'bitwise_or', 'bitwise_xor'}


def binop(name, a, b):
    if isinstance(a, np.ndarray) and a.ndim > 0 or isinstance(b, np.ndarray) and b.ndim > 0 \
            or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        from . import snp
        return snp.do_ufunc(getattr(np, name), '__call__', (a, b), {})
    a0, b0 = a, b
    a, b = lift(a), lift(b)
    if a is None or b is None:
        if name == 'equal':
            return False
        if name == 'not_equal':
            return True
        return NotImplemented
    if isinstance(a, FV) or isinstance(b, FV) or (
            Context_mode() == 'fp' and 'f' in (kind(a.dt), kind(b.dt))):
        return fp2(name, a, b)
    if name in COMPARE:
        return compare(name, a, b)
    if name in LOGICAL:
        x, y = bool(a), bool(b)
        if name.endswith('and'):
            return x and y
        if name.endswith('xor'):
            return x != y
        return x or y
    if name in ('true_divide', 'divide'):
        dt = promote(a.dt, b.dt, div=True)
        return divide(a, b, dt)
    dt = promote(a.dt, b.dt)
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        if a.sp == NAN or b.sp == NAN:
            if name in ('maximum', 'minimum'):
                return Val(None, dt, NAN)
            return retype(b if a.sp == NAN else a, dt)
        g = compare('greater_equal', a, b)
        if name in ('maximum', 'fmax'):
            return retype(a if g else b, dt)
        return retype(b if g else a, dt)
    if name == 'heaviside':
        if compare('greater', a, const(0)):
            return const(1, dt)
        return retype(b, dt) if compare('equal', a, const(0)) else const(0, dt)
    if name in ('power', 'float_power'):
        return power(a, b, dt)
    if name == 'hypot':
        return ufunc1('sqrt', binop('add', binop('multiply', a, a), binop('multiply', b, b)))
    if name in ('floor_divide', 'remainder', 'mod', 'fmod', 'copysign', 'arctan2',
                'logaddexp'):
        if a.is_const() and b.is_const() and name != 'logaddexp':
            r = getattr(np, name)(a.const(), b.const())
            return retype(lift(r), dt)
        if name == 'floor_divide':
            return Val(floor_(divide(a, b, F64)).p, dt)
        if name in ('remainder', 'mod'):
            f = floor_(divide(a, b, F64))
            return Val(a.p - f.p * b.p, dt)
        raise Unsupported(name)
    if a.sp is not None or b.sp is not None:
        return special2(name, a, b, dt)
    if name == 'add':
        return Val(a.p + b.p, dt)
    if name == 'subtract':
        return Val(a.p - b.p, dt)
    if name == 'multiply':
        return Val(a.p * b.p, dt)
    raise Unsupported("operation %s" % name)


def sgn(v):
    """sign of a value on this path"""
    if v.sp == INF:
        return 1
    if v.sp == NINF:
        return -1
    if ctx().branch(Cons(v.p, '>')):
        return 1
    return 0 if ctx().branch(Cons(v.p, '==')) else -1


def special2(name, a, b, dt):
    if a.sp == NAN or b.sp == NAN:
        return Val(None, dt, NAN)
    if name == 'subtract':
        b = ufunc1('negative', b)
        name = 'add'
    if name == 'add':
        if a.sp and b.sp:
            return Val(None, dt, a.sp if a.sp == b.sp else NAN)
        return Val(None, dt, a.sp or b.sp)
    if name == 'multiply':
        s = sgn(a) * sgn(b)
        return Val(None, dt, NAN if s == 0 else (INF if s > 0 else NINF))
    raise Unsupported(name)


def divide(a, b, dt):
    if a.sp == NAN or b.sp == NAN:
        return Val(None, dt, NAN)
    if b.sp is not None:
        return Val(None, dt, NAN) if a.sp else Val(Poly(), dt)
    if b.p.is_const() and b.p.const_value() != 0:
        if a.sp:
            return Val(None, dt, a.sp if b.p.const_value() > 0 else
                       (NINF if a.sp == INF else INF))
        return Val(a.p.scale(1 / b.p.const_value()), dt)
    if ctx().branch(Cons(b.p, '==')):
        # numpy: x/0 (the zero is taken as +0)
        s = sgn(a)
        return Val(None, dt, NAN if s == 0 else (INF if s > 0 else NINF))
    if a.sp:
        return Val(None, dt, INF if sgn(a) * sgn(b) > 0 else NINF)
    if a.p.key() == b.p.key():
        return Val(Poly.const(1), dt)
    return Val(a.p * pow_poly(b.p, Fraction(-1)), dt)


EULER = {Fraction(math.e), Fraction(repr(math.e)), Fraction(float(np.float32(math.e))),
         Fraction(str(np.float32(math.e)))}


def power(a, b, dt):
    if b.sp is None and b.p.is_const():
        e = b.p.const_value()
        if a.sp is not None:
            if e == 0:
                return const(1, dt)
            if a.sp == NAN:
                return Val(None, dt, NAN)
            if e < 0:
                return const(0, dt)
            if a.sp == NINF and e.denominator == 1 and e % 2 == 1:
                return Val(None, dt, NINF)
            return Val(None, dt, INF)
        if e == 0:
            return const(1, dt)
        if a.p.is_const() and e.denominator == 1 and a.p.const_value() != 0:
            c = a.p.const_value() ** int(e)
            if kind(dt) in 'iu' and e < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            return Val(Poly.const(c), dt)
        if e.denominator == 1 and e > 0:
            return Val(pow_poly(a.p, e) if e <= 6 else _ipow(a.p, int(e)), dt)
        if e.denominator == 1:
            return divide(const(1, dt), Val(pow_poly(a.p, -e), dt), dt)
        # fractional
        pos = ctx().branch(Cons(a.p, '>'))
        if pos:
            return Val(pow_poly(a.p, e), dt)
        if ctx().branch(Cons(a.p, '==')):
            return const(0, dt) if e > 0 else Val(None, dt, INF)
        return Val(None, dt, NAN)
    # symbolic exponent
    if a.sp is not None:
        raise Unsupported("power of inf/nan")
    if b.sp is not None:
        if b.sp == NAN:
            return Val(None, dt, NAN)
        if a.p.is_const() and a.p.const_value() > 1:
            return Val(None, dt, INF) if b.sp == INF else const(0, dt)
        raise Unsupported("power to inf")
    if a.p.is_const() and a.p.const_value() == 10:
        return Val(exp10_poly(b.p), dt)
    if a.p.is_const() and a.p.const_value() in EULER:
        return Val(exp10_poly(b.p * Poly.atom(core.LN10(), -1)), dt)
    if (a.p.is_const() and a.p.const_value() > 0) or \
            (not a.p.is_const() and ctx().branch(Cons(a.p, '>'))):
        return Val(exp10_poly(b.p * log10_poly(a.p)), dt)
    raise Unsupported("power with nonpositive base and symbolic exponent")


def _ipow(p, e):
    r = Poly.const(1)
    while e:
        if e & 1:
            r = r * p
        p = p * p
        e >>= 1
    return r


def npbool(r, a, b):
    """the comparison of a numpy scalar is a numpy boolean"""
    if isinstance(r, bool):
        for x in (a, b):
            d = x.dt if isinstance(x, Val) else getattr(x, 'dtype', None)
            if d is not None and d != WF and d != WI:
                return np.bool_(r)
    return r


def compare(name, a, b):
    if a.sp == NAN or b.sp == NAN:
        return name == 'not_equal'
    if a.sp is not None or b.sp is not None:
        x = float(a.sp) if a.sp else 0.
        y = float(b.sp) if b.sp else 0.
        return bool(getattr(np, name)(x, y))
    d = a.p - b.p
    c = ctx()
    if name == 'greater':
        return c.branch(Cons(d, '>'))
    if name == 'greater_equal':
        return c.branch(Cons(d, '>='))
    if name == 'less':
        return c.branch(Cons(d.scale(-1), '>'))
    if name == 'less_equal':
        return c.branch(Cons(d.scale(-1), '>='))
    if name == 'equal':
        return c.branch(Cons(d, '=='))
    return not c.branch(Cons(d, '=='))


# ---------------------------------------------------------------- fp mode

def tofp(v, dt):
    if isinstance(v, FV):
        if concrete_dt(v.dt) == concrete_dt(dt):
            return v.p
        return z3.fpFPToFP(RNE, v.p, fpsort(dt))
    if v.sp is not None:
        return fpconst(float(v.sp), dt)
    if not v.p.is_const():
        raise Unsupported("fp mode: real term")
    c = v.p.const_value()
    # the nearest value of the operand's own format, then of the target
    src = concrete_dt(v.dt)
    x = float(c)
    if src.kind == 'f' and src != F64 and v.dt not in (WF, WI):
        x = float(src.type(x))
    return fpconst(x, dt)


def fp1(name, v):
    if name == 'negative':
        return FV(z3.fpNeg(v.p), v.dt)
    if name in ('positive', 'conjugate'):
        return v
    if name in ('absolute', 'fabs'):
        return FV(z3.fpAbs(v.p), v.dt)
    if name == 'sqrt':
        return FV(z3.fpSqrt(RNE, v.p), v.dt)
    if name == 'square':
        return fp2('multiply', v, v)
    if name == 'reciprocal':
        return fp2('divide', const(1), v)
    if name == 'isnan':
        return ctx().branch(RawCons(z3.fpIsNaN(v.p)))
    if name == 'isinf':
        return ctx().branch(RawCons(z3.fpIsInf(v.p)))
    if name == 'isfinite':
        return ctx().branch(RawCons(z3.Not(z3.Or(z3.fpIsInf(v.p), z3.fpIsNaN(v.p)))))
    if name == 'floor':
        return FV(z3.fpRoundToIntegral(z3.RTN(), v.p), v.dt)
    if name == 'ceil':
        return FV(z3.fpRoundToIntegral(z3.RTP(), v.p), v.dt)
    if name == 'rint':
        return FV(z3.fpRoundToIntegral(RNE, v.p), v.dt)
    if name == 'logical_not':
        return not bool(v)
    if v.is_const():
        return FV(fpconst(getattr(np, name)(v.const()), v.dt), v.dt)
    raise Unsupported("fp mode: %s" % name)


def fp2(name, a, b):
    if name in LOGICAL:
        x, y = bool(a), bool(b)
        return (x and y) if name.endswith('and') else \
            (x != y) if name.endswith('xor') else (x or y)
    dt = promote(a.dt, b.dt, div=(name in ('divide', 'true_divide')))
    if kind(dt) != 'f':
        dt = F64
    x, y = tofp(a, dt), tofp(b, dt)
    if name == 'add':
        r = z3.fpAdd(RNE, x, y)
    elif name == 'subtract':
        r = z3.fpSub(RNE, x, y)
    elif name == 'multiply':
        r = z3.fpMul(RNE, x, y)
    elif name in ('divide', 'true_divide'):
        r = z3.fpDiv(RNE, x, y)
    elif name == 'power':
        e = b.const() if b.is_const() else None
        if e is not None and float(e) == 2.:
            r = z3.fpMul(RNE, x, x)
        elif e is not None and float(e) == 1.:
            r = x
        elif e is not None and float(e) == 0.5:
            r = z3.fpSqrt(RNE, x)
        elif e is not None and float(e) == -1.:
            r = z3.fpDiv(RNE, fpconst(1., dt), x)
        else:
            raise Unsupported("fp mode: power")
    elif name in COMPARE:
        t = {'less': z3.fpLT, 'less_equal': z3.fpLEQ, 'greater': z3.fpGT,
             'greater_equal': z3.fpGEQ, 'equal': z3.fpEQ,
             'not_equal': z3.fpNEQ}[name](x, y)
        return ctx().branch(RawCons(t))
    elif name in ('maximum', 'minimum', 'fmax', 'fmin'):
        an = ctx().branch(RawCons(z3.fpIsNaN(x)))
        bn = ctx().branch(RawCons(z3.fpIsNaN(y)))
        if an or bn:
            if name in ('maximum', 'minimum'):
                return FV(z3.fpNaN(fpsort(dt)), dt)
            return FV(y if an else x, dt)
        g = ctx().branch(RawCons(z3.fpGEQ(x, y)))
        return FV(x if (g == (name in ('maximum', 'fmax'))) else y, dt)
    else:
        raise Unsupported("fp mode: %s" % name)
    return FV(r, dt)
