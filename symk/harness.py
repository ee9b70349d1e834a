"""Harness layer: one harness function, two environments.

SymEnv   runs it over the symbolically executed package; every obligation is
         decided by the solver on every path.
RealEnv  runs the same harness on the package as imported by Python, with
         concrete inputs: replay of counterexamples, validation of the encoding.
"""
import contextlib
import importlib
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, loader, snp, stubs, val
from .core import (ATOMS, Atom, Cons, BoolCons, Poly, RawCons, STATS, EngineSignal,
                   PathBudget, PathInfeasible, Unsupported, z3)
from .val import Val, FV, lift

warnings.filterwarnings('ignore')


class Skip(Exception):
    """concrete inputs outside the harness's assumptions"""


class Obligation:
    __slots__ = ('name', 'kind', 'got', 'want', 'rtol', 'atol', 'ok', 'detail', 'pc')

    def __init__(self, name, kind, got=None, want=None, rtol=0, atol=0, ok=None,
                 detail=''):
        self.name = name
        self.kind = kind
        self.got = got
        self.want = want
        self.rtol = rtol
        self.atol = atol
        self.ok = ok
        self.detail = detail


class BaseEnv:
    """what harnesses use"""

    RT = 3e-4

    def __init__(self):
        self.obls = []
        self.covered = set()
        self.declared = []
        self.opts = {}

    # ---- obligations
    def true(self, name, ok, detail=''):
        self.obls.append(Obligation(name, 'true', ok=bool(ok), detail=str(detail)))

    def shape(self, name, arr, shape):
        s = np.shape(snp.strip(arr))
        self.true(name, tuple(s) == tuple(shape), 'shape %s, expected %s' % (s, tuple(shape)))

    def same(self, name, got, want, rtol=None, atol=0.):
        """elementwise equality of arrays (and of their shapes)"""
        g, w = arr(got), arr(want)
        if g.shape != w.shape:
            self.true(name + ':shape', False, 'shape %s, expected %s' % (g.shape, w.shape))
            return
        for i in np.ndindex(*g.shape):
            self.eq(name, g[i], w[i], rtol, atol)

    def raises(self, name, excs, fn):
        """fn must raise one of excs"""
        try:
            fn()
        except excs:
            self.true(name, True)
            return True
        except Exception as e:
            self.true(name, False, 'raised %s: %s' % (type(e).__name__, e))
            return False
        self.true(name, False, 'no exception')
        return False

    def cover(self, label):
        self.covered.add(label)


def arr(x):
    if isinstance(x, (snp.SArr, Val, list, tuple)):
        return snp.toobj(x)
    return np.asarray(x)


def el(x):
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


# ---------------------------------------------------------------- symbolic

class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.world = loader.World()
        self.ranges = {}
        self.outs = []
        cosm = self.world.over['astropy.cosmology']
        cosm.Planck18 = Cosmo(self, 35.5, 4.25)
        self.kc = self.world.load('kcorrect')
        self.np = self.world.over['numpy']
        self.units = self.world.over['astropy.units']
        self.fits = self.world.over["astropy.io.fits"]
        self.fp = core.ctx().mode == 'fp'

    def var(self, name, lo, hi, nice=None, dtype=np.float32, integer=False,
            positive=False):
        """arbitrary number in [lo, hi] (None: unbounded)"""
        dt = np.dtype(dtype)
        self.ranges[name] = (lo, hi, nice, dt, integer)
        c = core.ctx()
        if c.mode == 'fp' and dt.kind == 'f':
            t = z3.FP(name, val.fpsort(dt))
            v = FV(t, dt)
            c.inputs[name] = v
            if lo is not None:
                c.facts.append(RawCons(z3.fpGEQ(t, val.fpconst(lo, dt))))
            if hi is not None:
                c.facts.append(RawCons(z3.fpLEQ(t, val.fpconst(hi, dt))))
            return v
        lo = core.frac_of_float(lo) if lo is not None else None
        hi = core.frac_of_float(hi) if hi is not None else None
        whole = integer or dt.kind in 'iu'
        # (the same name may have another range on another path)
        a = ATOMS.get('VAR', (name, lo, hi, positive, whole), name, is_int=whole, lo=lo, hi=hi,
                      positive=positive or (lo is not None and lo > 0))
        v = Val(Poly.atom(a), dt)
        c.inputs[name] = v
        return v

    def array(self, name, shape, lo, hi, nice=None, dtype=np.float32, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.var(name + ''.join('_%d' % k for k in i), lo, hi, nice, dtype, **kw)
        if shape == ():
            return o[()]
        return snp.wrap(o, np.dtype(dtype))

    def arr(self, x, dtype=np.float32):
        """input array built from scalars"""
        dt = np.dtype(dtype)
        if dt.kind not in 'fiu':
            return np.array(x, dtype=dt)
        return snp.castarr(snp.toobj(x), dt)

    def num(self, x, dtype=np.float32):
        return val.cast(lift(x), np.dtype(dtype))

    def choice(self, n, name):
        k = core.ctx().choice(n)
        core.ctx().inputs['choice:' + name] = k
        return k

    def assume(self, cond):
        """cond: constraint from gt/ge/..."""
        core.ctx().assume(cond)

    def _c(self, a, b, op):
        a, b = lift(a), lift(b)
        if isinstance(a, FV) or isinstance(b, FV):
            dt = val.promote(a.dt, b.dt)
            f = {'>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}[op]
            return RawCons(f(val.tofp(a, dt), val.tofp(b, dt)))
        if a.sp is not None or b.sp is not None:
            raise Unsupported('assumption on inf/nan')
        return Cons(a.p - b.p, op)

    def assume_gt(self, a, b):
        core.ctx().assume(self._c(a, b, '>'))

    def assume_ge(self, a, b):
        core.ctx().assume(self._c(a, b, '>='))

    def assume_eq(self, a, b):
        core.ctx().assume(self._c(a, b, '=='))

    def eq(self, name, got, want, rtol=None, atol=0.):
        self.obls.append(Obligation(name, 'eq', el(got), el(want),
                                    self.RT if rtol is None else rtol, atol))

    def ge(self, name, a, b, rtol=None, atol=0.):
        """a >= b"""
        self.obls.append(Obligation(name, 'ge', el(a), el(b),
                                    self.RT if rtol is None else rtol, atol))

    def notnan(self, name, v):
        v = lift(el(v))
        if isinstance(v, FV):
            self.obls.append(Obligation(name, 'fpfinite', v))
        else:
            self.true(name, v.sp is None, 'value %s' % v.sp)

    def log10(self, x):
        return val.ufunc1('log10', lift(x))

    def sqrt(self, x):
        return val.ufunc1('sqrt', lift(x))

    def pow10(self, x):
        return val.binop('power', val.const(10), lift(x))

    def exp(self, x):
        return val.ufunc1('exp', lift(x))

    def log(self, x):
        return val.ufunc1('log', lift(x))

    def abs(self, x):
        return val.ufunc1('absolute', lift(x))

    def frac(self, x):
        return val.const(core.frac_of_float(x))

    def quantity(self, v, unit):
        return stubs.Quantity(v, getattr(self.units, unit))

    def tmpfile(self, name):
        return '/sym/' + name

    def put_ascii(self, name, cols):
        """an ascii table file with the given columns"""
        d = {}
        for k, v in cols.items():
            d[k] = v
        stubs.fs_store().files[name] = ('ascii', d)
        return name

    def put_folder(self, name):
        self.put_bad_ascii(self.tmpfile(name) + '/x.txt')

    def put_bad_ascii(self, name):
        stubs.fs_store().files[name] = ('ascii', ValueError('not a table'))
        return name

    def put_text(self, name, tokens):
        toks = []
        for i, t in enumerate(tokens):
            l = lift(t) if not isinstance(t, str) else None
            toks.append(t if l is None else stubs.SymStr('tok%d' % i, l))
        stubs.fs_store().files[name] = ('text', stubs.SymText(toks))
        return name

    def remove_file(self, name):
        stubs.fs_store().files.pop(name, None)

    @contextlib.contextmanager
    def nnls_gives_up(self, k):
        """calls number k, k+1, .. of the optimizer run out of their default number of
        iterations (a given number always suffices)"""
        c = core.ctx()
        n0 = c.lets.get('nnls_calls', 0)
        c.lets['nnls_fail'] = range(n0 + k, 10**6)
        yield lambda: c.lets.get('nnls_calls', 0) - n0
        c.lets['nnls_fail'] = ()

    def noise_count(self):
        return core.ctx().lets.get('noise_k', 0)

    def noise(self, k):
        return core.ctx().inputs['noise%d' % k]

    def seed(self, k):
        """start the common stream of draws anew"""
        core.ctx().lets['noise_seed'] = (('env', k), 0)

    def noise_is(self, k, dev):
        return (lift(dev).p - self.noise(k).p).is_zero()

    def isval(self, x):
        return isinstance(x, (Val, snp.SArr))

    def dtype_of(self, x):
        return x.dtype

    def snapshot(self, a):
        return a.copy() if isinstance(a, np.ndarray) else a

    def unchanged(self, name, a, snap):
        if isinstance(a, np.ndarray):
            self.true(name + ':dtype', a.dtype == snap.dtype)
            self.same(name, a, snap, rtol=0, atol=0)


class Cosmo:
    """cosmology whose distance modulus is d0 + d1*z"""

    def __init__(self, env, d0, d1):
        self.env = env
        self.d0 = d0
        self.d1 = d1
        self.calls = 0

    def dm(self, z):
        return z * self.d1 + self.d0

    def distmod(self, z):
        self.calls += 1
        return self.env.quantity(self.dm(z), 'mag')

    def luminosity_distance(self, z):
        e = self.env
        x = self.dm(z) / 5 - 5
        if e.symbolic:
            r = val.binop('power', val.const(10), x) if isinstance(x, Val) else \
                snp.do_ufunc(np.power, '__call__', (val.const(10), x), {})
        else:
            r = 10.**np.float64(x)
        return e.quantity(r, 'Mpc')


# ---------------------------------------------------------------- concrete

_real_cache = {}


def fresh_real():
    """the package as Python imports it, freshly executed"""
    for k in [k for k in sys.modules if k == 'kcorrect' or k.startswith('kcorrect.')]:
        del sys.modules[k]
    if loader.SRC not in sys.path:
        sys.path.insert(0, loader.SRC)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    m = importlib.import_module('kcorrect')
    assert m.__file__.startswith(loader.SRC), m.__file__
    return m


class RealEnv(BaseEnv):
    symbolic = False
    fp = False

    def __init__(self, values, rng=None):
        super().__init__()
        self.values = values
        self.used = {}
        self.rng = rng
        self.noise_k = 0
        self.noise_known = {}
        self.np = np
        self.tmp = None
        self._restore = []
        self.kc = fresh_real()
        import astropy.units
        self.units = astropy.units
        import astropy.io.fits
        self.fits = astropy.io.fits
        st = self

        class G:
            """a stream of draws: fresh ones, or those of the seed"""
            def __init__(self, seed=None):
                self.key = seed
                self.pos = 0

            def seed(self, s=None):
                self.key, self.pos = (('state', repr(s)) if s is not None else None), 0

            def normal(self, loc=0.0, scale=1.0, size=None):
                if size is None:
                    size = np.broadcast_shapes(np.shape(loc), np.shape(scale)) or None
                return st._noise(size, self) * scale + loc

            def standard_normal(self, size=None, *a, **k):
                return st._noise(size, self)

            def randn(self, *shape):
                return st._noise(shape if shape else None, self)
        g = self._stream = G()

        def default_rng(seed=None):
            return seed if isinstance(seed, G) else G(('rng', repr(seed))) if seed is not None else g

        def RandomState(seed=None):
            return G(('state', repr(seed))) if seed is not None else g

        for n in ('normal', 'standard_normal', 'randn', 'seed'):
            self._patch(np.random, n, getattr(g, n))
        self._patch(np.random, 'default_rng', default_rng)
        self._patch(np.random, 'RandomState', RandomState)

    def _patch(self, o, n, v):
        self._restore.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def close(self):
        for o, n, v in self._restore[::-1]:
            setattr(o, n, v)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def _noise(self, size, stream):
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else
                                         tuple(int(s) for s in size))
        o = np.zeros(shape)
        for i in np.ndindex(*shape):
            key = (stream.key, stream.pos) if stream.key is not None else None
            stream.pos += 1
            k = self.noise_known.get(key)
            if k is None:
                k = self.noise_k
                self.noise_k += 1
                if key is not None:
                    self.noise_known[key] = k
            o[i] = self._get('noise%d' % k, (-3., 3.), -8, 8)
        return float(o) if shape == () else o

    @contextlib.contextmanager
    def nnls_gives_up(self, k):
        import scipy.optimize
        orig = scipy.optimize.nnls
        n = [0]

        def nnls(A, b, maxiter=None, **kw):
            n[0] += 1
            if maxiter is None and n[0] > k:
                raise RuntimeError("Maximum number of iterations reached.")
            return orig(A, b, maxiter=maxiter, **kw)
        # (whichever way the code under test reaches it)
        for mod in list(sys.modules.values()):
            if getattr(mod, '__name__', '').startswith('kcorrect') and \
                    getattr(mod, 'nnls', None) is orig:
                self._patch(mod, 'nnls', nnls)
        scipy.optimize.nnls = nnls
        try:
            yield lambda: n[0]
        finally:
            scipy.optimize.nnls = orig

    def noise_count(self):
        return self.noise_k

    def noise(self, k):
        return self.used['noise%d' % k]

    def seed(self, k):
        self._stream.key, self._stream.pos = ('env', k), 0

    def noise_is(self, k, dev):
        return abs(float(dev) - self.noise(k)) < 2e-3

    def _get(self, name, nice, lo, hi, integer=False):
        v = self.values.get(name)
        if v is None:
            r = self.rng or random.Random(name)
            a, b = nice if nice else (lo if lo is not None else -2., hi if hi is not None else 2.)
            v = r.uniform(float(a), float(b))
            if integer:
                v = round(v)
        self.used[name] = v
        return v

    def var(self, name, lo, hi, nice=None, dtype=np.float32, integer=False, positive=False):
        dt = np.dtype(dtype)
        v = self._get(name, nice, lo, hi, integer or dt.kind in 'iu')
        if dt.kind in 'iu':
            return dt.type(int(v))
        r = dt.type(float(v))
        if lo is not None and r < lo:
            r = dt.type(lo)
        if hi is not None and r > hi:
            r = dt.type(hi)
        return r

    def array(self, name, shape, lo, hi, nice=None, dtype=np.float32, **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.zeros(shape, dtype=dtype)
        for i in np.ndindex(*shape):
            o[i] = self.var(name + ''.join('_%d' % k for k in i), lo, hi, nice, dtype, **kw)
        return o if shape else o[()]

    def arr(self, x, dtype=np.float32):
        return np.array(x, dtype=dtype)

    def num(self, x, dtype=np.float32):
        return np.dtype(dtype).type(x)

    def choice(self, n, name):
        k = self.values.get('choice:' + name)
        if k is None:
            k = self.rng.randrange(n) if self.rng else 0
        k = int(k) % n
        self.used['choice:' + name] = k
        return k

    def assume(self, cond):
        if not cond:
            raise Skip()

    def assume_gt(self, a, b):
        if not float(a) > float(b):
            raise Skip()

    def assume_ge(self, a, b):
        if not float(a) >= float(b):
            raise Skip()

    def assume_eq(self, a, b):
        if not abs(float(a) - float(b)) <= 1e-6 * abs(float(b)):
            raise Skip()

    def eq(self, name, got, want, rtol=None, atol=0.):
        rtol = self.RT if rtol is None else rtol
        try:
            g, w = float(el(got)), float(el(want))
        except (TypeError, ValueError):
            self.obls.append(Obligation(name, 'eq', got, want, rtol, atol, ok=False,
                                        detail='got %r, expected %r' % (got, want)))
            return
        if math.isnan(w) or math.isnan(g):
            ok = math.isnan(w) and math.isnan(g)
        elif math.isinf(w) or math.isinf(g):
            ok = w == g
        else:
            ok = abs(g - w) <= rtol * max(abs(w), abs(g)) + atol
        self.obls.append(Obligation(name, 'eq', g, w, rtol, atol, ok,
                                    'got %.9g, expected %.9g' % (g, w)))

    def ge(self, name, a, b, rtol=None, atol=0.):
        rtol = self.RT if rtol is None else rtol
        a, b = float(el(a)), float(el(b))
        ok = a >= b - rtol * max(abs(a), abs(b)) - atol
        self.obls.append(Obligation(name, 'ge', a, b, rtol, atol, ok,
                                    '%.9g should be >= %.9g' % (a, b)))

    def notnan(self, name, v):
        self.true(name, bool(np.isfinite(v)), 'value %r' % (v,))

    def log10(self, x):
        return float(np.log10(np.float64(x)))

    def sqrt(self, x):
        return float(np.sqrt(np.float64(x)))

    def pow10(self, x):
        return 10.**float(x)

    def exp(self, x):
        return float(np.exp(np.float64(x)))

    def log(self, x):
        return float(np.log(np.float64(x)))

    def abs(self, x):
        return abs(float(x))

    def frac(self, x):
        return float(x)

    def quantity(self, v, unit):
        return self.units.Quantity(v, getattr(self.units, unit))

    def tmpfile(self, name):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='kcv-')
        return os.path.join(self.tmp, name)

    def put_ascii(self, name, cols):
        import astropy.table
        p = self.tmpfile(os.path.basename(name))
        t = astropy.table.Table({k: np.asarray(v, dtype=np.float64) for k, v in cols.items()})
        t.write(p, format='ascii.fixed_width', overwrite=True)
        return p

    def put_folder(self, name):
        os.makedirs(self.tmpfile(name), exist_ok=True)
        open(os.path.join(self.tmpfile(name), 'x.txt'), 'w').close()

    def put_bad_ascii(self, name):
        p = self.tmpfile(os.path.basename(name))
        with open(p, 'w') as f:
            f.write('not a table\n')
        return p

    def put_text(self, name, tokens):
        p = self.tmpfile(os.path.basename(name))
        with open(p, 'w') as f:
            f.write(' '.join(t if isinstance(t, str) else repr(float(t)) if not
                             isinstance(t, (int, np.integer)) else str(int(t))
                             for t in tokens))
        return p

    def remove_file(self, name):
        if os.path.exists(name) and self.tmp and name.startswith(self.tmp):
            os.unlink(name)

    def isval(self, x):
        return isinstance(x, (np.generic, np.ndarray, float, int))

    def dtype_of(self, x):
        return x.dtype

    def snapshot(self, a):
        return a.copy() if isinstance(a, np.ndarray) else a

    def unchanged(self, name, a, snap):
        if isinstance(a, np.ndarray):
            self.true(name + ':dtype', a.dtype == snap.dtype)
            self.same(name, a, snap, rtol=0, atol=0)


class Result:
    pass


def run_real(fn, values, seed=None):
    """(failed obligations, env, exception, skipped)"""
    r = Result()
    r.failed = []
    r.exc = None
    r.tb = None
    r.skipped = False
    r.values = values
    env = RealEnv(values, random.Random(seed) if seed is not None else None)
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(env)
    except Skip:
        r.skipped = True
    except Exception as e:
        r.exc = e
        r.tb = traceback.format_exc()
    finally:
        env.close()
    r.env = env
    if not r.skipped:
        r.failed = [o for o in env.obls if not o.ok]
    return r


# ---------------------------------------------------------------- evaluation

class NoEval(Exception):
    pass


class Evaluator:
    """numeric value of terms for concrete inputs (true transcendental values)"""

    def __init__(self, values, exact32=True):
        self.v = values
        self.memo = {}

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self.memo[a] = self._atom(ATOMS.atoms[a])
        return r

    def _atom(self, at):
        if at.kind == 'VAR':
            if at.name in self.v:
                return float(self.v[at.name])
            raise NoEval(at.name)
        if at.kind in ('CONST', 'PRIME'):
            return float(at.data)
        if at.kind == 'POLY':
            return self.poly(at.data)
        if at.kind == 'LOG':
            x = self.atom(at.data.id)
            if x <= 0:
                raise NoEval('log')
            return math.log10(x)
        if at.kind == 'E10':
            x = self.poly(Poly({at.data: core.F1}))
            if abs(x) > 290:
                raise NoEval('overflow')
            return 10.**x
        if at.kind == 'DEF':
            d = at.data
            if 'nnls' in d:
                key, j = d['nnls']
                m = ('nnls', key)
                if m not in self.memo:
                    import scipy.optimize
                    A = np.array([self.poly(Poly(dict(k))) for k in key[1]]).reshape(key[3], key[4])
                    b = np.array([self.poly(Poly(dict(k))) for k in key[2]])
                    try:
                        self.memo[m] = scipy.optimize.nnls(A, b)[0]
                    except Exception:
                        raise NoEval('nnls')
                return float(self.memo[m][j])
            if 'floor' in d:
                return float(math.floor(self.poly(d['floor'])))
            if 'half' in d:
                return float(np.float16(self.poly(d['half'])))
        raise NoEval(at.kind)

    def poly(self, p):
        s = 0.
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                x = self.atom(a)
                if x < 0 and e.denominator != 1:
                    raise NoEval('root')
                if x == 0 and e < 0:
                    raise NoEval('zero')
                try:
                    t *= x ** float(e) if e.denominator != 1 else x ** int(e)
                except OverflowError:
                    raise NoEval('overflow')
            s += t
        return s

    def cons(self, c):
        if isinstance(c, BoolCons):
            vs = [self.cons(a) for a in c.args]
            return all(vs) if c.op == 'and' else any(vs)
        if isinstance(c, RawCons):
            raise NoEval('fp')
        return c.evaluate(self.poly)


def f32(x):
    return float(np.float32(float(x)))


# ---------------------------------------------------------------- deciding

class HarnessRun:
    """verdict over one harness"""

    def __init__(self, pid, name, fn, opts=None):
        self.pid = pid
        self.name = name
        self.fn = fn
        self.o = dict(max_paths=20000, budget_s=120., timeout_ms=8000, mode='real',
                      witnesses=6, must_cover=(), maxrep=25)
        self.o.update(opts or {})
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.syntactic = 0
        self.within_tol = 0
        self.inconclusive = []
        self.violations = []
        self.validated = 0
        self.covered = set()
        self.samples = []
        self.files = set()
        self.cut = None
        self.compared = 0
        self.maxdiff = 0.

    # -- models
    def values_from_model(self, mv, ctx_):
        """input values of a solver model"""
        vals = {}
        for n, v in ctx_.inputs.items():
            if n.startswith('choice:'):
                vals[n] = v
                continue
            if isinstance(v, FV):
                vals[n] = val.fp_value(z3.simplify(mv.var(v.p)))
                continue
            (m, c), = v.p.d.items()
            a = m[0][0]
            x = mv.atom(a)
            if x is None:
                x = self.default(n)
            # a variable that only occurs as 10**x takes its value from there
            e = ATOMS.by_key.get(('E10', ((a, core.F1),)))
            if e is not None:
                ev = mv.atom(e.id)
                if ev is not None and ev > 0:
                    lx = mv.atom(a)
                    k = math.log10(ev) if ev < 10**300 else float(len(str(int(ev))))
                    if lx is None or abs(k) < 300:
                        x = k
            if x is not None:
                vals[n] = clampf(float(x))
        return vals

    def default(self, name):
        r = self.env.ranges.get(name)
        rng = random.Random(name)
        if r is None:
            return Fraction(rng.randrange(-200, 200), 100)
        lo, hi, nice, dt, integer = r
        if nice is None:
            nice = (lo if lo is not None else -2, hi if hi is not None else 2)
        x = rng.uniform(float(nice[0]), float(nice[1]))
        return Fraction(round(x)) if integer or dt.kind in 'iu' else Fraction(x)

    def niceboxes(self, ctx_, rng=None):
        out = []
        for n, v in ctx_.inputs.items():
            if n.startswith('choice:'):
                continue
            r = self.env.ranges.get(n)
            if isinstance(v, FV):
                if r is not None and r[2]:
                    lo, hi = r[2]
                    out.append(RawCons(z3.And(z3.fpGEQ(v.p, val.fpconst(lo, v.dt)),
                                              z3.fpLEQ(v.p, val.fpconst(hi, v.dt)))))
                continue
            if n.startswith('noise'):
                lo, hi = -3., 3.
            elif r is None or not r[2]:
                continue
            else:
                lo, hi = r[2]
            if rng is not None:
                w = (hi - lo)
                a = lo + w * rng.random() * 0.9
                lo, hi = a, a + w * 0.1
            out.append(Cons(v.p - Poly.const(core.frac_of_float(float('%.3g' % lo))), '>='))
            out.append(Cons(Poly.const(core.frac_of_float(float('%.3g' % hi))) - v.p, '>='))
        return out

    def models(self, ctx_, extra, tries=4, timeout_ms=4000):
        """candidate input assignments satisfying the path and extra"""
        rng = random.Random(7)
        boxes = [self.niceboxes(ctx_)]
        for _ in range(tries):
            boxes.append(self.niceboxes(ctx_, rng))
        boxes.append([])
        for bx in boxes:
            try:
                r, mv = ctx_.check(list(extra) + bx, want_model=True, timeout_ms=timeout_ms)
            except PathBudget:
                ctx_.aborted = None
                return
            if r == 'sat':
                try:
                    yield self.values_from_model(mv, ctx_)
                except Unsupported:
                    continue

    def numeric_search(self, ctx_, target, n=400):
        """inputs, near random points, on this path with target violated
        (numerically): only used to find a replay for what the solver refuted"""
        rng = random.Random(11)
        for k in range(n):
            vals = {}
            for nm, v in ctx_.inputs.items():
                if nm.startswith('choice:'):
                    vals[nm] = v
                    continue
                if isinstance(v, FV):
                    return
                r = self.env.ranges.get(nm)
                if nm.startswith('noise') or r is None:
                    lo, hi = -3., 3.
                    integer = False
                else:
                    nice = r[2] or (r[0] if r[0] is not None else -2,
                                    r[1] if r[1] is not None else 2)
                    lo, hi = nice
                    integer = r[4] or r[3].kind in 'iu'
                x = rng.uniform(float(lo), float(hi))
                if rng.random() < 0.1:
                    x = rng.choice([float(lo), float(hi), 0. if lo <= 0 <= hi else float(lo)])
                vals[nm] = float(round(x)) if integer else f32(x)
            ev = Evaluator(vals)
            try:
                if all(ev.cons(c) for c in ctx_.pc) and all(
                        ev.cons(c) for c in ctx_.facts if not has_def(c)) and \
                        (target is None or target(ev)):
                    yield vals
            except (NoEval, OverflowError, ZeroDivisionError):
                continue

    # -- run
    def run(self):
        t0 = time.time()
        core.reset_atoms()
        core._solve_cache.clear()
        val_cache_reset()
        holder = {}

        self.functions = set()

        def prof(frame, event, arg):
            if event == 'call':
                co = frame.f_code
                if co.co_filename.startswith(loader.SRC):
                    self.functions.add('%s:%s' % (os.path.basename(co.co_filename),
                                                  co.co_qualname))

        def once():
            env = SymEnv()
            holder['env'] = env
            if self.paths < 12:
                sys.setprofile(prof)
            try:
                self.fn(env)
            finally:
                sys.setprofile(None)
            return env
        try:
            for r in core.explore(once, mode=self.o['mode'], max_paths=self.o['max_paths'],
                                  timeout_ms=self.o['timeout_ms'],
                                  budget_s=self.o['budget_s']):
                self.env = holder.get('env')
                if r.ctx is None:
                    self.cut = str(r.signal)
                    break
                self.paths += 1
                self.files.update(self.env.world.files_loaded if self.env else ())
                self.one(r)
                if len(self.violations) >= 3:
                    break
        except EngineSignal as e:
            self.cut = '%s: %s' % (type(e).__name__, e)
        missing = [c for c in self.o['must_cover'] if c not in self.covered]
        if missing and not self.violations and not self.inconclusive and not self.cut:
            self.inconclusive.append(('vacuous', 'not reached: %s' % missing))
        self.wall = time.time() - t0
        return self

    def one(self, r):
        c = r.ctx
        if r.signal is not None:
            why = '%s: %s' % (type(r.signal).__name__, r.signal)
            c.aborted = None
            if not self.concrete_probe(c, 'path not executable symbolically (%s)' % why):
                self.inconclusive.append(('path', why))
            return
        if r.exc is not None:
            what = 'uncaught %s: %s' % (type(r.exc).__name__, r.exc)
            last = r.tb.strip().split('\n')
            where = ' | '.join(x.strip() for x in last[-5:])
            # feasible?
            if core.solve(c.facts + c.pc, timeout_ms=4000)[0] == 'unsat':
                return
            for vals in self.models(c, [], tries=2):
                if self.report(vals, 'exception', what):
                    return
            for vals in limited(self.numeric_search(c, None), 10):
                if self.report(vals, 'exception', what):
                    return
            self.inconclusive.append(('exception not reproduced', what + ' @ ' + where))
            return
        env = r.value
        self.covered |= env.covered
        bad = False
        for ob in env.obls:
            self.obligations += 1
            try:
                v = self.decide(c, ob)
            except Unsupported as e:
                v = 'unknown'
                ob.detail = str(e)
            except PathBudget:
                c.aborted = None
                v = 'unknown'
            if v == 'violated':
                bad = True
                break
            if v == 'unknown':
                self.inconclusive.append(('obligation', ob.name + ' ' + ob.detail))
                break
        if not bad and self.validated < self.o['witnesses'] or self.paths % 7 == 0:
            self.witness(c, env)

    def decide(self, c, ob):
        if ob.kind == 'true':
            if ob.ok:
                self.discharged += 1
                self.syntactic += 1
                return 'ok'
            # a failed structural obligation: the path must be feasible
            if core.solve(c.facts + c.pc, timeout_ms=4000)[0] == 'unsat':
                self.discharged += 1
                return 'ok'
            for vals in self.models(c, [], tries=2):
                if self.report(vals, ob.name, ob.detail):
                    return 'violated'
            for vals in limited(self.numeric_search(c, None), 10):
                if self.report(vals, ob.name, ob.detail):
                    return 'violated'
            return 'unknown'
        if ob.kind == 'fpfinite':
            t = z3.Or(z3.fpIsNaN(ob.got.p), z3.fpIsInf(ob.got.p))
            return self.decide_raw(c, ob, [RawCons(t)], None)
        g, w = lift(ob.got), lift(ob.want)
        if g is None or w is None:
            ok = ob.got is ob.want or (g is None and w is None and ob.got == ob.want)
            return self.decide(c, Obligation(ob.name, 'true', ok=ok,
                                             detail='got %r, expected %r' % (ob.got, ob.want)))
        if isinstance(g, FV) or isinstance(w, FV):
            return self.decide_fp(c, ob, g, w)
        if g.sp is not None or w.sp is not None:
            if ob.kind == 'eq':
                ok = g.sp == w.sp
            else:
                gv = float(g.sp) if g.sp else 0.
                wv = float(w.sp) if w.sp else 0.
                ok = g.sp != 'nan' and w.sp != 'nan' and gv >= wv
            return self.decide(c, Obligation(ob.name, 'true', ok=ok,
                                             detail='got %r, expected %r' % (g, w)))
        d = g.p - w.p
        neg = Cons(d, '!=') if ob.kind == 'eq' else Cons(d.scale(-1), '>')
        t = neg.trivial()
        if t is False:
            self.discharged += 1
            self.syntactic += 1
            return 'ok'
        r = c.check([neg])[0] if t is None else 'sat'
        if r == 'unsat':
            self.discharged += 1
            return 'ok'
        # exact equality refuted (or open): is the difference larger than the
        # tolerance of the claim?
        rt = Fraction(ob.rtol) * 3
        at = Fraction(ob.atol) * 3
        if r == 'sat' or r == 'unknown':
            sig = self.significant(d, g.p, w.p, rt, at, ob.kind)
            rs = self.check_many(c, sig)
            if rs == 'unsat' and (ob.rtol or ob.atol):
                self.discharged += 1
                self.within_tol += 1
                return 'ok'

            def target(ev):
                gv, wv = ev.poly(g.p), ev.poly(w.p)
                tol = float(rt) * max(abs(wv), abs(gv)) + float(at)
                return abs(gv - wv) > tol if ob.kind == 'eq' else gv < wv - tol
            n = 0
            for s in sig:
                for vals in self.models(c, s, tries=3):
                    n += 1
                    if self.report(vals, ob.name, 'solver model'):
                        return 'violated'
                    if n > self.o['maxrep']:
                        break
            for vals in limited(self.numeric_search(c, target), 12):
                if self.report(vals, ob.name, 'solver refuted, point found numerically'):
                    return 'violated'
            ob.detail = '%s/%s' % (r, rs)
        return 'unknown'

    def check_many(self, c, alts):
        """disjunction of alternatives"""
        res = 'unsat'
        for s in alts:
            r = c.check(s)[0]
            if r == 'sat':
                return 'sat'
            if r == 'unknown':
                res = 'unknown'
        return res

    def significant(self, d, g, w, rt, at, kind):
        """alternatives whose disjunction says |d| > rt*|w| + at"""
        out = []
        ds = (d, d.scale(-1)) if kind == 'eq' else (d.scale(-1),)
        ac = Poly.const(at)
        for s in ds:
            if rt == 0:
                out.append([Cons(s - ac, '>')])
            else:
                out.append([Cons(s - w.scale(rt) - ac, '>'), Cons(s + w.scale(rt) - ac, '>')])
        return out

    def decide_fp(self, c, ob, g, w):
        dt = val.promote(g.dt, w.dt)
        dt = val.concrete_dt(dt)
        x, y = val.tofp(g, dt), val.tofp(w, dt)
        if ob.kind == 'eq':
            # equal bits, or both NaN
            neg = z3.Not(x == y)
            if ob.rtol == 0 and ob.atol == 0:
                neg = z3.Not(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
                return self.decide_raw(c, ob, [RawCons(neg)], None)
            tol = val.fpconst(float(ob.rtol), dt)
            neg = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y),
                        z3.fpGT(z3.fpAbs(z3.fpSub(val.RNE, x, y)),
                                z3.fpAdd(val.RNE, z3.fpMul(val.RNE, tol, z3.fpAbs(y)),
                                         val.fpconst(float(ob.atol), dt))))
        else:
            neg = z3.Not(z3.fpGEQ(x, y))
        return self.decide_raw(c, ob, [RawCons(neg)], None)

    def decide_raw(self, c, ob, neg, _):
        r = c.check(neg)[0]
        if r == 'unsat':
            self.discharged += 1
            return 'ok'
        for vals in self.models(c, neg, tries=1):
            if self.report(vals, ob.name, 'solver model'):
                return 'violated'
        ob.detail = r
        return 'unknown'

    def witness(self, c, env):
        """a solver-chosen input of this path, through the real code"""
        def cand():
            yield from limited(self.models(c, [], tries=0, timeout_ms=1500), 1)
            yield from limited(self.numeric_search(c, None, n=60), 2)
            if not any(has_def(x) for x in c.facts):
                yield from limited(self.models(c, [], tries=1), 2)
        got = 0
        for vals in cand():
            rr = run_real(self.fn, vals)
            if rr.skipped:
                continue
            if rr.exc is not None or rr.failed:
                # the solver held the obligation; the real code fails it here
                self.report(vals, rr.failed[0].name if rr.failed else 'exception',
                            'path witness')
                return
            # compare the encoding's outputs with the real outputs
            ok = len(rr.env.obls) == len(env.obls)
            nd = 0.
            if ok and not any(isinstance(v, FV) for v in c.inputs.values()):
                vv = dict(vals)
                for k, x in rr.env.used.items():
                    vv[k] = x
                ranges = env.ranges
                for k in list(vv):
                    if k in ranges and ranges[k][3] == val.F32:
                        vv[k] = f32(vv[k])
                ev = Evaluator(vv)
                scale = {}
                for b in rr.env.obls:
                    if b.kind == 'eq' and isinstance(b.got, float) and abs(b.got) < 9000:
                        scale[b.name] = max(scale.get(b.name, 0.), abs(b.got))
                for a, b in zip(env.obls, rr.env.obls):
                    if a.kind != 'eq' or b.kind != 'eq' or a.name != b.name:
                        continue
                    g = lift(a.got)
                    if g is None or g.sp is not None or isinstance(g, FV):
                        continue
                    try:
                        x = ev.poly(g.p)
                        y = float(b.got)
                    except (NoEval, TypeError, OverflowError, ZeroDivisionError):
                        continue
                    self.compared += 1
                    d = abs(x - y) / (abs(x) + abs(y) + 1e-30)
                    if abs(x - y) > 0.02 * (abs(x) + abs(y)) + 10 * a.atol + \
                            1e-5 * scale.get(b.name, 0.) + 1e-12:
                        nd = max(nd, d)
            if nd > 0:
                self.mismatch = getattr(self, 'mismatch', []) + [(nd, vals)]
                continue
            self.validated += 1
            got += 1
            if len(self.samples) < 4:
                self.samples.append({'harness': self.name,
                                     'inputs': {k: v for k, v in list(vals.items())[:12]},
                                     'result': 'all obligations held on the real code'})
            return

    def concrete_probe(self, c, why):
        """a path the engine cannot finish: look at the real code for inputs of
        the path (never counts as decided)"""
        for vals in self.models(c, [], tries=3):
            if self.report(vals, None, why):
                return True
        return False

    def report(self, vals, obname, why):
        """replay on the real code; record if it fails there"""
        rr = run_real(self.fn, vals)
        if rr.skipped:
            return False
        if rr.exc is not None:
            nm, det = 'exception', '%s: %s' % (type(rr.exc).__name__, rr.exc)
            tb = rr.tb
        elif rr.failed:
            o = rr.failed[0]
            for f in rr.failed:
                if f.name == obname:
                    o = f
            nm, det = o.name, o.detail
            tb = None
        else:
            return False
        self.violations.append({'property': self.pid, 'harness': self.name,
                                'obligation': nm, 'detail': det,
                                'inputs': {k: jsonable(v) for k, v in rr.env.used.items()},
                                'how': why, 'traceback': tb})
        return True


def limited(it, n):
    for k, x in enumerate(it):
        if k >= n:
            return
        yield x


def jsonable(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def has_def(c):
    for p in c.polys():
        for a in p.atoms():
            if ATOMS.atoms[a].kind == 'DEF':
                return True
    return False


def clampf(x):
    return max(-3e38, min(3e38, x))


def val_cache_reset():
    stubs._cubic_cache.clear()
