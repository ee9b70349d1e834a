"""C12 mismatched inputs are refused, matching ones accepted: symbolic shapes."""
import numpy as np
from .common import harness, rig
from .c_resp import quiet


HI = 200          # lengths 0..HI
FIX = 3           # lengths (besides 5 and 10) for which the code is run on


class Sh:
    """symbolic shape; ``arr`` is what the code gets"""

    def __init__(self, env, name, ndims, claim, dtype=np.float32, hi=HI, nice=(0, 4),
                 lo=0, step=0.):
        self.env, self.name, self.ndims, self.claim = env, name, ndims, claim
        self.hi, self.nice, self.lo, self.step = hi, nice, lo, step
        self._d = None
        self._fixed = None
        if env.symbolic:
            from symk.snp import SymShaped
            self.arr = SymShaped(self, dtype)
        else:
            d = self.dims()
            self.arr = np.dtype(dtype).type(0.5)
            if len(d):
                self.arr = np.full(d, 0.5, dtype=dtype)
                for i in range(d[-1]):
                    self.arr[..., i] += step * i

    def dims(self):
        if self._d is None:
            env = self.env
            k = env.choice(len(self.ndims), 'ndim_' + self.name) if len(self.ndims) > 1 else 0
            self._d = tuple(env.var('len_%s_%d' % (self.name, i), self.lo, self.hi, nice=self.nice,
                                    dtype=np.int64, integer=True) for i in range(self.ndims[k]))
            if not env.symbolic:
                self._d = tuple(int(x) for x in self._d)
                if 0 in self._d:
                    env.empty = True
            else:
                from symk.val import retype, WI
                self._d = tuple(retype(x, WI) for x in self._d)
        return self._d

    def fix(self):
        if self._fixed is None:
            out = []
            for d in self.dims():
                out.append(fixed(d, self.claim))
            self._fixed = tuple(out)
        return self._fixed

    @property
    def nd(self):
        return len(self.dims())


def is_num(d):
    return not hasattr(d, 'p') or d.p.is_const()


def num_of(d):
    return int(d.p.const_value()) if hasattr(d, 'p') else int(d)


def leave(ok):
    """the code goes on to use arrays of lengths beyond those explored"""
    from symk.snp import Accepted
    from symk.core import ctx, PathInfeasible
    if ok:
        raise Accepted()
    ctx().abort(PathInfeasible())


def fixed(v, claim):
    """value of a length the code needs to know (1..FIX, 5 and 10 explored)"""
    if is_num(v):
        return num_of(v)
    ok = claim()
    for k in tuple(range(1, FIX + 1)) + (5, 10):
        if v == k:
            return k
    leave(ok)


def outcome(env, f, excs=(ValueError,)):
    """'ok', 'refused' or the name of another exception"""
    if env.symbolic:
        from symk.snp import Accepted
    else:
        class Accepted(BaseException):
            pass
    try:
        f()
    except Accepted:
        return 'ok'
    except excs:
        return 'refused'
    except Exception as e:
        return '%s(%s)' % (type(e).__name__, e)
    return 'ok'


def judge(env, what, f, claim, excs=(ValueError,)):
    if env.symbolic:
        from symk.core import ctx
        ctx().lets['concretise'] = lambda v: fixed(v, claim)
    r = outcome(env, f, excs)
    if env.symbolic:
        ctx().lets.pop('concretise')
    c = bool(claim())
    want = 'ok' if c else 'refused'
    env.cover(want)
    if c and getattr(env, 'empty', False):
        r = want                # no object at all: outside
    env.true('%s: %s' % (what, want), r == want, 'shapes %s, was: %s' %
             ('fit' if c else 'do not fit', r))


def one(env, z, z2=None):
    """redshift 0- or 1-dimensional"""
    return z.nd <= 1


def fits(z, a, n):
    """a has one row of n values per redshift"""
    if z.nd == 0:
        if a.nd != 1:
            return False
        return a.dims()[0] == n
    if z.nd != 1 or a.nd != 2:
        return False
    if a.dims()[0] == z.dims()[0]:
        return a.dims()[1] == n
    return False


EX = (ValueError, TypeError)
COV = dict(must_cover=('ok', 'refused'))
ND = (0, 1, 2, 3)


def shapes(env, which, nb, nt, nd=ND):
    """symbolic shapes of the named arguments, and the claim"""
    S = {}

    def claim():
        z = S['z']
        if z.nd > 1:
            return False
        for k, n in (('m', nb), ('iv', nb), ('c', nt)):
            if k in S and not fits(z, S[k], n):
                return False
        if 'd' in S:
            d = S['d']
            if d.nd != z.nd:
                return False
            if z.nd and not d.dims()[0] == z.dims()[0]:
                return False
        return True
    for k in which:
        S[k] = Sh(env, k, nd, claim)
    return S, claim


def method(name, which, call, cls='Kcorrect', nb=2, nt=3, nd=ND, kw=None):
    @harness('C12', name, **COV)
    def h(env):
        g = rig(env, responses=list('ABCDEFGHIJ')[:nb], nt=nt, nz=2, sym_tables=False,
                solar='none', symt=False, cls=cls, **(kw or {}))
        S, claim = shapes(env, which, nb, nt, nd)
        judge(env, name, lambda: call(g.kc, **{k: v.arr for k, v in S.items()}), claim, EX)
    h.__doc__ = '%s() on %s of any shape' % (name, ', '.join(which))
    return h


method('fit_coeffs', ('z', 'm', 'iv'),
       lambda k, z, m, iv: k.fit_coeffs(redshift=z, maggies=m, ivar=iv))
method('fit_coeffs_mc', ('z', 'm', 'iv'),
       lambda k, z, m, iv: k.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=2))
method('reconstruct', ('z', 'c'), lambda k, z, c: k.reconstruct(redshift=z, coeffs=c))
method('reconstruct_out', ('z', 'c'),
       lambda k, z, c: k.reconstruct_out(redshift=z, coeffs=c, band_shift=0.1))
method('kcorrect', ('z', 'c'), lambda k, z, c: k.kcorrect(redshift=z, coeffs=c))
method('derived', ('z', 'c'), lambda k, z, c: k.derived(redshift=z, coeffs=c))
method('absmag', ('z', 'm', 'iv', 'c'),
       lambda k, z, m, iv, c: k.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c))
method('sdss_fit', ('z', 'm', 'iv'),
       lambda k, z, m, iv: k.fit_coeffs(redshift=z, maggies=m, ivar=iv),
       cls='KcorrectSDSS', nb=5, kw=dict(abcorrect=True))
method('gst_fit', ('z', 'm', 'iv'),
       lambda k, z, m, iv: k.fit_coeffs(redshift=z, maggies=m, ivar=iv),
       cls='KcorrectGST', nb=10, kw=dict(abcorrect=True))


@harness('C12', 'absmag_distance', **COV)
def absmag_distance(env):
    """absmag(distance=...) on arguments of any shape"""
    g = rig(env, nt=3, nz=2, sym_tables=False, solar='none', symt=False)
    S, claim = shapes(env, ('z', 'm', 'iv', 'c', 'd'), 2, 3, (0, 1, 2))
    judge(env, 'absmag', lambda: g.kc.absmag(redshift=S['z'].arr, maggies=S['m'].arr,
                                             ivar=S['iv'].arr, coeffs=S['c'].arr,
                                             distance=S['d'].arr), claim, EX)


@harness('C12', 'derived_distance', **COV)
def derived_distance(env):
    """derived(distance=...) on arguments of any shape"""
    g = rig(env, nt=3, nz=2, sym_tables=False, solar='none', symt=False)
    S, claim = shapes(env, ('z', 'c', 'd'), 2, 3, (0, 1, 2))
    judge(env, 'derived', lambda: g.kc.derived(redshift=S['z'].arr, coeffs=S['c'].arr,
                                               distance=S['d'].arr), claim, EX)


def same_shape(a, b):
    if a.nd != b.nd:
        return False
    return all(bool(x == y) for x, y in zip(a.dims(), b.dims()))


@harness('C12', 'mc', must_cover=('ok', 'refused', 'derived_mc', 'absmag_mc'), budget_s=200)
def mc_shapes(env):
    """absmag_mc() and derived_mc(): every array right, or one of them with a
    dimension too short, too long or missing"""
    g = rig(env, nt=3, nz=2, sym_tables=False, solar='none', symt=False)
    n = (None, 1, 2)[env.choice(3, 'n')]
    mc = 2
    pre = () if n is None else (n,)
    dist = env.choice(2, 'distance')
    op = ('derived_mc', 'absmag_mc')[env.choice(2, 'op')]
    want = {'c': pre + (3, mc)}
    if op == 'absmag_mc':
        want.update(m=pre + (2, mc), iv=pre + (2,))
    if dist:
        want['d'] = pre
    who = [None] + sorted(want)
    w = who[env.choice(len(who), 'wrong')]
    ok = True
    if w is not None:
        s = list(want[w])
        fix = 1 if w in 'mc' else 0
        ax = env.choice(max(len(s) - fix, 1), 'axis')
        how = env.choice(3, 'how')
        if how == 2:
            s = s[1:] if s else [2]
        elif len(s) <= fix:
            return
        else:
            s[ax] += (1, -1)[how]
        if 0 in s:
            return
        ok = False
        want[w] = tuple(s)
    A = {k: np.ones(v, dtype=np.float32) for k, v in want.items()}
    z = np.float32(0.5) if n is None else np.float32([0.25, 0.5][:n])
    A = {k: env.arr(v) if v.shape else env.num(1.) for k, v in A.items()}
    z = env.arr(z) if n is not None else env.num(0.5)
    kw = dict(redshift=z, coeffs_mc=A['c'])
    if dist:
        kw['distance'] = A['d']
    if op == 'absmag_mc':
        kw.update(maggies_mc=A['m'], ivar=A['iv'])
    r = outcome(env, lambda: getattr(g.kc, op)(**kw), EX)
    exp = 'ok' if ok else 'refused'
    env.cover(exp)
    env.cover(op)
    env.true('%s: %s' % (op, exp), r == exp, '%s of shape %s, was: %s' % (w, want.get(w), r))


@harness('C12', 'error_floor', **COV)
def error_floor(env):
    """error_floor() on arguments of any shape"""
    S = {}

    def claim():
        m = S['m'].dims()
        return bool(m[-1] == S['f'].dims()[0]) and same_shape(S['m'], S['iv'])
    S['f'] = Sh(env, 'f', (1,), claim)
    S['m'] = Sh(env, 'm', (1, 2), claim)
    S['iv'] = Sh(env, 'iv', (1, 2), claim)
    judge(env, 'error_floor', lambda: env.kc.utils.error_floor(
        floor=S['f'].arr, maggies=S['m'].arr, ivar=S['iv'].arr), claim)


@harness('C12', 'sdss_ab_correct', **COV)
def sdss_ab_correct(env):
    """sdss_ab_correct() on maggies, ivar and abfix of any shape"""
    S = {}
    iv = env.choice(2, 'iv')
    fx = env.choice(2, 'fix')

    def claim():
        if fx and not (S['f'].nd == 1 and bool(S['f'].dims()[0] == 5)):
            return False
        return bool(S['m'].dims()[-1] == 5) and (not iv or same_shape(S['m'], S['iv']))
    kw = {}
    S['m'] = Sh(env, 'm', (1, 2, 3), claim, nice=(0, 5))
    kw['maggies'] = S['m'].arr
    if iv:
        S['iv'] = Sh(env, 'iv', (1, 2, 3), claim, nice=(0, 5))
        kw['ivar'] = S['iv'].arr
    if fx:
        S['f'] = Sh(env, 'f', (0, 1, 2), claim, nice=(0, 5))
        kw['abfix'] = S['f'].arr
    judge(env, 'sdss_ab_correct', lambda: env.kc.utils.sdss_ab_correct(**kw), claim)


@harness('C12', 'asinh', **COV)
def asinh(env):
    """sdss_asinh_to_maggies() on arguments of any shape"""
    S = {}
    er = env.choice(2, 'err')
    ex = env.choice(2, 'ext')

    def claim():
        if ex and not same_shape(S['m'], S['x']):
            return False
        return bool(S['m'].dims()[-1] == 5) and (not er or same_shape(S['m'], S['e']))
    kw = {}
    S['m'] = Sh(env, 'm', (1, 2), claim, nice=(0, 5))
    kw['mag'] = S['m'].arr
    if er:
        S['e'] = Sh(env, 'e', (1, 2), claim, nice=(0, 5))
        kw['mag_err'] = S['e'].arr
    if ex:
        S['x'] = Sh(env, 'x', (1, 2), claim, nice=(0, 5))
        kw['extinction'] = S['x'].arr
    judge(env, 'sdss_asinh_to_maggies', lambda: env.kc.utils.sdss_asinh_to_maggies(**kw), claim)


@harness('C12', 'fit_asinh', **COV)
def fit_asinh(env):
    """fit_coeffs_asinh() on arguments of any shape"""
    g = rig(env, responses=list('ABCDE'), nt=2, nz=2, sym_tables=False, solar='none',
            symt=False, cls='KcorrectSDSS', abcorrect=False)
    S = {}

    def claim():
        return fits(S['z'], S['m'], 5) and same_shape(S['m'], S['e'])
    S['z'] = Sh(env, 'z', (0, 1, 2), claim, nice=(0, 5))
    S['m'] = Sh(env, 'm', (1, 2), claim, nice=(0, 5))
    S['e'] = Sh(env, 'e', (1, 2), claim, nice=(0, 5))
    judge(env, 'fit_coeffs_asinh', lambda: g.kc.fit_coeffs_asinh(
        redshift=S['z'].arr, mag=S['m'].arr, mag_err=S['e'].arr), claim, EX)


@harness('C12', 'project', **COV)
def project(env):
    """Response.project() on wavelengths and fluxes of any shape"""
    quiet(env)
    r = env.kc.response.Response(wave=env.arr([0.2, 0.4, 0.6, 0.8]), response=env.arr([0., 1., 1., 0.]))
    S = {}

    def claim():
        w, f = S['w'], S['f']
        if w.nd != 1 or f.nd not in (1, 2):
            return False
        return bool(f.dims()[-1] == w.dims()[0])
    S['w'] = Sh(env, 'w', (0, 1, 2), claim, lo=4, nice=(4, 6), step=0.1)
    S['f'] = Sh(env, 'f', (1, 2, 3), claim, lo=1, nice=(1, 6))
    judge(env, 'project', lambda: r.project(wave=S['w'].arr, flux=S['f'].arr), claim)


@harness('C12', 'band_map', **COV)
def band_map(env):
    """band maps: as long as the output bands, and only input bands"""
    bands = ['A', 'B', 'C']
    nin = 1 + env.choice(3, 'nin')
    resp = bands[:nin]
    out = None
    if env.choice(2, 'out'):
        out = ['C', 'A', 'B', 'A'][:1 + env.choice(4, 'nout')]
    n = env.choice(5, 'nmap')
    rmap = None
    if n:
        rmap = [(bands + ['none'])[env.choice(4, 'map%d' % i)] for i in range(n if n < 4 else 3)]
    o = out or resp
    m = rmap or resp
    ok = len(m) == len(o) and all(x in resp for x in m)
    r = outcome(env, lambda: rig(env, responses=resp, out=out, rmap=rmap, nt=1, nz=2,
                                 sym_tables=False, solar='none', symt=False))
    env.cover('ok' if ok else 'refused')
    env.true('band map', r == ('ok' if ok else 'refused'), '%s %s %s: %s' % (resp, out, rmap, r))


@harness('C12', 'missing', must_cover=('band', 'redshift'))
def missing(env):
    """missing band files and missing redshifts are refused"""
    w = env.choice(6, 'what')
    if w == 0:
        quiet(env)
        f = env.kc.response.ResponseDict()
        r = outcome(env, lambda: f.load_response('no_such_band'))
        env.true('load_response', r == 'refused', r)
        env.true('nothing kept', 'no_such_band' not in f)
        env.cover('band')
        return
    if w == 1:
        quiet(env)
        g = rig(env, nt=1, nz=2, sym_tables=False, solar='none', symt=False, build=False)
        r = outcome(env, lambda: env.kc.kcorrect.Kcorrect(
            responses=['A', 'no_such_band'], templates=g.tmpl, nredshift=2, cosmo=g.cosmo))
        env.true('Kcorrect', r == 'refused', r)
        env.cover('band')
        return
    g = rig(env, responses=list('ABCDE'), nt=2, nz=2, sym_tables=False, solar='none',
            symt=False, cls='KcorrectSDSS')
    m, iv, c = env.arr([1.] * 5), env.arr([1.] * 5), env.arr([1., 2.])
    f = [lambda: g.kc.fit_coeffs(maggies=m, ivar=iv),
         lambda: g.kc.fit_coeffs_asinh(mag=m, mag_err=iv),
         lambda: g.kc.reconstruct(coeffs=c),
         lambda: g.kc.kcorrect(coeffs=c)][w - 2]
    r = outcome(env, f, EX)
    env.true('redshift', r == 'refused', r)
    env.cover('redshift')
