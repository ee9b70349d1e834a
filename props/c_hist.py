"""C11 inputs left alone, no memory of earlier calls."""
import numpy as np
from .common import harness, rig, ff, coeffs, FakeResponse, W0, BASE, Cosmo
from .c_resp import quiet, BANDS, grid


class Args:
    """the arguments of a call, with snapshots"""

    def __init__(self, env):
        self.env = env
        self.kept = []

    def __call__(self, name, x):
        if isinstance(x, np.ndarray):
            self.kept.append((name, x, self.env.snapshot(x)))
        elif isinstance(x, list):
            self.kept.append((name, x, list(x)))
        return x

    def check(self):
        for n, x, s in self.kept:
            if isinstance(x, list):
                self.env.true(n + ' unchanged', len(x) == len(s) and
                              all(a is b for a, b in zip(x, s)))
            else:
                self.env.unchanged(n, x, s)


def data(env, tag, n, nb, nt, dtype=np.float32, ext=False):
    """data of n objects (n=0: one object given as a scalar)"""
    p = (n,) if n else ()
    d = {}
    if n:
        d['z'] = env.array(tag + 'z', n, 0., 2., nice=(0.1, 1.9), dtype=dtype)
        d['d'] = env.array(tag + 'd', n, 1e-8, 1e5, nice=(0.004, 900.), dtype=dtype)
    else:
        d['z'] = env.var(tag + 'z', 0., 2., nice=(0.1, 1.9), dtype=dtype)
        d['d'] = env.var(tag + 'd', 1e-8, 1e5, nice=(0.004, 900.), dtype=dtype)
    d['m'] = env.array(tag + 'm', p + (nb,), 0.1, 5., nice=(0.2, 4.), dtype=dtype)
    d['iv'] = env.array(tag + 'iv', p + (nb,), 0.1, 100., nice=(0.2, 9.), dtype=dtype)
    d['c'] = env.array(tag + 'c', p + (nt,), 0.01, 10., nice=(0.1, 2.), dtype=dtype)
    return d


def flat(env, x):
    """the arrays in a result"""
    if isinstance(x, dict):
        return [x[k] for k in sorted(x)]
    if isinstance(x, tuple):
        return list(x)
    return [x]


OPS = {
    'fit': lambda env, k, d, A: k.fit_coeffs(redshift=A('redshift', d['z']), maggies=A('maggies', d['m']),
                                             ivar=A('ivar', d['iv'])),
    'fit_mc': lambda env, k, d, A: k.fit_coeffs(redshift=A('redshift', d['z']), maggies=A('maggies', d['m']),
                                                ivar=A('ivar', d['iv']), mc=2),
    'reconstruct': lambda env, k, d, A: k.reconstruct(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c'])),
    'reconstruct_out': lambda env, k, d, A: k.reconstruct_out(redshift=A('redshift', d['z']),
                                                              coeffs=A('coeffs', d['c'])),
    'kcorrect': lambda env, k, d, A: k.kcorrect(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c']),
                                                band_shift=d.get('bs', 0.25)),
    'absmag': lambda env, k, d, A: k.absmag(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c']),
                                            maggies=A('maggies', d['m']), ivar=A('ivar', d['iv']),
                                            reconstruct=True, limit=True, kcorrect=True),
    'absmag_distance': lambda env, k, d, A: k.absmag(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c']),
                                                     maggies=A('maggies', d['m']), ivar=A('ivar', d['iv']),
                                                     distance=A('distance', d['d'])),
    'derived': lambda env, k, d, A: k.derived(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c'])),
    'derived_distance': lambda env, k, d, A: k.derived(redshift=A('redshift', d['z']), coeffs=A('coeffs', d['c']),
                                                       distance=A('distance', d['d'])),
}


def op_mc(env, k, d, A, absmag):
    cm = env.np.stack([d['c'], d['c'] * 2.], axis=-1)
    mm = env.np.stack([d['m'], d['m'] * 2.], axis=-1)
    if absmag:
        return k.absmag_mc(redshift=A('redshift', d['z']), coeffs_mc=A('coeffs_mc', cm),
                           maggies_mc=A('maggies_mc', mm), ivar=A('ivar', d['iv']), reconstruct=True,
                           kcorrect=True)
    return k.derived_mc(redshift=A('redshift', d['z']), coeffs_mc=A('coeffs_mc', cm))


OPS['absmag_mc'] = lambda env, k, d, A: op_mc(env, k, d, A, True)
OPS['derived_mc'] = lambda env, k, d, A: op_mc(env, k, d, A, False)
NAMES = sorted(OPS)


@harness('C11', 'inputs', must_cover=('i',), budget_s=300, weight=4)
def c11_inputs(env):
    """data handed to any method come back bit for bit, in both precisions"""
    dt = (np.float32, np.float64)[env.choice(2, 'dtype')]
    n = env.choice(3, 'n')
    op = NAMES[env.choice(len(NAMES), 'op')]
    cls, nb = (('Kcorrect', 2), ('KcorrectSDSS', 5), ('KcorrectGST', 10))[env.choice(3, 'cls')]
    names = ['b%d' % i for i in range(nb)]
    g = rig(env, responses=names, nt=1, nz=2, cls=cls, abcorrect=cls != 'Kcorrect',
            sym_tables=('b0',), symt=False)
    d = data(env, '', n, nb, 1, dt)
    odd = env.choice(4, 'unmeasured')
    if odd:
        # what a catalogue holds where there is no measurement
        for i in range(max(n, 1)):
            k = (i, 0) if n else 0
            d['m'][k] = env.num((0., float('nan'), -9999.)[odd - 1])
            d['iv'][k] = env.num(0.)
    A = Args(env)
    r = OPS[op](env, g.kc, d, A)
    A.check()
    env.true('result', len(flat(env, r)) > 0)
    env.same('names', np.arange(nb), np.array([int(x[1:]) for x in g.kc.responses]))
    env.true('redshift of the templates', float(g.tmpl.redshift) == 0.)
    env.cover('i')


@harness('C11', 'utilities', must_cover=('u',), budget_s=300, weight=2)
def c11_utilities(env):
    """the same for the utilities and corrections, which also repeat"""
    U = env.kc.utils
    dt = (np.float32, np.float64)[env.choice(2, 'dtype')]
    n = env.choice(3, 'n')
    p = (n,) if n else ()
    what = env.choice(8, 'what')
    nb = 10 if what == 3 else 5
    m = env.array('m', p + (nb,), 0.1 if what == 4 else -5., 5., nice=(0.2, 4.), dtype=dt)
    iv = env.array('iv', p + (nb,), 0.1, 100., nice=(0.2, 9.), dtype=dt)
    # what may be left out
    less = env.choice(2, 'less') if what != 4 else 0
    A = Args(env)
    A('maggies', m)
    A('ivar', iv)
    if what == 0:
        fix = [-0.036, 0.012, 0.010, 0.028, 0.040] if env.choice(2, 'usual') else \
            [0.3, -0.2, 0., 5., -0.01]
        fix = A('abfix', env.arr(fix) if env.choice(2, 'abfix') else fix)
        if less:
            f = lambda: U.sdss_ab_correct(maggies=m, abfix=fix)
        else:
            f = lambda: U.sdss_ab_correct(maggies=m, ivar=iv, abfix=fix)
    elif what == 1:
        if less:
            f = lambda: U.sdss_ab_correct(maggies=m)
        else:
            f = lambda: U.sdss_ab_correct(maggies=m, ivar=iv)
    elif what in (2, 3):
        g = rig(env, responses=['b%d' % i for i in range(nb)], nt=1, nz=2,
                cls='KcorrectSDSS' if what == 2 else 'KcorrectGST', abcorrect=True,
                sym_tables=False, symt=False)
        if not less:
            f = lambda: g.kc.to_ab(maggies=m, ivar=iv)
        else:
            f = lambda: g.kc.to_ab(maggies=m)
    elif what == 4:
        fl = A('floor', env.array('fl', 5, 0.01, 0.5, nice=(0.05, 0.3), dtype=dt))
        mm = m.copy()
        ii = iv.copy()
        for k in range(1, 5):
            mm[..., k] = 1.5
            ii[..., k] = 4. * k
        A('maggies', mm)
        A('ivar', ii)
        f = lambda: U.error_floor(floor=fl, maggies=mm, ivar=ii)
    elif what == 5:
        ext = A('extinction', env.array('e', p + (5,), 0., 1., nice=(0.1, 0.9), dtype=dt))
        if less:
            f = lambda: U.sdss_asinh_to_maggies(mag=m, extinction=ext)
        else:
            f = lambda: U.sdss_asinh_to_maggies(mag=m, mag_err=iv, extinction=ext)
    elif what == 6:
        if less:
            f = lambda: U.sdss_asinh_to_maggies(mag=m)
        else:
            f = lambda: U.sdss_asinh_to_maggies(mag=m, mag_err=iv)
    else:
        rd = env.kc.response.ResponseDict()
        for k in range(5):
            dict.__setitem__(rd, 'b%d' % k, FakeResponse(env, 'b', [0.], [[1.]], lam=3000. + 500. * k))
        names = A('responses', ['b%d' % k for k in range(5)])
        if less:
            f = lambda: U.maggies2flambda(maggies=m, responses=names)
        else:
            f = lambda: U.maggies2flambda(maggies=m, ivar=iv, responses=names)
    r = flat(env, f())
    s = [env.snapshot(x) for x in r]
    A.check()
    q = flat(env, f())
    env.true('number of results', len(q) == len(r))
    for x, y, z in zip(r, s, q):
        env.same('repeated', z, y, rtol=0)
        env.same('first result kept', x, y, rtol=0)
    A.check()
    env.cover('u')


def disturb(env, g, h, k, d2):
    """something else that happens in between"""
    if k < len(NAMES):
        OPS[NAMES[k]](env, g.kc, d2, Args(env))
        return
    k -= len(NAMES)
    if k == 0:
        env.raises('refused', ValueError, lambda: g.kc.reconstruct(redshift=env.num(5.), coeffs=d2['c'][0]))
    elif k == 1:
        env.raises('refused', ValueError, lambda: g.kc.fit_coeffs(redshift=d2['z'], maggies=d2['m'][:, :1],
                                                                  ivar=d2['iv']))
    elif k == 2:
        g.kc.fit_coeffs(redshift=env.num(5.), maggies=d2['m'][0], ivar=d2['iv'][0])
    elif k == 3:
        g.tmpl.set_redshift(0.75)
    elif k == 4:
        # another object over the same templates and bands
        env.kc.kcorrect.Kcorrect(responses=['B', 'A'], templates=g.tmpl, redshift_range=[0., 2.],
                                 nredshift=3, cosmo=g.cosmo)
    elif k == 5:
        env.raises('refused', Exception, lambda: env.kc.kcorrect.Kcorrect(
            responses=['A', 'B'], templates=g.tmpl, responses_map=['A', 'C'], redshift_range=[0., 2.],
            nredshift=3))
    elif k == 6:
        env.kc.utils.sdss_ab_correct(maggies=env.arr([1.] * 5), abfix=[0.1] * 5)
        g.kc.to_ab(maggies=d2['m'])
    else:
        h.kc.fit_coeffs(redshift=d2['z'], maggies=d2['m'][:, :1], ivar=d2['iv'][:, :1])
        h.kc.kcorrect(redshift=d2['z'], coeffs=d2['c'][:, :1])


@harness('C11', 'histories', must_cover=('h',), budget_s=400, weight=6)
def c11_histories(env):
    """the same call before and after something else gives the same numbers, and
    the earlier result is not altered"""
    a = env.choice(len(NAMES), 'op')
    b = env.choice(len(NAMES) + 8, 'between')
    n = 2 * env.choice(2, 'n')
    out = (None, ('C', 'A', 'B'))[env.choice(2, 'outs')]
    g = rig(env, responses=('A', 'B'), out=out, rmap=None if out is None else ('B', 'A', 'A'),
            nt=2, nz=3, zr=(0., 2.), sym_tables=False, symt=False)
    h = rig(env, responses=('A',), nt=1, nz=3, zr=(0., 2.), sym_tables=False, symt=False) \
        if b == len(NAMES) + 7 else None
    if h is not None:
        for q in g.resp:
            dict.__setitem__(env.kc.response.ResponseDict(), q, g.resp[q])
    # concrete redshifts: what matters here is what is remembered
    d = data(env, 'a', n, 2, 2)
    d2 = data(env, 'b', 2, 2, 2)
    d['z'] = env.arr([0.4, 1.3]) if n else env.num(0.4)
    d2['z'] = env.arr([1.7, 0.2])
    f = lambda: flat(env, OPS[NAMES[a]](env, g.kc, d, Args(env)))
    if 'fit' in NAMES[a]:
        # least squares: the optimum as a function of its arguments
        d['m'] = env.arr([[1., 2.], [3., 1.]] if n else [1., 2.])
        d['iv'] = env.arr([[4., 1.], [1., 2.]] if n else [4., 1.])
    if b < len(NAMES) and 'fit' in NAMES[b] or b == len(NAMES) + 7:
        d2['m'] = env.arr([[2., 2.], [1., 3.]])
        d2['iv'] = env.arr([[1., 1.], [3., 2.]])
    env.seed(1)
    r = f()
    s = [env.snapshot(x) for x in r]
    disturb(env, g, h, b, d2)
    for x, y in zip(r, s):
        env.same('earlier result kept', x, y, rtol=0)
    env.seed(1)
    q = f()
    env.true('number of results', len(q) == len(r))
    for x, y in zip(s, q):
        env.same('same again', y, x, rtol=1e-6, atol=1e-6)
    env.cover('h')


CHANGES = ('z near', 'z', 'm', 'iv', 'c', 'd', 'bs', 'in place', 'size', 'cosmology')


@harness('C11', 'neighbours', must_cover=('n',), budget_s=400, weight=5)
def c11_neighbours(env):
    """after the same call for slightly or partly different data - also in the very
    same arrays - the results are those of an object that was never used"""
    op = NAMES[env.choice(len(NAMES), 'op')]
    how = CHANGES[env.choice(len(CHANGES), 'change')]
    n = 2 * env.choice(2, 'n')
    if not n and how in ('in place', 'size'):
        n = 1
    gs = [rig(env, responses=('A', 'B'), out=('B', 'A', 'C'), rmap=('B', 'A', 'A'), nt=2, nz=3, zr=(0., 2.),
              sym_tables=False, symt=False, solar={'A': 4.5, 'B': 5.25, 'C': 4.}) for _ in range(2)]
    fit = 'fit' in op

    def fixed(sc):
        # one configuration in concrete numbers (fits), or with arbitrary data
        q = data(env, 'a%g' % sc, n, 2, 2)
        if fit:
            q['m'] = env.arr([[1. * sc, 2.], [3. * sc, 1.]][:n] if n else [1. * sc, 2.])
            q['iv'] = env.arr([[4., 1. * sc], [1., 2. * sc]][:n] if n else [4., 1. * sc])
        q['z'] = env.arr([0.4, 1.3][:n]) if n else env.num(0.4)
        return q
    d = fixed(1.)
    e = dict(d)
    if how == 'z near':
        dz = (1e-6, 1e-5, 1e-3)[env.choice(3, 'dz')]
        e['z'] = env.arr([0.4 + dz, 1.3][:n]) if n else env.num(0.4 + dz)
    elif how == 'z':
        e['z'] = env.arr([1.25, 1.3][:n]) if n else env.num(1.25)
    elif how == 'bs':
        e['bs'] = 0.125
    elif how in ('m', 'iv', 'c', 'd'):
        e[how] = fixed(1.5)[how]
    elif how == 'in place':
        # the caller fills the same arrays again
        b = fixed(1.5)
        e = {k: v.copy() for k, v in b.items()}
    elif how == 'size':
        e = {k: (v[:1] if getattr(v, 'ndim', 0) else v) for k, v in d.items()}
        d, e = (d, e) if env.choice(2, 'smaller first') else (e, d)
    if how == 'cosmology':
        gs[0].kc.cosmo = Cosmo(env, 40., 1.5)
    A = Args(env)
    env.seed(1)
    OPS[op](env, gs[0].kc, e, A)
    gs[0].kc.cosmo = gs[1].kc.cosmo
    if how == 'in place':
        for k in e:
            e[k][...] = d[k]
        d = e
    env.seed(2)
    r = flat(env, OPS[op](env, gs[0].kc, d, Args(env)))
    env.seed(2)
    q = flat(env, OPS[op](env, gs[1].kc, d, Args(env)))
    env.true('number of results', len(q) == len(r))
    for x, y in zip(r, q):
        env.same('as a fresh object', x, y, rtol=2e-7)
    env.cover('n')


@harness('C11', 'objects', must_cover=('o',), budget_s=300, weight=2)
def c11_objects(env):
    """two objects sharing templates, bands and the dictionary do not affect each
    other; the lists given to a constructor are left alone"""
    low = env.choice(2, 'low')
    T = ((0., 0.5)[low], 2.)
    w0, f0 = W0, BASE[:2]
    g = rig(env, responses=('A', 'B', 'C'), nt=2, nz=3, zr=T, symt=False, build=False,
            interpolate=bool(env.choice(2, 'interpolate')))
    K = env.kc.kcorrect.Kcorrect
    A = Args(env)
    r1, r2 = A('responses', ['A', 'B']), A('responses', ['C', 'A'])
    o1, m1 = ((['C', 'B'], ['B', 'A']), (['C'], ['A']), (['C', 'C', 'A'], ['B', 'A', 'A']))[env.choice(3, 'out')]
    wo, wm = list(o1), list(m1)
    A('responses_out', o1)
    A('responses_map', m1)
    # also a range that does not include redshift zero
    zr = A('range', [(0., 0.5)[low], 2.])
    k1 = K(responses=r1, templates=g.tmpl, responses_out=o1, responses_map=m1, redshift_range=zr,
           nredshift=3, cosmo=g.cosmo)
    z = env.num(1.25)
    c = coeffs(env, 'c', 2)
    f = lambda k: (k.reconstruct(redshift=z, coeffs=c), k.reconstruct_out(redshift=z, coeffs=c))
    a = f(k1)
    k2 = K(responses=r2, templates=g.tmpl, redshift_range=zr, nredshift=3, cosmo=g.cosmo)
    b = f(k2)
    if env.choice(2, 'save'):
        k1.tofits(filename=env.tmpfile('k.fits'))
    a2 = f(k1)
    A.check()
    for x, y in zip(a, a2):
        env.same('first object', y, x, rtol=1e-6)
    env.eq('same band, same model', b[0][1], a[0][0], rtol=1e-5)
    env.eq('same band, same model', b[0][0], a[1][0], rtol=1e-5)
    env.true('templates as they were', float(g.tmpl.redshift) == 0.)
    env.same('templates as they were', g.tmpl.wave, env.arr(w0), rtol=1e-6)
    env.same('templates as they were', g.tmpl.flux, env.arr(f0), rtol=1e-6)
    env.true('own bands', list(k1.responses) == ['A', 'B'] and list(k1.responses_out) == wo and
             list(k1.responses_map) == wm and list(k2.responses) == ['C', 'A'] and
             list(k2.responses_out) == ['C', 'A'])
    env.true('maps', [int(i) for i in k1.imap] == [['A', 'B'].index(x) for x in wm] and [int(i) for i in k2.imap] == [0, 1])
    env.true('cosmology', k1.cosmo is g.cosmo and k2.cosmo is g.cosmo)
    env.cover('o')


@harness('C11', 'rebuild', must_cover=('band', 'templates', 'order'), weight=1)
def c11_rebuild(env):
    """an object made after a band or the templates have changed is that of the new
    ones, and the one made before is not affected"""
    what = env.choice(3, 'what')
    out = env.choice(2, 'out')
    g = rig(env, responses=('A', 'B'), out=('C',) if out else None, rmap=('B',) if out else None,
            nt=2, nz=3, symt=False, build=False, interpolate=bool(env.choice(2, 'interpolate')),
            sym_tables=('A', 'C'))
    make = lambda: env.kc.kcorrect.Kcorrect(
        responses=list(g.responses), templates=g.tmpl, responses_out=g.out, responses_map=g.rmap,
        redshift_range=[0., 2.], nredshift=3, cosmo=g.cosmo)
    k1 = make()
    at = [(M, q) for q in range(3) for M in ('Amatrix', 'AmatrixOut')]
    before = [getattr(k1, M)(np.float32(g.zs[q])) for M, q in at]
    tab = {n: [list(r) for r in g.table[n]] for n in g.table}
    if what == 0:        # another band of that name
        n = 'C' if out else 'A'
        tab[n] = [[env.var('new%d_%d' % (q, j), 0.1, 10., nice=(0.5, 2.)) for j in range(2)]
                  for q in range(3)]
        dict.__setitem__(env.kc.response.ResponseDict(), n,
                         FakeResponse(env, n, g.zs, tab[n], solar=4.5))
    elif what == 1:      # the templates in another order
        g.tmpl.restframe_flux = env.arr(BASE[:2][::-1])
        g.tmpl.set_redshift(0.)
        tab = {n: [r[::-1] for r in tab[n]] for n in tab}
    else:                # the bands in another order
        g.responses = ['B', 'A']
    k2 = make()
    for (M, q), x in zip(at, before):
        names = g.responses if M == 'Amatrix' else (g.out or g.responses)
        y = getattr(k2, M)(np.float32(g.zs[q]))
        env.shape('shape', y, (len(names), 2))
        for b, n in enumerate(names):
            for j in range(2):
                env.eq('new object', y[b, j], tab[n][q][j], rtol=1e-5)
        env.same('old object', getattr(k1, M)(np.float32(g.zs[q])), x, rtol=0)
    env.cover(('band', 'templates', 'order')[what])


@harness('C11', 'bands', must_cover=('b',), budget_s=300, weight=2)
def c11_bands(env):
    """projecting leaves spectrum and band alone and does not remember earlier
    spectra; arrays given to constructors are left alone"""
    R = quiet(env, fwhm=False)
    A = Args(env)
    w, p = np.array(BANDS['mid'][0]), np.array(BANDS['mid'][1])
    order = np.array([3, 1, 0, 2, 6, 5, 4])
    if env.choice(2, 'unsorted'):
        w, p = w[order], p[order]
    A('wave', w)
    A('response', p)
    r = R(wave=w, response=p)
    A.check()
    sw = A('spectrum wave', env.arr(grid(3000., 7000., 9)))
    f1 = A('flux', env.array('f', (2, 9), 0., 10., nice=(0.5, 2.)))
    sw2 = env.arr(grid(2000., 9000., 12))
    f2 = env.array('g', (12,), 0., 10., nice=(0.5, 2.))
    how = env.choice(2, 'how')
    if how:
        s = env.kc.template.SED(wave=sw, flux=f1)
        call = lambda: r.project(sed=s)
    else:
        call = lambda: r.project(wave=sw, flux=f1)
    a = call()
    b = env.snapshot(a)
    rw, rp = env.snapshot(r.wave), env.snapshot(r.response)
    r.project(wave=sw2, flux=f2)
    env.same('earlier result kept', a, b, rtol=0)
    env.same('same again', call(), b, rtol=1e-9)
    env.same('band', r.wave, rw, rtol=0)
    env.same('band', r.response, rp, rtol=0)
    A.check()
    env.cover('b')
