"""C08 AB corrections, C09 asinh magnitudes, C10 error floors, C21 fluxes in
physical units."""
import numpy as np
from . import common
from .common import harness, rig, Aspec, dot, ff, coeffs, mspec, FakeResponse

ABFIX = [-0.036, 0.012, 0.010, 0.028, 0.040]
B0 = [1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10]
SDSS = ('sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0')
GST = ('galex_FUV', 'galex_NUV') + SDSS + ('twomass_J', 'twomass_H', 'twomass_Ks')


# ------------------------------------------------------------------ C08

def abfac(env, b):
    return env.pow10(env.frac(ABFIX[b]) * env.frac(-0.4))


@harness('C08', 'sdss_ab_correct', must_cover=('ab',))
def c08_util(env):
    """fluxes are multiplied by 10^(-0.4 dm) and inverse variances divided by its
    square, whatever the shape; custom offsets too"""
    u = env.kc.utils
    n = env.choice(5, 'n')
    shape = ((5,), (1, 5), (2, 5), (2, 2, 5), (5, 5))[n]
    m = env.array('m', shape, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', shape, 0., 1e24, nice=(0.3, 4.))
    kw = {}
    fac = [abfac(env, b) for b in range(5)]
    if env.choice(2, 'custom'):
        fx = [env.var('fix%d' % b, -1., 1., nice=(-0.5, 0.5)) for b in range(5)]
        kw['abfix'] = env.arr(fx)
        fac = [env.pow10(x * env.frac(-0.4)) for x in fx]
    withiv = env.choice(2, 'ivar')
    if withiv:
        m2, iv2 = u.sdss_ab_correct(maggies=m, ivar=iv, **kw)
        env.shape('ivar shape', iv2, shape)
    else:
        m2 = u.sdss_ab_correct(maggies=m, **kw)
    env.shape('shape', m2, shape)
    for i in np.ndindex(*shape):
        env.eq('maggies', m2[i], ff(env, m[i]) * fac[i[-1]], rtol=1e-5)
        if withiv:
            env.eq('ivar', iv2[i], ff(env, iv[i]) / (fac[i[-1]] * fac[i[-1]]), rtol=1e-5)
    env.cover('ab')


@harness('C08', 'to_ab', must_cover=('sdss', 'gst', 'plain'))
def c08_toab(env):
    """per instrument: SDSS all five bands, GALEX+SDSS+2MASS only the SDSS ones,
    the generic object none"""
    cls = ('KcorrectSDSS', 'KcorrectGST', 'Kcorrect')[env.choice(3, 'class')]
    names = {'KcorrectSDSS': SDSS, 'KcorrectGST': GST, 'Kcorrect': ('A', 'B')}[cls]
    nb = len(names)
    g = rig(env, responses=names, cls=cls, nt=1, nz=2, symt=False, sym_tables=False,
            abcorrect=True)
    n = env.choice(2, 'n')
    shape = ((nb,), (2, nb))[n]
    m = env.array('m', shape, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', shape, 0., 1e24, nice=(0.3, 4.))
    ms, ivs = env.snapshot(m), env.snapshot(iv)
    first = {'KcorrectSDSS': 0, 'KcorrectGST': 2, 'Kcorrect': 99}[cls]
    fac = [abfac(env, b - first) if first <= b < first + 5 else env.frac(1) for b in range(nb)]
    withiv = env.choice(2, 'ivar')
    if withiv:
        m2, iv2 = g.kc.to_ab(maggies=m, ivar=iv)
    else:
        m2 = g.kc.to_ab(maggies=m)
    env.shape('shape', m2, shape)
    for i in np.ndindex(*shape):
        env.eq('maggies', m2[i], ff(env, ms[i]) * fac[i[-1]], rtol=1e-5)
        if withiv:
            env.eq('ivar', iv2[i], ff(env, ivs[i]) / (fac[i[-1]] * fac[i[-1]]), rtol=1e-5)
    env.unchanged('input maggies', m, ms)
    env.unchanged('input ivar', iv, ivs)
    env.cover({'KcorrectSDSS': 'sdss', 'KcorrectGST': 'gst', 'Kcorrect': 'plain'}[cls])


@harness('C08', 'once', must_cover=('fit', 'absmag', 'mc'), budget_s=300, weight=4)
def c08_once(env):
    """an object with the correction on, given native data, gives what an object
    with it off gives for corrected data: fits and absolute magnitudes"""
    cls = ('KcorrectSDSS', 'KcorrectGST')[env.choice(2, 'class')]
    names = SDSS if cls == 'KcorrectSDSS' else GST
    nb = len(names)
    first = 0 if cls == 'KcorrectSDSS' else 2
    g = rig(env, responses=names, cls=cls, nt=1, nz=2, symt=False, sym_tables=False, abcorrect=True)
    p = env.kc.kcorrect.Kcorrect(responses=g.responses, templates=g.tmpl, redshift_range=[0., 2.],
                                 nredshift=2, cosmo=g.cosmo)
    n = env.choice(3, 'n')
    z = env.var('z', 0., 2., nice=(0.1, 1.9))
    m = env.array('m', nb, 0.1, 5., nice=(0.1, 2.))
    iv = env.array('iv', nb, 0.1, 1e24, nice=(0.3, 4.))
    fac = [abfac(env, b - first) if first <= b < first + 5 else env.frac(1) for b in range(nb)]
    mc = env.arr([ff(env, m[b]) * fac[b] for b in range(nb)])
    ic = env.arr([ff(env, iv[b]) / (fac[b] * fac[b]) for b in range(nb)])
    if n == 0:
        z1, m1, i1, mc1, ic1 = z, m, iv, mc, ic
    else:
        z1, m1, i1 = env.arr([z] * n), env.arr([m] * n), env.arr([iv] * n)
        mc1, ic1 = env.arr([mc] * n), env.arr([ic] * n)
    c = coeffs(env, 'c', (n, 1) if n else 1)
    what = env.choice(4, 'what')
    if what == 3:
        r = []
        for o, mm, ii in ((g.kc, m1, i1), (p, mc1, ic1)):
            env.seed(1)
            r.append(o.fit_coeffs(redshift=z1, maggies=mm, ivar=ii, mc=2))
        for k in range(3):
            env.same('monte carlo fit %d' % k, r[0][k], r[1][k], rtol=1e-3, atol=1e-6)
        env.cover('mc')
    elif what == 0:
        a = g.kc.fit_coeffs(redshift=z1, maggies=m1, ivar=i1)
        b = p.fit_coeffs(redshift=z1, maggies=mc1, ivar=ic1)
        env.same('fit', a, b, rtol=1e-3)
        env.cover('fit')
    elif what == 1:
        a = g.kc.absmag(redshift=z1, maggies=m1, ivar=i1, coeffs=c, limit=True, reconstruct=True)
        b = p.absmag(redshift=z1, maggies=mc1, ivar=ic1, coeffs=c, limit=True, reconstruct=True)
        for k in range(3):
            env.same('absmag %d' % k, a[k], b[k], rtol=0, atol=1e-3)
        env.cover('absmag')
    else:
        for f in ('reconstruct', 'kcorrect'):
            a = getattr(g.kc, f)(redshift=z1, coeffs=c)
            b = getattr(p, f)(redshift=z1, coeffs=c)
            env.same(f, a, b, rtol=1e-4, atol=1e-5)


@harness('C08', 'asinh', must_cover=('asinh',))
def c08_asinh(env):
    """fitting asinh magnitudes = fitting their (extinction corrected) fluxes,
    AB corrected if and only if the object corrects"""
    ab = bool(env.choice(2, 'ab'))
    g = rig(env, responses=SDSS, cls='KcorrectSDSS', nt=1, nz=2, symt=False, sym_tables=False,
            abcorrect=ab)
    p = env.kc.kcorrect.Kcorrect(responses=g.responses, templates=g.tmpl, redshift_range=[0., 2.],
                                 nredshift=2, cosmo=g.cosmo)
    z = env.var('z', 0., 2., nice=(0.1, 1.9))
    n = env.choice(3, 'n')
    k = env.choice(5, 'band')
    mg, er, ex = [17., 18., 19., 17.5, 18.5], [.02, .03, .1, .05, .2], [.1, .2, .3, .4, .5]
    mg[k] = env.var('mag', 10., 26., nice=(15., 20.))
    er[k] = env.var('err', 0.01, 1., nice=(0.02, 0.3))
    ex[k] = env.var('ext', -0.5, 2., nice=(-0.3, 1.))

    def rows(v, o):
        return env.arr(v) if n == 0 else env.arr([v] if n == 1 else [o, v])
    mag = rows(mg, [18.] * 5)
    err = rows(er, [.05] * 5)
    ext = rows(ex, [.05] * 5)
    zz = env.arr([z] * n) if n else z
    a = g.kc.fit_coeffs_asinh(redshift=zz, mag=mag, mag_err=err, extinction=ext)
    # fluxes from the conversion itself (C09), so that only the plumbing is judged
    m, iv = env.kc.utils.sdss_asinh_to_maggies(mag=mag, mag_err=err, extinction=ext)
    if ab:
        m, iv = env.kc.utils.sdss_ab_correct(maggies=m, ivar=iv)
    b = p.fit_coeffs(redshift=zz, maggies=m, ivar=iv)
    env.same('coefficients', a, b, rtol=1e-3)
    env.cover('asinh')


@harness('C08', 'defaults', must_cover=('def',))
def c08_defaults(env):
    """an SDSS object corrects unless told not to; the others do not"""
    k = env.choice(3, 'class')
    cls, names, want = (('KcorrectSDSS', SDSS, True), ('KcorrectGST', GST, False),
                        ('Kcorrect', ('A', 'B'), False))[k]
    g = rig(env, responses=names, nt=1, nz=2, symt=False, sym_tables=False, build=False)
    C = getattr(env.kc.kcorrect, cls)
    kw = {} if k < 2 else dict(responses=list(names))
    o = C(templates=g.tmpl, redshift_range=[0., 2.], nredshift=2, cosmo=g.cosmo, **kw)
    env.true('abcorrect default', bool(o.abcorrect) is want)
    env.true('responses', list(o.responses) == list(names))
    env.true('output responses', list(o.responses_out) == list(names))
    # and the default has effect
    z = env.var('z', 0., 2., nice=(0.1, 1.9))
    nb = len(names)
    m = env.array('m', nb, 0.1, 5., nice=(0.1, 2.))
    iv = env.array('iv', nb, 0.1, 1e24, nice=(0.3, 4.))
    c = coeffs(env, 'c', 1)
    a = o.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c)
    kk = o.kcorrect(redshift=z, coeffs=c)
    for b in range(nb):
        off = env.frac(ABFIX[b]) if want else env.frac(0)
        env.eq('absmag', a[b], env.log10(m[b]) * -2.5 + off - g.cosmo.dm(z) - ff(env, kk[b]), rtol=0, atol=1e-3)
    env.cover('def')


@harness('C08', 'mc_chain', must_cover=('chain',))
def c08_mcchain(env):
    """the Monte Carlo fluxes a correcting object returns give, passed back to it
    for absolute magnitudes, magnitudes on the same system as the data"""
    g = rig(env, responses=SDSS, cls='KcorrectSDSS', nt=1, nz=2, symt=False, sym_tables=False,
            abcorrect=True)
    z = env.num(0.5)
    m = env.array('m', 5, 1., 2., nice=(1., 2.))
    m[1] = env.num(1.5)
    iv = env.arr([0.] * 5)
    iv[0] = env.num(1e4)
    c, cm, mm = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=1)
    # band 1 has no noise: its Monte Carlo flux is the flux
    iv2 = env.arr([1.] * 5)
    one = env.arr([[1.]])
    a = g.kc.absmag_mc(redshift=z, maggies_mc=mm, ivar=iv2, coeffs_mc=one)
    b = g.kc.absmag(redshift=z, maggies=m, ivar=iv2, coeffs=one[:, 0])
    env.eq('AB-correction-once', a[1, 0], b[1], rtol=0, atol=1e-3)
    env.cover('chain')


# ------------------------------------------------------------------ C09

@harness('C09', 'maggies', must_cover=('m',))
def c09_maggies(env):
    """f = 2 b sinh(-ln b - 0.4 ln10 mag) 10^(0.4 A); inverse variance from its
    derivative, scaled by the extinction too"""
    sh = ((5,), (1, 5), (2, 5), (5, 5))[env.choice(4, 'n')]
    mag = env.array('mag', sh, 0., 30., nice=(14., 26.))
    kw = {}
    if env.choice(2, 'err'):
        err = env.array('err', sh, 1e-4, 10., nice=(0.02, 0.3))
        kw['mag_err'] = err
    if env.choice(2, 'ext'):
        ext = env.array('ext', sh, -1., 5., nice=(-0.5, 1.))
        kw['extinction'] = ext
    r = env.kc.utils.sdss_asinh_to_maggies(mag=mag, **kw)
    if 'mag_err' in kw:
        env.true('two results', isinstance(r, tuple) and len(r) == 2)
        m, iv = r
        env.shape('ivar shape', iv, sh)
    else:
        m = r
    env.shape('shape', m, sh)
    for i in np.ndindex(*sh):
        b = env.frac(B0[i[-1]])
        q = env.pow10(mag[i] * env.frac(-0.4)) / b        # exp(-ln b - .4 ln10 mag)
        e = env.pow10(ext[i] * env.frac(0.4)) if 'extinction' in kw else env.frac(1)
        env.eq('maggies', m[i], b * (q - 1 / q) * e, rtol=1e-3, atol=2e-15)
        if 'mag_err' in kw:
            df = b * (q + 1 / q) * env.frac(0.4) * env.log(env.frac(10)) * err[i] * e
            env.eq('ivar', iv[i], 1 / (df * df), rtol=1e-3)
    env.cover('m')


@harness('C09', 'limits', must_cover=('l',))
def c09_limits(env):
    """brighter is more flux, the zero of the asinh scale is no flux, and
    bright objects follow the ordinary (Pogson) scale"""
    k = env.choice(5, 'band')
    b = B0[k]
    m1 = env.var('m1', 5., 28., nice=(14., 20.))
    dm = env.var('dm', 0.01, 5., nice=(0.1, 3.))
    f = env.kc.utils.sdss_asinh_to_maggies
    base = [env.num(20.)] * 5

    def flux(x):
        v = list(base)
        v[k] = x
        return f(mag=env.arr(v))[k]
    env.ge('monotone', flux(m1), flux(m1 + dm))
    env.ge('asinh flux is at most the Pogson flux', env.pow10(m1 * env.frac(-0.4)), flux(m1), rtol=1e-3)
    env.ge('and close to it when bright', flux(m1),
           env.pow10(m1 * env.frac(-0.4)) - env.frac(b) * env.frac(b) * env.pow10(m1 * env.frac(0.4)),
           rtol=1e-3, atol=1e-12)
    env.cover('l')


# ------------------------------------------------------------------ C10

def shaped(v, sh):
    return list(v) if len(sh) == 1 else [list(v[i * sh[1]:(i + 1) * sh[1]]) for i in range(sh[0])]


@harness('C10', 'values', must_cover=('floor', 'keep', 'zero'))
def c10_values(env):
    """ivar becomes min(ivar, 1/(floor |m|)^2) where positive; zeros stay"""
    dt = (np.float32, np.float64)[env.choice(2, 'dtype')]
    nr = 1 + env.choice(2, 'nr')
    sh = ((nr,), (1, nr), (2, nr))[env.choice(3, 'n')]
    # one arbitrary entry, the others (floored, kept, without data) fixed
    m = np.array([0.5, 2., 1.5, 1.])[:int(np.prod(sh))]
    iv = np.array([1e4, 1., 0., 400.])[:int(np.prod(sh))]
    fl = np.array([0.1, 0.02])[:nr]
    m, iv, fl = list(m), list(iv), list(fl)
    k = env.choice(len(m), 'which')
    m[k] = env.var('m', 1e-15, 5., nice=(0.1, 2.), dtype=dt)
    m[k] = (m[k], -m[k], env.num(0., dt))[env.choice(3, 'sign')]
    iv[k] = env.var('iv', -1., 1e24, nice=(1., 1e4), dtype=dt)
    fl[k % nr] = env.var('fl', 0.001, 1., nice=(0.01, 0.3), dtype=dt)
    m = env.arr(shaped(m, sh), dtype=dt)
    iv = env.arr(shaped(iv, sh), dtype=dt)
    fl = env.arr(fl, dtype=dt)
    ms, ivs = env.snapshot(m), env.snapshot(iv)
    r = env.kc.utils.error_floor(floor=fl, maggies=m, ivar=iv)
    env.shape('shape', r, sh)
    for i in np.ndindex(*sh):
        x, v, f = m[i], ivs[i], fl[i[-1]]
        if not v > 0:
            env.eq('no data stays so', r[i], v)
            env.cover('zero')
            continue
        if x == 0:
            env.eq('no flux, no floor', r[i], v)
            continue
        cap = 1 / (ff(env, x) * ff(env, x) * ff(env, f) * ff(env, f))
        if ff(env, v) > cap:
            env.eq('floored', r[i], cap, rtol=1e-3)
            env.cover('floor')
        else:
            env.eq('kept', r[i], v, rtol=1e-3)
            env.cover('keep')
    env.unchanged('maggies', m, ms)
    env.unchanged('ivar', iv, ivs)


@harness('C10', 'table', must_cover=('t',))
def c10_table(env):
    """a catalogue: several rows floored in one band, others kept, others without
    data, as many rows as bands"""
    nr, nb = ((4, 3), (3, 3), (2, 5))[env.choice(3, 'shape')]
    col = env.choice(nb, 'band')
    m = 0.5 + np.arange(nr * nb, dtype=np.float32).reshape(nr, nb) / 8.
    iv = np.float32(1e4) * np.ones((nr, nb), dtype=np.float32)
    iv[0, :] = 0.
    iv[1, ::2] = 1.
    fl = [0.125, 0.0625, 0.25, 0.5, 0.03125][:nb]
    rows = [[env.num(float(x)) for x in r] for r in m]
    ivs = [[env.num(float(x)) for x in r] for r in iv]
    for i in range(min(nr, 3 if common.TIER == 'thorough' else 2)):
        rows[i][col] = env.var('m%d' % i, -5., 5., nice=(-0.5, 2.))
        ivs[i][col] = env.var('iv%d' % i, 0., 1e6, nice=(0., 1e4))
        env.assume_gt(rows[i][col] * rows[i][col], env.num(1e-6))
    r = env.kc.utils.error_floor(floor=env.arr(fl), maggies=env.arr(rows), ivar=env.arr(ivs))
    env.shape('shape', r, (nr, nb))
    for i in range(nr):
        for b in range(nb):
            v, x, f = ff(env, ivs[i][b]), ff(env, rows[i][b]), env.frac(fl[b])
            cap = 1 / (x * x * f * f)
            env.eq('value', r[i, b], cap if v > cap else v, rtol=1e-3)
    env.cover('t')


@harness('C10', 'order', must_cover=('o',))
def c10_order(env):
    """never increases ivar; applying it twice is applying it once; the error is
    at least floor times flux"""
    m = env.array('m', (1, 2), 1e-15, 5., nice=(0.1, 2.))
    iv = env.array('iv', (1, 2), 0., 1e24, nice=(1., 1e4))
    fl = env.array('fl', 2, 0.001, 1., nice=(0.01, 0.3))
    e = env.kc.utils.error_floor
    r = e(floor=fl, maggies=m, ivar=iv)
    r2 = e(floor=fl, maggies=m, ivar=r)
    for b in range(2):
        env.ge('never increased', iv[0, b], r[0, b])
        env.ge('still nonnegative', r[0, b], 0.)
        env.eq('idempotent', r2[0, b], r[0, b], rtol=1e-3)
        env.ge('error at least floor', 1., ff(env, r[0, b]) * ff(env, m[0, b]) * ff(env, m[0, b]) *
               ff(env, fl[b]) * ff(env, fl[b]), rtol=1e-3)
    env.cover('o')


@harness('C10', 'integer', must_cover=('i',))
def c10_integer(env):
    """inverse variances given as integers (or lists) are not truncated"""
    mode = env.choice(2, 'mode')
    m = env.array('m', 2, 0.1, 5., nice=(0.5, 2.))
    fl = env.array('fl', 2, 0.1, 1., nice=(0.3, 0.8))
    k = [1 + 6 * env.choice(2, 'k0'), 0 + 400 * env.choice(2, 'k1')]
    iv = env.arr([k], dtype=np.int64) if mode else list(k)
    r = env.kc.utils.error_floor(floor=fl, maggies=env.arr([m]) if mode else m, ivar=iv)
    r = r[0] if mode else r
    for b in range(2):
        cap = 1 / (ff(env, m[b]) * ff(env, m[b]) * ff(env, fl[b]) * ff(env, fl[b]))
        if k[b] == 0:
            want = 0.
        else:
            want = cap if cap < k[b] else float(k[b])
        env.eq('value', r[b], want, rtol=1e-3)
    env.cover('i')


# ------------------------------------------------------------------ C21

@harness('C21', 'flambda', must_cover=('f',))
def c21(env):
    """f_lambda = maggies x AB source spectrum at the band's effective wavelength;
    inverse variance divided by its square; rows and bands keep their order"""
    d = env.kc.response.ResponseDict()
    names = ['X', 'Y', 'Z', 'W', 'V', 'U', 'T']
    lam = []
    for n in names:
        l = env.var('lam' + n, 1000., 30000., nice=(3000., 9000.))
        dict.__setitem__(d, n, FakeResponse(env, n, [], [], lam=l))
        lam.append(l)
    order = env.choice(7, 'order')
    use = (['X', 'Y'], ['Y', 'X'], ['Y', 'Y'], ['Z'], ['Y', 'X', 'Z'], ['Z', 'X', 'V', 'W', 'Y'],
           ['U', 'T', 'Z', 'X', 'V', 'W', 'Y'])[order]
    nb = len(use)
    sh = ((nb,), (1, nb), (2, nb), (nb, nb))[env.choice(4, 'n')]
    m = env.array('m', sh, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', sh, 0., 1e24, nice=(0.3, 4.))
    f = env.kc.utils.maggies2flambda
    withiv = env.choice(2, 'ivar')
    if withiv:
        w, fl, fi = f(maggies=m, ivar=iv, responses=use)
        env.shape('ivar shape', fi, sh)
    else:
        w, fl = f(maggies=m, responses=use)
    env.shape('wave shape', w, (nb,))
    env.shape('shape', fl, sh)
    for i in np.ndindex(*sh):
        l = lam[names.index(use[i[-1]])]
        ab = env.frac(3.631e-2) * env.frac(2.99792) / (ff(env, l) * ff(env, l))
        env.eq('flux', fl[i], ff(env, m[i]) * ab, rtol=1e-4)
        if withiv:
            env.eq('flux ivar', fi[i], ff(env, iv[i]) / (ab * ab), rtol=1e-4)
    for b in range(nb):
        env.eq('wave', w[b], lam[names.index(use[b])])
    env.cover('f')


@harness('C21', 'sed_ab', must_cover=('ab',))
def c21_ab(env):
    """the AB source has 3631 Jy at every wavelength: f_lambda lambda^2 / c"""
    n = env.choice(2, 'n')
    w = env.array('w', (3,) if n else (), 100., 1e6, nice=(1000., 20000.))
    f = env.kc.utils.sed_ab(w) if n else env.kc.utils.sed_ab(wave=w)
    if not n:
        w, f = [w], [f]
    for i in range(len(w)):
        env.eq('3631 Jy', ff(env, f[i]) * ff(env, w[i]) * ff(env, w[i]),
               env.frac(3.631e-20) * env.frac(2.99792e18), rtol=1e-4)
    env.cover('ab')
