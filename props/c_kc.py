"""C03 K-corrections, C04 reconstruction, C05 absolute magnitudes, C06 derived
quantities."""
import numpy as np
from .common import harness, rig, Aspec, dot, ff, coeffs, mspec


def zvar(env, name, lo=0., hi=2.):
    w = hi - lo
    return env.var(name, lo, hi, nice=(lo + 0.03 * w, hi - 0.03 * w))


def bsvar(env, hi=2.):
    """band shifts, including 0"""
    if env.choice(2, 'band_shift'):
        return env.var('bs', 0.01, hi, nice=(0.05, 0.6 * hi), dtype=np.float64)
    return 0.


OUTS = [(None, None), (('C', 'D'), ('B', 'A')), (('C', 'A', 'D'), ('B', 'B', 'A')),
        (('D',), ('B',)), (('B', 'A'), ('A', 'B')), (('C', 'C', 'D'), ('A', 'B', 'A'))]


# ------------------------------------------------------------------ C04

@harness('C04', 'reconstruct', must_cover=('in',), weight=3)
def c04_in(env):
    """maggies = A((1+z)(1+band_shift)-1) . coeffs / (1+band_shift), input bands"""
    g = rig(env, responses=('A', 'B'), nt=2, symt=False, interpolate=bool(env.choice(2, 'interp')))
    z = zvar(env, 'z', 0., 1.)
    bs = bsvar(env, 0.5)
    c = coeffs(env, 'c', g.nt, lo=0.)
    arrayed = env.choice(2, 'array')
    if arrayed:
        m = g.kc.reconstruct(redshift=env.arr([z]), coeffs=env.arr([c]), band_shift=bs)
        env.shape('shape', m, (1, 2))
        m = m[0]
    else:
        m = g.kc.reconstruct(redshift=z, coeffs=c, band_shift=bs)
        env.shape('shape', m, (2,))
    for b, n in enumerate(g.responses):
        env.eq('maggies', m[b], mspec(g, n, z, c, bs), rtol=1e-4, atol=1e-5)
    env.cover('in')


@harness('C04', 'reconstruct_out', must_cover=('out',), weight=3)
def c04_out(env):
    """the same for the output bands, whatever their number"""
    o, r = OUTS[env.choice(len(OUTS), 'outs')]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, nt=2, symt=False)
    z = zvar(env, 'z', 0., 1.)
    bs = bsvar(env, 0.5)
    n = 1 + env.choice(2, 'n')
    if n == 2:
        c = coeffs(env, 'c', (2, g.nt), lo=0.)
        z2 = zvar(env, 'zb', 0., 0.5)
        m = g.kc.reconstruct_out(redshift=env.arr([z2, z]), coeffs=c, band_shift=bs)
        env.shape('shape', m, (2, len(g.out_eff)))
        m, c = m[1], c[1]
    else:
        c = coeffs(env, 'c', g.nt, lo=0.)
        m = g.kc.reconstruct_out(redshift=z, coeffs=c, band_shift=bs)
        env.shape('shape', m, (len(g.out_eff),))
    for b, nm in enumerate(g.out_eff):
        env.eq('maggies', m[b], mspec(g, nm, z, c, bs), rtol=1e-4, atol=1e-5)
    env.cover('out')


@harness('C04', 'negative_shift', must_cover=('neg', 'refused'))
def c04_negative(env):
    """band shifts and redshifts below zero; shifted redshifts below the grid are
    refused"""
    o, r = OUTS[(0, 2)[env.choice(2, 'outs')]]
    low = env.choice(2, 'low')
    zr = ((-0.5, 1.5), (0., 2.))[low]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False, zr=zr)
    z = env.var('z', (-0.1, 0.)[low], 1., nice=(0., 0.9))
    bs = env.var('bs', -0.4, -0.01, nice=(-0.35, -0.02), dtype=np.float64)
    c = coeffs(env, 'c', 2, lo=0.)
    f, names = ((g.kc.reconstruct, g.responses),
                (g.kc.reconstruct_out, g.out_eff))[env.choice(2, 'which')]
    arrayed = env.choice(2, 'array')
    a = (env.arr([z]), env.arr([c])) if arrayed else (z, c)
    if low:
        env.assume_gt(-1e-3, (z + 1.) * (bs + 1.) - 1.)
        env.raises('ValueError', ValueError, lambda: f(redshift=a[0], coeffs=a[1], band_shift=bs))
        env.cover('refused')
        return
    m = f(redshift=a[0], coeffs=a[1], band_shift=bs)
    if arrayed:
        m = m[0]
    env.shape('shape', m, (len(names),))
    for b, nm in enumerate(names):
        env.eq('maggies', m[b], mspec(g, nm, z, c, bs), rtol=1e-4, atol=1e-5)
    env.cover('neg')


@harness('C04', 'grid', must_cover=('grid',))
def c04_grid(env):
    """any number of grid points and templates; range not starting at zero"""
    nz = (2, 3, 5)[env.choice(3, 'nz')]
    nt = 1 + 2 * env.choice(2, 'nt')
    zr = ((0., 2.), (0.25, 1.25))[env.choice(2, 'range')]
    g = rig(env, responses=('A',), nt=nt, nz=nz, zr=zr, symt=False)
    z = zvar(env, 'z', *zr)
    c = coeffs(env, 'c', nt, lo=0.)
    m = g.kc.reconstruct(redshift=z, coeffs=c)
    env.shape('shape', m, (1,))
    env.eq('maggies', m[0], mspec(g, 'A', z, c), rtol=1e-4, atol=1e-5)
    env.true('projected on the grid only', g.resp['A'].bad == 0)
    env.cover('grid')


@harness('C04', 'linear', must_cover=('lin',))
def c04_linear(env):
    """reconstruction is linear in the coefficients"""
    g = rig(env, responses=('A', 'B'), symt=False)
    z = zvar(env, 'z')
    c1 = coeffs(env, 'c', 2, lo=0.)
    c2 = coeffs(env, 'd', 2, lo=0.)
    k = env.var('k', 0., 5., nice=(0.5, 3.))
    r = g.kc.reconstruct
    m1, m2 = r(redshift=z, coeffs=c1), r(redshift=z, coeffs=c2)
    s = env.arr([c1[j] + k * c2[j] for j in range(2)])
    m = r(redshift=z, coeffs=s)
    for b in range(2):
        env.eq('superposition', m[b], ff(env, m1[b]) + ff(env, k) * ff(env, m2[b]), rtol=1e-4, atol=1e-5)
    env.cover('lin')


@harness('C04', 'out_of_range', must_cover=('low', 'high', 'shifted'))
def c04_range(env):
    """a shifted redshift outside the grid is refused, never extrapolated"""
    zr = ((0., 2.), (0.25, 1.25))[env.choice(2, 'range')]
    g = rig(env, responses=('A', 'B'), zr=zr, symt=False)
    side = env.choice(3, 'side')
    bs = 0.
    if side == 0:
        z = env.var('z', -0.9, zr[0] - 1e-3, nice=(-0.8, zr[0] - 0.01))
    elif side == 1:
        z = env.var('z', zr[1] + 1e-3, 50., nice=(zr[1] + 0.01, 5.))
    else:
        z = env.var('z', zr[0], zr[1], nice=(zr[0] + 0.1, zr[1]))
        bs = env.var('bs', 0.01, 5., nice=(0.1, 3.), dtype=np.float64)
        env.assume_gt((z + 1.) * (bs + 1.), zr[1] + 1.001)
    c = coeffs(env, 'c', 2, lo=0.)
    f = (g.kc.reconstruct, g.kc.reconstruct_out)[env.choice(2, 'which')]
    mode = env.choice(3, 'mode')
    zin = env.num(0.5)
    if mode == 0:
        a = dict(redshift=z, coeffs=c)
    elif mode == 1:
        a = dict(redshift=env.arr([z]), coeffs=env.arr([c]))
    else:
        a = dict(redshift=env.arr([zin, z]), coeffs=env.arr([c, c]))
    env.raises('ValueError', ValueError, lambda: f(band_shift=bs, **a))
    env.cover(('low', 'high', 'shifted')[side])


# ------------------------------------------------------------------ C03

def kspec(g, z, c, bs):
    env = g.env
    out = []
    for i, nm in enumerate(g.out_eff):
        r = mspec(g, g.map_eff[i], z, c)
        q = mspec(g, nm, env.num(0.), c, bs)
        out.append((r, q))
    return out


@harness('C03', 'formula', must_cover=('k',), weight=4, budget_s=300)
def c03_formula(env):
    """K = -2.5 log10 (m_R(z) / m_Q(0; band_shift)), band by band through the map"""
    o, r = OUTS[env.choice(len(OUTS), 'outs')]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False)
    z = zvar(env, 'z')
    bs = bsvar(env, 1.9)
    c = coeffs(env, 'c', 2)
    if env.choice(2, 'array'):
        k = g.kc.kcorrect(redshift=env.arr([z]), coeffs=env.arr([c]), band_shift=bs)
        env.shape('shape', k, (1, len(g.out_eff)))
        k = k[0]
    else:
        k = g.kc.kcorrect(redshift=z, coeffs=c, band_shift=bs)
        env.shape('shape', k, (len(g.out_eff),))
    for i, (a, b) in enumerate(kspec(g, z, c, bs)):
        env.eq('k', k[i], env.log10(a / b) * -2.5, rtol=0, atol=1e-3)
    env.cover('k')


@harness('C03', 'below_zero', must_cover=('k',), budget_s=300)
def c03_negative(env):
    """the formula for blueshifted objects and bands"""
    o, r = OUTS[(0, 2)[env.choice(2, 'outs')]]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False, sym_tables=('A', 'C'),
            zr=(-0.5, 1.5))
    z = env.var('z', -0.4, 1., nice=(-0.3, 0.9))
    bs = env.var('bs', -0.45, -0.01, nice=(-0.4, -0.02), dtype=np.float64)
    c = coeffs(env, 'c', 2)
    if env.choice(2, 'array'):
        k = g.kc.kcorrect(redshift=env.arr([z]), coeffs=env.arr([c]), band_shift=bs)[0]
    else:
        k = g.kc.kcorrect(redshift=z, coeffs=c, band_shift=bs)
    env.shape('shape', k, (len(g.out_eff),))
    for i, (a, b) in enumerate(kspec(g, z, c, bs)):
        env.eq('k', k[i], env.log10(a / b) * -2.5, rtol=0, atol=1e-3)
    env.cover('k')


@harness('C03', 'zero_coeffs', must_cover=('mixed', 'scalar'))
def c03_zero(env):
    """objects whose coefficients are all zero have K = 0; others are unaffected"""
    o, r = OUTS[env.choice(len(OUTS), 'outs')]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False, sym_tables=('A', 'C'))
    no = len(g.out_eff)
    bs = bsvar(env, 1.9)
    z = zvar(env, 'z')
    z1 = zvar(env, 'zz', 0., 1.)
    zero = [env.num(0.)] * 2
    mode = env.choice(4, 'mode')
    if mode == 3:
        k = g.kc.kcorrect(redshift=z, coeffs=env.arr(zero), band_shift=bs)
        env.same('scalar zero', k, env.arr([0.] * no))
        env.cover('scalar')
        return
    c = coeffs(env, 'c', 2)
    if mode == 0:
        c[1] = env.num(0.)
    zs, cs = [[z], [zero]] if mode == 1 else ([z1, z], [c, zero]) if mode == 2 else ([z, z1], [zero, c])
    k = g.kc.kcorrect(redshift=env.arr(zs), coeffs=env.arr(cs), band_shift=bs)
    env.shape('shape', k, (len(zs), no))
    for i in range(len(zs)):
        if cs[i] is zero:
            env.same('zero', k[i], env.arr([0.] * no))
        else:
            for j, (a, b) in enumerate(kspec(g, zs[i], c, bs)):
                env.eq('k of the others', k[i, j], env.log10(a / b) * -2.5, rtol=0, atol=1e-3)
    env.cover('mixed')


@harness('C03', 'identity', must_cover=('id',))
def c03_identity(env):
    """identities: K = 0 at z = 0; K = 2.5 log10(1/(1+z)) between a band at z and
    itself shifted by z; scale invariance"""
    g = rig(env, responses=('A', 'B'), symt=False)
    z = zvar(env, 'z', 0.01, 2.)
    c = coeffs(env, 'c', 2)
    k0 = g.kc.kcorrect(redshift=env.num(0.), coeffs=c)
    env.same('no redshift, no correction', k0, env.arr([0., 0.]), rtol=0, atol=1e-4)
    k1 = g.kc.kcorrect(redshift=z, coeffs=c, band_shift=z)
    for b in range(2):
        env.eq('band shifted to the redshift', k1[b], env.log10(z + 1.) * -2.5, rtol=0, atol=1e-3)
    s = env.var('s', 0.1, 10., nice=(0.5, 3.))
    k2 = g.kc.kcorrect(redshift=z, coeffs=env.arr([c[0] * s, c[1] * s]))
    k3 = g.kc.kcorrect(redshift=z, coeffs=c)
    env.same('scale invariance', k2, k3, rtol=0, atol=1e-3)
    env.cover('id')


SDSS5 = ('sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0')
GST10 = ('galex_FUV', 'galex_NUV') + SDSS5 + ('twomass_J', 'twomass_H', 'twomass_Ks')


@harness('C03', 'instruments', must_cover=('k', 'map', 'same'), budget_s=200)
def c03_instruments(env):
    """the instrument classes hand on the bands, the band map, the redshift range and
    the number of redshifts they are given"""
    cls, names = (('KcorrectSDSS', SDSS5), ('KcorrectGST', GST10))[env.choice(2, 'class')]
    nb = len(names)
    kind = env.choice(5, 'outs')
    shifted = ['sh_%s' % n for n in names]
    out, rmap = ((None, None), (shifted, None), (list(names[::-1]), None),
                 (['X', 'Y', 'X'], [names[3], names[0], names[4]]),
                 (None, list(names[1:]) + [names[0]]))[kind]
    sym = names[0:1] if out is None else tuple(out[-1:])
    g = rig(env, responses=names, out=out, rmap=rmap, cls=cls, nt=2, nz=3, zr=(-0.25, 1.75),
            symt=False, sym_tables=sym, abcorrect=bool(env.choice(2, 'abcorrect')), solar='none')
    z = env.var('z', -0.25, 1.75, nice=(-0.2, 1.7))
    bs = 0.25 * env.choice(2, 'bs')
    c = coeffs(env, 'c', 2)
    k = g.kc.kcorrect(redshift=z, coeffs=c, band_shift=bs)
    env.shape('shape', k, (len(g.out_eff),))
    env.true('grid', len(g.kc.redshifts) == 3)
    for i, (a, b) in enumerate(kspec(g, z, c, bs)):
        env.eq('k', k[i], env.log10(a / b) * -2.5, rtol=0, atol=1e-3)
    env.cover('k' if out is None else 'map' if rmap else 'same')


# ------------------------------------------------------------------ C05

def lum(env, dist):
    """distance modulus of a distance in Mpc"""
    return (env.log10(dist) + 5.) * 5.


@harness('C05', 'formula', must_cover=('cosmo', 'distance'), weight=5, budget_s=300)
def c05_formula(env):
    """M = -2.5 log10 m - DM - K where flux and inverse variance are positive,
    -9999 elsewhere; the options add their results in order"""
    oi = env.choice(4, 'outs')
    o, r = (OUTS[0], OUTS[2], OUTS[3], OUTS[5])[oi]
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False, symd=True,
            sym_tables=('A', 'C'))
    no = len(g.out_eff)
    z = zvar(env, 'z')
    bs = 0.25 if env.choice(2, 'bs') else 0.
    c = coeffs(env, 'c', 2)
    m = env.array('m', 2, -5., 5., nice=(0.2, 4.))
    iv = env.array('iv', 2, -1., 1e24, nice=(0.2, 9.))
    kw = {}
    if env.choice(2, 'distance'):
        d = env.var('dist', 1e-6, 1e6, nice=(0.004, 900.))
        dm = lum(env, d)
        env.cover('distance')
    else:
        d = None
        dm = g.cosmo.dm(z)
        env.cover('cosmo')
    if env.choice(2, 'array'):
        if d is not None:
            kw['distance'] = env.arr([d])
        out = g.kc.absmag(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]),
                          coeffs=env.arr([c]), band_shift=bs, **kw)
        env.shape('shape', out, (1, no))
        out = out[0]
    else:
        if d is not None:
            kw['distance'] = d
        out = g.kc.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c, band_shift=bs, **kw)
        env.shape('shape', out, (no,))
    for j, (a, b) in enumerate(kspec(g, z, c, bs)):
        i = g.imap[j]
        if m[i] > 0 and iv[i] > 0:
            want = env.log10(m[i]) * -2.5 - dm - env.log10(a / b) * -2.5
        else:
            want = -9999.
        env.eq('absmag', out[j], want, rtol=0, atol=1e-3)


@harness('C05', 'options', must_cover=('opt',), weight=5, budget_s=300)
def c05_options(env):
    """reconstruct, limit and kcorrect add their arrays, in that order, without
    changing the others; each is what it says"""
    oi = env.choice(2, 'outs')
    o, r = (OUTS[0], OUTS[2])[oi]
    opt = env.choice(8, 'options')
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, symt=False, symd=True, sym_tables=('A', 'C'))
    no = len(g.out_eff)
    arrayed = env.choice(2, 'array')
    bs = 0.25 if env.choice(2, 'bs') else 0.
    z = zvar(env, 'z')
    c = coeffs(env, 'c', 2)
    m = env.array('m', 2, 1e-15, 5., nice=(0.2, 4.))
    m[0] = (m[0], env.num(-2.))[env.choice(2, 'neg')]
    iv = env.array('iv', 2, 0., 1e24, nice=(0.2, 9.))
    dm = g.cosmo.dm(z)
    kw = dict(reconstruct=bool(opt & 1), limit=bool(opt & 2), kcorrect=bool(opt & 4))
    nres = 1 + sum(map(bool, kw.values()))
    if arrayed:
        out = g.kc.absmag(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]),
                          coeffs=env.arr([c]), band_shift=bs, **kw)
    else:
        out = g.kc.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c, band_shift=bs, **kw)
    if nres == 1:
        out = (out,)
    env.true('number of results', isinstance(out, tuple) and len(out) == nres)
    for x in out:
        env.shape('shape', x, (1, no) if arrayed else (no,))
    if arrayed:
        out = [x[0] for x in out]
    for j, (a, b) in enumerate(kspec(g, z, c, bs)):
        i = g.imap[j]
        k = env.log10(a / b) * -2.5
        if m[i] > 0 and iv[i] > 0:
            want = env.log10(m[i]) * -2.5 - dm - k
        else:
            want = -9999.
        env.eq('absmag', out[0][j], want, rtol=0, atol=1e-3)
        q = 1
        if opt & 1:
            env.eq('reconstructed', out[q][j], env.log10(b) * -2.5 - dm, rtol=0, atol=1e-3)
            q += 1
        if opt & 2:
            want = -9999.
            if iv[i] > 0:
                want = env.log10(iv[i]) * 1.25 - dm - k
            env.eq('limit', out[q][j], want, rtol=0, atol=1e-3)
            q += 1
        if opt & 4:
            env.eq('kcorrect', out[q][j], k, rtol=0, atol=1e-3)
    env.cover('opt')


@harness('C05', 'no_value', must_cover=('nan', 'zero'))
def c05_novalue(env):
    """-9999 for NaN data, and for model-based results of all-zero coefficients"""
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    z = zvar(env, 'z')
    arrayed = env.choice(2, 'array')
    nan = env.num(float('nan'))
    m = env.array('m', 2, 1e-15, 5., nice=(0.2, 4.))
    iv = env.array('iv', 2, 1e-4, 1e24, nice=(0.2, 9.))
    c = coeffs(env, 'c', 2)

    def call(m, iv, c, **kw):
        if arrayed:
            o = g.kc.absmag(redshift=env.arr([z, z]), maggies=env.arr([m, m]),
                            ivar=env.arr([iv, iv]), coeffs=env.arr([c, c]), **kw)
            return [x[1] for x in o] if isinstance(o, tuple) else o[1]
        return g.kc.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c, **kw)
    which = env.choice(4, 'which')
    al = dict(limit=True, reconstruct=True, kcorrect=True)
    if which < 2:
        good = call(m, iv, c, **al)
    if which == 0:
        bad = (nan, env.num(float('inf')) * -1., env.num(0.))[env.choice(3, 'flux')]
        o = call(env.arr([m[0], bad]), iv, c, **al)
        env.eq('bad maggies', o[0][1], -9999.)
        env.eq('other band has its value', o[0][0], good[0][0], rtol=0, atol=1e-3)
        for b in range(2):
            env.eq('model-based magnitude with bad maggies', o[1][b], good[1][b], rtol=0, atol=1e-3)
            env.eq('limit with bad maggies', o[2][b], good[2][b], rtol=0, atol=1e-3)
            env.eq('k with bad maggies', o[3][b], good[3][b], rtol=0, atol=1e-3)
        env.cover('nan')
    elif which == 1:
        bad = (nan, env.num(-2.), env.num(0.))[env.choice(3, 'ivar')]
        o = call(m, env.arr([bad, iv[1]]), c, **al)
        env.eq('bad ivar', o[0][0], -9999.)
        env.eq('bad ivar limit', o[2][0], -9999.)
        env.eq('limit of the other band', o[2][1], good[2][1], rtol=0, atol=1e-3)
        for b in range(2):
            env.eq('model-based magnitude with bad ivar', o[1][b], good[1][b], rtol=0, atol=1e-3)
            env.eq('k with bad ivar', o[3][b], good[3][b], rtol=0, atol=1e-3)
        env.cover('nan')
    else:
        o = call(m, iv, env.arr([0., 0.]), limit=True, reconstruct=True, kcorrect=True)
        for b in range(2):
            env.eq('reconstruction of zero', o[1][b], -9999.)
            env.eq('limit of zero', o[2][b], -9999.)
            env.eq('k of zero', o[3][b], 0.)
        env.cover('zero')


@harness('C05', 'distance', must_cover=('d',))
def c05_distance(env):
    """moving the object by a factor f in distance changes M by -5 log10 f; the
    cosmology's luminosity distance gives the default"""
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    z = zvar(env, 'z')
    c = coeffs(env, 'c', 2)
    m = env.array('m', 2, 1e-15, 5., nice=(0.2, 4.))
    iv = env.array('iv', 2, 1e-4, 1e24, nice=(0.2, 9.))
    d = env.var('dist', 1e-6, 1e6, nice=(0.004, 900.))
    f = env.var('f', 0.1, 10., nice=(0.2, 4.))
    a = dict(redshift=z, maggies=m, ivar=iv, coeffs=c)
    o1 = g.kc.absmag(distance=d, **a)
    o2 = g.kc.absmag(distance=d * f, **a)
    o0 = g.kc.absmag(**a)
    for b in range(2):
        env.eq('distance scaling', ff(env, o1[b]) - ff(env, o2[b]), env.log10(f) * 5., rtol=0, atol=1e-3)
        env.eq('distance against cosmology', ff(env, o1[b]) - ff(env, o0[b]),
               g.cosmo.dm(z) - lum(env, d), rtol=0, atol=1e-3)
    env.cover('d')


# ------------------------------------------------------------------ C06

KEYS = {'intsfh': 'intsfh', 'mremain': 'mremain'}


@harness('C06', 'formula', must_cover=('cosmo', 'distance'), weight=5, budget_s=300)
def c06_formula(env):
    """masses scale the template values by coefficients and distance; ratios do
    not depend on distance"""
    arrayed = env.choice(3, 'array')
    n = (1, 1, 2)[arrayed]
    bs = 0.25 if env.choice(2, 'bs') else 0.
    oi = env.choice(4, 'outs')
    o, r = (OUTS[0], OUTS[2], OUTS[3], OUTS[5])[oi]
    solar = {'A': 'sym', 'B': None, 'C': 'sym', 'D': None}
    g = rig(env, responses=('A', 'B'), out=o, rmap=r, solar=solar, symd=True,
            sym_tables=('A', 'C'))
    no = len(g.out_eff)
    zs = [zvar(env, 'z%d' % i) for i in range(n)]
    c = coeffs(env, 'c', (n, 2))
    kw = {}
    if env.choice(2, 'distance'):
        d = env.array('dist', n, 1e-6, 1e6, nice=(0.004, 900.))
        kw['distance'] = d if arrayed else d[0]
        dms = [lum(env, d[i]) for i in range(n)]
        env.cover('distance')
    else:
        dms = [g.cosmo.dm(zs[i]) for i in range(n)]
        env.cover('cosmo')
    if arrayed:
        out = g.kc.derived(redshift=env.arr(zs), coeffs=c, band_shift=bs, **kw)
    else:
        out = g.kc.derived(redshift=zs[0], coeffs=c[0], band_shift=bs, **kw)
    env.true('keys', sorted(out) == ['b1000', 'b300', 'b50', 'intsfh', 'metallicity', 'mremain', 'mtol'])
    pre = (n,) if arrayed else ()
    P = g.props
    for q in out:
        env.shape('shape ' + q, out[q], pre + ((no,) if q == 'mtol' else ()))
    for i in range(n):
        get = lambda q: (out[q][i] if arrayed else out[q])
        fac = env.pow10(dms[i] * 0.4)
        ci = c[i]
        mr = dot(env, P['mremain'], ci)
        sf = dot(env, P['intsfh'], ci)
        env.eq('mremain', get('mremain'), mr * fac, rtol=3e-4)
        env.eq('intsfh', get('intsfh'), sf * fac, rtol=3e-4)
        mm = [ff(env, P['mremain'][j]) * ff(env, P['mets'][j]) for j in range(2)]
        env.eq('metallicity', get('metallicity'), dot(env, mm, ci) / mr, rtol=3e-4)
        for q in ('50', '300', '1000'):
            env.eq('b' + q, get('b' + q), dot(env, P['m' + q], ci) / sf, rtol=3e-4)
        for j, nm in enumerate(g.out_eff):
            ab = mspec(g, nm, env.num(0.), ci, bs)
            s = g.resp[nm].solar_magnitude
            f = 1. if s is None else env.pow10(ff(env, s) * 0.4)
            env.eq('mtol', get('mtol')[j], mr / (ab * f), rtol=3e-4)


@harness('C06', 'zero_coeffs', must_cover=('zero',))
def c06_zero(env):
    """all-zero coefficients give zeros, never NaN, and leave other rows alone"""
    g = rig(env, responses=('A', 'B'), sym_tables=('A',), solar='sym')
    arrayed = env.choice(2, 'array')
    z = zvar(env, 'z')
    c = coeffs(env, 'c', 2)
    zero = [env.num(0.)] * 2
    if arrayed:
        pos = env.choice(2, 'pos')
        cs = [zero, c] if pos == 0 else [c, zero]
        out = g.kc.derived(redshift=env.arr([z, z]), coeffs=env.arr(cs))
        ref = g.kc.derived(redshift=z, coeffs=c)
        for q in sorted(out):
            env.same('zero ' + q, np.reshape(out[q][pos], (-1,)),
                     env.arr([0.] * (2 if q == 'mtol' else 1)))
            env.same('other ' + q, out[q][1 - pos], ref[q], rtol=1e-3)
    else:
        out = g.kc.derived(redshift=z, coeffs=env.arr(zero))
        for q in sorted(out):
            env.same('zero ' + q, np.reshape(env.np.asarray(out[q]), (-1,)),
                     env.arr([0.] * (2 if q == 'mtol' else 1)))
    env.cover('zero')


@harness('C06', 'scaling', must_cover=('s',))
def c06_scaling(env):
    """masses are proportional to the coefficients and to distance squared; mass
    to light ratios, metallicity and birth rates do not change"""
    g = rig(env, responses=('A', 'B'), sym_tables=('A',), solar='sym')
    z = zvar(env, 'z')
    c = coeffs(env, 'c', 2)
    s = env.var('s', 0.1, 10., nice=(0.2, 4.))
    d = env.var('dist', 1e-6, 1e6, nice=(0.004, 900.))
    o1 = g.kc.derived(redshift=z, coeffs=c, distance=d)
    if env.choice(2, 'what'):
        o2 = g.kc.derived(redshift=z, coeffs=env.arr([c[0] * s, c[1] * s]), distance=d)
        f = ff(env, s)
    else:
        o2 = g.kc.derived(redshift=z, coeffs=c, distance=d * s)
        f = ff(env, s) * ff(env, s)
    for q in ('mremain', 'intsfh'):
        env.eq('mass ' + q, o2[q], ff(env, o1[q]) * f, rtol=3e-4)
    for q in ('mtol', 'metallicity', 'b50', 'b300', 'b1000'):
        env.same('ratio ' + q, o2[q], o1[q], rtol=3e-4)
    env.cover('s')


# ---------------------------------------------- coefficients that are partly zero

def sparse(env, n=3):
    """the usual outcome of a nonnegative fit: some templates unused"""
    c = coeffs(env, 'c', n)
    if not env.symbolic:
        c = np.array(c, dtype=np.float64)
    k = env.choice(4, 'support')
    for j in ((0,), (1,), (2,), (0, 2))[k]:
        c[j] = env.num(0.)
    return c


@harness('C03', 'sparse', must_cover=('s',))
def c03_sparse(env):
    """some (not all) coefficients zero: the definition still holds"""
    g = rig(env, responses=('A', 'B'), nt=3, symt=False, sym_tables=('A',))
    z = zvar(env, 'z')
    bs = 0.25 * env.choice(2, 'bs')
    c = sparse(env)
    if env.choice(2, 'array'):
        k = g.kc.kcorrect(redshift=env.arr([z]), coeffs=env.arr([c]), band_shift=bs)[0]
    else:
        k = g.kc.kcorrect(redshift=z, coeffs=c, band_shift=bs)
    for i, (a, b) in enumerate(kspec(g, z, c, bs)):
        env.eq('k', k[i], env.log10(a / b) * -2.5, rtol=0, atol=1e-3)
    env.cover('s')


@harness('C04', 'sparse', must_cover=('s',))
def c04_sparse(env):
    """some coefficients zero or negative: still the matrix applied"""
    g = rig(env, responses=('A', 'B'), nt=3, symt=False, sym_tables=('A',))
    z = zvar(env, 'z')
    c = sparse(env)
    if env.choice(2, 'negative'):
        c[1] = env.num(-0.7)
    f = (g.kc.reconstruct, g.kc.reconstruct_out)[env.choice(2, 'which')]
    if env.choice(2, 'array'):
        m = f(redshift=env.arr([z]), coeffs=env.arr([c]))[0]
    else:
        m = f(redshift=z, coeffs=c)
    for b, n in enumerate(g.responses):
        env.eq('maggies', m[b], mspec(g, n, z, c), rtol=1e-4, atol=1e-4)
    env.cover('s')


@harness('C05', 'sparse', must_cover=('s',))
def c05_sparse(env):
    """some coefficients zero: all the results keep their meaning"""
    g = rig(env, responses=('A', 'B'), nt=3, symt=False, sym_tables=('A',))
    z = zvar(env, 'z')
    c = sparse(env)
    m = env.array('m', 2, 1e-15, 5., nice=(0.2, 4.))
    iv = env.array('iv', 2, 1e-4, 1e24, nice=(0.2, 9.))
    kw = dict(reconstruct=True, limit=True, kcorrect=True)
    if env.choice(2, 'array'):
        out = g.kc.absmag(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]),
                          coeffs=env.arr([c]), **kw)
        out = [x[0] for x in out]
    else:
        out = g.kc.absmag(redshift=z, maggies=m, ivar=iv, coeffs=c, **kw)
    dm = g.cosmo.dm(z)
    for j, (a, b) in enumerate(kspec(g, z, c, 0.)):
        k = env.log10(a / b) * -2.5
        env.eq('absmag', out[0][j], env.log10(m[j]) * -2.5 - dm - k, rtol=0, atol=1e-3)
        env.eq('reconstructed', out[1][j], env.log10(b) * -2.5 - dm, rtol=0, atol=1e-3)
        env.eq('limit', out[2][j], env.log10(iv[j]) * 1.25 - dm - k, rtol=0, atol=1e-3)
        env.eq('kcorrect', out[3][j], k, rtol=0, atol=1e-3)
    env.cover('s')


@harness('C06', 'sparse', must_cover=('s',))
def c06_sparse(env):
    """some coefficients zero: sums and ratios over the templates in use"""
    g = rig(env, responses=('A', 'B'), nt=3, sym_tables=('A',), solar={'A': 'sym', 'B': None})
    z = zvar(env, 'z')
    c = sparse(env)
    if env.choice(2, 'array'):
        out = g.kc.derived(redshift=env.arr([z]), coeffs=env.arr([c]))
        out = {q: out[q][0] for q in out}
    else:
        out = g.kc.derived(redshift=z, coeffs=c)
    P = g.props
    fac = env.pow10(g.cosmo.dm(z) * 0.4)
    mr, sf = dot(env, P['mremain'], c), dot(env, P['intsfh'], c)
    env.eq('mremain', out['mremain'], mr * fac, rtol=3e-4)
    env.eq('intsfh', out['intsfh'], sf * fac, rtol=3e-4)
    mm = [ff(env, P['mremain'][j]) * ff(env, P['mets'][j]) for j in range(3)]
    env.eq('metallicity', out['metallicity'], dot(env, mm, c) / mr, rtol=3e-4)
    for q in ('50', '300', '1000'):
        env.eq('b' + q, out['b' + q], dot(env, P['m' + q], c) / sf, rtol=3e-4)
    for j, nm in enumerate(g.out_eff):
        s = g.resp[nm].solar_magnitude
        f = 1. if s is None else env.pow10(ff(env, s) * 0.4)
        env.eq('mtol', out['mtol'][j], mr / (mspec(g, nm, env.num(0.), c) * f), rtol=3e-4)
    env.cover('s')
