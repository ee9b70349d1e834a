"""C14 design matrices, C15 redshifting spectra, C19 the redshift grid."""
import numpy as np
from .common import harness, rig, ff, FakeResponse, W0, BASE, fl, Cosmo
from .c_resp import quiet, refweights, wdot, grid, BANDS


# ------------------------------------------------------------------ C14

@harness('C14', 'entries', must_cover=('e',))
def c14_entries(env):
    """entry (band, template) at a grid redshift = projection of the template,
    redshifted there, on the band; bands and templates in the order given, input
    and output bands alike; the templates come back at redshift zero"""
    interp = bool(env.choice(2, 'interpolate'))
    nt = 1 + env.choice(3, 'nt')
    out = (None, ('C', 'A'), ('B',), ('C', 'C', 'D'))[env.choice(4, 'out')]
    shifted = env.choice(2, 'shifted')
    lo, hi = ((0., 2.), (0.5, 1.5), (-0.5, 0.25),
              (-2.**-11, 2.**-11))[env.choice(4, 'range') if nt == 2 else 0]
    g = rig(env, responses=('A', 'B'), out=out, zr=(lo, hi),
            rmap=None if out is None else ('B', 'A', 'B')[:len(out)],
            nt=nt, nz=3, interpolate=interp, symt=False, build=False)
    w0, f0 = env.snapshot(g.tmpl.restframe_wave), env.snapshot(g.tmpl.restframe_flux)
    if shifted:
        g.tmpl.set_redshift(0.75)
    k = env.kc.kcorrect.Kcorrect(responses=g.responses, templates=g.tmpl, responses_out=g.out,
                                 responses_map=g.rmap, redshift_range=[lo, hi], nredshift=3,
                                 cosmo=g.cosmo)
    for M, names in ((k.Amatrix, g.responses), (k.AmatrixOut, g.out_eff)):
        for q in range(3):
            A = M(np.float32(g.zs[q]))
            env.shape('shape', A, (len(names), nt))
            for b, n in enumerate(names):
                for j in range(nt):
                    env.eq('entry', A[b, j], g.table[n][q][j], rtol=1e-5)
        A = M(np.array([lo, hi], dtype=np.float32))
        env.shape('shape of many', A, (2, len(names), nt))
        env.eq('entry', A[1, 0, nt - 1], g.table[names[0]][2][nt - 1], rtol=1e-5)
    env.true('redshift zero', float(g.tmpl.redshift) == 0.)
    env.same('wave restored', g.tmpl.wave, w0, rtol=1e-6)
    env.same('flux restored', g.tmpl.flux, f0, rtol=1e-6)
    env.same('rest wave', g.tmpl.restframe_wave, w0, rtol=0)
    env.same('rest flux', g.tmpl.restframe_flux, f0, rtol=0)
    if interp:
        y = g.tmpl.interp(np.array(W0, dtype=np.float32))
        env.same('interpolation restored', np.reshape(y, f0.shape), f0, rtol=1e-5)
    env.cover('e')


class ScaleResponse:
    """projects a spectrum to k times its first sample"""
    solar_magnitude = None
    vega2ab = None

    def __init__(self, env, k):
        self.env = env
        self.k = k

    def project(self, sed=None, wave=None, flux=None):
        if sed is not None:
            wave, flux = sed.wave, sed.flux
        k = self.k
        if np.ndim(flux) == 1:
            return flux[0] * k
        r = self.env.arr([flux[i][0] * k for i in range(np.shape(flux)[0])])
        return r[0] if np.shape(flux)[0] == 1 else r


@harness('C14', 'many', must_cover=('m',), budget_s=300)
def c14_many(env):
    """any number of templates, also more than are projected at a time"""
    n = (1, 2, 999, 1000, 1001, 2000, 2001)[env.choice(7, 'n')]
    interp = False
    k1 = env.var('k1', 0.1, 10., nice=(0.5, 2.))
    k2 = env.var('k2', 0.1, 10., nice=(0.5, 2.))
    d = env.kc.response.ResponseDict()
    dict.__setitem__(d, 'A', ScaleResponse(env, k1))
    dict.__setitem__(d, 'B', ScaleResponse(env, k2))
    first = [1. + 0.5 * j for j in range(n)]
    t = env.kc.template.SED(wave=np.array([3000., 4000., 5000., 6000.], dtype=np.float32),
                            flux=np.array([[x] * 4 for x in first], dtype=np.float32),
                            interpolate=interp)
    f = env.kc.fitter.Fitter(responses=['A', 'B'], templates=t, redshift_range=[0., 1.], nredshift=2)
    f.set_Amatrix()
    for z in (0., 1.):
        A = f.Amatrix(np.float32(z))
        env.shape('shape', A, (2, n))
        for j in sorted({0, 1, n - 1, n - 2, 998, 999, 1000, 1001, 1999, 2000, n // 2}):
            if 0 <= j < n:
                for b, k in enumerate((k1, k2)):
                    env.eq('entry', A[b, j], ff(env, k) * first[j] / (1. + z), rtol=1e-5)
    env.cover('m')


@harness('C14', 'spectra', must_cover=('s',), budget_s=300)
def c14_spectra(env):
    """with real bands and spectra: entries are the photon-weighted averages of the
    redshifted spectra"""
    quiet(env, fwhm=False)
    d = env.kc.response.ResponseDict()
    bn = ('mid', 'skew')
    for n in bn:
        dict.__setitem__(d, n, env.kc.response.Response(wave=np.array(BANDS[n][0]),
                                                       response=np.array(BANDS[n][1])))
    sw = grid(1500., 8500., 10)
    nt = 1 + env.choice(2, 'nt')
    f = env.array('f', (nt, 10), 0.01, 10., nice=(0.5, 2.))
    t = env.kc.template.SED(wave=env.arr(sw), flux=f, interpolate=bool(env.choice(2, 'interpolate')))
    F = env.kc.fitter.Fitter(responses=list(bn), templates=t, redshift_range=[0., 1.], nredshift=3)
    F.set_Amatrix()
    for z in (0., 0.5, 1.):
        A = F.Amatrix(np.float32(z))
        for b, n in enumerate(bn):
            w = refweights([x * (1. + z) for x in sw], *BANDS[n])
            for j in range(nt):
                s = wdot(env, np.abs(w), f[j])
                dd = ff(env, A[b, j]) * env.frac(1. + z) - wdot(env, w, f[j])
                env.ge('not above', s * env.frac(5e-4), dd, rtol=0)
                env.ge('not below', dd, s * env.frac(-5e-4), rtol=0)
    env.cover('s')


# ------------------------------------------------------------------ C15

@harness('C15', 'shift', must_cover=('s',))
def c15_shift(env):
    """at redshift z: wavelengths times (1+z), flux divided by it, whatever
    redshifts were set before; the rest frame never changes"""
    n = env.choice(3, 'n')
    interp = bool(env.choice(2, 'interpolate'))
    sw = [2000., 3000., 4500., 6000., 8000.]
    shape = (5,) if n == 0 else (n, 5)
    f = env.array('f', shape, 0.01, 10., nice=(0.5, 2.))
    w = env.arr(sw)
    fs = env.snapshot(f)
    s = env.kc.template.SED(wave=w, flux=f, interpolate=interp)
    rows = max(n, 1)
    env.true('counts', int(s.nsed) == rows and int(s.nwave) == 5)
    if interp:
        seq = ((0.5,), (0.5, 2.), (3., 0.25, 0.), (1., 1.))[env.choice(4, 'sequence')]
        zs = [env.num(x) for x in seq]
    else:
        k = 1 + env.choice(4, 'steps')
        zs = [env.var('z%d' % i, -0.5, 20., nice=(0.05, 3.)) for i in range(min(k, 3))]
        if k == 4:
            # small steps, as along a redshift grid
            zs[1] = zs[0] + env.var('dz0', 1e-5, 1e-3, nice=(1e-5, 3e-4))
            zs[2] = zs[1] + env.var('dz1', 1e-5, 1e-3, nice=(1e-5, 3e-4))
    if n:
        f0 = [[fs[i, j] for j in range(5)] for i in range(n)]
    else:
        f0 = [[fs[j] for j in range(5)]]
    for z in [None] + zs:
        if z is not None:
            s.set_redshift(redshift=z)
            env.eq('redshift', s.redshift, z)
        a = ff(env, z) + 1. if z is not None else 1.
        env.shape('wave shape', s.wave, (5,))
        env.shape('flux shape', s.flux, (rows, 5))
        for j in range(5):
            env.eq('wave', s.wave[j], env.frac(sw[j]) * a, rtol=1e-5)
            for i in range(rows):
                env.eq('flux', s.flux[i, j], ff(env, f0[i][j]) / a, rtol=1e-5)
                env.eq('energy', ff(env, s.flux[i, j]) * ff(env, s.wave[j]),
                       ff(env, f0[i][j]) * env.frac(sw[j]), rtol=1e-5)
                env.eq('rest flux', s.restframe_flux[i, j], f0[i][j], rtol=0)
        env.same('rest wave', s.restframe_wave, env.arr(sw), rtol=0)
        if interp:
            x = np.array([float(v) * (1. + (float(fl(z)) if z is not None else 0.)) for v in sw],
                         dtype=np.float32)
            y = np.reshape(s.interp(x), (rows, 5))
            for j in range(5):
                for i in range(rows):
                    env.eq('interpolated', y[i, j], ff(env, f0[i][j]) / a, rtol=1e-4)
            y = np.reshape(s.interp(np.array([x[0] - 5., x[-1] + 5.])), (rows, 2))
            env.eq('nothing outside', y[0, 0], 0.)
            env.eq('nothing outside', y[0, 1], 0.)
    env.unchanged('flux given', f, fs)
    env.cover('s')


@harness('C15', 'energy', must_cover=('b',))
def c15_energy(env):
    """the integral over wavelength is conserved"""
    sw = [2000., 3000., 4500., 6000., 8000.]
    f = env.array('f', (2, 5), 0.01, 10., nice=(0.5, 2.))
    z = env.var('z', -0.5, 20., nice=(0.05, 3.))
    s = env.kc.template.SED(wave=env.arr(sw), flux=f, interpolate=False)

    def tot(i):
        t = None
        for j in range(4):
            x = (ff(env, s.flux[i, j]) + ff(env, s.flux[i, j + 1])) * \
                (ff(env, s.wave[j + 1]) - ff(env, s.wave[j])) * 0.5
            t = x if t is None else t + x
        return t
    a = [tot(0), tot(1)]
    s.set_redshift(z)
    for i in range(2):
        env.eq('integral', tot(i), a[i], rtol=1e-4)
    s.set_redshift()
    for i in range(2):
        env.eq('back to zero', s.flux[i, 2], f[i, 2], rtol=1e-6)
        env.eq('back to zero', s.wave[i], sw[i], rtol=1e-6)
    env.cover('b')


@harness('C15', 'exact_fp', must_cover=('b',), mode='fp', budget_s=200, timeout_ms=60000)
def c15_exact(env):
    """for all 32-bit numbers: whatever was set before, the spectra at a redshift are
    bit for bit those of a fresh object there, and at zero those given"""
    w = env.arr([2000., 3000., 4500., 6000.])
    f = env.array('f', (1, 4), -1e10, 1e10, nice=(0.5, 2.))
    zs = [env.var('z%d' % i, -0.5, 20., nice=(0.05, 3.)) for i in range(2)]
    s = env.kc.template.SED(wave=w.copy(), flux=f.copy(), interpolate=False)
    r = env.kc.template.SED(wave=w.copy(), flux=f.copy(), interpolate=False)
    s.set_redshift(zs[0])
    if env.choice(2, 'three'):
        s.set_redshift(0.)
    k = env.choice(2, 'last')
    z = zs[1] if k else env.num(0.)
    s.set_redshift(z)
    r.set_redshift(z)
    for j in range(4):
        env.eq('wave', s.wave[j], r.wave[j], rtol=0)
        env.eq('flux', s.flux[0, j], r.flux[0, j], rtol=0)
        if not k:
            env.eq('restored wave', s.wave[j], w[j], rtol=0)
            env.eq('restored flux', s.flux[0, j], f[0, j], rtol=0)
    env.cover('b')


# ------------------------------------------------------------------ C19

def bare_fitter(env, lo, hi, n):
    d = env.kc.response.ResponseDict()
    dict.__setitem__(d, 'A', ScaleResponse(env, env.num(2.)))
    t = env.kc.template.SED(wave=np.array([3000., 4000., 5000., 6000.], dtype=np.float32),
                            flux=np.ones((1, 4), dtype=np.float32), interpolate=False)
    return env.kc.fitter.Fitter(responses=['A'], templates=t, redshift_range=[lo, hi], nredshift=n)


@harness('C19', 'grid_real', must_cover=('g',))
def c19_grid(env):
    """the grid has the requested number of equally spaced redshifts from the
    minimum to the maximum"""
    n = (2, 3, 4, 7, 11, 50)[env.choice(6, 'n')]
    lo = env.var('lo', 0., 5., nice=(0., 0.5))
    w = env.var('w', 0.01, 5., nice=(0.5, 2.))
    hi = lo + w
    f = bare_fitter(env, lo, hi, n)
    z = f.redshifts
    env.shape('number', z, (n,))
    for k in range(n):
        env.eq('equally spaced', z[k], ff(env, lo) + ff(env, w) * k / (n - 1.), rtol=1e-5, atol=1e-6)
    env.cover('g')


@harness('C19', 'grid_fp', must_cover=('g',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c19_grid_fp(env):
    """for all 32-bit limits: first point exactly the minimum, last exactly the
    maximum, none outside, never decreasing"""
    n = (2, 3, 4, 5)[env.choice(4, 'n')]
    lo = env.var('lo', -0.5, 10., nice=(0., 5.))
    hi = env.var('hi', 0., 20., nice=(5., 10.))
    env.assume_ge(hi, lo + env.num(0.0625))
    f = bare_fitter(env, lo, hi, n)
    z = f.redshifts
    env.shape('number', z, (n,))
    env.eq('first', z[0], lo, rtol=0)
    env.eq('last', z[n - 1], hi, rtol=0)
    for k in range(n - 1):
        env.ge('increasing', z[k + 1], z[k], rtol=0)
    for k in range(n):
        env.ge('not below', z[k], lo, rtol=0)
        env.ge('not above', hi, z[k], rtol=0)
    env.cover('g')


def fixed_kc(env, lo, hi, n=2):
    d = env.kc.response.ResponseDict()
    dict.__setitem__(d, 'A', FixedResponse())
    dict.__setitem__(d, 'B', FixedResponse())
    t = env.kc.template.SED(wave=np.array([3000., 4000., 5000., 6000.], dtype=np.float32),
                            flux=np.ones((1, 4), dtype=np.float32), interpolate=False)
    for a in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
        setattr(t, a, np.ones(1, dtype=np.float32))
    return env.kc.kcorrect.Kcorrect(responses=['A'], responses_out=['B'], responses_map=['A'],
                                    templates=t, redshift_range=[lo, hi], nredshift=n,
                                    cosmo=Cosmo(env, 40., 1.))


class FixedResponse:
    """one maggy for everything"""
    solar_magnitude = None
    vega2ab = None

    def project(self, sed=None, wave=None, flux=None):
        return np.float32(1.)


def each(env, z, arrayed):
    """(redshift argument, leading shape) for an object at z"""
    return (env.arr([z]), (1,)) if arrayed == 1 else (env.arr([z, z]), (2,)) if arrayed else (z, ())


@harness('C19', 'usable_fp', must_cover=('u',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c19_usable(env):
    """for all 32-bit limits and redshifts between them: fits, reconstructions and
    K-corrections do not fall outside the grid"""
    n = (2, 3)[env.choice(2, 'n')]
    what = env.choice(4, 'what')
    lo = env.var('lo', 0., 10., nice=(0., 5.))
    if what == 3:
        lo = env.num(0.)
    hi = env.var('hi', 0., 20., nice=(6., 10.))
    z = env.var('z', 0., 20., nice=(5., 6.))
    env.assume_ge(hi, lo + env.num(0.0625))
    env.assume_ge(z, lo)
    env.assume_ge(hi, z)
    k = fixed_kc(env, lo, hi, n)
    za, pre = each(env, z, env.choice(3, 'array'))
    one = np.ones(pre + (1,), dtype=np.float32)
    if what == 0:
        c = k.fit_coeffs(redshift=za, maggies=one, ivar=one)
        env.shape('shape', c, pre + (1,))
        env.ge('fitted, not given up', np.reshape(c, (-1,))[0], 0.5, rtol=0)
    elif what == 1:
        m = k.reconstruct(redshift=za, coeffs=one)
        env.shape('shape', m, pre + (1,))
    elif what == 2:
        m = k.reconstruct_out(redshift=za, coeffs=one)
        env.shape('shape', m, pre + (1,))
    else:
        m = k.kcorrect(redshift=za, coeffs=0. * one)
        env.shape('shape', m, pre + (1,))
    env.cover('u')


@harness('C19', 'shift_fp', must_cover=('u',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c19_shift(env):
    """at redshift zero every 32-bit band shift up to the maximum redshift is usable"""
    hi = env.var('hi', 0.0625, 20., nice=(6., 10.))
    bs = env.var('bs', 0., 20., nice=(5., 6.))
    env.assume_ge(hi, bs)
    k = fixed_kc(env, env.num(0.), hi, 2)
    za, pre = each(env, env.num(0.), env.choice(3, 'array'))
    one = np.ones(pre + (1,), dtype=np.float32)
    if env.choice(2, 'what'):
        m = k.reconstruct_out(redshift=za, coeffs=one, band_shift=bs)
    else:
        m = k.kcorrect(redshift=za, coeffs=0. * one, band_shift=bs)
    env.shape('shape', m, pre + (1,))
    env.cover('u')


@harness('C19', 'shift_outside_fp', must_cover=('o',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c19_shift_outside(env):
    """at redshift zero every band shift beyond the maximum redshift is refused"""
    hi = env.var('hi', 0.0625, 20., nice=(1., 4.))
    bs = env.var('bs', 0., 50., nice=(5., 6.))
    env.assume_gt(bs, hi)
    k = fixed_kc(env, env.num(0.), hi, 2)
    za, pre = each(env, env.num(0.), env.choice(3, 'array'))
    one = np.ones(pre + (1,), dtype=np.float32)
    far = np.float32(10.) + np.zeros(pre, dtype=np.float32)
    f = (lambda: k.reconstruct_out(redshift=za, coeffs=one, band_shift=bs),
         lambda: k.reconstruct(redshift=za, coeffs=one, band_shift=bs),
         lambda: k.kcorrect(redshift=za, coeffs=one, band_shift=bs),
         lambda: k.derived(redshift=za, coeffs=one, band_shift=bs, distance=far))[env.choice(4, 'what')]
    env.raises('refused', ValueError, f)
    env.cover('o')


@harness('C19', 'outside_fp', must_cover=('o',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c19_outside(env):
    """for all 32-bit limits and redshifts not between them: zero coefficients from
    fits, an error from reconstructions"""
    lo = env.var('lo', 0., 10., nice=(0.5, 5.))
    hi = env.var('hi', 0., 20., nice=(6., 10.))
    z = env.var('z', -0.9, 50., nice=None)
    env.assume_ge(hi, lo + env.num(0.0625))
    if env.choice(2, 'side'):
        env.assume_gt(z, hi)
    else:
        env.assume_gt(lo, z)
    k = fixed_kc(env, lo, hi, 2)
    za, pre = each(env, z, env.choice(3, 'array'))
    one = np.ones(pre + (1,), dtype=np.float32)
    what = env.choice(4, 'what')
    if what == 0:
        c = k.fit_coeffs(redshift=za, maggies=one, ivar=one)
        env.same('zeros', c, np.zeros(pre + (1,)), rtol=0)
    elif what == 1:
        env.raises('refused', ValueError, lambda: k.reconstruct(redshift=za, coeffs=one))
    elif what == 2:
        env.raises('refused', ValueError, lambda: k.reconstruct_out(redshift=za, coeffs=one))
    else:
        env.raises('refused', ValueError, lambda: k.kcorrect(redshift=za, coeffs=one))
    env.cover('o')
