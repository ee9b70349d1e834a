"""C16 saving and reading back."""
import numpy as np
from .common import harness, rig, ff, coeffs, FakeResponse, W0, BASE, Cosmo
from .c_resp import quiet

PROPS = ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')
OUTS = [(None, None), (('C', 'D'), ('B', 'A')), (('C', 'A', 'D'), ('B', 'B', 'A')),
        (('D',), ('B',)), (('B', 'A'), ('A', 'B'))]


def template(env, nt, name='t0.fits', interpolate=False, binimage=False, sym=True):
    """a template set read from a file written by the package"""
    T = env.kc.template.Template
    t = T.__new__(T)
    flux = env.arr(BASE[:nt])
    env.kc.template.SED.__init__(t, wave=env.arr(W0), flux=flux, interpolate=False)
    t.binimage = binimage
    for nm in PROPS:
        v = env.array(nm, nt, 0.01, 10., nice=(0.2, 2.)) if sym else \
            env.arr([1. + 0.25 * j + 0.1 * len(nm) for j in range(nt)])
        setattr(t, nm, v)
    fn = env.tmpfile(name)
    t.tofits(filename=fn)
    return t, T(filename=fn, interpolate=interpolate)


def same_templates(env, a, b, rest=True):
    env.true('number of templates', int(a.nsed) == int(b.nsed))
    env.true('number of wavelengths', int(a.nwave) == int(b.nwave))
    for nm in PROPS:
        env.same('template ' + nm, getattr(a, nm), getattr(b, nm), rtol=0)
    env.same('template wave', a.restframe_wave, b.restframe_wave, rtol=0)
    env.same('template flux', a.restframe_flux, b.restframe_flux, rtol=0)
    env.true('read at redshift zero', float(a.redshift) == 0.)
    env.same('template wave now', a.wave, b.restframe_wave, rtol=0)
    env.same('template flux now', a.flux, b.restframe_flux, rtol=0)


def same_settings(env, a, b):
    """attributes of the object read (a) and of the object written (b)"""
    env.true('nredshift', int(a.nredshift) == int(b.nredshift) and np.ndim(a.nredshift) == 0)
    env.true('abcorrect', bool(a.abcorrect) == bool(b.abcorrect) and np.ndim(a.abcorrect) == 0)
    env.same('redshift_range', a.redshift_range, b.redshift_range, rtol=0)
    env.same('redshifts', a.redshifts, b.redshifts, rtol=0)
    for nm in ('responses', 'responses_out', 'responses_map'):
        env.true(nm, [str(x) for x in getattr(a, nm)] == [str(x) for x in getattr(b, nm)],
                 '%s: %s, was %s' % (nm, getattr(a, nm), getattr(b, nm)))
    env.true('imap', [int(x) for x in a.imap] == [int(x) for x in b.imap])


def small(env, out=(None, None), nt=2, cls='Kcorrect', abcorrect=False, zr=(0., 2.), nz=3,
          tmpl=None, interpolate=False, responses=('A', 'B'), cosmo=None, sym_tables=True, **kw):
    g = rig(env, responses=responses, out=out[0], rmap=out[1], nt=nt, nz=nz, zr=zr, build=False,
            symt=False, sym_tables=sym_tables, **kw)
    if tmpl is None:
        tmpl = template(env, nt, interpolate=interpolate)[1]
    g.tmpl = tmpl
    C = getattr(env.kc.kcorrect, cls)
    g.kc = C(responses=g.responses, templates=tmpl, responses_out=g.out, responses_map=g.rmap,
             redshift_range=list(zr), nredshift=nz, abcorrect=abcorrect, cosmo=g.cosmo)
    return g


@harness('C16', 'object', must_cover=('o',), budget_s=300, weight=4)
def c16_object(env):
    """settings, bands, map, grid, templates and matrices come back"""
    out = OUTS[env.choice(len(OUTS), 'outs')]
    nt = 1 + env.choice(2, 'nt')
    zr, nz = (((0., 2.), 3), ((0.25, 1.25), 2), (ODD, 11))[env.choice(3, 'range')]
    # entries of any sign and size
    g = small(env, out, nt=nt, abcorrect=bool(env.choice(2, 'abcorrect')), zr=zr, nz=nz,
              interpolate=bool(env.choice(2, 'interpolate')), alo=-10., anice=(-2., 2.))
    fn = env.tmpfile('k.fits')
    again = env.choice(3, 'again')
    if again == 2:
        # where another object was saved before
        h = small(env, (('B',), ('A',)), nt=3 - nt, zr=(0., 1.), nz=2, abcorrect=True, sym_tables=False,
                  tmpl=template(env, 3 - nt, 't%d.fits' % (3 - nt), sym=False)[1])
        for n in g.resp:
            dict.__setitem__(env.kc.response.ResponseDict(), n, g.resp[n])
        h.kc.tofits(filename=fn)
    g.kc.tofits(filename=fn)
    if again == 1:
        g.kc.tofits(filename=fn)
    k = env.kc.kcorrect.Kcorrect(filename=fn, cosmo=g.cosmo)
    if again == 1:
        fn2 = env.tmpfile('k2.fits')
        k.tofits(filename=fn2)
        k = env.kc.kcorrect.Kcorrect(filename=fn2, cosmo=g.cosmo)
    same_settings(env, k, g.kc)
    same_templates(env, k.templates, g.tmpl)
    for b in range(len(g.out_eff)):
        env.true('map', g.responses[int(k.imap[b])] == g.map_eff[b])
    # (rounding of redshifts that are no binary fractions)
    at = 1e-4 if nz == 11 else 0.
    for q, z in enumerate(g.zs):
        z = g.kc.redshifts[q]
        A, B = k.Amatrix(z), k.AmatrixOut(z)
        env.shape('A', A, (len(g.responses), nt))
        env.shape('A out', B, (len(g.out_eff), nt))
        for j in range(nt):
            for b, n in enumerate(g.responses):
                env.eq('A', A[b, j], g.table[n][q][j], rtol=1e-5, atol=at)
            for b, n in enumerate(g.out_eff):
                env.eq('A out', B[b, j], g.table[n][q][j], rtol=1e-5, atol=at)
    env.cover('o')


ODD = (0.015625, 1.703125)
LONG = ['decam_g', 'a_directory_of_bands/of_some_survey/with_a_long_name_u',
        'a_directory_of_bands/of_some_survey/with_a_long_name_g', '/data/bands/x']


@harness('C16', 'names', must_cover=('n',))
def c16_names(env):
    """bands are named by paths, of any length up to that of the file format"""
    n = 1 + env.choice(4, 'n')
    k = env.choice(3, 'order')
    names = (LONG[:n], LONG[::-1][:n], [x + 'x' * 140 for x in LONG[:n]])[k]
    m = env.choice(n, 'mapped')
    o = env.choice(4, 'output')
    g = small(env, ([LONG[o], names[m]], [names[m], names[0]]), responses=names, nt=1, nz=2,
              sym_tables=False)
    fn = env.tmpfile('k.fits')
    g.kc.tofits(filename=fn)
    k = env.kc.kcorrect.Kcorrect(filename=fn, cosmo=g.cosmo)
    same_settings(env, k, g.kc)
    env.cover('n')


@harness('C16', 'grid_fp', must_cover=('g',), mode='fp', budget_s=300, timeout_ms=60000, weight=5)
def c16_grid_fp(env):
    """for all 32-bit limits: the grid and the limits read are those written, bit for
    bit, and the object read can use every redshift the one written could
    (which follows from the same grid, and is decided for two points)"""
    from .c_tmpl import FixedResponse
    n = 2 + env.choice(2, 'n')
    lo = env.var('lo', 0., 10., nice=(0., 5.))
    hi = env.var('hi', 0., 20., nice=(6., 10.))
    z = env.var('z', 0., 20., nice=(5., 6.))
    env.assume_ge(hi, lo + env.num(0.0625))
    env.assume_ge(z, lo)
    env.assume_ge(hi, z)
    d = env.kc.response.ResponseDict()
    dict.__setitem__(d, 'A', FixedResponse())
    t = template(env, 1, sym=False)[1]
    K = env.kc.kcorrect.Kcorrect
    k = K(responses=['A'], templates=t, redshift_range=[lo, hi], nredshift=n, cosmo=Cosmo(env, 40., 1.))
    fn = env.tmpfile('k.fits')
    k.tofits(filename=fn)
    q = K(filename=fn, cosmo=k.cosmo)
    env.shape('grid', q.redshifts, (n,))
    env.same('grid', q.redshifts, k.redshifts, rtol=0)
    env.same('limits', q.redshift_range, k.redshift_range, rtol=0)
    if n == 2:
        m = q.reconstruct(redshift=z, coeffs=np.ones(1, dtype=np.float32))
        env.shape('usable', m, (1,))
    env.cover('g')


@harness('C16', 'results', must_cover=('r',), budget_s=300, weight=5)
def c16_results(env):
    """the object read back gives the results of the one written"""
    out = (OUTS[0], OUTS[2], OUTS[3])[env.choice(3, 'outs')]
    what = env.choice(5, 'what')
    g = small(env, out, nz=2, sym_tables=('A', 'C'))
    fn = env.tmpfile('k.fits')
    g.kc.tofits(filename=fn)
    if env.choice(2, 'how'):
        k = env.kc.kcorrect.Kcorrect(filename=fn, cosmo=g.cosmo)
    else:
        # into an object that has other settings
        h = small(env, (('B',), ('A',)), nt=1, zr=(0., 1.), nz=2, abcorrect=True, sym_tables=False,
                  tmpl=template(env, 1, 't1.fits', sym=False)[1])
        for n in g.resp:
            dict.__setitem__(env.kc.response.ResponseDict(), n, g.resp[n])
        k = h.kc
        k.fromfits(filename=fn)
        k.cosmo = g.cosmo
        same_settings(env, k, g.kc)
        same_templates(env, k.templates, g.tmpl)
    z = env.var('z', 0., 2., nice=(0.1, 1.9))
    c = coeffs(env, 'c', 2)
    m = env.array('m', 2, 0.1, 5., nice=(0.2, 4.))
    iv = env.array('iv', 2, 0.1, 100., nice=(0.2, 9.))
    if what == 0:
        a, b = [x.fit_coeffs(redshift=z, maggies=m, ivar=iv) for x in (k, g.kc)]
        # the optimum need not be unique: the model fluxes are
        ma, mb = k.reconstruct(redshift=z, coeffs=a), g.kc.reconstruct(redshift=z, coeffs=b)
        env.same('fit', ma, mb, rtol=1e-3, atol=1e-3)
    elif what == 1:
        a, b = [x.kcorrect(redshift=z, coeffs=c, band_shift=0.25) for x in (k, g.kc)]
        env.same('kcorrect', a, b, rtol=0, atol=1e-3)
    elif what == 2:
        a, b = [x.absmag(redshift=env.arr([z]), coeffs=env.arr([c]), maggies=env.arr([m]),
                         ivar=env.arr([iv])) for x in (k, g.kc)]
        env.same('absmag', a, b, rtol=0, atol=1e-3)
    elif what == 3:
        a, b = [x.derived(redshift=z, coeffs=c) for x in (k, g.kc)]
        for q in a:
            env.same('derived ' + q, a[q], b[q], rtol=1e-3)
    else:
        a, b = [x.reconstruct_out(redshift=z, coeffs=c) for x in (k, g.kc)]
        env.same('reconstruct_out', a, b, rtol=1e-4)
    env.cover('r')


@harness('C16', 'subclass', must_cover=('s',), budget_s=300)
def c16_subclass(env):
    """instrument objects: reading into an object of the same kind, whatever its own
    correction setting, restores the correction that was saved"""
    cls = ('KcorrectSDSS', 'KcorrectGST')[env.choice(2, 'cls')]
    on = bool(env.choice(2, 'on'))
    nb = 5 if cls == 'KcorrectSDSS' else 10
    names = ['b%d' % i for i in range(nb)]
    g = small(env, nt=1, nz=2, cls=cls, abcorrect=on, responses=names, sym_tables=False)
    h = small(env, nt=1, nz=2, cls=cls, abcorrect=not on, responses=names, sym_tables=False,
              tmpl=template(env, 1, 't1.fits', sym=False)[1])
    fn = env.tmpfile('k.fits')
    g.kc.tofits(filename=fn)
    h.kc.fromfits(filename=fn)
    h.kc.cosmo = g.cosmo
    same_settings(env, h.kc, g.kc)
    m = env.array('m', nb, 0.1, 5., nice=(0.2, 4.))
    iv = env.array('iv', nb, 0.1, 100., nice=(0.2, 9.))
    a, b = [x.absmag(redshift=env.num(0.5), coeffs=env.arr([1.]), maggies=m, ivar=iv)
            for x in (h.kc, g.kc)]
    env.same('absmag', a, b, rtol=0, atol=1e-3)
    env.cover('s')


@harness('C16', 'bands_loaded', must_cover=('l',))
def c16_loaded(env):
    """reading an object makes every band it uses available"""
    out = OUTS[env.choice(len(OUTS), 'outs')]
    g = small(env, out, nt=1, nz=2, sym_tables=False)
    fn = env.tmpfile('k.fits')
    g.kc.tofits(filename=fn)
    d = env.kc.response.ResponseDict()
    keep = env.choice(2, 'keep')
    if keep:
        a = dict.__getitem__(d, 'A')
    dict.clear(d)
    if keep:
        dict.__setitem__(d, 'A', a)
    asked = []

    def fromdat(self, filename=None):
        asked.append(filename)
        self.solar_magnitude = None
    env.kc.response.Response.fromdat = fromdat
    env.kc.kcorrect.Kcorrect(filename=fn, cosmo=g.cosmo)
    for n in set(g.responses) | set(g.out_eff):
        env.true('available', n in d, n)
    if keep:
        env.true('kept', dict.__getitem__(d, 'A') is a)
    env.cover('l')


@harness('C16', 'sed', must_cover=('s',))
def c16_sed(env):
    """spectra: as a table or as images, written at any redshift"""
    n = env.choice(3, 'n')
    nw = 4 + env.choice(2, 'nw')
    shape = (nw,) if n == 0 else (n, nw)
    f = env.array('f', shape, -5., 10., nice=(0.5, 2.))
    w = np.array([2000., 3000., 4500., 6000., 8000.], dtype=np.float32)[:nw]
    s = env.kc.template.SED(wave=env.arr(w), flux=f, interpolate=bool(env.choice(2, 'i')))
    s.binimage = bool(env.choice(2, 'binimage'))
    if env.choice(2, 'shifted'):
        s.set_redshift(0.5)
    fn = env.tmpfile('s.fits')
    if not s.binimage and env.choice(2, 'ext'):
        s.tofits(filename=fn, ext='SPEC')
        t = env.kc.template.SED(filename=fn, ext='SPEC', interpolate=True)
    else:
        s.tofits(filename=fn)
        t = env.kc.template.SED(filename=fn, interpolate=True)
    rows = max(n, 1)
    env.true('form', bool(t.binimage) == s.binimage)
    env.true('counts', int(t.nsed) == rows and int(t.nwave) == nw)
    for nm in ('restframe_wave', 'wave'):
        env.same(nm, getattr(t, nm), env.arr(w), rtol=0)
    f2 = f.reshape(rows, nw)
    for nm in ('restframe_flux', 'flux'):
        env.same(nm, getattr(t, nm), f2, rtol=0)
    env.true('redshift', float(t.redshift) == 0.)
    t.set_redshift(1.)
    env.eq('usable', t.flux[0, 1], ff(env, f2[0, 1]) / 2., rtol=1e-5)
    y = np.reshape(t.interp(2. * w[1:2].astype(np.float64)), (rows,))
    env.eq('usable', y[0], ff(env, f2[0, 1]) / 2., rtol=1e-4, atol=1e-4)
    # replacing the file
    s.restframe_flux = s.restframe_flux * 2.
    s.tofits(filename=fn)
    u = env.kc.template.SED(filename=fn)
    env.eq('replaced', u.flux[rows - 1, nw - 1], ff(env, f2[rows - 1, nw - 1]) * 2., rtol=1e-5)

    def keep():
        s.tofits(filename=fn, clobber=False)
    env.raises('not replaced when told not to', OSError, keep)
    env.cover('s')


@harness('C16', 'template', must_cover=('t',))
def c16_template(env):
    """template sets, in both forms; files without the youngest mass column"""
    nt = 1 + env.choice(3, 'nt')
    b = bool(env.choice(2, 'binimage'))
    t, T = template(env, nt, binimage=b, interpolate=bool(env.choice(2, 'i')))
    same_templates(env, T, t)
    env.true('form', bool(T.binimage) == b)
    fn = env.tmpfile('u.fits')
    if env.choice(2, 'second'):
        T.set_redshift(0.5)
    T.tofits(filename=fn)
    U = env.kc.template.Template(filename=fn)
    same_templates(env, U, t)
    env.true('form', bool(U.binimage) == b)
    # a file from before m50 was recorded
    h = env.fits.open(fn)
    new = env.fits.HDUList([x for x in h if x.name != 'M50'])
    fo = env.tmpfile('old.fits')
    new.writeto(fo)
    V = env.kc.template.Template(filename=fo)
    for q in PROPS:
        env.same('old ' + q, getattr(V, q), env.arr([0.] * nt) if q == 'm50' else getattr(t, q), rtol=0)
    env.cover('t')


@harness('C16', 'band', must_cover=('b',))
def c16_band(env):
    """bands as binary tables"""
    quiet(env, fwhm=False)
    n = 4 + env.choice(2, 'n')
    w = [3000., 3500., 4200., 5000., 5600.][:n]
    r = env.array('r', n, 0.05, 1., nice=(0.1, 0.9), dtype=(np.float32, np.float64)[env.choice(2, 'dtype')])
    order = ([0, 1, 2, 3, 4], [3, 1, 0, 2, 4])[env.choice(2, 'order')][:n]
    R = env.kc.response.Response(wave=env.arr([w[i] for i in order], dtype=np.float64),
                                 response=env.arr([r[i] for i in order], dtype=r.dtype))
    fn = env.tmpfile('r.fits')
    R.tofits(filename=fn)
    S = env.kc.response.Response()
    S.fromfits(filename=fn)
    env.true('count', int(S.nwave) == n)
    env.same('wave', S.wave, env.arr(w, dtype=np.float64), rtol=0)
    env.same('response', S.response, r, rtol=0)
    env.eq('effective wavelength', S.lambda_eff, R.lambda_eff, rtol=1e-6)
    for x in (3100., 4000., 4900.):
        env.eq('interpolation', S.interp(x), R.interp(x), rtol=1e-5, atol=1e-6)
    env.cover('b')
