"""C13 projection onto a bandpass, C17 bandpass descriptions, C18 the response
dictionary, C20 the Sun's and Vega's magnitudes."""
import contextlib
import os
import tempfile
import numpy as np
from .common import harness, ff

AB0 = 3.631e-2 * 2.99792


def quiet(env, fwhm=True):
    """leave out the calibrations a Response computes on construction (they read
    and integrate model spectra; C20 is about them)"""
    R = env.kc.response.Response
    R.set_solar_magnitude = lambda self: None
    R.set_vega2ab = lambda self: None
    if not fwhm:
        R.set_fwhm_limits = lambda self: None
    return R


def grid(lo, hi, n, p=1.):
    return [float(np.float32(lo + (hi - lo) * (k / (n - 1.))**p)) for k in range(n)]


# band samples with zero ends
BANDS = {
    'mid': (grid(4000., 6000., 7), [0., 0.4, 0.9, 1., 0.8, 0.3, 0.]),
    'fine': (grid(5000., 5200., 9), [0., 0.2, 0.6, 0.9, 1., 1., 0.7, 0.2, 0.]),
    'skew': (grid(4500., 7700., 6, 1.4), [0., 1., 0.5, 0.7, 0.2, 0.]),
}
# spectrum grids
SEDS = {
    'coarse': grid(2000., 10000., 9),
    'dense': grid(3000., 9000., 25),
    'uneven': grid(2500., 9500., 12, 1.7),
    'left': grid(5100., 11000., 8),       # covers the red part of 'mid' only
    'right': grid(2000., 5100., 8),       # the blue part only
    'oneblue': [3500.] + grid(4300., 9000., 11),   # one sample blueward of the band
    'onered': grid(2000., 5700., 11) + [7000.],    # one sample redward of it
    'fine': grid(3950., 6350., 25),       # more than twice as many samples as the band
}
CASES = [('coarse', 'mid'), ('coarse', 'fine'), ('dense', 'mid'), ('uneven', 'skew'),
         ('left', 'mid'), ('right', 'mid'), ('right', 'skew'), ('oneblue', 'mid'),
         ('onered', 'mid'), ('fine', 'mid')]


def interp_w(xk, x):
    """rows: weights of the cubic interpolation of samples at xk, zero outside"""
    from scipy.interpolate import interp1d
    f = interp1d(np.array(xk), np.eye(len(xk)), kind='cubic', axis=0, bounds_error=False,
                 fill_value=0.)
    return f(np.asarray(x))


def trapw(x):
    d = np.diff(x)
    w = np.zeros(len(x))
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


def refweights(sw, bw, bR):
    """photon-weighted band average relative to AB, as weights on the flux samples
    (both grids merged; nothing outside either)"""
    sw, bw = np.array(sw), np.array(bw)
    g = np.unique(np.concatenate([sw[(sw > bw[0]) & (sw < bw[-1])], bw]))
    R = interp_w(bw, g).dot(np.array(bR))
    q = trapw(g) * R * g
    num = q.dot(interp_w(sw, g))
    den = float((q * AB0 / g**2).sum())
    return num / den


def wdot(env, w, f):
    s = None
    for a, x in zip(w, f):
        t = ff(env, x) * env.frac(float(a))
        s = t if s is None else s + t
    return s


@harness('C13', 'value', must_cover=('v',))
def c13_value(env):
    """value = photon-weighted average over the band relative to a 3631 Jy source,
    whatever the relative sampling and overlap of band and spectrum"""
    R = quiet(env, fwhm=False)
    sn, bn = CASES[env.choice(len(CASES), 'case')]
    sw, (bw, bR) = SEDS[sn], BANDS[bn]
    r = R(wave=np.array(bw), response=np.array(bR))
    f = env.array('f', len(sw), 0.01, 10., nice=(0.5, 2.))
    v = r.project(wave=env.arr(sw), flux=f)
    w = refweights(sw, bw, bR)
    pos = [ff(env, x) * env.frac(float(abs(a))) for a, x in zip(w, f)]
    tot = pos[0]
    for x in pos[1:]:
        tot = tot + x
    d = ff(env, v) - wdot(env, w, f)
    env.shape('shape', v, ())
    # relative to the sum of the absolute contributions
    env.ge('not above', tot * env.frac(5e-4), d, rtol=0)
    env.ge('not below', d, tot * env.frac(-5e-4), rtol=0)
    env.cover('v')


@harness('C13', 'linear', must_cover=('l',))
def c13_linear(env):
    """projection is linear in the spectrum"""
    R = quiet(env, fwhm=False)
    sn, bn = CASES[env.choice(len(CASES), 'case')]
    sw, (bw, bR) = SEDS[sn], BANDS[bn]
    r = R(wave=np.array(bw), response=np.array(bR) + (0.3 if env.choice(2, 'ends') else 0.))
    w = env.arr(sw)
    f = env.array('f', len(sw), 0.01, 10., nice=(0.5, 2.))
    g = env.array('g', len(sw), 0.01, 10., nice=(0.5, 2.))
    k = env.var('k', 0.1, 10., nice=(0.3, 3.))
    a, b = r.project(wave=w, flux=f), r.project(wave=w, flux=g)
    c = r.project(wave=w, flux=f * k + g)
    want = ff(env, a) * ff(env, k) + ff(env, b)
    if env.symbolic:
        env.eq('linear', c, want)
    else:
        # rounding is relative to the fluxes, not to a difference of large terms
        env.eq('linear', c, want, rtol=1e-3, atol=1e-3 * (abs(float(a) * float(k)) + abs(float(b))))
    env.cover('l')


@harness('C13', 'ab', must_cover=('ab',))
def c13_ab(env):
    """the AB source has 1 maggie through any band, k times it k maggies: the
    band's response is arbitrary (also nonzero at its ends) and nonnegative"""
    R = quiet(env, fwhm=False)
    case = env.choice(5, 'grids')
    bw = (grid(4000., 6000., 7), grid(5000., 5200., 6), grid(3300., 8700., 8, 1.3),
          grid(5010., 5060., 5), grid(4000., 6000., 7))[case]
    sw = grid(3000., 9000., (61, 61, 121, 61, 31)[case])
    # monotone up, then down: no overshoot of the interpolation below zero
    n = len(bw)
    top = n // 2
    inc = env.array('inc', n, 0., 1., nice=(0.1, 1.))
    lo = env.var('base', 0.05, 1., nice=(0.1, 1.))
    hi = env.num(1.)
    resp = [lo + env.num(x) for x in np.interp(np.arange(n), [0, top, n - 1], [0., 1., 0.2])]
    # tilt by small arbitrary amounts
    resp = [x + y * 0.05 for x, y in zip(resp, inc)]
    r = R(wave=np.array(bw), response=env.arr(resp))
    k = env.var('k', 0.1, 10., nice=(0.5, 2.))
    s = env.kc.utils.sed_ab(np.array(sw))
    v = r.project(wave=env.arr(sw), flux=env.arr([env.frac(float(x)) * ff(env, k) for x in s]))
    env.eq('AB source', v, k, rtol=2e-3)
    env.cover('ab')


@harness('C13', 'outside', must_cover=('o',))
def c13_outside(env):
    """a band outside the spectrum gives zero, one value per spectrum; one lying
    between two samples does not"""
    R = quiet(env, fwhm=False)
    bw, bR = BANDS['fine']
    r = R(wave=np.array(bw), response=np.array(bR))
    side = env.choice(2, 'side')
    sw = grid(1000., 4990., 6) if side else grid(5210., 9000., 6)
    form = env.choice(4, 'form')
    n = (1, 1, 3, 2)[form]
    f = env.array('f', (n, 6) if form else 6, 0.01, 10., nice=(0.5, 2.))
    if form == 3:
        v = r.project(sed=env.kc.template.SED(wave=env.arr(sw), flux=f))
    else:
        v = r.project(wave=env.arr(sw), flux=f)
    env.shape('shape', v, (n,) if n > 1 else ())
    for x in np.ravel(v) if n > 1 else [v]:
        env.eq('zero', x, 0.)
    # between two samples
    sw = grid(2000., 10000., 9)     # 5000 and 6000 are samples
    nb = [5100., 5150., 5200., 5250., 5300.]
    r = R(wave=np.array(nb), response=np.array([0., 1., 2., 1., 0.]))
    g = env.var('flat', 0.1, 10., nice=(0.5, 2.))
    v = r.project(wave=env.arr(sw), flux=env.arr([g] * 9))
    w = refweights(sw, nb, [0., 1., 2., 1., 0.])
    env.eq('narrow band', v, ff(env, g) * float(w.sum()), rtol=1e-3)
    env.cover('o')


@harness('C13', 'forms', must_cover=('f',))
def c13_forms(env):
    """one spectrum, a stack of spectra, a spectrum object: the same numbers, in
    the order of the spectra; the inputs are left alone"""
    R = quiet(env, fwhm=False)
    sn, bn = CASES[env.choice(len(CASES), 'case')]
    sw, (bw, bR) = SEDS[sn], BANDS[bn]
    r = R(wave=np.array(bw), response=np.array(bR))
    n = 1 + env.choice(3, 'n')
    lo = (0.01, -10.)[env.choice(2, 'negative')]
    z = (0., 0.25)[env.choice(2, 'z')]
    top = 1e-4 * 10. * float(np.abs(refweights([x * (1. + z) for x in sw], bw, bR)).sum())
    f = env.array('f', (n, len(sw)), lo, 10., nice=(0.5, 2.) if lo > 0. else (-2., 2.))
    w = env.arr(sw)
    fs, ws = env.snapshot(f), env.snapshot(w)
    v = r.project(wave=w, flux=f)
    sed = env.kc.template.SED(wave=w, flux=f)
    if z:
        sed.set_redshift(z)
        f0 = f
        w, f = sed.wave, sed.flux
        for i in np.ndindex(*np.shape(f0)):
            env.eq('flux', f[i] * (1. + z), f0[i], rtol=1e-5)
        v = r.project(wave=w, flux=f)
        fs, ws = env.snapshot(f), env.snapshot(w)
    u = r.project(sed=sed)
    env.shape('shape', v, (n,) if n > 1 else ())
    env.shape('sed shape', u, (n,) if n > 1 else ())
    for i in range(n):
        one = r.project(wave=w, flux=f[i])
        env.shape('one shape', one, ())
        a = v[i] if n > 1 else v
        b = u[i] if n > 1 else u
        # with fluxes of both signs, relative to the largest value possible
        kw = dict(rtol=1e-4) if lo > 0. else dict(rtol=0, atol=top)
        env.eq('stack', a, one, **kw)
        env.eq('object', b, one, **kw)
    env.unchanged('flux', f, fs)
    env.unchanged('wave', w, ws)
    env.cover('f')


@harness('C13', 'scale', must_cover=('s',))
def c13_scale(env):
    """the response is relative: its normalisation does not matter"""
    R = quiet(env, fwhm=False)
    sn, bn = CASES[env.choice(len(CASES), 'case')]
    sw, (bw, bR) = SEDS[sn], BANDS[bn]
    k = env.var('k', 0.01, 100., nice=(0.3, 3.))
    ends = 0.3 if env.choice(2, 'ends') else 0.
    bR = [x + ends for x in bR]
    r1 = R(wave=np.array(bw), response=np.array(bR))
    r2 = R(wave=np.array(bw), response=env.arr([k * env.num(x) for x in bR]))
    f = env.array('f', len(sw), 0.01, 10., nice=(0.5, 2.))
    a = r1.project(wave=env.arr(sw), flux=f)
    b = r2.project(wave=env.arr(sw), flux=f)
    env.eq('scaled response', b, a, rtol=1e-3)
    env.eq('effective wavelength', env.log(r2.lambda_eff), env.log(r1.lambda_eff), rtol=0, atol=3e-5)
    env.cover('s')


# ------------------------------------------------------------------ C17

PERMS = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 3, 1, 4), (1, 4, 0, 2, 3),
         (0, 2, 1, 3, 4), (4, 1, 2, 3, 0), (1, 0, 2, 3, 4), (3, 4, 2, 0, 1)]


@harness('C17', 'sorted', must_cover=('p',))
def c17_sorted(env):
    """a bandpass given in any wavelength order, by arrays or from a table, is the
    same bandpass"""
    R = quiet(env, fwhm=False)
    w = [4000., 4500., 5100., 5500., 6000.]
    # responses down to zero, and below it in the wings (as measured ones are)
    v = [env.var('r%d' % k, (-0.01, 0., 0.1, 0., -0.01)[k], 1., nice=(0.2, 0.9)) for k in range(5)]
    p = PERMS[env.choice(len(PERMS), 'perm')]
    src = env.choice(3, 'source')
    pw, pv = [w[k] for k in p], [v[k] for k in p]
    if src == 0:
        r = R(wave=env.arr(pw), response=env.arr(pv))
    elif src == 1:
        q = R()
        q.wave, q.response, q.nwave = env.arr(pw), env.arr(pv), 5
        fn = env.tmpfile('b.fits')
        q.tofits(fn)
        r = R()
        r.fromfits(fn)
    else:
        r = R(filename=env.put_ascii(env.tmpfile('b.dat'), {'lambda': env.arr(pw, dtype=np.float64),
                                                           'pass': env.arr(pv, dtype=np.float64)}))
    env.true('number', int(r.nwave) == 5)
    env.same('wave', r.wave, env.arr(w))
    env.same('response', r.response, env.arr(v))
    # the effective wavelength: exp( sum R ln(l) dl / l  /  sum R dl / l )
    q = trapw(np.array(w))
    num = den = None
    for k in range(5):
        a = ff(env, v[k]) * env.frac(q[k]) / env.frac(w[k])
        b = a * env.log(env.frac(w[k]))
        num = b if num is None else num + b
        den = a if den is None else den + a
    env.eq('effective wavelength', env.log(r.lambda_eff), num / den, rtol=0, atol=3e-5)
    # interpolation goes through the samples and is zero outside
    y = r.interp(np.array(w))
    for k in range(5):
        env.eq('through the samples', y[k], v[k], rtol=1e-4, atol=1e-6)
    y = r.interp(np.array([3999., 6001.]))
    env.eq('zero below', y[0], 0.)
    env.eq('zero above', y[1], 0.)
    env.cover('p')


@harness('C17', 'fwhm', must_cover=('f',), budget_s=250)
def c17_fwhm(env):
    """the half-maximum wavelengths: where the response first and last crosses half
    of its maximum, the band's edge where it never falls below"""
    R = quiet(env)
    w = [4000., 4500., 5000., 5500., 6000.]
    n = 5
    k = env.choice(n, 'peak')
    top = (1., 50., 0.375, 1., 1.)[k]
    v = []
    for i in range(n):
        if i == k:
            v.append(env.num(top))
        else:
            v.append(env.var('r%d' % i, 0., 0.95 * top, nice=(0.05 * top, 0.9 * top)))
    r = R(wave=env.arr(w), response=env.arr(v))
    half = 0.5 * top
    for i in range(n):
        if i != k:
            env.assume_ge(env.abs(ff(env, v[i]) - half), 1e-3 * top)
    up = next(i for i in range(n) if v[i] > half)
    dn = next(i for i in reversed(range(n)) if v[i] > half)
    lo, hi = r.fwhm_low, r.fwhm_high
    env.eq('difference', r.fwhm, ff(env, hi) - ff(env, lo), rtol=1e-3, atol=1e-2)
    if up == 0:
        env.eq('low edge', lo, w[0])
    else:
        env.ge('low', lo, w[up - 1])
        env.ge('low', w[up], lo)
        if not env.symbolic:
            env.eq('half maximum at low', r.interp(lo), half, atol=1e-3 * top)
    if dn == n - 1:
        env.eq('high edge', hi, w[-1])
    else:
        env.ge('high', hi, w[dn])
        env.ge('high', w[dn + 1], hi)
        if not env.symbolic:
            env.eq('half maximum at high', r.interp(hi), half, atol=1e-3 * top)
    env.cover('f')


# ------------------------------------------------------------------ C18

def table(env, name, v=1., n=5):
    if n == 4:
        return env.put_ascii(env.tmpfile(name), {
            'lambda': env.arr([4000., 4500., 5100., 5500.], dtype=np.float64),
            'pass': env.arr([0., 0.5, v, 0.], dtype=np.float64)})
    return env.put_ascii(env.tmpfile(name), {
        'lambda': env.arr([4000., 4500., 5100., 5500., 6000.], dtype=np.float64),
        'pass': env.arr([0., 0.5, v, 0.4, 0.], dtype=np.float64)})


@harness('C18', 'dictionary', must_cover=('d',))
def c18_dict(env):
    """one dictionary however often asked for; loading keeps what is there unless
    told to reload; a failed load leaves no entry and no change"""
    quiet(env, fwhm=False)
    D = env.kc.response.ResponseDict
    d = D()
    v = env.var('v', 0.6, 1., nice=(0.7, 1.))
    p = table(env, 'Xy_J.dat', v)[:-4]
    missing = env.tmpfile('missing')
    bad = env.put_bad_ascii(env.tmpfile('bad.dat'))[:-4]
    # any sequence of four operations
    have = None
    val = v
    for step in range(4):
        op = env.choice(6, 'op%d' % step)
        if op == 0:
            d.load_response(p)
            if have is None:
                have = (d[p], val)
        elif op == 1:
            d.load_response(p, reload=True)
            env.true('reloaded object', have is None or d[p] is not have[0])
            have = (d[p], val)
        elif op == 2:
            env.raises('no file', (ValueError, OSError), lambda: d.load_response(missing))
        elif op == 3:
            try:
                d.load_response(bad)
                env.true('malformed file', False)
            except Exception:
                pass
        elif op == 4:
            val = env.var('v%d' % step, 0.6, 1., nice=(0.7, 1.))
            table(env, 'Xy_J.dat', val)
        else:            # put there by the user
            own = env.var('own%d' % step, 0.6, 1., nice=(0.7, 1.))
            have = (env.kc.response.Response(filename=table(env, 'own.dat', own)), own)
            d[p] = have[0]
        env.true('one dictionary', D() is d)
        env.true('no entry for failures', missing not in d and bad not in d)
        env.true('entries', len(d) == (1 if have else 0) and (have is None or p in d))
        if have:
            env.true('kept', d[p] is have[0])
            env.eq('contents', d[p].response[2], have[1], rtol=1e-5)
    env.cover('d')


@harness('C18', 'failed_reload', must_cover=('r',))
def c18_reload(env):
    """reloading from a file that has gone bad or missing raises and keeps the
    response that was loaded"""
    quiet(env, fwhm=False)
    d = env.kc.response.ResponseDict()
    p = table(env, 'x.dat', 0.8)
    d.load_response(p[:-4])
    old = d[p[:-4]]
    if env.choice(2, 'how'):
        env.put_bad_ascii(p)
    else:
        env.remove_file(p)
    try:
        d.load_response(p[:-4], reload=True)
        env.true('raises', False)
    except Exception:
        pass
    env.true('kept', d.get(p[:-4]) is old)
    env.eq('contents', old.response[2], 0.8, rtol=1e-5)
    d.load_response(p[:-4])
    env.true('kept', d.get(p[:-4]) is old)
    env.cover('r')


@harness('C18', 'listing', must_cover=('l',))
def c18_listing(env):
    """every response file of a directory is listed, nothing else; with validation,
    the malformed ones are left out and the rest become available, keeping what was
    loaded before"""
    quiet(env, fwhm=False)
    rs = env.kc.response
    check = env.choice(2, 'check')
    have = [n for i, n in enumerate(('a.dat', 'b_2.dat', 'c.d.dat')) if env.choice(2, 'has%d' % i)]
    for n in have:
        table(env, n, 0.75)
    have += ['_f.dat', '2m-J+K.dat']
    table(env, have[-2], 0.75, 4)
    table(env, have[-1], 0.75)
    env.put_folder('folder.dat')
    env.put_bad_ascii(env.tmpfile('bad.dat'))
    env.put_bad_ascii(env.tmpfile('notes.txt'))
    env.put_bad_ascii(env.tmpfile('e.dat.old'))
    env.put_bad_ascii(env.tmpfile('fdat'))
    import os
    wd = os.path.dirname(env.tmpfile('a.dat'))
    d = rs.ResponseDict()
    pre = None
    if check and 'a.dat' in have and env.choice(2, 'before'):
        pre = rs.Response(filename=env.tmpfile('a.dat'))
        d['a'] = pre
    if check:
        l = rs.all_responses(response_dir=wd, check_validity=True)
    else:
        l = rs.all_responses(response_dir=wd)
    want = [n[:-4] for n in have] + ([] if check else ['bad'])
    env.true('listing', sorted(l) == sorted(want), 'listed %s, there are %s' % (sorted(l), sorted(want)))
    if check:
        env.true('available', sorted(d) == sorted(want))
        for n in want:
            env.eq('contents', d[n].response[2], 0.75, rtol=1e-5)
        if pre is not None:
            env.true('kept', d['a'] is pre)
    else:
        env.true('nothing loaded', len(d) == 0)
    env.cover('l')


SHIPPED = ('sdss_r0', 'bessell_B', 'galex_FUV')


@harness('C18', 'named', must_cover=('shipped', 'absent'))
def c18_named(env):
    """a band is named by the file shipped with the package or by an absolute path:
    files of that name in the current directory are neither read nor needed"""
    quiet(env, fwhm=False)
    rs = env.kc.response
    name = (SHIPPED + ('only_here',))[env.choice(4, 'name')]
    via = env.choice(3, 'via')
    there = env.choice(2, 'there')
    if name == 'only_here' and not there:
        name = 'nowhere'

    def load():
        if via == 0:
            d = rs.ResponseDict()
            d.load_response(name)
            return d[name]
        if via == 1:
            return rs.Response(filename=name + '.dat')
        r = rs.Response()
        r.fromdat(filename=name + '.dat')
        return r
    with scratch_cwd():
        if there:
            with open(name + '.dat', 'w') as f:
                f.write('| lambda | pass |\n' + ''.join(
                    '| %6.0f | %4.2f |\n' % x for x in ((3000., 0.), (3100., 1.), (3200., 1.),
                                                        (3300., 0.5), (3400., 0.))))
        if name in SHIPPED:
            r = load()
            w, v = shipped(name)
            env.cover('shipped')
            env.shape('samples', r.wave, (len(w),))
            env.same('wave', r.wave, np.array(w))
            env.same('response', r.response, np.array(v), atol=1e-6)
        else:
            env.raises('refused', (ValueError, OSError), load)
            env.true('no entry', name not in rs.ResponseDict())
            env.cover('absent')


@contextlib.contextmanager
def scratch_cwd():
    wd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='kcv-') as t:
        os.chdir(t)
        try:
            yield
        finally:
            os.chdir(wd)


def shipped(name):
    from symk import loader
    rows, col = [], None
    with open(os.path.join(loader.SRC, 'kcorrect', 'data', 'responses', name + '.dat')) as f:
        for line in f:
            x = line.replace('|', ' ').split()
            if line.startswith('#') or not x:
                continue
            if col is None:
                col = x.index('lambda'), x.index('pass')
            else:
                rows.append((float(x[col[0]]), float(x[col[1]])))
    rows.sort(key=lambda r: r[0])
    return [r[0] for r in rows], [r[1] for r in rows]


# ------------------------------------------------------------------ C20

def basel_stub(env, wave_nm, flux, info=None):
    """the model spectrum the package reads"""
    seen = []

    def read(filename=None):
        seen.append(filename)
        f = flux['lcbvega.ori' if 'vega' in str(filename) else 'lcbsun.ori']
        w = wave_nm
        if isinstance(w, dict):
            w = w['lcbvega.ori' if 'vega' in str(filename) else 'lcbsun.ori']
        return dict(info or {}), env.arr(w), env.arr([f])
    orig = env.kc.utils.read_basel
    for m in (env.kc.utils, env.kc.response, env.kc.template, env.kc):
        if getattr(m, 'read_basel', None) is orig:
            m.read_basel = read
    return seen


@harness('C20', 'offsets', must_cover=('sun', 'vega'))
def c20_offsets(env):
    """absolute solar magnitude and Vega offset: -2.5 log10 of the projection of the
    model at 10 pc / at Vega's distance, from flux per frequency at the surface"""
    wnm = grid(300., 900., 13)
    # the shape: level, or rising or falling steeply over the sampled range
    bn = ('mid', 'fine', 'red', 'blue', 'over', 'under')[env.choice(6, 'band')]
    # ('over' and 'under' extend beyond the models)
    edge = bn in ('over', 'under')
    st = 1. if edge else (1., 2.5, 0.4)[env.choice(3, 'slope')]
    # down to models of hardly any flux
    faint = (1., 1e-9)[env.choice(2, 'faint')]
    # erg/s/cm2/Hz/sr at the stellar surface, around 1e-6 .. 1e-4
    sun = [env.var('sun%d' % k, 0.8, 1.25, nice=(0.9, 1.1)) for k in range(13)]
    veg = [env.var('veg%d' % k, 0.8, 1.25, nice=(0.9, 1.1)) for k in range(13)]
    S = [3e-5 * faint * st**k for k in range(13)]
    V = [4e-4 * faint * st**k for k in range(13)]
    basel_stub(env, wnm, {'lcbsun.ori': [x * s for x, s in zip(sun, S)],
                          'lcbvega.ori': [x * s for x, s in zip(veg, V)]})
    R = env.kc.response.Response
    R.set_fwhm_limits = lambda self: None
    bw, bR = {'over': (grid(8500., 9600., 6), [0., 0.6, 1., 0.8, 0.5, 0.]),
              'under': (grid(2500., 3700., 6), [0., 0.6, 1., 0.8, 0.5, 0.]),
              'red': (grid(8010., 8800., 6), [0., 0.6, 1., 0.8, 0.5, 0.]),
              'blue': (grid(3100., 3700., 6), [0., 0.6, 1., 0.8, 0.5, 0.])}.get(bn) or BANDS[bn]
    r = R(wave=np.array(bw), response=np.array(bR))
    sw = [float(np.float32(x)) * 10. for x in wnm]
    w = refweights(sw, bw, bR)
    for nm, f, sc, rad, dist, got in (('sun', sun, S, 6.96e10, 10., r.solar_magnitude),
                                      ('vega', veg, V, 1.91144e11, 7.68, r.vega2ab)):
        c = [4. * np.pi * s * 2.99792e18 / x**2 * (rad / (dist * 3.086e18))**2
             for x, s in zip(sw, sc)]
        m = wdot(env, [a * b for a, b in zip(w, c)], f)
        env.true(nm + ' has a value', got is not None)
        env.eq(nm, env.pow10(ff(env, got) * env.frac(-0.4)), m, rtol=5e-4)
        env.cover(nm)


@harness('C20', 'outside', must_cover=('o',))
def c20_outside(env):
    """a band outside a model's wavelengths has no such magnitude, and says so with
    None, whether or not it has the other"""
    out = grid(300., 480., 8) if env.choice(2, 'side') else grid(700., 900., 8)
    which = env.choice(3, 'which')
    wnm = {'lcbsun.ori': grid(400., 700., 8) if which == 1 else out,
           'lcbvega.ori': grid(400., 700., 8) if which == 2 else out}
    k = env.var('k', 0.5, 2., nice=(0.8, 1.2))
    basel_stub(env, wnm, {'lcbsun.ori': [k * 3e-5] * 8, 'lcbvega.ori': [k * 4e-4] * 8})
    R = env.kc.response.Response
    R.set_fwhm_limits = lambda self: None
    bw, bR = BANDS['fine']
    r = R(wave=np.array(bw), response=np.array(bR))
    env.true('solar magnitude', (r.solar_magnitude is None) == (which != 1))
    env.true('Vega offset', (r.vega2ab is None) == (which != 2))
    env.cover('o')


@harness('C20', 'parse', must_cover=('p',))
def c20_parse(env):
    """the model file: wavelengths first, then per model six parameters and its
    fluxes, in order"""
    nu = 1 + env.choice(2, 'models')
    NW = 1221
    mark = [0, 1, 2, 700, 1219, 1220]
    tok = []
    wv, fv, hv = {}, {}, {}
    for k in range(NW):
        if k in mark:
            wv[k] = env.var('w%d' % k, 9., 160000., nice=(100., 2000.))
            tok.append(wv[k])
        else:
            tok.append('%.1f' % (10. + k))
    for u in range(nu):
        no = 3 + 7 * u
        tok.append(str(no))
        for j in range(5):
            hv[u, j] = env.var('h%d_%d' % (u, j), -100., 100., nice=(-5., 5.))
            tok.append(hv[u, j])
        for k in range(NW):
            if k in mark:
                fv[u, k] = env.var('f%d_%d' % (u, k), 0., 1., nice=(0.1, 1.))
                tok.append(fv[u, k])
            else:
                # far bluewards and redwards there is next to nothing
                tok.append('3.1000E-17' if k == 640 else '%.4E' % (1e-3 + 1e-6 * k + 1e-2 * u))
    fn = env.put_text(env.tmpfile('m.ori'), tok)
    info, wave, flux = env.kc.utils.read_basel(filename=fn)
    env.shape('wave', wave, (NW,))
    env.shape('flux', flux, (nu, NW))
    for k in mark:
        env.eq('wave', wave[k], wv[k], rtol=1e-5)
    env.eq('wave', wave[500], 510., rtol=1e-5)
    for u in range(nu):
        env.true('number', int(info['modelno'][u]) == 3 + 7 * u)
        for j, n in enumerate(('teff', 'logg', 'mh', 'vturb', 'xh')):
            env.eq(n, info[n][u], hv[u, j], rtol=1e-5, atol=1e-6)
        for k in mark:
            env.eq('flux', flux[u, k], fv[u, k], rtol=1e-5, atol=0)
        env.eq('faint flux', flux[u, 640], 3.1e-17, rtol=1e-3)
        env.eq('flux', flux[u, 500], 1e-3 + 5e-4 + 1e-2 * u, rtol=1e-3)
    env.cover('p')
