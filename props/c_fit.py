"""C01 optimality of the fit, C02 batch = scalar, C07 Monte Carlo."""
import numpy as np
from . import common
from .common import harness, rig, Aspec, dot, ff, coeffs, mspec


def TIER():
    return common.TIER


def kkt(env, g, rows, maggies, ivar, c, tag='', scale=1.):
    """nonnegative least squares conditions of sum ivar (m - A c)^2 (fluxes and
    coefficients in units of scale)"""
    if scale != 1.:
        f = env.frac(scale)
        c = [ff(env, x) / f for x in c]
        maggies = [ff(env, x) / f for x in maggies]
        ivar = [ff(env, x) * f * f for x in ivar]
    nt = g.nt
    nb = len(maggies)
    model = [dot(env, rows[b], c) for b in range(nb)]
    for t in range(nt):
        env.ge(tag + 'nonnegative', c[t], 0., atol=1e-7)
        am = sum(ff(env, ivar[b]) * ff(env, rows[b][t]) * ff(env, maggies[b]) for b in range(nb))
        ac = sum(ff(env, ivar[b]) * ff(env, rows[b][t]) * model[b] for b in range(nb))
        env.ge(tag + 'optimal', ac, am, rtol=4e-3, atol=1e-3)
        env.eq(tag + 'complementary', ff(env, c[t]) * ac, ff(env, c[t]) * am, rtol=8e-3, atol=2e-3)


@harness('C01', 'scalar', must_cover=('fit',), witnesses=8)
def fit_scalar(env):
    g = rig(env, responses=('A', 'B', 'C'), interpolate=bool(env.choice(2, 'interp')),
            alo=0., symt=False)
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    m = env.array('m', 3, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', 3, 0., 100., nice=(0.3, 4.))
    c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
    env.shape('shape', c, (2,))
    kkt(env, g, [Aspec(g, n, z) for n in g.responses], m, iv, c)
    env.cover('fit')


@harness('C01', 'batch', must_cover=('fit',))
def fit_batch(env):
    n = 2
    g = rig(env, responses=('A', 'B'), symt=False, alo=0.)
    z = env.arr([env.var('z0', 0., 1., nice=(0.05, 0.95)), env.var('z1', 1., 2., nice=(1.05, 1.95))])
    m = env.array('m', (n, 2), -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', (n, 2), 0., 100., nice=(0.3, 4.))
    c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
    env.shape('shape', c, (n, 2))
    for i in range(n):
        kkt(env, g, [Aspec(g, b, z[i]) for b in g.responses], m[i], iv[i], c[i])
    env.cover('fit')


@harness('C01', 'sizes', must_cover=('more bands', 'more templates', 'twice'))
def fit_sizes(env):
    """more bands than templates, more templates than bands, a band observed twice"""
    k = env.choice(3, 'what')
    r, nt = (('A', 'B', 'C', 'D', 'E'), ('A', 'B'), ('B', 'A', 'B'))[k], (2, 3, 2)[k]
    nb = len(r)
    g = rig(env, responses=r, nt=nt, alo=0., symt=False, sym_tables=('A',), solar='none')
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    m = env.array('m', nb, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', nb, 0., 100., nice=(0.3, 4.))
    if env.choice(2, 'array'):
        c = g.kc.fit_coeffs(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]))[0]
    else:
        c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
    env.shape('shape', c, (nt,))
    kkt(env, g, [Aspec(g, n, z) for n in r], m, iv, c)
    env.cover(('more bands', 'more templates', 'twice')[k])


@harness('C01', 'catalogue', must_cover=('fit',))
def fit_catalogue(env):
    """fluxes and inverse variances of the size found in catalogues"""
    g = rig(env, responses=('A', 'B'), symt=False, alo=0.)
    s = (2.**-32, 2.**-44)[env.choice(2, 'scale')]
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    m = env.array('m', 2, -5. * s, 5. * s, nice=(0.1 * s, 2. * s))
    iv = env.array('iv', 2, 0., 100. / s**2, nice=(0.3 / s**2, 4. / s**2))
    if env.choice(2, 'array'):
        c = g.kc.fit_coeffs(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]))[0]
    else:
        c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
    kkt(env, g, [Aspec(g, n, z) for n in g.responses], m, iv, c, scale=s)
    env.cover('fit')


@harness('C01', 'zero_ivar', must_cover=('fit',))
def zero_ivar(env):
    """a band with zero inverse variance does not influence the fit"""
    g = rig(env, responses=('A', 'B', 'C'), symt=False)
    arrayed = env.choice(2, 'array')
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    k = env.choice(3, 'band')
    m = env.array('m', 3, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', 3, 0., 100., nice=(0.3, 4.))
    junk = env.var('junk', -50., 50., nice=(5., 20.))
    m1 = [m[i] for i in range(3)]
    iv1 = [iv[i] for i in range(3)]
    iv1[k] = 0.
    m2 = list(m1)
    m2[k] = junk
    if env.choice(2, 'invalid'):
        # the usual marks of a band that was not measured
        m2[k] = (env.num(float('nan')), env.num(float('inf')))[env.choice(2, 'mark')]
    if arrayed:
        zz = env.arr([z])
        c1 = g.kc.fit_coeffs(redshift=zz, maggies=env.arr([m1]), ivar=env.arr([iv1]))[0]
        c2 = g.kc.fit_coeffs(redshift=zz, maggies=env.arr([m2]), ivar=env.arr([iv1]))[0]
    else:
        c1 = g.kc.fit_coeffs(redshift=z, maggies=env.arr(m1), ivar=env.arr(iv1))
        c2 = g.kc.fit_coeffs(redshift=z, maggies=env.arr(m2), ivar=env.arr(iv1))
    env.same('ignored band', c1, c2, rtol=2e-3, atol=1e-5)
    env.cover('fit')


@harness('C01', 'perfect_data', must_cover=('fit',))
def perfect(env):
    """noise-free data of a nonnegative combination are fitted exactly"""
    g = rig(env, responses=('A', 'B'), symt=False)
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    c0 = env.array('c', 2, 0., 10., nice=(0.1, 2.))
    iv = env.array('iv', 2, 0.01, 100., nice=(0.3, 4.))
    m = g.kc.reconstruct(redshift=z, coeffs=c0)
    env.shape('shape', m, (2,))
    c = g.kc.fit_coeffs(redshift=z, maggies=env.arr(m), ivar=iv)
    kkt(env, g, [Aspec(g, n, z) for n in g.responses], [mspec(g, n, z, c0) for n in g.responses],
        iv, c)
    env.cover('fit')


@harness('C01', 'unequal_weights', must_cover=('fit',))
def unequal_weights(env):
    """however unequal the weights, noise-free data are fitted in every band that has
    any"""
    nb = 2 + env.choice(2, 'bands')
    g = rig(env, responses=('A', 'B', 'C')[:nb], symt=False, sym_tables=False)
    z = (0., 1., 1.5)[env.choice(3, 'z')]
    w = (1e-3, 1e-6, 1e-9)[env.choice(3, 'ratio')]
    k = env.choice(nb, 'heavy')
    c0 = env.array('c', 2, 0., 10., nice=(0.1, 2.))
    m = [mspec(g, n, z, c0) for n in g.responses]
    iv = [100. * (1. if i == k else w) for i in range(nb)]
    c = g.kc.fit_coeffs(redshift=env.num(z), maggies=env.arr(m), ivar=env.arr(iv))
    env.shape('shape', c, (2,))
    for i, n in enumerate(g.responses):
        env.eq('band', dot(env, Aspec(g, n, z), c), m[i], rtol=2e-3, atol=2e-3)
    env.cover('fit')


@harness('C01', 'out_of_range', must_cover=('out',))
def outofrange(env):
    """outside the redshift range the coefficients are zero"""
    g = rig(env, responses=('A', 'B'), symt=False)
    side = env.choice(2, 'side')
    z = env.var('zlo', -0.9, -1e-3, nice=(-0.5, -0.01)) if side else \
        env.var('zhi', 2.001, 20., nice=(2.01, 5.))
    m = env.array('m', 2, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', 2, 0., 100., nice=(0.3, 4.))
    mode = env.choice(3, 'shape')
    if mode == 0:
        c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
        env.shape('shape', c, (2,))
    elif mode == 1:
        c = g.kc.fit_coeffs(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]))
        env.shape('shape', c, (1, 2))
    else:
        zin = env.var('zin', 0., 2., nice=(0.05, 1.95))
        c = g.kc.fit_coeffs(redshift=env.arr([z, zin]), maggies=env.arr([m, m]),
                            ivar=env.arr([iv, iv]))
        env.shape('shape', c, (2, 2))
        kkt(env, g, [Aspec(g, n, zin) for n in g.responses], m, iv, c[1])
        c = c[0]
    env.same('zero coefficients', np.reshape(c, (2,)), env.arr([0., 0.]))
    env.cover('out')


@harness('C01', 'one_band', must_cover=('fit',))
def one_band(env):
    """a single band, one or two templates, scalar and one-element array"""
    nt = 1 + env.choice(2, 'nt')
    arrayed = env.choice(2, 'array')
    g = rig(env, responses=('A',), nt=nt, symt=False)
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    m = env.array('m', 1, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', 1, 0., 100., nice=(0.3, 4.))
    if arrayed:
        c = g.kc.fit_coeffs(redshift=env.arr([z]), maggies=env.arr([m]), ivar=env.arr([iv]))
        env.shape('shape', c, (1, nt))
        c = c[0]
    else:
        c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
        env.shape('shape', c, (nt,))
    kkt(env, g, [Aspec(g, 'A', z)], m, iv, c)
    env.cover('fit')


@harness('C01', 'many_templates', must_cover=('fit',), tiers=('thorough',))
def many_templates(env):
    """more templates than bands"""
    g = rig(env, responses=('A', 'B'), nt=4, symt=False)
    z = env.var('z', 0., 1., nice=(0.05, 0.95))
    m = env.array('m', 2, -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', 2, 0.01, 100., nice=(0.3, 4.))
    c = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv)
    env.shape('shape', c, (4,))
    kkt(env, g, [Aspec(g, n, z) for n in g.responses], m, iv, c)
    env.cover('fit')


@harness('C01', 'retry', must_cover=('fit',))
@harness('C07', 'retry', must_cover=('fit',))
def retry(env):
    """when the optimizer gives up on the default number of iterations, a larger
    number is tried: the result is the same"""
    mode = env.choice(3, 'mode')
    mc = (0, 2, 0)[mode]
    n = 2 if mode == 2 else 1
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    zs = [env.var('z%d' % i, (0., 1.)[i], (1., 2.)[i], nice=(0.05 + i, 0.95 + i)) for i in range(n)]
    m = env.array('m', (n, 2), 0.5, 5., nice=(0.5, 2.))
    iv = env.array('iv', (n, 2), 1., 16., nice=(1., 16.))
    bad = env.choice(3, 'which')
    a = (env.arr(zs), m, iv) if mode == 2 else (zs[0], m[0], iv[0])
    with env.nnls_gives_up(bad) as calls:
        out = g.kc.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2], mc=mc)
    env.true('optimizer used', calls() > 0)
    c = out[0] if mc else out
    env.shape('shape', c, (2, 2) if mode == 2 else (2,))
    for i in range(n):
        c1 = g.kc.fit_coeffs(redshift=zs[i], maggies=m[i], ivar=iv[i])
        env.same('same fit', c[i] if mode == 2 else c, c1, rtol=2e-3, atol=1e-5)
    if mc:
        for k in range(mc):
            ck = g.kc.fit_coeffs(redshift=zs[0], maggies=out[2][:, k], ivar=iv[0])
            env.same('same sample fit', out[1][:, k], ck, rtol=3e-3, atol=1e-4)
    env.cover('fit')


# ------------------------------------------------------------------ C02

def two(env, g, n, nb):
    zs = [env.var('z%d' % i, (0., 0.8)[i > 0], (0.8, 2.)[i > 0], nice=(0.1 + 0.9 * i, 0.7 + 0.9 * i))
          for i in range(n)]
    m = env.array('m', (n, nb), -5., 5., nice=(0.1, 2.))
    iv = env.array('iv', (n, nb), 0., 100., nice=(0.3, 4.))
    return zs, m, iv


@harness('C02', 'fit', must_cover=('many', 'one'))
def c02_fit(env):
    """row i of a batch fit is the fit of object i alone"""
    n = 1 + env.choice(2, 'n')
    nb = 1 + env.choice(2, 'nb')
    g = rig(env, responses=('A', 'B')[:nb], symt=False)
    zs, m, iv = two(env, g, n, nb)
    c = g.kc.fit_coeffs(redshift=env.arr(zs), maggies=m, ivar=iv)
    env.shape('shape', c, (n, g.nt))
    for i in range(n):
        ci = g.kc.fit_coeffs(redshift=zs[i], maggies=m[i], ivar=iv[i])
        env.shape('scalar shape', ci, (g.nt,))
        env.same('row', c[i], ci, rtol=2e-3, atol=1e-5)
    env.cover('one' if n == 1 else 'many')


@harness('C02', 'evaluate', must_cover=('many', 'one'), budget_s=300, weight=5)
def c02_eval(env):
    """batch = object by object, for reconstructions, K-corrections, absolute
    magnitudes and derived quantities"""
    n = 1 + env.choice(2, 'n')
    nb = 1 + env.choice(2, 'nb')
    what = env.choice(5, 'what')
    names = ('A', 'B')[:nb]
    g = rig(env, responses=names, out=('C', 'D', 'E')[:nb + (nb > 1)],
            rmap=('A',) if nb == 1 else ('B', 'A', 'B'), symt=what == 4,
            sym_tables=('A', 'C'), symd=False)
    zs = [env.var('z%d' % i, (0., 1.)[i], (1., 2.)[i], nice=(0.05 + i, 0.95 + i)) for i in range(n)]
    bs = env.choice(2, 'bs') and env.var('bs', 0.01, 0.9, nice=(0.05, 0.3), dtype=np.float64)
    c = coeffs(env, 'c', (n, g.nt))
    kc = g.kc
    zz = env.arr(zs)
    nout = len(g.out_eff)
    if what == 0:
        if env.choice(2, 'bands'):
            f = lambda z, c, i: kc.reconstruct_out(redshift=z, coeffs=c)
            sh = (nout,)
        else:
            f = lambda z, c, i: kc.reconstruct(redshift=z, coeffs=c)
            sh = (nb,)
    elif what == 1:
        f = lambda z, c, i: kc.kcorrect(redshift=z, coeffs=c, band_shift=bs)
        sh = (nout,)
    elif what == 2 or what == 3:
        m = env.array('m', (n, nb), 0.1, 5., nice=(0.1, 2.))
        iv = env.array('iv', (n, nb), 0.1, 100., nice=(0.3, 4.))
        if n == 2:
            m[1, 0] = env.num(-1.)
            iv[0, nb - 1] = env.num(0.)
        sh = (nout,)
        if what == 2:
            f = lambda z, c, i: kc.absmag(redshift=z, coeffs=c, band_shift=bs,
                                          maggies=m if i is None else m[i],
                                          ivar=iv if i is None else iv[i])
        else:
            d = env.array('dist', n, 1e-5, 1e5, nice=(0.004, 900.))
            f = lambda z, c, i: kc.absmag(redshift=z, coeffs=c, band_shift=bs, reconstruct=True,
                                          limit=True, kcorrect=True,
                                          distance=d if i is None else d[i],
                                          maggies=m if i is None else m[i],
                                          ivar=iv if i is None else iv[i])
    else:
        f = lambda z, c, i: kc.derived(redshift=z, coeffs=c, band_shift=bs)
        sh = (nout,)
    b = f(zz, c, None)
    for i in range(n):
        s = f(zs[i], c[i], i)
        if isinstance(b, dict):
            env.true('keys', sorted(b) == sorted(s))
            for k in sorted(b):
                ksh = sh if k == 'mtol' else ()
                env.shape('shape ' + k, b[k], (n,) + ksh)
                env.shape('scalar shape ' + k, s[k], ksh)
                env.same('row ' + k, b[k][i], s[k])
        elif isinstance(b, tuple):
            env.true('count', len(b) == len(s) == 4)
            for q in range(4):
                env.shape('shape', b[q], (n,) + sh)
                env.shape('scalar shape', s[q], sh)
                env.same('row %d' % q, b[q][i], s[q], rtol=0, atol=1e-3)
        else:
            env.shape('shape', b, (n,) + sh)
            env.shape('scalar shape', s, sh)
            env.same('row', b[i], s, rtol=1e-5, atol=1e-4)
    env.cover('one' if n == 1 else 'many')


@harness('C02', 'others', must_cover=('fit', 'evaluate'), budget_s=300, weight=3)
def c02_others(env):
    """the other rows may be out of range, without data or with zero coefficients,
    before or after, at any distance, or have the same redshift"""
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    pos = env.choice(3, 'pos')
    z = env.var('z', 0., 2., nice=(0.05, 1.95))
    if env.choice(2, 'what'):
        m = env.array('m', 2, -5., 5., nice=(0.1, 2.))
        iv = env.array('iv', 2, 0.01, 100., nice=(0.3, 4.))
        rows = []
        for q in range(2):
            kind = env.choice(5, 'kind%d' % q)
            zo = (env.num(-0.5), env.num(3.), env.num(1.25), z, env.num(0.5))[kind]
            mo = [env.num(0.7), env.num(-0.2)]
            io = [env.num(0.), env.num(0.)] if kind == 2 else [iv[0], env.num(2.)]
            if kind == 3:
                io = [iv[0], iv[1]]
            rows.append((zo, mo, io))
        rows.insert(pos, (z, [m[0], m[1]], [iv[0], iv[1]]))
        c = g.kc.fit_coeffs(redshift=env.arr([x[0] for x in rows]), maggies=env.arr([x[1] for x in rows]),
                            ivar=env.arr([x[2] for x in rows]))
        env.shape('shape', c, (3, 2))
        for q in range(3):
            ci = g.kc.fit_coeffs(redshift=rows[q][0], maggies=env.arr(rows[q][1]),
                                 ivar=env.arr(rows[q][2]))
            env.same('row', c[q], ci, rtol=2e-3, atol=1e-5)
        env.cover('fit')
        return
    c = coeffs(env, 'c', 2)
    rows = []
    for q in range(2):
        kind = env.choice(3, 'kind%d' % q)
        rows.append(((env.num(0.), z, env.num(1.5))[kind],
                     ([env.num(0.)] * 2, [c[1], c[0]], [env.num(0.), env.num(1e-15)])[kind]))
    rows.insert(pos, (z, [c[0], c[1]]))
    zz = env.arr([x[0] for x in rows])
    cc = env.arr([x[1] for x in rows])
    r = g.kc.reconstruct(redshift=zz, coeffs=cc)
    k = g.kc.kcorrect(redshift=zz, coeffs=cc, band_shift=0.25)
    for q in range(3):
        ri = g.kc.reconstruct(redshift=rows[q][0], coeffs=env.arr(rows[q][1]))
        ki = g.kc.kcorrect(redshift=rows[q][0], coeffs=env.arr(rows[q][1]), band_shift=0.25)
        env.same('row', r[q], ri, rtol=1e-5, atol=1e-6)
        env.same('k row', k[q], ki, rtol=1e-5, atol=1e-4)
    env.cover('evaluate')


@harness('C02', 'many', must_cover=('many',), budget_s=200, weight=2)
def c02_many(env):
    """a long batch: every row, wherever it is"""
    n = 150 if TIER() == 'quick' else 1200
    g = rig(env, responses=('A',), nt=1, symt=False, sym_tables=())
    m = env.array('m', (3, 1), 0.1, 5., nice=(0.1, 2.))
    iv = env.array('iv', (3, 1), 0.1, 5., nice=(0.1, 2.))
    zs = [env.num(2. * ((7 * i) % n) / n) for i in range(n)]
    mm = env.arr([[m[i % 3, 0] * (1. + i / 64.)] for i in range(n)])
    ii = env.arr([[iv[i % 3, 0]] for i in range(n)])
    c = g.kc.fit_coeffs(redshift=env.arr(zs), maggies=mm, ivar=ii)
    env.shape('shape', c, (n, 1))
    cc = env.arr([[m[i % 3, 0] * (1. + i / 64.)] for i in range(n)])
    r = g.kc.reconstruct(redshift=env.arr(zs), coeffs=cc)
    k = g.kc.kcorrect(redshift=env.arr(zs), coeffs=cc)
    a = g.kc.absmag(redshift=env.arr(zs), coeffs=cc, maggies=mm, ivar=ii)
    env.shape('shape', a, (n, 1))
    for i in range(n):
        ci = g.kc.fit_coeffs(redshift=zs[i], maggies=mm[i], ivar=ii[i])
        env.same('row', c[i], ci, rtol=2e-3, atol=1e-5)
        env.same('reconstruct row', r[i], g.kc.reconstruct(redshift=zs[i], coeffs=cc[i]), rtol=1e-5,
                 atol=1e-6)
        env.same('k row', k[i], g.kc.kcorrect(redshift=zs[i], coeffs=cc[i]), rtol=1e-5, atol=1e-4)
        env.same('absmag row', a[i], g.kc.absmag(redshift=zs[i], coeffs=cc[i], maggies=mm[i],
                                                 ivar=ii[i]), rtol=1e-5, atol=1e-3)
    env.cover('many')


@harness('C02', 'order', must_cover=('order',))
def c02_order(env):
    """permuting the objects permutes the results"""
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=())
    zs, m, iv = two(env, g, 2, 2)
    c1 = g.kc.fit_coeffs(redshift=env.arr(zs), maggies=m, ivar=iv)
    c2 = g.kc.fit_coeffs(redshift=env.arr(zs[::-1]), maggies=m[::-1], ivar=iv[::-1])
    env.same('permuted', c1, c2[::-1], rtol=2e-3, atol=1e-5)
    c = coeffs(env, 'c', (2, 2))
    k1 = g.kc.kcorrect(redshift=env.arr(zs), coeffs=c)
    k2 = g.kc.kcorrect(redshift=env.arr(zs[::-1]), coeffs=c[::-1])
    env.same('permuted k', k1, k2[::-1], rtol=1e-5, atol=1e-4)
    env.cover('order')


# ------------------------------------------------------------------ C07

def noise_match(env, dev, used, name):
    """dev must be one of the standard normal draws, each used once"""
    n = env.noise_count()
    best = None
    for k in range(n):
        if k in used:
            continue
        if env.noise_is(k, dev):
            best = k
            break
    if best is None:
        best = min((k for k in range(n) if k not in used), default=None)
    if best is None:
        env.true(name + ': a draw per band and sample', False)
        return
    used.add(best)
    env.eq(name, dev, env.noise(best), rtol=0., atol=2e-3)


@harness('C07', 'fit', must_cover=('scalar', 'one', 'many'), budget_s=300, weight=5)
def c07_fit(env):
    """each Monte Carlo sample is an independent unit-normal perturbation of the
    bands with data, fitted on its own; the central fit is the ordinary one"""
    mode = env.choice(3, 'mode')
    n = (1, 1, 2)[mode]
    mc = 2 if mode < 2 else 1
    nb = 2
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    zs = [env.var('z%d' % i, (0., 1.)[i], (1., 2.)[i], nice=(0.05 + i, 0.95 + i)) for i in range(n)]
    m = env.array('m', (n, nb), -5., 5., nice=(0.5, 2.))
    iv = env.array('iv', (n, nb), 1., 16., nice=(1., 16.))
    dead = env.choice(3, 'dead')
    if dead < 2:
        iv[n - 1, dead] = env.num(0.)
    a = (env.arr(zs), m, iv) if mode else (zs[0], m[0], iv[0])
    out = g.kc.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2], mc=mc)
    env.true('three results', isinstance(out, tuple) and len(out) == 3)
    c, cm, mm = out
    pre = (n,) if mode else ()
    env.shape('coefficients', c, pre + (2,))
    env.shape('samples of coefficients', cm, pre + (2, mc))
    env.shape('samples of fluxes', mm, pre + (nb, mc))
    c0 = g.kc.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2])
    env.same('central fit', c, c0, rtol=2e-3, atol=1e-5)
    used = set()
    for i in range(n):
        ci, mi = (cm[i], mm[i]) if mode else (cm, mm)
        rows = [Aspec(g, b, zs[i]) for b in g.responses]
        for k in range(mc):
            for b in range(nb):
                if dead < 2 and i == n - 1 and b == dead:
                    env.eq('band without data unperturbed', mi[b, k], m[i, b])
                else:
                    dev = (ff(env, mi[b, k]) - ff(env, m[i, b])) * env.sqrt(iv[i, b])
                    noise_match(env, dev, used, 'unit normal draw')
            ck = g.kc.fit_coeffs(redshift=zs[i], maggies=mi[:, k], ivar=iv[i])
            env.same('sample fit', ci[:, k], ck, rtol=3e-3, atol=1e-4)
            for t in range(2):
                env.ge('sample nonnegative', ci[t, k], 0., atol=1e-7)
    env.cover(('scalar', 'one', 'many')[mode])


@harness('C07', 'many_samples', must_cover=('scalar', 'many'), budget_s=200, weight=2)
def c07_many(env):
    """many samples of one and two objects"""
    mc = 40 if TIER() == 'quick' else 300
    n = env.choice(2, 'n') + 1
    g = rig(env, responses=('A',), nt=1, symt=False, sym_tables=())
    m = env.array('m', (n, 1), 0.5, 5., nice=(0.5, 2.))
    iv = env.array('iv', (n, 1), 1., 16., nice=(1., 16.))
    zs = [env.num(0.5), env.num(1.25)][:n]
    if n == 1:
        c, cm, mm = g.kc.fit_coeffs(redshift=zs[0], maggies=m[0], ivar=iv[0], mc=mc)
        c, cm, mm = [c], [cm], [mm]
    else:
        c, cm, mm = g.kc.fit_coeffs(redshift=env.arr(zs), maggies=m, ivar=iv, mc=mc)
    used = set()
    for i in range(n):
        env.same('central fit', c[i], g.kc.fit_coeffs(redshift=zs[i], maggies=m[i], ivar=iv[i]),
                 rtol=2e-3, atol=1e-5)
        env.shape('samples of coefficients', cm[i], (1, mc))
        for k in range(mc):
            dev = (ff(env, mm[i][0, k]) - ff(env, m[i, 0])) * env.sqrt(iv[i, 0])
            noise_match(env, dev, used, 'unit normal draw')
            ck = g.kc.fit_coeffs(redshift=zs[i], maggies=mm[i][:, k], ivar=iv[i])
            env.same('sample fit', cm[i][:, k], ck, rtol=3e-3, atol=1e-4)
    env.cover(('scalar', 'many')[n - 1])


@harness('C07', 'again', must_cover=('scalar', 'one', 'many'), budget_s=200, weight=2)
def c07_again(env):
    """several samples, also of negative fluxes, in two calls one after the other:
    no draw is used twice, within a call or between them"""
    mode = env.choice(3, 'mode')
    n = (1, 1, 3)[mode]
    arrayed = mode > 0
    mc = 5 if n == 1 else 2
    g = rig(env, responses=('A', 'B'), nt=1, symt=False, sym_tables=())
    zs = [0.5, 1.25, 0.25][:n]
    m = [[-0.25, 1.], [2., -0.5], [0., 0.75]][:n]
    iv = [[4., 1.], [1., 16.], [0.25, 1.]][:n]
    dead = env.choice(3, 'dead')
    if dead < 2:
        iv[n - 1][dead] = 0.
    used = set()
    for call in range(2):
        if arrayed:
            c, cm, mm = g.kc.fit_coeffs(redshift=env.arr(zs), maggies=env.arr(m), ivar=env.arr(iv), mc=mc)
        else:
            c, cm, mm = g.kc.fit_coeffs(redshift=env.num(zs[0]), maggies=env.arr(m[0]),
                                        ivar=env.arr(iv[0]), mc=mc)
            c, cm, mm = [c], [cm], [mm]
        for i in range(n):
            env.same('central fit', c[i], g.kc.fit_coeffs(redshift=env.num(zs[i]), maggies=env.arr(m[i]),
                                                          ivar=env.arr(iv[i])), rtol=2e-3, atol=1e-5)
            for k in range(mc):
                for b in range(2):
                    if iv[i][b] == 0.:
                        env.eq('band without data unperturbed', mm[i][b, k], env.num(m[i][b]))
                    else:
                        dev = (ff(env, mm[i][b, k]) - m[i][b]) * iv[i][b]**0.5
                        noise_match(env, dev, used, 'unit normal draw')
                ck = g.kc.fit_coeffs(redshift=env.num(zs[i]), maggies=mm[i][:, k], ivar=env.arr(iv[i]))
                env.same('sample fit', cm[i][:, k], ck, rtol=3e-3, atol=1e-4)
    env.cover(('scalar', 'one', 'many')[mode])


@harness('C07', 'sample_optimal', must_cover=('opt',))
def c07_opt(env):
    """samples satisfy the optimality conditions for their own fluxes"""
    g = rig(env, responses=('A', 'B'), symt=False)
    z = env.var('z', 0., 1., nice=(0.05, 0.95))
    m = env.array('m', 2, 0.5, 5., nice=(0.5, 2.))
    iv = env.array('iv', 2, 1., 16., nice=(1., 16.))
    c, cm, mm = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=1)
    kkt(env, g, [Aspec(g, b, z) for b in g.responses], mm[:, 0], iv, cm[:, 0], 'sample ')
    env.cover('opt')


@harness('C07', 'unmeasured', must_cover=('nan', 'inf'))
def c07_unmeasured(env):
    """a band marked as not measured (zero inverse variance, invalid flux) has no
    influence on the samples"""
    g = rig(env, responses=('A', 'B'), symt=False, sym_tables=('A',))
    z = env.var('z', 0., 1., nice=(0.05, 0.95))
    m = env.array('m', 2, 0.5, 5., nice=(0.5, 2.))
    iv = env.array('iv', 2, 1., 16., nice=(1., 16.))
    k = env.choice(2, 'band')
    mark = env.choice(2, 'mark')
    arrayed = env.choice(2, 'array')
    m1, iv1 = [m[0], m[1]], [iv[0], iv[1]]
    m1[k] = (env.num(float('nan')), env.num(float('inf')))[mark]
    iv1[k] = env.num(0.)
    if arrayed:
        c, cm, mm = [x[0] for x in g.kc.fit_coeffs(redshift=env.arr([z]), maggies=env.arr([m1]),
                                                   ivar=env.arr([iv1]), mc=2)]
    else:
        c, cm, mm = g.kc.fit_coeffs(redshift=z, maggies=env.arr(m1), ivar=env.arr(iv1), mc=2)
    for q in range(2):
        ms = [mm[0, q], mm[1, q]]
        ms[k] = env.num(1.)
        ck = g.kc.fit_coeffs(redshift=z, maggies=env.arr(ms), ivar=env.arr(iv1))
        env.same('sample fit', cm[:, q], ck, rtol=3e-3, atol=1e-4)
    env.cover(('nan', 'inf')[mark])


@harness('C07', 'out_of_range', must_cover=('out',))
def c07_out(env):
    """outside the redshift range every sample has zero coefficients"""
    mode = env.choice(3, 'mode')
    g = rig(env, responses=('A', 'B'), symt=False)
    z = env.var('z', 2.001, 20., nice=(2.01, 5.))
    zin = env.var('zin', 0., 2., nice=(0.05, 1.95))
    m = env.array('m', 2, 0.5, 5., nice=(0.5, 2.))
    iv = env.array('iv', 2, 1., 16., nice=(1., 16.))
    zz = (z, [z], [zin, z])[mode]
    n = (1, 1, 2)[mode]
    if mode:
        out = g.kc.fit_coeffs(redshift=env.arr(zz), maggies=env.arr([m] * n),
                              ivar=env.arr([iv] * n), mc=2)
    else:
        out = g.kc.fit_coeffs(redshift=z, maggies=m, ivar=iv, mc=2)
    env.true('three results', isinstance(out, tuple) and len(out) == 3)
    pre = (n,) if mode else ()
    env.shape('coefficients', out[0], pre + (2,))
    env.shape('samples of coefficients', out[1], pre + (2, 2))
    env.shape('samples of fluxes', out[2], pre + (2, 2))
    c = out[0][-1] if mode else out[0]
    cm = out[1][-1] if mode else out[1]
    env.same('zero', c, env.arr([0., 0.]))
    env.same('zero samples', cm, env.arr([[0., 0.], [0., 0.]]))
    env.cover('out')


@harness('C07', 'absmag', must_cover=('am',), budget_s=300, weight=3)
def c07_absmag(env):
    """sample k of the absolute magnitudes is the absolute magnitude of sample k"""
    arrayed = env.choice(2, 'array')
    opt = env.choice(4, 'opt')
    n = 2 if arrayed else 1
    mc = 2 if arrayed else 4
    diff = env.choice(2, 'out')
    g = rig(env, responses=('A', 'B'), out=('C', 'D', 'E') if diff else None,
            rmap=('B', 'A', 'B') if diff else None, symt=False, sym_tables=('A', 'C'))
    zs = [env.var('z%d' % i, (0., 1.)[i], (1., 2.)[i], nice=(0.05 + i, 0.95 + i)) for i in range(n)]
    m = env.array('m', (n, 2, mc), 0.1, 5., nice=(0.5, 2.))
    m[0, 1, 1] = env.num(-1.)
    iv = env.array('iv', (n, 2), 1., 16., nice=(1., 16.))
    iv[n - 1, 0] = env.num(0.)
    c = env.array('c', (n, 2, mc), 0.01, 5., nice=(0.5, 2.))
    zero = env.choice(3, 'zero') if opt == 3 else 0
    if zero:         # nothing was found in one of the samples
        c[0, :, zero - 1] = 0.
    kw = dict(reconstruct=bool(opt & 1), kcorrect=bool(opt & 2), band_shift=0.125)
    if env.choice(2, 'dist'):
        d = env.array('dist', n, 1e-5, 1e5, nice=(0.004, 900.))
        kw['distance'] = d if arrayed else d[0]
    if arrayed:
        a = (env.arr(zs), m, iv, c)
    else:
        a = (zs[0], m[0], iv[0], c[0])
    out = g.kc.absmag_mc(redshift=a[0], maggies_mc=a[1], ivar=a[2], coeffs_mc=a[3], **kw)
    nres = 1 + bool(opt & 1) + bool(opt & 2)
    if nres == 1:
        out = (out,)
    env.true('number of results', len(out) == nres)
    for k in range(mc):
        s = g.kc.absmag(redshift=a[0], maggies=a[1][..., k], ivar=a[2], coeffs=a[3][..., k], **kw)
        if nres == 1:
            s = (s,)
        for q in range(nres):
            env.shape('shape', out[q], ((n,) if arrayed else ()) + (len(g.out_eff), mc))
            env.same('result %d' % q, out[q][..., k], s[q], rtol=0, atol=1e-3)
    env.cover('am')


@harness('C07', 'derived', must_cover=('der',), budget_s=300, weight=2)
def c07_derived(env):
    """sample k of the derived quantities is the derived quantity of sample k"""
    arrayed = env.choice(2, 'array')
    n = 2 if arrayed else 1
    mc = 2 if arrayed else 4
    g = rig(env, responses=('A', 'B'), out=('C',), rmap=('B',), sym_tables=('C',))
    zs = [env.var('z%d' % i, (0., 1.)[i], (1., 2.)[i], nice=(0.05 + i, 0.95 + i)) for i in range(n)]
    c = env.array('c', (n, 2, mc), 0.01, 5., nice=(0.5, 2.))
    zero = env.choice(3, 'zero')
    if zero:         # nothing was found in one of the samples
        c[0, :, zero - 1] = 0.
    kw = dict(band_shift=0.125)
    if env.choice(2, 'dist'):
        d = env.array('dist', n, 1e-5, 1e5, nice=(0.004, 900.))
        kw['distance'] = d if arrayed else d[0]
    a = (env.arr(zs), c) if arrayed else (zs[0], c[0])
    out = g.kc.derived_mc(redshift=a[0], coeffs_mc=a[1], **kw)
    for k in range(mc):
        s = g.kc.derived(redshift=a[0], coeffs=a[1][..., k], **kw)
        env.true('keys', sorted(s) == sorted(out))
        for q in sorted(s):
            env.shape('shape ' + q, out[q], tuple(np.shape(s[q])) + (mc,))
            env.same(q, out[q][..., k], s[q])
    env.cover('der')
