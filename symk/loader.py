"""Executes /repo/src/kcorrect/*.py, from its current source, with numpy, scipy,
astropy, os, math and the numeric builtins replaced by symbolic versions."""
import builtins
import os
import sys
import types

import numpy as np

from . import core, snp, stubs, val
from .core import Unsupported

SRC = os.environ.get('KCORRECT_SRC', '/repo/src')
_code = {}


def compiled(path):
    c = _code.get(path)
    if c is None:
        with open(path) as f:
            src = f.read()
        c = _code[path] = compile(src, path, 'exec')
    return c


class Dummy(types.ModuleType):
    """module without effect on results (plotting, logging)"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def ns(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Guard(types.ModuleType):
    """a real module with some names replaced; other callables refuse symbolic
    arguments"""
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update(over)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        f = getattr(self.__dict__['_real'], n)
        if isinstance(f, types.ModuleType):
            return Guard(f)
        if callable(f) and not isinstance(f, type):
            def g(*a, **k):
                if any(snp.has_sym(x) for x in a) or any(snp.has_sym(x) for x in k.values()):
                    raise Unsupported('%s.%s' % (self.__dict__['_real'].__name__, n))
                return f(*a, **k)
            return g
        return f


class SymFile:
    def __init__(self, text):
        self.text = text
        self.closed = False

    def read(self, *a):
        return self.text

    def readlines(self):
        if isinstance(self.text, stubs.SymText):
            return self.text.splitlines()
        return self.text.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class World:
    """one freshly executed copy of the package"""

    def __init__(self, extra=None):
        self.mods = {}
        self.files_loaded = []
        self.over = self.overrides()
        self.over.update(extra or {})
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self.imp
        self.builtins['float'] = snp.SymFloat
        self.builtins['int'] = snp.SymInt
        self.builtins['open'] = self.open
        self.builtins['print'] = lambda *a, **k: None

    def open(self, name, mode='r', *a, **k):
        st = stubs.fs_store()
        if str(name) in st.files:
            kd, d = st.files[str(name)]
            if kd != 'text':
                raise Unsupported('open of %s' % kd)
            return SymFile(d)
        if 'r' in mode and '+' not in mode:
            return builtins.open(name, mode, *a, **k)
        raise Unsupported('open for writing')

    def overrides(self):
        import math
        import random
        import scipy
        import scipy.integrate
        import scipy.interpolate
        import scipy.optimize
        o = {}
        np_ = snp.NumpyProxy()
        rnd = stubs.RandomStub()
        np_.__dict__['random'] = rnd
        np_.__dict__['linalg'] = Guard(np.linalg, norm=snp.f_norm)
        np_.__dict__['trapezoid'] = stubs.trapezoid
        o['numpy'] = np_
        o['numpy.random'] = rnd
        o['numpy.linalg'] = np_.__dict__['linalg']
        interp = Guard(scipy.interpolate, interp1d=stubs.interp1d,
                       CubicSpline=stubs.CubicSpline,
                       make_interp_spline=stubs.make_interp_spline,
                       InterpolatedUnivariateSpline=stubs.InterpolatedUnivariateSpline,
                       UnivariateSpline=_uns('spline'), RegularGridInterpolator=_uns('grid'))
        opt = Guard(scipy.optimize, nnls=stubs.nnls, brentq=stubs.brentq,
                    brenth=stubs.brentq, bisect=stubs.brentq, ridder=stubs.brentq,
                    toms748=stubs.toms748, root_scalar=stubs.root_scalar,
                    lsq_linear=_uns('lsq_linear'), minimize=_uns('minimize'))
        integ = Guard(scipy.integrate, trapezoid=stubs.trapezoid, trapz=stubs.trapezoid,
                      simpson=stubs.simpson, quad=_uns('quad'))
        o['scipy.interpolate'] = interp
        o['scipy.optimize'] = opt
        o['scipy.integrate'] = integ
        o['scipy'] = Guard(scipy, interpolate=interp, optimize=opt, integrate=integ)
        fits = ns('astropy.io.fits', open=stubs.fits_open, HDUList=stubs.HDUList,
                  ImageHDU=stubs.ImageHDU, PrimaryHDU=stubs.PrimaryHDU,
                  BinTableHDU=stubs.BinTableHDU, getdata=stubs.fits_getdata)
        asc = ns('astropy.io.ascii', read=stubs.ascii_read)
        tab = ns('astropy.table', Table=stubs.Table)
        cosm = ns('astropy.cosmology', Planck18=None)
        cosm.__getattr__ = lambda n: _uns_raise('astropy.cosmology.' + n)
        units = stubs.UnitsModule()
        io = ns('astropy.io', fits=fits, ascii=asc)
        o['astropy.io.fits'] = fits
        o['astropy.io.ascii'] = asc
        o['astropy.io'] = io
        o['astropy.table'] = tab
        o['astropy.cosmology'] = cosm
        o['astropy.units'] = units
        o['astropy'] = ns('astropy', io=io, table=tab, cosmology=cosm, units=units)
        o['math'] = stubs.MathStub()
        plt = Dummy('matplotlib.pyplot')
        o['matplotlib.pyplot'] = plt
        o['matplotlib'] = ns('matplotlib', pyplot=plt, use=lambda *a, **k: None)
        osm = types.ModuleType('os')
        osm.__dict__.update({k: v for k, v in os.__dict__.items() if not k.startswith('__')})
        path = types.ModuleType('os.path')
        path.__dict__.update({k: v for k, v in os.path.__dict__.items()
                              if not k.startswith('__')})

        def exists(p):
            return str(p) in stubs.fs_store().files or isdir(p) or os.path.exists(p)

        def isfile(p):
            return str(p) in stubs.fs_store().files or os.path.isfile(p)

        def listdir(p='.'):
            pre = str(p).rstrip('/') + '/'
            names = list(dict.fromkeys(f[len(pre):].split('/')[0] for f in stubs.fs_store().files
                                       if f.startswith(pre)))
            if names:
                return names
            return os.listdir(p)

        def isdir(p):
            pre = str(p).rstrip('/') + '/'
            return any(f.startswith(pre) for f in stubs.fs_store().files) or os.path.isdir(p)

        class Entry:
            def __init__(self, d, n):
                self.name = n
                self.path = os.path.join(d, n)

            def is_file(self, **k):
                return isfile(self.path)

            def is_dir(self, **k):
                return isdir(self.path)

            def __fspath__(self):
                return self.path

        class Scan(list):
            def __enter__(self):
                return iter(self)

            def __exit__(self, *a):
                return None

            def close(self):
                return None

        def globbed(pattern, **k):
            import fnmatch
            import glob as g
            if k:
                raise Unsupported('glob options')
            d, pat = os.path.split(str(pattern))
            if g.has_magic(d):
                raise Unsupported('glob')
            return [os.path.join(d, n) for n in (listdir(d) if isdir(d or '.') else [])
                    if fnmatch.fnmatch(n, pat) and (n[0] != '.' or pat[0] == '.')]

        import pathlib

        class SymPath(type(pathlib.Path())):
            def exists(self, **k):
                return exists(str(self))

            def is_file(self):
                return isfile(str(self))

            def is_dir(self):
                return isdir(str(self))

            def iterdir(self):
                return iter([self / n for n in listdir(str(self))])

            def glob(self, pattern):
                if '/' in pattern or '**' in pattern:
                    raise Unsupported('Path.glob')
                return iter([SymPath(f) for f in globbed(os.path.join(str(self), pattern))])

            def open(self, mode='r', *a, **k):
                return self_open(str(self), mode, *a, **k)

            def read_text(self, *a, **k):
                return self_open(str(self)).read()

        def nope(n):
            def f(self, *a, **k):
                raise Unsupported('Path.%s' % n)
            return f
        for bad in ('unlink', 'rename', 'replace', 'rmdir', 'mkdir', 'touch', 'rglob',
                    'write_text', 'write_bytes', 'read_bytes', 'symlink_to', 'chmod'):
            setattr(SymPath, bad, nope(bad))
        self_open = self.open
        pl = Guard(pathlib, Path=SymPath, PosixPath=SymPath)
        o['pathlib'] = pl
        o['glob'] = ns('glob', glob=globbed, iglob=lambda *a, **k: iter(globbed(*a, **k)))
        path.exists = exists
        path.isfile = isfile
        path.isdir = isdir
        osm.scandir = lambda p='.': Scan(Entry(str(p), n) for n in listdir(p))
        osm.walk = _uns('os.walk')
        osm.path = path
        osm.listdir = listdir
        for bad in ('remove', 'unlink', 'rename', 'rmdir', 'removedirs', 'system',
                    'mkdir', 'makedirs', 'replace'):
            osm.__dict__[bad] = _uns('os.' + bad)
        o['os'] = osm
        o['os.path'] = path
        return o

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', '/')
        p = os.path.join(SRC, rel, '__init__.py')
        pkg = True
        if not os.path.exists(p):
            p = os.path.join(SRC, rel + '.py')
            pkg = False
        if not os.path.exists(p):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        self.files_loaded.append(p)
        try:
            exec(compiled(p), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        par, _, leaf = name.rpartition('.')
        if par and par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals.get('__name__', '')
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == 'kcorrect' or name.startswith('kcorrect.'):
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                m = self.load('.'.join(parts[:i]))
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(parts[0])
        if name in self.over:
            m = self.over[name]
            if fromlist:
                return m
            return self.over.get(name.split('.')[0], m)
        top = name.split('.')[0]
        if top in ('scipy', 'astropy', 'numpy', 'matplotlib'):
            try:
                real = builtins.__import__(name, None, None, ['x'])
            except ImportError:
                raise
            if top == 'matplotlib':
                g = Dummy(name)
            else:
                g = Guard(real)
            self.over[name] = g
            par, _, leaf = name.rpartition('.')
            try:
                setattr(self.over[par] if par in self.over else self.over[top], leaf, g)
            except Exception:
                pass
            return g if fromlist else self.over[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)


def _uns(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


def _uns_raise(n):
    if n.rpartition('.')[2].startswith('__'):
        raise AttributeError(n)
    raise Unsupported(n)
