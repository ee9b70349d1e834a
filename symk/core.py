"""Symbolic execution core: exact-real terms with a multiplicative normal form,
path exploration by re-execution, and the interface to the SMT solver.

A value in 'real' mode is a generalised polynomial: a finite sum of monomials
with rational coefficients whose exponents are rationals, over *atoms*.  An atom
is an input variable or an application of a function that is not a polynomial
(POLY: a sum used inside a power, LOG: log10 of an atom, E10: 10**monomial, PRIME:
a prime number used with a fractional exponent, UF: an uninterpreted function).
log10/10**x/exp/ln/sinh/cosh/sqrt are rewritten to that form exactly.

A value in 'fp' mode is a z3 floating-point term of the value's own format, so
that rounding, overflow and NaN are those of IEEE 754.
"""
import math
import os
import sys
import time
from fractions import Fraction

sys.set_int_max_str_digits(0)
_Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:                      # pragma: no cover
    sys.path.append(_Z3DIR)
    import z3

import numpy as np


# ---------------------------------------------------------------- exceptions

class EngineSignal(BaseException):
    """Base of what the engine raises through the code under test."""


class Unsupported(EngineSignal):
    """The code did something the engine cannot execute symbolically."""


class PathInfeasible(EngineSignal):
    """The current path condition is unsatisfiable."""


class PathBudget(EngineSignal):
    """Out of path or time budget."""


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'key', 'name', 'data', 'positive', 'lo', 'hi',
                 'is_int')

    def __init__(self, id, kind, key, name, data=None, positive=False,
                 lo=None, hi=None, is_int=False):
        self.id = id
        self.kind = kind
        self.key = key
        self.name = name
        self.data = data
        self.positive = positive
        self.lo = lo
        self.hi = hi
        self.is_int = is_int

    def __repr__(self):
        return self.name


class AtomTable:
    def __init__(self):
        self.by_key = {}
        self.atoms = []

    def get(self, kind, key, name, **kw):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, k, name, **kw)
            self.atoms.append(a)
            self.by_key[k] = a
        return a


ATOMS = AtomTable()


def reset_atoms():
    global ATOMS
    ATOMS.by_key.clear()
    ATOMS.atoms.clear()


# ---------------------------------------------------------------- polynomials

F0 = Fraction(0)
F1 = Fraction(1)
FH = Fraction(1, 2)


class Poly:
    """sum of coefficient * monomial; monomial = ((atom id, exponent), ...)"""
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a.id, Fraction(e)),): F1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def is_const(self):
        return len(self.d) == 0 or (len(self.d) == 1 and () in self.d)

    def const_value(self):
        return self.d.get((), F0)

    def is_zero(self):
        return not self.d

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, F0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return Poly(d)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, c):
        c = Fraction(c)
        if c == 0:
            return Poly()
        return Poly({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        if len(self.d) > 4000 or len(o.d) > 4000 or \
                len(self.d) * len(o.d) > 200000:
            raise Unsupported("polynomial too large")
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, k = mono_mul(m1, m2)
                c = d.get(m, F0) + c1 * c2 * k
                if c == 0:
                    d.pop(m, None)
                else:
                    d[m] = c
        return Poly(d)

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        out = []
        for m, c in self.d.items():
            out.append(str(c) + ''.join('*%s%s' % (ATOMS.atoms[a].name,
                                                   '' if e == 1 else '^%s' % e)
                                        for a, e in m))
        return ' + '.join(out) if out else '0'


def mono_mul(m1, m2):
    """product of monomials: (monomial, rational factor)"""
    if not m1:
        return m2, F1
    if not m2:
        return m1, F1
    d = dict(m1)
    k = F1
    for a, e in m2:
        n = d.get(a, F0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    # integer powers of PRIME atoms become rational factors
    for a in list(d):
        at = ATOMS.atoms[a]
        if at.kind == 'PRIME':
            fl = math.floor(d[a])
            if fl != 0:
                k *= Fraction(at.data) ** fl
                r = d[a] - fl
                if r == 0:
                    del d[a]
                else:
                    d[a] = r
    return tuple(sorted(d.items())), k


def mono_pow(m, e):
    d = {}
    k = F1
    for a, x in m:
        n = x * e
        at = ATOMS.atoms[a]
        if at.kind == 'PRIME':
            fl = math.floor(n)
            k *= Fraction(at.data) ** fl
            n -= fl
        if n != 0:
            d[a] = n
    return tuple(sorted(d.items())), k


def poly_content(p):
    """p = coef * mono * q with q primitive (leading coefficient 1, no common
    monomial).  Returns coef, mono, q."""
    monos = list(p.d)
    common = dict(monos[0])
    for m in monos[1:]:
        dm = dict(m)
        for a in list(common):
            e = dm.get(a)
            if e is None:
                # exponent 0 in this monomial
                if common[a] > 0:
                    del common[a]
                else:
                    pass
            else:
                common[a] = min(common[a], e)
        for a in dm:
            if a not in common and dm[a] < 0:
                common[a] = dm[a]
    # atoms absent somewhere with negative exponent elsewhere: handled above
    for a in list(common):
        mn = min(dict(m).get(a, F0) for m in monos)
        if mn == 0:
            del common[a]
        else:
            common[a] = mn
    cm = tuple(sorted(common.items()))
    inv, kinv = mono_pow(cm, Fraction(-1))
    q = p * Poly({inv: kinv})
    lead = min(q.d)          # deterministic choice of leading monomial
    c = q.d[lead]
    q = q.scale(1 / c)
    # p = c * cm' * q, where mono(inv)*kinv*cm*kk == 1
    mm, kk = mono_mul(cm, inv)
    assert mm == ()
    return c / (kinv * kk), cm, q


SMALL_PRIMES = []


def _primes(n=100000):
    if not SMALL_PRIMES:
        sieve = bytearray([1]) * (n + 1)
        for i in range(2, n + 1):
            if sieve[i]:
                SMALL_PRIMES.append(i)
                sieve[i * i::i] = bytearray(len(sieve[i * i::i]))
    return SMALL_PRIMES


_factor_cache = {}


def factor(n):
    """factorisation of a positive integer by trial division; a large cofactor
    is kept as one 'prime' (it is only used as a name)."""
    r = _factor_cache.get(n)
    if r is not None:
        return r
    n0 = n
    out = {}
    for p in _primes():
        if p * p > n:
            break
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    if n > 1:
        out[n] = out.get(n, 0) + 1
    _factor_cache[n0] = out
    return out


def prime_atom(p):
    return ATOMS.get('PRIME', p, 'prime%d' % p, data=p, positive=True,
                     lo=Fraction(p), hi=Fraction(p))


def const_pow(c, e):
    """c**e for a positive rational c, as a Poly with PRIME atoms"""
    k = F1
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, m in factor(n).items():
            x = Fraction(m * s) * e
            d[p] = d.get(p, F0) + x
    mono = {}
    for p, x in d.items():
        fl = math.floor(x)
        k *= Fraction(p) ** fl
        x -= fl
        if x != 0:
            mono[prime_atom(p).id] = x
    return Poly({tuple(sorted(mono.items())): k})


def LN10():
    return ATOMS.get('CONST', 'ln10', 'ln10', data=math.log(10.), positive=True,
                     lo=Fraction(math.log(10.)) - Fraction(1, 10**14),
                     hi=Fraction(math.log(10.)) + Fraction(1, 10**14))


def PI():
    return ATOMS.get('CONST', 'pi', 'pi', data=math.pi, positive=True,
                     lo=Fraction(math.pi) - Fraction(1, 10**14),
                     hi=Fraction(math.pi) + Fraction(1, 10**14))


def log_atom(a):
    return ATOMS.get('LOG', a.id, 'log10(%s)' % a.name, data=a)


def e10_atom(mono):
    nm = '*'.join('%s^%s' % (ATOMS.atoms[a].name, e) for a, e in mono)
    return ATOMS.get('E10', mono, '10^(%s)' % nm, data=mono, positive=True)


def poly_atom(q):
    return ATOMS.get('POLY', q.key(), '{%r}' % q, data=q)


NAN = 'nan'
INF = 'inf'
NINF = '-inf'


def frac_of_float(x):
    """exact rational a decimal literal stands for: the shortest decimal that
    round-trips in the float's own format (so 0.4 is 2/5)."""
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.float32):
        s = np.format_float_scientific(x, unique=True, trim='0')
        return Fraction(s)
    if isinstance(x, np.float16):
        s = np.format_float_scientific(x, unique=True, trim='0')
        return Fraction(s)
    return Fraction(repr(float(x)))


# ---------------------------------------------------------------- statistics

class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.
        self.trivial = 0
        self.linear = 0
        self.cross = 0
        self.cross_disagree = 0
        self.paths = 0
        self.branches = 0
        self.cut_paths = 0


STATS = Stats()


# ---------------------------------------------------------------- context

class Context:
    """State of one symbolic path."""
    current = None

    def __init__(self, mode, prefix, timeout_ms, deadline):
        self.mode = mode
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.pc = []              # list of constraints (Cons objects)
        self.facts = []           # assumptions on inputs (constraints)
        self.cache = {}
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.aborted = None
        self.fresh = 0
        self.poscache = {}
        self.inputs = {}          # name -> Val
        self.effects = []
        self.unknown_branches = 0
        self.lets = {}

    # -- solver calls
    def check(self, extra, want_model=False, timeout_ms=None):
        if time.time() > self.deadline:
            self.abort(PathBudget('time budget'))
        return solve(self.facts + self.pc + list(extra), want_model,
                     timeout_ms or self.timeout_ms)

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def assume(self, cons):
        if self.aborted is not None:
            raise self.aborted
        if isinstance(cons, (bool, np.bool_)):
            if not cons:
                self.abort(PathInfeasible())
            return
        v = cons.trivial()
        if v is True:
            return
        if v is False:
            self.abort(PathInfeasible())
        self.facts.append(cons)

    def branch(self, cons):
        """decide a condition on this path, forking where both sides are
        feasible"""
        if self.aborted is not None:
            raise self.aborted
        v = cons.trivial()
        if v is not None:
            return v
        k = cons.key()
        if k in self.cache:
            return self.cache[k]
        nk = cons.negate().key()
        if nk in self.cache:
            return not self.cache[nk]
        neg = cons.negate()
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            rt = self.check([cons])[0]
            if rt == 'unsat':
                d, forced = False, True
            else:
                rf = self.check([neg])[0]
                if rf == 'unsat':
                    d, forced = True, True
                else:
                    if 'unknown' in (rt, rf):
                        self.unknown_branches += 1
                    d, forced = True, False
                    self.alternatives.append(self.decisions + [(False, False)])
            self.pos += 1
        STATS.branches += 1
        self.decisions.append((d, forced))
        self.cache[k] = d
        if not forced:
            self.pc.append(cons if d else neg)
        return d

    def choice(self, n, what=''):
        """nondeterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                d, forced = self.prefix[self.pos]
                self.pos += 1
            else:
                d, forced = True, False
                self.alternatives.append(self.decisions + [(False, False)])
                self.pos += 1
            STATS.branches += 1
            self.decisions.append((d, forced))
            if d:
                return i
        return n - 1

    def is_positive(self, atom):
        if atom.positive:
            return True
        r = self.poscache.get(atom.id)
        if r:
            return True
        c = Cons(Poly.atom(atom), '>')
        if self.cache.get(c.key()):
            self.poscache[atom.id] = True
            return True
        r = self.check([c.negate()])[0] == 'unsat'
        if r:
            self.poscache[atom.id] = True
        return r

    def newname(self, base):
        self.fresh += 1
        return '%s#%d' % (base, self.fresh)


def ctx():
    c = Context.current
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


# ---------------------------------------------------------------- constraints

def atom_positive(at, depth=3):
    if at.positive:
        return True
    if at.kind == 'POLY' and depth > 0 and poly_sign(at.data, depth - 1) == 1:
        at.positive = True
        return True
    return False


def poly_sign(p, depth=3):
    """1 / -1: positive / negative for sure, 2 / -2: not negative / not positive,
    None: not seen from the form (divisors count as nonzero: a division by zero is
    a path of its own)"""
    sg = None
    strict = False
    for m, c in p.d.items():
        st = True
        for a, e in m:
            if atom_positive(ATOMS.atoms[a], depth):
                continue
            if e.denominator != 1:
                continue        # roots are only taken of positive numbers
            if e.numerator % 2:
                return None
            if e > 0:
                st = False
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return None
        strict = strict or st
    if sg is None:
        return None
    return sg if strict else 2 * sg


class Cons:
    """poly op 0, op in > >= == !="""
    __slots__ = ('p', 'op')

    def __init__(self, p, op):
        self.p = p
        self.op = op

    def trivial(self):
        if self.p.is_const():
            c = self.p.const_value()
            return {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[self.op]
        s = poly_sign(self.p)
        if s == 1:
            return {'>': True, '>=': True, '==': False, '!=': True}[self.op]
        if s == -1:
            return {'>': False, '>=': False, '==': False, '!=': True}[self.op]
        if s == 2 and self.op == '>=':
            return True
        if s == -2 and self.op == '>':
            return False
        return None

    def key(self):
        if self.op in ('==', '!='):
            a, b = self.p.key(), self.p.scale(-1).key()
            return (self.op, min(a, b))
        return (self.op, self.p.key())

    def negate(self):
        if self.op == '>':
            return Cons(self.p.scale(-1), '>=')
        if self.op == '>=':
            return Cons(self.p.scale(-1), '>')
        if self.op == '==':
            return Cons(self.p, '!=')
        return Cons(self.p, '==')

    def polys(self):
        return [self.p]

    def encode(self, enc):
        t = enc.poly(self.p, self.op in ('>', '>='))
        if self.op == '>':
            return t > 0
        if self.op == '>=':
            return t >= 0
        if self.op == '==':
            return t == 0
        return t != 0

    def evaluate(self, ev):
        v = ev(self.p)
        return {'>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[self.op]


class BoolCons:
    """and/or of constraints"""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = list(args)

    def trivial(self):
        vals = [a.trivial() for a in self.args]
        if self.op == 'and':
            if any(v is False for v in vals):
                return False
            if all(v is True for v in vals):
                return True
        else:
            if any(v is True for v in vals):
                return True
            if all(v is False for v in vals):
                return False
        return None

    def key(self):
        return (self.op, tuple(sorted(map(repr, (a.key() for a in self.args)))))

    def negate(self):
        return BoolCons('or' if self.op == 'and' else 'and',
                        [a.negate() for a in self.args])

    def polys(self):
        return [p for a in self.args for p in a.polys()]

    def encode(self, enc):
        ts = [a.encode(enc) for a in self.args]
        return z3.And(*ts) if self.op == 'and' else z3.Or(*ts)


class RawCons:
    """a z3 boolean term (fp mode)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def trivial(self):
        s = z3.simplify(self.t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self.t = s
        return None

    def key(self):
        return ('raw', self.t.sexpr())

    def negate(self):
        return RawCons(z3.Not(self.t))

    def polys(self):
        return []

    def encode(self, enc):
        return self.t


def And(*a):
    return BoolCons('and', a)


def Or(*a):
    return BoolCons('or', a)


# ---------------------------------------------------------------- encoding

class Encoder:
    """Encodes generalised polynomials as z3 polynomials: every atom X gets one
    variable, a root R with R**lcm == X where fractional exponents of X occur;
    negative exponents are cleared by multiplying the constraint through."""
    MAXROOT = 12

    def __init__(self):
        self.lcm = {}
        self.roots = {}
        self.side = []
        self.vars = {}
        self.seen = set()
        self.indep = {}

    def scan(self, polys):
        todo = list(polys)
        while todo:
            p = todo.pop()
            for m in p.d:
                for a, e in m:
                    self.lcm[a] = _lcm(self.lcm.get(a, 1), e.denominator)
                    if a not in self.seen:
                        self.seen.add(a)
                        at = ATOMS.atoms[a]
                        if at.kind == 'POLY':
                            todo.append(at.data)
                        elif at.kind == 'LOG':
                            todo.append(Poly.atom(at.data))
                        elif at.kind in ('UF', 'DEF'):
                            for c in at.data.get('facts', ()):
                                todo.extend(c.polys())

    def finish(self):
        """definitions and domain facts of the atoms in use"""
        out = []
        for a in sorted(self.seen):
            at = ATOMS.atoms[a]
            v = self.atom(a, F1)
            if at.kind == 'POLY':
                t = self.poly(at.data, False, clear=v)
                out.append(t)
            if at.positive and v is not None:
                out.append(v > 0)
            if at.kind in ('VAR', 'CONST', 'UF', 'DEF') and v is not None:
                if at.lo is not None:
                    out.append(v >= q(at.lo))
                if at.hi is not None:
                    out.append(v <= q(at.hi))
            if at.kind in ('UF', 'DEF'):
                for c in at.data.get('facts', ()):
                    out.append(c.encode(self))
            if at.kind == 'LOG' and v is not None:
                x = self.atom(at.data.id, F1)
                if x is not None:
                    out.append(x > 0)
                    out.append(z3.And(z3.Implies(x > 1, v > 0),
                                      z3.Implies(x < 1, v < 0),
                                      z3.Implies(x == 1, v == 0)))
                    # log10 lies below its tangents and is bounded below too
                    out.append(v <= (x - 1) * q(Fraction(43430, 100000)))
                    out.append(v * x >= (x - 1) * q(Fraction(43429, 100000)) -
                               z3.If(x < 1, q(Fraction(1, 10**5)), q(0)) * (1 - x))
            if at.kind == 'E10' and v is not None and len(at.data) == 1:
                # 10**x against x
                (b, e), = at.data
                bt = ATOMS.atoms[b]
                if e == 1 and bt.kind == 'VAR':
                    # v is the n-th power of the root variable
                    n = self.lcm.get(a, 1)
                    if n <= self.MAXROOT:
                        r = self.root(a)
                        if bt.lo is not None and abs(bt.lo) < 200:
                            out.append(r >= q(enclose_pow(10, bt.lo / n)[0]))
                        if bt.hi is not None and abs(bt.hi) < 200:
                            out.append(r <= q(enclose_pow(10, bt.hi / n)[1]))
                if e == 1 and b in self.seen:
                    x = self.atom(b, F1)
                    if x is not None:
                        out.append(z3.And(z3.Implies(x > 0, v > 1),
                                          z3.Implies(x < 0, v < 1),
                                          z3.Implies(x == 0, v == 1)))
        # same-function monotonicity between pairs of LOG / E10 atoms
        logs = [ATOMS.atoms[a] for a in self.seen if ATOMS.atoms[a].kind == 'LOG']
        for i in range(len(logs)):
            for j in range(i + 1, len(logs)):
                xi = self.atom(logs[i].data.id, F1)
                xj = self.atom(logs[j].data.id, F1)
                vi = self.atom(logs[i].id, F1)
                vj = self.atom(logs[j].id, F1)
                if None in (xi, xj, vi, vj) or len(logs) > 8:
                    continue
                out.append(z3.And(z3.Implies(xi == xj, vi == vj),
                                  z3.Implies(xi < xj, vi < vj),
                                  z3.Implies(xi > xj, vi > vj)))
        es = [ATOMS.atoms[a] for a in self.seen
              if ATOMS.atoms[a].kind == 'E10' and len(ATOMS.atoms[a].data) == 1]
        for i in range(len(es)):
            for j in range(i + 1, len(es)):
                (bi, ei), = es[i].data
                (bj, ej), = es[j].data
                if ei != 1 or ej != 1 or bi not in self.seen or bj not in self.seen:
                    continue
                xi, xj = self.atom(bi, F1), self.atom(bj, F1)
                vi, vj = self.atom(es[i].id, F1), self.atom(es[j].id, F1)
                if None in (xi, xj, vi, vj):
                    continue
                out.append(z3.And(z3.Implies(xi == xj, vi == vj),
                                  z3.Implies(xi < xj, vi < vj),
                                  z3.Implies(xi > xj, vi > vj)))
        return self.side + out

    def root(self, a):
        r = self.roots.get(a)
        if r is None:
            at = ATOMS.atoms[a]
            n = self.lcm.get(a, 1)
            nm = 'a%d' % a
            if at.is_int:
                r = z3.ToReal(z3.Int(nm))
            else:
                r = z3.Real(nm)
            self.roots[a] = r
            if n > 1:
                self.side.append(r > 0)
            self.vars[a] = (r, n)
        return r

    def atom(self, a, e):
        """z3 term for atom**e, e >= 0 (None: not expressible)"""
        at = ATOMS.atoms[a]
        n = self.lcm.get(a, 1)
        if at.kind == 'PRIME' and e.denominator != 1:
            k = (a, e)
            if k not in self.indep:
                v = z3.Real('a%d_%d_%d' % (a, e.numerator, e.denominator))
                lo, hi = enclose_pow(at.data, e)
                self.side.append(v >= q(lo))
                self.side.append(v <= q(hi))
                self.indep[k] = v
            return self.indep[k]
        if n > self.MAXROOT:
            if e.denominator == 1 and a not in self.roots:
                # separate variable for the integer power base
                pass
            k = (a, e)
            if k not in self.indep:
                v = z3.Real('a%d_%d_%d' % (a, e.numerator, e.denominator))
                self.side.append(v > 0)
                self.indep[k] = v
            return self.indep[k]
        r = self.root(a)
        k = e * n
        assert k.denominator == 1 and k >= 0, (at, e, n)
        k = int(k)
        if k == 0:
            return z3.RealVal(1)
        if k == 1:
            return r
        return z3.Product([r] * k) if k <= 12 else r ** k

    def poly(self, p, keep_sign, clear=None):
        """z3 polynomial equal to p times a positive (keep_sign) or nonzero
        factor.  clear=v: returns the equation  v == p  (cleared)"""
        neg = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, F0), e)
        mult = {}
        for a, e in neg.items():
            at = ATOMS.atoms[a]
            k = -e
            if at.kind == 'PRIME':
                k = Fraction(math.ceil(k))
            elif keep_sign and not at.positive:
                if k.denominator == 1:
                    k = Fraction(int(k) + (int(k) % 2))
                # fractional exponents only occur on positive atoms
            mult[a] = k
        terms = []
        for m, c in p.d.items():
            d = dict(m)
            for a, k in mult.items():
                d[a] = d.get(a, F0) + k
            t = q(c)
            fs = [t]
            for a, e in sorted(d.items()):
                if e == 0:
                    continue
                fs.append(self.atom(a, e))
            terms.append(z3.Product(fs) if len(fs) > 1 else t)
        s = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        if clear is not None:
            f = [clear] + [self.atom(a, k) for a, k in mult.items() if k != 0]
            # atoms occurring with negative exponents are nonzero
            for a in mult:
                v = self.atom(a, F1)
                if v is not None:
                    self.side.append(v != 0)
            return (z3.Product(f) if len(f) > 1 else f[0]) == s
        for a in mult:
            if not ATOMS.atoms[a].positive:
                v = self.atom(a, F1)
                self.side.append(v != 0)
        return s


def q(fr):
    fr = Fraction(fr)
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)


def _lcm(a, b):
    return a * b // math.gcd(a, b)


def enclose_pow(base, e):
    v = float(base) ** float(e) if base < 1e300 else 10. ** (math.log10(base) * float(e))
    f = Fraction(v)
    w = abs(f) * Fraction(1, 10**12)
    return f - w, f + w


CROSS = {'on': False}
_solve_cache = {}


def solve(conss, want_model=False, timeout_ms=10000):
    """(result, model) for a conjunction of constraints.
    result in sat/unsat/unknown; model: dict atom id -> Fraction/float, or for
    fp mode the z3 model."""
    t0 = time.time()
    STATS.queries += 1
    key = None
    if not want_model:
        key = tuple(sorted(repr(c.key()) for c in conss))
        if key in _solve_cache:
            STATS.trivial += 1
            return _solve_cache[key], None
    if not want_model and linear_refuted(conss):
        STATS.unsat += 1
        STATS.linear += 1
        STATS.solver_s += time.time() - t0
        _solve_cache[key] = 'unsat'
        return 'unsat', None
    enc = Encoder()
    enc.scan([p for c in conss for p in c.polys()])
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    ts = [c.encode(enc) for c in conss]
    ts = enc.finish() + ts
    # finish() may add side facts while encoding definitions
    ts = list(dict.fromkeys(ts + enc.side))
    s.add(*ts)
    logs = log_pairs(enc)
    if logs:
        s.add(*log_thresholds(conss, enc))
    r = str(s.check())
    model = s.model() if r == 'sat' else None
    for k in range(8 if want_model else 3):
        if r != 'sat' or not logs or time.time() - t0 > timeout_ms / 1000.:
            break
        more = log_lemmas(model, logs)
        if not more:
            break
        s.add(*more)
        r2 = str(s.check())
        if r2 == 'unknown':
            break               # the last model stands
        r = r2
        model = s.model() if r == 'sat' else None
    if r == 'unknown' and timeout_ms >= 2000:
        s2 = z3.Tactic('qfnra-nlsat').solver() if not _has_fp(ts) else None
        if s2 is not None:
            try:
                s2.set('timeout', int(timeout_ms))
                s2.add(*ts)
                r2 = str(s2.check())
                if r2 == 'sat':
                    model = s2.model()
                if r2 != 'unknown':
                    r, s = r2, s2
            except z3.Z3Exception:
                pass
    setattr(STATS, r, getattr(STATS, r) + 1)
    STATS.solver_s += time.time() - t0
    if CROSS['on'] and r == 'unsat':
        cross_check(s, ts)
    if key is not None:
        _solve_cache[key] = r
    if r == 'sat' and want_model:
        return r, ModelView(model, enc)
    return r, None


def log_pairs(enc):
    """(x, v) of the atoms v = log10(x), as z3 terms"""
    out = []
    for a in sorted(enc.seen):
        at = ATOMS.atoms[a]
        if at.kind == 'LOG':
            out.append((enc.atom(at.data.id, F1), enc.atom(a, F1)))
        elif at.kind == 'E10' and len(at.data) == 1 and at.data[0][1] == 1 and \
                at.data[0][0] in enc.seen:
            out.append((enc.atom(a, F1), enc.atom(at.data[0][0], F1)))
    return [(x, v) for x, v in out if x is not None and v is not None]


LOGE = Fraction(math.log10(math.e))
LOGE_ERR = Fraction(1, 10**15)


def log_at(x, v, x0):
    """facts about v = log10(x) near x = x0 > 0: monotone, below the tangent, above
    the reciprocal tangent"""
    x0 = Fraction(x0)
    l0 = Fraction(math.log10(x0))
    w = (1 + abs(l0)) * Fraction(1, 10**13)
    d = x - q(x0)
    return [z3.Implies(d >= 0, v >= q(l0 - w)), z3.Implies(d <= 0, v <= q(l0 + w)),
            v <= q(l0 + w) + d * z3.If(d >= 0, q((LOGE + LOGE_ERR) / x0), q((LOGE - LOGE_ERR) / x0)),
            (v - q(l0 - w)) * x >= d * z3.If(d >= 0, q(LOGE - LOGE_ERR), q(LOGE + LOGE_ERR))]


def log_thresholds(conss, enc):
    """the facts at 10**t where a constraint compares one logarithm with t"""
    todo = list(conss)
    out = []
    seen = set()
    while todo:
        c = todo.pop()
        if isinstance(c, BoolCons):
            todo.extend(c.args)
            continue
        if not isinstance(c, Cons):
            continue
        ms = [m for m in c.p.d if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            continue
        at = ATOMS.atoms[ms[0][0][0]]
        k = -c.p.d.get((), F0) / c.p.d[ms[0]]
        if at.kind == 'LOG' and abs(k) < 290 and (at.id, k) not in seen:
            seen.add((at.id, k))
            x, v = enc.atom(at.data.id, F1), enc.atom(at.id, F1)
            if x is None or v is None:
                continue
            if k.denominator == 1:
                x0 = Fraction(10) ** int(k)
                out += [z3.Implies(x > q(x0), v > q(k)), z3.Implies(x < q(x0), v < q(k)),
                        z3.Implies(x == q(x0), v == q(k))]
            else:
                out += log_at(x, v, 10. ** float(k))
    return out


def log_lemmas(model, pairs):
    """facts that the model's logarithms violate"""
    out = []
    for x, v in pairs:
        try:
            mx = num(model.eval(x, model_completion=True))
            mv = num(model.eval(v, model_completion=True))
        except Unsupported:
            continue
        if mx <= 0 or not 1e-290 < mx < 1e290:
            continue
        l = math.log10(mx)
        if abs(float(mv) - l) > 1e-9 * (1 + abs(l)):
            out += log_at(x, v, float(mx))
            if abs(mv) < 280:
                out += log_at(x, v, 10. ** float(mv))
    return out


def linear_refuted(conss):
    """True if the conjunction is already unsatisfiable when every distinct
    monomial is treated as an independent real (a sound over-approximation,
    decided by z3's linear arithmetic)."""
    if any(isinstance(c, RawCons) for c in conss):
        return False
    atoms = ATOMS.atoms
    seen = set()
    allc = list(conss)
    i = 0
    while i < len(allc):
        for p in allc[i].polys():
            for a in p.atoms():
                if a in seen:
                    continue
                seen.add(a)
                at = atoms[a]
                if at.kind in ('UF', 'DEF'):
                    allc.extend(at.data.get('facts', ()))
                elif at.kind == 'LOG' and at.data.id not in seen:
                    seen.add(at.data.id)
        i += 1
        if len(allc) > 4000:
            return False
    # values of variables fixed by an equality
    sub = {}
    for c in allc:
        if isinstance(c, Cons) and c.op == '==' and 1 <= len(c.p.d) <= 2:
            ms = [m for m in c.p.d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                sub[ms[0][0][0]] = -c.p.d.get((), F0) / c.p.d[ms[0]]
        elif isinstance(c, Cons) and c.op == '>=' and 1 <= len(c.p.d) <= 2:
            ms = [m for m in c.p.d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                at = atoms[ms[0][0][0]]
                x = -c.p.d.get((), F0) / c.p.d[ms[0]]
                if x == (at.lo if c.p.d[ms[0]] < 0 else at.hi):
                    sub[at.id] = x
    mv = {}
    side = []

    def monovar(m):
        v = mv.get(m)
        if v is None:
            v = z3.Real('m%d' % len(mv))
            mv[m] = v
            if len(m) == 1 and m[0][1] == 1:
                at = atoms[m[0][0]]
                if at.lo is not None:
                    side.append(v >= q(at.lo))
                if at.hi is not None:
                    side.append(v <= q(at.hi))
                if at.kind == 'PRIME':
                    side.append(v == q(at.data))
            if all(atoms[a].positive for a, e in m):
                side.append(v > 0)
            elif all(atoms[a].positive or (e.denominator == 1 and e % 2 == 0) or
                     (atoms[a].lo is not None and atoms[a].lo >= 0) for a, e in m):
                side.append(v >= 0)
        return v

    def simp(p):
        if not sub:
            return p
        d = {}
        for m, c in p.d.items():
            if any(a in sub for a, e in m):
                r = []
                k = c
                for a, e in m:
                    if a in sub:
                        x = sub[a]
                        if x == 0:
                            if e < 0:
                                return None
                            k = F0
                            break
                        if e.denominator != 1:
                            r.append((a, e))
                        else:
                            k = k * x ** int(e)
                    else:
                        r.append((a, e))
                m, c = tuple(r), k
            if c != 0:
                n = d.get(m, F0) + c
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return Poly(d)

    def term(c):
        if isinstance(c, BoolCons):
            ts = [term(a) for a in c.args]
            if any(t is None for t in ts):
                if c.op == 'and':
                    ts = [t for t in ts if t is not None]
                    return z3.And(*ts) if ts else None
                return None
            return z3.And(*ts) if c.op == 'and' else z3.Or(*ts)
        p = simp(c.p)
        if p is None:
            return None
        if len(p.d) > 0:
            co, cm, pr = poly_content(p)
            if all(atoms[a].positive or (e.denominator == 1 and e % 2 == 0 and False)
                   for a, e in cm):
                p = pr.scale(1 if co > 0 else -1)
        t = z3.Sum([q(k) * monovar(m) if m else q(k) for m, k in p.d.items()]) \
            if p.d else z3.RealVal(0)
        return {'>': t > 0, '>=': t >= 0, '==': t == 0, '!=': t != 0}[c.op]

    ts = [t for t in map(term, allc) if t is not None]
    if len(mv) > 3000:
        return False
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 1500)
    s.add(*ts)
    s.add(*side)
    return s.check() == z3.unsat


def _has_fp(ts):
    return any('fp.' in t.sexpr() for t in ts[:50])


def cross_check(s, ts):
    """second opinion from cvc5 on an unsat verdict"""
    import subprocess
    import tempfile
    s2 = z3.Solver()
    s2.add(*ts)
    txt = '(set-logic ALL)\n' + s2.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=5000', fn], capture_output=True,
                           text=True, timeout=20)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        if out in ('sat', 'unsat'):
            STATS.cross += 1
            if out == 'sat':
                STATS.cross_disagree += 1
    except Exception:
        pass
    finally:
        os.unlink(fn)


class ModelView:
    def __init__(self, model, enc):
        self.model = model
        self.enc = enc

    def atom(self, a, default=None):
        r = self.enc.vars.get(a)
        if r is None:
            return default
        v, n = r
        x = self.model.eval(v, model_completion=True)
        x = num(x)
        return x ** n if n > 1 else x

    def var(self, v):
        return self.model.eval(v, model_completion=True)


def num(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % x)


# ---------------------------------------------------------------- exploration

class PathResult:
    __slots__ = ('ctx', 'value', 'exc', 'signal', 'tb')


def explore(fn, mode='real', max_paths=2000, timeout_ms=10000, budget_s=600.):
    """Runs fn() once per feasible path; yields PathResult."""
    work = [[]]
    deadline = time.time() + budget_s
    n = 0
    while work:
        # alternately deepest and shallowest: should the budget run out, every choice
        # of the harness has had its turn
        prefix = work.pop(0) if n % 2 else work.pop()
        n += 1
        if n > max_paths or time.time() > deadline:
            STATS.cut_paths += len(work) + 1
            r = PathResult()
            r.ctx = None
            r.value = None
            r.exc = None
            r.signal = PathBudget('path budget: %d paths left' % (len(work) + 1))
            yield r
            return
        c = Context(mode, prefix, timeout_ms, deadline)
        prev = Context.current
        Context.current = c
        r = PathResult()
        r.ctx = c
        r.value = r.exc = r.signal = r.tb = None
        try:
            r.value = fn()
            if c.aborted is not None:
                r.signal = c.aborted
        except EngineSignal as e:
            r.signal = e
        except RecursionError as e:
            r.signal = Unsupported('recursion')
        except Exception as e:
            if c.aborted is not None:
                r.signal = c.aborted
            else:
                r.exc = e
                import traceback
                r.tb = traceback.format_exc()
        finally:
            pass
        work.extend(c.alternatives)
        if isinstance(r.signal, PathInfeasible):
            Context.current = prev
            continue
        STATS.paths += 1
        try:
            yield r
        finally:
            Context.current = prev
