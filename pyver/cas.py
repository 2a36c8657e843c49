"""
Exact rational-function arithmetic used as the representation of symbolic
numbers.  A value is num / prod(factors) with polynomials over *atoms*
(program variables, floor()/min()/max() results, powers of two).  Arithmetic
normalises, so polynomial identities need no solver.
"""
from fractions import Fraction

ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def mono_div(a, b):
    d = dict(a)
    for k, e in b:
        r = d.get(k, 0) - e
        if r < 0:
            return None
        if r:
            d[k] = r
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE: c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fraction(1)})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_value(self):
        return self.t.get(ONE, Fraction(0))

    def add(self, o, s=1):
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + s * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def mul(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        d = {}
        for m2, c2 in o.t.items():
            for m1, c1 in self.t.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        if len(d) > 20000:
            raise OverflowError('polynomial too large')
        return Poly(d)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    @staticmethod
    def _ordkey(m):
        # graded lex
        return (sum(e for _, e in m), m)

    def lead(self):
        m = max(self.t, key=Poly._ordkey)
        return m, self.t[m]

    def divexact(self, f):
        """self / f if exact else None"""
        if f.is_const():
            return self.scale(1 / f.const_value())
        lm, lc = f.lead()
        # order must be a monomial order: use degree, then reverse-lex tuple
        r = self
        q = {}
        n = 0
        while r.t:
            m, c = max(((m, c) for m, c in r.t.items()), key=lambda x: Mono(x[0]))
            flm, flc = max(((m_, c_) for m_, c_ in f.t.items()), key=lambda x: Mono(x[0]))
            d = mono_div(m, flm)
            if d is None:
                return None
            k = c / flc
            q[d] = q.get(d, 0) + k
            r = r.add(f.mul(Poly({d: k})), -1)
            n += 1
            if n > 5000:
                return None
        return Poly(q)

    def atoms(self):
        s = set()
        for m in self.t:
            for k, _ in m:
                s.add(k)
        return s


class Mono:
    """Comparable wrapper giving a proper graded-lex monomial order"""
    __slots__ = ('m', 'd', 'dd')

    def __init__(self, m):
        self.m = m
        self.d = sum(e for _, e in m)
        self.dd = dict(m)

    def __lt__(self, o):
        if self.d != o.d:
            return self.d < o.d
        for k in sorted(set(self.dd) | set(o.dd)):
            a, b = self.dd.get(k, 0), o.dd.get(k, 0)
            if a != b:
                return a < b
        return False

    def __gt__(self, o):
        return o.__lt__(self)


class Rat:
    """num / prod f**e"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d      # tuple of (Poly, exp), each nonconstant, sorted by key

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    @staticmethod
    def atom(i):
        return Rat(Poly.atom(i))

    def is_const(self):
        return not self.d and self.n.is_const()

    def const_value(self):
        return self.n.const_value()

    @staticmethod
    def make(n, dd):
        """dd: dict Poly->exp"""
        if n.is_zero():
            return Rat(n)
        out = {}
        for f, e in dd.items():
            if f.is_const():
                n = n.scale(1 / (f.const_value() ** e))
                continue
            while e > 0:
                q = n.divexact(f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                out[f] = e
        return Rat(n, tuple(sorted(out.items(), key=lambda x: x[0].key())))

    def add(self, o, s=1):
        if self.d == o.d:
            n = self.n.add(o.n, s)
            if not self.d:
                return Rat(n)
            return Rat.make(n, dict(self.d))
        a, b = dict(self.d), dict(o.d)
        lcm = dict(a)
        for f, e in b.items():
            lcm[f] = max(lcm.get(f, 0), e)
        na, nb = self.n, o.n
        for f, e in lcm.items():
            for _ in range(e - a.get(f, 0)):
                na = na.mul(f)
            for _ in range(e - b.get(f, 0)):
                nb = nb.mul(f)
        return Rat.make(na.add(nb, s), lcm)

    def mul(self, o):
        d = dict(self.d)
        for f, e in o.d:
            d[f] = d.get(f, 0) + e
        n = self.n.mul(o.n)
        if not d:
            return Rat(n)
        return Rat.make(n, d)

    def inv(self):
        # factor: normalise numerator to monic, split monomial content
        n = self.n
        if n.is_zero():
            raise ZeroDivisionError
        m0, c0 = max(n.t.items(), key=lambda x: Mono(x[0]))
        n = n.scale(1 / c0)
        dd = {}
        # monomial content
        common = None
        for m in n.t:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {k: min(e, dm[k]) for k, e in common.items() if k in dm}
        rest = n
        for k, e in (common or {}).items():
            if e:
                rest = rest.divexact(Poly({((k, e),): Fraction(1)}))
                dd[Poly.atom(k)] = e
        if not rest.is_const():
            dd[rest] = dd.get(rest, 0) + 1
        num = Poly.const(1 / c0)
        for f, e in self.d:
            for _ in range(e):
                num = num.mul(f)
        return Rat.make(num, dd)

    def neg(self):
        return Rat(self.n.scale(-1), self.d)

    def eq(self, o):
        return self.add(o, -1).n.is_zero()

    def key(self):
        return (self.n.key(), tuple((f.key(), e) for f, e in self.d))

    def atoms(self):
        s = self.n.atoms()
        for f, _ in self.d:
            s |= f.atoms()
        return s

    def subst(self, mp):
        """mp: atom -> Rat"""
        def poly(p):
            out = Rat.const(0)
            for m, c in p.t.items():
                term = Rat.const(c)
                for k, e in m:
                    r = mp.get(k)
                    if r is None:
                        r = Rat.atom(k)
                    for _ in range(e):
                        term = term.mul(r)
                out = out.add(term)
            return out
        r = poly(self.n)
        for f, e in self.d:
            g = poly(f)
            for _ in range(e):
                r = r.mul(g.inv())
        return r
