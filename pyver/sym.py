"""
Symbolic values, path exploration and obligations.

`Engine.explore(fn)` executes fn (which runs *real code* on symbolic values) once
per feasible path.  Symbolic numbers are exact rational functions (cas.Rat) over
atoms; a comparison yields a SymBool whose truth value, when Python asks for it,
forks the path.  `Engine.check` generates an obligation under the path condition.

Solving.  A formula is translated to z3 twice: *linearly* (every non-linear
monomial is an independent variable, plus sign lemmas for it) and exactly.  unsat of
the linear over-approximation discharges; otherwise the exact translation decides.
"""
import math
import re
import time
from fractions import Fraction
import numpy as np
import z3
from pyver.cas import Rat, Poly, ONE, mono_div, mono_mul


class Control(BaseException):
    pass


class PathEnd(Control):
    """path is infeasible or complete"""


class Unsupported(Control):
    """outside of the fragment the verifier models"""


CUR = None          # the current engine


def eng():
    if CUR is None:
        raise Unsupported('no engine')
    return CUR


# ------------------------------------------------------------------ formulas

class F:
    """Formula: op in le lt eq (rat vs 0), and or not const var"""
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __repr__(self):
        if self.op in ('le', 'lt', 'eq'):
            return '({} {} 0)'.format(show(self.a), {'le': '<=', 'lt': '<', 'eq': '=='}[self.op])
        return '{}({})'.format(self.op, self.a)


TRUE = F('const', True)
FALSE = F('const', False)


def cmp0(op, rat):
    if rat.is_const():
        v = rat.const_value()
        return TRUE if {'le': v <= 0, 'lt': v < 0, 'eq': v == 0}[op] else FALSE
    return F(op, rat)


def fnot(f):
    if f.op == 'const':
        return FALSE if f.a else TRUE
    if f.op == 'not':
        return f.a
    if f.op == 'le':
        return F('lt', f.a.neg())
    if f.op == 'lt':
        return F('le', f.a.neg())
    return F('not', f)


def fand(fs):
    out = []
    for f in fs:
        if f.op == 'const':
            if not f.a:
                return FALSE
            continue
        out.append(f)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else F('and', out)


def for_(fs):
    out = []
    for f in fs:
        if f.op == 'const':
            if f.a:
                return TRUE
            continue
        out.append(f)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else F('or', out)


def fkey(f):
    if f.op in ('le', 'lt', 'eq'):
        return (f.op, f.a.key())
    if f.op in ('and', 'or'):
        return (f.op,) + tuple(fkey(g) for g in f.a)
    if f.op == 'not':
        return ('not', fkey(f.a))
    return (f.op, f.a)


def fmap(f, fn):
    """replace every rational in f"""
    if f.op in ('le', 'lt', 'eq'):
        r = fn(f.a)
        return f if r is f.a else cmp0(f.op, r)
    if f.op == 'and':
        return fand([fmap(g, fn) for g in f.a])
    if f.op == 'or':
        return for_([fmap(g, fn) for g in f.a])
    if f.op == 'not':
        return fnot(fmap(f.a, fn))
    return f


def frats(f):
    if f.op in ('le', 'lt', 'eq'):
        yield f.a
    elif f.op in ('and', 'or'):
        for g in f.a:
            yield from frats(g)
    elif f.op == 'not':
        yield from frats(f.a)


def show(rat):
    e = CUR

    def nm(k):
        return e.atoms[k].name if e else 'a%d' % k

    def poly(p):
        ts = []
        for m, c in sorted(p.t.items()):
            s = '*'.join([nm(k) + ('^%d' % x if x != 1 else '') for k, x in m])
            if not s:
                s = str(c)
            elif c != 1:
                s = '{}*{}'.format(c, s)
            ts.append(s)
        return ' + '.join(ts) or '0'
    s = poly(rat.n)
    if rat.d:
        s = '({})/({})'.format(s, ')('.join('{}{}'.format(poly(f), '' if x == 1 else '^%d' % x) for f, x in rat.d))
    return s


# ------------------------------------------------------------------ numbers

def to_rat(x):
    if isinstance(x, SymNum):
        return x.r
    if isinstance(x, (bool, np.bool_)):
        return Rat.const(int(x))
    if isinstance(x, (int, np.integer)):
        return Rat.const(int(x))
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise Unsupported('non finite constant')
        return Rat.const(Fraction(float(x)))
    if isinstance(x, Fraction):
        return Rat.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_rat(x.item())
    return None


def is_intval(x):
    if isinstance(x, SymNum):
        return x.isint
    return isinstance(x, (int, np.integer, bool)) and True


class SymNum:
    __slots__ = ('r', 'isint')

    def __init__(self, r, isint=False):
        self.r = r
        self.isint = isint

    # arithmetic
    def _bin(self, o, fn, intres=True):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        r = to_rat(o)
        if r is None:
            return NotImplemented
        return mk(fn(self.r, r), self.isint and is_intval(o) and intres)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a.add(b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a.add(b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b.add(a, -1))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a.mul(b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        r = to_rat(o)
        if r is None:
            return NotImplemented
        return div(self.r, r)

    def __rtruediv__(self, o):
        r = to_rat(o)
        if r is None:
            return NotImplemented
        return div(r, self.r)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - floor(self / o) * o

    def __neg__(self):
        return mk(self.r.neg(), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return smax(self, -self)

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) and n >= 0:
            out = Rat.const(1)
            for _ in range(int(n)):
                out = out.mul(self.r)
            return mk(out, self.isint)
        raise Unsupported('power')

    def __rpow__(self, base):
        if base == 2:
            return pow2(self)
        raise Unsupported('power')

    # comparison
    def _cmp(self, o, op, flip=False, neg=False):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            # finite < inf
            lt = (o > 0) != flip        # self < o
            return bool(lt)
        if isinstance(o, float) and math.isnan(o):
            return False
        r = to_rat(o)
        if r is None:
            return NotImplemented
        d = r.add(self.r, -1) if flip else self.r.add(r, -1)
        return SymBool.of(cmp0(op, d))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'lt', True)

    def __ge__(self, o):
        return self._cmp(o, 'le', True)

    def __eq__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return False
        v = self._cmp(o, 'eq')
        return False if v is NotImplemented else v

    def __ne__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return True
        v = self._cmp(o, 'eq')
        if v is NotImplemented:
            return True
        return SymBool.of(fnot(v.f)) if isinstance(v, SymBool) else not v

    def __hash__(self):
        return hash(self.r.key())

    def __bool__(self):
        return bool(self != 0)

    def __ceil__(self):
        return ceil(self)

    def __floor__(self):
        return floor(self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, n=None):
        raise Unsupported('round')

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        r = eng().norm_rat(self.r)
        if r.is_const() and self.isint:
            return int(r.const_value())
        raise Unsupported('symbolic number used as an index')

    def item(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return floor(self) == self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def dtype(self):
        return np.dtype('int64') if self.isint else np.dtype('float64')

    @property
    def ndim(self):
        return 0

    def ravel(self):
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def __repr__(self):
        return '<' + show(self.r) + '>'

    def __format__(self, spec):
        if FORMAT_HOOK[0] is not None:
            return FORMAT_HOOK[0](self, spec)
        return repr(self)


FORMAT_HOOK = [None]


def mk(r, isint):
    if r.is_const():
        c = r.const_value()
        if c.denominator == 1:
            return int(c) if isint else float(int(c))
        # exact constants stay symbolic so that no rounding is introduced
        return SymNum(r, False)
    return SymNum(r, isint)


def lift(x):
    return x if isinstance(x, SymNum) else SymNum(to_rat(x), is_intval(x))


def div(a, b):
    e = eng()
    if b.is_const():
        if b.const_value() == 0:
            raise ZeroDivisionError('division by zero')
        return mk(a.mul(Rat.const(1 / b.const_value())), False)
    b = e.norm_rat(b)
    if b.is_const():
        return div(a, b)
    z = cmp0('eq', b)
    if e.entails(fnot(z)):
        pass
    else:
        e.on_div_zero(z)
    return mk(a.mul(b.inv()), False)


class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    @staticmethod
    def of(f):
        if f.op == 'const':
            return f.a
        return SymBool(f)

    def __bool__(self):
        return eng().branch(self.f)

    def __and__(self, o):
        return SymBool.of(fand([self.f, form(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool.of(for_([self.f, form(o)]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool.of(fnot(self.f))

    def __eq__(self, o):
        g = form(o)
        return SymBool.of(for_([fand([self.f, g]), fand([fnot(self.f), fnot(g)])]))

    def __ne__(self, o):
        return ~SymBool.of(form(self == o)) if isinstance(self == o, SymBool) else not (self == o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SymBool(%r)' % (self.f,)


def form(x):
    if isinstance(x, F):
        return x
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, SymNum):
        return fnot(cmp0('eq', x.r))
    raise Unsupported('formula of %r' % (type(x),))


def NOT(x):
    return SymBool.of(fnot(form(x)))


def AND(*xs):
    return SymBool.of(fand([form(x) for x in xs]))


def OR(*xs):
    return SymBool.of(for_([form(x) for x in xs]))


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    return SymBool.of(cmp0('eq', to_rat(a).add(to_rat(b), -1)))


# ------------------------------------------------------------------ derived atoms

def _int_combination(r):
    """all integer coefficients over int atoms, no denominators"""
    e = eng()
    if r.d:
        return False
    for m, c in r.n.t.items():
        if c.denominator != 1:
            return False
        for k, _ in m:
            if not e.atoms[k].isint:
                return False
    return True


def split_int(r):
    """(integer part, rest) of a rational: terms that are integers on their own"""
    e = eng()
    dm = ONE
    dc = Fraction(1)
    for f, x in r.d:
        if len(f.t) != 1:
            return None, r
        (m, c), = f.t.items()
        for _ in range(x):
            dm = mono_mul(dm, m)
            dc *= c
    whole, rest = {}, {}
    for m, c in r.n.t.items():
        q = mono_div(m, dm)
        cc = c / dc
        if q is not None and cc.denominator == 1 and all(e.atoms[k].isint for k, _ in q):
            whole[q] = cc
        elif q is not None and q == ONE and math.floor(cc):
            whole[q] = Fraction(math.floor(cc))
            rest[m] = c - math.floor(cc) * dc
        else:
            rest[m] = c
    if not whole:
        return None, r
    return Rat(Poly(whole)), Rat.make(Poly(rest), dict(r.d))


def cur(x):
    """x with the equalities of the path applied"""
    if isinstance(x, SymNum):
        r = eng().norm_rat(x.r)
        if r is not x.r:
            return mk(r, x.isint)
    return x


def nested_ceil(r):
    """ceil(ceil(y) / m) == ceil(y / m) for integers m >= 1: the argument y / m  (lemma L1)"""
    e = eng()
    if len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and e.atoms[m[0][0]].kind == 'ceil':
            rest = Rat(Poly({ONE: c}), r.d)
            inv = rest.inv()
            if not inv.d and all(cc > 0 and cc.denominator == 1 for cc in inv.n.t.values()) and \
                    all(e.atoms[k].kind == 'pow2' for k in inv.atoms()):
                return e.atoms[m[0][0]].arg.mul(rest)
    return None


def ceil(x):
    x = cur(x)
    if not isinstance(x, SymNum):
        return int(math.ceil(x))
    if x.isint or _int_combination(x.r):
        return SymNum(x.r, True)
    whole, rest = split_int(x.r)
    if whole is not None:
        return mk(whole, True) + ceil(mk(rest, False))
    e = eng()
    n = nested_ceil(x.r)
    if n is not None:
        e.used.add('lemma L1: ceil(ceil(y)/m) = ceil(y/m) for integers m >= 1')
        return ceil(mk(n, False))
    return e.derived('ceil', x.r, lambda k: [x <= k, k < x + 1])


def floor(x):
    x = cur(x)
    if not isinstance(x, SymNum):
        return int(math.floor(x))
    if x.isint or _int_combination(x.r):
        return SymNum(x.r, True)
    whole, rest = split_int(x.r)
    if whole is not None:
        return mk(whole, True) + floor(mk(rest, False))
    return eng().derived('floor', x.r, lambda k: [k <= x, x < k + 1])


def trunc(x):
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return x
    if x >= 0:
        return floor(x)
    return ceil(x)


def smin(a, b):
    a, b = cur(a), cur(b)
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return min(a, b)
    for u, v in ((a, b), (b, a)):
        if isinstance(u, float) and math.isinf(u):
            return v if u > 0 else u
    e = eng()
    c = form(lift(a) <= b)
    if e.entails(c):
        return a
    if e.entails(fnot(c)) or e.entails(form(lift(b) <= a)):
        return b
    isint = is_intval(a) and is_intval(b)
    ka, kb = sorted([to_rat(a), to_rat(b)], key=lambda r: r.key())
    return e.derived('min', (ka, kb), lambda k: [k <= a, k <= b, OR(EQ(k, a), EQ(k, b))], isint)


def smax(a, b):
    a, b = cur(a), cur(b)
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return max(a, b)
    for u, v in ((a, b), (b, a)):
        if isinstance(u, float) and math.isinf(u):
            return v if u < 0 else u
    e = eng()
    c = form(lift(a) >= b)
    if e.entails(c):
        return a
    if e.entails(fnot(c)) or e.entails(form(lift(b) >= a)):
        return b
    isint = is_intval(a) and is_intval(b)
    ka, kb = sorted([to_rat(a), to_rat(b)], key=lambda r: r.key())
    return e.derived('max', (ka, kb), lambda k: [k >= a, k >= b, OR(EQ(k, a), EQ(k, b))], isint)


def sqrt(x):
    x = cur(x)
    if not isinstance(x, SymNum):
        f = to_rat(x)
        r = math.isqrt(int(x)) if x >= 0 and float(x).is_integer() else None
        if r is not None and r * r == x:
            return float(r)
        x = SymNum(f)
    # perfect squares of the simple kind
    e = eng()
    if len(x.r.n.t) == 1 and not x.r.d:
        (m, c), = x.r.n.t.items()
        if len(m) == 1 and m[0][1] == 2 and c == 1:
            base = SymNum(Rat.atom(m[0][0]))
            return abs(base)
    k = e.derived('sqrt', x.r, lambda k: [k >= 0], False)
    (m, c), = k.r.n.t.items()
    e.squares[m[0][0]] = x.r
    return k


def reduce_squares(r):
    """rewrite even powers of sqrt atoms"""
    e = eng()
    for k, sq in e.squares.items():
        if k not in r.atoms():
            continue

        def red(p):
            out = Rat.const(0)
            for m, c in p.t.items():
                d = dict(m)
                n = d.pop(k, 0)
                base = Rat(Poly({tuple(sorted(d.items())): c}))
                if n % 2:
                    base = base.mul(Rat.atom(k))
                for _ in range(n // 2):
                    base = base.mul(sq)
                out = out.add(base)
            return out
        num = red(r.n)
        for f, x in r.d:
            for _ in range(x):
                g = red(f)
                # rationalise denominators that are multiples of the root
                num = num.mul(g.inv())
        r = num
    return r


def pow2(n):
    """2 ** n for integer n (symbolic); n >= 0 gives integers"""
    n = cur(n)
    if not isinstance(n, SymNum):
        return 2 ** n
    e = eng()
    if n.r.d:
        raise Unsupported('2 ** (rational)')
    out = Rat.const(1)
    for m, c in n.r.n.t.items():
        if c.denominator != 1:
            raise Unsupported('2 ** (fraction)')
        c = int(c)
        if m == ONE:
            out = out.mul(Rat.const(Fraction(2) ** c))
            continue
        x = SymNum(Rat(Poly({m: Fraction(1)})), True)
        p = e.derived('pow2', x.r, lambda k: [k >= 1, OR(NOT(EQ(x, 0)), EQ(k, 1)), OR(x <= 0, k >= 2)])
        for _ in range(abs(c)):
            out = out.mul(p.r if c > 0 else p.r.inv())
    return mk(out, not out.d)


class SymLog2:
    """log2 of a symbolic number; only truncation to int is modelled"""
    def __init__(self, x):
        self.x = x

    def trunc(self):
        e = eng()
        if not e.entails(form(self.x >= 1)):
            if not bool(self.x >= 1):
                raise Unsupported('log2 of a number below one')
        x = self.x
        k = e.fresh('log2', True)
        p = pow2(k)
        e.assume(k >= 0)
        e.assume(p <= x)
        e.assume(x < p * 2)
        # 2 ** k >= 2 when k >= 1, == 1 when k == 0
        e.assume(OR(AND(EQ(k, 0), EQ(p, 1)), AND(k >= 1, p >= 2)))
        return k


# ------------------------------------------------------------------ engine

class Atom:
    __slots__ = ('id', 'name', 'isint', 'kind', 'arg', 'z')


class Obligation:
    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.ok = 0
        self.status = 'discharged'
        self.note = ''
        self.model = None
        self.path = None
        self.how = {}
        self.extra = None
        self.cases = []

    def describe(self):
        return {'obligation': self.name, 'status': self.status, 'note': self.note,
                'path_decisions': self.path, 'model': self.model, 'vcs': self.vcs, 'extra': self.extra}


class Engine:
    def __init__(self, name, timeout_ms=2000, hard_ms=8000, max_paths=4000, deadline=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.hard_ms = hard_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obs = {}
        self.paths = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.used = set()           # lemmas, assumptions used
        self.unsupported = []
        self.covered = set()
        self.backends = {}
        self.ctx_info = None
        self.cache = {}
        self.on_refuted = None

    # -------- exploration
    def explore(self, fn):
        global CUR
        prev = CUR
        CUR = self
        stack = [[]]
        try:
            while stack:
                if self.paths >= self.max_paths:
                    self.undecided('path-budget', 'more than %d paths' % self.max_paths)
                    break
                if self.deadline and time.time() > self.deadline:
                    self.undecided('time-budget', 'exploration ran out of time after %d paths' % self.paths)
                    break
                prefix = stack.pop()
                self._reset(prefix)
                try:
                    fn(self)
                    self.paths += 1
                except PathEnd:
                    self.paths += 1
                except Unsupported as ex:
                    self.paths += 1
                    self.undecided('unsupported', str(ex), tb=ex)
                # alternatives of the decisions taken after the prefix
                for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                    ch, alts, key = self.trace[i]
                    for a in alts:
                        stack.append([(t[0], t[2]) for t in self.trace[:i]] + [(a, key)])
        finally:
            CUR = prev

    def _reset(self, prefix):
        self.prefix = prefix
        self.on_refuted = None
        self.trace = []
        self.pos = 0
        self.atoms = []
        self.memo = {}
        self.squares = {}
        self.pc = []
        self.lin = LinCtx(self)
        self.notes = []
        self.fresh_n = {}
        self.subst = {}
        self.defs = []
        self.pch = 0

    def decide(self, n, feasible, key=None):
        """take one of n alternatives; feasible(i) tells whether i is possible"""
        if self.deadline and time.time() > self.deadline + 60:
            raise Unsupported('time budget')
        key = hash(key)
        if self.pos < len(self.prefix):
            c, k = self.prefix[self.pos]
            if k != key:
                raise Unsupported('the execution of a path prefix was not reproducible')
            self.pos += 1
            self.trace.append((c, [], key))
            return c
        opts = [i for i in range(n) if feasible(i)]
        if not opts:
            raise PathEnd
        self.pos += 1
        self.trace.append((opts[0], opts[1:][::-1], key))
        return opts[0]

    def branch(self, f):
        f = self.norm(f)
        if f.op == 'const':
            return f.a
        c = self.decide(2, lambda i: self.feasible(f if i == 0 else fnot(f)), fkey(f))
        self.add(f if c == 0 else fnot(f))
        return c == 0

    def choose(self, options, label=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.decide(len(options), lambda i: True, (label, len(options)))
        self.notes.append('{}={}'.format(label, options[i]))
        return options[i]

    # -------- equalities are eliminated by substitution
    def norm_rat(self, r):
        if self.subst:
            if any(k in self.subst for k in r.atoms()):
                return r.subst(self.subst)
        return r

    def norm(self, f):
        return fmap(f, self.norm_rat) if self.subst else f

    def substitute(self, k, r):
        """atom k equals r from now on"""
        r = self.norm_rat(r)
        if k in self.subst or k in r.atoms():
            raise Unsupported('substitution')
        one = {k: r}
        for j in list(self.subst):
            if k in self.subst[j].atoms():
                self.subst[j] = self.subst[j].subst(one)
        self.subst[k] = r
        d = F('eq', Rat.atom(k).add(r, -1))
        self.defs.append(d)
        self.lin.assert_(d)
        self._mark(d)
        pc = []
        for g in self.pc:
            if any(k in x.atoms() for x in frats(g)):
                g = fmap(g, lambda x: x.subst(one) if k in x.atoms() else x)
                if g.op == 'const':
                    if not g.a:
                        raise PathEnd
                    continue
                self.lin.assert_(g)
            pc.append(g)
        self.pc = pc
        # derived atoms are looked up by their (normalised) argument
        merge = []
        for (kind, key), v in list(self.memo.items()):
            if not isinstance(v, SymNum) or v.r.d or len(v.r.n.t) != 1:
                continue
            (m, c), = v.r.n.t.items()
            if len(m) != 1 or m[0][0] in self.subst:
                continue
            a = self.atoms[m[0][0]]
            if isinstance(a.arg, Rat):
                if k not in a.arg.atoms():
                    continue
                a.arg = a.arg.subst(one)
                nk = (kind, a.arg.key())
                if kind == 'pow2':
                    merge.append((m[0][0], lift(pow2(mk(a.arg, True)))))
                    continue
                if kind in ('ceil', 'floor') and (a.arg.is_const() or _int_combination(a.arg) or split_int(a.arg)[0] is not None
                                                  or kind == 'ceil' and nested_ceil(a.arg) is not None):
                    merge.append((m[0][0], lift((ceil if kind == 'ceil' else floor)(mk(a.arg, False)))))
                    continue
            elif isinstance(a.arg, tuple):
                if not any(k in x.atoms() for x in a.arg):
                    continue
                a.arg = tuple(sorted((x.subst(one) for x in a.arg), key=lambda r: r.key()))
                nk = (kind, tuple(x.key() for x in a.arg))
            else:
                continue
            if nk in self.memo:
                if self.memo[nk] is not v:
                    merge.append((m[0][0], self.memo[nk]))
            else:
                self.memo[nk] = v
        for j, v in merge:
            if j not in self.subst:
                r = self.norm_rat(v.r)
                if j not in r.atoms():
                    self.substitute(j, r)

    def solve_for(self, f):
        """(atom, value) of an equality that can be eliminated"""
        if f.op != 'eq':
            return None
        n = f.a.n
        best = None
        for m, c in n.t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            k = m[0][0]
            a = self.atoms[k]
            if k in self.subst or a.kind not in ('var', 'min', 'max', 'ceil', 'floor'):
                continue
            rank = (a.kind == 'var', k)
            if sum(1 for mm in n.t if any(kk == k for kk, _ in mm)) != 1:
                continue
            rest = Rat(Poly({mm: -cc / c for mm, cc in n.t.items() if mm != m}))
            if a.isint and not _int_combination(rest):
                continue
            if a.kind != 'var' and any(k in self.closure(j) for j in rest.atoms()):
                continue
            if best is None or rank > best[2]:
                best = (k, rest, rank)
        return best and best[:2]

    def closure(self, k):
        """atoms a derived atom is defined from"""
        out, todo = set(), [k]
        while todo:
            j = todo.pop()
            if j in out:
                continue
            out.add(j)
            a = self.atoms[j].arg
            for r in (a if isinstance(a, tuple) else (a,) if isinstance(a, Rat) else ()):
                todo += list(r.atoms())
        return out

    def _mark(self, f):
        self.pch = hash((self.pch, fkey(f)))

    def add(self, f):
        if f.op == 'and':
            for g in f.a:
                self.add(self.norm(g))
            return
        if f.op == 'const':
            if not f.a:
                raise PathEnd
            return
        if f.op == 'eq':
            n = f.a.n
            if len(n.t) > 1 and ONE not in n.t and (all(c > 0 for c in n.t.values()) or all(c < 0 for c in n.t.values())) and \
                    all(len(m) == 1 and m[0][1] == 1 for m in n.t):
                ats = [m[0][0] for m in n.t]
                if all(self.entails(F('le', Rat.atom(k).neg())) for k in ats):
                    for k in ats:       # a sum of non-negative numbers is zero
                        if self.atoms[k].kind == 'var' and k not in self.subst:
                            self.substitute(k, Rat.const(0))
                        else:
                            self.add(self.norm(F('eq', Rat.atom(k))))
                    return
        sv = self.solve_for(f)
        if sv is not None:
            self.substitute(*sv)
            return
        self.pc.append(f)
        self.lin.assert_(f)
        self._mark(f)

    def assume(self, x):
        f = self.norm(form(x))
        if f.op == 'const':
            if not f.a:
                raise PathEnd
            return
        self.add(f)

    def require(self, x):
        """assume and stop when it is inconsistent"""
        self.assume(x)
        if not self.feasible(TRUE):
            raise PathEnd

    def lincheck(self, f, ms):
        key = (self.pch, fkey(f))
        r = self.cache.get(key)
        if r is None:
            r = self.lin.check(f, ms)
            self.cache[key] = r
        return r

    def feasible(self, f):
        f = self.norm(f)
        if f.op == 'const' and not f.a:
            return False
        return self.lincheck(f, self.timeout_ms) != 'unsat'

    def entails(self, f):
        f = self.norm(f)
        if f.op == 'const':
            return f.a
        return self.lincheck(fnot(f), self.timeout_ms) == 'unsat'

    def on_div_zero(self, z):
        self.used.add('assumption: divisors on the explored paths are non-zero (zero sizes and singular transforms are left to the bounded layer)')
        self.assume(fnot(z))

    # -------- atoms
    def fresh(self, name, isint=False, **constraints):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return self._atom(name if n == 0 else '%s_%d' % (name, n), isint, 'var', None)

    def ints(self, *names):
        return [self.fresh(n, True) for n in names]

    def reals(self, *names):
        return [self.fresh(n, False) for n in names]

    def nat(self, name, lo=0):
        v = self.fresh(name, True)
        self.assume(v >= lo)
        return v

    def _atom(self, name, isint, kind, arg):
        a = Atom()
        a.id = len(self.atoms)
        a.name = name
        a.isint = isint
        a.kind = kind
        a.arg = arg
        a.z = z3.Int(name) if isint else z3.Real(name)
        self.atoms.append(a)
        return SymNum(Rat.atom(a.id), isint)

    def derived(self, kind, arg, axioms, isint=True):
        arg = self.norm_rat(arg) if isinstance(arg, Rat) else tuple(self.norm_rat(r) for r in arg)
        key = (kind, arg.key() if isinstance(arg, Rat) else tuple(r.key() for r in arg))
        if key in self.memo:
            return self.memo[key]
        v = self._atom('%s%d' % (kind, len(self.atoms)), isint, kind, arg)
        self.memo[key] = v
        for ax in axioms(v):
            self.assume(ax)
        return v

    # -------- obligations
    def ob(self, name):
        full = self.name + ': ' + name
        if full not in self.obs:
            self.obs[full] = Obligation(full)
        return self.obs[full]

    def undecided(self, name, note, tb=None):
        o = self.ob(name)
        o.vcs += 1
        if o.status == 'discharged':
            o.status = 'undecided'
            o.note = note
            o.path = list(self.notes)

    def fail(self, name, note='', extra=None):
        """an obligation that is false on this (feasible) path"""
        return self.check(name, False, extra=extra, note=note)

    def check(self, name, goal, extra=None, note=''):
        o = self.ob(name)
        o.vcs += 1
        g = form(goal)
        st, how, model = self.prove(g, o.status == 'refuted')
        o.how[how] = o.how.get(how, 0) + 1
        self.backends[how] = self.backends.get(how, 0) + 1
        if st == 'proved':
            o.ok += 1
        elif st == 'refuted':
            if o.status != 'refuted':
                o.status = 'refuted'
                o.note = note or repr(g)[:500]
                o.model = model
                o.extra = extra
                if self.on_refuted is not None:
                    try:
                        o.cases = self.on_refuted(model)
                    except Exception as ex:
                        o.cases = []
                        o.extra = '%s (no concrete case: %r)' % (extra or '', ex)
                o.path = list(self.notes)
        elif o.status == 'discharged':
            o.status = 'undecided'
            o.note = note or ('solver gave no answer for ' + repr(g)[:200])
            o.path = list(self.notes)
        if g.op != 'const':
            self.assume(g)
        return st == 'proved'

    def prove(self, g, known=False):
        g = self.norm(g)
        if g.op == 'const' and g.a:
            return 'proved', 'algebra', None
        ng = fnot(g)
        if g.op == 'eq' and self.squares:
            r = reduce_squares(g.a)
            if r.n.is_zero():
                return 'proved', 'algebra', None
        r = self.lincheck(ng, self.hard_ms)
        if r == 'unsat':
            return 'proved', 'z3-linear', None
        if known:               # already refuted on another path
            return 'failed', 'none', None
        # exact
        st, model = self.exact(ng)
        if st == 'unsat':
            return 'proved', 'z3-nonlinear', None
        if st == 'sat':
            for more in (2, 1, 0):
                st2, small = self.exact(ng, self.small(more))
                if st2 == 'sat':
                    return 'refuted', 'z3-nonlinear', small
            if any(a.kind == 'pow2' for a in self.atoms):
                # the axioms of 2**n are incomplete: no model with a true power of two
                return 'undecided', 'none', None
            return 'refuted', 'z3-nonlinear', model
        st = self.cvc5(ng)
        if st == 'unsat':
            return 'proved', 'cvc5', None
        return 'undecided', 'none', None

    def exact_formulas(self, f):
        def rat(r):
            def poly(p):
                ts = []
                for m, c in p.t.items():
                    t = z3.RealVal(str(c))
                    for k, x in m:
                        a = self.atoms[k]
                        z = z3.ToReal(a.z) if a.isint else a.z
                        for _ in range(x):
                            t = t * z
                    ts.append(t)
                return z3.Sum(ts) if ts else z3.RealVal(0)
            return poly(r.n), [(poly(fc), x) for fc, x in r.d]

        def conv(f):
            if f.op == 'const':
                return z3.BoolVal(f.a)
            if f.op == 'and':
                return z3.And([conv(g) for g in f.a])
            if f.op == 'or':
                return z3.Or([conv(g) for g in f.a])
            if f.op == 'not':
                return z3.Not(conv(f.a))
            if f.op == 'var':
                return z3.Bool(f.a)
            n, ds = rat(f.a)
            den = None
            for d, x in ds:
                for _ in range(x):
                    den = d if den is None else den * d
            if den is None:
                return {'le': n <= 0, 'lt': n < 0, 'eq': n == 0}[f.op]
            if f.op == 'eq':
                return n == 0
            sg = n * den
            return {'le': sg <= 0, 'lt': sg < 0}[f.op]
        out = [conv(g) for g in self.pc + self.defs] + [conv(f)]
        dens = set()
        for g in self.pc + self.defs + [f]:
            for r in frats(g):
                for d, _ in r.d:
                    if d.key() not in dens:
                        dens.add(d.key())
                        out.append(conv(fnot(F('eq', Rat(d)))))
        return out

    def small(self, small):
        """restricts models to true powers of two (and to small numbers)"""
        out = []
        for a in self.atoms:
            if a.kind == 'pow2':
                n = self.exact_formulas_only(F('eq', a.arg))[-1].arg(0)
                out.append(z3.Or([z3.And(n == k, a.z == 2 ** k) for k in range(5 if small else 12)]))
            elif small and a.kind == 'var':
                out.append(z3.And(a.z >= -40, a.z <= 40))
                if small == 2 and re.search('_(w|h)(_[0-9]+)?$', a.name):
                    out.append(a.z >= 2)
        return out

    def exact(self, f, more=()):
        """exact translation, decided in a child process with a hard time limit"""
        t0 = time.time()
        fs = self.exact_formulas(f) + list(more)
        for k, sq in self.squares.items():
            fs += self.exact_formulas_only(F('eq', Rat.atom(k).mul(Rat.atom(k)).add(sq, -1)))

        def job():
            s = z3.Solver()
            s.set('timeout', self.hard_ms)
            s.add(*fs)
            r = s.check()
            out = None
            if r == z3.sat:
                m = s.model()
                out = {a.name: str(m.eval(a.z, model_completion=True)) for a in self.atoms}
            return str(r), out
        res = in_child(job, self.hard_ms / 1000 + 2)
        self.solver_time += time.time() - t0
        self.solver_calls += 1
        return res or ('unknown', None)

    def exact_formulas_only(self, f):
        pc, self.pc = self.pc, []
        df, self.defs = self.defs, []
        try:
            return self.exact_formulas(f)
        finally:
            self.pc, self.defs = pc, df

    def cvc5(self, f):
        t0 = time.time()
        fs = self.exact_formulas(f)

        def job():
            import cvc5
            s = z3.Solver()
            s.add(*fs)
            text = '(set-logic ALL)\n' + s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(self.hard_ms))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
            sm = p.getSymbolManager()
            res = 'unknown'
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                if 'sat' in str(o):
                    res = str(o).strip()
            return res
        res = in_child(job, self.hard_ms / 1000 + 2)
        self.solver_time += time.time() - t0
        self.solver_calls += 1
        return res or 'unknown'

    def cover(self, name):
        self.covered.add(self.name + ': ' + name)


def in_child(job, seconds):
    """result of job() computed in a forked child that is killed after a time limit"""
    import os
    import pickle
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(job())
            os.write(w, data[:60000])
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    end = time.time() + seconds
    try:
        while True:
            ok = select.select([r], [], [], max(0, end - time.time()))[0]
            if not ok:
                return None
            chunk = os.read(r, 65536)
            if not chunk:
                break
            out += chunk
        return pickle.loads(out) if out else None
    except Exception:
        return None
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)


class LinCtx:
    """Linear abstraction of the path condition with an incremental solver"""
    def __init__(self, e):
        self.e = e
        self.s = z3.Solver()
        self.vars = {}
        self.asserted = []

    def expand(self, r):
        """Rat -> dict of (monomial with negative exponents and inverse polynomials) -> coeff"""
        cur = [(r.n, ())]
        for f, x in r.d:
            single = None
            if len(f.t) == 1:
                (m, c), = f.t.items()
                single = (m, c)
            nxt = []
            for p, invs in cur:
                if single:
                    m, c = single
                    d = {}
                    for mm, cc in p.t.items():
                        dd = dict(mm)
                        for k, y in m:
                            dd[k] = dd.get(k, 0) - y * x
                        key = tuple(sorted((k, v) for k, v in dd.items() if v))
                        d[key] = d.get(key, 0) + cc / c ** x
                    nxt.append((Poly({k: v for k, v in d.items() if v}), invs))
                else:
                    rem = p
                    # p = q_x f^x + ... + q_0, terms q_i / f^(x-i)
                    pow_ = x
                    while True:
                        if pow_ == 0:
                            if rem.t:
                                nxt.append((rem, invs))
                            break
                        q, r0 = divmod_poly(rem, f)
                        if r0.t:
                            nxt.append((r0, invs + ((f.key(), pow_, f),)))
                        rem = q
                        pow_ -= 1
                        if not rem.t:
                            break
            cur = nxt
        out = {}
        for p, invs in cur:
            ik = tuple((k, x) for k, x, _ in invs)
            for m, c in p.t.items():
                key = (m, ik)
                out[key] = out.get(key, 0) + c
                if ik:
                    self.invs = getattr(self, 'invs', {})
                    for k, x, f in invs:
                        self.invs[k] = f
        return {k: v for k, v in out.items() if v}

    def term(self, r):
        d = self.expand(r)
        ts = []
        # integer form when everything is integral
        allint = True
        for (m, ik), c in d.items():
            if ik or c.denominator != 1 or any(x < 0 or not self.e.atoms[k].isint for k, x in m):
                allint = False
                break
        for (m, ik), c in d.items():
            if not m and not ik:
                ts.append(z3.IntVal(int(c)) if allint else z3.RealVal(str(c)))
                continue
            v, isint = self.var(m, ik)
            if not allint and isint:
                v = z3.ToReal(v)
            ts.append(v if c == 1 else (z3.IntVal(int(c)) if allint else z3.RealVal(str(c))) * v)
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def var(self, m, ik):
        e = self.e
        if not ik and len(m) == 1 and m[0][1] == 1:
            a = e.atoms[m[0][0]]
            return a.z, a.isint
        key = (m, ik)
        if key in self.vars:
            return self.vars[key]
        isint = not ik and all(x > 0 and e.atoms[k].isint for k, x in m)
        name = 'm!%d' % len(self.vars)
        v = z3.Int(name) if isint else z3.Real(name)
        self.vars[key] = (v, isint)
        self.lemmas(m, ik, v)
        return v, isint

    def lemmas(self, m, ik, v):
        e = self.e
        pos, nonneg, neg1 = [], [], None
        for k, x in m:
            a = e.atoms[k].z
            if x % 2 == 0:
                continue
            pos.append(a > 0)
            nonneg.append(a >= 0)
        for kk, x in ik:
            if x % 2 == 0:
                continue
            t = self.term(Rat(self.invs[kk]))
            pos.append(t > 0)
            nonneg.append(t > 0)
        if not pos:
            self.s.add(v >= 0)
            return
        # zero factors
        zero = z3.Or([e.atoms[k].z == 0 for k, x in m if x > 0]) if any(x > 0 for _, x in m) else None
        even_nonzero = [e.atoms[k].z != 0 for k, x in m if x % 2 == 0]
        if zero is not None:
            self.s.add(z3.Implies(zero, v == 0))
        self.s.add(z3.Implies(z3.And(pos + even_nonzero), v > 0))
        self.s.add(z3.Implies(z3.And(nonneg), v >= 0))
        if len(pos) <= 3:
            for i in range(len(pos)):
                rest = [p for j, p in enumerate(pos) if j != i]
                # one negative factor
                self.s.add(z3.Implies(z3.And(rest + even_nonzero + [z3.Not(nonneg[i])]), v < 0))
        # x * P**-1 <= x <= x * P for P >= 1 and x >= 0  (single power of two)
        if not ik and len(m) == 2:
            for (k, x), (k2, x2) in (m, m[::-1]):
                if e.atoms[k].kind == 'pow2' and x2 == 1 and abs(x) == 1:
                    o, oi = self.var(((k2, 1),), ())
                    if oi and not z3.is_int(v):
                        o = z3.ToReal(o)
                    if x == -1:
                        self.s.add(z3.Implies(o >= 0, v <= o), z3.Implies(o <= 0, v >= o))
                    else:
                        self.s.add(z3.Implies(o >= 0, v >= o), z3.Implies(o <= 0, v <= o))
        if not ik and len(m) == 1 and m[0][1] == -1 and e.atoms[m[0][0]].kind == 'pow2':
            self.s.add(v <= 1)
        # reciprocal compared with one
        if not ik and len(m) == 1 and m[0][1] == -1:
            a = e.atoms[m[0][0]].z
            if z3.is_int(a):
                a = z3.ToReal(a)
            self.s.add(z3.Implies(a >= 1, v <= 1), z3.Implies(z3.And(a > 0, a <= 1), v >= 1))

    def conv(self, f):
        if f.op == 'const':
            return z3.BoolVal(f.a)
        if f.op == 'and':
            return z3.And([self.conv(g) for g in f.a])
        if f.op == 'or':
            return z3.Or([self.conv(g) for g in f.a])
        if f.op == 'not':
            return z3.Not(self.conv(f.a))
        if f.op == 'var':
            return z3.Bool(f.a)
        t = self.term(f.a)
        return {'le': t <= 0, 'lt': t < 0, 'eq': t == 0}[f.op]

    def assert_(self, f):
        # variables of lemmas must be added outside of push/pop
        self.s.add(self.conv(f))

    def check(self, f, timeout):
        c = self.conv(f)        # may add lemmas at the base level
        e = self.e
        t0 = time.time()
        self.s.set('timeout', timeout)
        r = self.s.check(c) if z3.is_const(c) and False else self._check(c)
        e.solver_time += time.time() - t0
        e.solver_calls += 1
        return str(r)

    def _check(self, c):
        self.s.push()
        self.s.add(c)
        r = self.s.check()
        self.s.pop()
        return r


def divmod_poly(p, f):
    from pyver.cas import Mono, mono_div
    flm, flc = max(f.t.items(), key=lambda t: Mono(t[0]))
    q = Poly({})
    rem = p
    # pseudo division: divide any divisible term, keep the others
    keep = Poly({})
    n = 0
    while rem.t:
        m, c = max(rem.t.items(), key=lambda t: Mono(t[0]))
        d = mono_div(m, flm) if all(x >= 0 for _, x in m) else None
        if d is None:
            t = Poly({m: c})
            keep = keep.add(t)
            rem = rem.add(t, -1)
            continue
        t = Poly({d: c / flc})
        q = q.add(t)
        rem = rem.add(f.mul(t), -1)
        n += 1
        if n > 2000:
            raise Unsupported('polynomial division')
    return q, keep
