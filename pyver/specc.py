"""Sequences of channel codes of any length (C08, C09, C10)

The module channel_spec.py is executed with its text; an AST pass makes these constructs visible without
changing them: list and dict displays, for loops, comprehensions, ==, in, x[i], x.method(..).

Strings.  A string is a Python string in which private-use characters stand for an arbitrary name,
the decimal numeral of a symbolic integer or the text of an arbitrary stream, so the string code of the
module (split, join, format, in) runs as it is; what looks at single characters is unsupported.
Sequences.  A list is a sequence of segments: concrete items and images of an arbitrary sequence
of codes under a function that works code by code (expand, sizes, ..).
Loops over an arbitrary sequence are cut by an invariant: it is checked for the empty prefix and,
for an arbitrary prefix and an arbitrary next code, after one execution of the loop body."""
import ast
import functools
import types
import ubelt
from pyver import sym, load
from pyver.load import Env, _M
from pyver.sym import AND, EQ, NOT, SymNum, SymBool, Control, PathEnd, Unsupported, eng
from pyver.treec import classify

ALIAS = {'rgb': ['r', 'g', 'b'], 'rgba': ['r', 'g', 'b', 'a'], 'dxdy': ['dx', 'dy'], 'fxfy': ['fx', 'fy']}
W = [None]
PU = 0xF0000
SEPS = set('.:|,')
A_STR = ('names and stream texts are arbitrary texts without the separators . : | , (names: and not an alias); canonical decimal numerals; '
         'equal texts of streams are equal lists of codes')
A_LOOP = 'loop rule: one arbitrary iteration from an arbitrary state that satisfies the invariant (pyver.specc); termination is assumed'
A_MEMO = 'memo tables (FusedChannelSpec._memo, lru_cache, ub.memoize_*) hold what the memoized function returns'


# ------------------------------------------------------------------ strings

class Atom:
    def __init__(self, kind, label, val=None):
        self.kind, self.label, self.val = kind, label, val


def atoms_in(s):
    return any(ord(c) >= PU for c in s)


def tokens(s):
    """literal texts and atoms of a string"""
    out, cur = [], ''
    for c in s:
        if ord(c) >= PU:
            if cur:
                out.append(cur)
            cur = ''
            out.append(W[0].atoms[c])
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def v_int(s, *a):
    if not atoms_in(s):
        return int(s, *a)
    t = tokens(s)
    if len(t) == 1 and t[0].kind == 'num' and not a:
        return t[0].val
    if all(not isinstance(x, str) and x.kind == 'name' for x in t):
        raise ValueError('invalid literal for int(): a name')
    raise Unsupported('int of the text %s' % show(s))


def fmt(x, spec):
    if spec:
        raise Unsupported('format spec')
    return W[0].numeral(x)


def show(s):
    if W[0] is None or type(s) is not str:
        return repr(s)
    return ''.join(W[0].atoms[c].label if ord(c) >= PU else c for c in s)


def str_eq(a, b):
    """equality of two texts"""
    w = W[0]
    a, b = w.canon(a), w.canon(b)
    if a == b:
        return True
    if not atoms_in(a) and not atoms_in(b) or not a or not b:
        return False            # no atom stands for the empty text
    if len(a) == len(b) == 1 and all(ord(x) >= PU and w.atoms[x].kind == 'text' for x in (a, b)):
        return False            # texts of streams are canonical
    p, q = pieces(a), pieces(b)
    if p is None or q is None:
        raise Unsupported('comparison of %s and %s' % (show(a), show(b)))
    if [x for x in p if x in SEPS] != [x for x in q if x in SEPS] or len(p) != len(q):
        return False
    out = []
    for x, y in zip(p, q):
        if x == y:
            continue
        if x in SEPS or y in SEPS:
            return False
        nx, ny = w.number(x), w.number(y)
        if (nx is None) != (ny is None):
            return False        # names are no numerals
        if nx is not None:
            out.append(EQ(nx, ny))
        else:
            if not w.same_name(x, y):
                return False
    return AND(*out) if out else True


def pieces(s):
    """the separators and the texts between them; None if a stream text is inside"""
    out, cur = [], ''
    for c in s:
        if c in SEPS:
            if cur:
                out.append(cur)
            out.append(c)
            cur = ''
        else:
            if ord(c) >= PU and W[0].atoms[c].kind == 'text':
                if len(s) > 1:
                    return None
            cur += c
    if cur:
        out.append(cur)
    return out


# ------------------------------------------------------------------ sequences

class Base:
    """an arbitrary sequence of codes"""
    def __init__(self, name, norm=False):
        self.name, self.norm, self.rep = name, norm, None
        self._n = self._t = None

    @property
    def n(self):
        if self._n is None:
            self._n = eng().nat('len_' + self.name)
        return self._n

    @property
    def total(self):
        """number of channels"""
        if self.norm:
            return self.n
        if self._t is None:
            self._t = eng().nat('total_' + self.name)
        return self._t

    def __repr__(self):
        return self.name


def code_parts(v):
    """(kind, root, first, stop) of a code"""
    p = pieces(v)
    w = W[0]
    if p is None or not p:
        raise Unsupported('code %s' % show(v))
    if len(p) == 1:
        return ('alias' if v in ALIAS else 'name'), v, None, None
    if len(p) == 3 and p[1] == '.' and w.number(p[2]) is not None:
        i = w.number(p[2])
        return 'index', p[0], i, i + 1
    if len(p) == 3 and p[1] == ':' and w.number(p[2]) is not None:
        return 'range', p[0], 0, w.number(p[2])
    if len(p) == 5 and p[1] == '.' and p[3] == ':' and w.number(p[2]) is not None and w.number(p[4]) is not None:
        return 'range', p[0], w.number(p[2]), w.number(p[4])
    raise Unsupported('code %s' % show(v))


def code_segs(v):
    """segments of the channels of a code (the specification of expansion)"""
    kind, root, a, b = code_parts(v)
    if kind == 'alias':
        return [('I', x) for x in ALIAS[v]]
    if kind == 'name':
        return [('I', v)]
    return [('R', root, a, b)]


def code_size(v):
    kind, root, a, b = code_parts(v)
    if kind == 'alias':
        return len(ALIAS[v])
    if kind in ('name', 'index'):
        return 1
    return sym.smax(b - a, 0)


def hom(h, segs):
    """image of a sequence of codes under a function that works code by code"""
    if h == 'id':
        return list(segs)
    out = []
    for s in segs:
        if s[0] == 'I':
            v = s[1]
            if type(v) is not str:
                raise Unsupported('%s of %r' % (h, v))
            out += code_segs(v) if h == 'expand' else [('I', code_size(v))]
        elif s[0] == 'H' and s[1] in ('id', 'concise') and h == 'expand':
            out.append(('H', 'expand', s[2]))
        elif s[0] == 'H' and s[1] == 'pre' and h == 'expand':
            out.append(('H', 'id', s[2]))
        elif s[0] == 'H' and s[1] == 'id':
            out.append(('H', h, s[2]))
        elif s[0] in ('R', 'F', 'sel') or s[0] == 'H' and s[1] == 'expand':
            if h == 'expand':
                out.append(s)
            elif s[0] != 'sel':
                out.append(('rep', 1, seg_len(s)))
            else:
                raise Unsupported(h)
        else:
            raise Unsupported('%s of a segment %s' % (h, s[:2]))
    return out


def seg_len(s):
    if s[0] == 'I':
        return 1
    if s[0] == 'H':
        w = W[0]
        b = w.find(s[2])
        if s[1] in ('id', 'sizes') or s[1] == 'expand' and b.norm or s[1] in ONE:
            return s[2].n
        if s[1] == 'expand':
            return b.total
        return setmemo(('len', (s[1], s[2].name)))
    if s[0] == 'R':
        return sym.smax(s[3] - s[2], 0)
    if s[0] == 'rep':
        return s[2]
    if s[0] in ('A', 'Q', 'G'):
        return setmemo(('pieces', (s[0], s[1].name)))
    if s[0] == 'mid':
        return s[4]
    if s[0] == 'F':
        n = norm([s])
        if len(n) != 1 or n[0][0] != 'F':
            return sum_of(seg_len(x) for x in n)
        k = ('len', (repr((norm(s[1]), s[2])),))
        return setmemo(k)
    raise Unsupported('length')


ONE = {'piece'}      # one element per code


def setmemo(k):
    if k not in eng().memo:
        eng().memo[k] = eng().nat('len')
    return eng().memo[k]


def norm(segs):
    """normal form: numbered channels as maximal ranges, expansions of normal sequences resolved"""
    w = W[0]
    out = []
    todo = list(segs)
    while todo:
        s = todo.pop(0)
        if s[0] == 'H':
            b = s[2]
            if s[1] in ('expand', 'id') and b in w.rw:
                if s[1] == 'expand' or b.norm:
                    todo = list(w.rw[b]) + todo
                    continue
            if s[1] == 'expand':
                b = w.find(b)
                s = ('H', 'id' if b.norm else 'expand', b)
            elif s[1] == 'concise':
                s = ('H', 'concise', w.find(b))
            elif s[1] == 'sizes' and b.norm:
                s = ('rep', 1, b.n)
        elif s[0] == 'I' and type(s[1]) is str:
            v = w.canon(s[1])
            if '.' in v and ':' not in v:
                _, root, a, z = code_parts(v)
                s = ('R', root, a, z)
            else:
                s = ('I', v)
        elif s[0] == 'I' and type(s[1]) is int or s[0] == 'I' and isinstance(s[1], SymNum):
            s = ('I', s[1])
        if s[0] == 'F' and len(s[2][0]) == 1:       # a sequence filtered by a set that contains it
            inner = norm(s[1])
            have = norm(w.setkeys[s[2][0][0]])
            if all(x in have for x in inner) and all(x[0] == 'H' for x in inner):
                todo = (inner if (True,) in s[2][1] else []) + todo
                continue
        if s[0] == 'R':
            s = ('R', w.canon(s[1]), s[2], s[3])
            if s[2] >= s[3]:
                continue
            if out and out[-1][0] == 'R' and out[-1][1] == s[1]:
                f = sym.form(EQ(out[-1][3], s[2]))
                if eng().entails(f):
                    out[-1] = ('R', s[1], out[-1][2], s[3])
                    continue
        if s[0] == 'rep':
            if eng().entails(sym.form(EQ(s[2], 0))):
                continue
            if out and out[-1][0] == 'rep' and out[-1][1] == s[1]:
                out[-1] = ('rep', s[1], out[-1][2] + s[2])
                continue
        out.append(s)
    return out


def same(a, b):
    """goal: two sequences are equal"""
    p, q = norm(a), norm(b)
    if len(p) != len(q):
        return False
    out = []
    for x, y in zip(p, q):
        if x[0] != y[0]:
            return False
        if x[0] == 'I':
            g = val_eq(x[1], y[1])
            if g is False:
                return False
            out.append(g)
        elif x[0] == 'R':
            if str_eq(x[1], y[1]) is not True:
                return False
            out += [EQ(x[2], y[2]), EQ(x[3], y[3])]
        elif x[0] == 'rep':
            if x[1] != y[1]:
                return False
            out.append(EQ(x[2], y[2]))
        elif x[0] == 'H':
            if x[1:] != y[1:]:
                return False
        elif x[0] == 'F':
            if x[2] != y[2]:
                return False
            g = same(x[1], y[1])
            if g is False:
                return False
            out.append(g)
        elif x[0] == 'sel':
            if x[2] is not y[2] and x[2] != y[2]:
                return False
            g = same(x[1], y[1])
            if g is False:
                return False
            out.append(g)
        else:
            return False
    out = [g for g in out if g is not True]
    return AND(*out) if out else True


def val_eq(x, y):
    if type(x) is str and type(y) is str:
        return str_eq(x, y)
    if isinstance(x, SymNum) or isinstance(y, SymNum):
        return EQ(x, y)
    if isinstance(x, Elem) and isinstance(y, Elem):
        if x.i is not y.i and x.i != y.i:
            return False
        return same(x.segs, y.segs)
    return bool(x == y)


def text(segs):
    return '[' + ', '.join(seg_text(s) for s in segs) + ']'


def seg_text(s):
    if s[0] == 'I':
        return show(s[1]) if type(s[1]) is str else repr(s[1])
    if s[0] == 'H':
        return '%s(%s)' % (s[1], s[2])
    if s[0] == 'R':
        return '%s.%r..%r' % (show(s[1]), s[2], s[3])
    return '%s' % (s,)


class Elem:
    """an element of a sequence at a position"""
    def __init__(self, segs, i):
        self.segs, self.i = segs, i

    def __getattr__(self, name):
        if name.startswith('_v_') or name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s of an element' % name)


class AbsList:
    """list"""
    __hash__ = None

    def __init__(self, segs=()):
        self.segs = list(segs)
        self.version = 0

    @classmethod
    def of(cls, items):
        return cls([('I', x) for x in items])

    @staticmethod
    def segs_of(x):
        if isinstance(x, AbsList):
            return list(x.segs)
        if isinstance(x, (Zip, DictView, AbsSet, SymRange)):
            raise Unsupported('list of %s' % type(x).__name__)
        if isinstance(x, OSet):
            return list(x.segs)
        return [('I', v) for v in x]

    # ---- type
    def _v_isinstance(self, c):
        return c in (list, object) or isinstance(self, c)

    def _v_list(self):
        return AbsList(self.segs)

    def _v_len(self):
        n = 0
        for s in self.segs:
            n = n + seg_len(s)
        return n

    @property
    def concrete(self):
        return all(s[0] == 'I' for s in self.segs)

    def items(self):
        if not self.concrete:
            raise Unsupported('iteration over an arbitrary sequence')
        return [s[1] for s in self.segs]

    # ---- reading
    def __len__(self):
        return len(self.items())

    def __iter__(self):
        return iter(self.items())

    def __bool__(self):
        return bool(self._v_len() > 0)

    def __getitem__(self, i):
        if type(i) is slice:
            if all(type(x) in (int, type(None)) for x in (i.start, i.stop, i.step)) and self.concrete:
                return AbsList(self.segs[i])
            if i == slice(None):
                return AbsList(self.segs)
            return AbsList([('sel', tuple(self.segs), ('slice', i.start, i.stop, i.step))])
        if type(i) is int:
            if self.concrete:
                return self.items()[i]
            if i == 0 and self.segs[0][0] == 'I' or i == -1 and self.segs[-1][0] == 'I':
                return self.segs[i][1]
            if i in (0, -1) and len(self.segs) == 1 and self.segs[0][0] == 'A':
                n = self._v_len()
                if n == 1:
                    return Data(self.segs[0][1])
                raise Unsupported('one of several arrays')
        if type(i) is int or isinstance(i, SymNum):
            n = self._v_len()
            if i >= n or i < -n:
                raise IndexError('list index out of range')
            return Elem(tuple(self.segs), i)
        raise TypeError('list indices must be integers or slices, not ' + type(i).__name__)

    def __eq__(self, o):
        if isinstance(o, AbsList) or isinstance(o, list):
            o = AbsList.segs_of(o)
            if self.concrete and all(s[0] == 'I' for s in o):
                p, q = self.items(), [s[1] for s in o]
                if len(p) != len(q):
                    return False
            g = same(self.segs, o)
            if g is False and not (self.concrete and all(s[0] == 'I' for s in o)):
                raise Unsupported('comparison of sequences')
            return g
        return False

    def __ne__(self, o):
        g = self == o
        return NOT(g) if isinstance(g, SymBool) else not g

    def index(self, x):
        raise Unsupported('index')

    def count(self, x):
        raise Unsupported('count')

    # ---- writing
    def touch(self):
        self.version += 1

    def append(self, x):
        self.touch()
        self.segs.append(('I', x))

    def extend(self, xs):
        self.touch()
        self.segs += AbsList.segs_of(xs)

    def insert(self, i, x):
        self.touch()
        if type(i) is int and i == 0:
            self.segs.insert(0, ('I', x))
        elif self.concrete:
            self.segs.insert(i, ('I', x))
        else:
            raise Unsupported('insert')

    def pop(self, i=-1):
        if not self.concrete:
            raise Unsupported('pop')
        self.touch()
        return self.segs.pop(i)[1]

    def clear(self):
        self.touch()
        self.segs.clear()

    def reverse(self):
        if not self.concrete:
            raise Unsupported('reverse')
        self.touch()
        self.segs.reverse()

    def sort(self, **k):
        raise Unsupported('sort')

    def __setitem__(self, i, v):
        if type(i) is int and (self.concrete or i == -1 and self.segs[-1][0] == 'I' or i == 0 and self.segs[0][0] == 'I'):
            self.touch()
            self.segs[i] = ('I', v)
        else:
            raise Unsupported('assignment to an element')

    def copy(self):
        return AbsList(self.segs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        return AbsList(self.segs + AbsList.segs_of(o))

    def __radd__(self, o):
        return AbsList(AbsList.segs_of(o) + self.segs)

    def __mul__(self, n):
        if type(n) is int:
            return AbsList(self.segs * n)
        if isinstance(n, SymNum) and len(self.segs) == 1 and self.segs[0][0] == 'I':
            return AbsList([('rep', self.segs[0][1], sym.smax(n, 0))])
        raise Unsupported('repetition')

    __rmul__ = __mul__

    def __repr__(self):
        return text(self.segs)


class Data:
    """an array: the data of the codes of a sequence, one after the other"""
    def __init__(self, base):
        self.base = base


class Arr:
    """an input array"""
    def __init__(self, key):
        self.key = key

    def __getitem__(self, index):
        return Part(self, index)


class Part:
    def __init__(self, arr, index):
        self.arr, self.index = arr, index


class AbsDict(dict):
    """dict with entries for every code of arbitrary sequences"""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.segs = []
        self.version = 0
        self.log = None

    def _v_len(self):
        return dict.__len__(self) + sum_of(s.base.n for s in self.segs)

    def plain(self, what):
        if self.segs:
            raise Unsupported('%s of a dict over an arbitrary sequence' % what)

    def __setitem__(self, k, v):
        self.version += 1
        if self.log is not None:
            self.log.append((k, v))
            return
        if type(k) is str and self.segs and atoms_in(k):
            raise Unsupported('writing a code')
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if self.log is not None:
            for a, b in reversed(self.log):
                if a == k:
                    return b
            raise Unsupported('reading a dict in an iteration that fills it')
        if self.segs and type(k) is str and not dict.__contains__(self, k):
            return W[0].lookup(self, k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.plain('get')
        return dict.get(self, k, d)

    def __contains__(self, k):
        self.plain('in')
        return dict.__contains__(self, k)

    def __iter__(self):
        self.plain('iteration')
        return dict.__iter__(self)

    def keys(self):
        return DictView(self, 'keys') if self.segs else dict.keys(self)

    def values(self):
        return DictView(self, 'values') if self.segs else dict.values(self)

    def items(self):
        return DictView(self, 'items') if self.segs else dict.items(self)

    def setdefault(self, k, d=None):
        raise Unsupported('setdefault')

    def update(self, *a, **k):
        raise Unsupported('update')

    def pop(self, *a):
        raise Unsupported('pop')

    def __delitem__(self, k):
        raise Unsupported('del')


class Filled:
    """entries of a dict: every code of base has the value value(code)"""
    def __init__(self, base, value, what):
        self.base, self.value, self.what = base, value, what


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what

    def __iter__(self):
        raise Unsupported('iteration over an arbitrary dict')


class Zip:
    def __init__(self, lists):
        self.lists = lists

    def __iter__(self):
        raise Unsupported('iteration over an arbitrary zip')


class SymRange:
    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def _v_len(self):
        return sym.smax(self.stop - self.start, 0)

    def __iter__(self):
        raise Unsupported('iteration over a range')


def sum_of(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


# ------------------------------------------------------------------ sets

class AbsSet:
    """set of the elements of a list"""
    def __init__(self, segs):
        self.segs = list(segs)

    def _v_isinstance(self, c):
        return c in (set, object) or isinstance(self, c)

    def key(self):
        return W[0].setkey(self.segs)

    def contains(self, x):
        return W[0].member(x, self)

    def __contains__(self, x):
        raise Unsupported('in')

    def __iter__(self):
        raise Unsupported('iteration over a set')

    def __getattr__(self, name):
        if name.startswith('_v_') or name.startswith('__') or name in ('normalize', 'parsed', 'spec', 'fuse'):
            raise AttributeError(name)
        raise Unsupported('set.%s' % name)


def filtered(segs, key, keep):
    return [('F', tuple(segs), ((key,), frozenset([(keep,)])))]


class OSet:
    """ub.oset of a sequence without repetitions"""
    __hash__ = None

    def __init__(self, items=()):
        self.segs = AbsList.segs_of(items if isinstance(items, (AbsList, OSet)) else list(items))

    def _v_isinstance(self, c):
        return c in (ubelt.oset, object) or isinstance(self, c)

    def _v_list(self):
        return AbsList(self.segs)

    def contains(self, x):
        return W[0].member(x, self)

    def key(self):
        return W[0].setkey(self.segs)

    def _v_len(self):
        return AbsList(self.segs)._v_len()

    @staticmethod
    def coerce(o):
        if isinstance(o, (OSet, AbsSet)):
            return o
        if isinstance(o, AbsList):
            return OSet(o)
        raise Unsupported('set operation with %s' % type(o).__name__)

    def filter(self, o, keep):
        r = OSet()
        r.segs = filtered(self.segs, OSet.coerce(o).key(), keep)
        return r

    def __sub__(self, o):
        return self.filter(o, False)

    difference = __sub__

    def __and__(self, o):
        return self.filter(o, True)

    intersection = __and__

    def __or__(self, o):
        o = OSet.coerce(o)
        if isinstance(o, AbsSet):
            raise Unsupported('order of a set')
        r = OSet()
        r.segs = self.segs + filtered(o.segs, self.key(), False)
        return r

    union = __or__

    def issubset(self, o):
        return Incl(self.key(), OSet.coerce(o).key())

    __le__ = issubset

    def issuperset(self, o):
        return Incl(OSet.coerce(o).key(), self.key())

    __ge__ = issuperset

    def __getattr__(self, name):
        if name.startswith('_v_') or name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('oset.%s' % name)


class Incl:
    """the truth value of an inclusion of sets"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __bool__(self):
        raise Unsupported('branch on an inclusion')


# ------------------------------------------------------------------ instrumentation

class Unbound:
    """a variable that the loop invariant does not describe"""
    def bad(self, *a, **k):
        raise Unsupported('a variable that the loop invariant does not describe')

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __getitem__ = __iter__ = __call__ = __format__ = __str__ = __len__ = __contains__ = bad
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('_v_') or name.startswith('__'):
            raise AttributeError(name)
        self.bad()


UNBOUND = Unbound()
MUT = {'append', 'extend', 'insert', 'pop', 'clear', 'update', 'setdefault', 'remove', 'add', 'sort', 'reverse', 'discard'}


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def lam(body, args=()):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.n = 0

    def visit_FunctionDef(self, n):
        loc = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        skip = set()

        def walk(x):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    loc.add(c.id)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    skip.update(c.names)
                walk(c)
        walk(n)
        self.fn.append((n.name, loc - skip))
        n.body = [y for x in n.body for y in self.stmts(self.visit(x))]
        self.fn.pop()
        return n

    def stmts(self, x):
        return x if isinstance(x, list) else [x]

    def visit_ClassDef(self, n):
        fn, self.fn = self.fn, []
        n.body = [y for x in n.body for y in self.stmts(self.visit(x))]
        self.fn = fn
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def display(self, n):
        self.generic_visit(n)
        if not self.fn or isinstance(getattr(n, 'ctx', ast.Load()), ast.Store):
            return n
        return ast.copy_location(call('__v_display__', n), n)

    visit_List = visit_Dict = visit_Set = display

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.fn and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            return ast.copy_location(call('__v_cmp__', ast.Constant(type(n.ops[0]).__name__), n.left, n.comparators[0]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
            n.func = ast.copy_location(call('__v_meth__', n.func.value, ast.Constant(n.func.attr)), n.func)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.ctx, ast.Load):
            i = n.slice
            if isinstance(i, ast.Slice):
                i = call('slice', *[x if x is not None else ast.Constant(None) for x in (i.lower, i.upper, i.step)])
            return ast.copy_location(call('__v_item__', n.value, i), n)
        return n

    def comp(self, n):
        if not self.fn or len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        self.generic_visit(n)
        elt = ast.Tuple([n.key, n.value], ast.Load()) if isinstance(n, ast.DictComp) else n.elt
        cond = ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True)
        # [elt, cond] for one element of the iterable: the comprehension over that element
        one = lam(ast.ListComp(elt, [ast.comprehension(g.target, ast.List([ast.Name('__v_x', ast.Load())], ast.Load()), [], 0)]), ['__v_x'])
        test = lam(ast.ListComp(cond, [ast.comprehension(g.target, ast.List([ast.Name('__v_x', ast.Load())], ast.Load()), [], 0)]), ['__v_x'])
        return ast.copy_location(call('__v_comp__', ast.Constant(type(n).__name__), ast.Constant(self.fn[-1][0]), g.iter, one, test), n)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_For(self, n):
        if not self.fn:
            return n
        name, loc = self.fn[-1]
        used, stored, mut, target = set(), set(), set(), set()
        for c in ast.walk(n.target):
            if isinstance(c, ast.Name):
                target.add(c.id)
        for s in n.body:
            for c in ast.walk(s):
                if isinstance(c, ast.Name):
                    used.add(c.id)
                    if isinstance(c.ctx, (ast.Store, ast.Del)):
                        stored.add(c.id)
                if isinstance(c, ast.Attribute) and c.attr in MUT and isinstance(c.value, ast.Name):
                    mut.add(c.value.id)
                if isinstance(c, ast.Subscript) and isinstance(c.ctx, ast.Store) and isinstance(c.value, ast.Name):
                    mut.add(c.value.id)
                if isinstance(c, ast.AugAssign) and isinstance(c.target, ast.Name):
                    mut.add(c.target.id)
        used, stored, mut = used & loc, (stored & loc) - target, mut & loc
        self.generic_visit(n)
        self.n += 1
        L = '__v_L%d' % self.n
        get = ast.Dict([ast.Constant(x) for x in sorted(used)], [lam(ast.Name(x, ast.Load())) for x in sorted(used)])
        mk = ast.Assign([ast.Name(L, ast.Store())], call(
            '__v_for__', n.iter, ast.Constant(name), get, ast.Constant(tuple(sorted(stored))), ast.Constant(tuple(sorted(mut))), ast.Constant(tuple(sorted(target)))))

        def assign(meth, names):
            names = sorted(names)
            if not names:
                return [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()), [], []))]
            return [ast.Assign([ast.List([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                               ast.Call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()), [], []))]
        n.iter = ast.Name(L, ast.Load())
        n.body = assign('enter', stored) + n.body
        n.orelse = assign('leave', stored | target) + n.orelse
        return [ast.copy_location(mk, n), n]


# ------------------------------------------------------------------ loops

class Loop:
    def __init__(self, w, it, fn, get, stored, mut, target):
        self.w, self.it, self.fn, self.get = w, it, fn, get
        self.stored, self.mut, self.target = stored, mut, target
        self.queue = None
        self.active = None
        self.pending = None
        self.iterator = None
        if isinstance(it, AbsList) and not it.concrete:
            self.queue = list(it.segs)
        elif isinstance(it, (Zip, SymRange)):
            self.queue = [('Z', it)]
        elif isinstance(it, DictView):
            self.queue = [('I', x) for x in dict.items(it.d)] + [('Y', it.what, s) for s in it.d.segs]
            if it.what != 'items':
                raise Unsupported('iteration over %s' % it.what)
        elif isinstance(it, (AbsSet, OSet)):
            raise Unsupported('iteration over a set')
        else:
            if not hasattr(type(it), '__iter__') and hasattr(type(it), '_is_spec'):
                raise Unsupported('iteration over a spec')
            self.iterator = iter(it)

    def vals(self):
        out = {}
        for k, f in self.get.items():
            try:
                out[k] = f()
            except NameError:
                out[k] = UNBOUND
        return out

    def __iter__(self):
        return self

    def __next__(self):
        if self.iterator is not None:
            return next(self.iterator)
        if self.active is not None:
            self.active.step(self.vals())
            for k, (v, ver) in self.frozen.items():
                if v.version != ver:
                    raise Unsupported('the loop changes %s' % k)
            eng().cover('an iteration')
            raise PathEnd
        while self.queue:
            s = self.queue.pop(0)
            if s[0] == 'I':
                return s[1]
            if self.pending is not None:
                raise Unsupported('several arbitrary parts')
            cut = self.w.cut(self, s)
            eng().used.add(A_LOOP)
            v = self.vals()
            cut.begin(v)
            if eng().choose(['iteration', 'end'], 'loop in ' + self.fn) == 'iteration':
                self.active = cut
                if hasattr(cut, 'state') and isinstance(cut, MergeCut):
                    cut.out = cut.state()
                x = cut.element()
                self.pending = cut.havoc(v)
                self.frozen = {k: (c, c.version) for k, c in v.items() if isinstance(c, (AbsList, AbsDict)) and k not in self.mut}
                return x
            self.pending = cut.finish(v)
        raise StopIteration

    def enter(self):
        return self.take(self.stored)

    def leave(self):
        return self.take(tuple(sorted(set(self.stored) | set(self.target))))

    def take(self, names):
        if self.pending is not None:
            p, self.pending = self.pending, None
            self.w.done_loop = True
            return [p.get(k, UNBOUND) for k in names]
        v = self.vals()
        out = []
        for k in names:
            if k in v:
                out.append(v[k])
            else:
                out.append(UNBOUND)
        return out


class HomCut:
    """lists hold h(done), numbers the number of channels of done, flags tell whether done is expanded,
    dicts have the specified entry for every code of done"""
    def __init__(self, loop, seg, h=None, value=None):
        self.loop, self.h, self.value = loop, h, value
        self.w = loop.w
        self.zip = None
        if seg[0] == 'Z' and isinstance(seg[1], Zip):
            segs = []
            for x in seg[1].lists:
                if isinstance(x, AbsList) and len(x.segs) == 1 and x.segs[0][0] in ('H', 'rep'):
                    segs.append(x.segs[0])
                else:
                    raise Unsupported('zip')
            bases = [s[2] for s in segs if s[0] == 'H']
            if not bases or any(b is not bases[0] for b in bases):
                raise Unsupported('zip of different sequences')
            self.B = bases[0]
            for s in segs:
                if s[0] == 'H' and s[1] not in ('id', 'sizes') or s[0] == 'rep' and not (s[1] == 1 and eng().entails(sym.form(EQ(s[2], self.B.n)))):
                    raise Unsupported('zip')
            self.zip = [s[1] if s[0] == 'H' else 'sizes' for s in segs]
        elif seg[0] == 'H' and seg[1] == 'id':
            self.B = seg[2]
        else:
            raise Unsupported('loop over %s' % (seg[:2],))
        self.P = self.w.base('done', norm=self.B.norm)

    def name(self, what):
        return self.w.tag + 'loop of %s: %s' % (self.loop.fn, what)

    def begin(self, v):
        self.entry = {}
        for k in set(self.loop.stored) | set(self.loop.mut):
            x = v.get(k, UNBOUND)
            if isinstance(x, AbsList):
                self.entry[k] = ('list', x, list(x.segs))
            elif isinstance(x, AbsDict):
                self.entry[k] = ('dict', x, None)
            elif type(x) is bool:
                self.entry[k] = ('flag', x, None)
            elif type(x) is int or isinstance(x, SymNum):
                self.entry[k] = ('int', x, None)
        if any(t == 'list' for t, _, _ in self.entry.values()) and not self.h:
            raise Unsupported('a list grown in this loop')
        if any(t == 'dict' for t, _, _ in self.entry.values()) and not self.value:
            raise Unsupported('a dict grown in this loop')

    def element(self):
        e = eng()
        self.x = self.w.element(self.B)
        self.w.place[self.x] = (self.B, self.P.total)
        if self.zip:
            return tuple(self.x if z == 'id' else code_size(self.x) for z in self.zip)
        return self.x

    def havoc(self, v):
        out = {}
        for k, (t, x, c) in self.entry.items():
            if t == 'list':
                x.segs[:] = c + [('H', self.h, self.P)]
                x.touch()
                out[k] = x
            elif t == 'dict':
                x.log = []
                out[k] = x
            elif t == 'flag':
                out[k] = eng().choose([x, not x], 'flag ' + k)
                if out[k] == x and not x == None:       # noqa
                    self.P.norm = True
            elif t == 'int':
                out[k] = x + self.P.total
        return out

    def step(self, v):
        e = eng()
        done = [('H', 'id', self.P), ('I', self.x)]
        for k, (t, x, c) in self.entry.items():
            y = v.get(k, UNBOUND)
            if t == 'list':
                if y is not x:
                    raise Unsupported('the list %s is replaced' % k)
                want = c + hom(self.h, done)
                self.w.check(self.name('what is gathered so far is the %s of the codes seen so far' % self.h), same(y.segs, want),
                             note='%s for %s' % (text(y.segs), text(want)))
            elif t == 'flag':
                if type(y) is not bool:
                    raise Unsupported('flag ' + k)
                if y == x:
                    self.w.check(self.name('the flag tells when nothing had to be expanded'), same(hom('expand', done), done))
            elif t == 'int':
                self.w.check(self.name('the running number is the number of channels so far'), EQ(y, x + self.P.total + code_size(self.x)))
            elif t == 'dict':
                if len(x.log) != 1:
                    self.w.check(self.name('one entry per code'), False, note='%d entries' % len(x.log))
                    continue
                (key, val), = x.log
                self.w.check(self.name('the entry is for the code'), str_eq(key, self.x) if type(key) is str else False)
                self.w.check(self.name('the entry of a code is what is specified'), self.value.matches(val, self.x))

    def finish(self, v):
        out = {}
        for k, (t, x, c) in self.entry.items():
            if t == 'list':
                x.segs[:] = c + [('H', self.h, self.B)]
                x.touch()
                out[k] = x
            elif t == 'dict':
                x.version += 1
                x.segs.append(Filled(self.B, self.value.make, self.value))
                out[k] = x
            elif t == 'flag':
                out[k] = eng().choose([x, not x], 'flag ' + k)
                if out[k] == x:
                    self.B.norm = True
            elif t == 'int':
                out[k] = x + self.B.total
        return out


class RangeCut:
    """for i in range(a, b): lists grow by the numbered channels of the code at hand"""
    def __init__(self, loop, seg):
        self.loop, self.r, self.w = loop, seg[1], loop.w

    def begin(self, v):
        if self.w.code is None:
            raise Unsupported('loop over a range')
        kind, self.root, _, _ = code_parts(self.w.code)
        self.entry = {}
        for k in set(self.loop.stored) | set(self.loop.mut):
            x = v.get(k, UNBOUND)
            if isinstance(x, AbsList):
                self.entry[k] = (x, list(x.segs))
            elif x is not UNBOUND and k in self.loop.mut:
                raise Unsupported('state of a loop over a range')

    def element(self):
        e = eng()
        i = e.fresh('i', True)
        e.require(AND(i >= self.r.start, i < self.r.stop))
        self.i = i
        return i

    def put(self, stop):
        out = {}
        for k, (x, c) in self.entry.items():
            x.segs[:] = c + [('R', self.root, self.r.start, stop)]
            x.touch()
            out[k] = x
        return out

    def havoc(self, v):
        return self.put(self.i)

    def step(self, v):
        for k, (x, c) in self.entry.items():
            if v.get(k) is not x:
                raise Unsupported('the list %s is replaced' % k)
            self.w.check(self.w.tag + 'loop of %s: one channel per number of the range' % self.loop.fn,
                         same(x.segs, c + [('R', self.root, self.r.start, self.i + 1)]), note=text(x.segs))

    def finish(self, v):
        return self.put(sym.smax(self.r.start, self.r.stop))


class CopyCut:
    """for key, value in entries: other[key] = value"""
    def __init__(self, loop, seg):
        self.loop, self.fill, self.w = loop, seg[2], loop.w

    def begin(self, v):
        self.dicts = [v[k] for k in self.loop.mut if isinstance(v.get(k), AbsDict)]
        if len(self.dicts) != 1:
            raise Unsupported('loop over entries')

    def element(self):
        B = self.fill.base
        self.x = self.w.element(B)
        self.w.place[self.x] = (B, eng().nat('pos'))
        self.val = self.fill.value(self.x)
        return self.x, self.val

    def havoc(self, v):
        self.dicts[0].log = []
        return {}

    def step(self, v):
        log = self.dicts[0].log
        self.w.check(self.w.tag + 'loop of %s: every entry is copied' % self.loop.fn,
                     len(log) == 1 and log[0][0] is self.x and log[0][1] is self.val)

    def finish(self, v):
        self.dicts[0].version += 1
        self.dicts[0].segs.append(self.fill)
        return {}


class ConciseCut:
    """the shortened codes so far expand to the channels seen so far without those of the open range"""
    NAMES = ('new_parts', 'accum_root', 'accum_start', 'accum_stop', 'ready')

    def __init__(self, loop, seg):
        self.loop, self.w = loop, loop.w
        if seg[0] != 'H' or seg[1] not in ('expand', 'id'):
            raise Unsupported('loop over %s' % (seg[:2],))
        self.seg = seg
        b = seg[2]
        self.B = b
        if not b.norm and seg[1] == 'id':
            raise Unsupported('loop over codes that are not expanded')
        self.X = self.w.base('before', norm=True)

    def begin(self, v):
        if any(k not in v for k in self.NAMES):
            raise Unsupported('the variables of the loop are not the described ones')
        self.check(v, [], 'at the start')
        self.parts = v['new_parts']
        if not isinstance(self.parts, AbsList):
            raise Unsupported('new_parts')
        extra = [k for k in self.loop.mut if k not in self.NAMES and isinstance(v.get(k), (AbsList, AbsDict))]
        if extra:
            raise Unsupported('more state in the loop: %s' % extra)

    def element(self):
        kind = eng().choose(['name', 'index'], 'channel')
        self.x = self.w.code_of(kind)
        return self.x

    def open(self):
        """an arbitrary open range"""
        e = eng()
        if e.choose([False, True], 'a range is open'):
            root = self.w.name('root')
            a = e.nat('start')
            b = e.fresh('stop', True)
            e.require(b > a)
            return root, a, b
        return None, None, None

    def state(self):
        r, a, b = self.open()
        self.parts.segs[:] = [('H', 'pre', self.X)]
        self.parts.touch()
        self.seen = [('H', 'id', self.X)] + ([('R', r, a, b)] if r is not None else [])
        return {'new_parts': self.parts, 'accum_root': r, 'accum_start': a if r is not None else UNBOUND,
                'accum_stop': b if r is not None else UNBOUND, 'ready': None}

    def havoc(self, v):
        return self.state()

    def check(self, v, seen, when):
        t = self.w.tag + 'loop of concise: '
        self.w.check(t + 'no code is left behind ' + when, v['ready'] is None)
        root = v['accum_root']
        pend = []
        if root is not None:
            if type(root) is not str:
                raise Unsupported('accum_root')
            a, b = v['accum_start'], v['accum_stop']
            pend = [('R', root, a, b)]
            self.w.check(t + 'the open range is not empty ' + when, AND(a >= 0, b > a))
        if not isinstance(v['new_parts'], AbsList):
            raise Unsupported('new_parts')
        got = hom('expand', v['new_parts'].segs) + pend
        self.w.check(t + 'the codes so far and the open range expand to the channels seen ' + when, same(got, seen),
                     note='%s for %s' % (text(got), text(seen)))

    def step(self, v):
        self.check(v, self.seen + [('I', self.x)], 'after an iteration')

    def finish(self, v):
        out = self.state()
        # all channels are seen
        b = self.w.find(self.B)
        self.w.rw[b] = self.seen
        return out


# ------------------------------------------------------------------ packed data

def along(axis, a, b):
    return tuple([slice(None)] * axis + [slice(a, b)])


def index_eq(v, axis, a, b):
    """goal: v selects a..b on the axis"""
    if isinstance(v, AbsList):
        return False
    if type(v) is not tuple or len(v) != axis + 1 or any(type(x) is not slice for x in v) or any(x != slice(None) for x in v[:-1]):
        return False
    s = v[-1]
    if s.step is not None or s.start is None or s.stop is None:
        return False
    return AND(EQ(s.start, a), EQ(s.stop, b))


class Where:
    """specified place of the data of a code: after the codes before it"""
    def __init__(self, w, axis, key=None, arr=None):
        self.w, self.axis, self.key, self.arr = w, axis, key, arr

    def bounds(self, x):
        a = self.w.place[x][1]
        return a, a + code_size(x)

    def make(self, x):
        i = along(self.axis, *self.bounds(x))
        if self.arr is not None:
            return Part(self.arr, i)
        return i if self.key is None else (self.key, i)

    def matches(self, v, x):
        if self.arr is not None:
            return isinstance(v, Part) and v.arr is self.arr and index_eq(v.index, self.axis, *self.bounds(x))
        if self.key is not None:
            if type(v) is not tuple or len(v) != 2 or v[0] != self.key:
                return False
            v = v[1]
        return index_eq(v, self.axis, *self.bounds(x))


def data(w, segs):
    """data of pieces (key, index): maximal blocks (key, start, stop) and the data of arbitrary sequences"""
    out = []
    todo = list(segs)
    while todo:
        s = todo.pop(0)
        if s[0] == 'I' and isinstance(s[1], AbsList):
            todo = list(s[1].segs) + todo
            continue
        if s[0] == 'I':
            v = s[1]
            if type(v) is not tuple or len(v) != 2 or type(v[1]) is not tuple or type(v[1][-1]) is not slice:
                raise Unsupported('piece %r' % (v,))
            if any(x != slice(None) for x in v[1][:-1]) or v[1][-1].step is not None or v[1][-1].start is None or v[1][-1].stop is None or len(v[1]) != w.axis + 1:
                raise Unsupported('index of a piece')
            d = ('D', v[0], v[1][-1].start, v[1][-1].stop)
        elif s[0] == 'mid':
            d = ('D', s[1], s[2], s[3])
        elif s[0] == 'D':
            d = s
        elif s[0] in ('G', 'Q', 'X') or s[0] == 'H' and s[1] == 'piece':
            b = s[2] if s[0] == 'H' else s[1]
            if b in w.datarw:
                todo = list(w.datarw[b]) + todo
                continue
            d = ('X', b)
        else:
            raise Unsupported('data of %s' % (s[:2],))
        if d[0] == 'D':
            if d[2] >= d[3]:
                if d[2] > d[3]:
                    raise Unsupported('a block of negative length')
                continue
            if out and out[-1][0] == 'D' and out[-1][1] == d[1] and eng().entails(sym.form(EQ(out[-1][3], d[2]))):
                out[-1] = ('D', d[1], out[-1][2], d[3])
                continue
        out.append(d)
    return out


def same_data(w, a, b):
    p, q = data(w, a), data(w, b)
    if len(p) != len(q):
        return False
    out = []
    for x, y in zip(p, q):
        if x[0] != y[0] or x[1] != y[1]:
            return False
        if x[0] == 'D':
            out += [EQ(x[2], y[2]), EQ(x[3], y[3])]
    return AND(*out) if out else True


def group(w, key):
    """an arbitrary non-empty list of consecutive pieces of one array"""
    e = eng()
    a = e.nat('first')
    b = e.fresh('first_stop', True)
    e.require(b > a)
    one = (key, along(w.axis, a, b))
    if e.choose([True, False], 'one piece'):
        return AbsList.of([one]), a, b
    c, d = e.fresh('last', True), e.fresh('last_stop', True)
    e.require(AND(c >= b, d > c))
    return AbsList([('I', one), ('mid', key, b, c, e.nat('pieces')), ('I', (key, along(w.axis, c, d)))]), a, d


class MergeCut:
    """accepted and accum together hold the data of the codes seen so far; accum is empty at the start only and a run
    of consecutive pieces of one array; prev_key and prev_sl are those of its first piece"""
    NAMES = ('prev_key', 'prev_sl', 'accepted', 'accum')

    def __init__(self, loop, seg):
        self.loop, self.w, self.S = loop, loop.w, seg[2]
        self.X = self.w.base('accepted')

    def begin(self, v):
        if any(k not in v for k in self.NAMES):
            raise Unsupported('the variables of the loop are not the described ones')
        self.entry = v['accepted']
        if not isinstance(self.entry, AbsList) or not isinstance(v['accum'], AbsList):
            raise Unsupported('accepted')
        if any(k not in self.NAMES and isinstance(v.get(k), (AbsList, AbsDict)) for k in self.loop.mut):
            raise Unsupported('more state in the loop')
        self.check(v, [], 'at the start')

    def element(self):
        e, w = eng(), self.w
        key = e.choose(w.item_keys, 'packed in')
        t, n = e.nat('pos'), e.nat('size', 1)
        self.new = (key, along(w.axis, t, t + n))
        if self.lo is not None and self.key == key:
            # no code is repeated
            e.require(sym.OR(t >= self.hi, t + n <= self.lo))
        return self.new

    def state(self):
        e, w = eng(), self.w
        self.entry.segs[:] = [('G', self.X)]
        self.entry.touch()
        out = {'accepted': self.entry, 'prev_key': None, 'prev_sl': None}
        self.lo = None
        if e.choose([False, True], 'a run is open'):
            self.key = e.choose(w.item_keys, 'run in')
            acc, self.lo, self.hi = group(w, self.key)
            out['prev_key'] = self.key
            out['prev_sl'] = acc.segs[0][1][1][-1]
        else:
            acc = AbsList()
            self.entry.segs[:] = []
        out['accum'] = acc
        self.seen = list(self.entry.segs) + list(acc.segs)
        return out

    def havoc(self, v):
        return self.out

    def run(self, name, acc):
        w = self.w
        d = data(w, acc.segs)
        f, l = acc.segs[0], acc.segs[-1]
        ok = len(d) == 1 and d[0][0] == 'D' and f[0] == 'I' and l[0] == 'I' and f[1][0] == d[0][1]
        w.check(name, ok and AND(EQ(d[0][2], f[1][1][-1].start), EQ(d[0][3], l[1][1][-1].stop)))

    def check(self, v, seen, when):
        w = self.w
        t = w.tag + 'merging pieces: '
        acc, accepted = v['accum'], v['accepted']
        if accepted is not self.entry or not isinstance(acc, AbsList):
            raise Unsupported('accepted')
        if not acc.segs:
            w.check(t + 'an empty run has no previous piece ' + when, v['prev_sl'] is None and not accepted.segs)
        else:
            self.run(t + 'the open run is consecutive ' + when, acc)
            f = acc.segs[0][1]
            p = v['prev_sl']
            same = type(p) is slice and v['prev_key'] == f[0] and AND(EQ(p.start, f[1][-1].start), EQ(p.stop, f[1][-1].stop))
            if same is False or same is not True and not eng().entails(same.f):
                raise Unsupported('the previous piece is not the first of the run')
        for s in accepted.segs:
            if s[0] == 'I':
                if not isinstance(s[1], AbsList) or not s[1].segs:
                    w.check(t + 'accepted runs are not empty ' + when, False)
                else:
                    self.run(t + 'accepted runs are consecutive ' + when, s[1])
        got = list(accepted.segs) + list(acc.segs)
        w.check(t + 'the runs hold the data of the codes seen ' + when, same_data(w, got, seen))

    def step(self, v):
        self.check(v, self.seen + [('I', self.new)], 'after an iteration')

    def finish(self, v):
        out = self.state()
        self.w.datarw[self.S] = self.seen
        return out


class GroupCut:
    """for run in accepted: the merged pieces so far hold the data of the runs so far"""
    def __init__(self, loop, seg):
        self.loop, self.w, self.X = loop, loop.w, seg[1]
        self.P = self.w.base('merged')

    def begin(self, v):
        c = [v[k] for k in self.loop.mut if isinstance(v.get(k), AbsList) and k not in ('new_sl',)]
        if len(c) != 1:
            raise Unsupported('lists of the loop')
        self.out = c[0]
        self.w.check(self.w.tag + 'merged pieces: nothing at the start', not self.out.segs)

    def element(self):
        self.g, _, _ = group(self.w, eng().choose(self.w.item_keys, 'run in'))
        return self.g

    def havoc(self, v):
        self.out.segs[:] = [('Q', self.P)]
        self.out.touch()
        self.g0 = list(self.g.segs)
        return {}

    def step(self, v):
        w = self.w
        w.check(w.tag + 'merged pieces: one run is one piece with its data', same_data(w, self.out.segs, [('Q', self.P)] + self.g0))

    def finish(self, v):
        self.out.segs[:] = [('Q', self.X)]
        self.out.touch()
        return {}


# ------------------------------------------------------------------ the world

SAFE_STR = {'split', 'join', 'format', 'startswith', 'partition', 'rpartition', 'rsplit'}


class World:
    def __init__(self, repo):
        ub = types.ModuleType('ubelt')
        ub.__dict__.update({k: v for k, v in vars(ubelt).items() if not k.startswith('__')})
        ub.oset = OSet
        ub.OrderedSet = OSet
        ub.flatten = self.flatten
        ub.take = self.take
        ft = types.ModuleType('functools')
        ft.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith('__')})
        ft.lru_cache = lambda maxsize=None: (lambda f: f)
        ft.cache = lambda f: f
        self.kwarray = types.ModuleType('kwarray')
        self.kwarray.ArrayAPI = types.SimpleNamespace(coerce=lambda x: self.api)
        self.api = None
        self.code = None
        self.tag = ''
        name = 'delayed_image.channel_spec'
        self.env = Env(repo, {'ubelt': ub, 'functools': ft, 'kwarray': self.kwarray}, cut={name: lambda t: Instr().visit(t)})
        b = self.env.builtins
        real = {}

        def kind(k, fn):
            real[k] = b[k]
            b[k] = _M('v_' + k, (b[k] if isinstance(b[k], type) else object,), {'real': {'tuple': tuple, 'set': set, 'dict': dict}[k], '__new__': lambda cls, *a, **kw: fn(*a, **kw)})
        kind('tuple', self.b_tuple)
        kind('set', self.b_set)
        kind('dict', self.b_dict)
        b['sum'] = self.b_sum
        b['zip'] = self.b_zip
        b['sorted'] = self.b_sorted
        b['any'] = self.b_any(any)
        b['all'] = self.b_any(all)
        b['enumerate'] = self.b_enumerate
        b['__v_display__'] = self.display
        b['__v_cmp__'] = self.cmp
        b['__v_meth__'] = self.meth
        b['__v_item__'] = self.item
        b['__v_comp__'] = self.comp
        b['__v_for__'] = lambda *a: Loop(self, *a)
        self.mod = self.env.module(name)
        self.F = self.mod.FusedChannelSpec
        self.C = self.mod.ChannelSpec
        self.F._is_spec = True
        self.orig = {(c, k): c.__dict__[k] for c in (self.F, self.C, self.mod.BaseChannelSpec) for k in c.__dict__ if callable(getattr(c, k, None)) and not k.startswith('__') or k == '__getitem__'}
        self.modfns = {k: v for k, v in vars(self.mod).items() if isinstance(v, types.FunctionType)}
        self.reset()

    # ---- state of a path
    def reset(self):
        W[0] = self
        sym.FORMAT_HOOK[0] = fmt
        load.STR_INT[0] = v_int
        load.RANGE_HOOK[0] = self.range
        self.atoms, self.nums, self.uf, self.neq = {}, {}, {}, set()
        self.rw, self.reps, self.texts, self.place = {}, {}, [], {}
        self.bases = 0
        self.code = None
        self.cuts = {}
        self.comps = {}
        self.kinds = None
        self.loc = {}
        self.datarw = {}
        self.axis = 0
        self.item_keys = []
        self.minimum = 0
        self.plain = ()
        self.nonempty = ()
        self.oracle = None
        self.setkeys = []
        self.restore()

    def restore(self):
        for (c, k), v in getattr(self, 'orig', {}).items():
            if c.__dict__.get(k) is not v:
                setattr(c, k, v)
        for k, v in getattr(self, 'modfns', {}).items():
            setattr(self.mod, k, v)
        if hasattr(self, 'F'):
            self.F._memo.clear()

    def install_contracts(self):
        pass

    def check(self, name, goal, note=''):
        e = eng()
        if goal is True or goal is False:
            e.check(name, goal, note=note)
        else:
            e.check(name, goal)

    # ---- strings
    def atom(self, kind, label, val=None):
        c = chr(PU + len(self.atoms) + 1)
        self.atoms[c] = Atom(kind, label, val)
        return c

    def name(self, label='n'):
        return self.atom('name', '%s%d' % (label, len(self.atoms)))

    def numeral(self, x):
        if not isinstance(x, SymNum):
            return str(x)
        r = eng().norm_rat(x.r)
        if r.is_const():
            return str(sym.mk(r, True))
        k = r.key()
        if k not in self.nums:
            self.nums[k] = self.atom('num', '<%s>' % sym.show(r), x)
        return self.nums[k]

    def number(self, p):
        """the integer a text stands for, None if it is a name"""
        if p.isdigit():
            return int(p)
        if len(p) == 1 and ord(p) >= PU and self.atoms[p].kind == 'num':
            return self.atoms[p].val
        if any(ord(c) >= PU and self.atoms[c].kind == 'num' for c in p):
            raise Unsupported('text %s' % show(p))
        return None

    def root(self, c):
        while c in self.uf:
            c = self.uf[c]
        return c

    def canon(self, s):
        if not self.uf:
            return s
        return ''.join(self.root(c) for c in s)

    def same_name(self, x, y):
        """are two different names equal?"""
        for p in (x, y):
            if atoms_in(p) and len(p) > 1:
                raise Unsupported('comparison of %s and %s' % (show(x), show(y)))
        k = frozenset((x, y))
        if k in self.neq:
            return False
        if not atoms_in(x) and not atoms_in(y):
            return False
        for p, q in ((x, y), (y, x)):
            if q in ALIAS and len(p) == 1 and p in self.plain:
                return False
        if eng().choose([False, True], '%s = %s' % (show(x), show(y))):
            a, b = (x, y) if len(x) == 1 and ord(x) >= PU else (y, x)
            self.uf[a] = b
            self.neq = {frozenset(self.canon(z) for z in p) for p in self.neq}
            return True
        self.neq.add(k)
        return False

    # ---- codes
    plain = ()

    def base(self, label, norm=False):
        self.bases += 1
        return Base('%s%d' % (label, self.bases), norm)

    def find(self, b):
        while b.rep is not None:
            b = b.rep
        return b

    def code_of(self, kind):
        e = eng()
        if kind in ALIAS:
            return kind
        n = self.name('name' if kind == 'name' else 'root')
        if kind == 'name':
            self.plain = tuple(self.plain) + (n,)
            return n
        if kind == 'index':
            return '{}.{}'.format(n, self.numeral(e.nat('i')))
        if kind == 'range0':
            return '{}:{}'.format(n, self.numeral(e.nat('stop', self.minimum)))
        a = e.nat('a')
        b = e.nat('b')
        if self.minimum:
            e.require(b >= a + self.minimum)
        return '{}.{}:{}'.format(n, self.numeral(a), self.numeral(b))

    minimum = 0

    def element(self, base):
        """an arbitrary code of a sequence"""
        kinds = ['name', 'index'] if base.norm else self.kinds or list(ALIAS) + ['name', 'index', 'range0', 'range']
        v = self.code_of(eng().choose(kinds, 'code'))
        self.code = v
        return v

    # ---- builtins
    def range(self, *a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
        if step != 1:
            raise Unsupported('range with a step')
        return SymRange(start, stop)

    def b_tuple(self, x=()):
        if isinstance(x, AbsList):
            return tuple(x.items()) if x.concrete else AbsList(x.segs)
        return tuple(x)

    def b_set(self, x=()):
        if isinstance(x, (AbsList, OSet, AbsSet)):
            return AbsSet(x.segs)
        return set(x)

    def b_dict(self, *a, **k):
        d = AbsDict()
        for x in a:
            for p, q in (x.items() if isinstance(x, dict) else x):
                d[p] = q
        for p, q in k.items():
            d[p] = q
        return d

    def b_sum(self, it, start=0):
        if isinstance(it, AbsList):
            for s in it.segs:
                if s[0] == 'I':
                    start = start + s[1]
                elif s[0] == 'H' and s[1] == 'sizes':
                    start = start + s[2].total
                elif s[0] == 'rep':
                    start = start + s[1] * s[2]
                else:
                    raise Unsupported('sum of %s' % seg_text(s))
            return start
        for x in it:
            start = start + x
        return start

    def b_zip(self, *xs, **k):
        if all(not isinstance(x, AbsList) or x.concrete for x in xs):
            return zip(*xs, **k)
        return Zip(xs)

    def b_sorted(self, x, **k):
        x = list(x)
        if len(x) <= 1:
            return AbsList.of(x)
        import itertools
        perms = list(itertools.permutations(range(len(x))))
        p = perms[eng().choose(list(range(len(perms))), 'order')]
        return AbsList.of([x[i] for i in p])

    def b_any(self, fn):
        def go(x):
            if isinstance(x, (AbsList, Zip, DictView, SymRange)) and not (isinstance(x, AbsList) and x.concrete):
                raise Unsupported('any / all')
            return fn(x)
        return go

    def b_enumerate(self, x, start=0):
        if isinstance(x, AbsList) and not x.concrete:
            raise Unsupported('enumerate')
        return enumerate(x, start)

    def flatten(self, xs):
        xs = list(xs)
        out = []
        for x in xs:
            out += AbsList.segs_of(x)
        return AbsList(out)

    def take(self, items, indices, default=ubelt.NoParam):
        if isinstance(items, AbsList):
            if isinstance(indices, AbsList) and not indices.concrete:
                return AbsList([('sel', tuple(items.segs), ('take', text(indices.segs)))])
            return AbsList.of([items[i] for i in indices])
        return ubelt.take(items, indices)

    # ---- hooks
    def display(self, x):
        if type(x) is list:
            return AbsList.of(x)
        if type(x) is dict:
            return AbsDict(x)
        return x

    def cmp(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            if type(a) is str and type(b) is str:
                g = str_eq(a, b)
            else:
                return a == b if op == 'Eq' else a != b
            if op == 'Eq':
                return g
            return NOT(g) if isinstance(g, SymBool) else not g
        g = self.contains(a, b)
        if op == 'In':
            return g
        return NOT(g) if isinstance(g, SymBool) else not g

    def contains(self, x, c):
        if hasattr(type(c), 'contains'):
            return c.contains(x)
        if type(c) is str:
            if not atoms_in(c) and not atoms_in(x):
                return x in c
            if len(x) == 1 and x in SEPS:
                if any(ord(k) >= PU and self.atoms[k].kind == 'text' for k in c):
                    raise Unsupported('%s in a stream' % x)
                return x in c
            raise Unsupported('%s in %s' % (show(x), show(c)))
        if isinstance(c, AbsList):
            if not c.concrete:
                raise Unsupported('in an arbitrary sequence')
            return any(bool(self.cmp('Eq', x, y)) for y in c.items())
        if isinstance(c, dict) and type(x) is str and atoms_in(x):
            if isinstance(c, AbsDict) and c.segs:
                raise Unsupported('in a dict over an arbitrary sequence')
            if x in c:
                return True
            for k in c:
                if type(k) is str and bool(str_eq(x, k)):
                    return True
            return False
        return x in c

    def meth(self, obj, name):
        if type(obj) is str:
            if name == 'join':
                return functools.partial(self.join, obj)
            if atoms_in(obj) and name not in SAFE_STR:
                raise Unsupported('str.%s of %s' % (name, show(obj)))
            if name in ('split', 'rsplit', 'partition', 'rpartition') and any(self.atoms[c].kind == 'text' for c in obj if ord(c) >= PU):
                return functools.partial(self.split, obj, name)
            if name == 'split':
                return lambda *a, **k: AbsList.of(obj.split(*a, **k))
            if name == 'startswith' and atoms_in(obj):
                raise Unsupported('startswith')
        if isinstance(obj, dict) and name == 'get' and not isinstance(obj, AbsDict):
            return functools.partial(self.dict_get, obj)
        return getattr(obj, name)

    def dict_get(self, d, k, dflt=None):
        if type(k) is str and atoms_in(k) and k not in d:
            for j in d:
                if type(j) is str and bool(str_eq(j, k)):
                    return d[j]
            return dflt
        return d.get(k, dflt)

    def split(self, s, name, sep=None, maxsplit=-1):
        if name != 'split' or maxsplit != -1:
            raise Unsupported('split of a stream')
        if sep == ',':
            return AbsList.of(s.split(','))
        t = tokens(s)
        if sep == '|' and len(t) == 1:
            return AbsList(t[0].val)
        raise Unsupported('split of a stream at %r' % sep)

    def join(self, sep, xs):
        if not isinstance(xs, AbsList):
            xs = AbsList.of(list(xs))
        if xs.concrete and (sep != '|' or not any(atoms_in(x) for x in xs.items())):
            return sep.join(xs.items())
        if sep == '|':
            return self.text(xs.segs)
        raise Unsupported('join of an arbitrary sequence with %r' % sep)

    def item(self, obj, i):
        if type(obj) is str and atoms_in(obj):
            raise Unsupported('characters of %s' % show(obj))
        return obj[i]

    # ---- texts of streams
    def text(self, segs):
        """the text of a list of codes"""
        n = norm(segs)
        if not n:
            return ''
        L = AbsList(segs)
        if not all(s[0] == 'I' for s in n) and not any(s[0] == 'H' and s[1] in ('id', 'concise', 'expand', 'pre') and s[2] in self.nonempty for s in n):
            if not eng().entails(sym.form(L._v_len() > 0)):
                if not (L._v_len() > 0):
                    return ''
        for c, segs2 in self.texts:
            if self.list_same(segs, segs2):
                return c
        c = self.atom('text', 'text%d' % len(self.texts), list(segs))
        self.texts.append((c, list(segs)))
        return c

    nonempty = ()

    def list_same(self, a, b):
        g = same(a, b)
        if g is True:
            return True
        p, q = norm(a), norm(b)
        if len(p) == 1 and len(q) == 1 and p[0][0] == 'H' and q[0][0] == 'H' and p[0][1] == q[0][1]:
            k = ('eqlist', (p[0][1], p[0][2].name, q[0][2].name))
            if p[0][1] in ('expand', 'concise'):
                if k in eng().memo:
                    return eng().memo[k]
                r = eng().choose([False, True], 'the channels of %s = %s' % (p[0][2], q[0][2]))
                eng().memo[k] = r
                if r:
                    x, y = p[0][2], q[0][2]
                    eng().require(EQ(x.total, y.total))
                    x.rep = y
                return r
        if isinstance(g, SymBool):
            return bool(g)
        return False

    # ---- comprehensions
    def comp(self, kind, fn, it, one, test):
        if getattr(type(it), '_is_spec', False):
            # iteration by __getitem__ 0, 1, .. (contract of __getitem__)
            it = it.normalize().parsed
        if isinstance(it, (AbsSet, Zip, DictView)) or isinstance(it, SymRange) or isinstance(it, AbsList) and not it.concrete:
            return self.abstract_comp(kind, fn, it, one, test)
        out = []
        for x in it:
            if test(x)[0]:
                out.append(one(x)[0])
        if kind == 'ListComp':
            return AbsList.of(out)
        if kind == 'DictComp':
            d = AbsDict()
            for k, v in out:
                d[k] = v
            return d
        if kind == 'SetComp':
            return set(out)
        return iter(out)

    def abstract_comp(self, kind, fn, it, one, test):
        if kind not in ('ListComp', 'GeneratorExp', 'SetComp'):
            raise Unsupported('a dict comprehension over an arbitrary sequence')
        if isinstance(it, SymRange):
            e = eng()
            if e.choose(['element', 'all'], 'comprehension over a range') == 'element':
                i = e.fresh('i', True)
                e.require(AND(i >= it.start, i < it.stop))
                if test(i)[0] is not True:
                    raise Unsupported('a condition in a comprehension over a range')
                v = one(i)[0]
                kind_, root, a, b = code_parts(v)
                if self.code is None:
                    raise Unsupported('comprehension over a range')
                self.check(self.tag + 'comprehension of %s: one channel per number of the range' % fn,
                           same([('I', v)], [('R', code_parts(self.code)[1], i, i + 1)]))
                e.cover('an iteration')
                raise PathEnd
            if self.code is None:
                raise Unsupported('comprehension over a range')
            return AbsList([('R', code_parts(self.code)[1], it.start, sym.smax(it.start, it.stop))])
        if fn in self.comps:
            return self.comps[fn](kind, it, one, test)
        if isinstance(it, AbsList):
            # a filter: the condition is a boolean function of memberships of the element
            if self.oracle is not None:
                raise Unsupported('nested comprehension')
            x = self.atom('name', 'element')
            sets = []
            rows = {}
            todo = [{}]
            try:
                while todo:
                    self.oracle = (x, dict(todo.pop()), sets)
                    try:
                        r = bool(test(x)[0])
                        y = one(x)[0]
                    except Miss as m:
                        for b in (True, False):
                            d = dict(self.oracle[1])
                            d[m.key] = b
                            todo.append(d)
                        continue
                    if y is not x:
                        raise Unsupported('a comprehension that maps an arbitrary sequence')
                    rows[frozenset(self.oracle[1].items())] = r
            finally:
                self.oracle = None
            if not sets:
                if all(rows.values()):
                    return AbsList(it.segs)
                raise Unsupported('comprehension')
            import itertools
            keys = tuple(sorted(sets))
            table = set()
            for vals in itertools.product([False, True], repeat=len(keys)):
                d = dict(zip(keys, vals))
                for r, v in rows.items():
                    if all(d[k] == b for k, b in r):
                        if v:
                            table.add(vals)
                        break
            if kind == 'SetComp':
                return AbsSet([('F', tuple(it.segs), (keys, frozenset(table)))])
            return AbsList([('F', tuple(it.segs), (keys, frozenset(table)))])
        raise Unsupported('comprehension over %s' % type(it).__name__)

    # ---- sets
    def setkey(self, segs):
        def canonical(segs):
            n = norm(segs)
            if all(s[0] == 'H' for s in n):     # a set: order and repetitions do not matter
                n = sorted({(s[1], s[2].name): s for s in n}.values(), key=lambda s: (s[1], s[2].name))
            return n
        n = canonical(segs)
        for i, s in enumerate(self.setkeys):
            if same(canonical(s), n) is True:
                return i
        self.setkeys.append(n)
        return len(self.setkeys) - 1

    def member(self, x, s):
        if self.oracle is None or x is not self.oracle[0]:
            raise Unsupported('membership in an arbitrary set')
        k = s.key()
        _, known, sets = self.oracle
        if k not in sets:
            sets.append(k)
        if k not in known:
            m = Miss()
            m.key = k
            raise m
        return known[k]

    # ---- dicts
    def lookup(self, d, k):
        e = eng()
        if k in self.loc:
            f = self.loc[k]
            if f not in d.segs:
                raise Unsupported('lookup of a code')
            return f.value(k)
        info = self.place.get(k)
        cands = [s for s in d.segs if info is None or s.base is info[0]]
        if info is not None and not cands:
            raise Unsupported('lookup of a code')
        f = d.segs[e.choose([d.segs.index(s) for s in cands], 'where the code is packed')]
        self.loc[k] = f
        if info is None:
            self.place[k] = (f.base, e.nat('pos'))
        return f.value(k)

    # ---- cuts
    def cut(self, loop, seg):
        if seg[0] == 'Z' and isinstance(seg[1], SymRange):
            return RangeCut(loop, seg)
        if loop.fn in self.cuts:
            return self.cuts[loop.fn](loop, seg)
        raise Unsupported('loop over an arbitrary sequence in %s' % loop.fn)


class Miss(Control):
    pass
