"""
Assumed contracts of the external libraries (numpy on scalars, kwimage.Affine,
kwimage.Boxes, kwimage.Polygon, math, ubelt, copy), for symbolic values.
Everything not listed falls through to the real library.  The contracts are
compared with the real libraries on concrete values by tests/conformance (see
verify.conformance), Boxes.from_slice and kwarray.embed_slice are not modelled: the
installed library sources are executed symbolically.
"""
import copy as _copy
import math as _math
import numpy as _np
import ubelt as _ub
from pyver import sym
from pyver.sym import SymNum, SymBool, Unsupported, AND, OR, NOT, EQ, mk, to_rat, eng

A_CLOSE = ('assumption: numeric closeness tests (np.isclose, Affine.isclose_identity with tolerances) are modelled as '
           'equality; floating point arithmetic is modelled as exact real arithmetic')
A_AFFINE = 'trusted contract: kwimage.Affine (matrix product, inverse, constructors, decompose)'
A_BOX = 'trusted contract: kwimage.Boxes.quantize/clip/warp/to_polygons, Polygon.warp/box (floor/ceil, min/max of corners)'


def issym(x):
    return isinstance(x, (SymNum, SymBool))


def anysym(x):
    if issym(x) or isinstance(x, SymAffine):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(issym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(anysym(v) for v in x)
    return False


def obj(x):
    """object array of x"""
    if isinstance(x, SymAffine):
        return x.__array__()
    if isinstance(x, _np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        parts = [obj(v) for v in x]
        out = _np.empty((len(parts),) + (parts[0].shape if parts else ()), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p.item()
        return out
    out = _np.empty((), dtype=object)
    out[()] = x
    return out


def emap(fn, *xs):
    """elementwise"""
    arrs = [obj(x) for x in xs]
    sh = _np.broadcast_shapes(*[a.shape for a in arrs])
    if sh == ():
        return fn(*[a.item() for a in arrs])
    bs = [_np.broadcast_to(a, sh) for a in arrs]
    out = _np.empty(sh, dtype=object)
    for ix in _np.ndindex(*sh):
        out[ix] = fn(*[b[ix] for b in bs])
    return out


def same(a, b):
    eng().used.add(A_CLOSE)
    if issym(a) or issym(b):
        return EQ(a, b)
    return bool(_np.isclose(a, b))


class NP:
    """numpy"""
    def __getattr__(self, name):
        return getattr(_np, name)

    def floor(self, x):
        return emap(sym.floor, x) if anysym(x) else _np.floor(x)

    def ceil(self, x):
        return emap(sym.ceil, x) if anysym(x) else _np.ceil(x)

    def log2(self, x):
        return sym.SymLog2(x) if isinstance(x, SymNum) else _np.log2(x)

    def abs(self, x):
        return emap(abs, x) if anysym(x) else _np.abs(x)

    def sqrt(self, x):
        return emap(sym.sqrt, x) if anysym(x) else _np.sqrt(x)

    def minimum(self, a, b):
        return emap(sym.smin, a, b) if anysym(a) or anysym(b) else _np.minimum(a, b)

    def maximum(self, a, b):
        return emap(sym.smax, a, b) if anysym(a) or anysym(b) else _np.maximum(a, b)

    def isnan(self, x):
        return False if isinstance(x, SymNum) else _np.isnan(x)

    def isfinite(self, x):
        return True if isinstance(x, SymNum) else _np.isfinite(x)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if anysym(a) or anysym(b):
            return emap(same, a, b)
        return _np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if anysym(a) or anysym(b):
            return self.all(emap(same, a, b))
        return _np.allclose(a, b, rtol=rtol, atol=atol, **k)

    def all(self, x, *a, **k):
        if anysym(x) and not a and not k:
            return AND(*obj(x).ravel())
        return _np.all(x, *a, **k)

    def any(self, x, *a, **k):
        if anysym(x) and not a and not k:
            return OR(*obj(x).ravel())
        return _np.any(x, *a, **k)

    def array(self, x, *a, **k):
        if isinstance(x, SymAffine):
            return x.__array__().copy()
        if isinstance(x, SymNum):
            return obj(x)
        if isinstance(x, (list, tuple)) and anysym(x):
            return obj(x)
        return _np.array(x, *a, **k)

    def asarray(self, x, *a, **k):
        if isinstance(x, _np.ndarray):
            return x
        return self.array(x, *a, **k)
    asanyarray = asarray

    def clip(self, x, lo, hi, out=None):
        if not (anysym(x) or anysym(lo) or anysym(hi)):
            return _np.clip(x, lo, hi, out=out)

        def c(v):
            if lo is not None:
                v = sym.smax(v, lo)
            if hi is not None:
                v = sym.smin(v, hi)
            return v
        r = emap(c, x)
        if out is not None:
            out[...] = r
            return out
        return r


class Math:
    def __getattr__(self, name):
        return getattr(_math, name)

    def ceil(self, x):
        return sym.ceil(x) if issym(x) else _math.ceil(x)

    def floor(self, x):
        return sym.floor(x) if issym(x) else _math.floor(x)

    def trunc(self, x):
        return sym.trunc(x) if issym(x) else _math.trunc(x)

    def sqrt(self, x):
        return sym.sqrt(x) if issym(x) else _math.sqrt(x)

    def isfinite(self, x):
        return True if isinstance(x, SymNum) else _math.isfinite(x)

    def isnan(self, x):
        return False if isinstance(x, SymNum) else _math.isnan(x)

    def isinf(self, x):
        return False if isinstance(x, SymNum) else _math.isinf(x)

    def isclose(self, a, b, **k):
        return same(a, b) if issym(a) or issym(b) else _math.isclose(a, b, **k)

    def log2(self, x):
        return sym.SymLog2(x) if isinstance(x, SymNum) else _math.log2(x)

    def atan2(self, y, x):
        return SymAngle(y, x) if issym(y) or issym(x) else _math.atan2(y, x)

    def hypot(self, a, b):
        return sym.sqrt(a * a + b * b) if issym(a) or issym(b) else _math.hypot(a, b)

    def sin(self, t):
        return t.sin() if isinstance(t, SymAngle) else _math.sin(t)

    def cos(self, t):
        return t.cos() if isinstance(t, SymAngle) else _math.cos(t)


class SymAngle:
    """atan2(y, x); only its sine and cosine are modelled"""
    def __init__(self, y, x):
        if not issym(y) and y == 0:
            self.s, self.c = 0, (1 if x > 0 else -1)
            return
        r = sym.sqrt(x * x + y * y)
        self.s, self.c = y / r, x / r

    def sin(self):
        return self.s

    def cos(self):
        return self.c

    def __getattr__(self, name):
        raise Unsupported('angle arithmetic')


# ------------------------------------------------------------------ affine

def nm(x):
    return x


class SymAffine:
    """kwimage.Affine on symbolic numbers; matrix is None or a 3x3 object array"""
    def __init__(self, matrix=None):
        if matrix is not None and not isinstance(matrix, _np.ndarray):
            matrix = obj(matrix)
        if matrix is not None and matrix.shape == (2, 3):
            matrix = _np.vstack([matrix.astype(object), _np.array([[0, 0, 1]], dtype=object)])
        if matrix is not None:
            if matrix.shape != (3, 3):
                raise Unsupported('matrix shape')
            matrix = matrix.astype(object)
        self.matrix = matrix
        self.parts = None
        self.fac = None         # provenance: [(matrix, inverted)]
        self.free = False       # six unconstrained atoms
        self.general = False    # known not to be a positive scale and a shift

    @staticmethod
    def six(a, b, c, d, e, f):
        m = _np.empty((3, 3), dtype=object)
        m[0] = [a, b, c]
        m[1] = [d, e, f]
        m[2] = [0, 0, 1]
        return SymAffine(m)

    @classmethod
    def coerce(cls, data=None, **kw):
        eng().used.add(A_AFFINE)
        if data is None and not kw:
            return cls(None)
        if data is None:
            data = kw
        if isinstance(data, cls):
            return data
        if isinstance(data, _np.ndarray):
            return cls(data)
        if isinstance(data, dict):
            keys = set(data)
            if 'matrix' in keys:
                return cls(NP().array(data['matrix']))
            known = {'scale', 'offset', 'theta', 'type', 'shearx', 'shear', 'about'}
            if keys - known:
                raise KeyError(', '.join(keys))
            d = {k: v for k, v in data.items() if k != 'type'}
            return cls.affine(**d)
        if isinstance(data, (tuple, list)):
            raise ValueError('Cannot determine')
        h = getattr(data, '_v_affine', None)
        if h is not None:
            return h()
        import kwimage
        if isinstance(data, kwimage.Affine):
            return cls(None if data.matrix is None else data.matrix)
        raise TypeError(type(data))

    @classmethod
    def affine(cls, scale=None, offset=None, theta=None, shear=None, about=None, shearx=None, **kw):
        eng().used.add(A_AFFINE)
        if shear is not None and shearx is None:
            shearx = shear
        if isinstance(theta, Opaque) or isinstance(shearx, Opaque) or isinstance(scale, Opaque) or isinstance(offset, Opaque):
            return compose_opaque(cls, scale, offset, theta, shearx, about)
        if about is not None or (theta is not None and (issym(theta) or theta != 0)) or issym(shearx) or shearx:
            raise Unsupported('symbolic rotation or shear')
        sx, sy = two(1 if scale is None else scale)
        tx, ty = two(0 if offset is None else offset)
        return cls.six(sx, 0, tx, 0, sy, ty)

    @classmethod
    def scale(cls, scale=1):
        return cls.affine(scale=scale)

    @classmethod
    def translate(cls, offset=0):
        return cls.affine(offset=offset)

    @classmethod
    def eye(cls, *a):
        return cls.six(1, 0, 0, 0, 1, 0)

    def __array__(self, dtype=None, copy=None):
        if self.matrix is None:
            return _np.eye(3).astype(object)
        return self.matrix

    def m6(self):
        a = self.__array__()
        return [a[0, 0], a[0, 1], a[0, 2], a[1, 0], a[1, 1], a[1, 2]]

    def __matmul__(self, o):
        eng().used.add(A_AFFINE)
        if o is None:
            return self
        if self.matrix is None:
            return SymAffine.coerce(o)
        if isinstance(o, _np.ndarray):
            if o.shape != (3, 3):
                raise Unsupported('affine @ array')
            o = SymAffine(o)
        if not isinstance(o, SymAffine):
            raise Unsupported('affine @ %s' % type(o))
        if o.matrix is None:
            return self
        return mul6(self, o)

    def __rmatmul__(self, o):
        if isinstance(o, _np.ndarray) and o.shape == (3, 3):
            # ndarray @ Affine uses __array__
            return mul6(SymAffine(o), self).matrix
        raise Unsupported('array @ affine')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def inv(self):
        eng().used.add(A_AFFINE)
        if self.matrix is None:
            return SymAffine(None)
        fs = factors(self)
        if len(fs) == 1 and fs[0][1] and fs[0][0].fac is None:
            return fs[0][0]         # the inverse of an inverse
        a, b, c, d, e, f = self.m6()
        det = a * e - b * d
        ia, ib, ic, ie = e / det, -b / det, -d / det, a / det
        out = SymAffine.six(ia, ib, -(ia * c + ib * f), ic, ie, -(ic * c + ie * f))
        out.fac = [(F, not i) for F, i in reversed(factors(self))]
        out.general = self.general
        return out

    @property
    def shape(self):
        return (3, 3)

    def is_rational(self):
        return False

    def is_affine(self):
        return True

    def isclose_identity(self, rtol=1e-5, atol=1e-8):
        if self.matrix is None:
            return True
        if rtol or atol:
            eng().used.add(A_CLOSE)
        return IdentityTest.of(self)

    def decompose(self):
        eng().used.add(A_AFFINE)
        return decompose(self)

    def concise(self):
        return concise(self)

    def __copy__(self):
        return SymAffine(self.matrix)

    def __deepcopy__(self, memo):
        return SymAffine(None if self.matrix is None else self.matrix.copy())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('Affine.%s' % name)

    def __getitem__(self, ix):
        return self.__array__()[ix]

    def __repr__(self):
        return 'Aff%s' % (None if self.matrix is None else self.m6(),)


class IdentityTest(SymBool):
    """A == I; when the path takes it, a free factor of A is solved for"""
    __slots__ = ('A',)

    @staticmethod
    def of(A):
        b = AND(*[EQ(x, y) for x, y in zip(A.m6(), (1, 0, 0, 0, 1, 0))])
        if not isinstance(b, SymBool):
            return b
        out = IdentityTest(b.f)
        out.A = A
        return out

    def __bool__(self):
        e = eng()
        f = e.norm(self.f)
        if f.op == 'const':
            return f.a
        nf = sym.fnot(f)
        c = e.decide(2, lambda i: e.feasible(f if i == 0 else nf), sym.fkey(f))
        if c == 0:
            assume_identity(self.A)
            return True
        e.add(nf)
        return False


def factors(A):
    return A.fac if A.fac is not None else [(A, False)]


def assume_identity(A):
    """assume A == I; a free factor of A is solved for, so that no equation between
    products remains"""
    e = eng()
    fs = factors(A)

    def atoms(F):
        out = []
        for x in F.m6():
            if not isinstance(x, SymNum):
                out.append(None)
                continue
            if not isinstance(x, SymNum) or x.r.d or len(x.r.n.t) != 1:
                return None
            (m, c), = x.r.n.t.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1:
                return None
            out.append(m[0][0])
        return out
    best = None
    for j, (F, inv) in enumerate(fs):
        if not F.free or sum(1 for G, _ in fs if G is F) != 1:
            continue
        at = atoms(F)
        if at is None or any(k is not None and k in e.subst for k in at):
            continue
        if best is None or at[0] > best[2][0]:
            best = (j, inv, at)
    if best is None:
        for x, y in zip(A.m6(), (1, 0, 0, 0, 1, 0)):
            e.assume(EQ(x, y))
        return
    j, inv, at = best

    def prod(items):
        out = SymAffine(None)
        for F, i in items:
            out = out @ (F.inv() if i else F)
        return out
    M, N = prod(fs[:j]), prod(fs[j + 1:])
    val = (N @ M) if inv else (N @ M).inv()
    for k, x, f in zip(at, val.m6(), fs[j][0].m6()):
        if k is None:
            e.assume(EQ(x, f))
    for k, x in zip(at, val.m6()):
        if k is not None:
            e.substitute(k, e.norm_rat(to_rat(x)))


def mul6(A, B):
    out = mul6_(A, B)
    out.fac = factors(A) + factors(B)
    return out


def mul6_(A, B):
    a, b, c, d, e, f = A.m6()
    g, h, i, j, k, m = B.m6()
    return SymAffine.six(a * g + b * j, a * h + b * k, a * i + b * m + c,
                         d * g + e * j, d * h + e * k, d * i + e * m + f)


def two(x):
    if isinstance(x, _np.ndarray):
        x = [v for v in x.ravel()] if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        if len(x) != 2:
            raise ValueError('expected two components')
        return x[0], x[1]
    return x, x


class Opaque:
    """a parameter about which nothing is known"""
    def __init__(self, name, **attrs):
        self.__dict__['_name'] = name
        self.__dict__.update(attrs)

    def __repr__(self):
        return '?' + self._name

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('opaque %s.%s' % (self._name, name))

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (str, int, float)) and not isinstance(o, bool):
            return SymBool(sym.F('var', '%s=%s' % (self._name, o)))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def aligned_form(A):
    a, b, c, d, e, f = A.m6()
    return AND(EQ(b, 0), EQ(d, 0), sym.lift(a) > 0, sym.lift(e) > 0)


def decompose(A):
    e = eng()
    if A.matrix is None:
        return {'offset': (0.0, 0.0), 'scale': (1.0, 1.0), 'shearx': 0.0, 'theta': 0.0}
    a11, a12, tx, a21, a22, ty = A.m6()
    if not A.general and bool(aligned_form(A)):
        return {'offset': (tx, ty), 'scale': (a11, a22), 'shearx': 0.0, 'theta': 0.0}
    # not axis aligned: the components are not modelled any further
    sx, sy, th, sh = e.reals('dec_sx', 'dec_sy', 'dec_theta', 'dec_shear')
    e.assume(sx > 0)
    e.assume(NOT(EQ(sy, 0)))
    tol = 1e-9
    e.used.add('assumption: a decomposed rotation or shear below 1e-9 is zero')
    e.assume(OR(th >= tol, th <= -tol, sh >= tol, sh <= -tol, sy <= 0))
    return {'offset': (tx, ty), 'scale': (sx, sy), 'shearx': sh, 'theta': th}


# component view used by undo_warp -----------------------------------------

COMPONENTS = ('scale', 'offset', 'theta', 'shearx')


def concise(A):
    """The components of A, opaque; the ones that are neutral may be missing."""
    e = eng()
    params = {}
    for k in COMPONENTS:
        if e.choose([True, False], 'concise ' + k):
            params[k] = Opaque('comp_' + k, _of=A, _key=k)
    params['type'] = 'affine'
    A.__dict__['_concise'] = dict(params)
    e.memo['py', 'last_concise'] = A
    return params


def compose_opaque(cls, scale, offset, theta, shearx, about):
    given = {'scale': scale, 'offset': offset, 'theta': theta, 'shearx': shearx}
    given = {k: v for k, v in given.items() if v is not None}
    if about is not None or not all(isinstance(v, Opaque) and '_key' in v.__dict__ for v in given.values()):
        raise Unsupported('mixture of opaque components')
    e = eng()
    T = fresh_general(e, 'undo')
    T.parts = given
    return T


def fresh_general(e, name):
    a, b, c, d, ee, f = e.reals(*[name + s for s in ('a', 'b', 'tx', 'c', 'd', 'ty')])
    e.assume(NOT(EQ(a * ee, b * d)))
    return SymAffine.six(a, b, c, d, ee, f)


def fresh_affine(e, name='T', shapes=('aligned', 'general')):
    k = e.choose(shapes, 'shape of ' + name)
    if k == 'none':
        return SymAffine(None)
    if k == 'aligned':
        sx, sy, tx, ty = e.reals(name + 'sx', name + 'sy', name + 'tx', name + 'ty')
        e.assume(sx > 0)
        e.assume(sy > 0)
        T = SymAffine.six(sx, 0, tx, 0, sy, ty)
        T.free = True
        return T
    T = fresh_general(e, name)
    T.free = True
    T.general = True
    e.assume(NOT(aligned_form(T)))
    return T


# ------------------------------------------------------------------ boxes

class Boxes:
    """kwimage.Boxes in ltrb format"""
    def __init__(self, data, format='ltrb', check=True, canonical=False):
        if format != 'ltrb':
            raise Unsupported('box format')
        self.data = obj(data) if not isinstance(data, _np.ndarray) else data
        self.format = format

    # from_slice / to_slices: set from the library source by KW

    def to_ltrb(self, copy=True):
        return Boxes(self.data.copy()) if copy else self

    def _cols(self):
        d = self.data
        return d[..., 0], d[..., 1], d[..., 2], d[..., 3]

    @property
    def width(self):
        d = self.data.reshape(-1, 4)
        r = obj([[row[2] - row[0]] for row in d])
        return r if self.data.ndim == 2 else r.ravel()[0]

    @property
    def height(self):
        d = self.data.reshape(-1, 4)
        r = obj([[row[3] - row[1]] for row in d])
        return r if self.data.ndim == 2 else r.ravel()[0]

    def _col(self, i):
        d = self.data.reshape(-1, 4)
        r = obj([[row[i]] for row in d])
        return r if self.data.ndim == 2 else r.ravel()[0]

    tl_x = property(lambda s: s._col(0))
    tl_y = property(lambda s: s._col(1))
    br_x = property(lambda s: s._col(2))
    br_y = property(lambda s: s._col(3))

    def quantize(self, inplace=False, dtype=None):
        eng().used.add(A_BOX)
        d = self.data.copy().astype(object)
        f = d.reshape(-1, 4)
        for row in f:
            row[0:2] = [sym.floor(v) for v in row[0:2]]
            row[2:4] = [sym.ceil(v) for v in row[2:4]]
        d = f.reshape(self.data.shape)
        if inplace:
            self.data = d
            return self
        return Boxes(d)

    def clip(self, x_min, y_min, x_max, y_max, inplace=False):
        eng().used.add(A_BOX)
        new = self if inplace else Boxes(self.data.copy().astype(object))
        f = new.data.reshape(-1, 4)
        for row in f:
            for i, (lo, hi) in enumerate([(x_min, x_max), (y_min, y_max)] * 2):
                v = row[i]
                if lo is not None:
                    v = sym.smax(v, lo)
                if hi is not None:
                    v = sym.smin(v, hi)
                row[i] = v
        new.data = f.reshape(new.data.shape)
        return new

    def to_polygons(self):
        eng().used.add(A_BOX)
        out = []
        for x1, y1, x2, y2 in self.data.reshape(-1, 4):
            out.append(Polygon(obj([[x1, y1], [x1, y2], [x2, y2], [x2, y1], [x1, y1]])))
        return out

    def warp(self, transform, **k):
        eng().used.add(A_BOX)
        T = SymAffine.coerce(transform)
        rows = []
        for r in self.data.reshape(-1, 4):
            x1, y1, x2, y2 = r
            rows.append(bounds(T, [(x1, y1), (x1, y2), (x2, y2), (x2, y1)]))
        return Boxes(obj(rows).reshape(self.data.shape))

    def __len__(self):
        return len(self.data)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('Boxes.%s' % name)


def pt(T, x, y):
    a, b, c, d, e, f = T.m6()
    return a * x + b * y + c, d * x + e * y + f


def bounds(T, pts):
    q = [pt(T, x, y) for x, y in pts]
    xs = [p[0] for p in q]
    ys = [p[1] for p in q]
    return [sym_min(xs), sym_min(ys), sym_max(xs), sym_max(ys)]


def sym_min(xs):
    out = xs[0]
    for x in xs[1:]:
        out = sym.smin(out, x)
    return out


def sym_max(xs):
    out = xs[0]
    for x in xs[1:]:
        out = sym.smax(out, x)
    return out


class SArr(_np.ndarray):
    """object array whose min/max use the symbolic operations"""
    def min(self, axis=None, **k):
        return red(self, sym_min, axis)

    def max(self, axis=None, **k):
        return red(self, sym_max, axis)


def red(a, fn, axis):
    a = _np.asarray(a)
    if axis is None:
        return fn(list(a.ravel()))
    m = _np.moveaxis(a, axis, 0)
    out = _np.empty(m.shape[1:], dtype=object)
    for ix in _np.ndindex(*m.shape[1:]):
        out[ix] = fn([m[(i,) + ix] for i in range(m.shape[0])])
    return out


class Exterior:
    def __init__(self, data):
        self.data = data.view(SArr)


class Polygon:
    def __init__(self, pts):
        self.exterior = Exterior(pts)

    def warp(self, transform, **k):
        eng().used.add(A_BOX)
        T = SymAffine.coerce(transform)
        return Polygon(obj([list(pt(T, x, y)) for x, y in _np.asarray(self.exterior.data)]))

    def box(self):
        d = _np.asarray(self.exterior.data)
        return Boxes(obj([sym_min(list(d[:, 0])), sym_min(list(d[:, 1])), sym_max(list(d[:, 0])), sym_max(list(d[:, 1]))]))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('Polygon.%s' % name)


class KW:
    """kwimage"""
    def __init__(self, env):
        import kwimage
        import kwimage.structs.boxes as kb
        self.__dict__['_real'] = kwimage
        fs = env.exec_functions(kb.__file__, ['from_slice', 'to_slices'], {'np': NP(), 'cast': lambda t, x: x})
        cls = type('Boxes', (Boxes,), {'from_slice': classmethod(fs['from_slice']), 'to_slices': fs['to_slices']})
        self.__dict__['Boxes'] = cls
        self.__dict__['Affine'] = SymAffine
        self.__dict__['Projective'] = SymAffine

    def __getattr__(self, name):
        return getattr(self._real, name)


class KWA:
    """kwarray"""
    def __init__(self, env):
        import kwarray
        import kwarray.util_slices as ks
        self.__dict__['_real'] = kwarray
        fs = env.exec_functions(ks.__file__, ['embed_slice', '_coerce_pad'], {'np': NP(), 'ub': _ub, 'numbers': __import__('numbers')})
        self.__dict__['embed_slice'] = fs['embed_slice']
        import kwarray.util_numpy as kn
        from pyver.arr import ArrNP
        self.__dict__['atleast_nd'] = env.exec_functions(kn.__file__, ['atleast_nd'], {'np': ArrNP()})['atleast_nd']

    def __getattr__(self, name):
        return getattr(self._real, name)


class UB:
    def __getattr__(self, name):
        return getattr(_ub, name)

    def take(self, items, indices, *a):
        h = getattr(items, '_v_take', None)
        if h is not None:
            return h(indices)
        h = getattr(indices, '_v_taken_from', None)
        if h is not None:
            return h(items)
        return _ub.take(items, indices, *a)


class Copy:
    def copy(self, x):
        h = getattr(type(x), '_v_copy', None)
        if h is not None:
            return h(x)
        return _copy.copy(x)

    def deepcopy(self, x, memo=None):
        h = getattr(type(x), '_v_deepcopy', None)
        if h is not None:
            return h(x)
        return _copy.deepcopy(x)

    def __getattr__(self, name):
        return getattr(_copy, name)


class FakeArr:
    """an array about which only the shape is known"""
    def __init__(self, shape):
        self.shape = tuple(shape)

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('array.%s' % name)

    @property
    def ndim(self):
        return len(self.shape)


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def num_channels(x):
    from pyver.arr import SymArr
    if type(x) in (FakeArr, SymArr):
        return x.shape[2] if len(x.shape) > 2 else 1
    import kwimage
    return kwimage.num_channels(x)


def resampled(x, dsize, name):
    """kwimage.imresize / warp_affine with an explicit size: an image of that size, same channels, some content"""
    from pyver.arr import SymArr, given
    e = eng()
    e.used.add('trusted contract: kwimage.imresize and kwimage.warp_affine return an image of the requested size with the same channels and dtype')
    if dsize is None or any(d is None for d in dsize):
        raise Unsupported('automatic output size')
    k = e.fresh_n.get('resampled', 0)
    e.fresh_n['resampled'] = k + 1
    return given('%s#%d' % (name, k), (dsize[1], dsize[0]) + tuple(x.shape[2:]), x.dtype)


def imresize(img, scale=None, dsize=None, max_dim=None, min_dim=None, **k):
    from pyver.arr import SymArr
    if type(img) is not SymArr:
        import kwimage
        return kwimage.imresize(img, scale=scale, dsize=dsize, max_dim=max_dim, min_dim=min_dim, **k)
    if scale is not None or max_dim is not None or min_dim is not None:
        raise Unsupported('imresize by scale')
    e = eng()
    e.check('imresize: neither the image nor the requested size is empty (precondition of kwimage.imresize)',
            sym.AND(*[sym.lift(d) >= 1 for d in tuple(img.shape[:2]) + tuple(dsize or ()) if d is not None]))
    return resampled(img, dsize, 'imresize')


def warp_affine(image, transform, dsize=None, **k):
    from pyver.arr import SymArr
    if type(image) is not SymArr:
        import kwimage
        return kwimage.warp_affine(image, transform, dsize=dsize, **k)
    return resampled(image, dsize, 'warp_affine')


KW.num_channels = staticmethod(num_channels)
KW.imresize = staticmethod(imresize)
KW.warp_affine = staticmethod(warp_affine)
