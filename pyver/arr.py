"""
Arrays as functions from indexes to elements (stand-in for numpy arrays)

An element is a number or NaN; numbers are exact reals.  Shapes are symbolic.  Content of
an array that is given is an uninterpreted function of the index.
"""
import math as _math
import numpy as _np
from pyver import sym, facade
from pyver.sym import SymNum, SymBool, Unsupported, EQ, AND, OR, NOT, smin, smax, lift

A_ARR = ('trusted contract: numpy arrays (elementwise arithmetic and comparison with scalars, astype, clip, basic and integer-list '
         'indexing, masked assignment, concatenate, full) over exact real numbers')

A_INT = 'assumption: numbers converted to or computed as 64-bit integers stay within their range (coordinates, index arrays)'


def app(name, args, isint=False, assume=None):
    """value of an uninterpreted function; equal arguments give the same value"""
    e = sym.eng()
    tab = e.memo.setdefault(('apps', name), [])
    for a, v in tab:
        if all(bool(EQ(x, y)) for x, y in zip(a, args)):
            return v
    v = e.fresh(str(name) + '%d' % len(tab), isint)
    if assume is not None:
        e.assume(assume(v))
    tab.append((args, v))
    return v


def wide(dtype):
    """64-bit integers are treated as mathematical ones"""
    if dtype.kind == 'i' and dtype.itemsize == 8:
        sym.eng().used.add(A_INT)
        return True
    return False


def wrapped(v):
    """an integer outside of the range of its type: some number that depends on the value alone"""
    return El(False, app('wrapped', (v,), True))


class El:
    """one element: NaN or a number"""
    def __init__(self, nan, val):
        self.nan, self.val = nan, val

    def __repr__(self):
        return 'nan' if self.nan is True else '%r%s' % (self.val, '' if self.nan is False else ' or nan')


NANEL = El(True, 0)


def scalar(v):
    """element of a Python / numpy scalar"""
    if isinstance(v, El):
        return v
    if isinstance(v, (SymNum,)):
        return El(False, v)
    if isinstance(v, (bool, _np.bool_, SymBool)):
        return v
    if isinstance(v, (int, _np.integer)):
        return El(False, int(v))
    if isinstance(v, (float, _np.floating)):
        v = float(v)
        if _math.isnan(v):
            return NANEL
        if _math.isinf(v):
            raise Unsupported('infinity')
        from fractions import Fraction
        return El(False, sym.lift(Fraction(v)) if not v.is_integer() else int(v))
    raise Unsupported('scalar %r' % (v,))


def isscalar(v):
    return isinstance(v, (El, SymNum, SymBool, bool, int, float, _np.generic))


def is_inf(v):
    return isinstance(v, (float, _np.floating)) and _math.isinf(v)


def nan_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return OR(a, b)


def truth(v):
    return v if isinstance(v, bool) else bool(v)


def num(x):
    return x.val if not isinstance(x.val, (int, float)) else lift(x.val)


class SymArr:
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, shape, dtype, fn, name='array'):
        self.shape = tuple(shape)
        self.dtype = _np.dtype(dtype)
        self.view_of = None
        self.fn = fn
        self.name = name
        self.written = False

    @property
    def fn(self):
        """the present content; of a view: that of the array it looks at"""
        if self.view_of is None:
            return self._fn
        base, fwd, _ = self.view_of
        bf = base.fn
        return lambda ix: bf(fwd(ix))

    @fn.setter
    def fn(self, new):
        if self.view_of is None:
            self._fn = new
            return
        base, _, inv = self.view_of
        old = base.fn

        def f(ix):
            inside, j = inv(ix)
            return new(j) if truth(inside) else old(ix)
        base.written = True
        base.fn = f

    def looking_at(self, base, fwd, inv):
        self.view_of = (base, fwd, inv)
        return self

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = tuple(a % self.ndim for a in axes) or tuple(reversed(range(self.ndim)))
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        back = [axes.index(a) for a in range(self.ndim)]
        r = SymArr([self.shape[a] for a in axes], self.dtype, None, self.name)
        return r.looking_at(self, lambda ix: tuple(ix[b] for b in back), lambda ix: (True, tuple(ix[a] for a in axes)))

    @property
    def T(self):
        return self.transpose()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n

    def _v_len(self):
        return self.shape[0]

    def at(self, *ix):
        return self.fn(tuple(ix))

    def new(self, fn, shape=None, dtype=None):
        return SymArr(self.shape if shape is None else shape, self.dtype if dtype is None else dtype, fn, self.name)

    def copy(self, *a, **k):
        return self.new(self.fn)

    _v_copy = copy

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    _v_deepcopy = copy

    def view(self, *a):
        if a:
            raise Unsupported('array view')
        return self

    # --- elementwise
    def astype(self, dtype, copy=True, **k):
        sym.eng().used.add(A_ARR)
        d = _np.dtype(dtype)
        if d == self.dtype and not copy:
            return self
        fn = self.fn
        if d.kind == 'f' and self.dtype.kind in 'iuf':
            return self.new(fn, dtype=d)
        if d.kind in 'iu' and self.dtype.kind in 'iuf':
            info = _np.iinfo(d)
            src = self.dtype

            def f(ix):
                el = fn(ix)
                if el.nan is not False and truth(el.nan):
                    return El(False, app('undefined', (), True))
                v = num(el)
                if not v.isint:
                    v = lift(sym.trunc(v))
                inside = AND(v >= int(info.min), v <= int(info.max))
                if src.kind in 'iu' and _np.can_cast(src, d) or wide(d) or truth(inside):
                    return El(False, v)
                return wrapped(v)
            return self.new(f, dtype=d)
        if d.kind == 'b' or self.dtype.kind == 'b':
            raise Unsupported('astype %s' % d)
        raise Unsupported('astype %s' % d)

    def _res_dtype(self, o, op):
        if op == '/' and self.dtype.kind in 'iu':
            base = _np.dtype('float64')
        else:
            base = self.dtype
        if isinstance(o, SymArr):
            return _np.result_type(base, o.dtype)
        if isinstance(o, _np.generic):
            return _np.result_type(base, o.dtype)
        real = isinstance(o, float) or isinstance(o, SymNum) and not o.isint
        if base.kind in 'iu' and real:
            return _np.dtype('float64')
        return base

    def _bin(self, o, fn, op, swap=False):
        sym.eng().used.add(A_ARR)
        if self.dtype.kind == 'b' or not (isscalar(o) or isinstance(o, SymArr)):
            raise Unsupported('array %s %r' % (op, type(o)))
        mine = self.fn
        dt = self._res_dtype(o, op)
        if isinstance(o, SymArr):
            other, shape = broadcast(self, o)
            mine, _ = broadcast(o, self)
        else:
            if is_inf(o):
                raise Unsupported('infinity')
            s = scalar(o)
            other, shape = (lambda ix: s), self.shape

        def f(ix):
            a, b = mine(ix), other(ix)
            if swap:
                a, b = b, a
            nan = nan_or(a.nan, b.nan)
            if nan is True:
                return NANEL
            return El(nan, fn(num(a), num(b)))
        r = SymArr(shape, dt, f, self.name)
        if dt.kind in 'iu':
            r = r.checked()
        return r

    def checked(self):
        """integer results wrap around: outside the range of the dtype the value is unknown"""
        info = _np.iinfo(self.dtype)
        if wide(self.dtype):
            return self
        fn = self.fn

        def f(ix):
            el = fn(ix)
            v = num(el)
            if truth(AND(v >= int(info.min), v <= int(info.max))):
                return el
            return wrapped(v)
        return self.new(f)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, '+')

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, '-')

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, '*')

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, '/')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, '+', True)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, '-', True)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, '*', True)

    def __neg__(self):
        return 0 - self

    def _inplace(self, r):
        if r.dtype.kind == 'f' and self.dtype.kind in 'iu':
            raise Unsupported('cast in an in-place operation')
        self.written = True
        self.fn = r.fn
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def clip(self, min=None, max=None, out=None, **k):
        lo, hi = min, max
        sym.eng().used.add(A_ARR)
        fn = self.fn

        def f(ix):
            el = fn(ix)
            if el.nan is True:
                return el
            v = num(el)
            if lo is not None:
                v = smax(v, scalar(lo).val)
            if hi is not None:
                v = smin(v, scalar(hi).val)
            return El(el.nan, v)
        dt = self.dtype
        for o in (lo, hi):
            if o is not None:
                dt = _np.result_type(dt, self._res_dtype(o, '+')) if dt.kind in 'iu' else dt
        r = self.new(f, dtype=dt)
        if out is not None:
            out._inplace(r)
            return out
        return r

    def _cmp(self, o, fn, onnan=False):
        sym.eng().used.add(A_ARR)
        mine = self.fn
        if is_inf(o):
            return self.new(lambda ix: True if onnan and truth(mine(ix).nan) else bool(fn(0.0, float(o))), dtype=bool)
        if isinstance(o, SymArr):
            other, shape = broadcast(self, o)
            mine, _ = broadcast(o, self)
        elif isscalar(o):
            s = scalar(o)
            other, shape = (lambda ix: s), self.shape
        else:
            raise Unsupported('comparison of an array')

        def f(ix):
            a, b = mine(ix), other(ix)
            if truth(a.nan) or truth(b.nan):
                return onnan
            return fn(num(a), num(b))
        return SymArr(shape, bool, f, self.name)

    def __eq__(self, o):
        if self.dtype.kind == 'b':
            raise Unsupported('comparison of masks')
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None

    def __and__(self, o):
        return self._logic(o, AND)

    def __or__(self, o):
        return self._logic(o, OR)

    __iand__ = __and__
    __ior__ = __or__

    def __invert__(self):
        fn = self._mask()
        return self.new(lambda ix: not_(fn(ix)))

    def _mask(self):
        if self.dtype.kind != 'b':
            raise Unsupported('bitwise operation')
        return self.fn

    def _logic(self, o, op):
        self._mask(), o._mask()
        g, shape = broadcast(self, o)
        f, _ = broadcast(o, self)
        return SymArr(shape, bool, lambda ix: op(f(ix), g(ix)), self.name)

    def __bool__(self):
        raise Unsupported('truth of an array')

    def some(self, value):
        """is some element of a mask equal to value?  either branch, with what it says about the elements"""
        e = sym.eng()
        fn = self._mask()
        if e.choose([True, False], 'some element of the mask is %s' % value):
            ix = []
            for s in self.shape:
                i = e.nat('there')
                e.require(lift(i) < s)
                ix.append(i)
            v = fn(tuple(ix))
            e.require(v if value else not_(v))
            return True

        def f(ix):
            v = fn(ix)
            e.require(not_(v) if value else v)
            return not value
        self.fn = f
        return False

    def any(self, *a, **k):
        if a or k:
            raise Unsupported('any')
        return self.some(True)

    def all(self, *a, **k):
        if a or k:
            raise Unsupported('all')
        return not self.some(False)

    def mean(self, *a, **k):
        e = sym.eng()
        if a or k or self.dtype.kind != 'b':
            raise Unsupported('mean')
        v = e.fresh('mean')
        e.assume(AND(v >= 0, v <= 1))
        return v

    def gather(self, key):
        """a[i, j] with index arrays that broadcast against each other"""
        e = sym.eng()
        if len(key) > self.ndim or not all(isinstance(k, SymArr) and k.dtype.kind in 'iu' for k in key):
            raise Unsupported('index arrays')
        shape = key[0]
        for k in key[1:]:
            shape = SymArr(broadcast(shape, k)[1], int, None)
        fns = [broadcast(shape, k)[0] for k in key]
        shape = shape.shape
        ix = []
        for s in shape:
            i = e.nat('entry')
            ix.append(i)
        inside = AND(*[lift(i) < s for i, s in zip(ix, shape)])
        if e.choose([True, False], 'index in range') and truth(inside):
            for k, (g, dim) in enumerate(zip(fns, self.shape)):
                v = num(g(tuple(ix)))
                e.check('index array: every index lies within the array', AND(v >= -lift(dim), v < dim))
            raise sym.PathEnd
        nd = len(shape)
        fn = self.fn

        def f(at):
            out = []
            for g, dim in zip(fns, self.shape):
                v = num(g(tuple(at[:nd])))
                out.append(v + dim if truth(v < 0) else v)
            return fn(tuple(out) + tuple(at[nd:]))
        return SymArr(shape + self.shape[len(key):], self.dtype, f, self.name)

    # --- indexing
    def __getitem__(self, key):
        sym.eng().used.add(A_ARR)
        if isinstance(key, SymArr) and key.dtype.kind == 'b':
            return Selected(self, key)
        if isinstance(key, tuple) and key and isinstance(key[0], SymArr) and key[0].dtype.kind == 'b' and all(k == slice(None) or k is Ellipsis for k in key[1:]):
            return Selected(self, key[0])
        if isinstance(key, SymArr) or isinstance(key, tuple) and any(isinstance(k, SymArr) for k in key):
            return self.gather(key if isinstance(key, tuple) else (key,))
        key = list(key) if isinstance(key, tuple) else [key]
        n = sum(k is not None and k is not Ellipsis for k in key)
        if n > self.ndim:
            raise IndexError('too many indices for array')
        fill = [slice(None)] * (self.ndim - n)
        for i, k in enumerate(key):
            if k is Ellipsis:
                key[i:i + 1] = fill
                break
        else:
            key += fill
        if sum(isinstance(k, (list, _np.ndarray)) or hasattr(k, 'parts') for k in key) > 1:
            raise Unsupported('several index lists')
        from pyver.viewc import pyslice
        shape, maps, axis, drop = [], [], 0, []
        haslist = any(isinstance(k, (list, _np.ndarray)) or hasattr(k, 'parts') for k in key)
        for k in key:
            if k is None:
                shape.append(1)
                maps.append(None)
                continue
            dim = self.shape[axis]
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('strided slice')
                s, m = pyslice(k.start, k.stop, lift(dim))
                shape.append(m)
                maps.append(lambda i, s=s: i + s)
            elif hasattr(k, 'parts'):
                shape.append(k.n)
                maps.append(lambda i, k=k, dim=dim: seq_at(k, i, dim))
            elif isinstance(k, (list, _np.ndarray)):
                ks = list(k)
                for v in ks:
                    if not isinstance(v, (int, _np.integer, SymNum)):
                        raise Unsupported('index list')
                shape.append(len(ks))
                maps.append(lambda i, ks=ks, dim=dim: list_at(ks, i, dim))
            elif isinstance(k, (int, _np.integer, SymNum)):
                if haslist:
                    raise Unsupported('integer beside an index list')
                kk = list_at([k], 0, dim)
                maps.append(('drop', kk))
            else:
                raise Unsupported('index %r' % (k,))
            axis += 1
        fn = self.fn

        def f(ix):
            out = []
            j = 0
            for m in maps:
                if m is None:
                    j += 1
                elif type(m) is tuple:
                    out.append(m[1])
                else:
                    out.append(m(ix[j]))
                    j += 1
            return tuple(out)
        if haslist:
            return SymArr(shape, self.dtype, lambda ix: fn(f(ix)), self.name)

        def inv(ix):
            inside, j, a, n = True, [], 0, 0
            for m in maps:
                if m is None:
                    j.append(0)
                    n += 1
                elif type(m) is tuple:
                    inside = AND(inside, EQ(ix[a], m[1]))
                    a += 1
                else:
                    k = ix[a] - m(0)
                    inside = AND(inside, lift(k) >= 0, lift(k) < shape[n])
                    j.append(k)
                    a += 1
                    n += 1
            return inside, tuple(j)
        return SymArr(shape, self.dtype, None, self.name).looking_at(self, f, inv)

    def __setitem__(self, key, value):
        sym.eng().used.add(A_ARR)
        self.written = True
        old = self.fn
        if isinstance(key, tuple) and len(key) and isinstance(key[0], SymArr) and all(k == slice(None) or k is Ellipsis for k in key[1:]):
            mask = key[0]._mask()
            nd = key[0].ndim
            m = lambda ix: mask(ix[:nd])                # noqa
        elif isinstance(key, SymArr):
            mask = key._mask()
            nd = key.ndim
            m = lambda ix: mask(ix[:nd])                # noqa
        elif key is Ellipsis or key == slice(None):
            m = lambda ix: True                         # noqa
        else:
            raise Unsupported('assignment to part of an array')
        if isscalar(value):
            s = scalar(value)
            v = lambda ix: s                            # noqa
        elif isinstance(value, SymArr) and (key is Ellipsis or isinstance(key, slice)):
            v, _ = broadcast(self, value)
        elif isinstance(value, Selected) and value.mask is (key[0] if isinstance(key, tuple) else key) and self.selectable(value.arr):
            v = value.arr.fn
            if self.dtype != value.arr.dtype:
                raise Unsupported('assignment of another dtype')
        else:
            raise Unsupported('assignment of an array')
        kind = self.dtype.kind

        def f(ix):
            if truth(m(ix)):
                x = v(ix)
                if kind in 'iu' and (x.nan is not False or not lift(x.val).isint):
                    raise Unsupported('assignment to an integer array')
                return x
            return old(ix)
        self.fn = f

    def selectable(self, o):
        return self.ndim == o.ndim and all(truth(EQ(a, b)) for a, b in zip(self.shape, o.shape))

    def __array__(self, *a, **k):
        raise Unsupported('conversion of an array')

    def __iter__(self):
        raise Unsupported('iteration over an array')

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        if hasattr(_np.ndarray, name):
            raise Unsupported('array.%s' % name)
        raise AttributeError(name)

    @staticmethod
    def _v_isinstance(x, c):
        return c in (_np.ndarray, object, SymArr)

    def __repr__(self):
        return 'array %s %s' % (self.name, self.shape)


class Selected:
    """the elements of an array chosen by a mask"""
    def __init__(self, arr, mask):
        nd = mask.ndim
        if nd > arr.ndim:
            raise IndexError('too many indices for array')
        for a, b in zip(arr.shape, mask.shape):
            if not truth(EQ(a, b)):
                raise IndexError('boolean index did not match indexed array')
        self.arr, self.mask = arr, mask

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise Unsupported('selected elements: %s' % name)


class Distinct:
    def __init__(self, size):
        self.size = size


def not_(v):
    return NOT(v) if isinstance(v, SymBool) else not v


def seq_at(k, i, dim):
    """i-th entry of an opaque list of channel indexes into an axis of length dim"""
    return app(('index',) + tuple(k.parts), (i,), True, lambda v: AND(v >= 0, v < dim))


def list_at(ks, i, dim):
    if isinstance(i, SymNum):
        j = 0
        while j < len(ks) - 1 and not truth(EQ(i, j)):
            j += 1
        i = j
    v = ks[i]
    if isinstance(v, SymNum):
        return v + dim if truth(v < 0) else v
    return v + dim if v < 0 else v


def broadcast(a, b):
    """content of b as a function of the index of a's (broadcast) shape"""
    nd = max(a.ndim, b.ndim)
    sa = (1,) * (nd - a.ndim) + a.shape
    sb = (1,) * (nd - b.ndim) + b.shape
    shape, one = [], []
    for x, y in zip(sa, sb):
        if isinstance(y, int) and y == 1:
            shape.append(x)
            one.append(True)
        elif isinstance(x, int) and x == 1:
            shape.append(y)
            one.append(False)
        else:
            if not truth(EQ(x, y)):
                raise Unsupported('shapes that may not broadcast')
            shape.append(x)
            one.append(False)
    off = nd - b.ndim
    fn = b.fn
    return (lambda ix: fn(tuple(0 if one[i] else ix[i] for i in range(off, nd)))), tuple(shape)


def given(name, shape, dtype, bounded=False):
    """an array with arbitrary content"""
    dtype = _np.dtype(dtype)

    def fn(ix):
        isint = dtype.kind in 'iu'
        lim = None
        if isint:
            info = _np.iinfo(dtype)
            lim = lambda v: AND(v >= int(info.min), v <= int(info.max))     # noqa
        elif bounded:
            top = int(_np.finfo(dtype).max)
            lim = lambda v: AND(v >= -top, v <= top)     # noqa
        v = app(('px', name), ix, isint, lim)
        if isint:
            return El(False, v)
        return El(EQ(app(('isnan', name), ix, True, lambda v: AND(v >= 0, v <= 1)), 1), v)
    return SymArr(shape, dtype, fn, name)


class ArrNP(facade.NP):
    """numpy with arrays of this module"""
    def asarray(self, x, dtype=None, *a, **k):
        if isinstance(x, MArr):
            x = x.data
        if isinstance(x, SymArr):
            return x if dtype is None else x.astype(dtype, copy=False)
        return facade.NP.asarray(self, x, *(() if dtype is None else (dtype,)), *a, **k)
    ascontiguousarray = asarray

    def asanyarray(self, x, dtype=None, *a, **k):
        return x if isinstance(x, MArr) and dtype is None else self.asarray(x, dtype, *a, **k)

    def array(self, x, dtype=None, *a, **k):
        if isinstance(x, SymArr):
            return x.astype(x.dtype if dtype is None else dtype)
        return facade.NP.array(self, x, *(() if dtype is None else (dtype,)), *a, **k)

    def isnan(self, x, *a, **k):
        if isinstance(x, SymArr):
            fn = x.fn
            return x.new(lambda ix: fn(ix).nan, dtype=bool)
        return facade.NP.isnan(self, x)

    def isfinite(self, x):
        if isinstance(x, SymArr):
            fn = x.fn
            return x.new(lambda ix: not_(fn(ix).nan), dtype=bool)
        return facade.NP.isfinite(self, x)

    def floor(self, x):
        if isinstance(x, SymArr):
            fn = x.fn

            def f(ix):
                el = fn(ix)
                return el if el.nan is True else El(el.nan, lift(sym.floor(num(el))))
            return x.new(f)
        return facade.NP.floor(self, x)

    def arange(self, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], SymNum):
            return SymArr((smax(a[0], 0),), int, lambda ix: El(False, lift(ix[0])), 'arange')
        return _np.arange(*a, **k)

    def unique(self, x, **k):
        if isinstance(x, (SymArr, Selected)) and not k:
            return Distinct(sym.eng().nat('distinct'))
        return _np.unique(x, **k)

    def clip(self, x, lo, hi, out=None, **k):
        if isinstance(x, SymArr):
            return x.clip(lo, hi, out=out)
        return facade.NP.clip(self, x, lo, hi, out=out, **k)

    def logical_and(self, a, b):
        return a & b

    def logical_or(self, a, b):
        return a | b

    def logical_not(self, a):
        return ~a

    def subtract(self, a, b):
        return a - b

    def multiply(self, a, b):
        return a * b

    def add(self, a, b):
        return a + b

    def equal(self, a, b, out=None):
        r = a == b
        if out is None:
            return r
        if not (isinstance(out, SymArr) and out.dtype.kind == 'b' and isinstance(r, SymArr)):
            raise Unsupported('output array')
        if len(out.shape) != len(r.shape) or not all(truth(EQ(x, y)) for x, y in zip(out.shape, r.shape)):
            raise ValueError('output array has another shape')
        out.written = True
        out.fn = r.fn
        return out

    def transpose(self, x, axes=None):
        return x.transpose(*(axes or ()))

    def result_type(self, *a):
        return _np.result_type(*[x.dtype if isinstance(x, SymArr) else x for x in a])

    def where(self, m, *ab):
        if not isinstance(m, SymArr):
            return _np.where(m, *ab)
        if len(ab) != 2:
            raise Unsupported('where')
        a, b = ab
        fns, dts = [], []
        for x in (a, b):
            if isinstance(x, SymArr):
                fns.append(broadcast(m, x)[0])
                dts.append(x.dtype)
            else:
                s = scalar(x)
                fns.append(lambda ix, s=s: s)
                if isinstance(x, _np.generic):
                    dts.append(x.dtype)
                elif isinstance(x, float) or isinstance(x, SymNum) and not x.isint:
                    dts.append('real')
        real = 'real' in dts
        dts = [d for d in dts if d != 'real']
        dt = _np.result_type(*dts) if dts else _np.dtype('float64')
        if real and dt.kind in 'iu':
            dt = _np.dtype('float64')
        mf = m._mask()
        return m.new(lambda ix: fns[0](ix) if truth(mf(ix)) else fns[1](ix), dtype=dt)

    def full(self, shape, fill_value, dtype=None, **k):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        if not facade.anysym(list(shape)) and not isinstance(fill_value, SymNum):
            return _np.full(shape, fill_value, dtype=dtype, **k)
        s = scalar(fill_value)
        if dtype is not None and _np.dtype(dtype).kind == 'b':
            s = bool(fill_value)
        if dtype is None:
            dtype = 'int64' if s.nan is False and lift(s.val).isint and not isinstance(fill_value, float) else 'float64'
        return SymArr(shape, dtype, lambda ix: s, 'full')

    def full_like(self, a, fill_value, dtype=None, **k):
        if not isinstance(a, SymArr):
            return _np.full_like(a, fill_value, dtype=dtype, **k)
        return self.full(a.shape, fill_value, dtype=a.dtype if dtype is None else dtype)

    def zeros(self, shape, dtype=float, **k):
        return self.full(shape, 0, dtype=dtype)

    def ones(self, shape, dtype=float, **k):
        return self.full(shape, 1, dtype=dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.full_like(a, 0, dtype)

    def empty(self, shape, dtype=float, **k):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        if not facade.anysym(list(shape)):
            return _np.empty(shape, dtype=dtype)
        e = sym.eng()
        k = e.fresh_n.get('empty', 0)
        e.fresh_n['empty'] = k + 1
        return given('uninitialised%d' % k, shape, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.empty(a.shape, a.dtype if dtype is None else dtype)

    def concatenate(self, arrs, axis=0, **k):
        arrs = list(arrs)
        if any(isinstance(a, MArr) for a in arrs):
            return MArr(self.concatenate([self.asarray(a) for a in arrs], axis, **k), False)      # masks are lost
        if not any(isinstance(a, SymArr) for a in arrs):
            return _np.concatenate(arrs, axis=axis, **k)
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs):
            raise ValueError('all the input array dimensions must match')
        ax = axis % nd
        for a in arrs[1:]:
            for i in range(nd):
                if i != ax and not truth(EQ(a.shape[i], arrs[0].shape[i])):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        shape = list(arrs[0].shape)
        for a in arrs[1:]:
            shape[ax] = shape[ax] + a.shape[ax]

        def fn(ix):
            ix = list(ix)
            for a in arrs[:-1]:
                if truth(sym.lift(ix[ax]) < a.shape[ax]):
                    return a.at(*ix)
                ix[ax] = ix[ax] - a.shape[ax]
            return arrs[-1].at(*ix)
        return SymArr(shape, _np.result_type(*[a.dtype for a in arrs]), fn, 'concatenation')

    def dstack(self, arrs):
        return self.concatenate(arrs, axis=2)

    @property
    def ma(self):
        return MA()

    def broadcast_to(self, x, shape):
        if isinstance(x, SymArr):
            raise Unsupported('broadcast_to')
        return _np.broadcast_to(x, shape)

    def nan_to_num(self, x, *a, **k):
        if isinstance(x, SymArr):
            raise Unsupported('nan_to_num')
        return _np.nan_to_num(x, *a, **k)

    def squeeze(self, x, *a, **k):
        if isinstance(x, SymArr):
            raise Unsupported('squeeze')
        return _np.squeeze(x, *a, **k)

    def shape(self, x):
        return x.shape if isinstance(x, SymArr) else _np.shape(x)

    def ndim(self, x):
        return x.ndim if isinstance(x, SymArr) else _np.ndim(x)


class MArr:
    """masked array: data and mask"""
    def __init__(self, data, mask):
        if mask is False:
            mask = SymArr(data.shape, bool, lambda ix: False, 'mask')
        self.data, self.mask = data, mask
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim

    @property
    def written(self):
        return self.data.written or self.mask.written

    def at(self, *ix):
        """a masked element counts as NaN"""
        el = self.data.at(*ix)
        return El(nan_or(el.nan, self.mask.at(*ix)), el.val)

    def copy(self, *a, **k):
        return MArr(self.data.copy(), self.mask.copy())

    _v_copy = copy

    def __getitem__(self, key):
        if isinstance(key, (SymArr, MArr)) or isinstance(key, tuple) and any(isinstance(k, (SymArr, MArr)) for k in key):
            raise Unsupported('masked array: selected elements')
        return MArr(self.data[key], self.mask[key])

    def _v_len(self):
        return self.shape[0]

    def __array__(self, *a, **k):
        raise Unsupported('conversion of an array')

    def __iter__(self):
        raise Unsupported('iteration over an array')

    @staticmethod
    def _v_isinstance(x, c):
        return c in (_np.ndarray, _np.ma.MaskedArray, object, MArr)

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('masked array.%s' % name)


class MA:
    def __getattr__(self, name):
        return getattr(_np.ma, name)

    def array(self, x, dtype=None, mask=False, **k):
        if isinstance(x, SymArr):
            if isinstance(mask, bool) and not k:
                return MArr(x if dtype is None else x.astype(dtype), SymArr(x.shape, bool, lambda ix: mask, 'mask'))
            if isinstance(mask, SymArr) and mask.ndim == x.ndim and dtype is None and not k:
                return MArr(x, mask)
            raise Unsupported('masked array')
        return _np.ma.array(x, dtype=dtype, mask=mask, **k)

    def concatenate(self, arrs, axis=0):
        arrs = [a if isinstance(a, MArr) else MArr(a, False) for a in arrs]
        np_ = ArrNP()
        return MArr(np_.concatenate([a.data for a in arrs], axis), np_.concatenate([a.mask for a in arrs], axis))

    masked_array = array
