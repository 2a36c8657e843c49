"""Contract targets on the lazy file readers (C13)

The file is arbitrary: sizes, number of overviews, content and no-data values are
symbolic; GDAL, rasterio and spectral are taken by their documented contracts (classes
below, after osgeo.gdal_array / rasterio.DatasetReader.read / SpyFile.read_subregion)."""
import types
import numpy as _np
from pyver import sym, load, replay
from pyver.arr import SymArr, MArr, El, ArrNP, app, truth, num
from pyver.load import Env
from pyver.sym import EQ, AND, OR, NOT, SymNum, lift, smin, smax, Unsupported, Control
from pyver.treec import classify
from pyver.viewc import Fn, pyslice, case

A_GDAL = 'trusted contract: GDAL (bands, overviews, windowed reads, no-data values) as modelled in pyver.lazyc; all bands share one data type, every level of a band reports the same no-data value'
A_RIO = 'trusted contract: rasterio DatasetReader.read(indexes, window) and spectral SpyFile.read_subregion as modelled in pyver.lazyc'
CODES = {'uint8': 1, 'int16': 3, 'float32': 6}


# ------------------------------------------------------------------ slices with symbolic members

class SymSlice:
    def __init__(self, *a):
        a = list(a)
        if len(a) == 1:
            a = [None] + a
        self.start, self.stop, self.step = (a + [None])[:3]

    @staticmethod
    def _v_isinstance(x, c):
        return c in (slice, object)

    def indices(self, n):
        if self.step not in (None, 1):
            raise Unsupported('strided slice')
        n = lift(n)

        def norm(v, dflt):
            if v is None:
                return dflt
            v = lift(v)
            return smax(v + n, 0) if truth(v < 0) else smin(v, n)
        return norm(self.start, lift(0)), norm(self.stop, n), 1

    def __repr__(self):
        return 'slice(%s, %s)' % (self.start, self.stop)


class v_slice(metaclass=load._M):
    real = slice

    def __new__(cls, *a):
        return SymSlice(*a)


def concrete_int(x, hi=12):
    """fork over the small values an integer may have"""
    if not isinstance(x, SymNum):
        return int(x)
    for v in range(-hi, hi + 1):
        if truth(EQ(x, v)):
            return v
    raise Unsupported('an integer without a small bound')


def sym_range(*a):
    return range(*[concrete_int(x) for x in a])


# ------------------------------------------------------------------ GDAL

class Image:
    """an arbitrary file"""
    def __init__(self, e, bands, dtype, levels=True, nodata=True):
        self.e, self.C, self.dtype = e, bands, _np.dtype(dtype)
        self.K = e.nat('overviews') if levels else lift(0)
        self.nod = {}
        self.nodata = nodata
        self.flaky = False
        self.interleave = 'BAND' if bands == 3 else 'PIXEL'

    def size(self, level):
        return tuple(app((k,), (lift(level),), True, lambda v: v >= 1) for k in ('H', 'W'))

    def pixel(self, level, band, y, x):
        at = (lift(level), lift(band), lift(y), lift(x))
        if self.dtype.kind == 'f':
            return El(EQ(app(('isnan',), at, True, lambda v: AND(v >= 0, v <= 1)), 1), app(('px',), at))
        info = _np.iinfo(self.dtype)
        return El(False, app(('px',), at, True, lambda v: AND(v >= int(info.min), v <= int(info.max))))

    def nodata_of(self, band):
        band = concrete_int(band)
        if band not in self.nod:
            none = not self.nodata or self.e.choose([False, True], 'band %d has no no-data value' % band)
            self.nod[band] = None if none else SymNum(app(('nodata',), (lift(band),)).r, False)
        return self.nod[band]


def refuse(what):
    """what GDAL does with a wrong request depends on its global settings"""
    if sym.eng().choose([True, False], 'GDAL raises exceptions'):
        raise RuntimeError(what)
    return None


def inside(xoff, yoff, nx, ny, size):
    H, W = size
    return truth(AND(lift(xoff) >= 0, lift(yoff) >= 0, lift(nx) >= 0, lift(ny) >= 0, lift(xoff) + nx <= W, lift(yoff) + ny <= H))


class Opaque:
    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('{}.{}'.format(type(self).__name__, name))


class Band(Opaque):
    def __init__(self, im, level, number):
        self.im, self.level, self.number = im, level, number       # number from 0

    @property
    def XSize(self):
        return self.im.size(self.level)[1]

    @property
    def YSize(self):
        return self.im.size(self.level)[0]

    @property
    def DataType(self):
        return CODES[self.im.dtype.name]

    def GetOverviewCount(self):
        if self.level is not BASE:
            raise Unsupported('overviews of an overview')
        return self.im.K

    def GetOverview(self, i):
        if self.level is not BASE:
            raise Unsupported('overviews of an overview')
        if truth(AND(lift(i) >= 0, lift(i) < self.im.K)):
            return Band(self.im, lift(i) + 1, self.number)
        return None

    def GetNoDataValue(self):
        return self.im.nodata_of(self.number)

    def GetColorTable(self):
        return None

    GetRasterColorTable = GetColorTable

    def GetDataset(self):
        if sym.eng().choose([True, False], 'the overview has a dataset'):
            return Ds(self.im, self.level)
        return None

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_xsize=None, buf_ysize=None, buf_type=None, buf_obj=None, **k):
        if k or any(x is not None for x in (buf_xsize, buf_ysize, buf_type)):
            raise Unsupported('resampled read')
        nx = self.XSize if win_xsize is None else win_xsize
        ny = self.YSize if win_ysize is None else win_ysize
        if not inside(xoff, yoff, nx, ny, self.im.size(self.level)):
            return refuse('window outside of the image')
        fn = lambda ix: self.im.pixel(self.level, self.number, ix[0] + yoff, ix[1] + xoff)     # noqa
        if buf_obj is None:
            return SymArr((ny, nx), self.im.dtype, fn, 'read')
        if buf_obj.ndim == 3:
            raise Unsupported('band read into three dimensions')
        fill(buf_obj, (ny, nx), self.im.dtype, fn)
        return buf_obj


def fill(buf, shape, dtype, fn):
    if buf.ndim != len(shape):
        raise ValueError('expected array of other dimension')
    if not all(truth(EQ(a, b)) for a, b in zip(buf.shape, shape)) or buf.dtype != dtype:
        raise Unsupported('resampled or converted read')
    buf.written = True
    buf.fn = fn


BASE = 0


class Ds(Opaque):
    def __init__(self, im, level):
        self.im, self.level = im, level

    @property
    def RasterCount(self):
        return self.im.C

    @property
    def RasterXSize(self):
        return self.im.size(self.level)[1]

    @property
    def RasterYSize(self):
        return self.im.size(self.level)[0]

    def GetSubDatasets(self):
        return []

    def GetDescription(self):
        return 'file'

    def GetMetadata(self, domain=''):
        return {'INTERLEAVE': self.im.interleave} if domain == 'IMAGE_STRUCTURE' else {}

    def GetRasterBand(self, i):
        i = concrete_int(i)
        return Band(self.im, self.level, i - 1) if 1 <= i <= self.im.C else refuse('illegal band')

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None, buf_obj=None, buf_xsize=None, buf_ysize=None, buf_type=None,
                    interleave='band', band_list=None, **k):
        if k or any(x is not None for x in (buf_xsize, buf_ysize, buf_type)):
            raise Unsupported('resampled read')
        if interleave not in ('band', 'pixel'):
            raise ValueError('Interleave should be band or pixel')
        nx = self.RasterXSize if xsize is None else xsize
        ny = self.RasterYSize if ysize is None else ysize
        bands = list(range(1, self.im.C + 1)) if band_list is None else [concrete_int(b) for b in band_list]
        if not bands:
            return None
        if self.im.flaky or not all(1 <= b <= self.im.C for b in bands) or not inside(xoff, yoff, nx, ny, self.im.size(self.level)):
            return refuse('read failed')
        if len(bands) == 1:
            return Band(self.im, self.level, bands[0] - 1).ReadAsArray(xoff, yoff, nx, ny, buf_obj=buf_obj)
        n = len(bands)
        pos = 0 if interleave == 'band' else 2

        def fn(ix):
            ix = list(ix)
            k = ix.pop(pos)
            b = bands[k] if isinstance(k, int) else bands[[j for j in range(n) if truth(EQ(k, j))][0]]
            return self.im.pixel(self.level, b - 1, ix[0] + yoff, ix[1] + xoff)
        shape = (n, ny, nx) if pos == 0 else (ny, nx, n)
        if buf_obj is None:
            return SymArr(shape, self.im.dtype, fn, 'read')
        fill(buf_obj, shape, self.im.dtype, fn)
        return buf_obj


class Rio(Opaque):
    def __init__(self, im):
        self.im = im
        self.height, self.width = im.size(BASE)
        self.count = im.C
        self.dtypes = (im.dtype.name,) * im.C
        self.shape = self.height, self.width
        self.indexes = tuple(range(1, im.C + 1))

    def read(self, indexes=None, window=None, **k):
        if k or window is None:
            raise Unsupported('read with other options')
        indexes = self.indexes if indexes is None else indexes
        one = isinstance(indexes, (int, SymNum))
        bands = [concrete_int(b) for b in ([indexes] if one else indexes)]
        if not bands:
            raise ValueError('No indexes to read')
        if any(not 1 <= b <= self.im.C for b in bands):
            raise IndexError('band index out of range')
        (y0, y1), (x0, x1) = window
        if not inside(x0, y0, lift(x1) - x0, lift(y1) - y0, (self.height, self.width)):
            raise Unsupported('window outside of the image')
        fn = lambda ix: self.im.pixel(BASE, bands[concrete_int(ix[0])] - 1, ix[1] + y0, ix[2] + x0)      # noqa
        r = SymArr((len(bands), lift(y1) - y0, lift(x1) - x0), self.im.dtype, fn, 'read')
        return r[0] if one else r


class Spy(Opaque):
    def __init__(self, im):
        self.im = im
        self.shape = im.size(BASE) + (im.C,)
        self.dtype = im.dtype

    def read_subregion(self, row_bounds, col_bounds, bands=None, use_memmap=True):
        bands = list(range(self.im.C)) if bands is None else [concrete_int(b) for b in bands]
        if any(not 0 <= b < self.im.C for b in bands):
            raise Unsupported('band out of range')
        (y0, y1), (x0, x1) = row_bounds, col_bounds
        if not inside(x0, y0, lift(x1) - x0, lift(y1) - y0, self.shape[:2]):
            raise Unsupported('window outside of the image')
        fn = lambda ix: self.im.pixel(BASE, bands[concrete_int(ix[2])], ix[0] + y0, ix[1] + x0)      # noqa
        return SymArr((lift(y1) - y0, lift(x1) - x0, len(bands)), self.im.dtype, fn, 'read')


class SymNP(ArrNP):
    """every new array is symbolic"""
    def empty(self, shape, dtype=float, **k):
        return ArrNP.empty(self, tuple(lift(s) for s in shape), dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        return ArrNP.full(self, tuple(lift(s) for s in shape), fill_value, dtype)


class World:
    def __init__(self, repo):
        osgeo = types.ModuleType('osgeo')
        gdal = types.ModuleType('osgeo.gdal')
        gdal.GA_ReadOnly = 0
        gdal.UseExceptions = lambda: None
        gdal.Open = lambda path, mode=0: Ds(self.image, BASE)
        gdal.OpenEx = gdal.Open
        osgeo.gdal = gdal
        rio = types.ModuleType('rasterio')
        rio.open = lambda path, mode='r', **k: Rio(self.image)
        spy = types.ModuleType('spectral')
        spy.envi = types.ModuleType('spectral.envi')
        spy.envi.open = lambda path, *a: Spy(self.image)
        self.env = Env(repo, {'numpy': SymNP(), 'osgeo': osgeo, 'osgeo.gdal': gdal, 'rasterio': rio, 'spectral': spy})
        self.env.builtins['slice'] = v_slice
        self.mod = self.env.module('delayed_image.lazy_loaders')
        self.image = None
        self.fast = self.mod.GDAL_FAST_PATH

    def reset(self):
        self.image = None
        self.mod.GDAL_FAST_PATH = self.fast
        load.RANGE_HOOK[0] = sym_range

    def install_contracts(self):
        pass


# ------------------------------------------------------------------ what is read

FILE = __file__


class Sel:
    """an index of one axis and its meaning for an axis of length n (Python's definition)"""
    def __init__(self, e, kind, name):
        self.kind = kind
        self.e = e
        if kind == 'slice':
            self.a, self.b = e.fresh(name + '0', True), e.fresh(name + '1', True)
        elif kind == 'from':
            self.a, self.b = e.fresh(name + '0', True), None
        elif kind == 'to':
            self.a, self.b = None, e.fresh(name + '1', True)
        elif kind == 'full':
            self.a = self.b = None
        elif kind == 'int':
            self.i = e.fresh(name, True)
        elif type(kind) is int:                 # list of that many
            self.ix = [e.fresh('%s_%d' % (name, i), True) for i in range(kind)]

    def arg(self):
        if self.kind == 'int':
            return self.i
        if type(self.kind) is int:
            return list(self.ix)
        return SymSlice(self.a, self.b)

    def window(self, n):
        """first element and number"""
        n = lift(n)
        if self.kind == 'int':
            self.e.require(AND(self.i >= -n, self.i < n))
            return (self.i + n if truth(self.i < 0) else self.i), lift(1)
        return pyslice(self.a, self.b, n)

    def bands(self, n):
        if type(self.kind) is int:
            out = []
            for i in self.ix:
                self.e.require(AND(i >= -n, i < n))
                out.append(concrete_int(i + n if truth(i < 0) else i))
            return out
        s, m = self.window(n)
        s = concrete_int(s)
        return list(range(s, s + concrete_int(m)))

    def json(self, c):
        if self.kind == 'int':
            return ['i', c(self.i)]
        if type(self.kind) is int:
            return ['l', [c(i) for i in self.ix]]
        return ['s', None if self.a is None else c(self.a), None if self.b is None else c(self.b)]


FORMS = {           # how the parts are written; y, x, b stand for the parts
    'yxb': 'y x b', 'y': 'y', 'yx': 'y x', 'e': '...', 'ye': 'y ...', 'eb': '... b', 'yeb': 'y ... b', 'yxe': 'y x ...',
    'exb': '... x b', 'yxeb': 'y x ... b', 'eyxb': '... y x b', 'one': 'y alone', 'ealone': '... alone'}


def build(form, parts):
    """the index expression"""
    out = []
    names = FORMS[form].replace(' alone', '').split()
    for p in names:
        out.append(Ellipsis if p == '...' else parts[p].arg())
    return (out[0] if 'alone' in FORMS[form] else tuple(out)), [['e'] if p == '...' else p for p in names]


def check_read(e, tag, got, im, level, y, x, bands, method):
    (y0, ny), (x0, nx) = y, x
    mask = None
    if method == 'ma' and not (isinstance(got, SymArr) and not bands):
        if type(got) is not MArr:
            e.fail(tag + 'a masked array', repr(got)) if isinstance(got, SymArr) else e.undecided(tag + 'a masked array', repr(got))
            return
        got, mask = got.data, got.mask
        if mask.shape != got.shape:
            for a, b in zip(mask.shape, got.shape):
                e.check(tag + 'shape of the mask', EQ(a, b))
    if type(got) is _np.ndarray and got.size == 0:
        e.check(tag + 'shape of the read', AND(*[EQ(a, b) for a, b in zip(got.shape, (ny, nx, len(bands)))]))
        return
    if not isinstance(got, SymArr):
        e.undecided(tag + 'returns an array', repr(got))
        return
    want = (ny, nx, len(bands))
    if len(bands) == 1 and got.ndim == 2:
        want = want[:2]
    if got.ndim != len(want):
        e.fail(tag + 'shape of the read', '%s instead of %s' % (got.shape, want))
        return
    for a, b in zip(got.shape, want):
        e.check(tag + 'shape of the read', EQ(a, b), note='%s instead of %s' % (got.shape, want))
    if not bands:
        return
    if method is None or method == 'ma':
        e.check(tag + 'data type', got.dtype == im.dtype)
    else:
        e.check(tag + 'data type', got.dtype == _np.result_type(im.dtype, _np.float32))
    i, j = e.nat('at_y'), e.nat('at_x')
    e.require(AND(i < ny, j < nx))
    for k, b in enumerate(bands):
        ix = (i, j, k)[:got.ndim]
        px = im.pixel(level, b, y0 + i, x0 + j)
        el = got.at(*ix)
        nod = im.nodata_of(b) if method is not None else None
        marked = False
        if nod is not None and not truth(px.nan):
            marked = EQ(num(px), nod)
        if mask is not None:
            m = mask.at(*ix)
            e.check(tag + 'the mask marks the no-data pixels of the band', EQ_B(m, marked), note='mask %r' % (m,))
            same_px(e, tag, el, px)
            continue
        if method is not None and truth(marked):
            e.cover('no-data pixel')
            e.check(tag + 'no-data pixels become NaN', isnan(el))
            continue
        same_px(e, tag, el, px)


def isnan(el):
    return el.nan if isinstance(el.nan, bool) else el.nan


def EQ_B(a, b):
    return OR(AND(a, b), AND(NOT_(a), NOT_(b)))


def NOT_(a):
    return (not a) if isinstance(a, bool) else NOT(a)


def same_px(e, tag, el, px):
    if truth(px.nan):
        e.check(tag + 'values of the window', isnan(el))
        return
    e.check(tag + 'values of the window', NOT_(el.nan), note='NaN')
    if el.nan is not True:
        e.check(tag + 'values of the window', EQ(num(el), num(px)))


def read(name, form, ykinds, xkinds, bkinds, bands, methods, fasts=(True, False), dtypes=('int16',), levels=True, flaky=(False,),
         cls='LazyGDalFrameFile', route='new'):
    def body(e, w, tag):
        e.used.add(A_GDAL if 'GDal' in cls else A_RIO)
        C = e.choose(list(bands), 'bands')
        dt = e.choose(list(dtypes), 'data type')
        method = e.choose(list(methods), 'no-data method')
        im = w.image = Image(e, C, dt, levels=levels, nodata=method is not None)
        im.flaky = e.choose(list(flaky), 'dataset reads fail')
        w.mod.GDAL_FAST_PATH = e.choose(list(fasts), 'fast path')
        parts = {'y': Sel(e, e.choose(list(ykinds), 'rows') if 'y' in form else 'full', 'y'),
                 'x': Sel(e, e.choose(list(xkinds), 'columns') if 'x' in form else 'full', 'x'),
                 'b': Sel(e, e.choose(list(bkinds), 'bands selected') if 'b' in form else 'full', 'b')}
        if form in ('e', 'ealone'):
            parts = {k: Sel(e, 'full', k) for k in 'yxb'}
        kls = getattr(w.mod, cls)
        lv = []
        L = lift(0)
        if levels:
            L = e.nat('level')
            e.require(L <= im.K)
            if route == 'steps':
                L1 = e.nat('first')
                e.require(L1 <= L)
                lv = [L1, L - L1]
            elif route == 'overview':
                lv = [L]
        ixarg, names = build(form, parts)
        e.on_refuted = cases(e, w, form, names, parts, C, dt, method, lv or [L], cls, im)
        try:
            if 'GDal' not in cls:
                f = kls(FILE)
            elif route == 'new':
                f = kls(FILE, nodata_method=method, overview=L) if levels else kls(FILE, nodata_method=method)
            else:
                f = kls(FILE, nodata_method=method)
                at = lift(0)
                for n in lv:
                    if e.choose([False, True], 'used before'):
                        f.shape, f.num_overviews, f[SymSlice(0, 1)]
                    e.check(tag + 'remaining overviews', EQ(f.num_overviews, im.K - at))
                    f = f.get_overview(n)
                    at = at + n
                e.check(tag + 'remaining overviews', EQ(f.num_overviews, im.K - at))
            size = im.size(L)
            shp = f.shape
            e.check(tag + 'shape of the file', AND(len(shp) == 3, EQ(shp[0], size[0]), EQ(shp[1], size[1]), EQ(shp[2], C)), note=str(shp))
            win = parts['y'].window(size[0]), parts['x'].window(size[1])
            sel = parts['b'].bands(C)
            got = f[ixarg]
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        check_read(e, tag, got, im, L, win[0], win[1], sel, 'float' if method == 'auto' else method)
    funcs = ['lazy_loaders.{}.__getitem__'.format(cls), 'lazy_loaders.{}.shape'.format(cls), 'lazy_loaders._rectify_slice_dim']
    if 'GDal' in cls:
        funcs += ['lazy_loaders.LazyGDalFrameFile.' + k for k in ('get_overview', 'get_absolute_overview', '_compat_gdal_read', '_dataset_read_as_array')]
        funcs += ['lazy_loaders._gdal_read_kwimage_compatible']
    t = Fn(name, body, funcs)
    t.world = World
    return t


def cases(e, w, form, names, parts, C, dt, method, lv, cls, im):
    def go(model):
        if model is None:
            return []
        con = replay.Concrete(e, w, model)
        c = lambda v: int(con.val(lift(v)))     # noqa
        ix = [p if type(p) is list else parts[p].json(c) for p in names]
        lvs = [c(v) for v in lv]
        out = []
        for nod in [5] + [None] * (method is None):
            for k, (wd, h) in enumerate([(37, 23), (9, 40), (5, 5)]):
                out.append({'w': wd, 'h': h, 'c': C, 'nov': max([3] + [sum(lvs)]) if sum(lvs) <= 5 else 3,
                            'nod': [nod] * C, 'm': method, 'fast': bool(w.mod.GDAL_FAST_PATH), 'lv': lvs if sum(lvs) and sum(lvs) <= 5 else [],
                            'ix': ix, 'dt': dt})
        if method is not None:
            for nod in ([5, None, 7], [None, 3, 4], [2, 6, None]):
                out.append(dict(out[0], nod=nod[:C], lv=[], nov=3))
        if 'GDal' not in cls:
            out = [dict(o, cls='rio' if 'Raster' in cls else 'spy', nov=0, lv=[], nod=[None] * C, m=None) for o in out]
        return out
    return go


def rectify(kind):
    def body(e, w, tag):
        fn = getattr(w.mod, '_rectify_slice_dim', None)
        if fn is None:
            return
        n = e.nat('n', 1)
        s = Sel(e, kind, 'i')

        def mk(m):
            if m is None:
                return []
            con = replay.Concrete(e, w, m)
            c = lambda v: int(con.val(lift(v)))     # noqa
            j = s.json(c)
            return [{'rect': c(n), 's': j[1:]}] if j[0] == 's' else []
        e.on_refuted = mk
        try:
            first, count = s.window(n)
            got = fn(s.arg(), n)
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        if not load.v_isinstance(got, slice):
            e.undecided(tag + 'a slice', repr(got))
            return
        e.check(tag + 'the elements that the index selects', AND(EQ(got.start, first), EQ(got.stop, first + count)), note=repr(got))
    t = Fn('rectify[{}]'.format(kind), body, ['lazy_loaders._rectify_slice_dim'], optional=True)
    t.world = World
    return t


def c13(tier):
    deep = tier == 'thorough'
    S = ('full', 'slice', 'from', 'to', 'int')
    out = [rectify(k) for k in ('slice', 'from', 'to', 'full', 'int')]
    out.append(read('read[rows]', 'yxb', S, ('full', 'int'), ('full',), (2,), (None,)))
    out.append(read('read[columns]', 'yxb', ('full', 'int'), S, ('full',), (2,), (None,)))
    out.append(read('read[bands]', 'yxb', ('full',), ('int',), S + (0, 1, 2) + ((3,) if deep else ()), (1, 2, 3) if deep else (1, 3), (None,)))
    for f in FORMS:
        if f != 'yxb':
            out.append(read('read[{}]'.format(FORMS[f]), f, ('slice', 'int') if deep else ('from', 'int'), ('to', 'int'), ('slice', 'int', 2) if deep else ('from', 1), (1, 3) if deep else (2,), (None,), levels=False))
    for m in ('float', 'nan', 'ma', 'auto'):
        out.append(read('no-data[{}]'.format(m), 'yxb', ('full',), ('full',), ('full', 'int', 'from', 1, 2), (1, 3) if deep else (1, 2), (m,),
                        dtypes=('int16', 'float32') if m in ('float', 'ma') else ('int16',), levels=False))
    out.append(read('read[dataset reads fail]', 'yxb', ('from',), ('full',), ('full', 2) if deep else ('full',), (2,), (None, 'ma'), fasts=(True,), flaky=(True,)))
    out.append(read('overview', 'yx', ('slice',), ('int',), ('full',), (2,), (None, 'float'), route='overview'))
    out.append(read('overview of an overview', 'yx', ('to',), ('int',), ('full',), (2,), (None, 'float') if deep else ('float',), route='steps'))
    for cls in ('LazyRasterIOFrameFile', 'LazySpectralFrameFile'):
        n = cls[4:-9]
        out.append(read(n + ' read[rows]', 'yxb', S, ('full', 'int'), ('full',), (2,), (None,), fasts=(True,), levels=False, cls=cls))
        out.append(read(n + ' read[columns]', 'yxb', ('full', 'int'), S, ('full',), (2,), (None,), fasts=(True,), levels=False, cls=cls))
        out.append(read(n + ' read[bands]', 'yxb', ('full',), ('to',), S + (0, 1, 2), (1, 2, 3), (None,), fasts=(True,), levels=False, cls=cls))
        for f in FORMS:
            if f != 'yxb':
                out.append(read('{} read[{}]'.format(n, FORMS[f]), f, ('from', 'int'), ('to', 'int'), ('from', 'int', 1), (2,), (None,),
                                fasts=(True,), levels=False, cls=cls))
    return out
