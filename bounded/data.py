"""
Bounded (concrete) layer for the data level properties C12 (quantization),
C13 (lazy windows) and C14 (bounded cache).
"""
import itertools
import math
import os
import random
import warnings
import numpy as np
import trees as t
from view import Prop

warnings.simplefilter('ignore')


# ---------------------------------------------------------------- C12

INT_DTYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
FLT_DTYPES = ['float32', 'float64']


def representable(value, dtype):
    """Independent: is `value` one of the values of dtype"""
    from fractions import Fraction
    dtype = np.dtype(dtype)
    v = float(value) if not isinstance(value, int) else value
    if dtype.kind in 'iu':
        if isinstance(v, float) and not math.isfinite(v):
            return False
        f = Fraction(v)
        info = np.iinfo(dtype)
        return f.denominator == 1 and int(info.min) <= f <= int(info.max)
    return True


class C12(Prop):
    def fixed(self):
        out = []
        for dt in INT_DTYPES + FLT_DTYPES:
            for nod in [None, 0, 1, 5, -1, 255, 256, -9999, -128, 32767, 65535, 2.5, 3.0,
                        float('nan'), float('inf'), 2 ** 31, -2 ** 31, 2 ** 31 - 1, 2 ** 24, 2 ** 40, 2 ** 62 + 1]:
                for (a, b, qa, qb) in [(0, 1, 0, 255), (-1, 1, 1, 100), (0, 10, 7, 7), (5, 2.5e3, -3, 12)]:
                    out.append({'k': 'deq', 'dt': dt, 'od': 'float32', 'nod': nod, 'om': a,
                                'ox': b, 'qm': qa, 'qx': qb, 'seed': 3})
        for dt in INT_DTYPES[:4]:
            for fd in FLT_DTYPES:
                for a, b in [(0, 1), (-1, 1), (-5, 2), (0, .1), (10, 255), (0, 1000), (-.3, .7)]:
                    for seed in range(3):
                        out.append({'k': 'q', 'dt': dt, 'fd': fd, 'a': a, 'b': b, 'seed': seed})
        return out

    def gen(self, rng):
        if rng.random() < .5:
            qm = rng.randint(-300, 300)
            om = round(rng.uniform(-1000, 1000), 3)
            return {'k': 'deq', 'dt': rng.choice(INT_DTYPES + FLT_DTYPES),
                    'od': rng.choice(FLT_DTYPES), 'om': om,
                    'ox': om + round(rng.uniform(.01, 1000), 3),
                    'qm': qm, 'qx': qm + rng.choice([0, 1, 7, 255, 1000, 65535]),
                    'nod': rng.choice([None, rng.randint(-5, 5), rng.randint(-40000, 70000), 2.5, -9999,
                                       float('nan'), float('inf'), 0, -2 ** 31, 2 ** 31 - 1, 2 ** 24 + 1, -2 ** 40]),
                    'seed': rng.getrandbits(16), 'omit': rng.random() < .2}
        a = round(rng.uniform(-100, 100), rng.randint(0, 3))
        return {'k': 'q', 'dt': rng.choice(INT_DTYPES[:4]), 'fd': rng.choice(FLT_DTYPES),
                'a': a, 'b': a + round(rng.uniform(.5, 200), 2), 'seed': rng.getrandbits(16)}

    def shrink(self, case, fails):
        return case

    def check(self, case):
        from delayed_image.helpers import dequantize, quantize_float01
        rng = np.random.RandomState(case['seed'])
        if case['k'] == 'deq':
            dt = np.dtype(case['dt'])
            if dt.kind in 'iu':
                info = np.iinfo(dt)
                lo, hi = max(info.min, -40000), min(info.max, 70000)
                data = rng.randint(lo, hi + 1, (6, 5, 2)).astype(dt)
                data.flat[:4] = [0, 1, max(-1, lo) if dt.kind == 'i' else 2, min(hi, 255)]
            else:
                data = rng.randint(-50, 50, (6, 5, 2)).astype(dt) / 2
                data.flat[0] = 0
                data.flat[1] = np.nan
            nod = case['nod']
            if nod is not None and representable(nod, dt) and math.isfinite(nod):
                data[1::3] = np.array(nod).astype(dt)
                if dt.kind in 'iu':
                    # values next to it, which a float32 may not tell from it
                    for i, d in enumerate([1, -1, 3, -50, 200]):
                        if info.min <= int(nod) + d <= info.max:
                            data[2, i, 0] = int(nod) + d
            q = {'orig_dtype': case['od'], 'orig_min': case['om'], 'orig_max': case['ox'],
                 'quant_min': case['qm'], 'quant_max': case['qx'], 'nodata': nod}
            om, ox, qm, od = case['om'], case['ox'], case['qm'], case['od']
            if case.get('omit'):
                for k in ['orig_dtype', 'orig_min', 'orig_max', 'quant_min']:
                    q.pop(k)
                om, ox, qm, od = 0, 1, 0, 'float32'
            before = data.copy()
            qb = dict(q)
            got = dequantize(data, q)
            if not np.array_equal(before, data, equal_nan=dt.kind == 'f') or repr(qb) != repr(q):
                return 'dequantize modified its inputs'
            if got.dtype != np.dtype(od):
                return 'dequantize returned dtype {} not {}'.format(got.dtype, od)
            if got.shape != data.shape:
                return 'dequantize changed the shape'
            ext = case['qx'] - qm
            sc = 0 if ext == 0 else (ox - om) / ext
            want = (data.astype('float64') - qm) * sc + om
            mask = np.isnan(data) if dt.kind == 'f' else np.zeros(data.shape, bool)
            if nod is not None and representable(nod, dt):
                if dt.kind in 'iu':
                    mask = mask | np.array([[[int(v) == nod for v in b] for b in a] for a in data])
                else:
                    mask = mask | (data == np.array(nod).astype(dt))
            if not np.array_equal(np.isnan(got), mask):
                return 'NaN exactly at the representable nodata value is violated: {} {}'.format(
                    np.isnan(got).sum(), mask.sum())
            eps = np.finfo(od).eps
            m = np.abs(data[~mask].astype('float64'))
            mag = (m.max() if m.size else 0) + abs(qm)
            tol = 8 * eps * (mag * abs(sc) + abs(om) + abs(ox))
            err = np.abs(got - want)[~mask]
            if err.size and err.max() > tol:
                return 'dequantized values are off by {} (allowed {})'.format(err.max(), tol)
            return None
        a, b = case['a'], case['b']
        data = rng.uniform(a - (b - a) * .2, b + (b - a) * .2, (8, 7)).astype(case['fd'])
        data.flat[:6] = [a, b, (a + b) / 2, np.nan, a - 10 * (b - a), b + 10 * (b - a)]
        data[3, ::2] = np.nan
        before = data.copy()
        quant, info = quantize_float01(data, a, b, np.dtype(case['dt']).type)
        if not np.array_equal(before, data, equal_nan=True):
            return 'quantize modified its input'
        if quant.dtype != np.dtype(case['dt']):
            return 'quantize returned dtype {}'.format(quant.dtype)
        rec = dequantize(quant, dict(info, orig_dtype=case['fd']))
        nan = np.isnan(data)
        if not np.array_equal(np.isnan(rec), nan):
            return 'NaN is not kept exactly by quantize+dequantize'
        step = (b - a) / (info['quant_max'] - info['quant_min'])
        want = np.clip(data.astype('float64'), a, b)
        slack = 16 * np.finfo(case['fd']).eps * (abs(a) + abs(b))
        err = np.abs(rec.astype('float64') - want)[~nan].max()
        if err > step * (1 + 1e-6) + slack:
            return 'quantize+dequantize error {} exceeds one step {}'.format(err, step)
        _, info2 = quantize_float01(None, a, b, np.dtype(case['dt']).type)
        if info2 != info:
            return 'parameters depend on the data'
        return None


# ---------------------------------------------------------------- C13

_files = {}


def tif(case):
    """Write (once) the file of a case, returns path"""
    from osgeo import gdal
    key = (case['w'], case['h'], case['c'], case['nov'], tuple(case['nod']), case.get('drv', 'GTiff'), case.get('dt', 'int16'))
    if key in _files:
        return _files[key]
    gdal.UseExceptions()
    n = len(_files)
    fp = os.path.join(t.scratch(), 'lazy{}.{}'.format(n, 'tif' if key[5] == 'GTiff' else 'img'))
    rng = np.random.RandomState(n)
    tp = {'int16': gdal.GDT_Int16, 'uint8': gdal.GDT_Byte, 'float32': gdal.GDT_Float32}[key[-1]]
    d = gdal.GetDriverByName(key[5]).Create(fp, key[0], key[1], key[2], tp)
    a = rng.randint(0, 12, (key[1], key[0], key[2])).astype(key[-1])
    for i in range(key[2]):
        d.GetRasterBand(i + 1).WriteArray(np.ascontiguousarray(a[:, :, i]))
    nods = list(key[4])
    same = len(set(nods)) == 1
    if same and nods[0] is not None:
        for i in range(key[2]):
            d.GetRasterBand(i + 1).SetNoDataValue(nods[i])
    d.FlushCache()
    if key[3]:
        d.BuildOverviews('NEAREST', [2 ** k for k in range(1, key[3] + 1)])
    d.FlushCache()
    if not same:
        vp = fp[:-4] + '.vrt'
        v = gdal.GetDriverByName('VRT').CreateCopy(vp, d)
        for i, nd in enumerate(nods):
            if nd is not None:
                v.GetRasterBand(i + 1).SetNoDataValue(nd)
        v.FlushCache()
        v = None
        d = None
        fp = vp
    d = None
    _files[key] = fp
    return fp


_truth = {}


def truth(fp, level):
    if (fp, level) not in _truth:
        from osgeo import gdal
        d = gdal.Open(fp)
        bands = []
        nod = []
        for i in range(d.RasterCount):
            b = d.GetRasterBand(i + 1)
            nod.append(b.GetNoDataValue())
            if level:
                b = b.GetOverview(level - 1)
            bands.append(b.ReadAsArray())
        _truth[(fp, level)] = np.stack(bands, axis=2), nod
    return _truth[(fp, level)]


def dec_part(p):
    k = p[0]
    if k == 's':
        return slice(p[1], p[2])
    if k == 'i':
        return p[1]
    if k == 'e':
        return Ellipsis
    return list(p[1])


def np_parts(parts):
    """Expand a decoded index to three numpy parts with int axes kept"""
    parts = list(parts)
    n_e = sum(p is Ellipsis for p in parts)
    full = slice(None)
    if n_e:
        k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
        parts = parts[:k] + [full] * (4 - len(parts)) + parts[k + 1:]
    parts = parts + [full] * (3 - len(parts))
    out = []
    for p in parts:
        if isinstance(p, int):
            p = [p]
        out.append(p)
    return out


def in_range(ix, lens):
    for p, n in zip(ix, lens):
        if isinstance(p, list) and any(not (-n <= v < n) for v in p):
            return False
    return True


class C13(Prop):
    def fixed(self):
        out = []
        sl = [['s', None, None], ['s', 2, 5], ['s', -3, None], ['s', None, -4], ['s', 5, 3], ['s', 3, 3],
              ['s', 100, 200], ['s', -100, 4], ['s', None, -100], ['i', 0], ['i', -1], ['i', 3],
              ['s', 0, 0], ['s', -2, 100]]
        for c, nod in [(1, [5]), (3, [None] * 3), (3, [4, 5, None]), (3, [7, 7, 7])]:
            for m in [None, 'float', 'ma', 'auto']:
                for fast in [True, False]:
                    base = {'w': 37, 'h': 23, 'c': c, 'nov': 3, 'nod': nod, 'm': m, 'fast': fast, 'lv': []}
                    for y in sl:
                        out.append(dict(base, ix=[y]))
                        out.append(dict(base, ix=[['s', 1, 4], y]))
                    for x in [[y] for y in sl[:3]] + [[['e'], ['s', 0, 1]], [['e']], [['s', 1, 9], ['e'], ['l', [0]]]]:
                        out.append(dict(base, ix=x))
                    if c > 1:
                        for b in [[0], [2, 0], [-1], [1, 1], [-2, 0, 1, 2], []]:
                            out.append(dict(base, ix=[['e'], ['l', b]]))
                            out.append(dict(base, ix=[['s', 2, 7], ['s', 3, -4], ['l', b]]))
                        for b in [['s', 1, None], ['s', -1, None], ['s', 2, 1], ['i', 1], ['i', -1], ['s', None, 2]]:
                            out.append(dict(base, ix=[['s', -5, 20], ['s', None, 30], b]))
                    if len(set(nod)) == 1:
                        for lv in [[1], [2], [1, 1], [1, 2], [3], [2, 1], [0], [0, 1], [1, 1, 1], [2, 2], [3, 1], [2, 1, 1], [3, 2], [4]]:
                            for ix in [[['s', None, None]], [['s', 1, 3], ['s', -2, None]], [['s', 2, 1]],
                                       [['i', 1], ['s', 0, 2]]]:
                                out.append(dict(base, lv=lv, ix=ix, nov=max(3, sum(lv))))
        for fast in [True, False]:
            base = {'w': 37, 'h': 23, 'c': 2, 'nov': 2, 'nod': [5, 5], 'm': None, 'fast': fast, 'lv': [1], 'drv': 'HFA'}
            for lv in [[], [1], [2], [1, 1]]:
                for m in [None, 'float', 'ma']:
                    for ix in [[['e']], [['s', 1, 3], ['s', -2, None]], [['i', 1], ['s', 0, 2], ['l', [1]]]]:
                        out.append(dict(base, lv=lv, m=m, ix=ix))
        for cls in ['rio', 'spy']:
            base = {'w': 9, 'h': 7, 'c': 4, 'nov': 0, 'nod': [None] * 4, 'm': None, 'fast': True, 'lv': [], 'cls': cls}
            for y in sl:
                for b in [['s', None, None], ['s', -3, None], ['s', 2, 1], ['i', -1], ['l', [2, 0]], ['l', [-1]], ['l', [1, 1, -4]], ['l', []]]:
                    out.append(dict(base, ix=[y, ['s', 1, 4], b]))
                    out.append(dict(base, ix=[['s', 1, 4], y, b]))
                out.append(dict(base, ix=[y]))
                out.append(dict(base, ix=[y, ['e']]))
                out.append(dict(base, ix=[['e'], y, ['s', 0, 1]]))
        for d in [1, 5, 17]:
            for a in [None, -20, -d - 1, -d, -1, 0, 1, d - 1, d, d + 1, 40]:
                for b in [None, -20, -d - 1, -d, -1, 0, 1, d - 1, d, d + 1, 40]:
                    out.append({'rect': d, 's': [a, b]})
        return out

    def gen(self, rng):
        c = rng.choice([1, 2, 3, 4])
        nod = rng.choice([[None] * c, [5] * c, [rng.choice([None, rng.randint(0, 11)]) for _ in range(c)]])
        nov = rng.choice([0, 2, 3, 4])
        w, h = rng.choice([(37, 23), (16, 16), (9, 40), (5, 5)])
        if nov > 3 and w == 5:
            nov = 3         # no overviews smaller than a pixel

        def sl(n):
            k = rng.random()
            if k < .15:
                return ['i', rng.randint(-n, n - 1)]
            f = lambda: rng.choice([None, rng.randint(-n - 4, n + 4), rng.randint(0, n)])
            return ['s', f(), f()]
        lv = []
        if nov and len(set(nod)) == 1 and rng.random() < .5:
            tot = rng.randint(1, nov)
            lv = [tot] if rng.random() < .4 else [rng.randint(0, tot)]
            while sum(lv) < tot:
                lv.append(rng.randint(1, tot - sum(lv)))
        k = 2 ** sum(lv)
        sh = [-(-h // k), -(-w // k)]
        b = rng.choice([sl(c), ['l', [rng.randint(-c, c - 1) for _ in range(rng.randint(0, 4))]],
                        ['s', None, None]])
        full = [sl(sh[0]), sl(sh[1]), b]
        kind = rng.random()
        if kind < .2:
            ix = full[:1]
        elif kind < .4:
            ix = full[:2]
        elif kind < .8:
            ix = full
        else:
            ix = rng.choice([[full[0], ['e']], [['e'], full[2]], [full[0], ['e'], full[2]],
                             [full[0], full[1], ['e'], full[2]], [['e'], full[1], full[2]]])
        if rng.random() < .1 and not nov:
            return {'w': w, 'h': h, 'c': c, 'nov': 0, 'nod': [None] * c, 'm': None, 'fast': True, 'lv': [], 'ix': ix, 'dt': 'int16',
                    'cls': rng.choice(['rio', 'spy'])}
        return {'w': w, 'h': h, 'c': c, 'nov': nov, 'nod': nod, 'm': rng.choice([None, 'float', 'ma', 'nan', 'auto']),
                'fast': rng.random() < .7, 'lv': lv, 'ix': ix, 'dt': rng.choice(['int16', 'uint8', 'float32'])}

    def shrink(self, case, fails):
        return case

    def check(self, case):
        from delayed_image import lazy_loaders as ll
        if 'rect' in case:
            n = case['rect']
            part = ll._rectify_slice_dim(slice(*case['s']), n)
            got = list(range(part.start, part.stop))
            want = list(range(n))[slice(*case['s'])]
            if got != want:
                return 'slice {} of {} selects {} instead of {}'.format(case['s'], n, got[:5], want[:5])
            return None
        fp = tif(case)
        if case.get('cls'):
            return self.other(case, fp, ll)
        old = ll.GDAL_FAST_PATH
        try:
            ll.GDAL_FAST_PATH = case['fast']
            z = ll.LazyGDalFrameFile(fp, nodata_method=case['m'])
            total = 0
            for lv in case['lv']:
                if z.num_overviews != case['nov'] - total:
                    return 'num_overviews {} at level {}'.format(z.num_overviews, total)
                z = z.get_overview(lv)
                total += lv
            full, nod = truth(fp, total)
            if tuple(z.shape) != full.shape:
                return 'shape {} expected {}'.format(z.shape, full.shape)
            parts = [dec_part(p) for p in case['ix']]
            arg = parts[0] if len(parts) == 1 else tuple(parts)
            ix = np_parts(parts)
            if not in_range(ix, full.shape):
                return None
            got = z[arg]
        finally:
            ll.GDAL_FAST_PATH = old
        want = full
        want = want[ix[0]]
        want = want[:, ix[1]]
        want = want[:, :, ix[2]]
        bsel = list(np.arange(full.shape[2])[ix[2]])
        mask = np.zeros(want.shape, bool)
        if case['m'] is not None:
            for k, b in enumerate(bsel):
                if nod[b] is not None:
                    mask[:, :, k] = want[:, :, k] == nod[b]
        shape = want.shape[:2] if want.shape[2] == 1 else want.shape
        if got.shape != shape and got.shape != want.shape:
            return 'read shape {} expected {}'.format(got.shape, shape)
        got = got.reshape(want.shape)
        if case['m'] is None:
            if not np.array_equal(got, want):
                return 'read values differ from the slice of the full image'
        elif case['m'] == 'ma':
            gm = np.ma.getmaskarray(got)
            if not np.array_equal(gm, mask):
                return 'mask differs from the nodata pixels'
            if not np.array_equal(np.asarray(got.data)[~mask], want[~mask]):
                return 'read values differ from the slice of the full image'
        else:
            if got.size and not np.array_equal(np.isnan(got), mask):
                return 'NaN pixels differ from the nodata pixels'
            if not np.array_equal(got[~mask], want[~mask]):
                return 'read values differ from the slice of the full image'
        return None


    def other(self, case, fp, ll):
        """the readers of the other libraries"""
        full = truth(fp, 0)[0]
        if case['cls'] == 'spy':
            z = ll.LazySpectralFrameFile(envi(fp, full))
        else:
            z = ll.LazyRasterIOFrameFile(fp)
        if tuple(z.shape) != full.shape or z.ndim != 3:
            return 'shape {} expected {}'.format(z.shape, full.shape)
        parts = [dec_part(p) for p in case['ix']]
        ix = np_parts(parts)
        if not in_range(ix, full.shape):
            return None
        got = np.asarray(z[parts[0] if len(parts) == 1 else tuple(parts)])
        want = full[ix[0]][:, ix[1]][:, :, ix[2]]
        if got.shape != want.shape and got.shape != want.shape[:2] + want.shape[2:] * (want.shape[2] > 1):
            return 'read shape {} expected {}'.format(got.shape, want.shape)
        if not np.array_equal(got.reshape(want.shape), want):
            return 'read values differ from the slice of the full image'
        return None


_envi = {}


def envi(fp, full):
    if fp not in _envi:
        import spectral
        out = fp[:-4] + '_envi.hdr'
        spectral.envi.save_image(out, full, force=True, ext='bsq', interleave='bsq')
        _envi[fp] = out
    return _envi[fp]


# ---------------------------------------------------------------- C14

class LRU:
    """Independent model: list of (key, value), oldest first"""
    def __init__(self, cap):
        self.cap = cap
        self.items = []

    def find(self, k):
        for i, (a, _) in enumerate(self.items):
            if a == k:
                return i
        return None

    def put(self, k, v):
        i = self.find(k)
        if i is not None:
            self.items.pop(i)
        self.items.append((k, v))
        if len(self.items) > self.cap:
            self.items = self.items[-self.cap:]

    def get(self, k):
        i = self.find(k)
        if i is None:
            return False, None
        e = self.items.pop(i)
        self.items.append(e)
        return True, e[1]

    def drop(self, k):
        i = self.find(k)
        if i is None:
            return False
        self.items.pop(i)
        return True


class C14(Prop):
    def fixed(self):
        out = []
        ops = [['set', 0], ['set', 1], ['set', 2], ['get', 0], ['get', 1], ['del', 0], ['in', 0]]
        for cap in [1, 2]:
            for n in range(1, 5):
                for seq in itertools.product(ops, repeat=n):
                    out.append({'cap': cap, 'init': 0, 'ops': [list(o) for o in seq]})
        for cap in [1, 2, 3]:
            for init in [1, 3, 5]:
                out.append({'cap': cap, 'init': init, 'ops': [['get', 0], ['set', 9], ['get', 4]]})
                out.append({'cap': cap, 'init': init, 'ops': []})
        return out

    def gen(self, rng):
        cap = rng.randint(1, 5)
        nk = rng.randint(2, 8)
        ops = []
        for _ in range(rng.randint(1, 60)):
            k = rng.randrange(nk)
            o = rng.choice(['set', 'set', 'set', 'get', 'get', 'in', 'del', 'gd', 'upd', 'sd', 'iter'])
            ops.append([o, k] + ([rng.randrange(nk)] if o == 'upd' else []))
        return {'cap': cap, 'init': rng.choice([0, 0, rng.randint(1, 7)]), 'ops': ops}

    def shrink(self, case, fails):
        ops = case['ops']
        i = 0
        while i < len(ops):
            c = dict(case, ops=ops[:i] + ops[i + 1:])
            if fails(c):
                ops = c['ops']
            else:
                i += 1
        return dict(case, ops=ops)

    def check(self, case):
        from delayed_image.lazy_loaders import CacheDict
        m = LRU(case['cap'])
        init = [(i, ('v', i)) for i in range(case['init'])]
        d = CacheDict(init, cache_len=case['cap']) if init else CacheDict(cache_len=case['cap'])
        for k, v in init:
            m.put(k, v)

        def same():
            if len(d) > case['cap']:
                return 'holds {} entries, capacity {}'.format(len(d), case['cap'])
            if [(k, v) for k, v in dict.items(d)] is None:
                return 'x'
            keys = list(iter(d))
            if sorted(keys) != sorted(k for k, _ in m.items):
                return 'holds {} instead of {}'.format(keys, [k for k, _ in m.items])
            if keys != [k for k, _ in m.items]:
                return 'eviction order {} instead of {}'.format(keys, [k for k, _ in m.items])
            for k, v in m.items:
                if dict.__getitem__(d, k) != v:
                    return 'value of {} is {} instead of {}'.format(k, dict.__getitem__(d, k), v)
            return None
        e = same()
        if e:
            return 'after construction: ' + e
        for n, op in enumerate(case['ops']):
            o, k = op[0], op[1]
            v = ('w', n)
            if o == 'set':
                d[k] = v
                m.put(k, v)
            elif o == 'upd':
                d.update([(k, v), (op[2], v)])
                m.put(k, v)
                m.put(op[2], v)
            elif o == 'get':
                ok, want = m.get(k)
                try:
                    got = d[k]
                    if not ok:
                        return 'step {}: lookup of absent {} gave {}'.format(n, k, got)
                    if got != want:
                        return 'step {}: lookup of {} gave {} instead of {}'.format(n, k, got, want)
                except KeyError:
                    if ok:
                        return 'step {}: lookup of held {} failed'.format(n, k)
            elif o == 'gd':
                # dict style get with default: value only
                i = m.find(k)
                got = d.get(k, 'none')
                if got != ('none' if i is None else m.items[i][1]):
                    return 'step {}: get({}) gave {}'.format(n, k, got)
                if i is not None and [a for a in iter(d)] != [a for a, _ in m.items]:
                    m.get(k)
            elif o == 'sd':
                i = m.find(k)
                if i is None:
                    d.setdefault(k, v)
                    m.put(k, v)
            elif o == 'in':
                if (k in d) != (m.find(k) is not None):
                    return 'step {}: membership of {}'.format(n, k)
            elif o == 'del':
                had = m.drop(k)
                try:
                    del d[k]
                    if not had:
                        return 'step {}: deleting absent {} succeeded'.format(n, k)
                except KeyError:
                    if had:
                        return 'step {}: deleting held {} failed'.format(n, k)
            elif o == 'iter':
                list(d)
            e = same()
            if e:
                return 'step {} {}: {}'.format(n, op, e)
        return None
