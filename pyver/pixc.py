"""Contract targets on array content: quantization (C12) and finalization (C17)"""
import numpy as np
from fractions import Fraction
from pyver import sym, nodes, facade, replay
from pyver.arr import SymArr, MArr, El, given, app, truth, num, scalar, NANEL
from pyver.nodes import AbsNode
from pyver.sym import EQ, AND, OR, NOT, SymNum, lift, smin, smax
from pyver.treec import run_body, classify
from pyver.viewc import Fn, case, concrete, shift

INTS = ('uint8', 'int8', 'uint16', 'int16', 'int32', 'uint32', 'int64', 'uint64')
FLOATS = ('float32', 'float64')


def dims(e, n=3):
    return tuple(e.nat(k) for k in ('h', 'w', 'c', 'd')[:n])


def index(e, shape):
    """an arbitrary index of an array of that shape"""
    out = []
    for k, s in zip(('y', 'x', 'b', 'd'), shape):
        i = e.nat('at_' + k)
        e.require(lift(i) < s)
        out.append(i)
    return tuple(out)


def same_shape(e, name, a, b):
    if len(a) != len(b):
        e.fail(name, '%s instead of %s' % (a, b))
        return False
    for x, y in zip(a, b):
        e.check(name, EQ(x, y), note='%s instead of %s' % (a, b))
    return True


def same_el(e, name, got, want):
    if truth(want.nan):
        e.check(name + ' (NaN)', got.nan if not isinstance(got.nan, bool) else bool(got.nan))
    else:
        e.check(name + ' (not NaN)', NOT(got.nan) if not isinstance(got.nan, bool) else not got.nan)
        if got.nan is not True:
            e.check(name + ' (value)', EQ(num(got), num(want)))


# ------------------------------------------------------------------ C12

def frac(c, x, nd=4):
    v = c.val(x)
    return v


def dequant(dtype):
    def body(e, w, tag):
        fn = w.helpers.dequantize
        src = given('stored', dims(e), dtype, bounded=True)
        q = {'quant_max': e.fresh('quant_max')}
        om, ox, qm = 0, 1, 0
        od = 'float32'
        omit = e.choose([False, True], 'optional parameters left out')
        if not omit:
            om, ox, qm = e.fresh('orig_min'), e.fresh('orig_max'), e.fresh('quant_min')
            od = e.choose(FLOATS, 'orig_dtype')
            q.update({'orig_min': om, 'orig_max': ox, 'quant_min': qm, 'orig_dtype': od})
        kind = e.choose(['none', 'integer', 'fraction', 'nan', 'inf', 'absent'], 'nodata')
        nod = {'none': None, 'nan': float('nan'), 'inf': float('inf'), 'absent': None}.get(kind, None)
        if kind == 'integer':
            nod = e.fresh('nodata', True)
            if e.choose([False, True], 'given as a float'):
                nod = SymNum(nod.r, False)
        elif kind == 'fraction':
            nod = e.fresh('nodata')
            e.assume(NOT(EQ(nod, sym.floor(nod))))
        if kind != 'absent':
            q['nodata'] = nod
        before = dict(q)

        def mk(m):
            c = concrete(e, w, m)
            nv = nod if not isinstance(nod, SymNum) else c.val(nod)
            if isinstance(nv, float) and nv.is_integer() and kind == 'integer':
                nv = int(nv) if nod.isint else nv
            a, b = c.val(lift(qm)), c.val(lift(q['quant_max']))
            return {'k': 'deq', 'dt': dtype, 'od': od, 'nod': nv, 'om': float(c.val(lift(om))), 'ox': float(c.val(lift(ox))),
                    'qm': float(a), 'qx': float(b), 'seed': 3, 'omit': omit}
        e.on_refuted = case(mk)
        ok, res = run_body(e, w, tag, lambda: fn(src, q), ['C12'])
        if not ok:
            return
        e.cover('returns')
        e.check(tag + 'the input is not modified', not src.written and before == q and res is not src)
        if not isinstance(res, SymArr):
            e.undecided(tag + 'returns an array', repr(type(res)))
            return
        e.check(tag + 'original floating point dtype', res.dtype == np.dtype(od))
        same_shape(e, tag + 'shape', res.shape, src.shape)
        ix = index(e, src.shape)
        s = src.at(*ix)
        got = res.at(*ix)
        if truth(s.nan):
            want = NANEL
        else:
            v = num(s)
            rep = False
            if kind == 'integer':
                info = np.iinfo(dtype) if dtype in INTS else None
                rep = True if info is None else truth(AND(lift(nod) >= int(info.min), lift(nod) <= int(info.max)))
            elif kind == 'fraction':
                rep = dtype not in INTS
            if rep and truth(EQ(v, nod)):
                e.cover('nodata')
                want = NANEL
            else:
                qx = q['quant_max']
                if truth(EQ(qx, qm)):
                    want = El(False, lift(om))
                else:
                    want = El(False, (v - qm) * (ox - om) / (qx - qm) + om)
        same_el(e, tag + 'dequantized value', got, want)
    return Fn('dequantize[{}]'.format(dtype), body, ['helpers.dequantize', 'helpers._scalar_is_representable_in_dtype'])


def quantized(dtype, floats):
    def body(e, w, tag):
        src = given('image', dims(e, e.choose([2, 3], 'ndim')), floats)
        a, b = e.fresh('old_min'), e.fresh('old_max')
        e.assume(a < b)
        e.on_refuted = case(lambda m: (lambda c: {'k': 'q', 'dt': dtype, 'fd': floats, 'a': float(c.val(a)), 'b': float(c.val(b)), 'seed': 5})(concrete(e, w, m)))

        def go():
            qd, q = w.helpers.quantize_float01(src, a, b, getattr(np, dtype))
            return qd, q, w.helpers.dequantize(qd, q)
        ok, res = run_body(e, w, tag, go, ['C12'])
        if not ok:
            return
        e.cover('returns')
        qd, q, back = res
        e.check(tag + 'the input is not modified', not src.written and qd is not src)
        e.check(tag + 'stored in the requested dtype', qd.dtype == np.dtype(dtype))
        same_shape(e, tag + 'shape', back.shape, src.shape)
        ix = index(e, src.shape)
        s = src.at(*ix)
        r = back.at(*ix)
        if truth(s.nan):
            e.check(tag + 'NaN is kept', r.nan if isinstance(r.nan, bool) else truth(r.nan))
            return
        e.check(tag + 'a real value does not turn into NaN', not truth(r.nan))
        if r.nan is True:
            return
        v = smin(smax(num(s), a), b)
        info = np.iinfo(dtype)
        n = int(info.max) - max(int(info.min), 1 if info.kind == 'u' else 0)
        diff = num(r) - v
        stepsize = (b - a) / n
        e.check(tag + 'within one quantization step', AND(diff <= stepsize, -diff <= stepsize))
        # without data the same parameters are reported
        none, q2 = w.helpers.quantize_float01(None, a, b, getattr(np, dtype))
        e.check(tag + 'parameters do not depend on the data', none is None and set(q2) == set(q) and all(truth(EQ(q[k], q2[k])) for k in q))
    return Fn('quantize and dequantize[{} {}]'.format(floats, dtype), body, ['helpers.quantize_float01', 'helpers.dequantize'])


def c12(tier):
    return [dequant(d) for d in INTS + FLOATS] + [quantized(d, f) for d in INTS[:4] for f in FLOATS]


# ------------------------------------------------------------------ C17

def report_pixels(w, dtypes=('uint8', 'float32'), masked=False):
    """contract of _finalize: an array of the declared shape with arbitrary content, always the same; perhaps masked"""
    tab = {}

    def contract(node):
        i = object.__getattribute__(node, '_i')

        def _finalize():
            if id(i) not in tab:
                e = sym.eng()
                dt = e.choose(dtypes, 'dtype of ' + i.label)
                shape = (i.dsize[1], i.dsize[0], i.n)
                name = 'px %s#%d' % (i.label, len(tab))
                a = given(name, shape, dt)
                if masked and dt == dtypes[0] and e.choose([False, True], 'masked array'):
                    g = given('mask of ' + name, shape, 'uint8').fn
                    a = MArr(a, SymArr(shape, bool, lambda ix: g(ix).val > 0, 'mask'))
                    e.memo[('masked', 'inputs')] = True
                tab[id(i)] = a
            return tab[id(i)]
        return _finalize
    w.reported['_finalize'] = contract
    w.reported_any = ('_finalize', 'prepare')


def declared(node):
    return (node.dsize[1], node.dsize[0], node.num_channels)


def check_array(e, tag, node_shape, res):
    if not isinstance(res, (SymArr, MArr)):
        e.undecided(tag + 'an array', repr(type(res)))
        return False
    return same_shape(e, tag + 'declared height, width and channels', res.shape, node_shape)


def final_case(e, w, node, pix=True):
    return case(lambda m: {'p': masked_leafs(e, concrete(e, w, m).program(node)), 'pix': pix})


def masked_leafs(e, p):
    if ('masked', 'inputs') not in e.memo:
        return p
    if p['op'] == 'leaf':
        return dict(p, mask=True)
    if 'subs' in p:
        return dict(p, subs=[masked_leafs(e, q) for q in p['subs']])
    return dict(p, sub=masked_leafs(e, p['sub'])) if 'sub' in p else p


def finalize_of(kind):
    def body(e, w, tag):
        report_pixels(w, masked=kind == 'crop')
        want = None
        if kind in ('nans', 'nodata', 'load'):
            node = AbsNode.real(w.fresh_view('v', kinds=(kind,)))
            if kind == 'nodata':
                node.meta['nodata_method'] = e.choose([None, 'float', 'nan', 'ma'], 'nodata_method')
            want = lambda ix: NANEL        # noqa
            shape = declared(node)
        elif kind == 'ident':
            shape = dims(e)
            data = given('data', shape, e.choose(['uint8', 'float64'], 'dtype'))
            data0 = data.copy()
            node = w.cls['ident'](data, channels=e.choose([None, nodes.SymNames(nodes.V(None, nodes.Base('N')), shape[2])], 'names'))
            want = lambda ix: data0.at(*ix)      # noqa
        else:
            how = e.choose(['none', 'list', 1, 2, 4], 'channels selected') if kind == 'crop' else None
            sub = w.fresh_view('v', nocat=True, names=False if type(how) is int else None)
            array = sub._finalize()
            px = array.copy()
            H, W, N = declared(sub)
            if kind == 'crop':
                x0, x1, y0, y1 = [e.nat(k) for k in ('x0', 'x1', 'y0', 'y1')]
                e.require(AND(x0 <= x1, x1 <= W, y0 <= y1, y1 <= H))
                idx = None
                if how == 'list':
                    idx = nodes.SymSeq.fresh(e, 'idx')
                elif type(how) is int:
                    idx = [e.fresh('i%d' % k, True) for k in range(how)]
                    for v in idx:
                        e.require(AND(v >= 0, v < N))
                if e.choose([True, False], 'window given') or idx is None:
                    node = w.cls['crop'](sub, (slice(y0, y1), slice(x0, x1)), idx)
                    oy, ox, shape = y0, x0, (y1 - y0, x1 - x0)
                else:
                    node = w.cls['crop'](sub, None, idx)
                    oy, ox, shape = 0, 0, (H, W)
                shape = shape + (N if idx is None else idx.n if how == 'list' else len(idx),)
                from pyver.arr import seq_at, list_at

                def want(ix):
                    y, x, c = ix
                    if how == 'list':
                        c = seq_at(idx, c, N)
                    elif idx is not None:
                        c = list_at(idx, c, N)
                    return px.at(oy + y, ox + x, c)
            elif kind == 'dequant':
                sub_q = {'quant_max': 255, 'nodata': 0}
                node = w.cls['dequant'](sub, sub_q)
                shape = (H, W, N)

                def want(ix):
                    return w.dequantized(px, sub_q, ix)
        e.on_refuted = final_case(e, w, node) if kind != 'nodata' else \
            case(lambda m: {'p': dict(concrete(e, w, m).program(node), nodata=node.meta['nodata_method']), 'pix': True})
        ok, res = run_body(e, w, tag, lambda: node._finalize(), ['C17'])
        if not ok:
            return
        e.cover('returns')
        if kind not in ('ident',):
            same_shape(e, tag + 'the declared shape is that of the operation', declared(node), shape)
        if check_array(e, tag, shape, res) and want is not None:
            ix = index(e, shape)
            e.cover('a pixel')
            same_el(e, tag + 'pixels', res.at(*ix), want(ix))
        if kind in ('ident', 'crop', 'dequant'):
            e.check(tag + 'the array of the source is not modified', not (data if kind == 'ident' else array).written)
    cls = {'ident': 'delayed_leafs.DelayedIdentity', 'nans': 'delayed_leafs.DelayedNans', 'nodata': 'delayed_leafs.DelayedNodata',
           'crop': 'delayed_nodes.DelayedCrop', 'dequant': 'delayed_nodes.DelayedDequantize'}[kind]
    return Fn('finalize[{}]'.format(kind), body, [cls + '._finalize'])


def finalize_concat(n):
    def body(e, w, tag):
        report_pixels(w, masked=True)
        d = (e.nat('w'), e.nat('h'))
        names = e.choose([True, False], 'names known')
        parts = [w.fresh_view('p%d' % k, names=names, dsize=d, nocat=True) for k in range(n)]
        arrays = [p._finalize() for p in parts]
        px = [a.copy() for a in arrays]
        node = w.cls['concat'](parts)
        e.on_refuted = final_case(e, w, node)
        ok, res = run_body(e, w, tag, lambda: node._finalize(), ['C17'])
        if not ok:
            return
        e.cover('returns')
        shape = (d[1], d[0], facade.total([p.num_channels for p in parts]))
        same_shape(e, tag + 'the declared shape is that of the operation', declared(node), shape)
        if check_array(e, tag, shape, res):
            y, x, c = index(e, shape)
            got = res.at(y, x, c)
            k = 0
            while k < n - 1 and not truth(lift(c) < parts[k].num_channels):
                c = c - parts[k].num_channels
                k += 1
            same_el(e, tag + 'pixels of the part that provides the channel', got, px[k].at(y, x, c))
        e.check(tag + 'the arrays of the parts are not modified', not any(a.written for a in arrays))
    return Fn('finalize[concat of {}]'.format(n), body, ['delayed_nodes.DelayedChannelConcat._finalize'])


def finalize_resampled(kind):
    """only the shape: resampling is kwimage's"""
    def body(e, w, tag):
        report_pixels(w, ('float32',) if kind == 'nearest general' else ('uint8', 'float32'))
        sub = w.fresh_view('v', nocat=True)
        if kind == 'overview':
            node = w.cls['overview'](sub, e.nat('ov', 1))
        else:
            near = kind.startswith('nearest')
            T = facade.fresh_affine(e, 'T', ('aligned', 'general') if not near else ('aligned',) if kind == 'nearest aligned' else ('general',))
            k = e.choose([1, 'more'] if near else [1, 2, 3, 4, 'more'], 'channels')
            e.require(EQ(sub.num_channels, k) if k != 'more' else sub.num_channels > 4)
            node = w.cls['warp'](sub, T, dsize=(e.nat('w'), e.nat('h')), interpolation='nearest' if near else e.choose(['linear', 'cubic'], 'interpolation'),
                                 antialias=not near and e.choose([True, False], 'antialias'), border_value='auto' if near else e.choose(['auto', 0, float('nan')], 'border'))
        e.on_refuted = final_case(e, w, node, False)
        ok, res = run_body(e, w, tag, lambda: node._finalize(), ['C17'])
        if ok:
            e.cover('returns')
            check_array(e, tag, (node.dsize[1], node.dsize[0], sub.num_channels), res)
            same_shape(e, tag + 'the declared shape is that of the operation', declared(node), (node.dsize[1], node.dsize[0], sub.num_channels))
    return Fn('finalize[{}]'.format(kind), body, ['delayed_nodes.DelayedOverview._finalize' if kind == 'overview' else 'delayed_nodes.DelayedWarp._finalize'])


class Labels:
    """list of codes of a channel spec: as written, or of its expansion"""
    def __init__(self, names, expanded, n):
        self.names, self.expanded, self.n = names, expanded, n

    def _v_len(self):
        return self.n


class Codes(nodes.SymNames):
    """a channel spec that may be written with range or alias codes: written with k codes for n channels"""
    def __init__(self, den, n, k):
        nodes.SymNames.__init__(self, den, n)
        self.k = k

    def normalize(self):
        r = Codes(self.den, self.n, self.n)
        r.expanded = self
        return r

    def code_list(self):
        return Labels(getattr(self, 'expanded', self), hasattr(self, 'expanded'), self.k)

    def __getattr__(self, name):
        if name == 'expanded':
            raise AttributeError(name)
        return nodes.SymNames.__getattr__(self, name)


class Xarray:
    """contract of xarray: DataArray(data, dims, coords) keeps them, masked elements become NaN; the length of a coordinate is that of its axis"""
    class DataArray:
        def __init__(self, data, coords=None, dims=None, **k):
            if k or not isinstance(data, (SymArr, MArr)):
                raise Unsupported('DataArray')
            sym.eng().used.add('trusted contract: xarray.DataArray keeps data, dims and coords; masked elements become NaN')
            if len(dims) != data.ndim:
                raise ValueError('different number of dimensions on data and dims')
            for name, v in (coords or {}).items():
                if not isinstance(v, Labels):
                    raise Unsupported('coordinates')
                sym.eng().check('DataArray: as many labels as the axis is long', EQ(v.n, data.shape[list(dims).index(name)]))
            self.data, self.dims, self.coords = data, tuple(dims), dict(coords or {})


def finalize_xarray():
    def body(e, w, tag):
        report_pixels(w, masked=True)
        w.env.overrides['xarray'] = Xarray()
        sub = w.fresh_view('v', nocat=True)
        i = object.__getattribute__(sub, '_i')
        given_names = e.choose([True, False], 'names known')
        flat = e.choose([True, False], 'without a channel axis')
        names = None
        if given_names:
            names = Codes(nodes.V(None, nodes.Base('N')), i.n, e.nat('codes', 0))
        w.reported['channels'] = lambda node: names
        array = sub._finalize()
        if flat:
            e.require(EQ(i.n, 1))
            array = given('flat', array.shape[:2], array.dtype)
            w.reported['_finalize'] = lambda node: lambda: array
        px = array.copy()
        node = w.asx(sub)
        e.on_refuted = case(lambda m: {'p': masked_leafs(e, concrete(e, w, m).program(sub)), 'pix': True, 'xr': True})
        ok, res = run_body(e, w, tag, lambda: node._finalize(), ['C17'])
        if not ok:
            return
        e.cover('returns')
        if not isinstance(res, Xarray.DataArray):
            e.undecided(tag + 'an xarray', repr(type(res)))
            return
        e.check(tag + 'axes are labelled y, x, c', res.dims == ('y', 'x', 'c'))
        H, W, N = i.dsize[1], i.dsize[0], i.n
        if check_array(e, tag, (H, W, N), res.data):
            ix = index(e, (H, W, N))
            e.cover('a pixel')
            same_el(e, tag + 'pixels', res.data.at(*ix), px.at(*ix[:2]) if flat else px.at(*ix))
        e.check(tag + 'channels are labelled when their names are known, not else', set(res.coords) == ({'c'} if given_names else set()))
        if given_names and 'c' in res.coords:
            lab = res.coords['c']
            e.check(tag + 'labels are the expanded names', lab.names is names and (lab.expanded or truth(EQ(names.k, names.n))))
        e.check(tag + 'the array of the source is not modified', not array.written)
    return Fn('finalize[as xarray]', body, ['delayed_nodes.DelayedAsXarray._finalize'])


def evaluate():
    """an evaluated view is an in-memory source with the same size, channels and pixels"""
    def body(e, w, tag):
        report_pixels(w, ('float32',), masked=True)
        sub = w.fresh_view('v', nocat=True)
        i = object.__getattribute__(sub, '_i')
        array = sub._finalize()
        px = array.copy()
        log = []

        def fin(node):
            def finalize(*a, **k):
                log.append(k)
                return array
            return finalize
        w.reported['finalize'] = fin
        e.on_refuted = case(lambda m: {'p': masked_leafs(e, concrete(e, w, m).program(sub)), 'pix': True, 'ev': True})
        fn = w.lookup(w.nodes.DelayedImage, 'evaluate')
        ok, res = run_body(e, w, tag, lambda: fn(sub), ['C17'])
        if not ok:
            return
        e.cover('returns')
        H, W, N = i.dsize[1], i.dsize[0], i.n
        e.check(tag + 'an in-memory source', type(res) is w.cls['ident'])
        same_shape(e, tag + 'same size', res.dsize, (W, H))
        e.check(tag + 'same number of channels', EQ(res.num_channels, N))
        names = i.names
        e.check(tag + 'same channel names', (res.channels is None) == (names is None) and (names is None or res.channels == names))
        out = res._finalize()
        if check_array(e, tag, (H, W, N), out):
            ix = index(e, (H, W, N))
            e.cover('a pixel')
            same_el(e, tag + 'same pixels', out.at(*ix), px.at(*ix))
        e.check(tag + 'the array is not modified', not array.written)
    return Fn('evaluate', body, ['delayed_nodes.DelayedImage.evaluate', 'delayed_leafs.DelayedIdentity.__init__', 'delayed_leafs.DelayedIdentity._finalize'])


def prepare_load():
    """missing metadata of a file source is that of the file; metadata that is given stays"""
    def body(e, w, tag):
        H, W, N, O = e.nat('file_h'), e.nat('file_w'), e.nat('file_c'), e.nat('file_overviews')
        opened = []

        class Ref:
            shape = (H, W, N)
            num_overviews = O
            nodata_method = None

        class Lazy:
            @staticmethod
            def available():
                return True

            def __new__(cls, fpath, nodata_method=None, **k):
                opened.append((fpath, nodata_method))
                return Ref()
        mod = w.env.module('delayed_image.lazy_loaders')
        w.replaced.append((mod, 'LazyGDalFrameFile', mod.LazyGDalFrameFile))
        mod.LazyGDalFrameFile = Lazy
        e.used.add('contract of LazyGDalFrameFile: shape and number of overviews of the file (C13)')
        how = e.choose(['none', 'all', 'width', 'height'], 'size given')
        gw, gh = e.nat('given_w'), e.nat('given_h')
        dsize = {'none': None, 'all': (gw, gh), 'width': (gw, None), 'height': (None, gh)}[how]
        gn = e.nat('given_c') if e.choose([True, False], 'channels given') else None
        names = nodes.SymNames(nodes.V(None, nodes.Base('N')), gn) if gn is not None else None
        go = e.nat('given_o') if e.choose([True, False], 'overviews given') else None
        method = e.choose([None, 'ma'], 'nodata_method')
        node = w.cls['load']('file.tif', channels=names, dsize=dsize, nodata_method=method, num_overviews=go)
        ok, res = run_body(e, w, tag, lambda: node.prepare(), ['C17'])
        if not ok:
            return
        e.cover('returns')
        e.check(tag + 'the source itself', res is node)
        if how == 'all':
            same_shape(e, tag + 'a given size stays', node.dsize, (gw, gh))
        else:
            same_shape(e, tag + 'the size of the file', node.dsize, (W, H))
        e.check(tag + 'number of channels', EQ(node.num_channels, N if gn is None else gn))
        e.check(tag + 'given names stay', node.channels is names or node.channels == names)
        if go is None:
            e.check(tag + 'number of overviews', EQ(node.num_overviews, O))
        e.check(tag + 'file and no-data mode', all(o == ('file.tif', method) for o in opened))
    return Fn('prepare[load]', body, ['delayed_leafs.DelayedLoad.__init__', 'delayed_leafs.DelayedLoad.prepare', 'delayed_leafs.DelayedLoad._load_metadata',
                                      'delayed_leafs.DelayedLoad._load_reference'])


def prepare_tree():
    """preparing a view prepares each of its inputs"""
    def body(e, w, tag):
        log = []

        def prep(node):
            def prepare():
                log.append(node)
                return node
            return prepare
        w.reported['prepare'] = prep
        w.reported_any = ('prepare',)
        k = e.choose([0, 1, 2, 3], 'inputs')
        if k == 0:
            node, want = w.cls['nans']((e.nat('w'), e.nat('h')), channels=2), []
        elif k == 1:
            sub = w.fresh_view('v')
            node, want = w.cls['overview'](sub, e.nat('ov')), [sub]
        else:
            d = (e.nat('w'), e.nat('h'))
            want = [w.fresh_view('p%d' % j, dsize=d, nocat=True) for j in range(k)]
            node = w.cls['concat'](want)
        fn = w.lookup(type(node), 'prepare')
        ok, res = run_body(e, w, tag, lambda: fn(node), ['C17'])
        if not ok:
            return
        e.cover('returns')
        e.check(tag + 'the view itself', res is node)
        e.check(tag + 'every input is prepared', all(any(x is n for n in log) for x in want))
    return Fn('prepare', body, ['delayed_base.DelayedOperation.prepare', 'delayed_base.DelayedNaryOperation.children', 'delayed_base.DelayedUnaryOperation.children'])


def finalize_entry():
    def body(e, w, tag):
        report_pixels(w, ('float32',))
        view = w.fresh_view('v')
        log = []

        def prep(node):
            def prepare():
                log.append(('prepare', node))
                return node
            return prepare
        w.reported['prepare'] = prep
        den = w.den(view)
        opt, prp = e.choose([True, False], 'optimize'), e.choose([True, False], 'prepare')
        e.on_refuted = final_case(e, w, view)
        fn = w.lookup(w.base.DelayedOperation, 'finalize')
        kw = {} if opt and prp else {'optimize': opt, 'prepare': prp}
        ok, res = run_body(e, w, tag, lambda: fn(view, **kw), ['C17'])
        if not ok:
            return
        e.cover('returns')
        src = view
        if opt:
            src = w.optimized[id(view)][1] if id(view) in w.optimized else view
            e.check(tag + 'the view itself is optimized', w.calls in ([view], []))
        else:
            e.check(tag + 'no optimization unless asked for', not w.calls)
        e.check(tag + 'the view is prepared when asked for', (('prepare', view) in log) == prp)
        if check_array(e, tag, declared(view), res):
            ix = index(e, declared(view))
            same_el(e, tag + 'the pixels of the finalized view', res.at(*ix), src._finalize().at(*ix))
    return Fn('finalize', body, ['delayed_base.DelayedOperation.finalize'])


def c17(tier):
    return [finalize_of(k) for k in ('ident', 'nans', 'nodata', 'crop', 'dequant')] + [finalize_concat(n) for n in (1, 2, 3)] + \
        [finalize_resampled(k) for k in ('overview', 'warp', 'nearest aligned', 'nearest general')] + [finalize_xarray(), evaluate(), prepare_load(), prepare_tree(), finalize_entry()]
