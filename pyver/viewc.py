"""Contract targets on single operations of views (C03, C05, C06)"""
from pyver import sym, nodes, facade, replay, treec
from pyver.nodes import AbsNode, apply_aff, Bad
from pyver.facade import SymAffine
from pyver.sym import EQ, AND, OR, NOT, IMP, smin, smax, SymNum
from pyver.treec import check_den, run_body


class Fn:
    """a target given as a function body(e, w, tag)"""
    def __init__(self, name, body, funcs=(), **kw):
        self.name = name
        self.body = body
        self.funcs = funcs
        self.__dict__.update(kw)

    def functions(self, w):
        out = []
        for f in self.funcs:
            mod, _, rest = f.partition('.')
            obj = w.env.module('delayed_image.' + mod)
            try:
                for p in rest.split('.'):
                    obj = getattr(obj, p)
            except AttributeError:
                continue
            out.append('delayed_image.' + f)
        return out

    def run(self, e, w, props):
        w.reset()
        w.install_contracts()
        w.use = set()
        self.body(e, w, self.name + ': ')


def concrete(e, w, model):
    return replay.Concrete(e, w, model)


def case(fn):
    """wrap a function model -> case so that no concrete case is not an error"""
    def go(model):
        if model is None:
            return []
        try:
            return [c for c in [fn(model)] if c is not None]
        except replay.No:
            return []
    return go


def aff_den(A, d):
    return apply_aff(A, d)


def shift(x, y):
    return SymAffine.translate((x, y))


# ------------------------------------------------------------------ slices

def pyslice(a, b, n):
    """first element and number of elements of range(n)[a:b] (the definition of Python)"""
    def norm(v, dflt):
        if v is None:
            return dflt
        if v < 0:
            return smax(v + n, 0)
        return smin(v, n)
    s, t = norm(a, 0), norm(b, n)
    return s, smax(t - s, 0)


def optint(e, name):
    return e.fresh(name, True) if e.choose([True, False], name + ' given') else None


def slices(e):
    y = optint(e, 'y0'), optint(e, 'y1')
    x = optint(e, 'x0'), optint(e, 'x1')
    return slice(*y), slice(*x)


def slice_case(c, s):
    return [None if s.start is None else c.val(s.start), None if s.stop is None else c.val(s.stop)]


def check_window(e, w, tag, view, res, sl):
    """res is view[sl]"""
    W, H = view.dsize
    y0, ny = pyslice(sl[0].start, sl[0].stop, H)
    x0, nx = pyslice(sl[1].start, sl[1].stop, W)
    d = res.dsize
    e.check(tag + 'number of columns', EQ(d[0], nx))
    e.check(tag + 'number of rows', EQ(d[1], ny))
    e.check(tag + 'shape', AND(EQ(res.shape[0], ny), EQ(res.shape[1], nx)))
    if nx > 0 and ny > 0:
        e.cover('a window with pixels')
        check_den(e, tag + 'first row and column', apply_aff(shift(-x0, -y0), w.den(view)), w.den(res))
    for what, g in w.valid_checks(res):
        e.check(tag + what, g)


def crop_entry(how, kinds=None):
    def body(e, w, tag):
        if how == 'concat':
            view = AbsNode.real(w.fresh_view('v', kinds=('concat',)))
        elif how == 'getitem':
            view = AbsNode.real(w.fresh_view('v', kinds=('load',)))
        else:
            view = w.fresh_view('v', kinds=kinds or nodes.ALL)
        sl = slices(e)
        idx = None
        if how in ('crop', 'getitem') and e.choose([False, True], 'channels selected'):
            idx = nodes.SymSeq.fresh(e, 'idx')
        e.on_refuted = case(lambda m: (lambda c: {'p': c.program(view), 'cr': [[slice_case(c, sl[0]), slice_case(c, sl[1])]],
                                                  'item': how not in ('crop', 'lazy'), 'lazy': how == 'lazy'})(concrete(e, w, m)))
        snap = None
        if how == 'init':
            fn = lambda: w.nodes.DelayedCrop(view, sl, idx)   # noqa
        elif how == 'lazy':
            fn = lambda: w.lookup(w.cls['load'], 'crop')(view, sl, lazy=True)   # noqa
        elif how == 'crop':
            fn = lambda: w.lookup(w.cls['load'], 'crop')(view, sl, idx)     # noqa
        else:
            key = sl if idx is None else sl + (idx,)
            fn = lambda: type(view).__getitem__(view, key)    # noqa
        ok, res = run_body(e, w, tag, fn, ['C05'])
        if not ok:
            return
        e.cover('returns')
        if how == 'init':
            for s, a, n in ((res.meta['space_slice'][0],) + (sl[0], view.dsize[1]), (res.meta['space_slice'][1],) + (sl[1], view.dsize[0])):
                s0, k = pyslice(a.start, a.stop, n)
                e.check(tag + 'exact window', AND(EQ(s.start, s0), EQ(s.stop, s0 + k)))
        if idx is None:
            check_window(e, w, tag, view, res, sl)
        else:
            W, H = view.dsize
            y0, ny = pyslice(sl[0].start, sl[0].stop, H)
            x0, nx = pyslice(sl[1].start, sl[1].stop, W)
            e.check(tag + 'number of columns', EQ(res.dsize[0], nx))
            e.check(tag + 'number of rows', EQ(res.dsize[1], ny))
            e.check(tag + 'number of channels', EQ(res.num_channels, idx.n))
            if nx > 0 and ny > 0:
                check_den(e, tag + 'first row and column', nodes.select(apply_aff(shift(-x0, -y0), w.den(view)), idx), w.den(res))
    return Fn('crop entry[{}]'.format(how), body,
              {'init': ['delayed_nodes.DelayedCrop.__init__'], 'lazy': ['delayed_nodes.ImageOpsMixin.crop'],
               'crop': ['delayed_nodes.ImageOpsMixin.crop', 'delayed_nodes.DelayedCrop.__init__'],
               'getitem': ['delayed_nodes.DelayedImage.__getitem__'],
               'concat': ['delayed_nodes.DelayedChannelConcat.__getitem__']}[how])


def crop_of_crop():
    def body(e, w, tag):
        view = w.fresh_view('v')
        s1, s2 = slices(e), slices(e)
        e.on_refuted = case(lambda m: (lambda c: {'p': c.program(view), 'cr': [[slice_case(c, s[0]), slice_case(c, s[1])] for s in (s1, s2)],
                                                  'item': False})(concrete(e, w, m)))
        # the first crop is taken by its contract: any valid crop node
    return body


def fuse_crops():
    def body(e, w, tag):
        inner = w.fresh_view('i')
        W, H = inner.dsize

        def window(name, W, H):
            x0, x1, y0, y1 = [e.nat(name + k) for k in ('x0', 'x1', 'y0', 'y1')]
            e.assume(AND(x0 <= x1, x1 <= W, y0 <= y1, y1 <= H))
            return (slice(y0, y1), slice(x0, x1)), (x1 - x0, y1 - y0)
        a, da = window('a', W, H)
        b, db = window('b', *da)
        e.require(True)
        ia = nodes.SymSeq.fresh(e, 'ia') if e.choose([False, True], 'inner selects') else None
        ib = nodes.SymSeq.fresh(e, 'ib') if e.choose([False, True], 'outer selects') else None
        first = w.nodes.DelayedCrop(inner, a, ia)
        node = w.nodes.DelayedCrop(first, b, ib)
        pre = treec.describe(w, node)
        e.on_refuted = case(lambda m: (lambda c: {'p': c.program(inner), 'cr': [[slice_case(c, s[0]), slice_case(c, s[1])] for s in (a, b)],
                                                  'item': False})(concrete(e, w, m)))
        fn = getattr(node, '_opt_fuse_crops', None)
        if fn is None:
            return
        ok, res = run_body(e, w, tag, fn, ['C05'])
        if ok:
            e.cover('returns')
            e.check(tag + 'number of columns', EQ(res.dsize[0], db[0]))
            e.check(tag + 'number of rows', EQ(res.dsize[1], db[1]))
            d = apply_aff(shift(-b[1].start, -b[0].start), apply_aff(shift(-a[1].start, -a[0].start), w.den(inner)))
            for s in (ia, ib):
                d = nodes.select(d, s)
            if db[0] > 0 and db[1] > 0:
                e.cover('a window with pixels')
                check_den(e, tag + 'composition of the selections', d, w.den(res))
    return Fn('crop of a crop', body, ['delayed_nodes.DelayedCrop._opt_fuse_crops'], optional=True)


def padded(entry):
    def body(e, w, tag):
        view = w.fresh_view('v')
        W, H = view.dsize
        ys, xs = slices(e)
        y0 = 0 if ys.start is None else ys.start
        y1 = H if ys.stop is None else ys.stop
        x0 = 0 if xs.start is None else xs.start
        x1 = W if xs.stop is None else xs.stop
        e.require(AND(sym.lift(y0) <= y1, sym.lift(x0) <= x1))
        form = e.choose(['none', 'int', 'axes', 'sides'], 'padding')
        if form == 'none':
            pad, p = 0, [[0, 0], [0, 0]]
        elif form == 'int':
            pad = e.nat('pad')
            p = [[pad, pad], [pad, pad]]
        elif form == 'axes':
            pad = [e.nat('pad_y'), e.nat('pad_x')]
            p = [[pad[0]] * 2, [pad[1]] * 2]
        else:
            pad = [(e.nat('pad_t'), e.nat('pad_b')), (e.nat('pad_l'), e.nat('pad_r'))]
            p = pad

        def mk(m):
            c = concrete(e, w, m)
            pv = [[c.val(v) for v in q] for q in p]
            return {'p': c.program(view), 'pad': pv, 'lazy': bool(kw), 'y': [c.val(y0), c.val(y1)], 'x': [c.val(x0), c.val(x1)]}
        e.on_refuted = case(mk)
        kw = {'lazy': True} if e.choose([False, True], 'lazy') else {}
        crop = w.lookup(w.cls['load'], 'crop')
        ok, res = run_body(e, w, tag, lambda: crop(view, (ys, xs), clip=False, wrap=False, pad=pad, **kw), ['C05'])
        if ok:
            e.cover('returns')
            e.check(tag + 'width is the requested width plus padding', EQ(res.dsize[0], x1 - x0 + p[1][0] + p[1][1]))
            e.check(tag + 'height is the requested height plus padding', EQ(res.dsize[1], y1 - y0 + p[0][0] + p[0][1]))
            if AND(sym.lift(x0) < W, sym.lift(x1) > 0, sym.lift(y0) < H, sym.lift(y1) > 0):
                e.cover('overlaps')
                check_den(e, tag + 'shifted by the start of the window minus the padding',
                          apply_aff(shift(p[1][0] - x0, p[0][0] - y0), w.den(view)), w.den(res))
    return Fn('unclipped crop', body, ['delayed_nodes.ImageOpsMixin.crop', 'delayed_nodes.ImageOpsMixin._padded_crop'])


# ------------------------------------------------------------------ sizes

def corners(T, W, H):
    return [facade.pt(T, x, y) for x, y in ((0, 0), (W, 0), (0, H), (W, H))]


def check_canvas(e, tag, d, T, W, H):
    """d is the smallest integer size that contains the transformed corners"""
    cs = corners(T, W, H)
    for ax, nm in ((0, 'width'), (1, 'height')):
        e.check(tag + nm + ' contains the corners', AND(*[sym.lift(c[ax]) <= d[ax] for c in cs]))
        e.check(tag + nm + ' is the smallest', OR(*[sym.lift(c[ax]) > d[ax] - 1 for c in cs]))
        e.check(tag + nm + ' is an integer', isint(d[ax]))


def isint(v):
    return v.isint if isinstance(v, SymNum) else isinstance(v, int)


def prog_case(e, w, make):
    def go(m):
        c = concrete(e, w, m)
        return {'p': make(c)}
    return case(go)


def matrix(c, T):
    m = [float(c.val(x)) for x in T.m6()]
    return {'matrix': [m[:3], m[3:], [0., 0., 1.]]}


def any_affine(e):
    a = e.reals('a', 'b', 'tx', 'c', 'd', 'ty')
    return SymAffine.six(*a)


def auto_size():
    def body(e, w, tag):
        W, H = e.nat('W'), e.nat('H')
        T = any_affine(e) if e.choose([True, False], 'transform given') else SymAffine(None)
        e.on_refuted = case(lambda m: (lambda c: {'p': {'op': 'warp', 'sub': c.leaf('leaf', (W, H), 1, None), 'tf': matrix(c, T), 'kw': {}}})(concrete(e, w, m)))
        fn = getattr(w.helpers, '_auto_dsize', None)
        if fn is None:
            return
        ok, d = run_body(e, w, tag, lambda: fn(T, (W, H)), ['C06'])
        if ok:
            e.cover('returns')
            check_canvas(e, tag, d, T, W, H)
    return Fn('automatic canvas', body, ['helpers._auto_dsize'], optional=True)


def opt_den(e, w, tag, view, res, A):
    check_den(e, tag + 'coordinates', apply_aff(A, w.den(view)), w.den(res))
    e.check(tag + 'number of channels', EQ(res.num_channels, view.num_channels))


def warp_size(how):
    def body(e, w, tag):
        view = w.fresh_view('v')
        W, H = view.dsize
        mix = w.cls['load']
        if how in ('auto', 'explicit', 'lazy'):
            T = any_affine(e)
            kw = {}
            ds = None
            if how == 'explicit' or how == 'lazy' and e.choose([True, False], 'size given'):
                ds = (e.nat('dw'), e.nat('dh'))
                kw['dsize'] = ds
            if how == 'lazy':
                kw['lazy'] = True
            prog = lambda c: {'op': 'warp', 'sub': c.program(view), 'tf': matrix(c, T), 'kw': {}, **({'dsize': c.size(ds)} if ds else {})}   # noqa
            fn = lambda: w.lookup(mix, 'warp')(view, T, **kw)   # noqa
        elif how == 'none':
            T, ds = SymAffine(None), None
            prog = lambda c: {'op': 'warp', 'sub': c.program(view), 'tf': {'scale': 1}, 'kw': {}}   # noqa
            fn = lambda: w.lookup(mix, 'warp')(view, None)     # noqa
        elif how == 'resize':
            e.require(AND(W >= 1, H >= 1))
            ds = (e.nat('dw'), e.nat('dh'))
            T = SymAffine.scale((ds[0] / W, ds[1] / H))
            prog = lambda c: {'op': 'resize', 'sub': c.program(view), 'dsize': c.size(ds)}    # noqa
            fn = lambda: w.lookup(mix, 'resize')(view, ds)   # noqa
        elif how == 'scale':
            ds = None
            if e.choose([True, False], 'one factor'):
                s = e.fresh('s')
                T = SymAffine.scale((s, s))
            else:
                s = e.reals('sx', 'sy')
                T = SymAffine.scale(tuple(s))
            if e.choose([False, True], 'size given'):
                ds = (e.nat('dw'), e.nat('dh'))
            prog = lambda c: {'op': 'scale', 'sub': c.program(view), 'scale': c.val(s) if isinstance(s, SymNum) else [float(c.val(x)) for x in s]}   # noqa
            fn = lambda: w.lookup(mix, 'scale')(view, s, **({'dsize': ds} if ds else {}))   # noqa
        e.on_refuted = prog_case(e, w, prog)
        ok, res = run_body(e, w, tag, fn, ['C06'])
        if not ok:
            return
        e.cover('returns')
        d = res.dsize
        if ds is not None:
            e.check(tag + 'width is the requested one', EQ(d[0], ds[0]))
            e.check(tag + 'height is the requested one', EQ(d[1], ds[1]))
        else:
            check_canvas(e, tag, d, T, W, H)
        e.check(tag + 'shape', AND(EQ(res.shape[0], d[1]), EQ(res.shape[1], d[0])))
        opt_den(e, w, tag, view, res, T)
    return Fn('size of a warp[{}]'.format(how), body,
              {'auto': ['delayed_nodes.DelayedWarp.__init__', 'delayed_nodes.ImageOpsMixin.warp'], 'explicit': ['delayed_nodes.DelayedWarp.__init__'],
               'lazy': ['delayed_nodes.ImageOpsMixin.warp'], 'none': ['delayed_nodes.DelayedWarp.__init__'],
               'resize': ['delayed_nodes.ImageOpsMixin.resize'], 'scale': ['delayed_nodes.ImageOpsMixin.scale']}[how])


def overview_size():
    def body(e, w, tag):
        view = w.fresh_view('v')
        W, H = view.dsize
        n = e.nat('n')
        e.on_refuted = prog_case(e, w, lambda c: {'op': 'overview', 'sub': c.program(view), 'n': c.val(n)})
        ok, res = run_body(e, w, tag, lambda: w.lookup(w.cls['load'], 'get_overview')(view, n), ['C06'])
        if ok:
            e.cover('returns')
            p = sym.pow2(n)
            d = res.dsize
            for v, D, nm in ((d[0], W, 'width'), (d[1], H, 'height')):
                e.check(tag + nm + ' is the size over 2^n rounded up', EQ(v, sym.ceil(D / p)))
                e.check(tag + nm + ' is an integer', isint(v))
            e.check(tag + 'shape', AND(EQ(res.shape[0], d[1]), EQ(res.shape[1], d[0])))
            opt_den(e, w, tag, view, res, SymAffine.scale(1 / p))
    return Fn('size of an overview', body, ['delayed_nodes.DelayedOverview.__init__', 'delayed_nodes.ImageOpsMixin.get_overview'])


def same_size(how):
    def body(e, w, tag):
        view = w.fresh_view('v', nodeq=True) if how == 'dequantize' else w.fresh_view('v')
        W, H = view.dsize
        mix = w.cls['load']
        q = facade.Opaque('quantization')
        if how == 'dequantize':
            e.on_refuted = prog_case(e, w, lambda c: {'op': 'dequant', 'sub': c.program(view)})
            fn = lambda: w.lookup(mix, 'dequantize')(view, q)     # noqa
        elif how == 'xarray':
            fn = lambda: w.lookup(mix, 'as_xarray')(view)     # noqa
        else:
            seg = getattr(w.nodes, '_InnerAccumSegment', None)
            if seg is None:
                return

            def fn():
                s = seg(None)
                for j in range(e.choose([1, 2, 3], 'missing channels')):
                    s.add_inner(j, None)
                return s.get_subcomponent((W, H))
        ok, res = run_body(e, w, tag, fn, ['C06'])
        if ok:
            e.cover('returns')
            d = res.dsize
            e.check(tag + 'width is kept', EQ(d[0], W))
            e.check(tag + 'height is kept', EQ(d[1], H))
            e.check(tag + 'shape', AND(EQ(res.shape[0], d[1]), EQ(res.shape[1], d[0])))
            if how == 'placeholder':
                e.check(tag + 'is a placeholder', issubclass(type(res), w.leafs.DelayedNans))
            else:
                d0 = w.den(view)
                if how == 'dequantize':
                    d0 = nodes.apply_q(q, d0)
                check_den(e, tag + 'coordinates', d0, w.den(res))
    return Fn('size is kept[{}]'.format(how), body,
              {'dequantize': ['delayed_nodes.DelayedDequantize.__init__', 'delayed_nodes.ImageOpsMixin.dequantize'],
               'xarray': ['delayed_nodes.ImageOpsMixin.as_xarray'], 'placeholder': ['delayed_nodes._InnerAccumSegment.get_subcomponent', 'delayed_leafs.DelayedNans.__init__']}[how],
              optional=how == 'placeholder')


# ------------------------------------------------------------------ C03

def region(T, x0, x1, y0, y1):
    I = T.inv()
    return [facade.pt(I, x, y) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]


def margin_goals(start, stop, W, ps):
    """start <= max(0, lo - 1) and stop >= min(W, hi + 1), for lo, hi the extent of ps"""
    return [('margin before', OR(sym.lift(start) <= 0, AND(*[sym.lift(start) <= p - 1 for p in ps]))),
            ('margin after', OR(False if W is None else sym.lift(stop) >= W, AND(*[sym.lift(stop) >= p + 1 for p in ps])))]


def general(e, axis):
    """a transform that is not a positive scale and a shift, given by its inverse; the signs of
    the entries that matter for one axis are distinguished"""
    I = facade.fresh_affine(e, 'I', ('general',))
    m = I.m6()
    for k in ((0, 1) if axis == 0 else (3, 4)):
        c = e.choose(['+', '-', '0'], 'sign of entry %d' % k)
        e.assume(m[k] > 0 if c == '+' else m[k] < 0 if c == '-' else EQ(m[k], 0))
    e.require(True)
    return I.inv()


def window(e):
    x0, y0, w, h = e.nat('x0'), e.nat('y0'), e.nat('w', 1), e.nat('h', 1)
    return x0, x0 + w, y0, y0 + h


def crop_below_warp(shape, axis):
    def body(e, w, tag):
        src = w.fresh_view('s', nocat=True, names=False)
        W, H = src.dsize
        T = facade.fresh_affine(e, 'T', (shape,)) if shape == 'aligned' else general(e, axis)
        x0, x1, y0, y1 = window(e)
        V, U = x1 + e.nat('vw'), y1 + e.nat('vh')
        warp = w.nodes.DelayedWarp(src, T, dsize=(V, U), **w.opaque_warp_params())
        idx = nodes.SymSeq.fresh(e, 'idx') if shape == 'aligned' and e.choose([False, True], 'selects channels') else None
        w.use = {('crop', '__init__')}
        node = w.nodes.DelayedCrop(warp, (slice(y0, y1), slice(x0, x1)), idx)
        ps = region(T, x0, x1, y0, y1)
        for ax, D in ((0, W), (1, H)):
            if ax == axis:
                e.assume(OR(*[p[ax] < D for p in ps]))
                e.assume(OR(*[p[ax] > 0 for p in ps]))
        e.require(True)
        e.on_refuted = prog_case(e, w, lambda c: c.program(node))
        fn = getattr(node, '_opt_warp_after_crop', None)
        if fn is None:
            return
        ok, res = run_body(e, w, tag, fn, ['C03'])
        if not ok:
            return
        e.cover('returns')
        if res is node:
            e.cover('returns its argument')
            return
        crop = res.subdata
        if type(res) is not w.cls['warp'] or type(crop) is not w.cls['crop'] or crop.subdata is not src:
            e.undecided(tag + 'a warp of a crop of the source', repr(res))
            return
        sy, sx = crop.meta['space_slice']
        sl, D, nm = ((sx, W, 'x'), (sy, H, 'y'))[axis]
        e.check(tag + nm + ' window inside of the source', AND(sym.lift(sl.start) >= 0, sym.lift(sl.start) <= sl.stop, sym.lift(sl.stop) <= D))
        for what, g in margin_goals(sl.start, sl.stop, D, [p[axis] for p in ps]):
            e.check(tag + nm + ' ' + what, g)
    return Fn('window of a crop below a warp[{} {}]'.format(shape, 'xy'[axis]), body, ['delayed_nodes.DelayedCrop._opt_warp_after_crop'], optional=True)


def swap_helper(axis):
    def body(e, w, tag):
        T = general(e, axis)
        x0, x1, y0, y1 = window(e)
        ps = region(T, x0, x1, y0, y1)
        e.assume(OR(*[p[axis] > 0 for p in ps]))
        e.require(True)
        fn = getattr(w.helpers, '_swap_warp_after_crop', None)
        if fn is None:
            return
        box = w.env.overrides['kwimage'].Boxes.from_slice((slice(y0, y1), slice(x0, x1))).to_polygons()[0]
        W, H = e.nat('sw', 1), e.nat('sh', 1)
        e.on_refuted = prog_case(e, w, lambda c: {
            'op': 'crop', 'sub': {'op': 'warp', 'sub': c.leaf('leaf', (W, H), 1, None), 'tf': matrix(c, T), 'kw': {},
                                  'dsize': c.size((x1, y1))}, 'y': [c.val(y0), c.val(y1)], 'x': [c.val(x0), c.val(x1)]})
        ok, res = run_body(e, w, tag, lambda: fn(box, T), ['C03'])
        if not ok:
            return
        e.cover('returns')
        sl, out = res
        s, nm = ((sl[1], 'x'), (sl[0], 'y'))[axis]
        e.check(tag + nm + ' window starts at or after 0', AND(sym.lift(s.start) >= 0, sym.lift(s.start) <= s.stop))
        for what, g in margin_goals(s.start, s.stop, None, [p[axis] for p in ps]):
            e.check(tag + nm + ' ' + what, g)
        want = shift(-x0, -y0) @ T @ shift(sl[1].start, sl[0].start)
        got = SymAffine.coerce(out)
        for i, (a, b) in enumerate(zip(want.m6(), got.m6())):
            e.check(tag + 'the warp after the crop', EQ(a, b), note='matrix entry %d' % i)
    return Fn('exchange helper[{}]'.format('xy'[axis]), body, ['helpers._swap_warp_after_crop'], optional=True)


def c03(tier):
    out = []
    for ax in (0, 1):
        out += [crop_below_warp('general', ax), swap_helper(ax), crop_below_warp('aligned', ax)]
    return out


def c05(tier):
    return [crop_entry('crop'), crop_entry('getitem'), crop_entry('init'), crop_entry('lazy'), crop_entry('concat'), padded('crop'), fuse_crops()]


def c06(tier):
    return [auto_size()] + [warp_size(k) for k in ('auto', 'explicit', 'lazy', 'none', 'resize', 'scale')] + [overview_size()] + \
        [same_size(k) for k in ('dequantize', 'xarray', 'placeholder')]
