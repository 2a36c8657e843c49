"""
Bounded layer shared by the view properties.

A *program* is a JSON tree describing how a user builds a view.  ``build``
executes it on the real code, and ``spec_of`` computes what the result has to
be (size, channels, source coordinates) from the program text alone, without
looking at the library.  ``denote`` reads the same facts off a real operation
tree by walking its nodes.
"""
import math
import random
import numpy as np

NAMES = ['r', 'g', 'b', 'n', 'x', 'y', 'q.0', 'q.1', 'q.2', 'k']


class Spec:
    def __init__(self, w, h, chans, names):
        self.w, self.h = w, h
        self.chans = chans      # list of None (nan) or (leafid, idx, 3x3)
        self.names = names      # list of str or None if unnamed

    def tf(self, M):
        return [None if c is None else (c[0], c[1], M @ c[2]) for c in self.chans]


def T(x, y):
    return np.array([[1., 0, x], [0, 1., y], [0, 0, 1.]])


def S(x, y):
    return np.diag([x, y, 1.])


def mat_of(tf):
    """Independent scale/shear/rotation/offset composition."""
    if 'matrix' in tf:
        return np.array(tf['matrix'], dtype=float)
    sc = tf.get('scale', 1)
    sx, sy = (sc, sc) if np.isscalar(sc) else sc
    off = tf.get('offset', 0)
    tx, ty = (off, off) if np.isscalar(off) else off
    th = tf.get('theta', 0)
    sh = tf.get('shearx', 0)
    c, s = math.cos(th), math.sin(th)
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    H = np.array([[1., sh, 0], [0, 1, 0], [0, 0, 1]])
    return T(tx, ty) @ R @ H @ S(sx, sy)


def ceil_opts(v):
    """Acceptable values of ceil under rounding error"""
    return {math.ceil(v - 1e-6), math.ceil(v + 1e-6), math.ceil(v)}


class Ambiguous(Exception):
    pass


def auto_size(M, w, h):
    pts = M @ np.array([[0, w, 0, w], [0, 0, h, h], [1, 1, 1, 1]])
    mx, my = pts[0].max(), pts[1].max()
    for v in (mx, my):
        if len(ceil_opts(v)) > 1 and v != round(v):
            raise Ambiguous
        if v != round(v) and abs(v - round(v)) < 1e-6:
            raise Ambiguous
    return math.ceil(mx), math.ceil(my)


def py_slice(sl, n):
    a, b, _ = slice(*sl).indices(n)
    return a, max(a, b)


def spec_of(p, memo=None):
    if memo is None:
        memo = {}
    key = id(p)
    if key in memo:
        return memo[key]
    op = p['op']
    if op == 'leaf':
        names = p['ch']
        out = Spec(p['w'], p['h'], [(p['id'], i, np.eye(3)) for i in range(p['c'])], names)
    elif op == 'nans':
        out = Spec(p['w'], p['h'], [None] * p['c'], p['ch'])
    else:
        if op == 'concat':
            subs = [spec_of(s, memo) for s in p['subs']]
            names = None
            if all(s.names is not None for s in subs):
                names = sum([list(s.names) for s in subs], [])
            out = Spec(subs[0].w, subs[0].h, sum([s.chans for s in subs], []), names)
        else:
            s = spec_of(p['sub'], memo)
            if op == 'warp':
                M = mat_of(p['tf'])
                if p.get('dsize') is not None:
                    w, h = p['dsize']
                else:
                    w, h = auto_size(M, s.w, s.h)
                out = Spec(w, h, s.tf(M), s.names)
            elif op == 'crop':
                y0, y1 = py_slice(p['y'], s.h)
                x0, x1 = py_slice(p['x'], s.w)
                ch, nm = s.tf(T(-x0, -y0)), s.names
                if p.get('idx') is not None:
                    ch = [ch[i] for i in p['idx']]
                    nm = None if nm is None else [nm[i] for i in p['idx']]
                out = Spec(x1 - x0, y1 - y0, ch, nm)
            elif op == 'padcrop':
                (y0, y1), (x0, x1), pad = p['y'], p['x'], p['pad']
                out = Spec(x1 - x0 + 2 * pad, y1 - y0 + 2 * pad,
                           s.tf(T(-(x0 - pad), -(y0 - pad))), s.names)
            elif op == 'take':
                ch = []
                nm = []
                for n in p['ch']:
                    if n in s.names:
                        ch.append(s.chans[s.names.index(n)])
                    else:
                        ch.append(None)
                    nm.append(n)
                out = Spec(s.w, s.h, ch, nm)
            elif op == 'takei':
                ch = [s.chans[i] for i in p['idx']]
                nm = None if s.names is None else [s.names[i] for i in p['idx']]
                out = Spec(s.w, s.h, ch, nm)
            elif op == 'overview':
                k = 2 ** p['n']
                out = Spec(-(-s.w // k), -(-s.h // k), s.tf(S(1 / k, 1 / k)), s.names)
            elif op == 'dequant':
                out = Spec(s.w, s.h, s.chans, s.names)
            elif op == 'resize':
                w, h = p['dsize']
                out = Spec(w, h, s.tf(S(w / s.w, h / s.h)), s.names)
            elif op == 'scale':
                M = mat_of({'scale': p['scale']})
                w, h = auto_size(M, s.w, s.h)
                out = Spec(w, h, s.tf(M), s.names)
            else:
                raise KeyError(op)
    memo[key] = out
    return out


def leaf_pixels(p):
    rng = np.random.RandomState(p['id'] * 7 + p['w'] * 31 + p['h'])
    return rng.randint(1, 200, (p['h'], p['w'], p['c'])).astype(p.get('dtype', 'float64'))


def leaf_mask(p):
    return np.random.RandomState(p['id'] * 11 + p['w'] * 5 + p['h']).randint(0, 3, (p['h'], p['w'], p['c'])) == 0


_SCRATCH = []


def scratch():
    import atexit, shutil, tempfile
    if not _SCRATCH:
        _SCRATCH.append(tempfile.mkdtemp(prefix='verif-'))
        atexit.register(shutil.rmtree, _SCRATCH[0], True)
    return _SCRATCH[0]


def leaf_file(p):
    """A GeoTIFF holding leaf_pixels(p)"""
    import os
    from osgeo import gdal
    gdal.UseExceptions()
    a = leaf_pixels(p)
    fp = os.path.join(scratch(), 'leaf_{}_{}_{}_{}_{}_{}.tif'.format(p['id'], p['w'], p['h'], p['c'], a.dtype, p.get('nov')))
    if not os.path.exists(fp):
        dt = {'uint8': gdal.GDT_Byte, 'int16': gdal.GDT_Int16, 'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64}[str(a.dtype)]
        d = gdal.GetDriverByName('GTiff').Create(fp, p['w'], p['h'], p['c'], dt)
        for i in range(p['c']):
            d.GetRasterBand(i + 1).WriteArray(a[:, :, i])
        if p.get('nov'):
            d.BuildOverviews('NEAREST', [2 ** (i + 1) for i in range(p['nov'])])
        d.FlushCache()
        del d
    return fp


QUANT = {'orig_min': 0., 'orig_max': 10., 'quant_min': 0, 'quant_max': 255, 'nodata': 0}


def spell(names, p):
    """channel names as text, with range and alias codes when the program says so"""
    out = '|'.join(names)
    if p.get('sp'):
        for a, b in (('r|g|b', 'rgb'), ('q.0|q.1|q.2', 'q:3'), ('q.0|q.1', 'q:2'), ('q.1|q.2', 'q.1:3')):
            out = out.replace(a, b)
    return out


def build(p, memo=None, trace=None):
    """Run the program on the real code"""
    from delayed_image import delayed_leafs as L, delayed_nodes as N
    if memo is None:
        memo = {}
    if id(p) in memo:
        return memo[id(p)]
    op = p['op']
    if op == 'leaf':
        ch = p['ch']
        ch = None if ch is None else spell(ch, p)
        if p.get('file'):
            out = L.DelayedLoad(leaf_file(p), channels=ch).prepare()
        else:
            data = leaf_pixels(p)
            if p.get('mask'):
                data = np.ma.array(data, mask=leaf_mask(p))
            out = L.DelayedIdentity(data, channels=ch)
            out.meta['num_overviews'] = p.get('nov')
    elif op == 'nans':
        ch = p['c'] if p['ch'] is None else spell(p['ch'], p)
        out = L.DelayedNodata((p['w'], p['h']), channels=ch, nodata_method=p['nodata']) if 'nodata' in p else L.DelayedNans((p['w'], p['h']), channels=ch)
    elif op == 'concat':
        out = N.DelayedChannelConcat([build(s, memo, trace) for s in p['subs']])
    else:
        s = build(p['sub'], memo, trace)
        if op == 'warp':
            kw = dict(p.get('kw', {}))
            if p.get('dsize') is not None:
                kw['dsize'] = tuple(p['dsize'])
            tf = p['tf']
            if 'matrix' in tf:
                tf = np.array(tf['matrix'], dtype=float)
            out = s.warp(tf, **kw)
        elif op == 'crop':
            sl = (slice(*p['y']), slice(*p['x']))
            if p.get('idx') is not None:
                out = s.crop(sl, chan_idxs=list(p['idx']))
            else:
                out = s.crop(sl)
        elif op == 'padcrop':
            out = s.crop((slice(*p['y']), slice(*p['x'])), clip=False, wrap=False, pad=p['pad'])
        elif op == 'take':
            out = s.take_channels(spell(p['ch'], p))
        elif op == 'takei':
            out = s.take_channels(list(p['idx']))
        elif op == 'overview':
            out = s.get_overview(p['n'])
        elif op == 'dequant':
            out = s.dequantize(dict(QUANT))
        elif op == 'resize':
            out = s.resize(tuple(p['dsize']))
        elif op == 'scale':
            out = s.scale(p['scale'])
        else:
            raise KeyError(op)
    memo[id(p)] = out
    if trace is not None:
        trace.append((p, out))
    return out


def leaf_ids(p, memo, acc=None):
    """Map id(real leaf) -> program leaf id, after ``build(p, memo)``"""
    if acc is None:
        acc = {}
    if p['op'] == 'leaf':
        acc[id(memo[id(p)])] = p['id']
    elif p['op'] == 'concat':
        for s in p['subs']:
            leaf_ids(s, memo, acc)
    elif 'sub' in p:
        leaf_ids(p['sub'], memo, acc)
    return acc


def denote(node, leafmap):
    """Walk a real operation tree.  Returns per channel None|(leaf, idx, M)"""
    from delayed_image import delayed_leafs as L, delayed_nodes as N
    if isinstance(node, L.DelayedNans):
        return [None] * int(node.num_channels)
    if id(node) in leafmap:
        return [(leafmap[id(node)], i, np.eye(3)) for i in range(int(node.num_channels))]
    if isinstance(node, N.DelayedChannelConcat):
        return sum([denote(q, leafmap) for q in node.parts], [])
    sub = denote(node.subdata, leafmap)
    if isinstance(node, N.DelayedWarp):
        M = np.asarray(node.meta['transform'], dtype=float)
        if M.shape == (2, 3):
            M = np.vstack([M, [0, 0, 1]])
    elif isinstance(node, N.DelayedCrop):
        sy, sx = node.meta['space_slice']
        M = T(-sx.start, -sy.start)
        idx = node.meta.get('chan_idxs')
        if idx is not None:
            sub = [sub[i] for i in idx]
    elif isinstance(node, N.DelayedOverview):
        k = 2 ** node.meta['overview']
        M = S(1 / k, 1 / k)
    elif isinstance(node, (N.DelayedDequantize, N.DelayedAsXarray)):
        M = np.eye(3)
    else:
        M = np.asarray(node._transform_from_subdata(), dtype=float)
    return [None if c is None else (c[0], c[1], M @ c[2]) for c in sub]


def same_geom(a, b, tol=1e-5):
    if len(a) != len(b):
        return 'number of channels {} != {}'.format(len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if (x is None) != (y is None):
            return 'channel {}: placeholder vs data'.format(i)
        if x is None:
            continue
        if x[:2] != y[:2]:
            return 'channel {}: comes from {} instead of {}'.format(i, x[:2], y[:2])
        if not np.allclose(x[2], y[2], atol=tol, rtol=tol):
            return 'channel {}: transform {} instead of {}'.format(
                i, np.round(x[2], 5).tolist(), np.round(y[2], 5).tolist())
    return None


def names_bad(node, names):
    """Names only have to agree when the program determines all of them"""
    return names is not None and names_of(node) != list(names)


def names_of(node):
    ch = node.channels
    return None if ch is None else list(ch.normalize().parsed)


# ------------------------------------------------------------- generation
class Gen:
    def __init__(self, seed, warps='any', maxdim=40):
        self.rng = random.Random(seed)
        self.nid = 0
        self.warps = warps
        self.maxdim = maxdim

    def leaf(self, w=None, h=None, names=None):
        r = self.rng
        self.nid += 1
        w = w or r.choice([1, 2, 3, 5, 8, 13, 16, 17, 31, 32, 33])
        h = h or r.choice([1, 2, 4, 7, 9, 15, 16, 20, 32])
        if names is None:
            c = r.choice([1, 1, 2, 3])
            names = r.sample(NAMES, c) if r.random() < .8 else None
            sp = names is not None and r.random() < .25
            if sp:
                names = list(r.choice([['r', 'g', 'b'], ['q.0', 'q.1'], ['q.1', 'q.2'], ['q.0', 'q.1', 'q.2'], ['x', 'q.0', 'q.1'], ['q.1', 'q.2', 'k']]))
                c = len(names)
        else:
            c = len(names)
            sp = r.random() < .2
        op = 'nans' if r.random() < .12 else 'leaf'
        out = {'op': op, 'id': self.nid, 'w': w, 'h': h, 'c': c, 'ch': names,
               'nov': r.choice([None, 0, 1, 2, 3, 3])}
        if sp:
            out['sp'] = True
        return out

    def some_warp(self, w, h):
        r = self.rng
        kind = r.choice(['scale', 'pow2', 'offset', 'both', 'rot', 'shear', 'id', 'tiny', 'down', 'up', 'any'])
        if self.warps == 'exact':
            return {'offset': [r.randint(-3, 6), r.randint(-3, 6)]}
        f = lambda: r.choice([.1, .25, .3, .5, .75, .9, 1, 1.5, 2, 2.5, 3, 4, 8])
        o = lambda: r.choice([0, 1, -1, 2.5, 7, -4.25, .5, 40, -40, 11])
        if kind == 'scale':
            return {'scale': [f(), f()]}
        if kind == 'pow2':
            return {'scale': r.choice([.125, .25, .5, 1, 2, 4])}
        if kind == 'offset':
            return {'offset': [o(), o()]}
        if kind == 'both':
            return {'scale': [f(), f()], 'offset': [o(), o()]}
        if kind == 'rot':
            return {'scale': f(), 'theta': r.choice([.1, -.4, 1.3, math.pi / 2, 3.]), 'offset': [o(), o()]}
        if kind == 'shear':
            return {'scale': [f(), f()], 'shearx': r.choice([.2, -.3]), 'theta': .2, 'offset': [o(), o()]}
        if kind == 'id':
            return {'scale': 1}
        if kind == 'tiny':
            return {'offset': [1 / 3, 1 / 7], 'scale': 1.0001}
        if kind == 'down':
            return {'scale': r.choice([.25, .2, .13, .4]), 'offset': [o(), o()]}
        if kind == 'up':
            return {'scale': r.choice([2, 3, 4, 5.5]), 'offset': [o(), o()]}
        return {'matrix': [[f(), r.uniform(-.5, .5), o()], [r.uniform(-.5, .5), f(), o()], [0, 0, 1]]}

    def sl(self, n):
        r = self.rng
        k = r.random()
        if k < .15:
            return [None, None]
        if k < .25:
            return [None, r.randint(-n - 1, n + 3)]
        if k < .35:
            return [r.randint(-n - 1, n + 2), None]
        if k < .45:
            return [r.randint(-n - 2, n + 3), r.randint(-n - 2, n + 3)]
        a = r.randint(0, n)
        b = r.randint(a, n) if r.random() < .8 else n
        return [a, b]

    def some_idx(self, n):
        r = self.rng
        return [r.randint(-n, n - 1) for _ in range(0 if not n or r.random() < .04 else r.randint(1, n + 1))]

    def twin(self, p):
        """The same program on other sources; nothing but the pixels tells them apart"""
        q = {k: v for k, v in p.items() if k not in ('ch', 'sp')}
        if p['op'] in ('leaf', 'nans'):
            self.nid += 1
            q.update(id=self.nid, ch=None)
        elif p['op'] == 'concat':
            q['subs'] = [self.twin(s) for s in p['subs']]
        else:
            q['sub'] = self.twin(p['sub'])
        return q

    def grow(self, p, depth):
        """Wrap program p with ``depth`` more operations"""
        r = self.rng
        for _ in range(depth):
            p = self.step(p)
        return p

    def step(self, p):
        r = self.rng
        for _ in range(20):
            try:
                s = spec_of(p)
                ops = ['warp', 'warp', 'crop', 'crop', 'crop', 'overview', 'takei', 'take', 'dequant', 'padcrop', 'resize', 'scale', 'concat']
                if self.warps == 'exact':
                    ops = ['crop', 'crop', 'takei', 'take', 'padcrop', 'concat', 'warp']
                op = r.choice(ops)
                q = None
                if op == 'warp':
                    q = {'op': 'warp', 'sub': p, 'tf': self.some_warp(s.w, s.h)}
                    if r.random() < .5 or self.warps == 'exact':
                        q['dsize'] = [r.randint(1, 40), r.randint(1, 40)]
                    kw = {}
                    if self.warps != 'exact':
                        if r.random() < .3:
                            kw['interpolation'] = r.choice(['nearest', 'linear', 'cubic'])
                        if r.random() < .2:
                            kw['antialias'] = False
                        if r.random() < .2:
                            kw['border_value'] = r.choice([0, 3])
                        if r.random() < .1:
                            kw['backend'] = 'cv2'
                    q['kw'] = kw
                elif op == 'crop':
                    q = {'op': 'crop', 'sub': p, 'y': self.sl(s.h), 'x': self.sl(s.w)}
                    if r.random() < .3 and len(s.chans):
                        n = len(s.chans)
                        q['idx'] = self.some_idx(n)
                elif op == 'padcrop':
                    y0 = r.randint(-5, max(s.h - 1, 0))
                    x0 = r.randint(-5, max(s.w - 1, 0))
                    q = {'op': 'padcrop', 'sub': p, 'y': [y0, r.randint(max(y0, 0) + 1, s.h + 6)],
                         'x': [x0, r.randint(max(x0, 0) + 1, s.w + 6)], 'pad': r.choice([0, 0, 1, 3])}
                elif op == 'overview':
                    q = {'op': 'overview', 'sub': p, 'n': r.choice([0, 1, 1, 2, 3])}
                elif op == 'takei':
                    n = len(s.chans)
                    if n:
                        q = {'op': 'takei', 'sub': p, 'idx': self.some_idx(n)}
                elif op == 'take':
                    if s.names and len(set(s.names)) == len(s.names):
                        k = r.randint(1, 4)
                        ch = r.sample(list(dict.fromkeys(list(s.names) + ['zz', 'm.1'] + NAMES[:2])), k)
                        if r.random() < .5:
                            ch = r.sample(s.names, min(len(s.names), k))
                        q = {'op': 'take', 'sub': p, 'ch': ch, 'sp': r.random() < .3}
                elif op == 'dequant':
                    if not self.has(p, 'dequant'):
                        q = {'op': 'dequant', 'sub': p}
                elif op == 'resize':
                    if s.w > 0 and s.h > 0:
                        q = {'op': 'resize', 'sub': p, 'dsize': [r.randint(1, 40), r.randint(1, 40)]}
                elif op == 'scale':
                    q = {'op': 'scale', 'sub': p, 'scale': r.choice([.5, .25, 2, 3, 1.3])}
                elif op == 'concat' and not self.has(p, 'take') and len(s.chans) <= 3 and r.random() < .15:
                    q = {'op': 'concat', 'subs': [self.twin(p), self.twin(p)]}
                elif op == 'concat' and s.w > 0 and s.h > 0:
                    nm = [n for n in NAMES if n not in (s.names or [])]
                    k = r.choice([1, 2])
                    others = []
                    for _ in range(k):
                        if r.random() < .4:
                            o = self.leaf(s.w, s.h, r.sample(nm, min(len(nm), r.randint(1, 2))) if nm else ['o'])
                        else:
                            o = self.grow(self.leaf(names=r.sample(nm, min(len(nm), 1)) if nm else ['o']), r.randint(0, 2))
                            so = spec_of(o)
                            if (so.w, so.h) != (s.w, s.h):
                                o = {'op': 'warp', 'sub': o, 'tf': self.some_warp(0, 0), 'dsize': [s.w, s.h], 'kw': {}}
                                if self.warps == 'exact':
                                    pass
                        others.append(o)
                    subs = [p] + others
                    r.shuffle(subs)
                    if not (self.has({'op': 'concat', 'subs': others}, 'dequant') and self.has(p, 'x')):
                        q = {'op': 'concat', 'subs': subs}
                if q is None:
                    continue
                sp = spec_of(q)
                if sp.w < 0 or sp.h < 0 or sp.w > 200 or sp.h > 200:
                    continue
                if self.warps != 'any0' and (sp.w == 0 or sp.h == 0) and r.random() < .8:
                    continue
                return q
            except Ambiguous:
                continue
        return p

    @classmethod
    def has(cls, p, op):
        if p['op'] == op:
            return True
        if p['op'] == 'concat':
            return any(cls.has(s, op) for s in p['subs'])
        return 'sub' in p and cls.has(p['sub'], op)


def size(p):
    if p['op'] == 'concat':
        return 1 + sum(size(s) for s in p['subs'])
    return 1 + (size(p['sub']) if 'sub' in p else 0)


def shrink(p, fails, budget=200):
    """Greedy reduction of a failing program"""
    def variants(q):
        if 'sub' in q:
            yield q['sub']
            for v in variants(q['sub']):
                n = dict(q)
                n['sub'] = v
                yield n
        if q['op'] == 'concat':
            for s in q['subs']:
                yield s
            for i, s in enumerate(q['subs']):
                if len(q['subs']) > 1:
                    yield dict(q, subs=q['subs'][:i] + q['subs'][i + 1:])
                for v in variants(s):
                    yield dict(q, subs=q['subs'][:i] + [v] + q['subs'][i + 1:])
    improved = True
    while improved and budget > 0:
        improved = False
        for v in variants(p):
            budget -= 1
            if budget <= 0:
                break
            try:
                spec_of(v)
            except Exception:
                continue
            try:
                bad = fails(v)
            except Exception:
                bad = None
            if bad:
                p = v
                improved = True
                break
    return p
