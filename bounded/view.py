"""
Bounded (concrete) layer for the view properties C01-C07, C15-C18: random
programs, and exhaustive small ones, run on the real code and compared with
the meaning of the program (trees.spec_of).
"""
import copy
import itertools
import json
import math
import random
import warnings
import numpy as np
import trees as t

warnings.simplefilter('ignore')


def optd(node):
    return node.optimize()


def dims(node):
    return tuple(int(x) for x in node.dsize)


def gen_prog(rng, depth=7, **kw):
    for _ in range(50):
        g = t.Gen(rng.getrandbits(32), **kw)
        try:
            p = g.grow(g.leaf(), g.rng.randint(1, depth))
            t.spec_of(p)
            return p
        except t.Ambiguous:
            continue
    raise AssertionError


class Prop:
    """One property: cases and their check"""
    def gen(self, rng):
        raise NotImplementedError

    def fixed(self):
        return []

    def check(self, case):
        raise NotImplementedError

    def shrink(self, case, fails):
        if 'p' in case:
            return dict(case, p=t.shrink(case['p'], lambda q: fails(dict(case, p=q))))
        return case


def guarded(fn, case):
    """None or a message; exceptions of the code under test are failures"""
    try:
        return fn(case)
    except t.Ambiguous:
        return None
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = ''
        for fr in reversed(tb):
            if 'delayed_image' in fr.filename:
                where = ' at {}:{}'.format(fr.filename.split('/')[-1], fr.name)
                break
        if not where:
            raise
        return 'raises {}: {}{}'.format(type(ex).__name__, str(ex)[:120], where)


def LEAF(i=1, w=16, h=12, ch=('r', 'g', 'b'), nov=None, c=None, **kw):
    ch = None if ch is None else list(ch)
    return dict({'op': 'leaf', 'id': i, 'w': w, 'h': h, 'c': c or len(ch), 'ch': ch, 'nov': nov}, **kw)


def NANS(i=90, w=16, h=12, ch=('n',), c=None):
    ch = None if ch is None else list(ch)
    return {'op': 'nans', 'id': i, 'w': w, 'h': h, 'c': c or len(ch), 'ch': ch, 'nov': None}


def CROP(p, y=(None, None), x=(None, None), idx=None):
    q = {'op': 'crop', 'sub': p, 'y': list(y), 'x': list(x)}
    if idx is not None:
        q['idx'] = list(idx)
    return q


def WARP(p, dsize=None, kw=None, **tf):
    q = {'op': 'warp', 'sub': p, 'tf': tf, 'kw': kw or {}}
    if dsize is not None:
        q['dsize'] = list(dsize)
    return q


def OV(p, n):
    return {'op': 'overview', 'sub': p, 'n': n}


def TAKEI(p, idx):
    return {'op': 'takei', 'sub': p, 'idx': list(idx)}


def TAKE(p, ch):
    return {'op': 'take', 'sub': p, 'ch': list(ch)}


def DEQ(p):
    return {'op': 'dequant', 'sub': p}


def CAT(*ps):
    return {'op': 'concat', 'subs': list(ps)}


def step_choices():
    return [
        lambda p, s: CROP(p, (1, s.h - 1), (2, s.w)),
        lambda p, s: CROP(p, (0, s.h // 2 + 1), (s.w // 3, s.w - 1), idx=list(range(len(s.chans)))[::-1]),
        lambda p, s: TAKEI(p, [len(s.chans) - 1, 0]),
        lambda p, s: WARP(p, scale=[.5, .5]),
        lambda p, s: WARP(p, scale=[.25, .25], dsize=[5, 4]),
        lambda p, s: WARP(p, scale=[2, 2], kw={'interpolation': 'nearest'}),
        lambda p, s: WARP(p, scale=[2.5, 3], offset=[-3.5, 2], kw={'interpolation': 'cubic', 'border_value': 3}),
        lambda p, s: WARP(p, scale=[.7, 1.2], theta=.3, shearx=.1, offset=[3, 1.5], kw={'antialias': False}, dsize=[21, 19]),
        lambda p, s: WARP(p, offset=[0, 0]),
        lambda p, s: WARP(p, scale=[.13, .24], kw={'backend': 'cv2'}),
        lambda p, s: OV(p, 1),
        lambda p, s: OV(p, 2),
        lambda p, s: DEQ(p),
        lambda p, s: CAT(p, NANS(95, s.w, s.h, ['zn'])) if s.w and s.h else None,
        lambda p, s: CAT(LEAF(60, s.w, s.h, ['u', 'v'], 2), p) if s.w and s.h else None,
        lambda p, s: {'op': 'padcrop', 'sub': p, 'y': [-2, s.h - 1], 'x': [1, s.w + 3], 'pad': 1},
        lambda p, s: {'op': 'resize', 'sub': p, 'dsize': [9, 11]} if s.w and s.h else None,
    ]


def systematic(depth=3, limit=None):
    """All step sequences up to the depth over several sources"""
    st = step_choices()
    bases = [LEAF(1, 33, 21, 'rgb', 3), LEAF(2, 17, 40, None, None, c=2), NANS(3, 20, 18, ['n', 'm'])]
    n = 0
    for d in range(1, depth + 1):
        for base in bases:
            for seq in itertools.product(st, repeat=d):
                p = base
                ok = True
                for f in seq:
                    try:
                        s = t.spec_of(p)
                        q = f(p, s)
                        if q is None or len(s.chans) < 1:
                            ok = False
                            break
                        if q['op'] == 'dequant' and t.Gen.has(p, 'dequant'):
                            ok = False
                            break
                        p = q
                        s = t.spec_of(p)
                        if s.w < 0 or s.h < 0 or s.w > 300 or s.h > 300:
                            ok = False
                            break
                    except (t.Ambiguous, IndexError):
                        ok = False
                        break
                if ok:
                    yield {'p': p}
                    n += 1
                    if limit and n >= limit:
                        return


def distinguished(p):
    """The single real warp on a path without overviews, if it is the only op of that kind (C01 last clause)"""
    n = 0
    warp = None
    q = p
    while True:
        if q['op'] == 'leaf':
            return warp if n == 1 and not q.get('nov') else None
        if q['op'] == 'warp':
            M = t.mat_of(q['tf'])
            s = t.spec_of(q['sub'])
            me = t.spec_of(q)
            n += 1
            if np.allclose(M, np.eye(3)) and (me.w, me.h) == (s.w, s.h):
                return None
            warp = q
        elif q['op'] == 'take' and None in t.spec_of(q).chans:
            return None
        elif q['op'] in ('padcrop', 'resize', 'scale', 'overview', 'concat', 'nans'):
            return None
        q = q['sub']


def walk(node):
    yield node
    for c in node.children():
        yield from walk(c)


class C01(Prop):
    def gen(self, rng):
        return {'p': gen_prog(rng)}

    def fixed(self):
        yield from systematic(2)

    def check(self, case):
        from delayed_image import delayed_nodes as N
        p = case['p']
        sp = t.spec_of(p)
        n = t.build(p)
        want = dims(n)
        wc = n.num_channels
        wn = t.names_of(n)
        o = n.optimize()
        if dims(o) != want:
            return 'optimized size {} instead of {}'.format(dims(o), want)
        if o.num_channels != wc:
            return 'optimized view has {} channels instead of {}'.format(o.num_channels, wc)
        if sp.names is not None and wn is not None and t.names_of(o) != wn:
            return 'optimized channel names {} instead of {}'.format(t.names_of(o), wn)
        w = distinguished(p)
        if w is not None:
            kw = dict({'interpolation': 'linear', 'border_value': 'auto', 'antialias': True, 'backend': 'auto'}, **w['kw'])
            ws = [q for q in walk(o) if isinstance(q, N.DelayedWarp)]
            if len(ws) != 1:
                return 'one warp expected in the optimized view, found {}'.format(len(ws))
            for k, v in kw.items():
                if ws[0].meta[k] != v:
                    return 'the optimized warp uses {}={!r} instead of {!r}'.format(k, ws[0].meta[k], v)
        return None


class C02(Prop):
    gen = C01.gen
    fixed = C01.fixed

    def check(self, case):
        p = case['p']
        memo = {}
        n = t.build(p, memo)
        lm = t.leaf_ids(p, memo)
        a = t.denote(n, lm)
        o = n.optimize()
        e = t.same_geom(t.denote(o, lm), a)
        if e:
            return 'after optimization ' + e
        return None


class C03(Prop):
    def gen(self, rng):
        g = t.Gen(rng.getrandbits(32))
        r = g.rng
        p = LEAF(1, r.choice([1, 2, 5, 16, 33, 64, 100]), r.choice([1, 3, 7, 20, 47, 90]), 'rg')
        if r.random() < .3:
            s = t.spec_of(p)
            p = CROP(p, (r.randint(0, s.h // 2), s.h), (0, r.randint((s.w + 1) // 2, s.w)))
        for _ in range(r.choice([1, 1, 1, 2])):
            tf = g.some_warp(0, 0)
            if r.random() < .25:
                tf = {'scale': [r.choice([-1, 1, .5, -2.]), r.choice([-1, 1., -.5])], 'offset': [r.uniform(-3, 40), r.uniform(-3, 40)]}
            p = {'op': 'warp', 'sub': p, 'tf': tf, 'kw': {}}
            if r.random() < .6:
                p['dsize'] = [r.randint(1, 120), r.randint(1, 120)]
        for _ in range(r.choice([1, 1, 2])):
            try:
                s = t.spec_of(p)
            except t.Ambiguous:
                return self.gen(rng)
            if s.w < 1 or s.h < 1:
                return self.gen(rng)
            y0, x0 = r.randint(0, s.h - 1), r.randint(0, s.w - 1)
            p = CROP(p, (y0, r.randint(y0 + 1, s.h)), (x0, r.randint(x0 + 1, s.w)))
            if r.random() < .2 and len(s.chans) > 1:
                p['idx'] = [1]
        return {'p': p}

    def fixed(self):
        for sc in [(1, 1), (2, 2), (.5, .5), (3, .3), (1.3, .7)]:
            for off in [(0, 0), (-5, 3), (2.5, -7.25), (30, 20)]:
                for th in (0, .4, math.pi / 2):
                    for y, x in [((0, 1), (0, 1)), ((3, 9), (5, 20)), ((11, 12), (0, 20)), ((0, 12), (19, 20))]:
                        p = WARP(LEAF(1, 20, 12, 'rg'), scale=list(sc), offset=list(off), theta=th, dsize=[20, 12])
                        yield {'p': CROP(p, y, x)}

    def check(self, case):
        from delayed_image import delayed_nodes as N
        p = case['p']
        memo = {}
        n = t.build(p, memo)
        if 0 in dims(n):
            return None
        lm = t.leaf_ids(p, memo)
        o = n.optimize()
        chain = list(walk(o))
        leaf = chain[-1]
        if len(chain) < 2 or not isinstance(chain[-2], N.DelayedCrop) or id(leaf) not in lm:
            return None
        if not any(isinstance(q, N.DelayedWarp) for q in chain):
            return None
        sy, sx = chain[-2].meta['space_slice']
        W, H = leaf.dsize
        # the part of the source the user's own crop below the warps left over
        q = p
        low = []
        while q['op'] != 'leaf':
            low.append(q)
            q = q['sub']
        ex = [0, W, 0, H]
        while low and low[-1]['op'] == 'crop':
            c = low.pop()
            y0, y1 = t.py_slice(c['y'], ex[3] - ex[2])
            x0, x1 = t.py_slice(c['x'], ex[1] - ex[0])
            ex = [ex[0] + x0, ex[0] + x1, ex[2] + y0, ex[2] + y1]
        if not (0 <= sx.start <= sx.stop <= W and 0 <= sy.start <= sy.stop <= H):
            return 'window {} {} reaches outside of the {}x{} source'.format(sy, sx, W, H)
        M = t.denote(n, lm)[0][2]
        w, h = dims(n)
        pts = np.linalg.inv(M) @ np.array([[0, w, 0, w], [0, 0, h, h], [1, 1, 1, 1.]])
        eps = 1e-6 * (1 + np.abs(pts).max())
        axes = [(ax, sl, lo, hi, pts[ax].min(), pts[ax].max()) for ax, sl, lo, hi in [(0, sx, ex[0], ex[1]), (1, sy, ex[2], ex[3])]]
        if any(v <= lo + eps or u >= hi - eps for ax, sl, lo, hi, u, v in axes):
            return None     # shows nothing of the source
        for ax, sl, lo, hi, u, v in axes:
            if sl.start > max(lo, u - 1) + eps or sl.stop < min(hi, v + 1) - eps:
                return 'axis {}: window [{}, {}) misses source pixels of the back-projection [{:.3f}, {:.3f}] with its margin'.format(
                    'xy'[ax], sl.start, sl.stop, u, v)
        return None


# ------------------------------------------------------------------ C04
def freeze(v):
    """A comparable picture of a meta value"""
    from delayed_image.channel_spec import FusedChannelSpec
    if isinstance(v, FusedChannelSpec):
        return ('spec', tuple(v.normalize().parsed))
    if isinstance(v, np.ndarray):
        return ('arr', v.dtype.str, v.shape, v.tobytes())
    if hasattr(v, 'matrix'):
        return ('mat', None if v.matrix is None else np.asarray(v.matrix).tobytes())
    if isinstance(v, dict):
        return ('dict', tuple(sorted((k, freeze(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, slice):
        return ('slice', v.start, v.stop, v.step)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    return repr(v) if not isinstance(v, (int, float, str, type(None), bool)) else v


def snap(node, acc=None):
    """id -> everything observable about each node below (and including) node"""
    if acc is None:
        acc = {}
    if id(node) in acc:
        return acc
    acc[id(node)] = None
    kids = [id(c) for c in node.children()]
    data = getattr(node, 'data', None)
    acc[id(node)] = (type(node).__name__, freeze(node.meta), tuple(kids), getattr(node, 'dsize', None),
                     getattr(node, 'num_channels', None), None if data is None else freeze(np.asarray(data)), node)
    for c in node.children():
        snap(c, acc)
    return acc


def shape_of(node):
    """Structure up to identity"""
    return (type(node).__name__, freeze(node.meta), tuple(shape_of(c) for c in node.children()))


def diff(a, b):
    for k, v in a.items():
        w = b.get(k)
        if w is not None and v[:6] != w[:6]:
            what = [n for n, x, y in zip(['class', 'parameters', 'inputs', 'size', 'number of channels', 'pixels'], v, w) if x != y]
            return 'an existing {} changed its {}: {} -> {}'.format(
                v[0], what[0], *[str(z)[:160] for x, y in zip(v, w) if x != y for z in (x, y)][:2])
    return None


class C04(Prop):
    """case: {'progs': [program, ...]}; a program may contain {'op': 'ref', 'i': k}"""
    def gen(self, rng):
        g = t.Gen(rng.getrandbits(32))
        r = g.rng
        progs = []
        for _ in range(20):
            try:
                base = g.grow(g.leaf(), r.randint(1, 3))
                t.spec_of(base)
                break
            except t.Ambiguous:
                continue
        progs.append(base)
        for k in range(r.randint(1, 3)):
            src = r.randrange(len(progs))
            for _ in range(10):
                try:
                    res = resolve(progs)
                    q = g.grow(res[src], r.randint(1, 3))
                    t.spec_of(q)
                    break
                except t.Ambiguous:
                    continue
            progs.append(with_refs(q, res))
        if r.random() < .5:
            # two views of one shared view next to each other
            res = resolve(progs)
            i = r.randrange(len(progs))
            s = t.spec_of(res[i])
            a = {'op': 'ref', 'i': i}
            b = r.choice([a, TAKEI(a, [0]), a if has_dequant(res[i]) else DEQ(a), TAKEI(a, [len(s.chans) - 1, 0]) if s.chans else a])
            if s.w and s.h and s.chans:
                progs.append(CAT(*r.choice([[a, b], [b, a], [b, b]])))
        order = [r.randrange(len(progs)) for _ in range(r.randint(1, 5))]
        return {'progs': progs, 'order': order}

    def fixed(self):
        st = step_choices()
        base = LEAF(1, 33, 21, 'rgb', 3)
        for f, g in itertools.product(st, st):
            try:
                s = t.spec_of(base)
                a = f(base, s)
                if a is None or has_dequant(a):
                    continue
                b = g(a, t.spec_of(a))
                if b is None or has_dequant(b):
                    continue
                s = t.spec_of(b)
                if s.w < 1 or s.h < 1 or not s.chans:
                    continue
            except t.Ambiguous:
                continue
            R0, R1 = {'op': 'ref', 'i': 0}, {'op': 'ref', 'i': 1}
            yield {'progs': [b, DEQ(R0), CAT(R1, R0)], 'order': [2, 1, 0]}
            yield {'progs': [b, DEQ(R0), CAT(R0, R1)], 'order': [2, 0, 1]}
            yield {'progs': [b, TAKEI(R0, [0]), CAT(R0, R1)], 'order': [2, 0, 1]}
        for f, g, k in itertools.product(st, st, st):
            try:
                s = t.spec_of(base)
                a = f(base, s)
                if a is None:
                    continue
                sa = t.spec_of(a)
                b = g({'op': 'ref', 'i': 0}, sa)
                c = k({'op': 'ref', 'i': 0}, sa)
                if b is None or c is None:
                    continue
                if 'dequant' in (a['op'],) and 'dequant' in (b['op'], c['op']):
                    continue
                if sa.w < 2 or sa.h < 2:
                    continue
                yield {'progs': [a, b, c], 'order': [1, 2, 0, 1]}
            except t.Ambiguous:
                pass

    def check(self, case):
        res = resolve(case['progs'])
        for q in res:
            t.spec_of(q)
        memo = {}
        nodes = []
        before = {}
        for q in res:
            nodes.append(t.build(q, memo))
            for n in nodes[:-1]:
                e = diff(before, snap(n))
                if e:
                    return 'deriving a view: ' + e
            for n in nodes:
                snap(n, before)
        opts = {}
        for i in case['order']:
            n = nodes[i]
            o = n.optimize()
            s = shape_of(o)
            now = {}
            for m in nodes:
                snap(m, now)
            e = diff(before, now)
            if e:
                return 'optimizing a view: ' + e
            if i not in opts and s != shape_of(t.build(json.loads(json.dumps(res[i]))).optimize()):
                return 'the optimized form of a view depends on what else shares its parts'
            if i in opts and opts[i][1] != s:
                return 'optimizing the same view again gives a different result'
            for j, (oo, ss) in opts.items():
                if shape_of(oo) != ss:
                    return 'optimizing a view changed an earlier optimized view'
            opts[i] = (o, s)
        for i, n in enumerate(nodes):
            n.shape, n.num_channels, n.channels, n.dsize
            try:
                n.get_transform_from_leaf()
            except AttributeError:
                pass
            list(n._leaf_paths())
            list(n.leafs())
            n.nesting()
        now = {}
        for m in nodes:
            snap(m, now)
        e = diff(before, now)
        if e:
            return 'querying a view: ' + e
        # another optimization of an already optimized view
        for i, (o, s) in list(opts.items()):
            b0 = snap(o)
            o.optimize()
            e = diff(b0, snap(o))
            if e:
                return 'optimizing an optimized view: ' + e
        for i, n in enumerate(nodes):
            w = n.dsize
            if 0 in [int(x) for x in w]:
                continue
            b0 = snap(n)
            d = n.crop((slice(0, 1), slice(0, 1)))
            d.optimize()
            n.warp({'scale': .5}).optimize()
            n.get_overview(1).optimize()
            if n.num_channels:
                n.take_channels([0]).optimize()
            e = diff(b0, snap(n))
            if e:
                return 'deriving and optimizing: ' + e
        return None

    def shrink(self, case, fails):
        progs = case['progs']
        for i in range(len(progs) - 1, -1, -1):
            if any(uses(p, i) for p in progs):
                continue
            c = {'progs': progs[:i] + progs[i + 1:], 'order': [j - (j > i) for j in case['order'] if j != i]}
            if i == len(progs) - 1 and fails(c):
                return self.shrink(c, fails)
        return case


def has_dequant(p):
    return p['op'] == 'dequant' or any(has_dequant(s) for s in p.get('subs') or ([p['sub']] if 'sub' in p else []))


def uses(p, i):
    if p['op'] == 'ref':
        return p['i'] == i
    if p['op'] == 'concat':
        return any(uses(s, i) for s in p['subs'])
    return 'sub' in p and uses(p['sub'], i)


def resolve(progs):
    out = []

    def go(p):
        if p['op'] == 'ref':
            return out[p['i']]
        q = dict(p)
        if 'sub' in p:
            q['sub'] = go(p['sub'])
        if 'subs' in p:
            q['subs'] = [go(s) for s in p['subs']]
        return q
    for p in progs:
        out.append(go(p))
    return out


def with_refs(q, res):
    for i, r in enumerate(res):
        if q is r:
            return {'op': 'ref', 'i': i}
    n = dict(q)
    if 'sub' in q:
        n['sub'] = with_refs(q['sub'], res)
    if 'subs' in q:
        n['subs'] = [with_refs(s, res) for s in q['subs']]
    return n


# ------------------------------------------------------------------ C05
class C05(Prop):
    """case: p (base program), list of slice pairs applied, or a padded crop"""
    def gen(self, rng):
        r = rng
        w, h = r.randint(1, 9), r.randint(1, 9)
        base = LEAF(1, w, h, 'rg')
        if r.random() < .25:
            base = WARP(base, scale=[2, 2])
        elif r.random() < .15:
            base = CAT(base, LEAF(2, w, h, 'ab'))
        if r.random() < .3:
            s = t.spec_of(base)
            y0 = r.randint(-4, s.h - 1)
            x0 = r.randint(-4, s.w - 1)
            a, b = r.randint(0, 3), r.randint(0, 4)
            return {'p': base, 'pad': r.choice([0, 1, 2, 5, [a, b], [[a, b], [b, 1]]]), 'lazy': r.random() < .3, 'y': [y0, r.randint(max(y0, 0) + 1, s.h + 5)],
                    'x': [x0, r.randint(max(x0, 0) + 1, s.w + 5)]}

        def sl(n):
            a = r.choice([None, 0, r.randint(-n - 3, n + 4)])
            b = r.choice([None, r.randint(-n - 3, n + 4)])
            return [a, b]
        k = r.choice([1, 1, 2, 3])
        out = []
        W, H = t.spec_of(base).w, t.spec_of(base).h
        for _ in range(k):
            y, x = sl(H), sl(W)
            if r.random() < .2:
                x = [None, None]
            out.append([y, x])
        how = r.random()
        return {'p': base, 'cr': out, 'item': how < .4, 'lazy': how > .8}

    def fixed(self):
        for y, x in itertools.product([[None, None], [0, 3], [0, 2], [None, 3], [1, None], [1, 3]], [[None, None], [0, 4], [0, 3], [None, 4], [1, None], [1, 4]]):
            yield {'p': LEAF(1, 4, 3, 'rg'), 'cr': [[y, x]], 'lazy': True}
        for pad in (0, 2, [1, 2], [[0, 1], [2, 3]]):
            for lazy in (True, False):
                yield {'p': LEAF(1, 4, 3, 'rg'), 'pad': pad, 'y': [0, 3], 'x': [0, 4], 'lazy': lazy}
                yield {'p': LEAF(1, 4, 3, 'rg'), 'pad': pad, 'y': [-1, 2], 'x': [1, 6], 'lazy': lazy}
        for n in (1, 2, 5):
            vals = [None] + list(range(-n - 2, n + 3))
            for a, b in itertools.product(vals, vals):
                yield {'p': LEAF(1, 4, n, 'rg'), 'cr': [[[a, b], [1, 3]]], 'item': False}
                yield {'p': LEAF(1, n, 4, 'rg'), 'cr': [[[1, 3], [a, b]]], 'item': True}
        for y0, y1, x0, x1 in itertools.product((-3, 0, 2), (4, 7), (-1, 1), (3, 9)):
            for pad in (0, 1, 4):
                yield {'p': LEAF(1, 6, 5, 'rg'), 'pad': pad, 'y': [y0, y1], 'x': [x0, x1]}
        for a, b, c, d in itertools.product((0, 1, 3), (2, 5, 8, None), (0, 1, 2), (1, 3, 9, -1)):
            yield {'p': LEAF(1, 7, 7, 'rg'), 'cr': [[[a, b], [0, 7]], [[c, d], [1, -1]]], 'item': False}

    def check(self, case):
        memo = {}
        base = t.build(case['p'], memo)
        W, H = dims(base)
        lm = t.leaf_ids(case['p'], memo)
        if 'pad' in case:
            y, x, pad = case['y'], case['x'], case['pad']
            v = base.crop((slice(*y), slice(*x)), clip=False, wrap=False, pad=pad, **({'lazy': True} if case.get('lazy') else {}))
            py, px = [pad, pad] if isinstance(pad, int) else pad
            py, px = [[q, q] if isinstance(q, int) else q for q in (py, px)]
            want = (x[1] - x[0] + sum(px), y[1] - y[0] + sum(py))
            for name, z in [('', v), ('optimized ', v.optimize())]:
                if dims(z) != want:
                    return '{}padded crop has size {} instead of {}'.format(name, dims(z), want)
                A = t.denote(z, lm)[0][2] @ np.linalg.inv(t.denote(base, lm)[0][2])
                if not np.allclose(A, t.T(-(x[0] - px[0]), -(y[0] - py[0]))):
                    return '{}padded crop shifts coordinates by {} instead of {}'.format(
                        name, A[:2, 2].tolist(), [-(x[0] - px[0]), -(y[0] - py[0])])
            return None
        rows, cols = np.arange(H), np.arange(W)
        v = base
        for y, x in case['cr']:
            sl = (slice(*y), slice(*x))
            v = v[sl] if case.get('item') else v.crop(sl, lazy=True) if case.get('lazy') else v.crop(sl)
            rows, cols = rows[sl[0]], cols[sl[1]]
        for name, z in [('', v), ('optimized ', v.optimize())]:
            if dims(z) != (len(cols), len(rows)):
                return '{}crop has size {} instead of {}'.format(name, dims(z), (len(cols), len(rows)))
            if len(cols) and len(rows):
                A = t.denote(z, lm)[0][2] @ np.linalg.inv(t.denote(base, lm)[0][2])
                if not np.allclose(A, t.T(-int(cols[0]), -int(rows[0]))):
                    return '{}crop starts at {} instead of column {} row {}'.format(
                        name, (-A[:2, 2]).round(6).tolist(), cols[0], rows[0])
        if not (len(cols) and len(rows)):
            return None
        # the chosen window itself, also where only one axis is selected
        if case['p']['op'] == 'leaf':
            got = v.optimize().finalize(optimize=False)
            want = t.leaf_pixels(case['p'])[rows][:, cols]
            if got.shape != want.shape or not np.array_equal(got, want):
                return 'cropped pixels differ from slicing the array'
        return None

    def shrink(self, case, fails):
        if 'cr' in case and len(case['cr']) > 1:
            for i in range(len(case['cr'])):
                c = dict(case, cr=case['cr'][:i] + case['cr'][i + 1:])
                if fails(c):
                    return self.shrink(c, fails)
        return case


# ------------------------------------------------------------------ C06
class C06(Prop):
    def gen(self, rng):
        r = rng
        w, h = r.randint(1, 70), r.randint(1, 70)
        base = r.choice([LEAF(1, w, h, 'r'), NANS(2, w, h), CAT(LEAF(1, w, h, 'r'), LEAF(3, w, h, 'g'))])
        g = t.Gen(r.getrandbits(32))
        k = r.choice(['warp', 'warp', 'warpd', 'resize', 'overview', 'scale', 'dequant', 'take'])
        if k == 'warp':
            tf = g.some_warp(w, h)
            if r.random() < .3:
                tf = {'matrix': [[r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-9, 9)],
                                 [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-9, 9)], [0, 0, 1]]}
            p = {'op': 'warp', 'sub': base, 'tf': tf, 'kw': {}}
        elif k == 'warpd':
            p = {'op': 'warp', 'sub': base, 'tf': g.some_warp(w, h), 'kw': {}, 'dsize': [r.randint(1, 50), r.randint(1, 50)]}
        elif k == 'resize':
            p = {'op': 'resize', 'sub': base, 'dsize': [r.randint(1, 90), r.randint(1, 90)]}
        elif k == 'overview':
            p = OV(base, r.randint(0, 7))
        elif k == 'scale':
            p = {'op': 'scale', 'sub': base, 'scale': r.choice([.5, 2, 3, .3, [.5, 2], [1.7, .4]])}
        elif k == 'dequant':
            p = DEQ(base)
        else:
            p = TAKE(base, ['zz', (t.spec_of(base).names or ['r'])[0]])
        return {'p': p}

    def fixed(self):
        for w, h in [(1, 1), (7, 10), (16, 9), (31, 32), (33, 64)]:
            b = LEAF(1, w, h, 'r')
            for n in range(0, 8):
                yield {'p': OV(b, n)}
            for ds in [(1, 1), (5, 7), (w, h), (2 * w, 3 * h)]:
                yield {'p': {'op': 'resize', 'sub': b, 'dsize': list(ds)}}
            for sc in (1, 2, .5, .25, 1.5):
                for off in ((0, 0), (-3, 4), (.5, -.25)):
                    yield {'p': WARP(b, scale=[sc, sc], offset=list(off))}
            yield {'p': WARP(b, matrix=[[0, -1, h], [1, 0, 0], [0, 0, 1]])}
            yield {'p': WARP(b, matrix=[[-1, 0, w], [0, 1, 2], [0, 0, 1]])}

    def check(self, case):
        p = case['p']
        sp = t.spec_of(p)
        memo = {}
        n = t.build(p, memo)
        lm = t.leaf_ids(p, memo)
        if dims(n) != (sp.w, sp.h):
            return 'declares size {} instead of {}'.format(dims(n), (sp.w, sp.h))
        if tuple(n.shape[:2]) != (sp.h, sp.w):
            return 'declares shape {}'.format(n.shape)
        e = t.same_geom(t.denote(n, lm), sp.chans)
        if e and p['op'] != 'take':
            return e
        return None


# ------------------------------------------------------------------ C07
ALIAS = {'rgb': ['r', 'g', 'b'], 'rgba': ['r', 'g', 'b', 'a'], 'dxdy': ['dx', 'dy'], 'fxfy': ['fx', 'fy']}


def expand_code(c):
    if c in ALIAS:
        return list(ALIAS[c])
    if ':' in c:
        root, b = c.rsplit(':', 1)
        a = 0
        if '.' in root:
            root, a = root.split('.')
        return ['{}.{}'.format(root, i) for i in range(int(a), int(b))]
    return [c]


def expand(codes):
    return [x for c in codes for x in expand_code(c)]


class C07(Prop):
    """case: parts = list of code lists (or ints when unnamed), req, via"""
    GROUPS = [['rgb'], ['r'], ['g', 'b'], ['n'], ['q:3'], ['q.1:3'], ['q.3:6'], ['k'], ['dxdy'], ['fx'], ['m.0', 'm.2'], ['a'], ['z']]

    def gen(self, rng):
        r = rng
        used = set()
        parts = []
        for _ in range(r.randint(1, 4)):
            gs = []
            for gcode in r.sample(self.GROUPS, len(self.GROUPS)):
                ex = expand(gcode)
                if not (set(ex) & used) and r.random() < .6:
                    gs += gcode
                    used |= set(ex)
                if len(gs) > 3:
                    break
            if not gs:
                gs = ['p{}'.format(len(parts))]
                used.add(gs[0])
            parts.append(gs)
        named = r.random() < .8
        nested = r.random() < .3
        allc = [x for q in parts for x in expand(q)]
        total = len(allc)
        op = r.choice(['names', 'names', 'idx', 'error'])
        case = {'parts': parts if named else [len(expand(q)) for q in parts], 'nested': nested,
                'single': r.random() < .2, 'nanpart': r.randrange(len(parts)) if r.random() < .3 else None,
                'pre': r.choice([None, None, 'warp', 'crop', 'take'])}
        if not named or op == 'idx':
            case['req'] = [r.randint(-total, total - 1) for _ in range(r.randint(1, 7) if r.random() < .95 else 0)]
        else:
            pool = list(dict.fromkeys(sum(parts, []) + allc)) + ['zz', 'm.7', 'y:2'] + [x for g in self.GROUPS for x in g]
            req = []
            for _ in range(r.randint(1, 7)):
                req.append(r.choice(pool if r.random() < .4 else allc))
            if r.random() < .3:
                i = r.randrange(total)
                req = allc[i:i + r.randint(1, 5)] + req[:2]
            case['req'] = req
            case['policy'] = 'error' if op == 'error' else 'return_nan'
            case['form'] = r.choice(['str', 'spec'])
        return case

    def fixed(self):
        parts = [['r', 'g', 'b'], ['q:2'], ['k']]
        allc = expand(sum(parts, []))
        for single in (False, True):
            for form in (parts, [3, 2, 1]):
                yield {'parts': form, 'req': [], 'single': single}
        for req in itertools.product(range(6), repeat=3):
            yield {'parts': parts, 'req': list(req)}
            yield {'parts': [3, 2, 1], 'req': [req[0] - 6, req[1], req[2]]}
        pool = allc + ['zz', 'zy']
        for req in itertools.product(pool, repeat=3):
            yield {'parts': parts, 'req': list(req), 'form': 'str', 'policy': 'return_nan'}
        for req in itertools.product(['rgb', 'q:2', 'q.1:2', 'k', 'zz', 'b', 'y:2'], repeat=2):
            for pol in ('return_nan', 'error'):
                yield {'parts': parts, 'req': list(req), 'form': 'spec', 'policy': pol}
                yield {'parts': parts, 'req': list(req), 'form': 'spec', 'policy': pol, 'single': True}
                yield {'parts': parts, 'req': list(req), 'form': 'spec', 'policy': pol, 'nested': True, 'nanpart': 1}

    def check(self, case):
        from delayed_image import DelayedIdentity, DelayedNans, DelayedChannelConcat, FusedChannelSpec
        W, H = 5, 4
        leafs = []
        chans = []
        names = []
        parts = case['parts']
        if case.get('single'):
            parts = [sum(parts, [])] if isinstance(parts[0], list) else [sum(parts)]
        for i, q in enumerate(parts):
            n = q if isinstance(q, int) else len(expand(q))
            if case.get('nanpart') == i and not case.get('single'):
                leafs.append(DelayedNans((W, H), channels=q if isinstance(q, int) else '|'.join(q)))
                chans += [None] * n
            else:
                px = np.zeros((H, W, n)) + (100 * i + np.arange(n))[None, None, :]
                leafs.append(DelayedIdentity(px, channels=None if isinstance(q, int) else '|'.join(q)))
                chans += [(i, k) for k in range(n)]
            names += [None] * n if isinstance(q, int) else expand(q)
        lm = {id(x): i for i, x in enumerate(leafs)}
        if case.get('pre') == 'warp':
            leafs = [x.warp({'offset': 1}, dsize=(W, H)) for x in leafs]
        elif case.get('pre') == 'crop':
            leafs = [x[0:H, 0:W] for x in leafs]
        elif case.get('pre') == 'take':
            leafs = [x.take_channels(list(range(x.num_channels))) for x in leafs]
        if case.get('single'):
            v = leafs[0]
        elif case.get('nested') and len(leafs) > 1:
            v = DelayedChannelConcat([leafs[0], DelayedChannelConcat(leafs[1:])])
        else:
            v = DelayedChannelConcat(leafs)
        req = case['req']
        if not req or isinstance(req[0], int):
            if req:
                req = [i for i in req if -len(chans) <= i < len(chans)]
                if not req:
                    return None
            want = [chans[i] for i in req]
            wn = [names[i] for i in req]
            got = v.take_channels(list(req))
        else:
            wn = expand(req)
            miss = [c for c in wn if c not in names]
            want = [chans[names.index(c)] if c in names else None for c in wn]
            arg = '|'.join(req)
            if case.get('form') == 'spec':
                arg = FusedChannelSpec.coerce(arg)
            pol = case.get('policy', 'return_nan')
            try:
                got = v.take_channels(arg, missing_channel_policy=pol)
            except ValueError:
                if pol == 'error' and miss:
                    return None
                raise
            if pol == 'error' and miss:
                return 'channels {} are missing but no ValueError was raised'.format(miss)
        for label, z in [('', got), ('optimized ', got.optimize())]:
            if dims(z) != (W, H):
                return '{}selection has size {}'.format(label, dims(z))
            d = [None if c is None else c[:2] for c in t.denote(z, lm)]
            if d != want:
                return '{}selection of {} gives channels {} instead of {}'.format(label, req, d, want)
            if z.num_channels != len(want):
                return '{}selection reports {} channels instead of {}'.format(label, z.num_channels, len(want))
            if None not in names and None not in wn and t.names_of(z) != wn:
                return '{}selection of {} is named {} instead of {}'.format(label, req, t.names_of(z), wn)
        if case.get('pre') != 'warp' and len(want):
            px = got.finalize()
            for k, c in enumerate(want):
                col = px[:, :, k]
                if c is None:
                    if not np.isnan(col).all():
                        return 'missing channel {} is not all NaN'.format(k)
                elif not (col == 100 * c[0] + c[1]).all():
                    return 'channel {} has the pixels of another channel'.format(k)
        return None

    def shrink(self, case, fails):
        for i in range(len(case['req'])):
            if len(case['req']) > 1:
                c = dict(case, req=case['req'][:i] + case['req'][i + 1:])
                if fails(c):
                    return self.shrink(c, fails)
        return case


# ------------------------------------------------------------------ C15
COMPS = ['offset', 'scale', 'shearx', 'theta']


class C15(Prop):
    def gen(self, rng):
        r = rng
        g = t.Gen(r.getrandbits(32))
        parts = []
        for i in range(r.randint(1, 3)):
            p = g.leaf(names=['c{}'.format(i)]) if r.random() < .8 else NANS(40 + i, 20, 20, ['c{}'.format(i)])
            for _ in range(r.randint(0, 3)):
                s = t.spec_of(p)
                k = r.choice(['warp', 'warp', 'crop', 'overview', 'dequant'])
                if k == 'warp':
                    p = {'op': 'warp', 'sub': p, 'tf': g.some_warp(s.w, s.h), 'kw': {}, 'dsize': [r.randint(4, 40), r.randint(4, 40)]}
                elif k == 'crop' and s.w > 2 and s.h > 2:
                    p = CROP(p, (r.randint(0, 1), s.h), (r.randint(0, 1), s.w - 1))
                elif k == 'overview' and s.w > 3 and s.h > 3:
                    p = OV(p, 1)
                elif k == 'dequant' and not t.Gen.has(p, 'dequant'):
                    p = DEQ(p)
            p = {'op': 'warp', 'sub': p, 'tf': g.some_warp(0, 0), 'kw': {}, 'dsize': [24, 18]}
            parts.append(p)
        mode = r.choice(['retain', 'remove', 'none', 'both'])
        return {'parts': parts, 'mode': mode, 'comps': sorted(r.sample(COMPS, r.randint(0, 4))), 'squash': r.random() < .4}

    def fixed(self):
        tfs = [dict(scale=[.5, .7], offset=[3, 4], theta=.3, shearx=.2), dict(scale=[2, 2]), dict(offset=[5, -2]),
               dict(scale=[1.5, .5], theta=-1.)]
        for k in range(5):
            for comps in itertools.combinations(COMPS, k):
                for mode in ('retain', 'remove'):
                    for sq in (False, True):
                        yield {'parts': [WARP(LEAF(i + 1, 20, 16, ['c%d' % i]), dsize=[30, 20], **tf) for i, tf in enumerate(tfs)] + [WARP(NANS(7, 4, 3), dsize=[30, 20], scale=[7.5, 20 / 3])],
                               'mode': mode, 'comps': list(comps), 'squash': sq}

    def check(self, case):
        import kwimage
        from delayed_image import DelayedChannelConcat, DelayedNans
        memo = {}
        parts = [t.build(p, memo) for p in case['parts']]
        lm = {}
        for p in case['parts']:
            t.leaf_ids(p, memo, lm)
        for p in case['parts']:
            t.spec_of(p)
        names = [t.names_of(p) for p in parts]
        mode, comps, sq = case['mode'], case['comps'], case['squash']
        kw = {'retain': {'retain': set(comps)}, 'remove': {'remove': list(comps)}, 'none': {}, 'both': {'remove': comps, 'retain': comps}}[mode]
        retain = {'retain': set(comps), 'remove': set(COMPS) - set(comps), 'none': set(), 'both': None}[mode]
        cat = DelayedChannelConcat(parts)
        if mode == 'both':
            for f in (cat.undo_warps, parts[0].undo_warp):
                try:
                    f(**kw)
                except ValueError:
                    continue
                return 'asking for both removal and retention is not an error'
            return None
        if sq:
            for p, part in zip(case['parts'], parts):
                M = np.linalg.inv(np.asarray(part.get_transform_from_leaf().__array__(), dtype=float))
                d = {k: v for k, v in kwimage.Affine(M).concise().items() if k not in retain}
                if min(dims(part.warp(d))) <= 0:
                    return None
        got, warps = cat.undo_warps(squash_nans=sq, return_warps=True, **kw)
        got2 = cat.undo_warps(squash_nans=sq, **kw)
        if len(got) != len(parts) or len(warps) != len(parts) or len(got2) != len(parts):
            return 'undo_warps returned {} views for {} parts'.format(len(got), len(parts))
        for i, (part, g, g2, w, nm) in enumerate(zip(parts, got, got2, warps, names)):
            M = np.asarray(part.get_transform_from_leaf().__array__(), dtype=float)
            inv = kwimage.Affine(np.linalg.inv(M))
            full = inv.concise()
            keep = {k: v for k, v in full.items() if k not in retain}
            want = np.asarray(kwimage.Affine.coerce(keep).__array__(), dtype=float)
            # the undone view
            ref = part.warp(want)
            w0, h0 = dims(ref)
            isnan = isinstance(ref.optimize(), DelayedNans)
            rep = np.asarray(w.__array__(), dtype=float)
            if not retain and not np.allclose(want @ M, np.eye(3), atol=1e-6):
                raise AssertionError('oracle')
            if sq:
                wantrep = t.S(1 / w0, 1 / h0) @ want if w0 and h0 else None
            else:
                wantrep = want
            if wantrep is not None and not np.allclose(rep, wantrep, atol=1e-6, rtol=1e-6):
                return 'part {}: reported undo transform {} instead of {}'.format(i, rep.round(6).tolist(), wantrep.round(6).tolist())
            for lab, z in (('', g), ('(without transforms) ', g2)):
                if t.names_of(z) != nm:
                    return 'part {}: {}channels {} instead of {}'.format(i, lab, t.names_of(z), nm)
                if isnan and sq and dims(z) != (1, 1):
                    return 'part {}: {}squashed placeholder has size {}'.format(i, lab, dims(z))
                if not (isnan and sq) and dims(z) != (w0, h0):
                    return 'part {}: {}undone view has size {} instead of {}'.format(i, lab, dims(z), (w0, h0))
                if not isnan:
                    e = t.same_geom(t.denote(z, lm), [None if c is None else (c[0], c[1], want @ c[2]) for c in t.denote(part, lm)], tol=1e-4)
                    if e:
                        return 'part {}: {}undone view: {}'.format(i, lab, e)
        return None

    def shrink(self, case, fails):
        for i in range(len(case['parts'])):
            if len(case['parts']) > 1:
                c = dict(case, parts=case['parts'][:i] + case['parts'][i + 1:])
                try:
                    if fails(c):
                        return self.shrink(c, fails)
                except Exception:
                    pass
        return case


# ------------------------------------------------------------------ C16
class C16(Prop):
    """case: p = shared source program, a / b = programs over {'op':'ref','i':0}; other = foreign part for concats"""
    def gen(self, rng):
        r = rng
        g = t.Gen(r.getrandbits(32))
        base = LEAF(1, r.randint(4, 40), r.randint(4, 40), 'rgb', r.choice([None, 3]))
        if r.random() < .2:
            base = LEAF(1, 20, 20, 'rgb')

        def above(r):
            """operations above the concatenation"""
            out = []
            for _ in range(r.randint(1, 4)):
                k = r.choice(['warp', 'crop', 'overview', 'dequant'])
                out.append({'warp': {'op': 'warp', 'tf': g.some_warp(20, 20), 'kw': {}, 'dsize': [r.randint(4, 40), r.randint(4, 40)]},
                            'crop': {'op': 'crop', 'y': [r.randint(0, 3), None], 'x': [r.randint(0, 3), None]},
                            'overview': {'op': 'overview', 'n': r.randint(0, 2)}, 'dequant': {'op': 'dequant'}}[k])
            return out

        def chain(n):
            p = base
            for _ in range(n):
                s = t.spec_of(p)
                k = r.choice(['warp', 'warp', 'crop', 'overview', 'dequant', 'take', 'resize', 'padcrop'])
                if k == 'warp':
                    p = {'op': 'warp', 'sub': p, 'tf': g.some_warp(s.w, s.h), 'kw': {}, 'dsize': [r.randint(4, 40), r.randint(4, 40)]}
                elif k == 'crop' and s.w > 2 and s.h > 2:
                    p = CROP(p, (r.randint(0, s.h - 1), None), (r.randint(0, s.w - 1), s.w))
                elif k == 'overview':
                    p = OV(p, r.randint(0, 3))
                elif k == 'dequant' and not t.Gen.has(p, 'dequant'):
                    p = DEQ(p)
                elif k == 'take':
                    p = TAKEI(p, [r.randrange(len(s.chans))])
                elif k == 'resize':
                    p = {'op': 'resize', 'sub': p, 'dsize': [r.randint(3, 30), r.randint(3, 30)]}
                elif k == 'padcrop':
                    p = {'op': 'padcrop', 'sub': p, 'y': [-2, s.h], 'x': [1, s.w + 1], 'pad': 1}
            return p
        return {'a': chain(r.randint(0, 5)), 'b': chain(r.randint(0, 4)), 'cat': r.choice(['', '', 'a', 'b', 'ab']),
                'pos': r.randint(0, 2), 'post': r.choice([False, False, True, above(r)])}

    def fixed(self):
        b = LEAF(1, 30, 20, 'rgb')
        ch = [b, WARP(b, scale=[.5, 2], offset=[3, -1], theta=.3, dsize=[20, 20]), OV(b, 2), CROP(b, (3, 9), (4, 20)),
              CROP(OV(WARP(b, scale=[2, 3], offset=[5, 6], dsize=[50, 50]), 1), (2, 9), (3, 9)), DEQ(CROP(b, (1, 9), (0, 5))),
              {'op': 'padcrop', 'sub': b, 'y': [-3, 9], 'x': [-2, 5], 'pad': 0}]
        for p, q in itertools.product(ch, ch):
            for cat in ('', 'a', 'b', 'ab'):
                yield {'a': p, 'b': q, 'cat': cat, 'pos': 1, 'post': False}
        up = [{'op': 'warp', 'tf': {'scale': [.5, 2], 'offset': [3, -1], 'theta': .3}, 'kw': {}, 'dsize': [25, 25]},
              {'op': 'crop', 'y': [1, 9], 'x': [2, 12]}, {'op': 'overview', 'n': 1}, {'op': 'dequant'}]
        for n in (2, 3):
            for ops in itertools.permutations(up, n):
                for cat in ('a', 'b', 'ab'):
                    yield {'a': ch[1], 'b': ch[4], 'cat': cat, 'pos': 0, 'post': list(ops)}

    def check(self, case):
        from delayed_image import DelayedChannelConcat, DelayedIdentity
        pa, pb = copy.deepcopy(case['a']), copy.deepcopy(case['b'])

        def bottom(p):
            while 'sub' in p:
                p = p['sub']
            return p
        leaf = bottom(pa)
        q = pb
        if 'sub' not in q:
            pb = leaf
        else:
            while 'sub' in q['sub']:
                q = q['sub']
            q['sub'] = leaf
        memo = {}
        views = {}
        mats = {}
        for k, p in (('a', pa), ('b', pb)):
            sp = t.spec_of(p)
            v = t.build(p, memo)
            M = sp.chans[0][2] if sp.chans[0] is not None else None
            if M is None:
                return None
            views[k], mats[k] = v, M
            got = np.asarray(v.get_transform_from_leaf().__array__(), dtype=float)
            if not np.allclose(got, M, atol=1e-5, rtol=1e-5):
                return 'transform from the source is {} instead of {}'.format(got.round(6).tolist(), M.round(6).tolist())
            if k in case['cat'] and sp.w > 0 and sp.h > 0:
                ps = [DelayedIdentity(np.zeros((sp.h, sp.w, 1)), channels='o%s%d' % (k, i)).warp({'offset': (i + 1, 2)}, dsize=(sp.w, sp.h)) for i in range(2)]
                ps.insert(case['pos'], v)
                views[k] = DelayedChannelConcat(ps)
                if isinstance(case['post'], list):
                    top = base = LEAF(77, sp.w, sp.h, 'p')
                    for op in case['post']:
                        if op['op'] == 'dequant' and t.Gen.has(top, 'dequant'):
                            continue
                        top = dict(op, sub=top)
                    views[k] = t.build(top, {id(base): views[k]})
                    mats[k] = t.spec_of(top).chans[0][2] @ mats[k]
                elif case['post']:
                    A = t.T(2, -3)
                    views[k] = views[k].warp(A, dsize=(sp.w, sp.h))
                    mats[k] = A @ mats[k]
        if abs(np.linalg.det(mats['a'])) < 1e-9:
            return None
        try:
            got = np.asarray(views['b'].get_transform_from(views['a']).__array__(), dtype=float)
        except np.linalg.LinAlgError:
            return None
        want = mats['b'] @ np.linalg.inv(mats['a'])
        if not np.allclose(got, want, atol=1e-4, rtol=1e-4):
            return 'transform between the views is {} instead of {}'.format(got.round(6).tolist(), want.round(6).tolist())
        # each source of a concatenation is reached by its own path
        v = views['a']
        if 'a' in case['cat'] and isinstance(v, DelayedChannelConcat):
            for lf, path in v._leaf_paths():
                if lf is memo[id(leaf)]:
                    got = np.asarray(path.get_transform_from_leaf().__array__(), dtype=float)
                    if not np.allclose(got, mats['a'], atol=1e-5, rtol=1e-5):
                        return 'path of a concatenation part reports {}'.format(got.tolist())
        return None


# ------------------------------------------------------------------ C17
def pixels(p, memo=None):
    if memo is None:
        memo = {}
    if id(p) in memo:
        return memo[id(p)]
    op = p['op']
    if op == 'leaf':
        out = t.leaf_pixels(p).astype('float64')
        if p.get('mask') and not p.get('file'):
            out[t.leaf_mask(p)] = np.nan        # masked pixels count as missing
    elif op == 'nans':
        out = np.full((p['h'], p['w'], p['c']), np.nan)
    elif op == 'concat':
        out = np.concatenate([pixels(s, memo) for s in p['subs']], axis=2)
    else:
        a = pixels(p['sub'], memo)
        if op == 'crop':
            out = a[slice(*p['y']), slice(*p['x'])]
            if p.get('idx') is not None:
                out = out[:, :, p['idx']]
        elif op == 'takei':
            out = a[:, :, p['idx']]
        elif op == 'take':
            s = t.spec_of(p['sub'])
            out = np.stack([a[:, :, s.names.index(n)] if n in s.names else np.full(a.shape[:2], np.nan) for n in p['ch']], axis=2)
        elif op == 'dequant':
            q = t.QUANT
            out = (a - q['quant_min']) * ((q['orig_max'] - q['orig_min']) / (q['quant_max'] - q['quant_min'])) + q['orig_min']
            out = np.where(a == q['nodata'], np.nan, out)
        else:
            raise KeyError(op)
    memo[id(p)] = out
    return out


class C17(Prop):
    def gen(self, rng):
        r = rng
        if r.random() < .3:
            for _ in range(10):
                p = gen_prog(r, depth=5)
                s = t.spec_of(p)
                if 0 <= s.w < 60 and 0 <= s.h < 60 and self.safe(p):
                    return {'p': p, 'pix': False, 'xr': r.random() < .3, 'ev': r.random() < .3}
        g = t.Gen(r.getrandbits(32))

        def leaf(w, h, names):
            if r.random() < .15:
                q = NANS(g.nid + 50, w, h, names)
                return dict(q, nodata=r.choice(['ma', 'float', 'nan', None])) if r.random() < .4 else q
            g.nid += 1
            # identical file names must mean identical content
            return {'op': 'leaf', 'id': g.nid, 'w': w, 'h': h, 'c': len(names), 'ch': names, 'mask': r.random() < .15, 'dtype': r.choice(['uint8', 'float64', 'float32', 'int16']),
                    'nov': None, 'file': r.random() < .25 and w > 0 < h, 'sp': r.random() < .3}
        pool = list(t.NAMES)
        r.shuffle(pool)
        w, h = r.randint(1, 9), r.randint(1, 9)
        if r.random() < .2:
            first = r.choice([['r', 'g', 'b'], ['q.0', 'q.1'], ['q.1', 'q.2', 'k']])
            pool = [c for c in pool if c not in first]
        else:
            first = [pool.pop() for _ in range(r.randint(1, 3))]
        p = leaf(w, h, first)
        for _ in range(r.randint(1, 6)):
            s = t.spec_of(p)
            k = r.choice(['crop', 'crop', 'takei', 'take', 'dequant', 'concat'])
            n = len(s.chans)
            if k == 'crop':
                p = CROP(p, self.nonempty(r, s.h), self.nonempty(r, s.w), g.some_idx(n) if r.random() < .4 else None)
            elif k == 'takei':
                p = TAKEI(p, g.some_idx(n))
            elif k == 'take' and s.names and len(set(s.names)) == n:
                p = TAKE(p, r.sample(list(s.names) + ['zz', 'yy'], r.randint(1, n)))
            elif k == 'dequant' and not t.Gen.has(p, 'dequant'):
                p = DEQ(p)
            elif k == 'concat' and not t.Gen.has(p, 'take') and n <= 3 and r.random() < .25:
                g.nid += 1
                p = CAT(g.twin(p), g.twin(p))
            elif k == 'concat' and pool:
                o = leaf(s.w, s.h, [pool.pop()])
                if r.random() < .4:
                    big = leaf(s.w + 3, s.h + 2, [pool.pop()]) if pool else o
                    o = CROP(big, (1, 1 + s.h), (2, 2 + s.w)) if big is not o else o
                p = CAT(p, o) if r.random() < .5 else CAT(o, p)
        return {'p': p, 'pix': True, 'xr': r.random() < .3, 'ev': r.random() < .3}

    @staticmethod
    def nonempty(r, n):
        for _ in range(20):
            if r.random() < .02:
                k = r.randint(0, n)
                return [k, r.choice([k, r.randint(0, k)])]
            a = r.choice([None, r.randint(-n, n)])
            b = r.choice([None, r.randint(-n, n + 2)])
            y0, y1 = t.py_slice([a, b], n)
            if y1 > y0:
                return [a, b]
        return [None, None]

    @staticmethod
    def safe(p):
        """No step has an extreme resolution"""
        s = t.spec_of(p)
        if p['op'] == 'warp' and np.linalg.det(t.mat_of(p['tf'])[:2, :2]) <= 0:
            return False
        if s.w > 80 or s.h > 80 or len(s.chans) > 4 or not len(s.chans):
            return False
        for c in s.chans:
            if c is not None:
                sv = np.linalg.svd(c[2][:2, :2])[1]
                # mirrored or extreme transforms are outside of what kwimage resamples
                if sv.min() < .05 or sv.max() > 20 or np.linalg.det(c[2][:2, :2]) <= 0:
                    return False
        return all(C17.safe(q) for q in ([p['sub']] if 'sub' in p else p.get('subs', [])))

    def fixed(self):
        L = LEAF(1, 8, 6, 'rgb', dtype='uint8')
        F = LEAF(2, 8, 6, 'xyq', dtype='uint8', file=True)
        G = LEAF(3, 8, 6, 'k', dtype='uint8', file=True)
        st = [lambda p: CROP(p, (1, 5), (2, 7)), lambda p: CROP(p, (0, 3), (1, -1), [0]), lambda p: TAKEI(p, [-1, 0]),
              lambda p: TAKEI(p, [0]), lambda p: DEQ(p), lambda p: CROP(p, (2, None), (0, None)), lambda p: TAKE(p, ['b', 'zz', 'r'] if 'b' in t.spec_of(p).names else [t.spec_of(p).names[0], 'zz']),
              lambda p: CAT(p, NANS(9, t.spec_of(p).w, t.spec_of(p).h, ['n']))]
        for base in (L, F, G, CAT(L, F), CAT(G, NANS(8, 8, 6, ['n'])), CAT(G)):
            for seq in itertools.product(st, repeat=3):
                p = base
                try:
                    for f in seq:
                        p = f(p)
                        if p['op'] == 'dequant' and t.Gen.has(p['sub'], 'dequant'):
                            raise ValueError
                        nm = t.spec_of(p).names
                        if len(set(nm)) != len(nm):
                            raise ValueError
                    s = t.spec_of(p)
                    if s.w < 1 or s.h < 1:
                        raise ValueError
                except (ValueError, IndexError):
                    continue
                yield {'p': p, 'pix': True}
        for base in (L, F, G, CAT(L, F), dict(L, sp=True), dict(LEAF(4, 8, 6, ['q.0', 'q.1', 'k']), sp=True), dict(NANS(5, 8, 6, ['q.1', 'q.2']), sp=True),
                     LEAF(6, 8, 6, None, c=1, dtype='uint8', file=True), LEAF(7, 8, 6, None, c=2, dtype='uint8', file=True)):
            for f in (lambda p: p, lambda p: CROP(p, (1, 5), (2, 7)), lambda p: TAKEI(p, [0]), lambda p: DEQ(p), lambda p: CAT(p, NANS(9, 8, 6, ['n']))):
                yield {'p': f(base), 'pix': True, 'xr': True, 'ev': True}
        M = LEAF(11, 8, 6, 'rg', dtype='uint8', mask=True)
        D = dict(NANS(12, 8, 6, ['n', 'm']), nodata='ma')
        for base in (M, D, CAT(M, D), CAT(L, M), CAT(D, L), CAT(M, F), CAT(M, NANS(9, 8, 6, ['n']))):
            for f in (lambda p: p, lambda p: CROP(p, (1, 5), (2, 7)), lambda p: TAKEI(p, [1, 0]), lambda p: DEQ(p), lambda p: CAT(p, LEAF(13, 8, 6, 'k'))):
                yield {'p': f(base), 'pix': True, 'xr': True, 'ev': True}
        for c in systematic(2, 400):
            if self.safe(c['p']):
                yield dict(c, pix=False)
        for w, h, c in ((3, 5, 1), (7, 2, 2), (4, 4, 3)):
            for dsize in (None, [w, h], [w, None], [None, h]):
                for nov in (None, 0):
                    for names in (True, False):
                        for top in ('leaf', 'crop', 'cat'):
                            g = {k: v for k, v in (('dsize', dsize), ('num_overviews', nov)) if v is not None}
                            if top == 'leaf' or dsize == [w, h]:
                                yield {'prep': [w, h, c], 'given': g, 'names': names, 'top': top}

    @staticmethod
    def check_prepare(case):
        from delayed_image import delayed_leafs as L, delayed_nodes as N
        w, h, c = case['prep']
        names = [chr(97 + i) for i in range(c)]
        kw = {k: tuple(v) if isinstance(v, list) else v for k, v in case['given'].items()}
        src = L.DelayedLoad(t.leaf_file({'op': 'leaf', 'id': 77, 'w': w, 'h': h, 'c': c, 'dtype': 'uint8'}),
                            channels='|'.join(names) if case['names'] else None, **kw)
        other = L.DelayedNans((w, h), channels='zz')
        top = {'leaf': lambda: src, 'crop': lambda: N.DelayedOverview(src, 0), 'cat': lambda: N.DelayedChannelConcat([other, src], dsize=(w, h))}[case['top']]()
        if top.prepare() is not top:
            return 'prepare returns another view'
        want = kw.get('dsize')
        want = (w, h) if want is None or None in want else want
        if dims(src) != want or src.num_channels != c or t.names_of(src) != (names if case['names'] else None):
            return 'prepared file source declares {} with {} channels {} instead of {} with {}'.format(dims(src), src.num_channels, src.channels, want, c)
        if kw.get('num_overviews') is None and src.num_overviews != 0:
            return 'prepared file source declares {} overviews instead of 0'.format(src.num_overviews)
        return None

    def check(self, case):
        if 'prep' in case:
            return self.check_prepare(case)
        p = case['p']
        s = t.spec_of(p)
        for opt in (False, True):
            n = t.build(p)
            a = n.finalize(optimize=opt)
            a = np.ma.filled(a.astype('float64'), np.nan) if isinstance(a, np.ma.MaskedArray) else np.asarray(a)
            lab = 'optimized ' if opt else ''
            if a.shape != (s.h, s.w, len(s.chans)):
                single = a.ndim == 2 and len(s.chans) == 1 and a.shape == (s.h, s.w)
                if not (single and self.lazy2d(p)):
                    return '{}finalized array has shape {} instead of {}'.format(lab, a.shape, (s.h, s.w, len(s.chans)))
                a = a[:, :, None]
            if case['pix']:
                want = pixels(p)
                if not np.allclose(a.astype('float64'), want, equal_nan=True, rtol=1e-5, atol=1e-5):
                    return '{}finalized pixels differ from slicing, selecting, stacking and dequantizing'.format(lab)
            if dims(n) != (s.w, s.h) or n.num_channels != len(s.chans):
                return '{}view declares {} with {} channels instead of {} with {}'.format(lab, dims(n), n.num_channels, (s.w, s.h), len(s.chans))
            if case.get('ev') and hasattr(n, 'evaluate') and not opt:
                z = t.build(p).evaluate()
                if type(z).__name__ != 'DelayedIdentity' or dims(z) != dims(n) or z.num_channels != n.num_channels or t.names_of(z) != t.names_of(n):
                    return 'the evaluated view is a {} of size {} with channels {}'.format(type(z).__name__, dims(z), z.channels)
                b = z.finalize()
                b = np.ma.filled(b.astype('float64'), np.nan) if isinstance(b, np.ma.MaskedArray) else np.asarray(b)
                b = b[:, :, None] if b.ndim == 2 else b
                if case['pix'] and not np.allclose(b.astype('float64'), want, equal_nan=True, rtol=1e-5, atol=1e-5):
                    return 'the evaluated view has other pixels'
            if case.get('xr'):
                x = t.build(p).as_xarray().finalize(optimize=opt)
                if x.shape != a.shape or tuple(x.dims) != ('y', 'x', 'c'):
                    return '{}xarray has shape {} and axes {}'.format(lab, x.shape, x.dims)
                if not np.array_equal(x.values, a, equal_nan=True):
                    return '{}xarray differs from the finalized array'.format(lab)
                names = list(x.coords['c'].values) if 'c' in x.coords else None
                if s.names is not None and names != list(s.names) and t.names_of(t.build(p)) == list(s.names):
                    return '{}xarray labels the channels {} instead of {}'.format(lab, names, s.names)
        return None

    @staticmethod
    def lazy2d(p):
        """A bare single band file is documented to be read without channel axis"""
        if p['op'] == 'leaf':
            return bool(p.get('file')) and p['c'] == 1
        return any(C17.lazy2d(q) for q in ([p['sub']] if 'sub' in p else p.get('subs', [])))


# ------------------------------------------------------------------ C18
class C18(Prop):
    gen = C04.gen

    def fixed(self):
        for c in systematic(2):
            yield {'progs': [c['p']], 'order': []}
        a = LEAF(1, 9, 9, 'r')
        b = WARP(a, scale=[2, 2], dsize=[9, 9])
        yield {'progs': [CAT(a, {'op': 'ref', 'i': 0})], 'order': []} if False else {'progs': [a, CAT({'op': 'ref', 'i': 0}, WARP({'op': 'ref', 'i': 0}, dsize=[9, 9], scale=[2, 2]))], 'order': []}
        yield {'progs': [b, CAT({'op': 'ref', 'i': 0}, {'op': 'ref', 'i': 0})], 'order': []}
        yield {'progs': [b, CAT(CAT({'op': 'ref', 'i': 0}), CAT({'op': 'ref', 'i': 0}, {'op': 'ref', 'i': 0}))], 'order': []}

    def check(self, case):
        from collections import Counter
        res = resolve(case['progs'])
        for q in res:
            t.spec_of(q)
        memo = {}
        nodes = [t.build(q, memo) for q in res]
        for n in nodes + [n.optimize() for n in nodes]:
            occ = []      # (chain of nodes root..this)

            def rec(path):
                occ.append(path)
                x = path[-1]
                kids = list(x.parts) if hasattr(x, 'parts') else ([x.subdata] if x.subdata is not None else [])
                for c in kids:
                    rec(path + [c])
            rec([n])
            want = Counter((id(p[-2]) if len(p) > 1 else None, id(p[-1])) for p in occ)
            got = list(n._traverse())
            gotc = Counter((None if a is None else id(a), id(b)) for a, b in got)
            if gotc != want:
                return 'traversal yields {} operations, the tree has {}'.format(len(got), len(occ))
            if got[0][0] is not None or got[0][1] is not n:
                return 'traversal does not start at the view'
            seen = Counter()
            for a, b in got:
                if a is not None and not seen[id(a)]:
                    return 'an operation is visited before the operation using it'
                seen[id(b)] += 1
            leaf_occ = [p for p in occ if not ((hasattr(p[-1], 'parts') and p[-1].parts) or getattr(p[-1], 'subdata', None) is not None)]
            if Counter(id(x) for x in n.leafs()) != Counter(id(p[-1]) for p in leaf_occ):
                return 'leafs are not exactly the operations without inputs'
            paths = list(n._leaf_paths())
            sig = Counter()
            for lf, top in paths:
                chain = []
                x = top
                while x is not None:
                    chain.append((type(x).__name__, freeze(x.meta)))
                    if getattr(x, 'parts', None) is not None:
                        return 'an extracted path contains a concatenation'
                    if x.subdata is None:
                        if x is not lf:
                            return 'an extracted path ends in another leaf'
                    x = x.subdata
                sig[(id(lf), tuple(chain))] += 1
            wsig = Counter()
            for p in leaf_occ:
                ch = tuple((type(x).__name__, freeze(x.meta)) for x in p if not hasattr(x, 'parts'))
                wsig[(id(p[-1]), ch)] += 1
            if sig != wsig:
                return 'the extracted leaf paths are not the chains from the view to the leafs'
            G = n._traversed_graph()
            if G.number_of_nodes() != len(occ) or G.number_of_edges() != len(occ) - 1:
                return 'graph has {} nodes and {} edges for {} operations'.format(G.number_of_nodes(), G.number_of_edges(), len(occ))
            ge = Counter((id(G.nodes[u]['obj']), id(G.nodes[v]['obj'])) for u, v in G.edges)
            if ge != Counter((id(p[-2]), id(p[-1])) for p in occ if len(p) > 1):
                return 'graph edges are not the uses'
            G2 = n.as_graph()
            if G2.number_of_nodes() != len(occ) or G2.number_of_edges() != len(occ) - 1:
                return 'exported graph has {} nodes and {} edges for {} operations'.format(G2.number_of_nodes(), G2.number_of_edges(), len(occ))
        return None
