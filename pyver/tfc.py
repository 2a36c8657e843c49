"""Contract targets on reported transforms (C16) and on undoing warps (C15)"""
import itertools
from pyver import sym, nodes, facade, replay, treec
from pyver.nodes import AbsNode, apply_aff
from pyver.facade import SymAffine, Opaque, COMPONENTS
from pyver.sym import EQ, AND, OR
from pyver.treec import check_den, run_body
from pyver.viewc import Fn, case, concrete, shift, matrix, prog_case


def report_transforms(w):
    """contract of get_transform_from_leaf: some invertible matrix, always the same one"""
    def contract(node):
        i = object.__getattribute__(node, '_i')
        if i.tf is None:
            i.tf = facade.fresh_general(sym.eng(), 'P')
            i.tf.free = True
        return lambda: i.tf
    w.reported = {'get_transform_from_leaf': contract}


def same_affine(e, name, a, b):
    a, b = SymAffine.coerce(a), SymAffine.coerce(b)
    for k, (x, y) in enumerate(zip(a.m6(), b.m6())):
        e.check(name, EQ(x, y), note='matrix entry %d' % k)


def step_of(w, node):
    """the transform of one operation, from its parameters"""
    c = type(node)
    if issubclass(c, w.cls['warp']):
        return SymAffine.coerce(node.meta['transform'])
    if issubclass(c, w.cls['crop']):
        sy, sx = node.meta['space_slice']
        return shift(-sx.start, -sy.start)
    if issubclass(c, w.cls['overview']):
        return SymAffine.scale(1 / sym.pow2(node.meta['overview']))
    return SymAffine.eye()


def c16_case(e, w, a, b=None, **kw):
    def go(m):
        c = concrete(e, w, m)
        pa = c.program(a)
        bottom = pa
        while 'sub' in bottom:
            bottom = bottom['sub']
        pb = bottom if b is None else c.program(b)
        return dict({'a': pa, 'b': pb, 'cat': '', 'pos': 0, 'post': False}, **{k: v(c) if callable(v) else v for k, v in kw.items()})
    return case(go)


def step(kind):
    def body(e, w, tag):
        report_transforms(w)
        if kind == 'asx':
            node = w.asx(w.fresh_view('v', nocat=True))
        else:
            node = AbsNode.real(w.fresh_view('v', kinds=(kind,), nocat=True))
        e.on_refuted = c16_case(e, w, node)
        ok, res = run_body(e, w, tag, lambda: type(node).get_transform_from_leaf(node), ['C16'])
        if not ok:
            return
        e.cover('returns')
        if kind in nodes.LEAF:
            same_affine(e, tag + 'identity', res, SymAffine.eye())
        else:
            sub = node.subdata
            want = step_of(w, node) @ sub.get_transform_from_leaf()
            same_affine(e, tag + 'step after the transform of the input', res, want)
    return Fn('transform from the source[{}]'.format(kind), body,
              ['delayed_nodes.DelayedImage.get_transform_from_leaf' if kind not in nodes.LEAF else 'delayed_leafs.DelayedImageLeaf.get_transform_from_leaf'] +
              {'warp': ['delayed_nodes.DelayedWarp._transform_from_subdata'], 'crop': ['delayed_nodes.DelayedCrop._transform_from_subdata'],
               'overview': ['delayed_nodes.DelayedOverview._transform_from_subdata'],
               'dequant': ['delayed_nodes.DelayedDequantize._transform_from_subdata']}.get(kind, []))


def between():
    def body(e, w, tag):
        report_transforms(w)
        src, dst = w.fresh_view('src', nocat=True), w.fresh_view('dst', nocat=True)
        fn = w.lookup(w.cls['load'], 'get_transform_from')
        ok, res = run_body(e, w, tag, lambda: fn(dst, src), ['C16'])
        if ok:
            e.cover('returns')
            same_affine(e, tag + 'consistent with both reported transforms', res,
                        dst.get_transform_from_leaf() @ src.get_transform_from_leaf().inv())
    return Fn('transform between two views', body, ['delayed_nodes.ImageOpsMixin.get_transform_from'])


OPS = ('warp', 'crop', 'overview', 'dequant')


def op_on(e, w, sub, k):
    """a node of kind k with arbitrary parameters over sub"""
    W, H = sub.dsize
    if k == 'warp':
        T = facade.fresh_affine(e, 'T', ('general',))
        return w.cls['warp'](sub, T, dsize=(e.nat('w'), e.nat('h')), **w.opaque_warp_params())
    if k == 'crop':
        x0, x1, y0, y1 = [e.nat(n) for n in ('x0', 'x1', 'y0', 'y1')]
        e.require(AND(x0 <= x1, x1 <= W, y0 <= y1, y1 <= H))
        return w.cls['crop'](sub, (slice(y0, y1), slice(x0, x1)))
    if k == 'overview':
        return w.cls['overview'](sub, e.nat('ov'))
    return w.cls['dequant'](sub, Opaque('quantization'))


def chain(e, w, sub, n, label, ops=OPS):
    """up to n operations over sub; the composition of their steps, and the nodes"""
    M = SymAffine.eye()
    out = []
    for j in range(n):
        k = e.choose(('-',) + tuple(ops), '%s %d' % (label, j))
        if k == '-':
            break
        sub = op_on(e, w, sub, k)
        out.append(sub)
        M = step_of(w, sub) @ M
    return sub, M, out


def concatenated(who, first, nup, nested=False):
    """one or both of the views is a concatenation with operations above it (the first of kind `first`)"""
    def body(e, w, tag):
        leaf = AbsNode.real(w.fresh_view('leaf', kinds=('load',), names=False))

        def side(label, cat):
            v, M, _ = chain(e, w, leaf, 1, label + ' below', ('warp',))
            if not cat:
                return v, M, None
            other = AbsNode.real(w.fresh_view('other', kinds=('load',), names=False, dsize=v.dsize))
            parts = [w.cls['concat']([v]) if nested else v, other]
            if e.choose([False, True], label + ' second'):
                parts.reverse()
            top = w.cls['concat'](parts)
            U = SymAffine.eye()
            up = []
            if first is not None:
                top = op_on(e, w, top, first)
                U, up = step_of(w, top), [top]
            top, U2, up2 = chain(e, w, top, nup - 1, label + ' above')
            return top, U2 @ U @ M, (up + up2, v)
        src, A, ia = side('src', 'src' in who)
        dst, B, ib = side('dst', 'dst' in who)

        def mk(m):
            c = concrete(e, w, m)
            up = ib or ia

            def ops(nodes_):
                out = []
                for n in nodes_:
                    p = c.program_of(n, {'op': 'leaf', 'id': 9, 'w': 4, 'h': 4, 'c': 1, 'ch': None, 'nov': None})
                    p.pop('sub')
                    out.append(p)
                return out
            return {'a': c.program(ia[1] if ia else src), 'b': c.program(ib[1] if ib else dst),
                    'cat': ('a' if ia else '') + ('b' if ib else ''), 'pos': 0, 'post': ops(up[0])}
        e.on_refuted = case(mk)
        fn = w.lookup(type(dst), 'get_transform_from')
        ok, res = run_body(e, w, tag, lambda: fn(dst, src), ['C16'])
        if ok:
            e.cover('returns')
            same_affine(e, tag + 'composition of the steps of the shared source', res, B @ A.inv())
    return Fn('transform between views, concatenation[{}{} {}]'.format('+'.join(who), ' nested' if nested else '', first or 'bare'), body,
              ['delayed_nodes.ImageOpsMixin.get_transform_from', 'delayed_base.DelayedOperation._leaf_paths'])


def c16(tier):
    n = 4 if tier == "thorough" else 3
    out = []
    for k in OPS:
        out += [concatenated(('dst',), k, n), concatenated(('src',), k, n)]
    out += [concatenated(('src', 'dst'), k, 1) for k in OPS + (None,)]
    out += [concatenated(('dst',), None, 1), concatenated(('src',), None, 1), concatenated(('dst',), 'warp', 1, True)]
    out += [step(k) for k in ('warp', 'crop', 'overview', 'dequant', 'load', 'ident', 'nans', 'nodata')]
    return out + [between()]


# ------------------------------------------------------------------ C15

def subset(e, label):
    return [k for k in COMPONENTS if e.choose([False, True], '%s %s' % (label, k))]


def request(e, mode=None):
    """arguments of undo_warp and the set of components that stay"""
    mode = mode or e.choose(['none', 'retain', 'remove'], 'request')
    if mode == 'none':
        return {}, set(), mode, []
    ks = subset(e, mode)
    if mode == 'retain':
        form = e.choose(['set', 'list'], 'form')
        return {'retain': set(ks) if form == 'set' else ks}, set(ks), mode, ks
    return {'remove': ks}, set(COMPONENTS) - set(ks), mode, ks


def c15_case(e, w, part, mode, ks, sq):
    def mk(m):
        c = concrete(e, w, m)
        i = object.__getattribute__(part, '_i')
        out = []
        p = c.program(part)
        return {'parts': [{'op': 'warp', 'sub': p, 'tf': {'scale': [.5, .7], 'offset': [3, 4], 'theta': .3, 'shearx': .2}, 'kw': {}, 'dsize': [30, 20]}],
                'mode': mode, 'comps': list(ks), 'squash': sq}
    return case(mk)


def undo(mode, sq):
    def body(e, w, tag):
        report_transforms(w)
        w.auto_size()
        part = w.fresh_view('v', nocat=True)
        kw, keep, _, ks = request(e, mode)
        ret = e.choose([True, False], 'return_warp')
        e.on_refuted = c15_case(e, w, part, mode, ks, sq)
        den0 = w.den(part)
        if sq:      # the undone canvas is not empty (exclusion of the statement)
            w.on_call = lambda node: w.calls[0] is node and e.require(AND(node.dsize[0] >= 1, node.dsize[1] >= 1))
        fn = w.lookup(w.cls['load'], 'undo_warp')
        ok, res = run_body(e, w, tag, lambda: fn(part, squash_nans=sq, return_warp=ret, **kw), ['C15'])
        if not ok:
            return
        e.cover('returns')
        P = part.get_transform_from_leaf()
        undone, warp = res if ret else (res, None)
        e.check(tag + 'number of channels is kept', EQ(undone.num_channels, part.num_channels))
        pre = w.calls[0] if w.calls else None       # the view optimize was called on
        if pre is None or type(pre) is AbsNode or not issubclass(type(pre), w.cls['warp']):
            e.undecided(tag + 'the view is warped and optimized', repr(pre))
            return
        T = SymAffine.coerce(pre.meta['transform'])
        check_parts(e, tag, T, P, keep)
        want = apply_aff(T, den0)
        check_den(e, tag + 'the transform is applied to the view', want, w.den(pre))
        D = pre.dsize
        squashed = len(w.calls) > 1
        if squashed:
            e.check(tag + 'only placeholders are squashed', sq and nodes.resolve(want)[0] == 'nan')
            for k in (0, 1):
                e.check(tag + 'squashed size', EQ(undone.dsize[k], 1))
        else:
            check_den(e, tag + 'the undone view', want, w.den(undone))
            e.check(tag + 'size of the undone view', AND(EQ(undone.dsize[0], D[0]), EQ(undone.dsize[1], D[1])))
            if sq and type(undone) is AbsNode and AbsNode.possible(undone) <= {'nans', 'nodata'}:
                e.fail(tag + 'placeholders are squashed', repr(undone))
        if ret:
            if not sq:
                same_affine(e, tag + 'the reported transform is the applied one', warp, T)
            else:
                same_affine(e, tag + 'the reported transform is the applied one, on a unit canvas', warp,
                            SymAffine.scale((1 / sym.lift(D[0]), 1 / sym.lift(D[1]))) @ T)
    return Fn('undo_warp[{}{}]'.format(mode, ' squash' if sq else ''), body, ['delayed_nodes.DelayedImage.undo_warp', 'delayed_nodes._rectify_retain'])


def check_parts(e, tag, T, P, keep):
    """T is the inverse of P with the components in keep left out"""
    A = None
    have = T.parts or {}
    if not have:
        idt = AND(*[EQ(x, y) for x, y in zip(T.m6(), (1, 0, 0, 0, 1, 0))])
    for k in have:
        o = have[k].__dict__
        if o['_key'] != k:
            e.fail(tag + 'each component keeps its role', '%s from %s' % (k, o['_key']))
            return
        A = o['_of']
    if A is None:
        A = last_concise(e)
    if A is None:
        e.undecided(tag + 'components of the inverse', 'no decomposition was made')
        return
    if not have:
        e.check(tag + 'nothing is undone when every component stays', idt)
    same_affine(e, tag + 'the components come from the inverse of the reported transform', A, P.inv())
    full = set(A.__dict__['_concise']) - {'type'}
    e.check(tag + 'every component that does not stay is undone', full - keep <= set(have), note='%s of %s without %s' % (sorted(have), sorted(full), sorted(keep)))
    e.check(tag + 'components that stay are not undone', not (set(have) & keep), note='%s of %s without %s' % (sorted(have), sorted(full), sorted(keep)))


def last_concise(e):
    return e.memo.get(('py', 'last_concise'))


def both():
    def body(e, w, tag):
        report_transforms(w)
        part = w.fresh_view('v', nocat=True)
        a, b = subset(e, 'remove'), subset(e, 'retain')
        e.on_refuted = c15_case(e, w, part, 'both', a, False)
        which = e.choose(['image', 'concat'], 'of')
        try:
            if which == 'image':
                w.lookup(w.cls['load'], 'undo_warp')(part, remove=a, retain=b)
            else:
                w.cls['concat']([part]).undo_warps(remove=a, retain=b)
        except ValueError:
            e.cover('refused')
            e.check(tag + 'asking for both is an error', True)
        else:
            e.fail(tag + 'asking for both is an error', 'no ValueError')
    return Fn('remove and retain', body, ['delayed_nodes._rectify_retain'])


def parts_of_concat(n):
    def body(e, w, tag):
        names = e.choose([True, False], 'names known')
        dsize = (e.nat('w'), e.nat('h'))
        parts = [w.fresh_view('p%d' % j, nocat=True, names=names, dsize=dsize) for j in range(n)]
        log = []

        def contract(node):
            def undo_warp(remove=None, retain=None, squash_nans=False, return_warp=False):
                keep = set(retain) if retain is not None else set(COMPONENTS) - set(remove) if remove is not None else set()
                v, t = Opaque('undone'), Opaque('undo transform')
                log.append((node, keep, bool(squash_nans), v, t))
                return (v, t) if return_warp else v
            return undo_warp
        w.reported = {'undo_warp': contract}
        node = w.cls['concat'](parts)
        kw, keep, mode, ks = request(e)
        sq = e.choose([False, True], 'squash_nans')
        ret = e.choose([False, True], 'return_warps')
        e.on_refuted = lambda m: [{'parts': [{'op': 'warp', 'sub': {'op': op, 'id': j + 1, 'w': 20, 'h': 16, 'c': 1, 'ch': ['c%d' % j], 'nov': None},
                                              'tf': {'scale': [.5, .7 + j], 'offset': [3, 4], 'theta': .3, 'shearx': .2}, 'kw': {}, 'dsize': [30, 20]} for j in range(n)],
                                   'mode': mode, 'comps': list(ks), 'squash': sq} for op in ('leaf', 'nans')]
        ok, res = run_body(e, w, tag, lambda: type(node).undo_warps(node, squash_nans=sq, return_warps=ret, **kw), ['C15'])
        if not ok:
            return
        e.cover('returns')
        views, tfs = res if ret else (res, None)

        def entry(i, item, k):
            for x in log:
                if x[k] is item:
                    return x[0] is parts[i] and x[1] == keep and x[2] == sq
            return False
        e.check(tag + 'one view per part', len(views) == n)
        e.check(tag + 'each view is its part undone as requested, in order', all(entry(i, v, 3) for i, v in enumerate(views)) and len(views) == n)
        if ret:
            e.check(tag + 'each transform is that of its part', len(tfs) == n and all(entry(i, t, 4) for i, t in enumerate(tfs)))
    return Fn('undo_warps[{} parts]'.format(n), body, ['delayed_nodes.DelayedChannelConcat.undo_warps', 'delayed_nodes._rectify_retain'])


def c15(tier):
    return [undo(m, sq) for m in ('retain', 'remove', 'none') for sq in (True, False)] + [both()] + [parts_of_concat(n) for n in (1, 2, 3)]
