"""Concrete programs (bounded/trees.py JSON) from the counterexample of an obligation on trees"""
from fractions import Fraction
from pyver import nodes
from pyver.nodes import AbsNode, SymSeq, LEAF
from pyver.facade import SymAffine
from pyver.sym import SymNum


class No(Exception):
    pass


def thaw(f):
    if f[0] == 'dict':
        return {k: thaw(v) for k, v in f[1].items()}
    if f[0] in ('list', 'tuple'):
        return [thaw(v) for v in f[1]]
    if f[0] == 'slice':
        return slice(*[thaw(v) for v in f[1]])
    if f[0] == 'aff':
        return SymAffine(None) if f[2] is None else SymAffine.six(*f[2])
    return f[1]


class Old:
    """a node as it was before it was modified"""
    def __init__(self, w, i):
        self.kind = w.kind(i.real)
        self.dsize, self.channels, self.num_channels = i.dsize, i.names, i.n
        for k, v in i.snap.items():
            if k in ('meta', 'subdata', 'parts'):
                setattr(self, k, thaw(v))


class Concrete:
    def __init__(self, e, w, model):
        self.w = w
        self.vals = {}
        for a in e.atoms:
            v = model.get(a.name)
            try:
                self.vals[a.id] = Fraction(v.rstrip('?'))
            except (ValueError, AttributeError):
                self.vals[a.id] = Fraction(0)
        self.ids = 0
        self.seqs = {}

    def val(self, x):
        if not isinstance(x, SymNum):
            return x
        def poly(p):
            t = Fraction(0)
            for m, c in p.t.items():
                for k, n in m:
                    c = c * self.vals[k] ** n
                t += c
            return t
        v = poly(x.r.n)
        for f, n in x.r.d:
            d = poly(f)
            if d == 0:
                raise No('division by zero in the model')
            v /= d ** n
        if x.isint:
            if v.denominator != 1:
                raise No('not an integer')
            return int(v)
        return float(v)

    def size(self, d):
        return [int(self.val(d[0])), int(self.val(d[1]))]

    def leaf(self, op, dsize, n, names, nov=None):
        w, h = self.size(dsize)
        c = int(self.val(n))
        if w * h * c > 3000000 or c > 40:
            raise No('too large')
        self.ids += 1
        ch = None if names is None else ['c%d_%d' % (self.ids, j) for j in range(c)]
        out = {'op': op, 'id': self.ids, 'w': w, 'h': h, 'c': c, 'ch': ch, 'nov': None}
        if op == 'leaf' and nov is not None and nov != ('?',):
            out['nov'] = min(int(self.val(nov)), 6)
        return out

    def program(self, node):
        w = self.w
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            if i.real is not None:
                return self.program(Old(w, i) if w.changed(i) else i.real)
            if id(node) in w.optimized:
                r = w.optimized[id(node)][1]
                if object.__getattribute__(r, '_i').real is not None:
                    return self.program(r)
            ks = AbsNode.possible(node)
            if ks & {'load', 'ident'}:
                return self.leaf('leaf', i.dsize, i.n, i.names, i.nov)
            if ks & {'nans', 'nodata'}:
                return self.leaf('nans', i.dsize, i.n, i.names)
            W, H = self.size(i.dsize)
            base = self.leaf('leaf', i.dsize, i.n, i.names)
            if 'crop' in ks:
                return {'op': 'crop', 'sub': dict(base, w=W + 3, h=H + 2), 'y': [1, 1 + H], 'x': [2, 2 + W]}
            if 'overview' in ks:
                return {'op': 'overview', 'sub': dict(base, w=2 * W, h=2 * H), 'n': 1}
            if 'warp' in ks:
                return {'op': 'warp', 'sub': base, 'tf': {'scale': 2}, 'kw': {}, 'dsize': [W, H]}
            if 'dequant' in ks:
                return {'op': 'dequant', 'sub': base}
            return {'op': 'concat', 'subs': [base]}
        k = node.kind if type(node) is Old else w.kind(node)
        if k is None:
            if issubclass(type(node), w.asx):
                return self.program(node.subdata)
            raise No('class')
        if k in ('load', 'ident'):
            return self.leaf('leaf', node.dsize, node.num_channels, node.channels, node.meta.get('num_overviews'))
        if k in ('nans', 'nodata'):
            return self.leaf('nans', node.dsize, node.num_channels, node.channels)
        if k == 'concat':
            return {'op': 'concat', 'subs': [self.program(p) for p in node.parts]}
        return self.program_of(node, self.program(node.subdata), k)

    def program_of(self, node, sub, k=None):
        """one operation over a given program"""
        k = k or self.w.kind(node)
        if k == 'dequant':
            return {'op': 'dequant', 'sub': sub}
        if k == 'overview':
            n = int(self.val(node.meta['overview']))
            if n > 8:
                raise No('large overview')
            return {'op': 'overview', 'sub': sub, 'n': n}
        if k == 'warp':
            T = SymAffine.coerce(node.meta['transform'])
            m = [float(self.val(x)) for x in T.m6()]
            return {'op': 'warp', 'sub': sub, 'tf': {'matrix': [m[:3], m[3:], [0., 0., 1.]]}, 'kw': {'interpolation': 'cubic'},
                    'dsize': self.size(node.dsize)}
        if k == 'crop':
            sy, sx = node.meta['space_slice']
            out = {'op': 'crop', 'sub': sub, 'y': [int(self.val(sy.start)), int(self.val(sy.stop))],
                   'x': [int(self.val(sx.start)), int(self.val(sx.stop))]}
            s = node.meta['chan_idxs']
            if s is not None:
                total = int(self.val(node.subdata.num_channels))
                n = int(self.val(s.n))
                if n > 40:
                    raise No('many channels')
                out['idx'] = [(total - 1 - j) % total for j in range(n)]
            return out
        raise No(k)


def refs(p, i):
    return {'op': 'ref', 'i': i}


def cases(e, w, node, model, props):
    """candidate inputs of the bounded check for a counterexample"""
    if model is None or node is None:
        return []
    try:
        p = Concrete(e, w, model).program(node)
    except No as ex:
        return []
    out = []
    if 'C04' in props:
        subs = p.get('subs') or ([p['sub']] if 'sub' in p else [])
        out.append({'progs': [p], 'order': [0, 0]})
        for j, s in enumerate(subs):
            q = dict(p)
            if 'subs' in p:
                q['subs'] = [x if m != j else refs(x, 0) for m, x in enumerate(subs)]
            else:
                q['sub'] = refs(s, 0)
            out.append({'progs': [s, q], 'order': [0, 1, 0, 1]})
            out.append({'progs': [s, q, {'op': 'concat', 'subs': [refs(s, 0), refs(q, 1)]}], 'order': [2, 0, 1, 2]})
            out.append({'progs': [s, q, {'op': 'concat', 'subs': [refs(q, 1), refs(s, 0)]}], 'order': [2, 0, 1, 2]})
    else:
        out.append({'p': p})
    return out
