"""
Contracts over operation trees.

An AbsNode stands for *any* valid view: it carries the declared size, the channel
names (or that they are unknown), the number of channels and the denotation (which
source channel every output channel comes from, by which affine map, dequantized or
not).  Its kind (source, placeholder, warp, crop, ...) is decided only when the code
asks for it; refining it produces an instance of the real class, built by the real
constructor, over new AbsNodes.  `optimize` of any node other than the one under
verification is replaced by its contract.
"""
import types
import numpy as np
from pyver import sym, facade
from pyver.sym import SymNum, SymBool, Unsupported, PathEnd, AND, OR, NOT, EQ, eng, to_rat
from pyver.facade import SymAffine, Opaque, FakeArr
from pyver.load import Env

NAN = ('nan',)


class Base:
    def __init__(self, name, leaf=False, nodeq=False, nonan=False):
        self.name = name
        self.leaf = leaf
        self.nodeq = nodeq
        self.nonan = nonan
        self.bind = {}

    def __repr__(self):
        return self.name


class SymSeq:
    """a list of channel indexes about which only the length is known"""
    def __init__(self, parts, n):
        self.parts = parts
        self.n = n

    @staticmethod
    def fresh(e, name):
        n = e.nat(name + '_len')
        k = e.fresh_n.get('seq', 0)
        e.fresh_n['seq'] = k + 1
        return SymSeq(('%s#%d' % (name, k),), n)

    def _v_len(self):
        return self.n

    def _v_take(self, outer):
        if isinstance(outer, SymSeq):
            return SymSeq(self.parts + outer.parts, outer.n)
        raise Unsupported('take from an index list')

    def _v_list(self):
        return self

    def _v_taken_from(self, items):
        raise Unsupported('take with an opaque index list')

    def copy(self):
        return self

    def _v_copy(self):
        return self

    def _v_deepcopy(self):
        return self

    @staticmethod
    def _v_isinstance_(x, c):
        return c in (list, object, SymSeq)

    _v_isinstance = _v_isinstance_.__func__

    def __iter__(self):
        raise Unsupported('iteration over an opaque index list')

    def __len__(self):
        raise Unsupported('length of an opaque index list')

    def __bool__(self):
        return bool(self.n > 0)

    def __eq__(self, o):
        if isinstance(o, SymSeq) and o.parts == self.parts:
            return True
        if o is None:
            return False
        if o is Ellipsis:
            return False
        raise Unsupported('comparison of opaque index lists')

    def __hash__(self):
        return hash(self.parts)

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('index list .%s' % name)

    def __repr__(self):
        return 'idx' + str(list(self.parts))


# ------------------------------------------------------------------ denotations

class Bad(Exception):
    """denotation undefined"""


def V(A, base, seqs=(), q=None):
    return ('v', A, base, seqs, q)


def mm(A, B):
    if A is None:
        return B
    if B is None:
        return A
    return A @ B


def apply_aff(A, d):
    if A is None or (isinstance(A, SymAffine) and A.matrix is None):
        return d
    if d[0] == 'nan':
        return d
    if d[0] == 'cat':
        return ('cat', [(apply_aff(A, x), n) for x, n in d[1]])
    return ('v', mm(A, d[1])) + d[2:]


def apply_q(q, d):
    if q is None or d[0] == 'nan':
        return d
    if d[0] == 'cat':
        return ('cat', [(apply_q(q, x), n) for x, n in d[1]])
    if d[4] is not None:
        raise Bad('two dequantizations on one path')
    return d[:4] + (q,)


def select(d, s):
    if s is None or d[0] == 'nan':
        return d
    if isinstance(s, SymSeq):
        if d[0] == 'v':
            return ('v', d[1], d[2], d[3] + s.parts, d[4])
        if d[0] == 'cat' and len(d[1]) == 1:
            return select(d[1][0][0], s)
        # selection from a concatenation: keep it as one named object
        return V(None, cat_base(d), s.parts, None)
    raise Unsupported('selection by %r' % (s,))


def cat_base(d):
    """a base bound to a concatenation; one per path and denotation object"""
    e = eng()
    key = ('catbase', den_key(d))
    if key not in e.memo:
        b = Base('cat')
        b.bind[()] = d
        e.memo[key] = b
    return e.memo[key]


def den_key(d):
    d = resolve(d)
    if d[0] == 'nan':
        return d
    if d[0] == 'cat':
        return ('cat',) + tuple((den_key(x), to_rat(n).key()) for x, n in d[1])
    A = d[1]
    a = None if A is None else tuple(to_rat(x).key() for x in A.m6())
    return ('v', a, id(d[2]), d[3], id(d[4]) if d[4] is not None else None)


def resolve(d, depth=0):
    if depth > 60:
        raise Unsupported('denotation depth')
    if d[0] == 'nan':
        return d
    if d[0] == 'cat':
        parts = []
        for x, n in d[1]:
            r = resolve(x, depth + 1)
            if r[0] == 'cat':
                parts.extend(r[1])
            else:
                parts.append((r, n))
        if len(parts) == 1:
            return parts[0][0]
        if all(x[0] == 'nan' for x, n in parts):
            return NAN
        return ('cat', parts)
    _, A, b, seqs, q = d
    if seqs in b.bind:
        inner = b.bind[seqs]
        return resolve(apply_aff(A, apply_q(q, inner)), depth + 1)
    if seqs and () in b.bind:
        inner = resolve(b.bind[()], depth + 1)
        if inner[0] == 'nan':
            return NAN
        if inner[0] == 'v':
            inner = ('v', inner[1], inner[2], inner[3] + seqs, inner[4])
            return resolve(apply_aff(A, apply_q(q, inner)), depth + 1)
    # prefixes of seqs that are bound
    for k in range(len(seqs) - 1, 0, -1):
        if seqs[:k] in b.bind:
            inner = resolve(b.bind[seqs[:k]], depth + 1)
            if inner[0] == 'nan':
                return NAN
            if inner[0] == 'v':
                inner = ('v', inner[1], inner[2], inner[3] + seqs[k:], inner[4])
                return resolve(apply_aff(A, apply_q(q, inner)), depth + 1)
    return d


def den_checks(d1, d2, names=False):
    """list of (what, goal) whose conjunction is d1 == d2; None if they cannot be aligned"""
    a, b = resolve(d1), resolve(d2)
    if a[0] == 'nan' or b[0] == 'nan':
        if a[0] == b[0]:
            return []
        return [('placeholder channels differ', False)]
    if a[0] == 'cat' or b[0] == 'cat':
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            return None
        out = []
        for (x, n), (y, m) in zip(a[1], b[1]):
            out.append(('channels per part', EQ(n, m)))
            sub = den_checks(x, y, names)
            if sub is None:
                return None
            out += sub
        return out
    out = []
    if a[2] is not b[2] or a[3] != b[3]:
        return [('source or channel selection differ: {}{} and {}{}'.format(a[2], list(a[3]), b[2], list(b[3])), False)]
    if a[4] is not b[4]:
        return [('dequantization differs', False)]
    A = a[1] if a[1] is not None else SymAffine(None)
    B = b[1] if b[1] is not None else SymAffine(None)
    for i, (x, y) in enumerate(zip(A.m6(), B.m6())):
        out.append(('matrix entry %d' % i, EQ(x, y)))
    return out


# ------------------------------------------------------------------ names

class SymNames:
    """FusedChannelSpec about which nothing but the number of channels is known"""
    def __init__(self, den, n):
        self.den = den
        self.n = n

    def normalize(self):
        return self

    def numel(self):
        return self.n

    def _v_len(self):
        return self.n

    def __getitem__(self, s):
        if isinstance(s, SymSeq):
            return SymNames(select(self.den, s), s.n)
        raise Unsupported('names[%r]' % (s,))

    @classmethod
    def coerce(cls, x):
        if isinstance(x, SymNames):
            return x
        raise Unsupported('FusedChannelSpec.coerce')

    @classmethod
    def concat(cls, items):
        items = list(items)
        return SymNames(('cat', [(i.den, i.n) for i in items]), facade.total([i.n for i in items]))

    def __eq__(self, o):
        if not isinstance(o, SymNames):
            return False
        c = den_checks(self.den, o.den)
        if c == []:
            return True
        if c and all(g is True or (isinstance(g, SymBool) and eng().entails(g.f)) for _, g in c):
            return True
        return SymBool(sym.F('var', 'names{}={}'.format(den_key(self.den), den_key(o.den))))

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 1

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('FusedChannelSpec.%s' % name)

    def _v_deepcopy(self):
        return self

    def _v_copy(self):
        return self


# ------------------------------------------------------------------ abstract nodes

ALL = ('load', 'ident', 'nans', 'nodata', 'warp', 'crop', 'overview', 'dequant', 'concat')


LEAF = ('load', 'ident', 'nans', 'nodata')
# normal form of the results of optimize: what may be directly below a node of each kind
NFKIDS = {
    ('R', 'warp'): (LEAF + ('dequant', 'crop', 'overview'), 'R'),
    ('R', 'dequant'): (LEAF + ('crop', 'overview'), 'R'),
    ('R', 'crop'): (LEAF + ('overview', 'warp'), 'R'),
    ('R', 'overview'): (LEAF, 'R'),
    ('R', 'concat'): (ALL, 'R'),
}


# contracts on methods: kinds of the result (when it is not self) and whether it is in normal form
# and whether the argument may be modified (then it must not be used afterwards)
METHODS = {('warp', '_opt_absorb_overview'): (('warp',), True, True),
           ('warp', '_opt_split_warp_overview'): (('warp', 'crop', 'overview', 'dequant'), False, False),
           ('crop', '_opt_warp_after_crop'): (('warp',), False, False)}


class Gone:
    """what a contract that may modify its argument leaves behind"""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Bad('a node that may have been modified is used')


def form_holds(g):
    return g is True or (isinstance(g, SymBool) and eng().entails(g.f))


class Info:
    pass


class AbsNode:
    def __init__(self, w, den, dsize, names, n, nov=('?',), kinds=ALL, label='node', fresh=False, nf=None, nocat=False, result=False):
        i = Info()
        i.nf = nf               # result of optimize: concatenations only at the top
        i.nocat = nocat         # contains no concatenation
        i.w = w
        i.den = den
        i.dsize = dsize
        i.names = names
        i.n = n
        i.nov = nov
        i.kinds = set(kinds)
        i.real = None
        i.label = label
        i.fresh = fresh
        i.snap = None
        i.path = None
        i.mutated = False
        i.result = result
        i.tf = None             # the transform from its source it reports
        object.__setattr__(self, '_i', i)
        w.abs.append(self)

    # --- kinds
    def possible(self):
        i = object.__getattribute__(self, '_i')
        if i.real is not None:
            return i.kinds
        d = resolve(i.den)
        ks = set(i.kinds)
        if i.nocat:
            ks -= {'concat'}
        if d[0] == 'nan':
            ks -= {'load', 'ident'}
        elif d[0] == 'cat':
            ks -= {'load', 'ident', 'nans', 'nodata'}
            if any(resolve(x)[0] != 'v' or resolve(x)[4] is None for x, n in d[1]):
                ks -= {'dequant'}
        else:
            _, A, b, seqs, q = d
            if b.leaf:
                ks -= {'nans', 'nodata', 'concat'}
                if seqs:
                    ks -= {'load', 'ident'}
            if b.nonan:
                ks -= {'nans', 'nodata'}
            if b.nodeq and q is None:
                ks -= {'dequant'}
            if q is not None:
                ks -= {'load', 'ident'}
            if () in b.bind and seqs:
                # selection stuck on a concatenation
                ks -= {'load', 'ident', 'nans', 'nodata'}
        if i.nov != ('?',):
            if i.nov is not None:
                ks -= {'nans', 'nodata', 'ident'}
        i.kinds = ks
        if not ks:
            raise PathEnd
        if i.nf and 'concat' not in ks:
            i.nocat = True
        return ks

    def is_in(self, ks):
        i = object.__getattribute__(self, '_i')
        P = AbsNode.possible(self)
        inside = P & set(ks)
        if not inside:
            return False
        if P <= set(ks):
            return True
        r = eng().choose([True, False], i.label)
        i.kinds = inside if r else P - inside
        AbsNode.possible(self)
        return r

    def real(self):
        i = object.__getattribute__(self, '_i')
        if i.real is None:
            P = AbsNode.possible(self)
            order = [k for k in ALL if k in P]
            k = eng().choose(order, i.label)
            i.kinds = {k}
            AbsNode.possible(self)
            i.real = i.w.build(self, i, k)
            i.snap = i.w.snapshot(i.real)
        return i.real

    @property
    def __class__(self):
        return type(AbsNode.real(self))

    @staticmethod
    def _v_isinstance(x, c):
        if c is object or c is AbsNode:
            return True
        i = object.__getattribute__(x, '_i')
        if not isinstance(c, type):
            return False
        return AbsNode.is_in(x, [k for k in ALL if issubclass(i.w.cls[k], c)])

    @staticmethod
    def _v_hasattr(x, name):
        i = object.__getattribute__(x, '_i')
        return AbsNode.is_in(x, [k for k in ALL if i.w.class_has(i.w.cls[k], name)])

    @staticmethod
    def _v_copy(x):
        import copy
        return copy.copy(AbsNode.real(x))

    def __deepcopy__(self, memo):
        raise Unsupported('deepcopy of a node')

    def __getattr__(self, name):
        i = object.__getattribute__(self, '_i')
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        w = i.w
        if name in w.reported and (i.real is None or not w.changed(i)):
            if name not in w.reported_any and AbsNode.is_in(self, ('concat',)):
                if w.class_has(w.cls['concat'], name):
                    raise Unsupported(name + ' of a concatenation')
                raise AttributeError(name)
            return w.reported[name](self)
        if i.real is None:
            if name == 'dsize':
                return i.dsize
            if name == 'channels':
                return i.names
            if name == 'num_channels':
                return i.n
            if name == 'shape':
                return (i.dsize[1], i.dsize[0], i.n)
            if name == 'num_overviews':
                if i.nov == ('?',):
                    if eng().choose([True, False], 'known overviews'):
                        i.nov = eng().nat('nov')
                    else:
                        i.nov = None
                return i.nov
            P = AbsNode.possible(self)
            attrs = {w.lookup(w.cls[k], name) for k in P}
            if len(attrs) == 1:
                a = next(iter(attrs))
                if isinstance(a, types.FunctionType):
                    return types.MethodType(a, self)
            if name == 'optimize':
                return types.MethodType(w.optimize_method, self)
            if name == 'subdata' and i.fresh and not P & set(LEAF + ('concat',)):
                return Child(self)
        real = AbsNode.real(self)
        a = w.lookup(type(real), name)
        if isinstance(a, property):
            return a.fget(self)
        if isinstance(a, types.FunctionType):
            return types.MethodType(a, self)
        return getattr(real, name)

    def __setattr__(self, name, value):
        i = object.__getattribute__(self, '_i')
        if name == 'subdata' and i.real is None and type(value) is OptChild and value.node is self:
            # replacing the child by an equivalent one: size, channels and denotation of a
            # node are functions of those of its child (congruence)
            i.nf = None
            return
        real = AbsNode.real(self)
        i.w.mutations.append((self, name))
        if name != '_opt_logs':
            i.mutated = True
        a = i.w.lookup(type(real), name)
        if isinstance(a, property):
            a.fset(self, value)
        else:
            setattr(real, name, value)

    def __getitem__(self, sl):
        return self.__getattr__('__getitem__1')(sl) if False else AbsNode.real(self)[sl]

    def __repr__(self):
        i = object.__getattribute__(self, '_i')
        return '<{} {}>'.format(i.label, '/'.join(sorted(i.kinds)) if len(i.kinds) < 4 else '?')


class OptChild:
    def __init__(self, node):
        self.node = node

    def __getattr__(self, name):
        raise Unsupported('optimized child of a node of unknown kind: .%s' % name)


class Child:
    """the child of a node whose kind is not known yet"""
    def __init__(self, node):
        self.node = node

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'optimize':
            return lambda ctx=None: OptChild(self.node)
        return getattr(AbsNode.real(self.node).subdata, name)

    @staticmethod
    def _v_isinstance(x, c):
        from pyver.load import v_isinstance
        return v_isinstance(AbsNode.real(x.node).subdata, c)

    @staticmethod
    def _v_hasattr(x, name):
        from pyver.load import v_hasattr
        return v_hasattr(AbsNode.real(x.node).subdata, name)


# ------------------------------------------------------------------ world

class World:
    """The repository modules loaded for tree contracts"""
    def __init__(self, repo, opaque_names=True):
        env = Env(repo)
        self.env = env
        import kwimage, kwarray, numpy, ubelt, math, copy  # noqa
        from pyver import arr
        np_, math_ = arr.ArrNP(), facade.Math()
        env.overrides.update({'numpy': np_, 'math': math_, 'ubelt': facade.UB(), 'copy': facade.Copy()})
        env.overrides['kwimage'] = facade.KW(env)
        env.overrides['kwarray'] = facade.KWA(env)
        self.base = env.module('delayed_image.delayed_base')
        self.leafs = env.module('delayed_image.delayed_leafs')
        self.nodes = env.module('delayed_image.delayed_nodes')
        self.helpers = env.module('delayed_image.helpers')
        n, l = self.nodes, self.leafs
        if opaque_names:
            for m in (n, l):
                if hasattr(m, 'FusedChannelSpec'):
                    m.FusedChannelSpec = SymNames
        self.cls = {'load': l.DelayedLoad, 'ident': l.DelayedIdentity, 'nans': l.DelayedNans, 'nodata': l.DelayedNodata,
                    'warp': n.DelayedWarp, 'crop': n.DelayedCrop, 'overview': n.DelayedOverview,
                    'dequant': n.DelayedDequantize, 'concat': n.DelayedChannelConcat}
        self.asx = n.DelayedAsXarray
        self.orig = {}
        self.orig_methods = {}
        self.use = set()
        self.patched = False
        self.optimize_method = None
        self.replaced = []
        self.reset()

    def reset(self):
        self.abs = []
        self.mutations = []
        self.calls = []
        self.leafden = {}
        self.on_call = None
        self.same_choice = False
        self.keep = []
        self.optimized = {}
        self.reported = {}
        self.reported_any = ()
        for mod, name, fn in self.replaced:
            setattr(mod, name, fn)
        self.replaced = []

    def dequantized(self, px, quantization, ix):
        """element ix of the dequantized array (the function is the subject of C12)"""
        return self.helpers.dequantize(px, quantization).at(*ix)

    def auto_size(self):
        """contract of _auto_dsize (if there is such a function): two integers"""
        def _auto_dsize(transform, sub_dsize):
            e = eng()
            e.used.add('the automatic canvas size is some pair of integers (its value is the subject of C06)')
            return (e.fresh('auto_w', True), e.fresh('auto_h', True))
        for mod in (self.env.module('delayed_image.helpers'), self.nodes):
            fn = mod.__dict__.get('_auto_dsize')
            if fn is not None:
                self.replaced.append((mod, '_auto_dsize', fn))
                mod._auto_dsize = _auto_dsize

    # --- class helpers
    def lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def class_has(self, cls, name):
        return self.lookup(cls, name) is not None

    # --- contracts on optimize
    def install_contracts(self):
        w = self
        if self.patched:
            return
        self.patched = True

        def optimize(self, ctx=None):
            return w.optimize_contract(self, ctx)
        self.optimize_method = optimize
        for c in list(self.cls.values()) + [self.asx, self.leafs.DelayedImageLeaf, self.nodes.DelayedImage]:
            for k in c.__mro__:
                if 'optimize' in k.__dict__ and k is not self.base.DelayedOperation and k not in self.orig:
                    self.orig[k] = k.__dict__['optimize']
                    k.optimize = optimize
        for (kind, name) in METHODS:
            self.install_method(kind, name)
        crop = self.cls['crop']
        init = crop.__dict__.get('__init__')
        if init is not None:
            def crop_init(self, subdata, space_slice=None, chan_idxs=None):
                if ('crop', '__init__') in w.use and chan_idxs is None and space_slice is not None and w.crop_pre(space_slice):
                    return w.crop_contract(self, subdata, space_slice)
                return init(self, subdata, space_slice, chan_idxs)
            crop.__init__ = crop_init
        cc = self.nodes.DelayedChannelConcat
        take = cc.take_channels

        def take_channels(self, channels, *a, **k):
            if isinstance(channels, SymSeq):
                return w.take_contract(self, channels)
            return take(self, channels, *a, **k)
        cc.take_channels = take_channels

    def install_method(self, kind, name):
        w = self
        cls = self.cls[kind]
        if name not in cls.__dict__:
            return              # the code was reorganised: whatever it does is executed inline
        orig = cls.__dict__[name]
        self.orig_methods[kind, name] = orig

        def method(self, *a, **k):
            if (kind, name) in w.use and not a and not k and w.method_pre(kind, name, self):
                return w.method_contract(kind, name, self)
            return orig(self, *a, **k)
        setattr(cls, name, method)

    def method_pre(self, kind, name, node):
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            if i.real is None or self.changed(i):
                return False
            node = i.real
        if type(node) is not self.cls[kind]:
            return False
        if name == '_opt_warp_after_crop':
            sub = node.subdata
            from pyver.load import v_isinstance
            if not v_isinstance(sub, self.cls['warp']):
                return False
        return self.normal(node) and all(form_holds(g) for _, g in self.valid_checks(node))

    def method_contract(self, kind, name, node):
        """requires a valid view in normal form; ensures self, or a new view of the same kind of content"""
        e = eng()
        if e.choose([True, False], name + ' returns self'):
            return node
        self.calls.append(node)
        kinds, nf, modifies = METHODS[kind, name]
        view = self.den(node), node.dsize, node.channels, node.num_channels
        if modifies:
            node.subdata = Gone()
        r = AbsNode(self, *view, label=name[5:], kinds=kinds, nf='R' if nf else None, nocat=True,
                    result=True)
        object.__getattribute__(r, '_i').fresh = True
        return r

    def crop_pre(self, sl):
        return all(v is None or isinstance(v, (SymNum, int)) and (v.isint if isinstance(v, SymNum) else True)
                   for s in sl for v in (s.start, s.stop)) and all(s.step is None for s in sl)

    def crop_contract(self, node, sub, sl):
        """ensures the window is the one Python slicing gives (obligation 'exact window' of C05)"""
        eng().used.add('contract of DelayedCrop.__init__ without channel selection, discharged by property C05 (crop entry[init]: exact window)')

        def norm(v, dflt, n):
            if v is None:
                return dflt
            v = sym.lift(v)
            if form_holds(v >= 0):
                return sym.smin(v, n)
            if v < 0:
                return sym.smax(v + n, 0)
            return sym.smin(v, n)
        self.nodes.DelayedImage.__init__(node, sub)
        W, H = sub.dsize
        out = []
        for s, n in zip(sl, (H, W)):
            a = norm(s.start, 0, n)
            out.append(slice(a, sym.smax(a, norm(s.stop, n, n))))
        node.meta['dsize'] = (out[1].stop - out[1].start, out[0].stop - out[0].start)
        node.meta['space_slice'] = tuple(out)
        node.meta['chan_idxs'] = None

    def take_contract(self, node, idx):
        """take_channels of a concatenation by an index list: a concatenation of the same
        size whose i-th channel is channel idx[i]"""
        self.used_take = True
        eng().used.add('contract of DelayedChannelConcat.take_channels (index lists), checked by property C07')
        names = node.channels
        return AbsNode(self, select(self.den(node), idx), node.dsize, None if names is None else names[idx], idx.n,
                       label='taken', kinds=('concat',))

    def body(self, cls, name='optimize'):
        for c in cls.__mro__:
            if name == 'optimize' and c in self.orig:
                return self.orig[c]
            if name in c.__dict__:
                return c.__dict__[name]
        raise Unsupported('%s has no %s' % (cls.__name__, name))

    def optimize_contract(self, node, ctx):
        """requires valid(node); ensures same size, channels and denotation"""
        if isinstance(node, AbsNode) and self.same_choice and eng().choose([True, False], 'optimize returns the same node'):
            return node
        if self.is_leaf(node):
            return node
        self.calls.append(node)
        if self.on_call is not None:
            self.on_call(node)
        d = self.den(node)
        names = node.channels
        n = node.num_channels
        r = AbsNode(self, d, node.dsize, names, n, label='optimized%d' % len(self.calls), nf='R', nocat=self.catfree(node))
        self.optimized[id(node)] = node, r
        i = object.__getattribute__(r, '_i')
        i.result = True
        if ctx is None:
            # nothing else refers to the result of a call with its own context (or it is a source)
            i.fresh = True
            if self.nonleaf(node):
                eng().used.add('assumption: the optimized form of a crop of an overview (level >= 1) of a view in normal form is not a bare source')
                i.kinds -= set(LEAF)
        return r

    def is_leaf(self, node):
        if type(node) is AbsNode:
            return AbsNode.possible(node) <= set(LEAF)
        return issubclass(type(node), self.leafs.DelayedImageLeaf)

    def nonleaf(self, node):
        n = self.nodes
        while type(node) is not AbsNode and issubclass(type(node), n.DelayedWarp):
            node = node.subdata
        if type(node) is AbsNode or not issubclass(type(node), n.DelayedCrop):
            return False
        sub = node.subdata
        if type(sub) is AbsNode or not issubclass(type(sub), n.DelayedOverview):
            return False
        return eng().entails(sym.form(sub.meta['overview'] >= 1)) and self.normal(sub.subdata, *NFKIDS['R', 'warp'])

    def catfree(self, node):
        """node is known to contain no concatenation"""
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            return i.nocat
        if issubclass(type(node), self.nodes.DelayedChannelConcat):
            return False
        return node.subdata is None or self.catfree(node.subdata)

    def kind(self, node):
        for k, c in self.cls.items():
            if type(node) is c:
                return k
        return None

    def normal(self, node, allowed=ALL, st='R'):
        """node is known to be in the normal form of optimize results"""
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            if i.real is None:
                return (i.nf == 'R' or i.nf == st) and AbsNode.possible(node) <= set(allowed)
            return self.normal(i.real, allowed, st)
        k = self.kind(node)
        if k is None:
            return issubclass(type(node), self.asx) and self.normal(node.subdata)
        if k not in allowed:
            return False
        if k in LEAF:
            return True
        if (st, k) not in NFKIDS:
            return False
        if k == 'concat':
            return all(self.normal(p) for p in node.parts)
        return self.normal(node.subdata, *NFKIDS[st, k])

    # --- denotation of any node
    def den(self, node):
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            return self.den(i.real) if self.changed(i) else i.den
        n = self.nodes
        c = type(node)
        if issubclass(c, self.leafs.DelayedNans):
            return NAN
        if issubclass(c, self.leafs.DelayedImageLeaf):
            if id(node) not in self.leafden:
                self.keep.append(node)
                self.leafden[id(node)] = V(None, Base('source%d' % len(self.leafden), leaf=True))
            return self.leafden[id(node)]
        if issubclass(c, n.DelayedChannelConcat):
            return ('cat', [(self.den(p), p.num_channels) for p in node.parts])
        sub = self.den(node.subdata)
        if issubclass(c, n.DelayedWarp):
            return apply_aff(SymAffine.coerce(node.meta['transform']), sub)
        if issubclass(c, n.DelayedCrop):
            sy, sx = node.meta['space_slice']
            return select(apply_aff(SymAffine.translate((-sx.start, -sy.start)), sub), node.meta['chan_idxs'])
        if issubclass(c, n.DelayedOverview):
            return apply_aff(SymAffine.scale(1 / sym.pow2(node.meta['overview'])), sub)
        if issubclass(c, n.DelayedDequantize):
            return apply_q(node.meta['quantization'], sub)
        if issubclass(c, n.DelayedAsXarray):
            return sub
        raise Unsupported('node class ' + c.__name__)

    def changed(self, i):
        """a refined node that was modified since"""
        if i.real is None:
            return False
        return i.mutated or any(g is not True for _, g in self.frame_changes(i.real, i.snap))

    # --- validity (class invariants)
    def valid_checks(self, node):
        out = []
        if type(node) is AbsNode:
            i = object.__getattribute__(node, '_i')
            return self.valid_checks(i.real) if self.changed(i) else out
        if issubclass(type(node), self.leafs.DelayedImageLeaf):
            return out
        n = self.nodes
        c = type(node)
        if issubclass(c, n.DelayedChannelConcat):
            for p in node.parts:
                out += self.valid_checks(p)
                out.append(('parts of a concatenation have its size', self.size_eq(p.dsize, node.dsize)))
            return out
        sub = node.subdata
        out += self.valid_checks(sub)
        W, H = sub.dsize
        w, h = node.dsize
        if issubclass(c, n.DelayedCrop):
            sy, sx = node.meta['space_slice']
            out.append(('crop window inside of its input', AND(sx.start >= 0, sy.start >= 0, sx.start <= sx.stop, sy.start <= sy.stop,
                                                             sx.stop <= W, sy.stop <= H)))
            out.append(('crop size', AND(EQ(sym.lift(w), sx.stop - sx.start), EQ(sym.lift(h), sy.stop - sy.start))))
            s = node.meta['chan_idxs']
            want = sub.num_channels if s is None else s._v_len()
            out.append(('crop channels', EQ(node.num_channels, want)))
        elif issubclass(c, n.DelayedOverview):
            p = sym.pow2(node.meta['overview'])
            out.append(('overview size', AND(EQ(w, sym.ceil(W / p)), EQ(h, sym.ceil(H / p)))))
        elif issubclass(c, n.DelayedDequantize):
            out.append(('dequantized size', AND(EQ(w, W), EQ(h, H))))
        return out

    def size_eq(self, a, b):
        if a is None or b is None:
            return a is b
        return AND(EQ(a[0], b[0]), EQ(a[1], b[1]))

    # --- refinement
    def fresh_view(self, label='input', nodeq=False, names=None, nonan=False, kinds=ALL, dsize=None, nocat=False, nf=None):
        """any valid view"""
        e = eng()
        b = Base('S_' + label, nodeq=nodeq, nonan=nonan)
        n = e.nat(label + '_chan', 1)
        if names is None:
            names = e.choose([True, False], 'names known')
        nm = SymNames(V(None, Base('N_' + label)), n) if names else None
        if dsize is None:
            dsize = (e.nat(label + '_w'), e.nat(label + '_h'))
        return AbsNode(self, V(None, b), dsize, nm, n, label=label, kinds=kinds, nocat=nocat, nf=nf)

    def opaque_warp_params(self):
        e = eng()
        k = e.fresh_n.get('wp', 0)
        e.fresh_n['wp'] = k + 1
        return dict(antialias=Opaque('antialias%d' % k), interpolation=Opaque('interpolation%d' % k),
                    border_value=Opaque('border%d' % k), noop_eps=0, backend=Opaque('backend%d' % k))

    def build(self, node, i, kind):
        e = eng()
        d = resolve(i.den)
        w, h = i.dsize
        cls = self.cls[kind]
        lab = i.label + '.' + kind
        chan = i.names if i.names is not None else i.n
        if kind in ('load', 'ident'):
            A, b, seqs = d[1], d[2], d[3]
            if b.leaf:
                if A is not None:
                    facade.assume_identity(A)
                    e.require(True)
            else:
                b.bind[seqs] = V(A.inv() if A is not None else None, Base('src_' + lab, leaf=True))
            if kind == 'ident':
                real = cls(FakeArr((h, w, i.n)), channels=i.names)
            else:
                nov = i.nov
                if nov == ('?',):
                    nov = i.nov = e.nat('nov') if e.choose([True, False], 'known overviews') else None
                real = cls(Opaque('fpath'), channels=chan, dsize=i.dsize, num_overviews=nov)
            self.keep.append(real)
            self.leafden[id(real)] = i.den
            return real
        if kind in ('nans', 'nodata'):
            if d[0] != 'nan':
                d[2].bind[d[3]] = NAN
            return cls(i.dsize, channels=chan)

        def sub(den, dsize=None, names=i.names, n=i.n, nov=i.nov):
            if dsize is None:
                dsize = (e.nat(lab + '_w'), e.nat(lab + '_h'))
            return AbsNode(self, den, dsize, names, n, nov=nov, label=lab, result=i.result, nocat=i.nocat or bool(i.nf and kind != 'concat'),
                           nf=NFKIDS[i.nf, kind][1] if i.nf else None, kinds=NFKIDS[i.nf, kind][0] if i.nf else ALL)
        if kind == 'warp':
            T = facade.fresh_affine(e, 'T')
            return cls(sub(apply_aff(T.inv(), d)), T, dsize=i.dsize, **self.opaque_warp_params())
        if kind == 'overview':
            n = e.nat('ov')
            p = sym.pow2(n)
            W, H = e.nat(lab + '_w'), e.nat(lab + '_h')
            e.assume(EQ(sym.ceil(W / p), w))
            e.assume(EQ(sym.ceil(H / p), h))
            nov = i.nov
            if nov is not None and nov != ('?',):
                nov = e.nat('nov')
                e.assume(EQ(sym.smax(nov - n, 0), i.nov))
            return cls(sub(apply_aff(SymAffine.scale(p), d), (W, H), nov=nov), n)
        if kind == 'dequant':
            q = None

            def strip(d):
                nonlocal q
                d = resolve(d)
                if d[0] == 'nan':
                    return d
                if d[0] == 'cat':
                    return ('cat', [(strip(x), n) for x, n in d[1]])
                if d[4] is not None:
                    if q is not None and q is not d[4]:
                        raise PathEnd
                    q = d[4]
                    return d[:4] + (None,)
                if q is None:
                    q = Opaque('quantization')
                b2 = Base(d[2].name + "'", nodeq=True, nonan=d[2].nonan)
                d[2].bind[d[3]] = V(None, b2, (), q)
                return V(d[1], b2)
            sd = strip(d)
            if q is None:
                q = Opaque('quantization')
            return cls(sub(sd, i.dsize), q)
        if kind == 'crop':
            x0, y0, ex, ey = e.nat('cx'), e.nat('cy'), e.nat('ex'), e.nat('ey')
            sd = apply_aff(SymAffine.translate((x0, y0)), d)
            names, n, s = i.names, i.n, None
            if d[0] == 'v' and e.choose([False, True], 'crop selects channels'):
                n = e.nat(lab + '_chan', 1)
                if d[2].leaf or (d[3] and () in d[2].bind):
                    # the last selection may have been made here
                    if not d[3]:
                        raise PathEnd
                    s = SymSeq(d[3][-1:], i.n)
                    sd = V(sd[1], d[2], d[3][:-1], d[4])
                else:
                    s = SymSeq.fresh(e, 'idx')
                    e.assume(EQ(s.n, i.n))
                    s.n = i.n
                    b2 = Base(d[2].name + '^', nodeq=d[2].nodeq or d[4] is not None, nonan=d[2].nonan)
                    d[2].bind[d[3]] = V(None, b2, s.parts)
                    sd = V(sd[1], b2, (), d[4])
                if names is not None:
                    names = self.unselect(names, s, n)
            return cls(sub(sd, (x0 + w + ex, y0 + h + ey), names, n), (slice(y0, y0 + h), slice(x0, x0 + w)), s)
        if kind == 'concat':
            if d[0] == 'cat':
                dens = d[1]
            elif d[0] == 'nan':
                n1 = e.nat('n1', 1)
                e.assume(n1 <= i.n - 1)
                dens = [(NAN, n1), (NAN, i.n - n1)]
            elif d[3] and () in d[2].bind:
                raise Unsupported('the parts of a selection from a concatenation')
            else:
                k = e.choose([2, 1], 'number of parts')
                if k == 1:
                    b1 = Base(d[2].name + '.0', nodeq=d[2].nodeq or d[4] is not None)
                    d[2].bind[d[3]] = V(None, b1)
                    dens = [(V(d[1], b1, (), d[4]), i.n)]
                else:
                    n1 = e.nat('n1', 1)
                    e.require(n1 <= i.n - 1)
                    bs = [Base(d[2].name + '.%d' % j, nodeq=d[2].nodeq or d[4] is not None) for j in range(2)]
                    ns = [n1, i.n - n1]
                    d[2].bind[d[3]] = ('cat', [(V(None, b), n) for b, n in zip(bs, ns)])
                    dens = [(V(d[1], b, (), d[4]), n) for b, n in zip(bs, ns)]
            names = [None] * len(dens)
            if i.names is not None:
                nd = resolve(i.names.den)
                if nd[0] == 'v' and not (nd[3] and () in nd[2].bind) and nd[3] not in nd[2].bind:
                    nbs = [Base(nd[2].name + '.%d' % j) for j in range(len(dens))]
                    nd[2].bind[nd[3]] = ('cat', [(V(None, b), n) for b, (_, n) in zip(nbs, dens)])
                    names = [SymNames(V(None, b), n) for b, (_, n) in zip(nbs, dens)]
                elif nd[0] == 'cat' and len(nd[1]) == len(dens):
                    names = [SymNames(x, n) for x, n in nd[1]]
                else:
                    raise Unsupported('names of the parts')
            elif len(dens) > 1 or True:
                # unknown as a whole: at least one part is unknown
                names = [None] * len(dens)
            nov = i.nov
            parts = [sub(x, i.dsize, nm, n, nov) for (x, n), nm in zip(dens, names)]
            return cls(parts)
        raise Unsupported('kind ' + kind)

    def unselect(self, names, s, n):
        """names of a view whose selection by s is names"""
        nd = resolve(names.den)
        if nd[0] != 'v':
            raise Unsupported('selection of concatenated names')
        if nd[3][-len(s.parts):] == s.parts:
            return SymNames(V(None, nd[2], nd[3][:-len(s.parts)]), n)
        if nd[2].leaf or nd[3] in nd[2].bind or (nd[3] and () in nd[2].bind):
            raise Unsupported('names selection')
        b2 = Base(nd[2].name + '^')
        nd[2].bind[nd[3]] = V(None, b2, s.parts)
        return SymNames(V(None, b2), n)

    # --- frames
    def snapshot(self, real):
        """attributes of a real node, for the frame condition"""
        snap = {}
        for c in type(real).__mro__:
            for s in c.__dict__.get('__slots__', ()):
                if hasattr(real, s):
                    snap[s] = freeze(getattr(real, s))
        if hasattr(real, '__dict__'):
            for k, v in real.__dict__.items():
                snap[k] = freeze(v)
        return snap

    def frame_changes(self, real, snap):
        """names of attributes that differ from a snapshot"""
        now = self.snapshot(real)
        out = []
        for k in sorted(set(now) | set(snap)):
            if k == '_opt_logs':
                continue
            if k not in now or k not in snap:
                out.append((k, False))
                continue
            g = thaw_eq(now[k], snap[k])
            if g is not True:
                out.append((k, g))
        return out


def freeze(v, depth=0):
    if type(v) is AbsNode:
        return ('is', v)
    if isinstance(v, dict) and depth < 4:
        return ('dict', {k: freeze(x, depth + 1) for k, x in v.items()})
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__, [freeze(x, depth + 1) for x in v])
    if isinstance(v, slice):
        return ('slice', [freeze(x, depth + 1) for x in (v.start, v.stop, v.step)])
    if type(v) is SymAffine:
        return ('aff', v, None if v.matrix is None else v.m6())
    return ('is', v)


def thaw_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'dict':
        if set(a[1]) != set(b[1]):
            return False
        return conj([thaw_eq(a[1][k], b[1][k]) for k in a[1]])
    if a[0] in ('list', 'tuple', 'slice'):
        if len(a[1]) != len(b[1]):
            return False
        return conj([thaw_eq(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == 'aff':
        if (a[2] is None) != (b[2] is None):
            return False
        return True if a[2] is None else conj([val_eq(x, y) for x, y in zip(a[2], b[2])])
    return val_eq(a[1], b[1])


def val_eq(x, y):
    if x is y:
        return True
    if isinstance(x, SymNum) or isinstance(y, SymNum):
        try:
            return EQ(x, y)
        except Exception:
            return False
    if isinstance(x, SymNames) and isinstance(y, SymNames):
        c = den_checks(x.den, y.den)
        return False if c is None else conj([g for _, g in c])
    if isinstance(x, SymSeq):
        return isinstance(y, SymSeq) and x.parts == y.parts
    if type(x) is AbsNode or type(y) is AbsNode:
        return False
    try:
        return bool(x == y) and type(x) is type(y)
    except Exception:
        return False


def conj(gs):
    gs = [g for g in gs if g is not True]
    if not gs:
        return True
    if any(g is False for g in gs):
        return False
    return AND(*gs)
