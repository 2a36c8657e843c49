"""Contract targets on channel selection (C07)

The parts of a concatenation are arbitrary views with any number of channels; the requested
indexes are arbitrary integers, requested names are arbitrary names that are at an arbitrary
position of the expanded channel sequence or missing.  A part is used through the contract
of its own take_channels / crop: channel i of the selection is channel indexes[i] of the part."""
from pyver import sym, nodes, facade, load, treec, viewc, replay
from pyver.nodes import SymSeq
from pyver.sym import EQ, AND, OR, NOT, SymNum, Control, Unsupported, eng
from pyver.viewc import Fn, case

PARTS = 3
LONG = 4


def const_range(*a):
    """range whose length is known: the bounds differ by a constant"""
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    n = stop - start
    n = n if not isinstance(n, SymNum) else eng_norm(n)
    if step != 1:
        raise Unsupported('range with a symbolic step')
    if isinstance(n, SymNum):
        return SymRange(start, n)
    return [start + i for i in range(n)]


class SymRange:
    """range of unknown length"""
    def __init__(self, start, n):
        self.start, self.n = start, n

    def _v_list(self):
        return self

    def _v_len(self):
        return self.n

    def __eq__(self, o):
        if isinstance(o, list):
            return AND(EQ(self.n, len(o)), *[EQ(self.start + i, v) for i, v in enumerate(o)])
        raise Unsupported('comparison of a range')

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def __getitem__(self, i):
        if type(i) is not int:
            raise Unsupported('element of a range')
        if self.n <= (i if i >= 0 else -i - 1):
            raise IndexError('list index out of range')
        return self.start + (i if i >= 0 else self.n + i)

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('range.%s' % name)


def eng_norm(x):
    """a number that is equal to a constant on this path"""
    e = eng()
    r = e.norm_rat(x.r)
    if r.is_const() and r.const_value().denominator == 1:
        return int(r.const_value())
    for k in range(0, LONG + 1):
        g = sym.form(EQ(x, k))
        if e.entails(g):
            return k
    return x


class FlatIndexer:
    """kwarray.FlatIndexer (numpy replaced by a loop over the same comparisons)"""
    def __init__(self, lens):
        self.lens = list(lens)
        self.cums = []
        t = 0
        for n in self.lens:
            t = t + n
            self.cums.append(t)
        eng().used.add('kwarray.FlatIndexer: unravel gives the first part whose cumulated length exceeds the index (contract of the dependency)')

    def _v_len(self):
        return self.cums[-1] if self.cums else 0

    def unravel(self, index):
        for outer, c in enumerate(self.cums):
            if c > index:
                return outer, index - (c - self.lens[outer])
        raise IndexError('index 0 is out of bounds for axis 0 with size 0')


class Names:
    """channels of a view: only positions of names matter"""
    def __init__(self, what):
        self.what = what

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('channels.%s' % name)

    def __bool__(self):
        raise Unsupported('truth of channels')

    def __str__(self):
        return 'names'

    __format__ = lambda self, s: 'names'    # noqa


class Top(Names):
    """the channels of the view that is selected from"""
    def __init__(self, spec, same):
        self.spec, self.same = spec, same

    def normalize(self):
        return self

    def as_oset(self):
        return Oset(self.spec)

    to_oset = as_oset

    def as_list(self):
        return Oset(self.spec)

    def numel(self):
        return self.spec.total

    def __eq__(self, o):
        if o is None:
            return False
        if o is not self.spec.request:
            raise Unsupported('comparison of channels')
        return self.same()

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__


class Oset:
    def __init__(self, spec):
        self.spec = spec

    def index(self, code, *a):
        p = self.spec.position(code)
        if p is None:
            raise KeyError(code)
        return p

    def __contains__(self, code):
        return self.spec.position(code) is not None

    def _v_len(self):
        return self.spec.total

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('ordered set.%s' % name)

    def __iter__(self):
        raise Unsupported('iteration over the channels')


class Request:
    """requested names, expanded: LONG names at most, each known at some position or missing"""
    def __init__(self, e, codes, total):
        self.e, self.codes, self.total = e, codes, total
        self.pos = {}
        self.request = None
        self.equal = None

    def position(self, code):
        e = self.e
        code = str(code)
        if code not in self.codes:
            raise Unsupported('position of %r' % (code,))
        if code not in self.pos:
            if e.choose(['present', 'missing'], 'name ' + code) == 'missing':
                self.pos[code] = None
            else:
                p = e.fresh('position of ' + code, True)
                e.assume(AND(0 <= p, p < self.total))
                for q in self.pos.values():
                    if q is not None:
                        e.assume(NOT(EQ(p, q)))
                e.require(True)
                self.pos[code] = p
        return self.pos[code]

    def same(self):
        """the request is the whole channel sequence of the view"""
        e = self.e
        if self.equal is None:
            self.equal = len(set(self.codes)) == len(self.codes) and not self.pos and e.choose([False, True], 'all channels are requested')
            if self.equal:
                e.assume(EQ(self.total, len(self.codes)))
                for i, c in enumerate(self.codes):
                    self.pos[c] = i
                e.require(True)
        return self.equal


class Part:
    """an arbitrary view with n channels"""
    def __init__(self, w, name, dsize, n, named=True):
        self.__dict__.update(w=w, name=name, dsize=dsize, num_channels=n, named=named, num_overviews=0)

    @property
    def channels(self):
        return Names(self.name) if self.named else None

    @property
    def shape(self):
        return (self.dsize[1], self.dsize[0], self.num_channels)

    def _v_isinstance(self, c):
        return c in (self.w.nodes.DelayedImage, self.w.nodes.DelayedArray, self.w.base.DelayedUnaryOperation, self.w.base.DelayedOperation,
                     self.w.nodes.ImageOpsMixin, object)

    def take_channels(self, channels, lazy=False, missing_channel_policy='return_nan'):
        return self.sel(channels)

    def sel(self, channels):
        if channels is None:
            return self
        if isinstance(channels, SymRange):
            return Taken(self, channels)
        if not isinstance(channels, (list, tuple)):
            raise Unsupported('selection from a part by %r' % (channels,))
        idx = list(channels)
        for i in idx:
            if not (type(i) is int or isinstance(i, SymNum) and i.isint):
                raise Unsupported('selected index %r' % (i,))
        return Taken(self, idx)

    def crop(self, space_slice=None, chan_idxs=None, **kw):
        if space_slice is not None or kw.get('pad') or kw.get('clip') is False:
            raise Unsupported('crop of a part')
        return self.sel(chan_idxs)

    def __setattr__(self, k, v):
        raise Unsupported('assignment to a part')

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('%s of an arbitrary view' % name)


class Taken(Part):
    def __init__(self, part, idx):
        Part.__init__(self, part.w, 'selection', part.dsize, idx.n if isinstance(idx, SymRange) else len(idx), part.named)
        self.__dict__.update(part=part, idx=idx)


class World(nodes.World):
    def __init__(self, repo):
        nodes.World.__init__(self, repo, opaque_names=False)
        self.env.overrides['kwarray'].__dict__['FlatIndexer'] = FlatIndexer
        self.spec = None
        real = self.nodes.FusedChannelSpec
        world = self
        self.real_spec = real

        class Facade:
            """FusedChannelSpec of the module of the nodes"""
            def __new__(cls, *a, **k):
                return real(*a, **k)

            @staticmethod
            def coerce(x):
                return x if isinstance(x, Names) else real.coerce(x)

            @staticmethod
            def concat(items):
                items = list(items)
                if any(isinstance(i, Names) for i in items):
                    return world.top
                return real.concat(items)
        self.nodes.FusedChannelSpec = Facade

    def install_contracts(self):
        self.top = None
        load.RANGE_HOOK[0] = const_range


def flatten(e, w, v):
    """what a view provides: ('part', view, indexes) or ('nan', names, number, size)"""
    if isinstance(v, Taken):
        inner = flatten(e, w, v.part)
        if len(inner) != 1 or inner[0][0] != 'part' or inner[0][2] is not None:
            raise Unsupported('selection of a selection')
        return [('part', v.part, v.idx)]
    if isinstance(v, Part):
        return [('part', v, None)]
    if hasattr(v, 'parts'):
        return [x for p in v.parts for x in flatten(e, w, p)]
    if isinstance(v, w.leafs.DelayedNans):
        return [('nan', v.channels, v.num_channels, v.dsize)]
    raise Unsupported('result %r' % (type(v).__name__,))


def check_selection(e, w, tag, res, want, dsize, named):
    """want: list of ('part', object, local index) or ('nan', name)"""
    if res.dsize is None:
        e.fail(tag + 'size of the view', 'the selection has no size')
        return
    e.check(tag + 'size of the view', AND(EQ(res.dsize[0], dsize[0]), EQ(res.dsize[1], dsize[1])))
    at = 0
    segs = flatten(e, w, res)
    what = tag + 'the i-th channel is the i-th requested one'
    for s in segs:
        if s[0] == 'nan':
            _, spec, n, size = s
            n = len(spec.parsed) if spec is not None else n
            n = eng_norm(n) if isinstance(n, SymNum) else n
            if not isinstance(n, int):
                raise Unsupported('number of placeholder channels')
            for j in range(n):
                if at >= len(want) or want[at][0] != 'nan':
                    e.fail(what, 'placeholder for a channel that was not missing')
                    return
                if named:
                    e.check(tag + 'names of the placeholders', spec is not None and spec.parsed[j] == want[at][1])
                at += 1
            e.check(tag + 'size of the placeholders', AND(EQ(size[0], dsize[0]), EQ(size[1], dsize[1])))
            continue
        _, p, idx = s
        if idx is None or isinstance(idx, SymRange):
            start, n0 = (0, p.num_channels) if idx is None else (idx.start, idx.n)
            n = eng_norm(n0) if isinstance(n0, SymNum) else n0
            if not isinstance(n, int):
                left = want[at:]
                if not e.entails(sym.form(n0 <= len(left))):
                    e.check(tag + 'number of channels', n0 <= len(left))
                    return
                raise Unsupported('number of channels of a part')
            idx = [start + i for i in range(n)]
        for j in idx:
            if at >= len(want):
                e.fail(what, 'more channels than requested')
                return
            kind = want[at]
            if kind[0] != 'part' or kind[1] is not p:
                e.fail(what, 'channel %d comes from the wrong source' % at)
                return
            n = p.num_channels
            loc = j
            if isinstance(j, SymNum):
                loc = j if j >= 0 else j + n
            elif j < 0:
                loc = j + n
            e.check(what, EQ(loc, kind[2]), note='channel %d' % at)
            at += 1
    e.check(tag + 'every requested channel', at == len(want), note='%d of %d' % (at, len(want)))


def arbitrary_concat(e, w, nparts, named, twice):
    W, H = e.nat('W'), e.nat('H')
    parts = []
    for i in range(nparts):
        parts.append(Part(w, 'part%d' % i, (W, H), e.nat('n%d' % i), named))
    if twice:
        parts.append(parts[0])
    e.require(True)
    return parts, (W, H)


def locate(parts, g):
    """the part and the local index of channel g (branches)"""
    base = 0
    for p in parts:
        if g < base + p.num_channels:
            return p, g - base
        base = base + p.num_channels
    raise Unsupported('index out of range')


def by_index(nparts, long, twice=False):
    def body(e, w, tag):
        parts, dsize = arbitrary_concat(e, w, nparts, e.choose([True, False], 'named'), twice)
        total = facade.total([p.num_channels for p in parts])
        w.top = Names('all')
        view = w.nodes.DelayedChannelConcat(list(parts))
        req = []
        for i in range(long):
            x = e.fresh('request%d' % i, True)
            e.assume(AND(-total <= x, x < total))
            req.append(x)
        e.require(True)
        snap = list(req)

        def mk(m):
            c = viewc.concrete(e, w, m)
            if twice:
                raise replay.No
            return {'parts': [c.val(p.num_channels) for p in parts], 'req': [c.val(x) for x in snap]}
        e.on_refuted = case(mk)
        ok, res = treec.run_body(e, w, tag, lambda: view.take_channels(req), ['C07'])
        if not ok:
            return
        e.cover('returns')
        want = []
        for x in snap:
            p, k = locate(parts, x if x >= 0 else x + total)
            want.append(('part', p, k))
        check_selection(e, w, tag, res, want, dsize, True)
        e.check(tag + 'the request is not modified', len(req) == len(snap) and all(a is b for a, b in zip(req, snap)))
        e.check(tag + 'the view is not modified', len(view.parts) == len(parts) and all(a is b for a, b in zip(view.parts, parts)))
    return Fn('indexes[%d of %d parts%s]' % (long, nparts, ' and one again' if twice else ''), body, ['delayed_nodes.DelayedChannelConcat.take_channels'])


def patterns(n):
    """restricted growth strings: which names are equal"""
    if n == 0:
        return [[]]
    return [p + [k] for p in patterns(n - 1) for k in range(max(p, default=-1) + 2)]


def by_name(nparts, pattern, policy):
    names = ['c%d' % k for k in pattern]

    def body(e, w, tag):
        parts, dsize = arbitrary_concat(e, w, nparts, True, False)
        total = facade.total([p.num_channels for p in parts])
        r = Request(e, names, total)
        w.top = Top(r, r.same)
        view = w.nodes.DelayedChannelConcat(list(parts))
        form = e.choose(['str', 'spec'], 'form of the request')
        spec = w.real_spec(list(names), _is_normalized=True)
        if form == 'str':
            w.real_spec._memo['|'.join(names)] = spec
            arg = '|'.join(names)
        else:
            arg = spec
        r.request = spec
        select_by_name(e, w, tag, view, parts, dsize, r, names, arg, policy)
    return Fn('names[%s of %d parts, %s]' % (''.join(map(str, pattern)), nparts, policy), body, ['delayed_nodes.DelayedChannelConcat.take_channels'])


def select_by_name(e, w, tag, view, parts, dsize, r, names, arg, policy):
    def mk(m):
        c = viewc.concrete(e, w, m)
        ns = [c.val(p.num_channels) for p in parts]
        if sum(ns) > 200:
            raise replay.No
        flat = ['k%d' % i for i in range(sum(ns))]
        for code, p in r.pos.items():
            if p is not None:
                flat[c.val(p)] = code
        out, at = [], 0
        for n in ns:
            out.append(flat[at:at + n])
            at += n
        if any(not q for q in out):
            raise replay.No
        return {'parts': out, 'req': list(names), 'policy': policy, 'form': 'str', 'single': len(parts) == 1 and isinstance(view, Part)}
    e.on_refuted = case(mk)
    what = tag + 'ValueError exactly if a name is missing'
    try:
        res = view.take_channels(arg, missing_channel_policy=policy)
    except Control:
        raise
    except ValueError as ex:
        e.cover('returns')
        where = treec.traceback.extract_tb(ex.__traceback__)[-1]
        if 'delayed_image' not in where.filename:
            e.undecided(what, str(ex))
        elif policy == 'error' and any(r.position(c) is None for c in names):
            e.check(what, True)
        else:
            e.fail(what, 'ValueError: {}'.format(str(ex)[:200]))
        return
    except Exception as ex:
        treec.classify(e, tag, ex)
        return
    e.cover('returns')
    want = []
    for c in names:
        g = r.position(c)
        if g is None:
            want.append(('nan', c))
        else:
            want.append(('part',) + locate(parts, g))
    if policy == 'error':
        e.check(what, all(x[0] != 'nan' for x in want))
    check_selection(e, w, tag, res, want, dsize, True)


def single_by_index(long):
    def body(e, w, tag):
        parts, dsize = arbitrary_concat(e, w, 1, e.choose([True, False], 'named'), False)
        one = parts[0]
        n = one.num_channels
        take = w.nodes.DelayedImage.__dict__['take_channels']
        req = []
        for i in range(long):
            x = e.fresh('request%d' % i, True)
            e.assume(AND(-n <= x, x < n))
            req.append(x)
        e.require(True)
        snap = list(req)
        e.on_refuted = case(lambda m: (lambda c: {'parts': [c.val(n)], 'req': [c.val(x) for x in snap], 'single': True})(viewc.concrete(e, w, m)))
        ok, res = treec.run_body(e, w, tag, lambda: take(one, req), ['C07'])
        if ok:
            e.cover('returns')
            check_selection(e, w, tag, res, [('part', one, x if x >= 0 else x + n) for x in snap], dsize, True)
    return Fn('indexes of one image[%d]' % long, body, ['delayed_nodes.DelayedImage.take_channels'])


def single_by_name(pattern, policy):
    names = ['c%d' % k for k in pattern]

    def body(e, w, tag):
        parts, dsize = arbitrary_concat(e, w, 1, True, False)
        one = parts[0]
        r = Request(e, names, one.num_channels)
        w.top = Top(r, r.same)
        take = w.nodes.DelayedImage.__dict__['take_channels']

        class View(Part):
            """the view whose take_channels is executed"""
            channels = property(lambda self: w.top)

            def take_channels(self, channels, lazy=False, missing_channel_policy='return_nan'):
                if isinstance(channels, list):
                    return self.sel(channels)
                return take(self, channels, lazy, missing_channel_policy=missing_channel_policy)
        view = View(w, 'view', dsize, one.num_channels)
        spec = w.real_spec(list(names), _is_normalized=True)
        r.request = spec
        if e.choose(['str', 'spec'], 'form of the request') == 'str':
            w.real_spec._memo['|'.join(names)] = spec
            arg = '|'.join(names)
        else:
            arg = spec
        select_by_name(e, w, tag, view, [view], dsize, r, names, arg, policy)
    return Fn('names of one image[%s, %s]' % (''.join(map(str, pattern)), policy), body, ['delayed_nodes.DelayedImage.take_channels'])


def crop_channels():
    """take_channels(indexes) of one image is a crop with these channels: DelayedCrop selects channels and names"""
    def body(e, w, tag):
        view = w.fresh_view('v')
        idx = SymSeq.fresh(e, 'idx')
        e.on_refuted = None
        ok, res = treec.run_body(e, w, tag, lambda: w.nodes.DelayedCrop(view, None, idx), ['C07'])
        if not ok:
            return
        e.cover('returns')
        W, H = view.dsize
        e.check(tag + 'size of the view', AND(EQ(res.dsize[0], W), EQ(res.dsize[1], H)))
        e.check(tag + 'number of channels', EQ(res.num_channels, idx.n))
        treec.check_den(e, tag + 'channels', nodes.select(w.den(view), idx), w.den(res))
        if view.channels is not None:
            c = res.channels
            if not isinstance(c, nodes.SymNames):
                e.fail(tag + 'names', 'channels are %r' % (c,))
            else:
                treec.check_den(e, tag + 'names', nodes.select(view.channels.den, idx), c.den)
    return Fn('selection of channels', body, ['delayed_nodes.DelayedCrop.__init__', 'delayed_nodes.DelayedImage.channels'])


def c07(tier):
    out = [crop_channels()]
    mine = []
    for n, k in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)) + (((1, 4), (2, 4), (3, 3)) if tier != 'quick' else ()):
        mine.append(by_index(n, k))
    mine += [by_index(n, 0) for n in (1, 2, 3)]
    mine += [by_index(1, 2, True), by_index(2, 2, True)]
    mine += [single_by_index(k) for k in (0, 1, 2, 3)]
    for k in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        for p in patterns(k):
            for pol in ('return_nan', 'error'):
                mine.append(by_name(2, p, pol))
                if k < 4:
                    mine.append(single_by_name(p, pol))
                    if tier != 'quick':
                        mine.append(by_name(3, p, pol))
    for t in mine:
        t.world = World
    return out + mine
