"""Contract targets on the bounded cache (C14)

The state of the cache is an arbitrary finite sequence of entries of arbitrary length,
oldest first; the base class collections.OrderedDict is taken by its documented
contract (class OD below, compared with the real one by `conformance`)."""
import types
import collections
from pyver import sym
from pyver.load import Env
from pyver.sym import EQ, AND, Unsupported
from pyver.viewc import Fn
from pyver.treec import classify
from pyver.sym import Control

A_OD = 'trusted: contract of collections.OrderedDict (pyver.cachec.OD); compared with the real class on concrete histories by the conformance test'


class Key:
    def __init__(self, name, at=None):
        self.name = name
        self.at = at            # (base, position) of an entry of the initial state

    def __repr__(self):
        return self.name

    def __hash__(self):
        raise Unsupported('hash of a key')


class Seg:
    """entries lo .. hi-1 of an arbitrary sequence of entries with distinct keys"""
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def __repr__(self):
        return '%s[%s:%s]' % (self.base, self.lo, self.hi)


class Ent:
    def __init__(self, key, value):
        self.key, self.value = key, value

    def __repr__(self):
        return '%r=%r' % (self.key, self.value)


class Val:
    def __init__(self, name, at=None):
        self.name, self.at = name, at

    def __repr__(self):
        return self.name


_MISSING = object()


class OD:
    """collections.OrderedDict over symbolic sequences"""
    def __init__(self, *args, **kw):
        self.__dict__.setdefault('_pieces', [])
        self.__dict__.setdefault('_known', {})
        self.update(*args, **kw)

    # --- representation
    def _size(self):
        n = 0
        for p in self._pieces:
            n = n + (p.hi - p.lo if type(p) is Seg else 1)
        return n

    def _v_len(self):
        return self._size()

    def _resolve(self, key):
        """index of the entry of key, or None"""
        if not isinstance(key, Key):
            raise Unsupported('key %r' % (key,))
        for i, p in enumerate(self._pieces):
            if type(p) is Ent and p.key is key:
                return i
        if id(key) in self._known:
            return None
        self._known[id(key)] = key
        if key.at is not None:
            return None         # an entry of the initial state that is not there any more
        opts = ['absent']
        for i, p in enumerate(self._pieces):
            if type(p) is Ent and p.key.at is not None or type(p) is Seg:
                opts.append(i)
        e = sym.eng()
        k = e.choose(opts, 'entry of %r' % key)
        if k == 'absent':
            return None
        p = self._pieces[k]
        if type(p) is Ent:
            p.key = key
            return k
        at = e.fresh('position', True)
        e.require(AND(p.lo <= at, at < p.hi))
        self._pieces[k:k + 1] = [Seg(p.base, p.lo, at), Ent(key, Val('value of %s at %s' % (p.base, at), (p.base, at))), Seg(p.base, at + 1, p.hi)]
        return k + 1

    def _end(self, last):
        """index of the first / last entry, or None"""
        ps = self._pieces
        while ps:
            i = len(ps) - 1 if last else 0
            p = ps[i]
            if type(p) is Ent:
                return i
            if p.hi > p.lo:
                at = p.hi - 1 if last else p.lo
                ent = Ent(Key('key of %s at %s' % (p.base, at), (p.base, at)), Val('value of %s at %s' % (p.base, at), (p.base, at)))
                rest = Seg(p.base, p.lo, at) if last else Seg(p.base, at + 1, p.hi)
                ps[i:i + 1] = [rest, ent] if last else [ent, rest]
                return i + 1 if last else i
            del ps[i]
        return None

    # --- the documented operations
    def __setitem__(self, key, value):
        i = OD._resolve(self, key)
        if i is None:
            self._known[id(key)] = key
            self._pieces.append(Ent(key, value))
        else:
            self._pieces[i].value = value

    def __getitem__(self, key):
        i = OD._resolve(self, key)
        if i is None:
            if hasattr(type(self), '__missing__'):
                return self.__missing__(key)
            raise KeyError(key)
        return self._pieces[i].value

    def __delitem__(self, key):
        i = OD._resolve(self, key)
        if i is None:
            raise KeyError(key)
        del self._pieces[i]

    def __contains__(self, key):
        return OD._resolve(self, key) is not None

    def move_to_end(self, key, last=True):
        i = OD._resolve(self, key)
        if i is None:
            raise KeyError(key)
        p = self._pieces.pop(i)
        self._pieces.insert(len(self._pieces) if last else 0, p)

    def popitem(self, last=True):
        i = self._end(last)
        if i is None:
            raise KeyError('dictionary is empty')
        p = self._pieces.pop(i)
        return p.key, p.value

    def pop(self, key, default=_MISSING):
        i = OD._resolve(self, key)
        if i is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        return self._pieces.pop(i).value

    def get(self, key, default=None):
        i = OD._resolve(self, key)
        return default if i is None else self._pieces[i].value

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def update(self, *args, **kw):
        for a in args:
            for k, v in (a.items() if hasattr(a, 'items') else a):
                self[k] = v
        if kw:
            raise Unsupported('keyword items')

    def clear(self):
        self._pieces.clear()

    def __iter__(self):
        i = 0
        while True:
            ps = self._pieces
            if i >= len(ps):
                return
            p = ps[i]
            if type(p) is Seg:
                if not (p.hi > p.lo):
                    del ps[i]
                    continue
                at = p.lo
                ps[i:i + 1] = [Ent(Key('key of %s at %s' % (p.base, at), (p.base, at)), Val('value of %s at %s' % (p.base, at), (p.base, at))),
                               Seg(p.base, at + 1, p.hi)]
                p = ps[i]
            yield p.key
            i += 1

    keys = __iter__

    def items(self):
        for k in OD.__iter__(self):
            yield k, OD.__getitem__(self, k)

    def values(self):
        for k in OD.__iter__(self):
            yield OD.__getitem__(self, k)

    def __reversed__(self):
        raise Unsupported('reversed')

    def __bool__(self):
        return bool(sym.lift(self._size()) > 0)


class World:
    def __init__(self, repo):
        fake = types.ModuleType('collections')
        fake.__dict__.update({k: v for k, v in vars(collections).items() if not k.startswith('__')})
        fake.OrderedDict = OD
        self.env = Env(repo, {'collections': fake})
        self.mod = self.env.module('delayed_image.lazy_loaders')
        self.cls = self.mod.CacheDict

    def reset(self):
        pass

    def install_contracts(self):
        pass


# ------------------------------------------------------------------ the model (C14's own definition)

def flat(ps):
    """canonical form: no empty segments, entries of the initial state as segments"""
    out = []
    for p in ps:
        if type(p) is Ent and p.key.at is not None and isinstance(p.value, Val) and p.value.at is not None:
            b, at = p.key.at
            vb, vat = p.value.at
            if vb == b and sym.eng().entails(sym.form(EQ(vat, at))):
                p = Seg(b, at, at + 1)
        if type(p) is Seg:
            if not (sym.lift(p.hi) > p.lo):
                continue
            if out and type(out[-1]) is Seg and out[-1].base == p.base and sym.eng().entails(sym.form(EQ(out[-1].hi, p.lo))):
                out[-1] = Seg(p.base, out[-1].lo, p.hi)
                continue
        out.append(p)
    return out


def same(e, name, got, want):
    got, want = flat(got), flat(want)
    if len(got) != len(want):
        e.fail(name, '%s instead of %s' % (got, want))
        return
    for g, w in zip(got, want):
        if type(g) is not type(w):
            e.fail(name, '%s instead of %s' % (got, want))
        elif type(g) is Seg:
            if g.base != w.base:
                e.fail(name, '%s instead of %s' % (got, want))
            e.check(name, AND(EQ(g.lo, w.lo), EQ(g.hi, w.hi)), note='%s instead of %s' % (got, want))
        elif g.key is not w.key or g.value is not w.value:
            e.fail(name, '%s instead of %s' % (got, want))
        else:
            e.check(name, True)


def trim(ps, cap):
    """the last cap entries"""
    ps = list(ps)
    n = 0
    for p in ps:
        n = n + (p.hi - p.lo if type(p) is Seg else 1)
    while sym.lift(n) > cap:
        while type(ps[0]) is Seg and not (sym.lift(ps[0].hi) > ps[0].lo):
            ps.pop(0)
        p = ps[0]
        if type(p) is Seg:
            ps[0] = Seg(p.base, p.lo + 1, p.hi)
        else:
            ps.pop(0)
        n = n - 1
    return ps


def state(e, w):
    """an arbitrary cache with an arbitrary legal content"""
    cap = e.nat('cap', 1)
    n = e.nat('n')
    e.assume(n <= cap)
    d = w.cls(cache_len=cap)
    extra = {k: v for k, v in vars(d).items() if k not in ('_pieces', '_known') and v is not cap}
    if extra:
        raise Unsupported('the cache keeps other state: %s' % sorted(extra))
    d._pieces[:] = [Seg('S', sym.lift(0), n)]
    return d, cap, n


def value_of(p):
    return p.value


def concrete(e, model, cap, n, op, at=None):
    """history: n insertions, then the operation"""
    def val(x):
        from pyver import replay
        return replay.value(e, x, model)
    return None


def target(op):
    def body(e, w, tag):
        e.used.add(A_OD)
        d, cap, n = state(e, w)
        k = Key('k')
        v = Val('v')
        # where the key is, before
        i = OD._resolve(d, k)
        before = [Ent(p.key, p.value) if type(p) is Ent else Seg(p.base, p.lo, p.hi) for p in d._pieces]
        there = i is not None
        old = before[i].value if there else None
        rest = [p for p in before if not (type(p) is Ent and p.key is k)]
        at = old.at[1] if there else None
        e.on_refuted = lambda m: cases(m, e, cap, n, at, op)
        err = None
        res = None
        try:
            if op == 'set':
                d[k] = v
            elif op == 'get':
                res = d[k]
            elif op == 'del':
                del d[k]
            elif op == 'in':
                res = k in d
        except Control:
            raise
        except KeyError as ex:
            err = ex
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        if op == 'set':
            e.check(tag + 'storing succeeds', err is None)
            want = trim(rest + [Ent(k, v)], cap)
        elif op == 'get':
            e.check(tag + 'lookup fails exactly for keys that are not held', (err is None) == there)
            if there and err is None:
                e.check(tag + 'the value last stored', res is old)
            want = rest + [Ent(k, old)] if there else before
        elif op == 'del':
            e.check(tag + 'deletion fails exactly for keys that are not held', (err is None) == there)
            want = rest
        else:
            e.check(tag + 'membership', err is None and res == there)
            want = before
        got = [Ent(p.key, p.value) if type(p) is Ent else Seg(p.base, p.lo, p.hi) for p in d._pieces]
        e.check(tag + 'at most the configured number of entries', sym.lift(d._size()) <= cap)
        same(e, tag + 'holds the most recently used entries in order', got, want)
    return Fn('cache[{}]'.format(op), body, {'set': ['lazy_loaders.CacheDict.__setitem__'], 'get': ['lazy_loaders.CacheDict.__getitem__']}.get(op, ['lazy_loaders.CacheDict']))


def init(count):
    def body(e, w, tag):
        e.used.add(A_OD)
        cap = e.fresh('cap', True)
        ks = [Key('k%d' % i) for i in range(count)]
        items = []
        for i in range(count):
            j = e.choose(list(range(i + 1)), 'key %d' % i)
            items.append((ks[j] if j < i else ks[i], Val('v%d' % i)))
        order = [ks.index(k) for k, _ in items]
        e.on_refuted = lambda m: [{'cap': int(m.get('cap', 1)) if m else 1, 'init': 0, 'ops': [['set', j] for j in order]}]
        try:
            d = w.cls(items, cache_len=cap) if items else w.cls(cache_len=cap)
        except Control:
            raise
        except AssertionError:
            e.check(tag + 'only a capacity below one is refused', cap <= 0)
            return
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        if cap <= 0:
            return
        want = []
        for k, v in items:
            want = trim([p for p in want if p.key is not k] + [Ent(k, v)], cap)
        e.check(tag + 'at most the configured number of entries', sym.lift(d._size()) <= cap)
        same(e, tag + 'holds the most recently used entries in order', list(d._pieces), want)
    return Fn('cache[new, {} items]'.format(count), body, ['lazy_loaders.CacheDict.__init__'])


def cases(model, e, cap, n, at, op):
    """concrete histories with the decisions of the path; small states for every position"""
    out = []
    for c in (1, 2, 3):
        for m in range(c + 1):
            for p in range(m + 1):
                out.append({'cap': c, 'init': m, 'ops': [[op, p if p < m else 99], ['set', 50], ['set', 51]]})
                out.append({'cap': c, 'init': m, 'ops': [[op, p if p < m else 99]]})
    return out


def conformance():
    """the stand-in of OrderedDict against the real class, on concrete histories"""
    def body(e, w, tag):
        import random
        r = random.Random(7)
        bad = None
        for _ in range(300):
            real, fake = collections.OrderedDict(), OD()
            ks = [Key('k%d' % i) for i in range(5)]
            for _ in range(r.randint(1, 25)):
                i = r.randrange(5)
                k = ks[i]
                op = r.choice(['set', 'get', 'del', 'in', 'mte', 'mtf', 'popf', 'popl', 'pop', 'sd', 'first', 'getd'])
                val = Val('x')

                def run(d, key):
                    if op == 'set':
                        d[key] = val
                    elif op == 'get':
                        return d[key]
                    elif op == 'del':
                        del d[key]
                    elif op == 'in':
                        return key in d
                    elif op == 'mte':
                        d.move_to_end(key)
                    elif op == 'mtf':
                        d.move_to_end(key, last=False)
                    elif op == 'popf':
                        return d.popitem(last=False)[1]
                    elif op == 'popl':
                        return d.popitem()[1]
                    elif op == 'pop':
                        return d.pop(key, None)
                    elif op == 'sd':
                        return d.setdefault(key, val)
                    elif op == 'getd':
                        return d.get(key)
                    elif op == 'first':
                        it = next(iter(d), None)
                        return getattr(it, 'name', it)
                a = b = ae = be = None
                try:
                    a = run(real, 'k%d' % i)
                except KeyError:
                    ae = True
                try:
                    b = run(fake, k)
                except KeyError:
                    be = True
                if a is not b and a != b or ae != be or list(real) != [x.name for x in fake] or len(real) != fake._size() or \
                        [id(v) for v in real.values()] != [id(v) for v in fake.values()]:
                    bad = op
        e.cover('returns')
        if bad:
            e.undecided(tag + 'stand-in behaves like the class', bad)
        else:
            e.check(tag + 'stand-in behaves like the class', True)
    return Fn('conformance of the OrderedDict contract (concrete histories)', body, [])


def c14(tier):
    out = [target(k) for k in ('set', 'get', 'del', 'in')] + [init(n) for n in range(0, 6 if tier == 'thorough' else 5)] + [conformance()]
    for t in out:
        t.world = World
    return out
