"""
Bounded layer for the channel and sensor spec properties C08-C11.
Oracle: an independent expansion of codes into channels.
"""
import itertools
import re
import warnings
import numpy as np
from view import Prop, ALIAS, expand, expand_code

warnings.simplefilter('ignore')

ROOTS = ['a', 'b', 'feat', 'r', 'rgb2', 'x y']


def rand_code(r, dup=None):
    k = r.random()
    root = r.choice(ROOTS)
    if k < .3:
        return r.choice(['r', 'g', 'b', 'a', 'n', 'dx', 'nir', 'swir16', 'u0'])
    if k < .42:
        return r.choice(list(ALIAS))
    if k < .62:
        return '{}.{}'.format(root, r.randint(0, 12))
    if k < .8:
        return '{}:{}'.format(root, r.choice([0, 1, 2, 3, 5, 11]))
    a = r.randint(0, 11)
    return '{}.{}:{}'.format(root, a, a + r.choice([0, 1, 1, 2, 4]))


def rand_codes(r, n=None, distinct=False):
    n = n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    out = []
    seen = set()
    for _ in range(n):
        if out and r.random() < .35:
            # continue the numbering of the last channel
            last = expand(out)[-1:]
            if last and '.' in last[0]:
                root, i = last[0].split('.')
                i = int(i) + r.choice([1, 1, 1, 0, 2, -1])
                c = '{}.{}'.format(root, max(i, 0)) if r.random() < .6 else '{}.{}:{}'.format(root, max(i, 0), max(i, 0) + r.randint(0, 3))
            else:
                c = rand_code(r)
        else:
            c = rand_code(r)
        if distinct and (set(expand_code(c)) & seen):
            continue
        if distinct and c in out:
            continue
        seen |= set(expand_code(c))
        out.append(c)
    return out


SMALL = ['r', 'rgb', 'a.0', 'a.1', 'a:2', 'a.1:3', 'b.0', 'b:1', 'a:0', 'n']


class C08(Prop):
    def gen(self, rng):
        return {'streams': [rand_codes(rng) or ['z'] for _ in range(rng.choice([1, 1, 2, 3]))]}

    def fixed(self):
        for k in range(0, 4):
            for cs in itertools.product(SMALL, repeat=k):
                yield {'streams': [list(cs)]}
        for a, b in itertools.product(itertools.product(SMALL[:6], repeat=2), [('a:2',), ('r', 'g', 'b'), ('rgb',), ('a.0', 'a.1')]):
            yield {'streams': [list(a), list(b)]}

    def check(self, case):
        from delayed_image.channel_spec import FusedChannelSpec, ChannelSpec
        for codes in case['streams']:
            want = expand(codes)
            makers = [lambda: FusedChannelSpec(list(codes))]
            if codes:
                makers.append(lambda: FusedChannelSpec.coerce('|'.join(codes)))
            for mk in makers:
                s = mk()
                sizes = s.sizes()
                if list(sizes) != [len(expand_code(c)) for c in codes]:
                    return 'sizes of {} are {}'.format(codes, sizes)
                if s.numel() != len(want):
                    return 'numel of {} is {}'.format(codes, s.numel())
                n = s.normalize()
                if list(n.parsed) != want:
                    return 'normalizing {} gives {}'.format(codes, n.parsed)
                if list(n.normalize().parsed) != want or n.numel() != len(want) or list(n.sizes()) != [1] * len(want):
                    return 'the normalized form of {} is not its own expansion'.format(codes)
                c = s.concise()
                if expand(c.parsed) != want:
                    return 'shortening {} gives {} which expands to {}'.format(codes, c.parsed, expand(c.parsed))
                if list(c.normalize().parsed) != want or c.numel() != len(want):
                    return 'shortening {} and expanding gives {}'.format(codes, c.normalize().parsed)
                if list(c.concise().parsed) != list(c.parsed):
                    return 'shortening is not idempotent on {}: {} then {}'.format(codes, c.parsed, c.concise().parsed)
                if list(s.as_list()) != want or list(s.as_oset()) != list(dict.fromkeys(want)) or set(s.as_set()) != set(want):
                    return 'list or set forms of {} are wrong'.format(codes)
                for i in range(-len(want), len(want)):
                    if s[i] != want[i]:
                        return '{}[{}] is {}'.format(codes, i, s[i])
                idx = list(range(len(want)))[::-1] + list(range(len(want)))[:1]
                if list(s[idx].parsed) != [want[i] for i in idx]:
                    return '{}{} is {}'.format(codes, idx, s[idx].parsed)
                for sl in (slice(1, None), slice(None, -1), slice(None, None, 2)):
                    if list(s[sl].parsed) != want[sl]:
                        return '{}{} is {}'.format(codes, sl, s[sl].parsed)
                if codes:
                    st = s.split().streams()
                    if want and [x.spec for x in st] != want:
                        return 'splitting {} gives {}'.format(codes, [x.spec for x in st])
                if list(s.parsed) != list(codes):
                    return 'the spec {} changed to {}'.format(codes, s.parsed)
        streams = [s for s in case['streams'] if s]
        if not streams or any(not expand(s) for s in streams):
            return None
        text = ','.join('|'.join(s) for s in streams)
        s = ChannelSpec.coerce(text)
        raw = list(dict.fromkeys('|'.join(q) for q in streams))
        if list(s.parse()) != raw or [list(v.parsed) for v in s.parse().values()] != [k.split('|') for k in raw]:
            return 'streams of {} parse to {}'.format(text, list(s.parse()))
        ex = [expand(k.split('|')) for k in raw]
        uniq = [list(x) for x in dict.fromkeys(tuple(e) for e in ex)]
        got = [list(v.parsed) for v in s.normalize().values()]
        if got != uniq or s.normalize().spec != ','.join('|'.join(u) for u in uniq):
            return 'normalizing {} gives {}'.format(text, s.normalize().spec)
        if s.normalize().normalize().spec != s.normalize().spec:
            return 'normalizing {} is not idempotent'.format(text)
        c = s.concise()
        if [expand(v.parsed) for v in c.values()] != uniq or [expand(k.split('|')) for k in c.spec.split(',')] != uniq:
            return 'shortening {} gives {}'.format(text, c.spec)
        if c.concise().spec != c.spec:
            return 'shortening {} is not idempotent'.format(text)
        if s.sizes() != {k: len(e) for k, e in zip(raw, ex)}:
            return 'sizes of {} are {}'.format(text, s.sizes())
        if s.numel() != sum(map(len, ex)):
            return 'numel of {} is {}'.format(text, s.numel())
        if [list(v.parsed) for v in s.streams()] != streams:
            return 'streams() of {} gives {}'.format(text, [v.spec for v in s.streams()])
        f = s.fuse()
        if expand(f.parsed) != [x for q in streams for x in expand(q)]:
            return 'fusing {} gives {}'.format(text, f.spec)
        sp = s.split()
        if [list(x.normalize().parsed) for x in sp.streams()] != [[x] for q in streams for x in expand(q)]:
            return 'splitting {} gives {}'.format(text, sp.spec)
        try:
            lf = ChannelSpec.coerce(text).late_fuse('qq:2')
            if lf.spec != text + ',qq:2':
                return 'late fusing {} with a string gives {}'.format(text, lf.spec)
        except TypeError:
            pass                # known finding: string operands
        lf = ChannelSpec.coerce(text).late_fuse(ChannelSpec.coerce('qq:2'))
        if lf.spec != text + ',qq:2':
            return 'late fusing {} gives {}'.format(text, lf.spec)
        return None

    def shrink(self, case, fails):
        st = case['streams']
        for i in range(len(st)):
            if len(st) > 1 and fails({'streams': st[:i] + st[i + 1:]}):
                return self.shrink({'streams': st[:i] + st[i + 1:]}, fails)
            for j in range(len(st[i])):
                c = {'streams': st[:i] + [st[i][:j] + st[i][j + 1:]] + st[i + 1:]}
                if fails(c):
                    return self.shrink(c, fails)
        return case


class C09(Prop):
    def gen(self, rng):
        a = rand_codes(rng)
        b = rand_codes(rng)
        if a and rng.random() < .6:
            ex = expand(a)
            b = b + [c for c in ex if rng.random() < .5]
            rng.shuffle(b)
        sa = [rand_codes(rng, distinct=True) or ['z'] for _ in range(rng.randint(1, 3))]
        sb = [rand_codes(rng, distinct=True) or ['y'] for _ in range(rng.randint(1, 3))]
        sb[0] = sb[0] + [c for c in expand(sa[0]) if rng.random() < .5 and c not in expand(sb[0])]
        return {'a': a, 'b': b, 'sa': sa, 'sb': sb, 'form': rng.choice(['spec', 'spec', 'set'])}

    def fixed(self):
        pool = ['r', 'rgb', 'a.1', 'a:2', 'a.1:3', 'n', 'a:0']
        subs = [list(x) for k in range(0, 3) for x in itertools.product(pool, repeat=k)]
        for a in subs:
            for b in subs:
                yield {'a': a, 'b': b}
        st = [['r'], ['rgb'], ['a:2', 'n'], ['a.1'], ['g', 'r']]
        for x in itertools.product(st, repeat=2):
            for y in [[s] for s in st] + [[['a:3'], ['b']], [['n', 'g'], ['a.0']]]:
                yield {'a': [], 'b': [], 'sa': list(x), 'sb': y}

    def check(self, case):
        from delayed_image.channel_spec import FusedChannelSpec, ChannelSpec
        A, B = FusedChannelSpec(list(case['a'])), FusedChannelSpec(list(case['b']))
        ea, eb = expand(case['a']), expand(case['b'])
        u = lambda q: list(dict.fromkeys(q))
        other = set(eb) if case.get('form') == 'set' else B
        if len(set(ea)) == len(ea) and len(set(eb)) == len(eb) or True:
            want = {'difference': [c for c in u(ea) if c not in eb], 'intersection': [c for c in u(ea) if c in eb], 'union': u(ea + eb)}
            for k, w in want.items():
                if k == 'union' and case.get('form') == 'set':
                    continue
                got = getattr(A, k)(other)
                g = list(got.parsed)
                if len(set(ea)) != len(ea):
                    g = u(g)
                if g != w:
                    return '{} of {} and {} is {} instead of {}'.format(k, case['a'], case['b'], got.parsed, w)
                if expand(got.normalize().parsed) != list(got.parsed) or got.numel() != len(got.parsed):
                    return 'the result of {} is not a normal spec'.format(k)
            if list((A - B).parsed) != list(A.difference(B).parsed) or list((A & B).parsed) != list(A.intersection(B).parsed) or list((A | B).parsed) != list(A.union(B).parsed):
                return 'operators differ from their methods'
            if bool(A.issubset(other)) != (set(ea) <= set(eb)):
                return '{} subset of {} is {}'.format(case['a'], case['b'], A.issubset(other))
            if bool(A.issuperset(other)) != (set(ea) >= set(eb)):
                return '{} superset of {} is {}'.format(case['a'], case['b'], A.issuperset(other))
        if 'sa' in case:
            sa, sb = case['sa'], case['sb']
            if any(not expand(s) for s in sa + sb):
                return None
            S, T = (ChannelSpec.coerce(','.join('|'.join(q) for q in z)) for z in (sa, sb))
            na = [list(x) for x in dict.fromkeys(tuple(expand(q)) for q in sa)]
            nb = [list(x) for x in dict.fromkeys(tuple(expand(q)) for q in sb)]
            allb = {c for q in nb for c in q}
            want = {'difference': [[c for c in q if c not in allb] for q in na], 'intersection': [[c for c in q if c in allb] for q in na], 'union': na + nb}
            for k, w in want.items():
                w = ','.join('|'.join(q) for q in w if q)
                got = getattr(S, k)(T)
                if got.spec != w:
                    return '{} of {} and {} is {} instead of {}'.format(k, S.spec, T.spec, got.spec, w)
        return None

    def shrink(self, case, fails):
        for k in ('a', 'b'):
            for i in range(len(case[k])):
                c = dict(case, **{k: case[k][:i] + case[k][i + 1:]})
                if fails(c):
                    return self.shrink(c, fails)
        return case


class C10(Prop):
    def gen(self, rng):
        seen = set()
        streams = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            cs = []
            for c in rand_codes(rng, rng.randint(1, 4), distinct=True):
                e = set(expand_code(c))
                if e and not (e & seen) and c not in cs:
                    seen |= e
                    cs.append(c)
            if cs and rng.random() < .1:
                # a code of no channels
                cs.insert(rng.randrange(len(cs) + 1), 'z{}:0'.format(len(streams)))
            if cs:
                streams.append(cs)
        if not streams:
            streams = [['z']]
        codes = [c for s in streams for c in s]
        # grouping of the packed input for mode 1 / 0
        items = []
        cs = list(codes)
        rng.shuffle(cs) if rng.random() < .3 else None
        while cs:
            k = rng.choice([1, 1, 2, 3])
            items.append(cs[:k])
            cs = cs[k:]
        return {'streams': streams, 'items': items, 'axis': rng.choice([0, 0, 1, 2]), 'axis2': rng.choice([0, 1, 2])}

    def fixed(self):
        cs = ['r', 'rgb', 'a:2', 'b.1:4', 'n']
        for k in (1, 2, 3):
            for x in itertools.permutations(['rgb', 'a:2', 'n', 'b.1:4'], k):
                for ax in (0, 1, 2):
                    yield {'streams': [list(x)], 'items': [[c] for c in x], 'axis': ax, 'axis2': ax}
                    yield {'streams': [list(x)], 'items': [list(x)[::-1]], 'axis': ax, 'axis2': 0}
                    yield {'streams': [[c] for c in x], 'items': [list(x)], 'axis': ax, 'axis2': 1}
                    yield {'streams': [list(x[:1]), list(x[1:])] if k > 1 else [list(x)], 'items': [list(x[1:]), [x[0]]] if k > 1 else [list(x)], 'axis': ax, 'axis2': 2}
        for x in itertools.permutations(['a', 'c', 'z:0']):
            for y in itertools.permutations(['a', 'c', 'z:0']):
                yield {'streams': [list(x)], 'items': [list(y)], 'axis': 0, 'axis2': 0}

    def check(self, case):
        from delayed_image.channel_spec import FusedChannelSpec, ChannelSpec
        streams = case['streams']
        ax = case['axis']
        text = ','.join('|'.join(s) for s in streams)
        cs = ChannelSpec.coerce(text)
        # ranges
        for codes in streams:
            pos = 0
            kpos = 0
            ci = FusedChannelSpec.coerce('|'.join(codes)).component_indices(axis=ax)
            ci2 = FusedChannelSpec(list(codes)).component_indices(axis=ax)
            full = cs.component_indices(axis=ax)
            if list(ci) != codes or list(ci2) != codes:
                return 'component indices of {} are for {}'.format(codes, list(ci))
            for c in codes:
                n = len(expand_code(c))
                want = tuple([slice(None)] * ax + [slice(pos, pos + n)])
                # known finding: the fused form counts one channel for a range code
                kn = n if c in ALIAS else 1
                known = tuple([slice(None)] * ax + [slice(kpos, kpos + kn)])
                kpos += kn
                if any(x not in (want, known) for x in (ci[c], ci2[c])) or ci[c] != ci2[c]:
                    return 'range of {} in {} is {} instead of {}'.format(c, codes, ci[c], want)
                if full[c] != ('|'.join(codes), want):
                    return 'range of {} in {} is {} instead of {}'.format(c, text, full[c], want)
                pos += n
            if pos != FusedChannelSpec(list(codes)).numel():
                return 'ranges of {} do not add up'.format(codes)
        # data: one distinct value per expanded channel
        val = {}
        for s in streams:
            for c in s:
                for x in expand_code(c):
                    val[x] = len(val) + 1

        def block(codes, axis):
            v = np.array([val[x] for c in codes for x in expand_code(c)], dtype=float)
            shape = [2, 3, 2]
            shape[axis] = len(v)
            sh = [1, 1, 1]
            sh[axis] = len(v)
            return np.zeros(shape) + v.reshape(sh)
        def known(stream, got, item):
            # known finding: mode 1 merges by the start of the next piece, which drops data next to a code of no channels
            where = {}
            for g in case['items']:
                p = 0
                for c in g:
                    n = len(expand_code(c))
                    where[c] = ('|'.join(g), p, p + n)
                    p += n
            if all(expand_code(c) for g in case['items'] for c in g):
                return False
            runs = []
            for c in stream.split('|'):
                k, a, b = where[c]
                if runs and runs[-1][0] == k and runs[-1][1] == a:
                    runs[-1][3] = b
                else:
                    runs.append([k, b, a, b])
            want = [item[k][tuple([slice(None)] * ax + [slice(a, b)])] for k, _, a, b in runs]
            return np.array_equal(got, np.concatenate(want, axis=ax))
        fused = {'|'.join(s): block(s, ax) for s in streams}
        dec = cs.decode(fused, axis=ax)
        codes = [c for s in streams for c in s]
        if list(dec) != codes:
            return 'unpacking {} gives codes {}'.format(text, list(dec))
        for c in codes:
            if not np.array_equal(dec[c], block([c], ax)):
                return 'unpacking {} gives wrong data for {}'.format(text, c)
        for mode in (0, 1):
            if mode == 0 and any(expand_code(c) not in ([c], []) for c in codes):
                # known finding: KeyError when a code is an alias or a range
                try:
                    enc = cs.encode({c: block([c], ax) for c in codes}, axis=ax, mode=0)
                except KeyError as ex:
                    if ex.args[0] in {x for c in codes if expand_code(c) != [c] for x in expand_code(c)}:
                        continue
                    raise
            item = {c: block([c], ax) for c in codes}
            enc = cs.encode(item, axis=ax, mode=mode)
            if set(enc) != set(fused) or any(not np.array_equal(enc[k], fused[k]) for k in fused):
                return 'packing the codes of {} with mode={} gives wrong data'.format(text, mode)
            back = cs.decode(enc, axis=ax)
            if set(back) != set(item) or any(not np.array_equal(back[k], item[k]) for k in item):
                return 'unpacking what was packed for {} with mode={} differs'.format(text, mode)
            item = {'|'.join(g): block(g, ax) for g in case['items']}
            enc = cs.encode(item, axis=ax, mode=mode)
            if set(enc) != set(fused) or any(not np.array_equal(enc[k], fused[k]) and not (mode == 1 and known(k, enc[k], item)) for k in fused):
                return 'packing grouped data {} for {} with mode={} gives wrong data'.format(list(item), text, mode)
        return None

    def shrink(self, case, fails):
        st = case['streams']
        for i in range(len(st)):
            for j in range(len(st[i])):
                n = [list(s) for s in st]
                c = n[i].pop(j)
                n = [s for s in n if s]
                if n:
                    it = [[x for x in g if x != c] for g in case['items']]
                    d = dict(case, streams=n, items=[g for g in it if g])
                    if fails(d):
                        return self.shrink(d, fails)
        return case


EMPTY = re.compile(r'\(,|,,|,\)|\(\)')


class C11(Prop):
    SENS = ['S1', 'S2', 'L8', 'WV', '*']

    def gen(self, rng):
        r = rng
        parts = []
        for _ in range(r.randint(1, 4)):
            sens = r.sample(self.SENS, r.choice([1, 1, 2, 3]))
            chans = []
            for _ in range(r.choice([1, 1, 2, 3])):
                cs = [c for c in rand_codes(r, r.randint(1, 3), distinct=True) if expand_code(c)]
                cs = [c.replace('x y', 'xy') for c in cs]
                if r.random() < .12:
                    cs = []
                chans.append(cs)
            if parts and r.random() < .3:
                chans = [list(x) for x in parts[r.randrange(len(parts))][1]]
            if r.random() < .15 and chans[0]:
                # no sensor
                parts.append([None, chans[:1]])
            else:
                parts.append([sens, chans])
        return {'parts': parts, 'other': [[['S3'], [['q']]]] if r.random() < .5 else []}

    def fixed(self):
        groups = [[['S1'], [['r', 'g']]], [['S1', 'S2'], [['r'], ['a:2']]], [['S2'], [['a.0', 'a.1'], []]], [['*'], [['rgb']]], [None, [['n']]], [['S1'], [[]]], [['S2', '*'], [['r', 'g']]]]
        for k in (1, 2, 3):
            for x in itertools.product(groups, repeat=k):
                yield {'parts': [list(p) for p in x], 'other': []}

    @staticmethod
    def text(parts):
        out = []
        for sens, chans in parts:
            ch = ['|'.join(c) for c in chans]
            c = ch[0] if len(ch) == 1 else '({})'.format(','.join(ch))
            if sens is None:
                out.append(c)
            elif len(sens) == 1:
                out.append('{}:{}'.format(sens[0], c))
            else:
                out.append('({}):{}'.format(','.join(sens), c))
        return ','.join(out)

    @staticmethod
    def pairs(parts):
        out = []
        for sens, chans in parts:
            for s in (sens or ['*']):
                for c in chans:
                    out.append((s, tuple(expand(c))))
        return out

    @staticmethod
    def parse(text):
        """Independent reader of the textual form"""
        items = []
        depth = 0
        cur = ''
        for ch in text:
            depth += (ch == '(') - (ch == ')')
            if ch == ',' and depth == 0:
                items.append(cur)
                cur = ''
            else:
                cur += ch
        items.append(cur)
        out = []
        for it in items:
            if it.startswith('(') and '):' in it:
                a, b = it.split('):', 1)
                sens = a[1:].split(',')
            elif ':' in it and not it.startswith('('):
                a, b = it.split(':', 1)
                if not a[:1].isalpha() and a[:1] not in '*_' or '|' in a or '.' in a or b[:1].isdigit():
                    sens, b = ['*'], it
                else:
                    sens = [a]
            else:
                sens, b = ['*'], it
            if b.startswith('('):
                chans = b[1:-1].split(',')
            else:
                chans = [b]
            for s in sens:
                for c in chans:
                    out.append((s, tuple(expand(c.split('|'))) if c else ()))
        return out

    def check(self, case):
        from delayed_image import sensorchan_spec as ss
        text = self.text(case['parts'])
        if EMPTY.search(text):
            return None         # an empty channel group in parens is no valid spec
        want = self.pairs(case['parts'])
        if set(self.parse(text)) != set(want):
            raise AssertionError('oracle {} {} {}'.format(text, self.parse(text), want))
        ws = set(want)
        s = ss.SensorChanSpec.coerce(text)

        def pairs_of(x):
            return [(st.sensor.spec, tuple(st.chans.normalize().parsed)) for st in x.streams()]
        if pairs_of(s) != want:
            return 'streams of {} are {}'.format(text, pairs_of(s))
        if s.numel() != sum(len(b) for a, b in want):
            return 'numel of {} is {}'.format(text, s.numel())
        n = s.normalize()
        if self.parse(n.spec) != want or pairs_of(n) != want:
            return 'normalizing {} gives {}'.format(text, n.spec)
        c = s.concise()
        if set(self.parse(c.spec)) != ws:
            return 'shortening {} gives {}'.format(text, c.spec)
        nc = n.concise()
        if set(self.parse(nc.spec)) != ws:
            return 'normalizing and shortening {} gives {}'.format(text, nc.spec)
        # known finding: shortened specs with an empty channel group in parens do not parse
        if not EMPTY.search(c.spec):
            if set(pairs_of(ss.SensorChanSpec.coerce(c.spec))) != ws:
                return 'shortening {} gives {} which means something else'.format(text, c.spec)
            cc = c.concise()
            if set(self.parse(cc.spec)) != ws or (not EMPTY.search(cc.spec) and set(pairs_of(cc)) != ws):
                return 'shortening {} twice changes its meaning'.format(text)
        if not EMPTY.search(nc.spec) and set(pairs_of(nc)) != ws:
            return 'normalizing and shortening {} changes its meaning'.format(text)
        if all(b for a, b in want):
            sp = s.split()
            single = [(a, (x,)) for a, b in want for x in b]
            if pairs_of(sp) != single:
                return 'splitting {} gives {}'.format(text, sp.spec)
        o = ss.SensorChanSpec.coerce(self.text(case['other']) if case['other'] else 'S9:zz')
        f = s.late_fuse(o)
        if pairs_of(f) != want + pairs_of(o) or pairs_of(s + o) != want + pairs_of(o) or pairs_of(sum([s, o])) != want + pairs_of(o):
            return 'late fusing {} gives {}'.format(text, f.spec)
        for q in ['S1', 'S2', 'S9']:
            m = s.matching_sensor(q)
            wq = [p for p in want if p[0] in (q, '*')]
            got = pairs_of(m)
            if not wq:
                if got not in ([], [(q, ())]):
                    return 'selecting {} from {} gives {}'.format(q, text, got)
            elif got != wq:
                return 'selecting {} from {} gives {}'.format(q, text, got)
        if pairs_of(s.matching_sensor('*')) != want:
            return 'selecting * from {} changes it'.format(text)
        if len({a for a, b in want}) == 1 and all(b for a, b in want):
            ch = s.chans
            got = [tuple(x.normalize().parsed) for x in ch.streams()]
            if got != [b for a, b in want]:
                return 'channels of {} are {}'.format(text, got)
        elif len({a for a, b in want}) > 1:
            try:
                s.chans
                return 'channels of the multi sensor spec {} did not fail'.format(text)
            except Exception:
                pass
        for a, b in want[:2]:
            if b:
                one = ss.FusedSensorChanSpec.coerce('{}:{}'.format(a, '|'.join(b)))
                if one.sensor.spec != a or tuple(one.chans.normalize().parsed) != b:
                    return 'fused spec of {}:{}'.format(a, b)
        return None

    def shrink(self, case, fails):
        p = case['parts']
        for i in range(len(p)):
            if len(p) > 1:
                c = dict(case, parts=p[:i] + p[i + 1:])
                if fails(c):
                    return self.shrink(c, fails)
        return case
