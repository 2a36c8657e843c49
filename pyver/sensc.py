"""C11: sensor/channel specs

The texts are split by the real lark parser with the grammar of the module under verification: every
arbitrary name, numeral or stream of the text is replaced by an identifier or a number of its own, and put
back in the tree.  The real Transformer of the module then runs on the tree.  An arbitrary
stream (a non-empty run of codes without ranges) is one identifier for the grammar."""
import itertools
from pyver import specc, spect
from pyver.specc import AbsList, PU, hom, same, show, text
from pyver.spect import stream_text, use
from pyver.sym import EQ, Control, Unsupported, eng
from pyver.treec import classify
from pyver.viewc import Fn

A_LARK = ('lark: the tree of a text by the grammar of the module, which treats all identifiers alike and all numbers alike; '
          'Transformer calls the method of each rule bottom up with the values of the children')
A_RUN = ('an arbitrary stream of a sensor spec is parsed code by code: the module sees one identifier, whose list of codes is put in its place when a fused spec is made')


class Tok:
    """a token: its text"""
    def __init__(self, type_, value):
        self.type, self.value = type_, value

    def __str__(self):
        return self.value

    def __format__(self, spec):
        return format(self.value, spec)

    def __getattr__(self, name):
        raise Unsupported('token.%s' % name) if not name.startswith('__') else AttributeError(name)


class Parser:
    def __init__(self, w):
        self.w = w

    def parse(self, s):
        w = self.w
        names = {}
        out = ''
        for c in s:
            if ord(c) < PU:
                out += c
                continue
            a = w.atoms[c]
            if a.kind == 'num':
                names.setdefault(c, str(700001 + ord(c) - PU))
            else:
                names.setdefault(c, 'v%sv' % chr(97 + (ord(c) - PU) // 26) + chr(97 + (ord(c) - PU) % 26))
            out += names[c]
        back = {v: k for k, v in names.items()}
        import lark
        tree = w.lark().parse(out)

        def conv(t):
            if isinstance(t, lark.Tree):
                return lark.Tree(t.data, [conv(x) for x in t.children])
            v = str(t)
            if v in back:
                return Tok(t.type, back[v])
            if any(k in v for k in back):
                raise Unsupported('token %s' % v)
            return Tok(t.type, v)
        return conv(tree)


class World(specc.World):
    def __init__(self, repo):
        super().__init__(repo)
        env = self.env
        pkg = env.module('delayed_image')
        pkg.FusedChannelSpec = self.F
        pkg.ChannelSpec = self.C
        name = 'delayed_image.sensorchan_spec'
        env.cut[name] = lambda t: specc.Instr().visit(t)
        self.sens = env.module(name)
        pkg.SensorChanSpec = self.sens.SensorChanSpec
        pkg.FusedSensorChanSpec = self.sens.FusedSensorChanSpec
        self.S, self.FS = self.sens.SensorChanSpec, self.sens.FusedSensorChanSpec
        self.larks = {}
        orig = self.F.__init__

        def init(me, parsed, *a, **k):
            if isinstance(parsed, AbsList) and any(self.is_run(s) for s in parsed.segs):
                out = []
                for s in parsed.segs:
                    out += self.atoms[s[1]].val if self.is_run(s) else [s]
                parsed = AbsList(out)
            orig(me, parsed, *a, **k)
        self.F.__init__ = init
        self.getter = self.sens._global_sensor_chan_parser
        self.reset()

    def is_run(self, s):
        return s[0] == 'I' and type(s[1]) is str and len(s[1]) == 1 and s[1] in self.atoms and self.atoms[s[1]].kind == 'text'

    def lark(self):
        g = self.sens.SENSOR_CHAN_GRAMMAR
        if g not in self.larks:
            import lark
            self.larks[g] = lark.Lark(g, start='start', parser='lalr')
        return self.larks[g]

    def reset(self):
        super().reset()
        if hasattr(self, 'sens'):
            self.sens._global_sensor_chan_parser = lambda: Parser(self)


# ------------------------------------------------------------------ the specification

def read(w, s):
    """the pairs of sensor and stream that a text means (no ranges in it)"""
    items, depth, cur = [], 0, ''
    for ch in s:
        depth += (ch == '(') - (ch == ')')
        if ch == ',' and depth == 0:
            items.append(cur)
            cur = ''
        else:
            cur += ch
    items.append(cur)
    if depth:
        return None
    out = []
    for it in items:
        if it.startswith('(') and '):' in it:
            a, b = it.split('):', 1)
            sens = a[1:].split(',')
        elif ':' in it:
            a, b = it.split(':', 1)
            sens = [a]
        else:
            sens, b = ['*'], it
        chans = b[1:-1].split(',') if b.startswith('(') and b.endswith(')') else [b]
        if not all(sens) or any(c in '()|:,.' for x in sens for c in x) or b.startswith('(') and not all(chans):
            return None
        for a in sens:
            for c in chans:
                segs = []
                for code in c.split('|') if c else []:
                    if not code:
                        return None
                    if any(ord(k) >= PU and w.atoms[k].kind == 'text' for k in code):
                        if len(code) != 1:
                            return None
                        segs += w.atoms[code].val
                    else:
                        segs.append(('I', code))
                out.append((a, segs))
    return out


def eq_stream(w, a, b):
    a, b = hom('expand', a), hom('expand', b)
    if not a or not b:
        return not a and not b
    g = same(a, b)
    if g is True:
        return True
    if isinstance(g, bool):
        return w.list_same(a, b)
    return bool(g)


def show_pairs(ps):
    return str([(show(a), text(b)) for a, b in ps])


def pairs_of(w, s):
    """the streams of a spec"""
    out = []
    for st in s.streams():
        f = st.chans
        out.append((str(st.sensor.spec), AbsList.segs_of(f.parsed)))
    return out


def as_lists(w, got, want):
    return len(got) == len(want) and all(a == c and eq_stream(w, b, d) for (a, b), (c, d) in zip(got, want))


def as_sets(w, got, want):
    def sub(p, q):
        return all(any(a == c and eq_stream(w, b, d) for c, d in q) for a, b in p)
    return sub(got, want) and sub(want, got)


def sensor_name(w, label, others):
    """an arbitrary name, different from the others and from the wildcard"""
    c = w.name(label)
    for o in list(others) + ['*']:
        w.neq.add(frozenset((c, o)))
    return c


class Gen:
    """an arbitrary text of a given shape"""
    def __init__(self, e, w, wild=True):
        self.e, self.w, self.wild = e, w, wild
        self.names, self.streams, self.pairs, self.items = [], [], [], []

    def sensor(self):
        opts = ['new'] + ['same as %d' % i for i in range(len(self.names))] + (['*'] if self.wild else [])
        k = self.e.choose(opts, 'sensor')
        if k == '*':
            return k
        if k == 'new':
            c = sensor_name(self.w, 'S', self.names)
            self.names.append(c)
            return c
        return self.names[int(k.rpartition(' ')[2])]

    def stream(self):
        k = self.e.choose(['new'] + ['same as %d' % i for i in range(len(self.streams))], 'stream')
        if k == 'new':
            t, B = stream_text(self.e, self.w, 's%d' % len(self.streams))
            self.streams.append((t, [('H', 'id', B)]))
            return self.streams[-1]
        return self.streams[int(k.rpartition(' ')[2])]

    def item(self, ns, nc):
        """ns sensors (0: none is written, None: one that is not in parentheses), nc streams (None: one that is not in parentheses)"""
        sens = [self.sensor() for _ in range(1 if ns is None else ns)]
        ch = [self.stream() for _ in range(1 if nc is None else nc)]
        c = ''.join(t for t, _ in ch) if nc in (None, 0) else '(%s)' % ','.join(t for t, _ in ch)
        s = '' if ns == 0 else sens[0] + ':' if ns is None else '(%s):' % ','.join(sens)
        self.items.append(s + c)
        for a in sens or ['*']:
            for _, segs in ch or [(None, [])]:
                self.pairs.append((a, segs))

    def spec(self, shape):
        for ns, nc in shape:
            self.item(ns, nc)
        return self.w.S.coerce(','.join(self.items))


ONE = [[(a, b)] for a in (None, 0, 1, 2) for b in (None, 1, 2, 0) if (a, b) not in ((0, 0), (0, 1), (0, 2))]
TWO = [[x, y] for x in ((None, None), (0, None), (2, None), (None, 2)) for y in ((None, None), (0, None), (2, None), (None, 2))]
THREE = [[(None, None)] * 3, [(None, None), (0, None), (None, None)]]
EMPTY = [[(None, None), (None, 0)], [(None, 0), (None, 0)], [(None, 0), (0, None)], [(2, 0), (None, None)]]


def name_of(shape):
    def one(x):
        a, b = x
        s = {None: 'S:', 0: '', 1: '(S):', 2: '(S,S):'}[a]
        return s + {None: 'c', 0: '', 1: '(c)', 2: '(c,c)'}[b]
    return ' '.join(one(x) for x in shape)


def shaped(e, w, shapes, wild=True):
    g = Gen(e, w, wild)
    k = e.choose([name_of(s) for s in shapes], 'shape')
    s = g.spec({name_of(x): x for x in shapes}[k])
    return s, g


def unchanged(w, tag, s, g):
    w.check(tag + 'the spec itself is unchanged', s.spec == ','.join(g.items))


def streams(shapes):
    def body(e, w, tag):
        s, g = shaped(e, w, shapes)
        got = pairs_of(w, s)
        e.cover('returns')
        w.check(tag + 'one stream for every pair of sensor and channels, in order', as_lists(w, got, g.pairs), note='%s for %s' % (show_pairs(got), show_pairs(g.pairs)))
        use(w, 'sizes', 'numel', 'normalize')
        w.check(tag + 'number of channels', EQ(s.numel(), specc.sum_of(B.total for _, segs in g.pairs for _, _, B in segs)))
        unchanged(w, tag, s, g)
    return body


def rewrite(meth, shapes, order):
    def body(e, w, tag):
        use(w, 'normalize', 'concise')
        s, g = shaped(e, w, shapes)
        r = getattr(s, meth)()
        e.cover('returns')
        w.check(tag + 'a sensor channel spec', type(r) is w.S and type(r.spec) is str)
        got = read(w, r.spec)
        w.check(tag + 'a valid text', got is not None, note=show(r.spec))
        w.check(tag + 'the same pairs of sensor and stream', (as_lists if order else as_sets)(w, got, g.pairs), note='%s for %s' % (show_pairs(got), show_pairs(g.pairs)))
        again = pairs_of(w, r)
        w.check(tag + 'the streams of the result', (as_lists if order else as_sets)(w, again, g.pairs), note='%s for %s' % (show_pairs(again), show_pairs(g.pairs)))
        unchanged(w, tag, s, g)
    return body


def fuse(e, w, tag):
    s, g = shaped(e, w, [[(None, None)], [(0, None), (None, None)], [(2, None)], [(None, 2)], [(None, 0)]])
    h = Gen(e, w)
    h.names, h.streams = g.names, g.streams
    k = e.choose(['S:c', 'c', '(S,S):c'], 'other')
    o = h.spec({'S:c': [(None, None)], 'c': [(0, None)], '(S,S):c': [(2, None)]}[k])
    how = e.choose(['late_fuse', '+', 'sum', 'three'], 'how')
    want = g.pairs + h.pairs
    if how == 'late_fuse':
        r = s.late_fuse(o)
    elif how == '+':
        r = s + o
    elif how == 'sum':
        r = w.b_sum([s, o])
    else:
        r = s.late_fuse(o, s)
        want = want + g.pairs
    e.cover('returns')
    got = read(w, r.spec)
    w.check(tag + 'a valid text', got is not None, note=show(r.spec))
    w.check(tag + 'the streams of all of them, in order', as_lists(w, got, want), note='%s for %s' % (show_pairs(got), show_pairs(want)))
    w.check(tag + 'the streams of the result', as_lists(w, pairs_of(w, r), want))
    unchanged(w, tag, s, g)
    unchanged(w, tag, o, h)


MATCH = [[(None, None)], [(None, 2)], [(2, None)], [(None, None), (None, None)], [(0, None), (None, None)], [(None, 0), (None, None)], [(None, None)] * 3]


def matching(e, w, tag):
    use(w, 'sizes', 'numel', 'normalize')
    s, g = shaped(e, w, MATCH)
    q = e.choose(['another', '*'] + list(range(len(g.names))), 'sensor asked for')
    if q == 'another':
        q = sensor_name(w, 'Q', g.names)
    elif q != '*':
        q = g.names[q]
    r = s.matching_sensor(q)
    e.cover('returns')
    if q == '*':
        w.check(tag + 'everything', as_lists(w, pairs_of(w, r), g.pairs))
        return
    want = [p for p in g.pairs if p[0] in (q, '*')]
    got = pairs_of(w, r)
    if not want:
        w.check(tag + 'nothing', all(a == q and not b for a, b in got) and len(got) <= 1, note=show_pairs(got))
        w.check(tag + 'no channels', EQ(r.numel(), 0))
    else:
        w.check(tag + 'exactly the streams of the sensor and of the wildcard', as_lists(w, got, want), note='%s for %s' % (show_pairs(got), show_pairs(want)))
        back = read(w, r.spec)
        w.check(tag + 'a valid text', back is not None and as_lists(w, back, want), note=show(r.spec))
    unchanged(w, tag, s, g)


def chans(e, w, tag):
    s, g = shaped(e, w, [[(None, None)], [(0, None)], [(None, 2)], [(None, None), (None, None)], [(0, None), (None, None)], [(2, None)], [(None, None)] * 3])
    one = len({a for a, _ in g.pairs}) == 1
    try:
        r = s.chans
    except Control:
        raise
    except Exception:
        w.check(tag + 'fails only for several sensors', not one)
        e.cover('several sensors')
        return
    e.cover('returns')
    w.check(tag + 'several sensors have no common channel part', one)
    got = [AbsList.segs_of(f.parsed) for f in r.streams()]
    w.check(tag + 'the channels of the streams, in order', len(got) == len(g.pairs) and all(eq_stream(w, a, b) for a, (_, b) in zip(got, g.pairs)))
    unchanged(w, tag, s, g)


CODES = ['n', 'rgb', 'n.i', 'n:b', 'n.a:b', 'n:a:b']


def one_code(e, w, forms=CODES):
    """a code and the channels it stands for"""
    n = w.name('c')
    w.plain = tuple(w.plain) + (n,)
    form = e.choose(forms, 'code')
    if form == 'rgb':
        return 'rgb', [('I', 'r'), ('I', 'g'), ('I', 'b')], None
    if form == 'n':
        return n, [('I', n)], n
    if form == 'n.i':
        t = '%s.%s' % (n, w.numeral(e.nat('i')))
        return t, [('I', t)], t
    b = e.nat('b')
    a = 0 if form == 'n:b' else e.nat('a')
    from pyver import sym
    t = {'n:b': '%s:%s' % (n, w.numeral(b)), 'n.a:b': '%s.%s:%s' % (n, w.numeral(a), w.numeral(b)), 'n:a:b': '%s:%s:%s' % (n, w.numeral(a), w.numeral(b))}[form]
    return t, [('R', n, a, sym.smax(a, b))], '%s.%s:%s' % (n, w.numeral(a), w.numeral(b))


def codes(e, w, tag):
    """the text of every kind of code, alone, in a sequence and in parentheses"""
    t, want, w.code = one_code(e, w)
    ctx = e.choose(['S:%s', '%s', 'S:(%s)', 'S:x|%s', 'S:%s|x', 'S:(x,%s)', '(S,Q):%s', 'y,S:%s'], 'context')
    if ctx == '%s' and ':' in t or t.count(':') == 2 and ctx == 'S:%s':
        ctx = 'S:(%s)'          # a name before a colon is a sensor
    S = sensor_name(w, 'S', [])
    Q, x, y = sensor_name(w, 'Q', [S]), w.name('x'), w.name('y')
    w.plain = tuple(w.plain) + (x, y)
    X, Y = [('I', x)], [('I', y)]
    spec = ctx.replace('S', S).replace('Q', Q).replace('x', x).replace('y', y).replace('%s', t)
    wants = {'S:%s': [(S, want)], '%s': [('*', want)], 'S:(%s)': [(S, want)], 'S:x|%s': [(S, X + want)], 'S:%s|x': [(S, want + X)],
             'S:(x,%s)': [(S, X), (S, want)], '(S,Q):%s': [(S, want), (Q, want)], 'y,S:%s': [('*', Y), (S, want)]}[ctx]
    got = pairs_of(w, w.S.coerce(spec))
    e.cover('returns')
    w.check(tag + 'one stream for every pair', len(got) == len(wants) and all(a == c for (a, _), (c, _) in zip(got, wants)))
    for (_, a), (_, b) in zip(got, wants):
        w.check(tag + 'the channels of the codes in order', same(hom('expand', a), b), note='%s for %s' % (text(hom('expand', a)), text(b)))


def split(e, w, tag):
    """streams of at most two codes"""
    S = sensor_name(w, 'S', [])
    Q = sensor_name(w, 'Q', [S])
    out, want = [], []
    for s in e.choose([(S,), (S, Q), (S, S), ('*', S)], 'sensors'):
        codes = []
        for _ in range(e.choose([1, 2], 'codes')):
            t, ch, _ = one_code(e, w, ['n', 'n.i'])
            codes.append(t)
            want.append((s, ch))
        out.append('%s:%s' % (s, '|'.join(codes)))
    from pyver.sym import PathEnd
    flat = [b[0][1] for _, b in want]
    for i, x in enumerate(flat):
        for y in flat[:i]:
            if bool(specc.str_eq(x, y)):
                raise PathEnd           # channels of a spec are distinct here
    s = w.S.coerce(','.join(out))
    r = s.split()
    e.cover('returns')
    got = read(w, r.spec)
    w.check(tag + 'one stream per channel and sensor', got is not None and as_lists(w, got, want), note=show(r.spec))
    w.check(tag + 'the streams of the result', as_lists(w, pairs_of(w, r), want))


def single(e, w, tag):
    """specs of one sensor"""
    g = Gen(e, w)
    text_ = g.spec([(None, None)]).spec
    use(w, 'normalize', 'concise')
    f = w.FS.coerce(text_)
    how = e.choose(['itself', 'normalize', 'concise', 'coerce', 'streams'], 'how')
    r = {'itself': lambda: f, 'normalize': f.normalize, 'concise': f.concise, 'coerce': lambda: w.FS.coerce(f), 'streams': lambda: f.streams()[0]}[how]()
    e.cover('returns')
    (a, b), = g.pairs
    w.check(tag + 'a spec of one sensor', type(r) is w.FS)
    w.check(tag + 'with its sensor and channels', r.sensor.spec == a and eq_stream(w, AbsList.segs_of(r.chans.parsed), b))
    back = read(w, r.spec)
    w.check(tag + 'the text', back is not None and as_lists(w, back, g.pairs), note=show(r.spec))


def coerce(e, w, tag):
    how = e.choose(['text', 'spec', 'fused', 'channel spec'], 'from')
    t, B = stream_text(e, w, 's')
    want = [('*', [('H', 'id', B)])]
    if how == 'text':
        r = w.S.coerce(t)
    elif how == 'spec':
        s = w.S(t)
        r = w.S.coerce(s)
        w.check(tag + 'itself', r is s)
    elif how == 'fused':
        r = w.S.coerce(w.F.coerce(t))
    else:
        r = w.S.coerce(w.C.coerce(t))
    e.cover('returns')
    w.check(tag + 'its channels for any sensor', as_lists(w, pairs_of(w, r), want))


def target(name, body, funcs, **kw):
    def go(e, w, tag):
        w.tag = tag
        for a in (specc.A_STR, specc.A_MEMO, A_LARK, A_RUN):
            e.used.add(a)
        try:
            body(e, w, tag)
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
        finally:
            w.restore()
    t = Fn(name, go, ['sensorchan_spec.' + f for f in funcs], **kw)
    t.world = World
    return t


T = ['SensorChanTransformer.' + n for n in ('chan_single', 'chan_getitem', 'chan_getslice_0b', 'chan_getslice_ab', 'chan_code', 'sensor_seq', 'fused_seq', 'fused', 'channel_rhs', 'sensor_lhs', 'nosensor_chan', 'sensor_chan', 'stream_item', 'stream')]


def c11(tier):
    S, F = 'SensorChanSpec.', 'FusedSensorChanSpec.'
    out = [
        target('codes of a text', codes, T + ['sensorchan_normalized_parts']),
        target('streams of one item', streams(ONE), T + [S + 'streams', S + 'numel', F + '__init__']),
        target('streams of several items', streams(TWO + THREE + EMPTY), T + [S + 'streams', S + 'numel']),
        target('normalize', rewrite('normalize', ONE + TWO + THREE + EMPTY, True), [S + 'normalize', 'normalize_sensor_chan', 'SensorChanNode.spec', 'FusedChanNode.spec']),
        target('shorten one item', rewrite('concise', ONE, False), T + [S + 'concise', 'concise_sensor_chan', 'sensorchan_concise_parts', 'FusedChanNode.concise']),
        target('shorten two items', rewrite('concise', TWO, False), T + [S + 'concise', 'concise_sensor_chan']),
        target('shorten three items', rewrite('concise', THREE, False), T + [S + 'concise', 'concise_sensor_chan']),
        target('late fuse', fuse, [S + 'late_fuse', S + '__add__', S + '__radd__']),
        target('select a sensor', matching, [S + 'matching_sensor']),
        target('channel part', chans, [S + 'chans']),
        target('split', split, [S + 'split']),
        target('spec of one sensor', single, [F + n for n in ('from_spec', 'coerce', 'normalize', 'concise', 'chans', 'spec')]),
        target('make a spec', coerce, [S + 'coerce', S + 'from_spec', S + '__init__']),
    ]
    return out
