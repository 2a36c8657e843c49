"""Contract targets of C08, C09, C10 (see pyver.specc)"""
from pyver import sym, specc
from pyver.specc import ALIAS, AbsDict, AbsList, AbsSet, Base, Elem, Filled, HomCut, Incl, CopyCut, ConciseCut, OSet, World, code_size, filtered, hom, norm, same, show, str_eq, text
from pyver.sym import AND, EQ, NOT, SymNum, Control, PathEnd, Unsupported
from pyver.treec import classify
from pyver.viewc import Fn

STREAMS = 3


def target(name, body, funcs, **kw):
    def go(e, w, tag):
        w.tag = tag
        e.used.add(specc.A_STR)
        e.used.add(specc.A_MEMO)
        try:
            body(e, w, tag)
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
        finally:
            w.restore()
    t = Fn(name, go, ['channel_spec.' + f for f in funcs], **kw)
    t.world = World
    return t


# ------------------------------------------------------------------ contracts of callees

def use(w, *names):
    F, C = w.F, w.C

    def normalize(self):
        if self._is_normalized is True:
            return self
        r = F(AbsList(hom('expand', AbsList.segs_of(self.parsed))), _is_normalized=True)
        return r

    def sizes(self):
        return AbsList(hom('sizes', AbsList.segs_of(self.parsed)))

    def numel(self):
        return w.b_sum(sizes(self))

    def concise(self):
        s = AbsList.segs_of(self.parsed)
        if len(s) != 1 or s[0][0] != 'H' or s[0][1] not in ('id', 'expand'):
            raise Unsupported('concise of %s' % text(s))
        return F(AbsList([('H', 'concise', s[0][2])]), _is_normalized=False)
    for n in names:
        setattr(F, n, {'normalize': normalize, 'sizes': sizes, 'numel': numel, 'concise': concise}[n])


def fused(e, w, label='codes', normal=None, nonempty=False):
    """an arbitrary fused spec: a normal one may be marked as such"""
    mark = e.choose([False, True], 'marked as expanded') if normal is None else normal
    B = w.base(label, norm=mark)
    if nonempty:
        w.nonempty = tuple(w.nonempty) + (B,)
        e.require(B.n > 0)
    s = w.F(AbsList([('H', 'id', B)]), _is_normalized=mark)
    return s, B


def valid(e, w, tag, s, what='the result'):
    """data invariant: what is marked as expanded is its own expansion"""
    if s._is_normalized is not False:
        w.check(tag + what + ' is marked as expanded only if it is', same(hom('expand', AbsList.segs_of(s.parsed)), AbsList.segs_of(s.parsed)))


def untouched(e, w, tag, s, B, ver=0):
    w.check(tag + 'the spec itself is unchanged', isinstance(s.parsed, AbsList) and s.parsed.version == ver and s.parsed.segs == [('H', 'id', B)])
    valid(e, w, tag, s, 'the spec')


def aliases(w):
    return {k: list(v) for k, v in dict.items(w.F._alias_lut)} == ALIAS


def expands_to(w, tag, what, s, segs):
    got = hom('expand', AbsList.segs_of(s.parsed))
    w.check(tag + what, same(got, segs), note='%s for %s' % (text(norm(got)), text(norm(segs))))


# ------------------------------------------------------------------ C08

def normalize(e, w, tag):
    s, B = fused(e, w)
    w.cuts['normalize'] = lambda l, x: HomCut(l, x, 'expand')
    r = s.normalize()
    e.cover('returns')
    w.check(tag + 'a fused spec', type(r) is w.F)
    w.check(tag + 'every code is replaced by its channels, in place', same(AbsList.segs_of(r.parsed), [('H', 'expand', B)]), note=text(AbsList.segs_of(r.parsed)))
    valid(e, w, tag, r)
    w.check(tag + 'the result is marked as expanded', r._is_normalized is True)
    untouched(e, w, tag, s, B)
    w.check(tag + 'the table of aliases is the documented one', aliases(w))


def sizes(e, w, tag):
    s, B = fused(e, w)
    w.cuts['sizes'] = lambda l, x: HomCut(l, x, 'sizes')
    r = s.sizes()
    e.cover('returns')
    w.check(tag + 'one size per code: the length of its expansion', same(AbsList.segs_of(r), [('H', 'sizes', B)]))
    untouched(e, w, tag, s, B)


def numel(e, w, tag):
    use(w, 'sizes', 'normalize')
    s, B = fused(e, w)
    r = s.numel()
    e.cover('returns')
    w.check(tag + 'number of channels of the expansion', EQ(r, B.total))


def length(e, w, tag):
    s, B = fused(e, w, normal=True)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = w.F.__len__(s)
    e.cover('returns')
    w.check(tag + 'length of an expanded spec is its number of channels', EQ(r, B.total))


class Trap:
    def __getattr__(self, name):
        raise Unsupported('concise looks at the unexpanded codes')

    __iter__ = __len__ = __getitem__ = lambda self, *a: self.none()

    def none(self):
        raise Unsupported('concise looks at the unexpanded codes')


def concise(e, w, tag):
    """the unexpanded codes are out of reach: the result is a function of the expansion, which makes it idempotent"""
    s, B = fused(e, w, normal=False)
    n = w.F(AbsList([('H', 'expand', B)]), _is_normalized=True)
    w.F.normalize = lambda self: n if self is s else (_ for _ in ()).throw(Unsupported('normalize of another spec'))
    s.parsed = Trap()
    w.cuts['concise'] = ConciseCut
    r = s.concise()
    e.cover('returns')
    expands_to(w, tag, 'the shortened spec expands to the same channels (and shortening is idempotent: it reads the expansion only)', r, [('H', 'expand', B)])
    w.check(tag + 'the expansion is not changed', n.parsed.segs == [('H', 'expand', B)])
    valid(e, w, tag, r)


def slice_syntax(e, w, tag):
    kind = e.choose(['range0', 'range'], 'code')
    v = w.code_of(kind)
    _, root, a, b = specc.code_parts(v)
    r = w.mod._parse_concise_slice_syntax(v)
    e.cover('returns')
    w.check(tag + 'root', str_eq(r[0], root))
    w.check(tag + 'first', EQ(r[1], a))
    w.check(tag + 'stop', EQ(r[2], b))
    w.check(tag + 'step', r[3] == 1)


def getitem(e, w, tag):
    use(w, 'normalize', 'sizes', 'numel')
    s, B = fused(e, w)
    how = e.choose(['int', 'list', 'slice'], 'index')
    whole = tuple(hom('expand', [('H', 'id', B)]))
    if how == 'int':
        i = e.fresh('i', True)
        try:
            r = s[i]
        except IndexError:
            e.cover('returns')
            e.check(tag + 'an index error only outside', sym.OR(i >= B.total, i < -B.total))
            return
        e.cover('returns')
        w.check(tag + 'the channel at the index of the expansion', isinstance(r, Elem) and specc.val_eq(r, Elem(whole, i)))
        e.check(tag + 'only inside', AND(i < B.total, i >= -B.total))
    elif how == 'list':
        k = e.choose([0, 1, 2, 3], 'number of indexes')
        ii = [e.fresh('i', True) for _ in range(k)]
        for i in ii:
            e.require(AND(i < B.total, i >= -B.total))
        r = s[e.choose([AbsList.of(ii), tuple(ii)], 'list')]
        e.cover('returns')
        w.check(tag + 'the channels at the indexes', same(AbsList.segs_of(r.parsed), [('I', Elem(whole, i)) for i in ii]))
    else:
        sl = slice(*[e.choose([None, e.fresh('s', True)], 'bound') for _ in range(2)])
        r = s[sl]
        e.cover('returns')
        want = [('sel', whole, ('slice', sl.start, sl.stop, sl.step))]
        if sl == slice(None):
            want = list(whole)
        w.check(tag + 'the channels of the slice', same(AbsList.segs_of(r.parsed), want))
    w.check(tag + 'a fused spec', how == 'int' or type(r) is w.F)
    if how != 'int' and r._is_normalized is not False:
        w.check(tag + 'marked as expanded', True)


def views(e, w, tag):
    """as_list, as_set, as_oset and their other names"""
    use(w, 'normalize')
    s, B = fused(e, w)
    name = e.choose(['as_list', 'to_list', 'as_set', 'to_set', 'as_oset', 'to_oset'], 'method')
    r = getattr(s, name)()
    e.cover('returns')
    want = hom('expand', [('H', 'id', B)])
    w.check(tag + 'the channels of the expansion', same(list(r.segs), want) and isinstance(r, {'list': AbsList, 'set': AbsSet, 'oset': OSet}[name[3:]]))


def stream_text(e, w, label, nonempty=True):
    B = w.base(label)
    w.nonempty = tuple(w.nonempty) + (B,)
    e.require(B.n > 0)
    e.require(B.total > 0)
    t = w.atom('text', label, [('H', 'id', B)])
    w.texts.append((t, [('H', 'id', B)]))
    return t, B


def make_fused(e, w, tag):
    how = e.choose(['parse', 'from_spec', 'coerce text', 'coerce twice', 'coerce list', 'coerce spec', 'coerce stream', 'empty', 'coerce number', 'from_int', 'concat'], 'from')
    F = w.F
    if how in ('parse', 'from_spec', 'coerce text', 'coerce twice'):
        t, B = stream_text(e, w, 's')
        r = F.parse(t) if how == 'parse' else F.from_spec(t) if how == 'from_spec' else F.coerce(t)
        if how == 'coerce twice':
            r = F.coerce(t)
        want = [('H', 'id', B)]
    elif how == 'coerce list':
        B = w.base('codes')
        r = F.coerce(AbsList([('H', 'id', B)]))
        want = [('H', 'id', B)]
    elif how == 'coerce spec':
        s, B = fused(e, w)
        r = F.coerce(s)
        want = [('H', 'id', B)]
    elif how == 'coerce stream':
        t, B = stream_text(e, w, 's')
        r = F.coerce(w.C(t))
        want = [('H', 'id', B)]
    elif how == 'empty':
        r = e.choose([F.parse, F.coerce], 'function')('')
        want = []
    elif how == 'concat':
        a, A = fused(e, w, 'a', normal=False)
        b, B = fused(e, w, 'b', normal=False)
        r = F.concat([a, b])
        want = [('H', 'id', A), ('H', 'id', B)]
    else:
        k = e.choose([0, 1, 2, 4], 'number')
        r = F.coerce(k) if how == 'coerce number' else F.from_int(k)
        want = [('I', 'u%d' % i) for i in range(k)]
    e.cover('returns')
    w.check(tag + 'the codes of the argument', type(r) is F and same(AbsList.segs_of(r.parsed), want))
    valid(e, w, tag, r)


def spec_text(e, w, tag):
    s, B = fused(e, w, nonempty=True)
    r = s.spec
    e.cover('returns')
    w.check(tag + 'the codes separated by |', type(r) is str and len(r) == 1 and same(specc.tokens(r)[0].val, [('H', 'id', B)]))


# streams

def streams(e, w, labels=('s1', 's2', 's3'), most=STREAMS):
    """texts of the streams of a comma separated spec, some of them equal"""
    n = e.choose(list(range(1, most + 1)), 'number of streams')
    out = []
    for i in range(n):
        k = e.choose(['new'] + ['same as %d' % j for j in range(i)], 'stream %d' % i) if i else 'new'
        if k == 'new':
            out.append(stream_text(e, w, labels[i]))
        else:
            j = int(k.rpartition(' ')[2])
            if any(out[m][1] is out[j][1] for m in range(j)):
                raise PathEnd       # the same partition again
            out.append(out[j])
    return out


def uniq(bases):
    out = []
    for B in bases:
        if B not in out:
            out.append(B)
    return out


def merged(w, bases, h):
    """distinct images of streams, in order of first occurrence"""
    out = []
    for B in bases:
        c = w.text([('H', h, B)])
        if c not in [x for x, _ in out]:
            out.append((c, B))
    return out


def chan(e, w):
    st = streams(e, w)
    return w.C.coerce(','.join(t for t, _ in st)), st


def chan_rewrite(meth, h):
    def body(e, w, tag):
        use(w, 'normalize', 'concise', 'sizes', 'numel')
        s, st = chan(e, w)
        r = getattr(s, meth)()
        e.cover('returns')
        want = merged(w, uniq([B for _, B in st]), h)
        w.check(tag + 'a channel spec', type(r) is w.C)
        got = r.parse()
        w.check(tag + 'one stream per distinct result, in order', list(got) == [t for t, _ in want])
        for (t, B), v in zip(want, got.values()):
            w.check(tag + 'the codes of every stream', same(AbsList.segs_of(v.parsed), [('H', h, B)]))
            valid(e, w, tag, v)
        w.check(tag + 'the text lists the streams', r.spec == ','.join(t for t, _ in want))
        w.check(tag + 'the spec itself is unchanged', s.spec == ','.join(t for t, _ in st))
    return body


def chan_parse(e, w, tag):
    s, st = chan(e, w)
    r = s.parse()
    e.cover('returns')
    first = []
    for t, B in st:
        if (t, B) not in first:
            first.append((t, B))
    w.check(tag + 'distinct streams in order', list(r) == [t for t, _ in first])
    for (t, B), v in zip(first, r.values()):
        w.check(tag + 'codes of every stream', type(v) is w.F and same(AbsList.segs_of(v.parsed), [('H', 'id', B)]))
        valid(e, w, tag, v)
    w.check(tag + 'the same again', list(s.parse()) == [t for t, _ in first] and list(s.items()) == list(r.items()) and list(s.values()) == list(r.values()))


def chan_streams(e, w, tag):
    s, st = chan(e, w)
    r = s.streams()
    e.cover('returns')
    w.check(tag + 'one fused spec per stream', len(list(r)) == len(st))
    for (t, B), v in zip(st, r):
        w.check(tag + 'codes of every stream', type(v) is w.F and same(AbsList.segs_of(v.parsed), [('H', 'id', B)]))
    f = s.fuse()
    w.check(tag + 'fusing: the codes of all streams in order', type(f) is w.F and same(AbsList.segs_of(f.parsed), [('H', 'id', B) for _, B in st]))
    valid(e, w, tag, f)


def chan_sizes(e, w, tag):
    use(w, 'sizes', 'numel', 'normalize')
    s, st = chan(e, w)
    r = s.sizes()
    first = {t: B for t, B in st}
    e.cover('returns')
    w.check(tag + 'one entry per distinct stream', list(r) == list(first))
    for t, B in first.items():
        w.check(tag + 'number of channels of every stream', EQ(r[t], B.total))
    w.check(tag + 'total number of channels', EQ(s.numel(), specc.sum_of(B.total for B in first.values())))


def chan_coerce(e, w, tag):
    how = e.choose(['spec', 'fused', 'number', 'text'], 'from')
    if how == 'spec':
        s, st = chan(e, w)
        r = w.C.coerce(s)
        e.cover('returns')
        w.check(tag + 'itself', r is s)
    elif how == 'fused':
        f, B = fused(e, w, nonempty=True)
        r = w.C.coerce(f)
        e.cover('returns')
        p = r.parse()
        w.check(tag + 'one stream', len(p) == 1 and list(p) == [r.spec])
        for v in p.values():
            w.check(tag + 'with the codes', same(AbsList.segs_of(v.parsed), [('H', 'id', B)]))
    elif how == 'number':
        k = e.choose([1, 2, 4], 'number')
        r = w.C.coerce(k)
        e.cover('returns')
        w.check(tag + 'numbered channels', r.spec == '|'.join('u%d' % i for i in range(k)))
    else:
        s, st = chan(e, w)
        e.cover('returns')
        w.check(tag + 'the text', s.spec == ','.join(t for t, _ in st))


def c08(tier):
    F, C = 'FusedChannelSpec.', 'ChannelSpec.'
    return [
        target('expand', normalize, [F + 'normalize', F + '__init__']),
        target('sizes', sizes, [F + 'sizes']),
        target('number of channels', numel, [F + 'numel']),
        target('length', length, [F + '__len__']),
        target('shorten', concise, [F + 'concise']),
        target('range syntax', slice_syntax, ['_parse_concise_slice_syntax']),
        target('index', getitem, [F + '__getitem__']),
        target('list and set forms', views, [F + n for n in ('as_list', 'as_set', 'as_oset')]),
        target('make a fused spec', make_fused, [F + n for n in ('parse', 'from_spec', 'coerce', 'from_int', 'concat')]),
        target('text of a fused spec', spec_text, [F + 'spec']),
        target('make a channel spec', chan_coerce, [C + 'coerce', C + 'from_spec', C + 'from_int', C + '__init__']),
        target('streams of a text', chan_parse, [C + 'parse', C + 'items', C + 'values']),
        target('list of streams', chan_streams, [C + 'streams', C + 'keys', C + 'fuse']),
        target('expand streams', chan_rewrite('normalize', 'expand'), [C + 'normalize']),
        target('shorten streams', chan_rewrite('concise', 'concise'), [C + 'concise']),
        target('sizes of streams', chan_sizes, [C + 'sizes', C + 'numel']),
    ]


# ------------------------------------------------------------------ C09

def left_right(e, w, forms=('spec', 'set')):
    a, A = fused(e, w, 'a')
    form = e.choose(list(forms), 'the other operand')
    if form == 'self':
        return a, A, a, A
    b, B = fused(e, w, 'b')
    if form == 'set':
        e.used.add('a plain set as operand: it holds expanded channels')
        b = AbsSet(hom('expand', [('H', 'id', B)]))
    return a, A, b, B


def ex(B):
    return hom('expand', [('H', 'id', B)])


def algebra(meth, op, forms, want):
    def body(e, w, tag):
        use(w, 'normalize')
        a, A, b, B = left_right(e, w, forms)
        if op and not isinstance(b, AbsSet) and e.choose([False, True], 'operator'):
            r = op(a, b)
        else:
            r = getattr(a, meth)(b)
        e.cover('returns')
        w.check(tag + 'a fused spec', type(r) is w.F)
        w.check(tag + 'the channels of the result, in order', same(AbsList.segs_of(r.parsed), want(w, A, B)), note=text(AbsList.segs_of(r.parsed)))
        valid(e, w, tag, r)
        untouched(e, w, tag, a, A)
        if b is not a and not isinstance(b, AbsSet):
            untouched(e, w, tag, b, B)
    return body


def inclusion(meth, flip):
    def body(e, w, tag):
        use(w, 'normalize')
        a, A, b, B = left_right(e, w)
        r = getattr(a, meth)(b)
        e.cover('returns')
        x, y = w.setkey(ex(A)), w.setkey(ex(B))
        if flip:
            x, y = y, x
        w.check(tag + 'the inclusion of the sets of channels', isinstance(r, Incl) and (r.a, r.b) == (x, y))
    return body


def without(w, A, B):
    return filtered(ex(A), w.setkey(ex(B)), False)


def within(w, A, B):
    return filtered(ex(A), w.setkey(ex(B)), True)


def joined(w, A, B):
    return ex(A) + filtered(ex(B), w.setkey(ex(A)), False)


def algebra_contracts(w):
    F = w.F

    def make(keep):
        def fn(self, other):
            o = other.normalize().parsed if isinstance(other, F) else other
            if not isinstance(o, (AbsList, AbsSet, OSet)):
                raise Unsupported('operand')
            return F(AbsList(filtered(AbsList.segs_of(self.normalize().parsed), w.setkey(o.segs), keep)), _is_normalized=True)
        return fn
    F.difference, F.intersection = make(False), make(True)
    F.__sub__, F.__and__ = F.difference, F.intersection


def stream_algebra(meth, op):
    def body(e, w, tag):
        use(w, 'normalize')
        base = w.F.__mro__[1]
        saved = {k: base.__dict__[k] for k in ('__sub__', '__and__')}
        algebra_contracts(w)
        try:
            sa = streams(e, w, ('a1', 'a2', 'a3'), 2)
            sb = streams(e, w, ('b1', 'b2', 'b3'), 2)
            a = w.C(','.join(t for t, _ in sa))
            form = e.choose(['spec', 'fused', 'text'], 'the other operand') if len(sb) == 1 else e.choose(['spec', 'text'], 'the other operand')
            tb = ','.join(t for t, _ in sb)
            b = {'spec': w.C, 'text': str, 'fused': w.F.parse}[form](tb)
            if form == 'spec' and e.choose([False, True], 'operator'):
                r = op(a, b)
            else:
                r = getattr(a, meth)(b)
        finally:
            for k in ('__sub__', '__and__'):
                if k in w.F.__dict__:
                    delattr(w.F, k)
        e.cover('returns')
        A = merged(w, uniq([B for _, B in sa]), 'expand')
        if meth == 'union':
            B = merged(w, uniq([B for _, B in sb]), 'expand')
            want = [t for t, _ in A + B]
        else:
            k = w.setkey([s for _, x in sb for s in ex(x)])
            want = []
            for _, x in A:
                L = AbsList(filtered(norm(ex(x)), k, meth == 'intersection'))
                if L._v_len() > 0:
                    want.append(w.text(L.segs))
        w.check(tag + 'a channel spec', type(r) is w.C)
        w.check(tag + 'the streams of the result, without empty ones', r.spec == ','.join(want), note='%s for %s' % (show(r.spec), show(','.join(want))))
        w.check(tag + 'the operands are unchanged', a.spec == ','.join(t for t, _ in sa) and (form == 'text' or b.spec == tb))
    return body


def c09(tier):
    import operator
    F, C = 'FusedChannelSpec.', 'ChannelSpec.'
    out = []
    for m, op, forms, want in (('difference', operator.sub, ('spec', 'set'), without), ('intersection', operator.and_, ('spec', 'set'), within),
                               ('union', operator.or_, ('spec',), joined)):
        name = {'difference': '__sub__', 'intersection': '__and__', 'union': '__or__'}[m]
        out.append(target(m, algebra(m, op, forms, want), [F + m, 'BaseChannelSpec.' + name]))
        out.append(target(m + ' of streams', stream_algebra(m, op), [C + m]))
    out.append(target('subset', inclusion('issubset', False), [F + 'issubset']))
    out.append(target('superset', inclusion('issuperset', True), [F + 'issuperset']))
    return out


# ------------------------------------------------------------------ C10

PACK = [k for k in ALIAS] + ['name', 'index']


def fused_ranges(e, w, tag):
    w.kinds = PACK
    e.used.add('known finding: component_indices of a fused spec is claimed for specs without range codes only')
    axis = e.choose([0, 1, 2, 3], 'axis')
    s, B = fused(e, w)
    v = Where(w, axis)
    w.cuts['component_indices'] = lambda l, x: HomCut(l, x, None, v)
    r = s.component_indices(axis=axis)
    e.cover('returns')
    w.check(tag + 'exactly one range per code, in order', isinstance(r, AbsDict) and not dict.__len__(r) and [f.base for f in r.segs] == [B] and r.segs[0].what is v)
    untouched(e, w, tag, s, B)


def stream_cuts(w, make):
    """cut the loop over the codes of a stream; the specification depends on the stream"""
    def cut(loop, seg):
        c = HomCut(loop, seg)
        c.value = make(c.B)
        return c
    return cut


def chan_ranges(e, w, tag):
    use(w, 'sizes', 'numel', 'normalize')
    axis = e.choose([0, 1, 2, 3], 'axis')
    s, st = chan(e, w)
    texts = {B: t for t, B in st}
    vals = {B: Where(w, axis, key=t) for B, t in texts.items()}
    w.cuts['component_indices'] = stream_cuts(w, vals.__getitem__)
    r = s.component_indices(axis=axis)
    e.cover('returns')
    w.check(tag + 'exactly one range per code, in order', isinstance(r, AbsDict) and not dict.__len__(r) and
            [(f.base, f.what) for f in r.segs] == [(B, vals[B]) for B in texts])


def decode(e, w, tag):
    use(w, 'sizes', 'numel', 'normalize')
    axis = e.choose([0, 1, 2, 3], 'axis')
    s, st = chan(e, w)
    arrs = {t: Arr(t) for t, _ in st}
    vals = {B: Where(w, axis, arr=arrs[t]) for t, B in st}
    w.cuts['decode'] = stream_cuts(w, vals.__getitem__)
    r = s.decode(dict(arrs), axis=axis)
    e.cover('returns')
    w.check(tag + 'exactly one array per code, in order', isinstance(r, AbsDict) and not dict.__len__(r) and [(f.base, f.what) for f in r.segs] == list(vals.items()))


def items(e, w, most=2):
    n = e.choose(list(range(1, most + 1)), 'number of packed inputs')
    return [stream_text(e, w, 'item%d' % i) for i in range(n)]


def distinct_streams(e, w, most=2):
    n = e.choose(list(range(1, most + 1)), 'number of streams')
    return [stream_text(e, w, 's%d' % i) for i in range(n)]


def find_all(w, fn, result, want=lambda x, v: None):
    """a comprehension that looks up every code of a sequence"""
    def comp(kind, it, one, test):
        from pyver.sym import eng
        e = eng()
        if kind not in ('ListComp', 'GeneratorExp') or not isinstance(it, AbsList) or len(it.segs) != 1:
            raise Unsupported('comprehension')
        s = norm(it.segs)[0]
        if s[0] != 'H' or s[1] != 'id':
            raise Unsupported('comprehension over %s' % (s[:2],))
        if e.choose(['element', 'all'], 'comprehension in ' + fn) == 'element':
            x = w.element(s[2])
            if test(x)[0] is not True:
                raise Unsupported('condition')
            v = one(x)[0]
            f = w.loc.get(x)
            w.check(w.tag + 'lookup in %s: the entry of the code' % fn, f is not None and f.what.matches(v, x))
            e.cover('an iteration')
            raise PathEnd
        return result(s[2])
    return comp


def mapping(e, w, tag):
    """where the codes of every stream are packed, neighbours merged"""
    e.used.add('known finding: packing is claimed for codes with at least one channel')
    w.minimum = 1
    axis = w.axis = e.choose([0, 1, 2], 'axis')
    it = items(e, w)
    st = distinct_streams(e, w)
    w.item_keys = [t for t, _ in it]
    bases = dict(it)

    def single(key, axis=0):
        if axis != w.axis or key not in bases:
            w.check(tag + 'ranges of the packed inputs on the axis', False)
        d = AbsDict()
        v = Where(w, axis, key=key)
        d.segs.append(Filled(bases[key], v.make, v))
        return d
    w.mod._cached_single_stream_idxs = single
    fn = '_cached_single_fused_mapping'

    def cut(loop, seg):
        if seg[0] == 'Y':
            return CopyCut(loop, seg)
        if seg[0] == 'G':
            return specc.GroupCut(loop, seg)
        if seg[0] == 'H' and seg[1] == 'piece':
            return specc.MergeCut(loop, seg)
        raise Unsupported('loop over %s' % (seg[:2],))
    w.cuts[fn] = cut
    w.comps[fn] = find_all(w, fn, lambda S: AbsList([('H', 'piece', S)]))
    r = w.mod._cached_single_fused_mapping(tuple(w.item_keys), tuple((t, AbsList([('H', 'id', B)])) for t, B in st), axis=axis)
    e.cover('returns')
    w.check(tag + 'one entry per stream', list(r) == [t for t, _ in st])
    for t, B in st:
        w.check(tag + 'the pieces hold the data of the codes of the stream, in order', specc.same_data(w, AbsList.segs_of(r[t]), [('H', 'piece', B)]))


def single_idxs(e, w, tag):
    t, B = stream_text(e, w, 'item')
    axis = e.choose([0, 1, 2], 'axis')
    mark = AbsDict()
    calls = []
    w.C.component_indices = lambda self, axis=2: calls.append((self.spec, axis)) or mark
    r = w.mod._cached_single_stream_idxs(t, axis=axis)
    e.cover('returns')
    w.check(tag + 'the ranges of the spec on the axis', r is mark and calls == [(t, axis)])


class Api:
    def __init__(self, w, axis):
        self.w, self.axis = w, axis

    def cat(self, parts, axis=0):
        if axis != self.axis:
            self.w.check(self.w.tag + 'packing stacks along the axis', False)
        if isinstance(parts, AbsList) and len(parts.segs) == 1 and parts.segs[0][0] == 'A':
            return specc.Data(parts.segs[0][1])
        raise Unsupported('cat of other arrays')

    def __getattr__(self, name):
        raise Unsupported('ArrayAPI.' + name)


def encode(mode):
    def body(e, w, tag):
        use(w, 'sizes', 'numel', 'normalize')
        axis = w.axis = e.choose([0, 1, 2], 'axis')
        w.api = Api(w, axis)
        it = items(e, w)
        st = distinct_streams(e, w)
        w.item_keys = [t for t, _ in it]
        arrs = {t: Arr(t) for t, _ in it}
        bases = dict(it)
        if mode == 0:
            e.used.add('known finding: packing mode 0 is claimed for codes that are channels only')
            for _, B in it + st:
                B.norm = True

            def dec(self, inputs, axis=1):
                k = self.spec
                if axis != w.axis or k not in bases or list(inputs) != [k] or inputs[k] is not arrs[k]:
                    w.check(tag + 'every input is unpacked along the axis', False)
                d = AbsDict()
                v = Where(w, axis, arr=arrs[k])
                d.segs.append(Filled(bases[k], v.make, v))
                return d
            w.C.decode = dec
            w.cuts['encode'] = CopyCut
            w.comps['encode'] = find_all(w, 'encode', lambda S: AbsList([('A', S)]))
        else:
            def mapping(item_keys, parsed_items, axis=0):
                ok = sorted(item_keys) == sorted(arrs) and axis == w.axis
                got = {t: c for t, c in parsed_items}
                ok = ok and list(sorted(got)) == sorted(t for t, _ in st) and all(same(AbsList.segs_of(got[t]), [('H', 'id', B)]) is True for t, B in st)
                w.check(tag + 'asks for all streams and all inputs', ok)
                return AbsDict({t: AbsList([('Q', B)]) for t, B in st})
            w.mod._cached_single_fused_mapping = mapping

            def comp(kind, x, one, test):
                if kind not in ('ListComp', 'GeneratorExp') or not isinstance(x, AbsList) or len(x.segs) != 1 or x.segs[0][0] != 'Q':
                    raise Unsupported('comprehension')
                if e.choose(['element', 'all'], 'comprehension in encode') == 'element':
                    p = (e.choose(w.item_keys, 'packed in'), specc.along(axis, e.nat('start'), e.nat('stop')))
                    if test(p)[0] is not True:
                        raise Unsupported('condition')
                    v = one(p)[0]
                    w.check(tag + 'the data of every piece', isinstance(v, specc.Part) and v.arr is arrs[p[0]] and v.index == p[1])
                    e.cover('an iteration')
                    raise PathEnd
                n = specc.setmemo(('pieces', ('A', x.segs[0][1].name)))
                e.require(n >= 1)
                return AbsList([('A', x.segs[0][1])])
            w.comps['encode'] = comp
        s = w.C(','.join(t for t, _ in st))
        r = s.encode(dict(arrs), axis=axis, mode=mode)
        e.cover('returns')
        w.check(tag + 'one array per stream', list(sorted(r)) == sorted(t for t, _ in st))
        for t, B in st:
            w.check(tag + 'the data of the codes of the stream, in order', isinstance(r[t], specc.Data) and r[t].base is B)
    return body


Where = specc.Where
Arr = specc.Arr


def c10(tier):
    F, C = 'FusedChannelSpec.', 'ChannelSpec.'
    return [
        target('ranges of a fused spec', fused_ranges, [F + 'component_indices']),
        target('ranges of streams', chan_ranges, [C + 'component_indices']),
        target('ranges of one input', single_idxs, ['_cached_single_stream_idxs']),
        target('unpack', decode, [C + 'decode']),
        target('places', mapping, ['_cached_single_fused_mapping']),
        target('pack', encode(1), [C + 'encode']),
        target('pack, mode 0', encode(0), [C + 'encode']),
        target('sizes', sizes, [F + 'sizes']),
    ]
