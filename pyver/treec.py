"""Contract targets on operation trees: the bodies of optimize of every node class"""
import traceback
from pyver import sym, nodes, facade, replay
from pyver.nodes import AbsNode, World, SymNames, den_checks, Bad, NAN
from pyver.sym import EQ, AND, OR, NOT, Unsupported, SymBool, SymNum, Control

KINDS = ('load', 'ident', 'nans', 'nodata', 'warp', 'crop', 'overview', 'dequant', 'concat')
ROOT = 'DelayedImageLeaf'


def check_eq(e, name, goal):
    if goal is False:
        e.fail(name, 'differs')
    elif goal is True:
        e.check(name, True)
    else:
        e.check(name, goal)


def check_result(e, w, tag, props, pre, res):
    """res satisfies the contract of optimize for the view described by pre"""
    if 'C01' in props:
        d = res.dsize
        if d is None:
            e.fail(tag + 'result has a size', 'dsize is None')
        else:
            e.check(tag + 'width is kept', EQ(d[0], pre['dsize'][0]))
            e.check(tag + 'height is kept', EQ(d[1], pre['dsize'][1]))
        n = res.num_channels
        if n is None:
            e.fail(tag + 'number of channels is kept', 'unknown')
        else:
            e.check(tag + 'number of channels is kept', EQ(n, pre['n']))
        if pre['names'] is not None:
            c = res.channels
            if not isinstance(c, SymNames):
                e.fail(tag + 'channel names are kept', 'channels are %r' % (c,))
            else:
                check_den(e, tag + 'channel names are kept', pre['names'].den, c.den)
        for what, g in w.valid_checks(res):
            e.check(tag + 'result is a valid view: ' + what, g)
    if 'C02' in props:
        try:
            d = w.den(res)
        except Bad as ex:
            e.fail(tag + 'origin of every channel is kept', str(ex))
        else:
            check_den(e, tag + 'origin of every channel is kept', pre['den'], d)


def check_den(e, name, a, b):
    c = den_checks(a, b)
    if c is None:
        e.undecided(name, 'cannot align {} and {}'.format(nodes.resolve(a), nodes.resolve(b)))
        return
    if not c:
        e.check(name, True)
    for what, g in c:
        if g is False:
            e.fail(name, what)
        else:
            e.check(name, g, note=what)


def describe(w, node):
    return dict(dsize=node.dsize, n=node.num_channels, names=node.channels, den=w.den(node))


def run_body(e, w, tag, fn, props):
    try:
        return True, fn()
    except Control:
        raise
    except Bad as ex:
        raise Unsupported('denotation: %s' % ex)
    except Exception as ex:
        classify(e, tag, ex)
        return False, None


def classify(e, tag, ex):
    """an exception that escapes code under contract"""
    tb = ex.__traceback__
    frames = traceback.extract_tb(tb)
    last = frames[-1]
    where = '{}:{} {}'.format(last.filename.rpartition('/')[2], last.lineno, last.line)
    repo = 'delayed_image' in last.filename and '/verif' not in last.filename
    line = (last.line or '').strip()
    explicit = repo and (line.startswith('raise') or isinstance(ex, AssertionError))
    nonerr = isinstance(ex, AttributeError) and (getattr(ex, 'obj', 0) is None or hasattr(getattr(ex, 'obj', 0), 'meta'))
    lookup = repo and type(ex) in (KeyError, IndexError, UnboundLocalError, NameError, ZeroDivisionError)
    none_use = isinstance(ex, TypeError) and 'NoneType' in str(ex) and repo
    note = '{}: {} at {}'.format(type(ex).__name__, ex, where)
    if explicit or (repo and nonerr) or lookup or none_use:
        e.fail(tag + 'no exception', note, extra=traceback.format_exc(limit=-6))
    else:
        e.undecided(tag + 'no exception', note, tb=ex)


class OptimizeTarget:
    def __init__(self, kind, memo=False, same=False, nocat=False):
        self.nocat = nocat
        self.kind = kind
        self.memo = memo
        self.same = same
        self.name = 'optimize[{}{}{}{}]'.format(kind, ' memo' if memo else '', ' same' if same else '', ' nocat' if nocat else '')

    def functions(self, w):
        cls = w.cls[self.kind] if self.kind in w.cls else w.asx
        out = []
        for nm in ('optimize',):
            f = w.body(cls, nm)
            out.append('{}.{}'.format(f.__module__, f.__qualname__))
        return out

    def run(self, e, w, props):
        w.reset()
        w.install_contracts()
        w.same_choice = self.same
        w.use = set(nodes.METHODS)
        sub = w.fresh_view('v', kinds=(self.kind,) if self.kind in w.cls else nodes.ALL, nocat=self.nocat)
        if self.kind in w.cls:
            node = AbsNode.real(sub)
        else:
            node = w.asx(sub)
        pre = describe(w, node)
        snap = w.snapshot(node)
        ctx = w.base.OptimizeContext()
        e.on_refuted = lambda model: replay.cases(e, w, node, model, props)
        body = w.body(type(node))
        tag = '{}.optimize: '.format(type(node).__name__)
        if self.memo:
            given = nodes.AbsNode(w, pre['den'], pre['dsize'], pre['names'], pre['n'], label='memo', nf='R', result=True, nocat=self.nocat)
            ctx.memo[node] = given
        ok, res = run_body(e, w, tag, lambda: body(node, ctx), props)
        if ok:
            e.cover(tag + 'returns')
            check_result(e, w, tag, props, pre, res)
            if self.kind in nodes.LEAF and res is not node:
                e.undecided(tag + 'a source is its own optimized form', '')
            if not w.normal(res):
                e.undecided(tag + 'result is in the normal form of optimized trees', '')
            if self.nocat and not w.catfree(res):
                e.undecided(tag + 'no concatenation is introduced', '')
            for k, v in list(ctx.memo.items()):
                if k is not node or v is not res:
                    check_result(e, w, tag + 'memo: ', props, describe(w, k) if k is not node else pre, v)
        if 'C04' in props:
            check_frame(e, w, tag, [(node, snap)])
            if ok and not self.memo and not self.same and not (self.kind in nodes.LEAF):
                own = res is node or type(res) is AbsNode and not object.__getattribute__(res, '_i').result
                if own:
                    e.undecided(tag + 'result is a new node or an optimized one', repr(res))
                else:
                    e.check(tag + 'result is a new node or an optimized one', True)


class MethodTarget:
    """a helper method of optimize against its own contract (nodes.METHODS)"""
    def __init__(self, kind, method):
        self.kind = kind
        self.method = method
        self.name = '{}[{}]'.format(method, kind)

    def functions(self, w):
        f = w.orig_methods.get((self.kind, self.method))
        return [] if f is None else ['{}.{}'.format(f.__module__, f.__qualname__)]

    def run(self, e, w, props):
        w.reset()
        w.install_contracts()
        w.use = set()
        body = w.orig_methods.get((self.kind, self.method))
        if body is None:
            return
        kinds, nf, modifies = nodes.METHODS[self.kind, self.method]
        view = w.fresh_view('v', kinds=(self.kind,), nf='R')
        node = AbsNode.real(view)
        if self.method == '_opt_warp_after_crop':
            if not AbsNode.is_in(node.subdata, ('warp',)):
                raise sym.PathEnd
        pre = describe(w, node)
        snap = w.snapshot(node)
        e.on_refuted = lambda model: replay.cases(e, w, node, model, props)
        tag = '{}.{}: '.format(type(node).__name__, self.method)
        ok, res = run_body(e, w, tag, lambda: body(node), props)
        if ok:
            if res is node:
                e.cover(tag + 'returns its argument')
            else:
                e.cover(tag + 'returns a new view')
                check_result(e, w, tag, props, pre, res)
                k = w.kind(AbsNode.real(res) if type(res) is AbsNode and len(AbsNode.possible(res)) == 1 else res)
                if type(res) is AbsNode:
                    inside = AbsNode.possible(res) <= set(kinds)
                    owner = object.__getattribute__(res, '_i')
                    new = owner.result or owner.fresh
                else:
                    inside = k in kinds
                    new = True
                if not inside:
                    e.undecided(tag + 'kind of the result', repr(res))
                if not new:
                    e.undecided(tag + 'the result is a new node', repr(res))
                if not w.catfree(res):
                    e.undecided(tag + 'no concatenation is introduced', '')
                if nf and not w.normal(res):
                    e.undecided(tag + 'result is in the normal form of optimized trees', '')
        if 'C04' in props:
            check_frame(e, w, tag, [] if modifies and ok and res is not node else [(node, snap)], skip=node if modifies and ok and res is not node else None)


def check_frame(e, w, tag, own, skip=None):
    items = list(own)
    for a in w.abs:
        i = object.__getattribute__(a, '_i')
        if i.real is not None and i.snap is not None and not i.fresh and i.real is not skip:
            items.append((i.real, i.snap))
    for real, snap in items:
        ch = w.frame_changes(real, snap)
        if not ch:
            e.check(tag + 'existing nodes are not changed', True)
        for k, g in ch:
            if g is False:
                e.fail(tag + 'existing nodes are not changed', '%s of %s' % (k, type(real).__name__))
            else:
                e.check(tag + 'existing nodes are not changed', g, note=k)
