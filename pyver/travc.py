"""Contract targets on the traversals of operation trees (C18)

Every traversal is a loop over a stack of pending entries.  The loop is cut at its head by
an invariant: what was produced so far together with what the pending entries stand for is
exactly what the tree of the view stands for (as bags; an entry (parent, x) stands for the
pairs of the whole subtree of x).  The first evaluation of the loop condition checks the
invariant for the start and goes on with either an arbitrary state that satisfies it (any
tree, any stack, any earlier results) or an empty stack; the second one checks the invariant after one
iteration on one arbitrary pending entry.  Display expressions ([..], {..}) are wrapped mechanically to get
hold of the containers a function creates; any other state that survives an iteration makes the obligation
undecided."""
import ast
import collections
import copy
import itertools
import sys
import types
from collections import Counter
from pyver import sym, load
from pyver.load import Env
from pyver.sym import Control, PathEnd, Unsupported
from pyver.treec import classify
from pyver.viewc import Fn

ARITY = 3
A_CUT = 'loop rule: one arbitrary iteration from an arbitrary state that satisfies the invariant (pyver.travc); termination by the finite depth of the tree is assumed'
A_ARITY = 'stated bound: operations with at most %d inputs (the iteration over the inputs of one operation is unrolled)' % ARITY


class Wrap(ast.NodeTransformer):
    """wrap displays inside of functions"""
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [self.visit(x) for x in n.body]
        self.depth -= 1
        return n

    visit_AnnAssign = lambda self, n: self.ann(n)       # noqa

    def ann(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def wrap(self, n):
        self.generic_visit(n)
        if not self.depth or isinstance(getattr(n, 'ctx', ast.Load()), ast.Store):
            return n
        return ast.copy_location(ast.Call(ast.Name('__v_display__', ast.Load()), [n], []), n)

    visit_List = visit_Dict = visit_Set = wrap


class Kid:
    """an input that is not looked at in this iteration: an arbitrary subtree"""
    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def __getattr__(self, name):
        if name.startswith('_v_') or name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s of an input of an arbitrary operation' % name)

    def __setattr__(self, k, v):
        raise Unsupported('assignment to an input')

    def __bool__(self):
        raise Unsupported('truth of an operation')

    def __repr__(self):
        return self.name


class State:
    """of one run of a function under contract"""
    def __init__(self, e, w, tag, names):
        self.e, self.w, self.tag, self.names = e, w, tag, names
        self.phase = 0          # 0 before the loop, 1 in an iteration, 2 after the loop
        self.stack = None
        self.consumed = []
        self.snap = None
        self.counters, self.graphs = [], []
        self.exit = False

    def head(self, lst, frame):
        e = self.e
        if frame.f_code.co_name not in self.names:
            raise Unsupported('loop in %s' % frame.f_code.co_name)
        if self.phase == 0:
            if self.stack is not None:
                raise Unsupported('several stacks')
            self.stack = lst
            self.spec.start(list(list.__iter__(lst)))
            self.frame = frame.f_code
            self.line = frame.f_lineno
            keep = {}
            for k, v in frame.f_locals.items():
                if not (isinstance(v, (int, str, type(None), types.ModuleType, types.FunctionType, type, GList, GDict, GSet, Count, Graph)) or v is self.spec.root):
                    raise Unsupported('loop state %s of type %s' % (k, type(v).__name__))
                keep[k] = v
            self.snap = keep
            self.phase = 1
            lst.clear_()
            if e.choose(['iteration', 'end'], 'loop') == 'end':
                self.phase = 2
                self.exit = True
                self.spec.finished()
                return False
            self.spec.arbitrary()
            lst.rest = True
            return True
        if self.phase == 2:
            return False
        if lst is not self.stack or frame.f_code is not self.frame:
            raise Unsupported('another loop')
        for k, v in self.snap.items():
            if k not in frame.f_locals or frame.f_locals[k] is not v:
                raise Unsupported('the loop keeps state in %s' % k)
        if not self.consumed:
            raise Unsupported('an iteration that takes nothing from the stack')
        self.spec.step(self.consumed, list(list.__iter__(lst)))
        e.cover('returns')
        raise PathEnd


class GList(list):
    """a list made in the function"""
    def __init__(self, st, items):
        list.__init__(self, items)
        self.st, self.born, self.rest = st, st.phase, False

    def clear_(self):
        list.clear(self)

    def mine(self):
        if self.st.phase != self.born and self is not self.st.stack:
            raise Unsupported('a list that survives an iteration')

    def __bool__(self):
        if self.born == 0 and (self.st.stack in (None,) or self.st.stack is self) and self.st.spec.is_stack(self):
            return self.st.head(self, sys._getframe(1))
        if self.st.stack is self:
            return self.st.head(self, sys._getframe(1))
        self.mine()
        return list.__len__(self) > 0

    def _v_len(self):
        if self.st.stack is self or self.born == 0 and self.st.stack is None and self.st.spec.is_stack(self):
            raise Unsupported('length of the stack')
        return list.__len__(self)

    def take(self, i):
        self.mine()
        if list.__len__(self):
            return list.pop(self, i)
        if self.rest:
            if self.st.consumed:
                raise Unsupported('an iteration that takes several entries')
            x = self.st.spec.entry()
            self.st.consumed.append(x)
            return x
        return list.pop(self, i)

    def pop(self, i=-1):
        if self.st.stack is self and i not in (0, -1):
            raise Unsupported('pop')
        return self.take(i)

    def popleft(self):
        return self.take(0)

    def append(self, x):
        self.mine()
        list.append(self, x)

    appendleft = append

    def extend(self, xs):
        self.mine()
        list.extend(self, xs)

    extendleft = extend

    def insert(self, i, x):
        self.mine()
        list.insert(self, i, x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __iter__(self):
        if self is self.st.stack:
            raise Unsupported('iteration over the stack')
        self.mine()
        return list.__iter__(self)

    def __getitem__(self, i):
        if self is self.st.stack:
            raise Unsupported('element of the stack')
        self.mine()
        return list.__getitem__(self, i)

    def __copy__(self):
        return list(list.__iter__(self))

    __hash__ = object.__hash__


def guarded(base):
    def deny(name):
        def m(self, *a, **k):
            if self.st.phase != self.born:
                raise Unsupported('a %s that survives an iteration' % base.__name__)
            return getattr(base, name)(self, *a, **k)
        return m
    ns = {n: deny(n) for n in dir(base) if callable(getattr(base, n)) and n not in (
        '__new__', '__init__', '__class__', '__getattribute__', '__init_subclass__', '__subclasshook__', '__setattr__', '__delattr__', '__dir__',
        '__class_getitem__', '__hash__', '__repr__', '__str__', '__reduce__', '__reduce_ex__', '__sizeof__', '__format__', '__getstate__')}

    def init(self, st, *a):
        base.__init__(self, *a)
        self.st, self.born = st, st.phase
    ns['__init__'] = init
    return type('G' + base.__name__, (base,), ns)


GDict, GSet = guarded(dict), guarded(set)


class Count:
    """itertools.count"""
    def __init__(self, st, start=0):
        self.st, self.n = st, start
        st.counters.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        v = self.n
        self.n = v + 1
        return v


class Num:
    """the number of an earlier iteration; its decimal digits are a name of its own"""
    def __init__(self, base, add=0):
        self.base, self.add = base, add

    def __add__(self, o):
        return Num(self.base, self.add + o)

    def __format__(self, spec):
        if spec.strip('0123456789') not in ('', 'd'):
            raise Unsupported('format of a counter')
        return '<%s+%d>' % (self.base, self.add)

    __str__ = lambda self: format(self)     # noqa

    def __getattr__(self, name):
        raise Unsupported('counter')


class Graph:
    """networkx.DiGraph that only grows"""
    def __init__(self, st):
        self.st = st
        self.items, self.edge_list, self.before = {}, [], False
        st.graphs.append(self)

    def add_node(self, n, **attrs):
        self.items.setdefault(n, {}).update(attrs)

    def add_edge(self, u, v, **attrs):
        for n in (u, v):
            if n not in self.items and n not in self.st.spec.known:
                self.items[n] = {}
        self.edge_list.append((u, v))

    def add_nodes_from(self, ns, **attrs):
        for n in ns:
            self.add_node(n, **attrs)

    def add_edges_from(self, es):
        for u, v in es:
            self.add_edge(u, v)

    @property
    def nodes(self):
        return Nodes(self)

    def number_of_nodes(self):
        return Nodes(self)._v_len()

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_v_'):
            raise AttributeError(name)
        raise Unsupported('graph.%s' % name)


class Nodes:
    def __init__(self, g):
        self.g = g

    def _v_len(self):
        if self.g.before:
            raise Unsupported('number of nodes')
        return len(self.g.items)

    def __len__(self):
        return self._v_len()

    def __getitem__(self, n):
        if n not in self.g.items and self.g.before:
            raise Unsupported('an earlier node')
        return self.g.items[n]

    def __call__(self, data=False):
        if self.g.before:
            raise Unsupported('iteration over the nodes')
        return [(n, d) for n, d in self.g.items.items()] if data else list(self.g.items)

    def __iter__(self):
        return iter(self())

    def __contains__(self, n):
        if self.g.before and n not in self.g.items:
            raise Unsupported('an earlier node')
        return n in self.g.items


class World:
    def __init__(self, repo):
        self.st = None
        nx = types.ModuleType('networkx')
        nx.DiGraph = lambda: Graph(self.st)
        it = types.ModuleType('itertools')
        it.__dict__.update({k: v for k, v in vars(itertools).items() if not k.startswith('__')})
        it.count = lambda start=0, step=1: Count(self.st, start)
        col = types.ModuleType('collections')
        col.__dict__.update({k: v for k, v in vars(collections).items() if not k.startswith('__')})
        col.deque = lambda items=(): GList(self.st, items)
        cut = {m: lambda t: Wrap().visit(t) for m in ('delayed_image.delayed_base', 'delayed_image.delayed_nodes')}
        self.env = Env(repo, {'networkx': nx, 'itertools': it, 'collections': col}, cut=cut)
        self.env.builtins['__v_display__'] = self.display
        self.base = self.env.module('delayed_image.delayed_base')
        self.leafs = self.env.module('delayed_image.delayed_leafs')
        self.nodes = self.env.module('delayed_image.delayed_nodes')

    def display(self, x):
        st = self.st
        if st is None:
            return x
        return {list: GList, dict: GDict, set: GSet}[type(x)](st, x)

    def reset(self):
        self.st = None

    def install_contracts(self):
        pass

    def classes(self):
        un, na, lf = [], [], []
        B = self.base
        for m in (self.nodes, self.leafs):
            for c in vars(m).values():
                if isinstance(c, type) and issubclass(c, B.DelayedOperation) and c.__module__ == m.__name__:
                    if issubclass(c, B.DelayedNaryOperation):
                        na.append(c)
                    elif issubclass(c, self.leafs.DelayedImageLeaf):
                        lf.append(c)
                    elif issubclass(c, B.DelayedUnaryOperation):
                        un.append(c)
        return un, na, lf


def make(e, w, c, sub=None, parts=None):
    """an operation of class c with arbitrary inputs"""
    x = object.__new__(c)
    x.meta = {'k': object()}
    x._opt_logs = []
    if parts is not None:
        x.parts = list(parts)
    else:
        x.subdata = sub
    return x


def kids(x):
    if hasattr(x, 'parts'):
        return list(x.parts)
    return [] if x.subdata is None else [x.subdata]


def arbitrary(e, w, leaf=None, names='x'):
    un, na, lf = w.classes()
    opts = ([] if leaf is True else ['unary', 'nary']) + ([] if leaf is False else ['leaf'])
    k = e.choose(opts, 'operation')
    if k == 'unary':
        return make(e, w, e.choose(un, 'class'), sub=Kid('input of ' + names))
    if k == 'leaf':
        return make(e, w, e.choose(lf, 'class'))
    c = e.choose(na, 'class')
    n = e.choose(list(range(1, ARITY + 1)), 'inputs')
    if n >= 2 and e.choose([False, True], 'the same input twice'):
        one = Kid('shared input of ' + names)
        return make(e, w, c, parts=[one] * n)
    return make(e, w, c, parts=[Kid('input %d of %s' % (i, names)) for i in range(n)])


class Spec:
    """what the entries of the stack stand for"""
    def __init__(self, e, w, tag):
        self.e, self.w, self.tag = e, w, tag
        self.out = []
        self.known = set()
        self.frames = []
        self.root = self.node(leaf=False, names='the view')

    def node(self, **k):
        x = arbitrary(self.e, self.w, **k)
        self.keep(x)
        return x

    def keep(self, x):
        self.frames.append((x, dict(x.meta), kids(x)))

    def untouched(self):
        for x, meta, k in self.frames:
            self.e.check(self.tag + 'the operations are not modified', x.meta == meta and len(kids(x)) == len(k) and all(a is b for a, b in zip(kids(x), k)))

    def start(self, entries):
        good = [self.tokens(x) for x in entries]
        if any(g is None for g in good):
            raise Unsupported('entries of the stack')
        got = Counter(itertools.chain.from_iterable(good)) + self.made()
        self.e.check(self.tag + 'starts with the view', got == Counter(self.whole()))

    def arbitrary(self):
        self.out.clear()

    def finished(self):
        self.out.clear()

    def step(self, consumed, entries):
        good = [self.tokens(x) for x in entries]
        if any(g is None for g in good):
            raise Unsupported('entries of the stack')
        got = Counter(itertools.chain.from_iterable(good)) + self.made()
        want = Counter(itertools.chain.from_iterable(self.expand(x) for x in consumed))
        self.e.check(self.tag + self.post, got == want, note='{} instead of {}'.format(dict(got), dict(want))[:600])
        self.untouched()

    def end(self):
        self.e.check(self.tag + 'nothing else is produced', not self.made())


class Pairs(Spec):
    post = 'every operation once, with the operation that uses it'

    def is_stack(self, lst):
        return len(lst) > 0 and all(type(x) is tuple and len(x) == 2 for x in list.__iter__(lst))

    def tokens(self, x):
        if type(x) is tuple and len(x) == 2:
            return [('subtree', id(x[0]), id(x[1]))]

    def whole(self):
        return [('subtree', id(None), id(self.root))]

    def made(self):
        return Counter(('pair', id(a), id(b)) for a, b in self.out)

    def entry(self):
        self.x = self.node(names='x')
        self.p = None if self.e.choose([False, True], 'the view itself') else Kid('parent')
        return (self.p, self.x)

    def expand(self, ent):
        p, x = ent
        return [('pair', id(p), id(x))] + [('subtree', id(x), id(c)) for c in kids(x)]


class Leafs(Spec):
    post = 'exactly the operations without inputs'

    def is_stack(self, lst):
        return len(lst) > 0

    def tokens(self, x):
        if isinstance(x, (Kid, self.w.base.DelayedOperation)):
            return [('leafs', id(x))]

    def whole(self):
        return [('leafs', id(self.root))]

    def made(self):
        return Counter(('leaf', id(x)) for x in self.out)

    def entry(self):
        self.x = self.node(names='x')
        return self.x

    def expand(self, x):
        return [('leafs', id(c)) for c in kids(x)] or [('leaf', id(x))]


class Paths(Spec):
    post = 'the chain of operations from the view to each leaf'
    LONG = 4

    def is_stack(self, lst):
        return len(lst) > 0 and all(isinstance(x, list) for x in list.__iter__(lst))

    def tokens(self, x):
        if isinstance(x, list):
            return [('below',) + tuple(id(v) for v in list.__iter__(x))]

    def whole(self):
        return [('below', id(self.root))]

    def made(self):
        out = Counter()
        for leaf, top in self.out:
            chain = []
            x = top
            while x is not None:
                chain.append((type(x), id(x.meta['k']) if 'k' in x.meta and len(x.meta) == 1 else None))
                if hasattr(x, 'parts'):
                    chain.append('a concatenation')
                    break
                if x.subdata is None and x is not leaf:
                    chain.append('not the leaf')
                x = x.subdata
            out[('path', id(leaf)) + tuple(chain)] += 1
        return out

    def entry(self):
        e = self.e
        x = e.choose(['leaf', 'inner'], 'end of the path')
        n = e.choose(list(range(1, self.LONG + 1)) if x == 'leaf' else [1, 2], 'length of the path')
        un, na, lf = self.w.classes()
        if x == 'inner':
            node = self.node(leaf=False, names='x')
        else:
            node = make(e, self.w, e.choose(lf[:1], 'class'))
            self.keep(node)
        path = [node]
        for i in range(n - 1):
            if e.choose(['unary', 'nary'], 'operation %d' % i) == 'unary':
                up = make(e, self.w, un[0], sub=path[0])
            else:
                ps = [Kid('other'), path[0]]
                if e.choose([False, True], 'used twice'):
                    ps = [path[0], path[0]]
                up = make(e, self.w, na[0], parts=ps)
            self.keep(up)
            path.insert(0, up)
        self.path = list(path)
        return list(path)

    def expand(self, ent):
        path = self.path
        cs = kids(path[-1])
        if cs:
            return [('below',) + tuple(id(v) for v in path) + (id(c),) for c in cs]
        chain = [(type(x), id(x.meta['k'])) for x in path if not hasattr(x, 'parts')]
        return [('path', id(path[-1])) + tuple(chain)]


class Nodegraph(Spec):
    post = 'one node per occurrence and one edge per use'
    sub = None

    def is_stack(self, lst):
        return len(lst) > 0 and all(type(x) is tuple and len(x) == 2 for x in list.__iter__(lst))

    def tokens(self, x):
        if type(x) is tuple and len(x) == 2:
            return [('subgraph', x[0], id(x[1]))]

    def whole(self):
        return [('subgraph', None, id(self.root))]

    def graph(self):
        gs = self.w.st.graphs
        if len(gs) != 1:
            raise Unsupported('several graphs')
        return gs[0]

    def made(self):
        g = self.graph()
        out = Counter()
        for n, d in g.items.items():
            if 'obj' not in d:
                raise Unsupported('nodes without their operation')
            out[('node', n, id(d['obj']))] += 1
        out.update(('edge', u, v) for u, v in g.edge_list)
        return out

    def start(self, entries):
        for c in self.w.st.counters:
            if type(c.n) is not int or c.n != 0:
                raise Unsupported('numbers of nodes')
        Spec.start(self, entries)

    def arbitrary(self):
        g = self.graph()
        g.before = True
        for i, c in enumerate(self.w.st.counters):
            c.n = Num('k%d' % i)
        self.counts = [c.n for c in self.w.st.counters]

    def entry(self):
        self.x = self.node(names='x')
        self.p = None if self.e.choose([False, True], 'the view itself') else 'an earlier node'
        self.known.add(self.p)
        return (self.p, self.x)

    def expand(self, ent):
        p, x = ent
        g = self.graph()
        new = list(g.items)
        if len(new) != 1:
            return ['one new node']
        n = new[0]
        # a new name: it has the number of this iteration, earlier names have smaller numbers
        ok = any(format(c) in str(n) and k.n.base == c.base and k.n.add > c.add for c, k in zip(self.counts, self.w.st.counters))
        if not ok:
            raise Unsupported('that the name of the node is new')
        return [('node', n, id(x))] + ([] if p is None else [('edge', p, n)]) + [('subgraph', n, id(c)) for c in kids(x)]


def loop(name, method, spec, names, graph=False):
    def body(e, w, tag):
        e.used.add(A_CUT)
        e.used.add(A_ARITY)
        sp = spec(e, w, tag)
        st = w.st = State(e, w, tag, names)
        st.spec = sp
        try:
            try:
                res = getattr(sp.root, method)()
                if not graph:
                    for v in res:
                        if type(v) is not tuple and spec is not Leafs:
                            raise Unsupported('result %r' % (v,))
                        sp.out.append(v)
            finally:
                w.st_last, w.st = st, st
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
            return
        if not st.exit:
            e.undecided(tag + 'loop', 'no loop over a stack of pending entries was found in {}'.format(method))
            return
        e.cover('returns')
        sp.end()
        if graph:
            e.check(tag + 'returns the graph', res is sp.graph())
    t = Fn(name, body, ['delayed_base.DelayedOperation.' + method])
    t.world = World
    return t


def exported():
    """as_graph keeps the nodes and edges of the graph it labels"""
    def body(e, w, tag):
        import kwimage
        un, na, lf = w.classes()
        metas = [{}, {'transform': kwimage.Affine.eye()}, {'transform': kwimage.Affine.scale(2), 'border_value': 3, 'fpath': '/a/b'},
                 {'channels': kwimage and w.env.module('delayed_image.channel_spec').FusedChannelSpec.coerce('a|b'), 'num_channels': 2, 'dsize': (3, 4)},
                 {'space_slice': (slice(0, 2), slice(1, 3)), 'chan_idxs': [1, 0]}]
        st = w.st = State(e, w, tag, ())
        st.phase = 0

        class S:
            known = set()

            def is_stack(self, lst):
                return False
        st.spec = S()
        g = Graph(st)
        root = make(e, w, un[0], sub=Kid('input'))
        ids = []
        for i in range(e.choose([1, 2], 'nodes')):
            m = dict(e.choose(metas, 'meta'))
            c = e.choose([un[0], na[0], lf[0]], 'class')
            x = make(e, w, c, parts=[make(e, w, lf[0])] if c is na[0] else None)
            g.add_node('n%d' % i, type='T', meta=m, obj=x)
            if i:
                g.add_edge('n0', 'n%d' % i)
            ids.append((x, 'n%d' % i))
        edges = list(g.edge_list)
        cls = type(root)
        old = w.base.DelayedOperation._traversed_graph
        w.base.DelayedOperation._traversed_graph = lambda self: g
        try:
            try:
                res = root.as_graph() if e.choose([True, False], 'default fields') else root.as_graph(fields='all')
            finally:
                w.base.DelayedOperation._traversed_graph = old
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        e.check(tag + 'the exported graph is the traversed one', res is g)
        e.check(tag + 'the nodes are kept', list(g.items) == [n for _, n in ids] and all(g.items[n].get('obj') is x for x, n in ids))
        e.check(tag + 'the edges are kept', g.edge_list == edges)
    t = Fn('as_graph', body, ['delayed_base.DelayedOperation.as_graph'])
    t.world = World
    return t


def children():
    """the inputs of an operation are its parts or its subdata"""
    def body(e, w, tag):
        x = arbitrary(e, w)
        want = kids(x)
        try:
            got = list(x.children())
        except Control:
            raise
        except Exception as ex:
            classify(e, tag, ex)
            return
        e.cover('returns')
        e.check(tag + 'exactly the inputs, in order', len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    t = Fn('children', body, ['delayed_base.DelayedNaryOperation.children', 'delayed_base.DelayedUnaryOperation.children'])
    t.world = World
    return t


def c18(tier):
    return [loop('traverse', '_traverse', Pairs, ('_traverse',)), loop('leafs', 'leafs', Leafs, ('leafs',)),
            loop('leafs (old name)', '_leafs', Leafs, ('leafs', '_leafs')),
            loop('leaf paths', '_leaf_paths', Paths, ('_leaf_paths',)), loop('graph', '_traversed_graph', Nodegraph, ('_traversed_graph',), graph=True),
            exported(), children()]
