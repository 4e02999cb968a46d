"""C26: node and edge data are kept as given until changed, and frozen values stay."""
import itertools
from decimal import Decimal
from fractions import Fraction

from abstract import Graph

from .. import observe, shapes
from ..core import Cases, Histories, Mismatch, expect
from ..world import World

ASSUMPTIONS = ['labels are text; an empty node label counts as none']

LABELS = ['L', 'two words', 'a"b', 'back\\slash', 'end\\', '\\n', 'line\nbreak', '<b>bold</b>', '{x|y}', 'é漢字', ' ', '\t', "it's", '0', 'a' * 300, '%s', '\\"', '&amp;', 'None', '', 'a']


class Thing:
    pass


class NoTruth(Thing):
    def __bool__(self):
        raise ValueError('neither true nor false')

    def __len__(self):
        raise ValueError('no length')


class Elementwise(NoTruth):
    """like an array: comparisons give no truth value"""
    __hash__ = None

    def __eq__(self, other):
        return NoTruth()

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__


class Same(Thing):
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


class Different(Thing):
    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = None


class Text(str):
    pass


class Falsy(Thing):
    def __bool__(self):
        return False

    def __call__(self, *args):
        return 'called'


THING = Thing()
HOSTILE = [NoTruth(), Elementwise(), Same(), Different(), Text('t'), Text(), Falsy(), Decimal('1.10'), Fraction(1, 3), -0.0, float('nan'), 1j, range(3), Ellipsis, NotImplemented, Thing, bytearray(b'x'), 'x' * 5000]
VALUES = [None, 0, 1, -1, 2.5, True, False, '', 'text', (), (1, 2), [], [1, [2]], {}, {'k': [1]}, set(), b'x', THING, float('inf'), 10 ** 30, len] + HOSTILE


def make(kind, how, **kw):
    """(graph, object, others)"""
    g = Graph()
    g.add_node('x', label='X', value='vx', p='px')
    g.add_node('y')
    g.connect('x', 'y', label='XY', value='vxy', q='qxy')
    if kind == 'node':
        if how == 'given':
            obj = g.add_node('a', **kw)
        else:
            obj = g.add_node('a')
        g.connect('a', 'x')
        g.connect('y', 'a')
    else:
        g.add_node('a')
        if how == 'given':
            obj = g.connect('a', 'x', **kw)
        else:
            obj = g.connect('a', 'x')
    if how == 'assigned':
        for k, v in kw.items():
            setattr(obj, k, v)
    elif how == 'again':
        if kind == 'node':
            got = g.add_node('a', if_node_exists='ignore', **kw)
        else:
            got = g.connect('a', 'x', if_edge_exists='ignore', **kw)
        if got is not obj:
            raise Mismatch('another object was returned')
    return g, obj


DISTURB = [
    lambda g: g.add_node('z', label='Z', value='vz', p='pz'),
    lambda g: g.connect('x', 'x', label='XX', value=5, p=6),
    lambda g: setattr(g.get_node('x'), 'label', 'X2'),
    lambda g: setattr(g.get_node('x'), 'value', 'x2'),
    lambda g: g.get_node('x').set('p', 'p2'),
    lambda g: g.get_node('x').freeze(),
    lambda g: setattr(g.edges_dict['x', 'y', None], 'value', 'xy2'),
    lambda g: g.get_ancestors('a'),
    lambda g: g.get_tree_str(),
    lambda g: g.get_graphviz_str(),
    lambda g: g.render(view=False),
    lambda g: g.copy(),
    lambda g: g + g,
    lambda g: Graph(g),
    lambda g: g.filter(nodes=['x']),
    lambda g: g.is_similar_to(g.copy()),
    lambda g: g.remove_node('y'),
]


def data_cases(tier):
    for kind in ('node', 'edge'):
        for how in ('given', 'assigned', 'again'):
            for i in range(len(LABELS)):
                yield (kind, how, 'label', i)
            for i in range(len(VALUES)):
                yield (kind, how, 'value', i)
            for i, j in itertools.product(range(0, len(LABELS), 3), range(0, len(VALUES), 3)):
                yield (kind, how, 'both', i, j)


# Disturbances that need values to be copied, added or shown
NEEDS_COPY = {11, 12, 13, 14, 15, 10}


def run_data(ctx, case):
    kind, how, what, *idx = case
    kw = {}
    if what == 'label':
        kw['label'] = LABELS[idx[0]]
    elif what == 'value':
        kw['value'] = VALUES[idx[0]]
    else:
        kw['label'], kw['value'] = LABELS[idx[0]], VALUES[idx[1]]
    g, obj = make(kind, how, **kw)

    def check(when):
        wanted = kw.get('label', None)
        if not wanted and kind == 'node':
            wanted = 'a'
        expect(f'label {when}', obj.label, wanted)
        v = kw.get('value')
        if obj.value is not v:
            raise Mismatch(f'value {when}: observed {obj.value!r}, expected the given object {v!r}')
    check('when new')
    for i, fn in enumerate(DISTURB):
        if i == 15 and isinstance(kw.get('value'), NoTruth):
            # similarity compares the values
            continue
        if i in NEEDS_COPY and isinstance(kw.get('value'), (Thing, set, dict, bytes, type(None))):
            # adding two graphs adds values, which not all values support
            if i == 12:
                continue
        if i == 12:
            v = kw.get('value')
            try:
                v + v
            except Exception:
                if v is not None:
                    continue
        fn(g)
        ctx.step()
        check(f'after disturbance {i}')
    ctx.state(case)


def param_cases(tier):
    vals = [0, None, 'v', [1]]
    for kind in ('node', 'edge'):
        for given in itertools.product((False, True), repeat=2):
            for how in ('get', 'item'):
                for v in range(len(vals)):
                    for w in range(len(vals)):
                        yield (kind, given, how, v, w)


def run_param(ctx, case):
    kind, given, how, v, w = case
    vals = [0, None, 'v', [1]]
    kw = {k: vals[v] for k, x in zip('pq', given) if x}
    if kind == 'edge':
        g, obj = make(kind, 'given', **kw)
    else:
        g, obj = make(kind, 'given', **kw)
    read = obj.get if how == 'get' else obj.__getitem__
    for k, x in zip('pq', given):
        try:
            got = ('value', read(k))
        except KeyError:
            got = ('missing',)
        expect(f'parameter {k}', got, ('value', vals[v]) if x else ('missing',))
    if how == 'get':
        obj.set('p', vals[w])
    else:
        obj['p'] = vals[w]
    if read('p') is not vals[w]:
        raise Mismatch(f'parameter p: {read("p")!r}')
    try:
        got = ('value', read('q'))
    except KeyError:
        got = ('missing',)
    expect('parameter q', got, ('value', vals[v]) if given[1] else ('missing',))
    # nobody else is affected
    expect('parameter of x', g.get_node('x').get('p'), 'px')
    expect('parameter of the other edge', g.edges_dict['x', 'y', None].get('q'), 'qxy')
    try:
        g.get_node('y').get('p')
        raise Mismatch('y got a parameter')
    except KeyError:
        pass
    ctx.step(4)
    ctx.state(case)


KEYS = ['p', 'P', 'p ', '', 'label', 'value', 'style', 'tooltip', 'id', 'name', 'graph', 'index', 'start', 'end', '_label', '_value', 'parameters', '__class__', 'x' * 300, 'é', 0, 1, '0', None, True, (1, 2), 2.5, b'p', 'items', 'get', 'self', 'frozen']


def key_cases(tier):
    for kind in ('node', 'edge'):
        for how in ('set', 'item'):
            for i, j in itertools.product(range(len(KEYS)), repeat=2):
                yield (kind, how, i, j)


def run_keys(ctx, case):
    """parameters under names that a careless implementation takes for one another or for something else"""
    kind, how, i, j = case
    g, obj = make(kind, 'given', label='L', value='V')
    others = [x for x in g.nodes + g.edges if x is not obj]
    before = observe.snapshot(g)
    wanted = {}
    for n, k in enumerate((KEYS[i], KEYS[j], KEYS[i])):
        v = [n]
        obj.set(k, v) if how == 'set' else obj.__setitem__(k, v)
        wanted[k] = v
        ctx.step()
        for key in KEYS:
            for read in (obj.get, obj.__getitem__):
                try:
                    got = read(key)
                except KeyError:
                    if key in wanted:
                        raise Mismatch(f'parameter {key!r} is missing')
                else:
                    if key not in wanted or got is not wanted[key]:
                        raise Mismatch(f'parameter {key!r} is {got!r}')
        for x in others:
            for key in KEYS:
                try:
                    got = x[key]
                except KeyError:
                    continue
                if key not in ('p', 'q') or got not in ('px', 'qxy'):
                    raise Mismatch(f'{x} has a parameter {key!r}: {got!r}')
    expect('label', obj.label, 'L')
    expect('value', obj.value, 'V')
    after = observe.snapshot(g)
    if 'p' not in wanted:
        observe.same_snapshot('graph after setting parameters', before, after)
    ctx.state(case)


ACTIONS = ('label', 'value', 'param', 'freeze', 'style', 'again', 'remove', 'readd', 'render', 'unfreeze', 'drop')


def twin_cases(tier):
    deep = tier == 'thorough'
    for how in ('built', 'subclass', 'strict'):
        for seq in itertools.product(ACTIONS, repeat=3 if deep else 2):
            for target in ('node', 'edge', 'loop'):
                yield (how, target, seq)


class Sub(Graph):
    pass


def furnish(g):
    for n in ('a', 'b', 0):
        g.add_node(n, label=f'label {n}', value=[n], tooltip=f'tip {n}', p=f'p{n}')
    for s, e, id in (('a', 'b', None), ('a', 'b', 'x'), ('b', 'b', None), (0, 'a', 0)):
        g.connect(s, e, id=id, label=f'label {s}{e}', value=[s, e], p=f'p{s}{e}')
    return g


def run_twin(ctx, case):
    """two graphs with the same names, ids and data, made one after the other: what is done to one is not seen in the other, nor in the other elements"""
    how, target, seq = case
    g = furnish({'built': Graph, 'subclass': Sub, 'strict': lambda: Graph(strict=True, style_overwrite_allowed=True)}[how]())
    h = furnish(Graph())
    key = {'edge': ('a', 'b', 'x'), 'loop': ('b', 'b', None)}.get(target)
    before = observe.snapshot(h)

    def others():
        return {k: (o.label, o.value, o.get('p'), o.is_frozen) for k, o in [(n.name, n) for n in g.nodes] + [(e.id, e) for e in g.edges]
                if k != (key or 'a') and (key or k == 0 or 'a' not in (k if isinstance(k, tuple) else ()))}
    rest = others()
    gone = None
    for k, a in enumerate(seq):
        obj = gone or (g.get_node('a') if key is None else g.edges_dict[key])
        if a == 'label':
            obj.label = f'new {k}'
            expect('label', obj.label, f'new {k}')
        elif a == 'value':
            if not obj.is_frozen:
                obj.value = [k]
                expect('value', obj.value, [k])
        elif a == 'param':
            obj['p'] = k
            obj.set('q', k)
        elif a == 'freeze':
            obj.freeze()
        elif a == 'unfreeze':
            obj.unfreeze()
        elif a == 'style':
            if obj.graph is not None and not obj.has_style():
                obj.style = observe.node_style('S1') if key is None else observe.edge_style('S1')
        elif a == 'again':
            if gone is None and not obj.is_frozen:
                (g.add_node('a', label='again', value=0, if_node_exists='ignore') if key is None else g.connect(key[0], key[1], id=key[2], label='again', value=0, if_edge_exists='ignore'))
                expect('label', obj.label, 'again')
                expect('value', obj.value, 0)
        elif a == 'remove':
            if gone is None:
                g.remove_node('a') if key is None else g.disconnect(obj)
                gone = obj
        elif a == 'readd':
            if gone is not None:
                if key is None:
                    g.add_node(gone)
                    gone = None
                else:
                    new = g.connect(key[0], key[1], id=key[2])
                    expect('label of the new edge', new.label, None)
                    expect('value of the new edge', new.value, None)
                    new['p'] = 'new'
                    gone = None
        elif a == 'render':
            g.render(view=False)
        else:
            furnish(Graph())
        ctx.step()
        expect(f'the others after {seq[:k + 1]}', others(), rest)
        observe.same_snapshot(f'another graph after {seq[:k + 1]}', before, observe.snapshot(h))
    ctx.state(case)


class Data(World):
    groups = ('structure', 'data', 'source')
    names = ('a', 'b')
    labels = ('L', 'M')
    values = (0, 'v')

    def ops(self):
        r = self.r
        out = []
        targets = [('n', n) for n in r.nodes] + [('e', k) for k in r.edges]
        for n in self.names:
            if n not in r.nodes:
                out.append(('add', n))
                out.append(('addx', n, (('label', 'L'), ('value', 1), ('tooltip', 'T'), ('p', 'P'))))
            else:
                out.append(('rm', n, 'o'))
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        if len(r.edges) < 2:
            for s in r.nodes:
                for e in r.nodes:
                    if (s, e, None) not in r.edges:
                        out.append(('con', s, e, None, 'n', (('label', 'M'), ('value', 2), ('tooltip', 'U'), ('q', 'Q'))))
        for key in r.edges:
            out.append(('dis', key, 'r'))
        for t in targets:
            robj = r.nodes[t[1]] if t[0] == 'n' else r.edges[t[1]]
            out.append(('set', t, 'label', 'N'))
            out.append(('set', t, 'label', None))
            out.append(('set', t, 'label', ''))
            out.append(('set', t, 'value', 0))
            out.append(('set', t, 'value', 'v'))
            out.append(('param', t, 'p', 9, 's'))
            for attrs in ((('label', 'M'),), (('value', 3), ('label', 'K'))):
                out.append(('re', t[1], attrs, 'ignore') if t[0] == 'n' else ('recon',) + t[1] + (attrs, None))
            out.append(('unfreeze', t) if robj.frozen else ('freeze', t))
        if r.nodes:
            out.append(('render',))
            out.append(('swap', 'copy'))
        return out


class Frozen(Data):
    """freezing and releasing between structural changes: each object has its own ice"""
    groups = ('structure', 'data')
    max_edges = 3

    def ops(self):
        r = self.r
        out = []
        targets = [('n', n) for n in r.nodes] + [('e', k) for k in r.edges]
        for t in targets:
            robj = r.nodes[t[1]] if t[0] == 'n' else r.edges[t[1]]
            out.append(('freeze', t))
            out.append(('unfreeze', t))
            if robj.frozen:
                out.append(('re', t[1], (('value', 5),), 'ignore') if t[0] == 'n' else ('recon',) + t[1] + ((('value', 5),), 'ignore'))
        for n in self.names:
            out.append(('rm', n, 'o') if n in r.nodes else ('add', n))
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        if len(r.edges) < self.max_edges:
            for s in r.nodes:
                for e in r.nodes:
                    if (s, e, None) not in r.edges:
                        out.append(('con', s, e, None, 'n', (('value', 2),)))
        for key in r.edges:
            out.append(('dis', key, 'r'))
        out.append(('render',))
        return out


def frozen_cases(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for e in shapes.digraphs(n, max_edges=4 if n < 3 else 3):
            yield (n, shapes.plain(e))
    for e in shapes.multigraphs(2, 3, 2):
        yield (2, e)


def run_frozen(ctx, case):
    """every object frozen alone, and everything but one frozen"""
    n, edges = case
    names = ['a', 'b', 'c'][:n]
    for invert in (False, True):
        for at in range(n + len(edges)):
            g = observe.build(names, edges)
            things = list(g.nodes) + list(g.edges)
            frozen = [False] * len(things)

            def put(i, what):
                if what:
                    things[i].freeze()
                else:
                    things[i].unfreeze()
                frozen[i] = what
                ctx.step()
                for j, x in enumerate(things):
                    expect(f'object {j} frozen', bool(x.is_frozen), frozen[j])
                    before = x.value
                    try:
                        x.value = ['new']
                    except Exception:
                        if not frozen[j]:
                            raise
                        if x.value is not before:
                            raise Mismatch('a refused value was stored')
                    else:
                        if frozen[j]:
                            raise Mismatch(f'the value of the frozen object {j} was replaced')
            if invert:
                for i in range(len(things)):
                    put(i, True)
            put(at, not invert)
            g.render(view=False)
            put(at, not invert)
            put(at, invert)
            c = g.copy()
            expect('frozen in the copy', [x.is_frozen for x in list(c.nodes) + list(c.edges)], [x.is_frozen for x in list(g.nodes) + list(g.edges)])
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('every label and value', lambda: data_cases(tier), run_data, f'{len(LABELS)} labels, {len(VALUES)} values, given, assigned or re-added, for nodes and edges; read back after {len(DISTURB)} operations on others'),
        Cases('extra parameters', lambda: param_cases(tier), run_param, 'every presence pattern, value and spelling'),
        Cases('parameter names', lambda: key_cases(tier), run_keys, f'every pair of {len(KEYS)} parameter names set on one object, all read from all'),
        Cases('graphs with the same names', lambda: twin_cases(tier), run_twin, f'every sequence of {3 if deep else 2} of {len(ACTIONS)} actions on an element of one of two equal graphs'),
        Cases('ice', lambda: frozen_cases(tier), run_frozen, 'every digraph on up to %d nodes and multigraph of 2: each object frozen alone, and all but one' % (3 if deep else 2)),
        Histories('ice between structural changes', Frozen, 5 if deep else 4, '2 nodes, 3 edges; freezing, releasing, removal and return, rendering'),
        Histories('histories of data operations', Data, 5 if deep else 4, '2 nodes, 2 edges, assignments, parameters, freezing, removal and return, rendering, copying'),
    ]
