"""Copies and serialised graphs: equality with the original and independence from it (C10, C11)."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from . import heap, observe, shapes, structural
from .core import Cases, HarnessError, Histories, Mismatch, expect
from .world import World


def shout(text):
    return str(text).upper() + '!'


def whisper(text):
    return f'({text})'


# one non-default value per setting
SETTINGS = [
    ('strict', True), ('ordering', False), ('node_style', {'shape': 'circle'}), ('node_style', {'shape': 'auto', 'text_size': 20}),
    ('edge_style', {'line_width': 7}), ('node_label_converter', shout), ('edge_label_converter', whisper),
    ('colour_scheme', 'pastel15'), ('background_colour', 'red'), ('font', 'courier'), ('direction', 'TB'),
    ('stylist', 'random'), ('label', 'A "graph"'), ('label', None), ('label', '<b>x</b>'), ('label_url', 'http://x/?a=1&b="2"'), ('tooltip', 'tip'),
    ('label_location', 'top'), ('label_location', None), ('font_size', 33), ('label_colour', 'green'), ('label_background_colour', 'yellow'),
    ('style_overwrite_allowed', True), ('splines', 'ortho'), ('nodesep', 2),
]


def fork(g, how):
    if how == 'copy':
        return g.copy()
    if how == 'deepcopy':
        return copy.deepcopy(g)
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(g, protocol=int(how[6:])))
    if how == 'twice':
        return g.copy().copy()
    if how == 'twicepickle':
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(g))))
    if how == 'listcopy':
        return copy.deepcopy([g])[0]
    raise HarnessError(how)


class Side(World):
    groups = ('structure', 'data', 'reach', 'relatives', 'source')


class Twin:
    """a graph, then the graph and its copy, changed independently"""
    names = ('a', 'b')
    hows = ('copy',)
    before = 3          # operations before the copy at most
    max_edges = 2

    def __init__(self, ctx, init=()):
        self.ctx = ctx
        self.sides = [Side(ctx, init)]
        self.count = 0

    def side_ops(self, w):
        r = w.r
        out = []
        for n in self.names:
            if n not in r.nodes:
                out.append(('addx', n, (('label', 'L'), ('value', 1), ('tooltip', 'T'), ('style', 'S1'), ('p', 5))))
                out.append(('add', n))
            else:
                out.append(('rm', n, 'o'))
        if len(r.edges) < self.max_edges:
            for s in r.nodes:
                for e in r.nodes:
                    if (s, e, None) not in r.edges:
                        out.append(('con', s, e, None, 'o', (('label', 'M'), ('value', 2), ('style', 'S2'), ('q', 6))))
        for key in r.edges:
            out.append(('dis', key, 'd'))
            out.append(('dis', key, 'r'))
            out.append(('set', ('e', key), 'value', 'changed'))
            out.append(('param', ('e', key), 'q', 8, 's'))
        for n, rn in r.nodes.items():
            out.append(('set', ('n', n), 'label', 'changed'))
            out.append(('set', ('n', n), 'value', 9))
            out.append(('param', ('n', n), 'p', 8, 'i'))
            out.append(('unfreeze', ('n', n)) if rn.frozen else ('freeze', ('n', n)))
        for k, (_, rn) in enumerate(w.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        if r.nodes:
            out.append(('render',))
        return out

    def ops(self):
        if len(self.sides) == 1:
            out = [(0, op) for op in self.side_ops(self.sides[0])] if self.count < self.before else []
            return out + [('fork', how) for how in self.hows]
        return [(i, op) for i in (0, 1) for op in self.side_ops(self.sides[i])]

    def apply(self, op):
        self.count += 1
        if op[0] == 'fork':
            old = self.sides[0]
            before = observe.snapshot(old.g)
            new = Side.__new__(Side)
            new.__dict__.update(old.__dict__)
            new.g = fork(old.g, op[1])
            if new.g is old.g:
                raise Mismatch('the copy is the graph itself')
            if type(new.g) is not type(old.g):
                raise Mismatch(f'the copy is a {type(new.g).__name__}')
            new.r = old.r.copy()
            new.gone_nodes, new.gone_edges = [], []
            observe.same_snapshot('the graph changed when copied', before, observe.snapshot(old.g))
            observe.same_snapshot('the copy differs from the graph', before, observe.snapshot(new.g))
            self.sides.append(new)
        else:
            self.sides[op[0]].apply(op[1])

    def check(self):
        for s in self.sides:
            s.check()
        if len(self.sides) == 2:
            separate(self.sides[0].g, self.sides[1].g)

    def fingerprint(self):
        return heap.fingerprint(*[x for s in self.sides for x in (s.g, s.gone_nodes_real(), [e for e, _ in s.gone_edges])])

    def key(self):
        return [s.key() for s in self.sides]


def separate(g, h):
    """no node, edge or style object in common"""
    for what, a, b in (('node', g.nodes, h.nodes), ('edge', g.edges, h.edges),
                       ('style', [x.style for x in g.nodes + g.edges if x.style is not None], [x.style for x in h.nodes + h.edges if x.style is not None])):
        ids = {id(x) for x in a}
        for x in b:
            if id(x) in ids:
                raise Mismatch(f'the graphs share a {what}: {x!r}')
    for one, other in ((g, h), (h, g)):
        for x in one.nodes:
            if x not in one or x in other:
                raise Mismatch(f'the node object {x.name!r} of one graph is a member of {"both" if x in one else "none" if x not in other else "the other"}')


def attributed(g, values=True):
    """gives every node and edge of a graph something to lose"""
    for i, n in enumerate(g.nodes):
        n.value = [i, {'k': i}]
        n.label = f'label {i}'
        n['p'] = [i]
        if i % 2 == 0:
            n.style = NodeStyle(colour='red', shape='diamond', opacity=0.5)
        if i == 1:
            n.freeze()
    for i, e in enumerate(g.edges):
        e.value = [i] if i % 2 else i
        e.label = f'edge {i}' if i % 3 else None
        e['q'] = {i}
        if i % 2:
            e.style = EdgeStyle(colour='blue', arrow_size=3)


def shape_cases(tier, hows):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for edges in shapes.digraphs(n, max_edges=9 if deep else 4):
            for how in hows:
                for rendered in (False, True):
                    if not deep and n == 3 and len(edges) > 3 and how != hows[len(edges) % len(hows)]:
                        continue
                    yield ('zyx', n, shapes.plain(edges), how, rendered)
    for edges in shapes.multigraphs(2, 4, 3):
        for how in hows:
            yield ('abc', 2, edges, how, False)
    for _, n, edges in shapes.families(20 if deep else 12):
        for how in hows[:2]:
            yield ('abc', n, shapes.plain(edges), how, True)
    for i, (names, n, edges) in enumerate(structural.confusable(2 if deep else 1)):
        for k, how in enumerate(hows):
            if deep or k == i % len(hows):
                yield (names, n, edges, how, i % 3 == 0)
    for i, (n, edges) in enumerate(shapes.large(0.8 if deep else 0.4)):
        yield ('abc', n, shapes.plain(edges), hows[i % len(hows)], i % 2 == 0)


def run_shape(ctx, case):
    scheme, n, edges, how, rendered = case
    g = observe.build(structural.names_of(scheme, n), edges)
    if rendered != 'bare':
        attributed(g)
    if rendered is True:
        g.render(view=False)
    ctx.step(n + len(edges))
    equal_and_independent(ctx, g, how)
    ctx.state(case)


def equal_and_independent(ctx, g, how):
    before = observe.snapshot(g)
    c = fork(g, how)
    ctx.step()
    observe.same_snapshot(f'{how}: the graph changed', before, observe.snapshot(g))
    observe.same_snapshot(f'{how}: the copy differs', before, observe.snapshot(c))
    separate(g, c)
    for n in c.nodes:
        observe.name_in(c, n)
    for e in c.edges:
        if e.graph is not c or c.get_node(e.start.name) is not e.start or c.get_node(e.end.name) is not e.end:
            raise Mismatch(f'edge {e.id} of the copy does not belong to the copy')
    # rendering the copy leaves the graph, and gives the same as rendering the graph
    d = fork(g, how)
    text = c.render(view=False).source
    observe.same_snapshot(f'{how}: rendering the copy changed the graph', before, observe.snapshot(g))
    if g.copy().render(view=False).source != text:
        raise Mismatch(f'{how}: a copy of the graph renders differently from the copy')
    after_g = g.render(view=False).source
    if after_g != text:
        raise Mismatch(f'{how}: the copy renders differently:\n{text}\nthe graph:\n{after_g}')
    if fork(g, how).render(view=False).source != text or fork(c, how).render(view=False).source != text:
        raise Mismatch(f'{how}: a copy of the rendered graph renders differently')
    # mutable values, parameters and styles are not shared
    snap_g = observe.snapshot(g)
    for x in c.nodes + c.edges:
        scribble(x)
    observe.same_snapshot(f'{how}: changing values and styles of the copy changed the graph', snap_g, observe.snapshot(g))
    snap_c = observe.snapshot(c)
    for x in g.nodes + g.edges:
        scribble(x)
    observe.same_snapshot(f'{how}: changing values and styles of the graph changed the copy', snap_c, observe.snapshot(c))
    # removal of everything
    for n in list(g.nodes):
        g.remove_node(n)
    observe.same_snapshot(f'{how}: emptying the graph changed the copy', snap_c, observe.snapshot(c))
    if not d.nodes:
        d.add_node('fresh')
    for n in list(d.nodes):
        d.connect(n, n, id='new')
        d.add_node(f'{n.name!r}new', style=NodeStyle())
    observe.same_snapshot(f'{how}: growing one copy changed another', snap_c, observe.snapshot(c))
    d.render(view=False)
    observe.same_snapshot(f'{how}: rendering one copy changed another', snap_c, observe.snapshot(c))
    ctx.step(8)


def scribble(x):
    if isinstance(x.value, list):
        x.value.append('scribbled')
    elif isinstance(x.value, dict):
        x.value['scribbled'] = 1
    for p in observe.PARAM_KEYS:
        try:
            v = x.get(p)
        except KeyError:
            continue
        if isinstance(v, list):
            v.append('scribbled')
        elif isinstance(v, set):
            v.add('scribbled')
        x.set(p, v)
    x.set('p', 'own')
    if x.style is not None:
        x.style.colour = 'purple'
        x.style.text_colour = 'orange'


def setting_cases(tier, hows):
    singles = [(i,) for i in range(len(SETTINGS))]
    pairs = [p for p in itertools.combinations(range(len(SETTINGS)), 2) if SETTINGS[p[0]][0] != SETTINGS[p[1]][0]]
    for s in [()] + singles + (pairs if tier == 'thorough' else []):
        for how in hows:
            for source in ('plain', 'dict', 'sub'):
                yield (s, how, source)


DICTIONARY = {
    'nodes': {'a': {'label': 'A', 'value': 1}, 'b': {}, 'c': {'value': [3]}},
    'edges': [('a', 'b'), ('b', 'c', {'label': 'bc'}), ('c', 'a')],
    'node_styles': {'a': {'shape': 'diamond'}}, 'node_colours': {'b': 'red'},
    'edge_styles': {('a', 'b'): {'line_width': 5}}, 'edge_colours': {('b', 'c'): 'green'},
}


class Sub(Graph):
    pass


def with_settings(indexes, source):
    kw = dict(SETTINGS[i] for i in indexes)
    if source == 'sub':
        return Sub(copy.deepcopy(DICTIONARY), **kw)
    if source == 'dict':
        g = Graph(copy.deepcopy(DICTIONARY), **kw)
    else:
        g = observe.build(('a', 'bb', 'c'), ((0, 1, None), (1, 2, None), (2, 0, None), (0, 0, 'x')), **kw)
        g.get_node('a').label = 'Ay'
        g.edges_dict['a', 'bb', None].label = 'ab'
        g.edges_dict['a', 'a', 'x'].value = 4
    return g


def run_setting(ctx, case):
    indexes, how, source = case
    g = with_settings(indexes, source)
    c = fork(g, how)
    if type(c) is not type(g):
        raise Mismatch(f'the copy is a {type(c).__name__}')
    if c.get_graphviz_str() != g.get_graphviz_str():
        raise Mismatch(f'the copy has different text:\n{c.get_graphviz_str()}\n{g.get_graphviz_str()}')
    if c.get_graphviz_header(direction='BT', height=3, width=4) != g.get_graphviz_header(direction='BT', height=3, width=4):
        raise Mismatch('the copy has a different header')
    c2 = fork(c, how)
    a, b, d = c.render(view=False).source, g.render(view=False).source, c2.render(view=False).source
    if not a == b == d:
        raise Mismatch(f'the copy renders differently:\n{a}\n{b}\n{d}')
    e = fork(g, how).render(view=False).source
    if e != a:
        raise Mismatch(f'the copy of the rendered graph renders differently:\n{e}\n{a}')
    # the copy goes on the same way: overwriting, new nodes, further rendering
    outcomes = []
    for h in (g, c):
        try:
            h.get_node('a').style = NodeStyle(colour='black')
            outcomes.append('replaced')
        except RuntimeError:
            outcomes.append('refused')
        h.add_node('new')
        h.connect('new', 'a')
        outcomes.append(h.render(view=False).source)
        outcomes.append(h.__graph__()['strict'])
        outcomes.append(h.background_colour.hexadecimal)
    if outcomes[:4] != outcomes[4:]:
        raise Mismatch(f'the copy goes on differently: {outcomes}')
    ctx.step(8)
    ctx.state(case)
    ctx.outcome(a)


# what cannot be pickled can still be copied ------------------------------------------------------------------------------

class Counter:
    """a value that notices being copied"""

    def __init__(self, n=0):
        self.n = n

    def __deepcopy__(self, memo):
        return Counter(self.n + 100)

    def __eq__(self, other):
        return isinstance(other, Counter) and other.n % 100 == self.n % 100


def local_class():
    class Local:
        def __init__(self):
            self.items = [1]
    return Local


LOCAL = local_class()
UNUSUAL = [lambda: (lambda x: x), LOCAL, lambda: LOCAL, lambda: {'f': lambda: 1, 'l': [LOCAL()]}, lambda: Counter(), lambda: [[], LOCAL()],
           lambda: range(3), lambda: float('nan'), lambda: type, lambda: len]
CONVERTERS = [None, lambda x: f'<<{x}', str.upper, LOCAL]


def unusual_cases(tier, hows):
    for i in range(len(UNUSUAL)):
        for where in ('node value', 'edge value', 'node parameter', 'edge parameter'):
            for how in hows:
                for rendered in (False, True):
                    yield ('value', i, where, how, rendered)
    for i, j in itertools.product(range(3), repeat=2):
        for how in hows:
            for rendered in (False, True):
                yield ('converter', i, j, how, rendered)


def run_unusual(ctx, case):
    what, i, j, how, rendered = case
    kw = {'node_label_converter': CONVERTERS[i], 'edge_label_converter': CONVERTERS[j]} if what == 'converter' else {}
    g = Graph(**kw)
    a, b = g.add_node('a', label='x'), g.add_node('b')
    e = g.connect(a, b, label='y')
    f = g.connect(b, b)
    if what == 'value':
        v = UNUSUAL[i]()
        for x in ((a, b) if j.startswith('node') else (e, f)):     # one object in two places
            if j.endswith('value'):
                x.value = v
            else:
                x['p'] = v
    if rendered:
        g.render(view=False)
    c = fork(g, how)
    expect('nodes of the copy', [n.name for n in c.nodes], ['a', 'b'])
    expect('edges of the copy', [x.id for x in c.edges], [x.id for x in g.edges])
    separate(g, c)
    if what == 'converter':
        expect('text of the copy', c.get_graphviz_str(), g.get_graphviz_str())
        if CONVERTERS[i] is not None and c.get_node('a').get_graphviz_str() == Graph(c).get_node('a').get_graphviz_str():
            raise Mismatch('the label converter is lost')
    else:
        pairs = ((a, c.get_node('a')), (b, c.get_node('b'))) if j.startswith('node') else ((e, c.edges_dict['a', 'b', None]), (f, c.edges_dict['b', 'b', None]))
        for x, y in pairs:
            v, w = (x.value, y.value) if j.endswith('value') else (x.get('p'), y.get('p'))
            if type(v) is not type(w):
                raise Mismatch(f'{j} {v!r} has become {w!r}')
            mutable = isinstance(v, (LOCAL, dict, list, Counter))
            if (v is w) == mutable:
                raise Mismatch(f'{j} {v!r} is {"shared with" if mutable else "another object in"} the copy')
    ctx.step()
    ctx.state(case)


def chain_cases(tier, hows):
    deep = tier == 'thorough'
    for first, second in itertools.product(hows, repeat=2):
        for change in ('none', 'render', 'grow', 'shrink', 'data', 'wear'):
            for dress in (None, 'strict', 'settings', 'styled', 'frozen') if deep or first == second else (None,):
                yield (first, second, change, dress, 24 if deep else 12)


def run_chain(ctx, case):
    """copies of copies of copies, changed in between: each equals the one it was taken from, and none is touched by what happens later"""
    first, second, change, dress, length = case
    w = structural.Live(ctx, 'zyx', 3, ((0, 1, None), (0, 1, 'x1'), (1, 2, None), (2, 0, 0), (1, 1, None)), dress)
    g = w.g
    if dress is None:
        attributed(g)
    line = [(g, observe.snapshot(g))]
    for k in range(length):
        how = second if k % 2 else first
        c = fork(g, how)
        ctx.step()
        observe.same_snapshot(f'{how} number {k} differs', line[-1][1], observe.snapshot(c))
        separate(g, c)
        if change == 'render':
            c.render(view=False)
        elif change == 'grow':
            c.add_node(f'n{k}', value=[k], style=NodeStyle(colour='red'))
            c.connect('z', f'n{k}', id=k, label=str(k))
            c.connect(f'n{k}', 'y')
        elif change == 'shrink':
            if c.edges:
                c.disconnect(c.edges[0])
            elif c.nodes:
                c.remove_node(c.nodes[0])
        elif change == 'data':
            for x in c.nodes + c.edges:
                x.unfreeze()
                scribble(x)
                x.value = [k]
        elif change == 'wear':
            for n in ('z', 'y'):
                out = [(e.end.name, e.raw_id) for e in c.get_outward_edges(n) if e.end.name != n]
                c.remove_node(n)
                c.add_node(n)
                for end, id in out:
                    c.connect(n, end, id=id)
        line.append((c, observe.snapshot(c)))
        g = c
    for k, (x, before) in enumerate(line):
        observe.same_snapshot(f'link {k} of the chain was changed later', before, observe.snapshot(x))
    texts = [x.render(view=False).source for x, _ in line[-2:]]
    if change in ('none', 'render') and texts[0] != texts[1]:
        raise Mismatch(f'the last copy renders differently:\n{texts[0]}\n{texts[1]}')
    for k, (x, before) in enumerate(line[:-2]):
        observe.same_snapshot(f'link {k} of the chain was changed by rendering the last', before, observe.snapshot(x))
    ctx.state(case)


# both go on the same way ---------------------------------------------------------------------------------------------------

GROWTH = ('hang', 'loop', 'star')


def onward_cases(tier, hows):
    deep = tier == 'thorough'
    for n in (1, 2, 3, 4):
        for k, edges in enumerate(shapes.digraphs(n, loops=n < 3, max_edges=9 if n < 3 else 6 if deep and n == 3 else 3)):
            for removed in [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(n) if i != j and (deep or (i + j + k) % 3 == 0)]:
                for i, how in enumerate(hows):
                    for j, growth in enumerate(GROWTH):
                        if deep and n < 4 or (i * len(GROWTH) + j) % 4 == (k + sum(removed)) % 4:
                            yield (n, shapes.plain(edges), removed, (k + i) % 2 == 0, how, growth)


def run_onward(ctx, case):
    """a graph that lost nodes, and maybe has one of them back, and its copy get the same new nodes and edges"""
    n, edges, removed, back, how, growth = case
    g = observe.build(shapes.names('zyx', n) if n < 4 else 'wzyx', edges)
    gone = []
    for i in removed:
        x = list(g.nodes)[i % len(g.nodes)] if g.nodes else None
        if x is not None:
            g.remove_node(x)
            gone.append(x)
    if back and gone:
        g.add_node(gone[0])
    c = fork(g, how)
    sides = []
    for h in (g, c):
        h.add_node('new')
        h.add_node('a', label='also new')
        old = [x.name for x in h.nodes if x.name not in ('new', 'a')]
        for x in old:
            if growth in ('hang', 'star'):
                h.connect(x, 'new', label='e')
                h.connect('a', x)
            if growth in ('loop', 'star'):
                h.connect('new', x)
                h.connect(x, 'a', id=0)
        h.connect('new', 'a', id='i')
        if back and len(gone) > 1:
            h.add_node(gone[1].name)
            h.connect('a', gone[1].name)
        ctx.step(3)
        sides.append(observe.snapshot(h))
    observe.same_snapshot('the copy goes on differently', *sides)
    expect('text of the copy that went on', c.render(view=False).source, g.render(view=False).source)
    ctx.state(case)


# every attribute with values that count as false, and many parameters ------------------------------------------------------

ATTRIBUTES = {
    'label': (None, '', ' ', '0', 0, 'a "b"\\', 'x' * 200), 'tooltip': (None, '', ' ', '0', 0, 'tip "x"'),
    'value': (None, 0, False, '', 0.0, [], {}, (), -1, 'text', 2 ** 70, {'deep': [{'er': (1, [2])}]}, b'', frozenset({1}), 1j),
    'params': ({}, {'p': None}, {'q': 0, 'p': ''}, {'': 1, ' ': 2, 'a b': []}, {f'k{i}': [i] for i in range(40)}, {'start': 1, 'end': 2, 'name_': 3, 'frozen': True, 'raw_id': 'x', 'parameters': {}}),
    'frozen': (False, True), 'unlabelled later': (False, True),
}


def attribute_cases(tier, hows):
    singles = [((k, i),) for k, v in ATTRIBUTES.items() for i in range(len(v))]
    pairs = [a + b for a, b in itertools.combinations(singles, 2) if a[0][0] != b[0][0]]
    for how in hows:
        for t in singles:
            yield (t, how)
    for i, t in enumerate(pairs):
        for k, how in enumerate(hows):
            if tier == 'thorough' or k == i % len(hows):
                yield (t, how)


def run_attribute(ctx, case):
    chosen, how = case
    d = {k: ATTRIBUTES[k][i] for k, i in chosen}
    g = Graph()
    data = {k: copy.deepcopy(d[k]) for k in ('label', 'tooltip', 'value') if k in d}
    params = {k: v for k, v in d.get('params', {}).items()}

    def dressed(x):
        for k, v in params.items():
            x.set(k, copy.deepcopy(v))
        if d.get('frozen'):
            x.freeze()
        if d.get('unlabelled later'):
            x.label = None
        return x
    a = dressed(g.add_node('a', **copy.deepcopy(data)))
    b = g.add_node('b')
    dressed(g.connect(a, b, **copy.deepcopy(data)))
    dressed(g.connect(b, b, id=0, **copy.deepcopy(data)))
    before = observe.snapshot(g)
    c = g
    for turn in range(3):
        c = fork(c, how)
        ctx.step()
        observe.same_snapshot(f'copy {turn} differs', before, observe.snapshot(c))
        pairs = [(g.get_node('a'), c.get_node('a')), (b, c.get_node('b'))] + [(g.edges_dict[k], c.edges_dict[k]) for k in g.edges_dict]
        for x, y in pairs:
            for k, v in params.items():
                if x is not b:
                    expect(f'parameter {k!r}', y.get(k), v)
            for k in ('nothing', 'k99'):
                try:
                    y.get(k)
                except KeyError:
                    continue
                raise Mismatch(f'the copy has a parameter {k!r}')
            expect('value', (type(y.value), y.value), (type(x.value), x.value))
            expect('frozen', y.is_frozen, x.is_frozen)
            if type(y.label) is not type(x.label) or y.label != x.label:
                raise Mismatch(f'label {y.label!r}, expected {x.label!r}')
            expect('text', y.get_graphviz_str(), x.get_graphviz_str())
    if not g.is_similar_to(c) or not c.is_similar_to(g):
        raise Mismatch('the copy is not similar to the graph')
    expect('rendered', fork(g, how).render(view=False).source, g.copy().render(view=False).source)
    for x in c.nodes + c.edges:
        x.unfreeze()
        x.value, x.label = 'other', 'other'
        for k, v in params.items():
            if x.name != 'b' if hasattr(x, 'name') else True:
                if isinstance(x.get(k), list):
                    x.get(k).append('scribbled')
            x.set(k, 'other')
    observe.same_snapshot('changing the copy changed the graph', before, observe.snapshot(g))
    for x in [a] + g.edges:
        for k, v in params.items():
            expect(f'parameter {k!r} of the graph', x.get(k), v)
    ctx.state(case)


CHILD = r'''
import json, pickle, sys
sys.path.insert(0, sys.argv[2]); sys.path.insert(0, sys.argv[3])
from mc import observe
out = []
for blob in pickle.load(open(sys.argv[1], 'rb')):
    g = pickle.loads(blob)
    snap = repr(sorted(map(repr, observe.snapshot(g).items())))
    text = g.render(view=False).source
    back = pickle.dumps(g)
    g.add_node('late'); g.connect('late', g.nodes[0])
    out.append((snap, text, back, g.render(view=False).source))
pickle.dump(out, open(sys.argv[1] + '.out', 'wb'))
'''


def process_cases(tier, protocols):
    for p in protocols:
        for rendered in (False, True):
            for seed in ('0', '7'):
                yield (p, rendered, seed)


def run_process(ctx, case):
    """all small graphs, dumped here, loaded in another process"""
    protocol, rendered, seed = case
    graphs = []
    for n in (1, 2, 3):
        for i, edges in enumerate(shapes.digraphs(n, max_edges=3)):
            g = observe.build(shapes.names('zyx', n), shapes.plain(edges))
            attributed(g)
            for e in g.edges:       # sets have no fixed order in another process
                e['q'] = [1]
            graphs.append(g)
    for i in range(len(SETTINGS)):
        graphs.append(with_settings((i,), 'plain'))
        graphs.append(with_settings((i,), 'dict'))
    if rendered:
        for g in graphs:
            g.render(view=False)
    from .core import REPO, VERIF
    with tempfile.TemporaryDirectory(prefix='mc-pickle-') as folder:
        path = os.path.join(folder, 'graphs')
        with open(path, 'wb') as f:
            pickle.dump([pickle.dumps(g, protocol=protocol) for g in graphs], f)
        env = dict(os.environ, PYTHONHASHSEED=seed)
        run = subprocess.run([sys.executable, '-B', '-c', CHILD, path, REPO, VERIF], env=env, capture_output=True, text=True, timeout=600)
        if run.returncode != 0:
            raise Mismatch(f'loading in another process failed:\n{run.stderr[-3000:]}')
        with open(path + '.out', 'rb') as f:
            results = pickle.load(f)
    expect('graphs loaded', len(results), len(graphs))
    for g, (snap, text, back, later) in zip(graphs, results):
        mine = repr(sorted(map(repr, observe.snapshot(g).items())))
        if mine != snap:
            raise Mismatch(f'loaded in another process the graph differs:\n{snap}\n{mine}')
        if g.render(view=False).source != text:
            raise Mismatch(f'in another process it renders differently:\n{text}\n{g.render(view=False).source}')
        again = pickle.loads(back)
        observe.same_snapshot('sent back from another process', observe.snapshot(g), observe.snapshot(again))
        g.add_node('late')
        g.connect('late', g.nodes[0])
        if g.render(view=False).source != later:
            raise Mismatch('in another process it goes on differently')
        ctx.step(6)
        ctx.state((case, snap))


RICH = (('addx', 'a', (('label', 'L'), ('value', 1), ('tooltip', 'T'), ('style', 'S1'), ('p', 5))), ('add', 'b'), ('add', 'c'),
        ('con', 'a', 'b', None, 'n', (('label', 'M'), ('value', 2), ('style', 'S2'), ('q', 6))), ('con', 'b', 'a', 'x', 'n'),
        ('con', 'b', 'b', None, 'n'), ('con', 'b', 'c', None, 'n'), ('con', 'c', 'a', None, 'n'), ('freeze', ('n', 'a')))
INITS = [RICH, RICH + (('render',),), RICH + (('rm', 'a', 'n'), ('readd', 0)), ({'style_overwrite_allowed': True, 'strict': True, 'ordering': False},) + RICH]


def stages(tier, hows, pickles=()):
    deep = tier == 'thorough'
    cls = type('Forked', (Twin,), {'hows': hows, 'before': 3 if deep else 2})
    late = type('Later', (Twin,), {'hows': hows[:2], 'before': 1 if deep else 0, 'names': ('a', 'b', 'c'), 'max_edges': 6})
    out = [
        Histories('histories with one copy', cls, 5 if deep else 4, '2 names; operations before the copy, then on either side', inits=[()]),
        Histories('operations after copying grown graphs', late, 3 if deep else 2, 'every operation on either side of 4 grown graphs and their copies (thorough: one before, one after)', inits=INITS),
        Cases('all shapes', lambda: shape_cases(tier, hows), run_shape, 'every digraph on 0-3 nodes (<=%d edges), multigraphs, families; mutable values, styles, rendered or not' % (9 if deep else 4)),
        Cases('every attribute', lambda: attribute_cases(tier, hows), run_attribute, 'every pair of values, also false ones, of labels, tooltips, values, sets of up to 40 parameters, freezing; three copies in a row'),
        Cases('all settings', lambda: setting_cases(tier, hows), run_setting, 'every setting%s, with styles from a dictionary source or not' % (' and pair of settings' if deep else '')),
    ]
    out.append(Cases('both go on', lambda: onward_cases(tier, hows), run_onward, 'graphs on 1-4 nodes that lost one or two nodes and got one back or not: graph and copy get the same new nodes and edges in 3 ways'))
    out.append(Cases('chains of copies', lambda: chain_cases(tier, hows), run_chain, 'chains of %d copies of copies, every pair of ways in turn, with 6 kinds of changes in between' % (24 if deep else 12)))
    if not pickles:
        out.append(Cases('values and converters that cannot be pickled', lambda: unusual_cases(tier, hows), run_unusual, f'{len(UNUSUAL)} kinds of values (functions, classes, local objects, values with their own copying) in 4 places, 9 pairs of converters, rendered or not'))
    if pickles:
        out.append(Cases('another process', lambda: process_cases(tier, pickles), run_process, 'all digraphs on 1-3 nodes with <=3 edges and all settings, dumped with each protocol, loaded under two hash seeds', chunk=1))
    return out
