"""C14: conversion through the dictionary representation, from every kind of source, any number of times."""
import copy
import itertools

from abstract import Graph

from .. import long, observe, shapes, structural
from ..core import Cases, HarnessError, Mismatch, expect
from ..ref import RGraph
from . import c22
from .c13 import attrs, change, keyed, real, reference, shaped

ASSUMPTIONS = ['sources that are appended do not give different styles to the same element, unless overwriting is allowed']


class Exposing:
    """any object with a representation"""

    def __init__(self, g):
        self.g = g

    def __graph__(self):
        return self.g.__graph__()


class Sub(Graph):
    pass


WAYS = ('graph', 'dict', 'from_dict', 'object', 'append', 'list', 'tuple', 'nested')


def convert(g, way):
    if way == 'graph':
        return Graph(g)
    if way == 'dict':
        return Graph(g.__graph__())
    if way == 'from_dict':
        return Graph.from_dict(g.__graph__())
    if way == 'object':
        return Graph(Exposing(g))
    if way == 'append':
        x = Graph()
        if x.append(g) is not x:
            raise Mismatch('append does not return the graph')
        return x
    if way == 'list':
        return Graph([g])
    if way == 'tuple':
        return Graph(obj=(Exposing(g),))
    if way == 'nested':
        return Graph([[g.__graph__()]])
    if way == 'sub':
        return Sub(g)
    raise HarnessError(way)


def flags(g, r, what):
    d = g.__graph__()
    expect(f'{what}: strictness', bool(d['strict']), bool(r.strict))
    expect(f'{what}: ordering', bool(d['ordering']), bool(r.ordering))
    expect(f'{what}: strict in the source', observe.parse_source(g.get_graphviz_str()).strict, bool(r.strict))


def shallow(rep):
    """the representation as plain data"""
    def plain(x):
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        return x.get_graphviz_str() if hasattr(x, 'get_graphviz_str') else x
    return plain(rep)


def run(ctx, case):
    spec, chain, rendered = case
    g, r = real(spec), reference(spec)
    styled = not rendered
    if rendered:
        g.render(view=False)
    before = observe.snapshot(g)
    rep = shallow(g.__graph__())
    made = [g]
    for way in chain:
        made.append(convert(made[-1], way))
        ctx.step()
    ctx.state((r.key(), chain, rendered))
    observe.same_snapshot('converting changed the source', before, observe.snapshot(g))
    first = None
    for k, c in enumerate(made[1:], 1):
        what = f'conversion {k} ({chain[k - 1]}): '
        if c is g:
            raise Mismatch(f'{what}the result is the source')
        observe.check_content(c, r, what, styles=styled)
        flags(c, r, what)
        for n in g.nodes:
            expect(f'{what}style of {n.name!r}', observe.real_style(c.get_node(n.name)), observe.real_style(n))
        for key, e in g.edges_dict.items():
            expect(f'{what}style of {key}', observe.real_style(c.edges_dict[key]), observe.real_style(e))
        got = shallow(c.__graph__())
        for part in ('nodes', 'edges', 'strict', 'ordering'):
            expect(f'{what}representation, {part}', got[part], rep[part])
        snap = observe.snapshot(c)
        if first is None:
            first = (snap, c.copy().render(view=False).source)
        else:
            observe.same_snapshot(f'{what}another conversion changed something', first[0], snap)
            again = c.copy().render(view=False).source
            if again != first[1]:
                raise Mismatch(f'{what}renders differently:\n{again}\n{first[1]}')
    snaps = [observe.snapshot(c) for c in made[:-1]]
    change(made[-1])
    for s, c in zip(snaps, made):
        observe.same_snapshot('changing a conversion changed its source', s, observe.snapshot(c))
    last = convert(g, chain[0])
    change(g)
    observe.check_content(last, r, 'after the source changed: ', styles=styled)
    ctx.step(3)


def single(tier):
    vals = list(attrs((None, 'L', '', 'a "b"'), (None, 0, 2, 'text', [1], False, 2.5), (None, 'S1')))
    for x in vals:
        yield ((), (('a', x),), ())
        yield ((), (('b', ()), ('a', x)), (('a', 'b', None, ()), ('b', 'a', 'x', x)))
        yield ((), (('b', ()), ('a', x)), (('a', 'a', 0, x), ('a', 'a', None, ()), ('b', 'a', '', ())))
    for s in ((('strict', True),), (('ordering', False),), (('strict', True), ('ordering', False))):
        yield (s, (('b', ()), ('a', ())), (('b', 'a', None, ()),))
    yield ((), ((3, ()), (1, (('label', 'one'),)), (2, ())), ((3, 1, None, ()), (1, 2, 7, ()), (2, 2, None, ())))
    yield ((), (), ())


def small(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for e in shapes.digraphs(n, max_edges=9 if deep else 5):
            yield shaped(shapes.names('zyx', n), e, 1)
    for e in shapes.multigraphs(2, 4, 3):
        yield shaped('ba', e, 1)
    for _, n, e in shapes.families(20 if deep else 12):
        if n > 8:
            yield shaped(shapes.names('num', n), e, 1)
    for e in itertools.permutations([(0, 1), (1, 0), (1, 1), (0, 2), (2, 1)], 4 if not deep else 5):
        yield shaped('bca', e, 1)


def cases(tier):
    for spec in single(tier):
        for way in WAYS:
            yield (spec, (way,), False)
            yield (spec, (way, 'graph'), True)
    for i, spec in enumerate(small(tier)):
        if tier == 'thorough':
            for way in WAYS:
                yield (spec, (way, WAYS[i % len(WAYS)]), False)
        else:
            yield (spec, (WAYS[i % len(WAYS)], WAYS[i // 8 % len(WAYS)]), i % 3 == 0)


def strange_cases(tier):
    specs = [keyed(structural.names_of(names, n), e, 1) for names, n, e in structural.confusable(2 if tier == 'thorough' else 1)]
    specs += [shaped(shapes.names('num', n), e, 1) for n, e in shapes.large(0.8 if tier == 'thorough' else 0.4)]
    for i, spec in enumerate(specs):
        for k in range(len(WAYS) if tier == 'thorough' else 2):
            yield (spec, (WAYS[(i + k * 3) % len(WAYS)], WAYS[(i // 8 + k) % len(WAYS)]), False)


def chains(tier):
    spec = ((('strict', True),), (('b', (('label', 'B'), ('value', 0), ('style', 'S1'))), ('a', (('value', [1]),))),
            (('a', 'b', None, (('label', 'x'),)), ('b', 'a', 'k', (('value', 3), ('style', 'S2'))), ('b', 'b', None, ())))
    for n in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        for chain in itertools.product(WAYS, repeat=n):
            yield (spec, chain, len(chain) % 2 == 0)
    for k in (8, 20):
        for way in WAYS:
            yield (spec, (way,) * k, False)
    for other in ('sub',):
        yield (spec, (other, 'graph', other), False)


# settings of the source survive any number of conversions unchanged ------------------------------------------------

LABELS = (None, '', 'text', '\ntext', '\n\nx', ' y', '<b>z</b>', 'a "q"')


def setting_cases(tier):
    for label in LABELS:
        for kw in ({}, {'label_url': None}, {'node_style': {'shape': 'circle'}}, {'edge_style': {'line_width': 4}}, {'colour_scheme': 'pastel15'}):
            for way in WAYS:
                yield (label, tuple(kw.items()), way)


def run_settings(ctx, case):
    label, kw, way = case
    g = observe.build(('a', 'b'), ((0, 1, None),), label=label, **{k: copy.deepcopy(v) for k, v in kw})
    before = observe.snapshot(g)
    results = []
    c = g
    for _ in range(4):
        c = convert(c, way)
        results.append((c.get_graphviz_str(), c.copy().render(view=False).source))
        ctx.step()
    for k, x in enumerate(results[1:], 2):
        if x != results[0]:
            raise Mismatch(f'conversion {k} differs from the first:\n{x}\n{results[0]}')
    observe.same_snapshot('the source changed', before, observe.snapshot(g))
    wanted = dict(kw).get('node_style')
    if wanted:
        expect('graph-wide node style', {a.get('shape') for a in observe.parse_source(results[0][1]).nodes.values()}, {'circle'})
    wanted = dict(kw).get('edge_style')
    if wanted:
        expect('graph-wide edge style', {a.get('penwidth') for _, _, a in observe.parse_source(results[0][1]).edges}, {'4'})
    ctx.state(case)


# several sources -------------------------------------------------------------------------------------------------

SOURCES = [
    ((), (('a', (('label', 'A1'), ('value', 1))), ('b', ())), (('a', 'b', None, (('label', 'e1'), ('value', 5))),)),
    ((('strict', True),), (('b', (('value', 0), ('label', 'B2'))), ('c', (('style', 'S1'),))), (('b', 'c', None, ()), ('c', 'b', 'x', (('value', 0),)))),
    ((('ordering', False),), (('b', ()), ('a', (('value', 7),))), (('a', 'b', None, (('value', 6),)), ('a', 'b', 'x', ()), ('a', 'a', None, (('label', 'loop'),)))),
    ((), (), ()),
    ((), (('d', (('label', 'D'),)), ('a', (('label', 'A5'),))), (('d', 'a', None, (('style', 'S2'),)),)),
]


def merged(specs):
    out = RGraph()
    for spec in specs:
        r = reference(spec)
        out.strict, out.ordering = r.strict, r.ordering
        for n, rn in r.nodes.items():
            if n not in out.nodes:
                out.add(n, label=rn.label, value=rn.value, style=rn.style)
            else:
                update(out.nodes[n], rn)
        for n in r.nodes:
            for k in r.out_keys(n):
                re = r.edges[k]
                if k not in out.edges:
                    out.connect(*k, label=re.label, value=re.value, style=re.style)
                else:
                    update(out.edges[k], re)
    return out


def update(x, y):
    x.label = y.label if y.label is not None else x.label
    x.value = y.value if y.value is not None else x.value
    x.style = y.style if y.style is not None else x.style


def several_cases(tier):
    for n in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        for t in itertools.product(range(len(SOURCES)), repeat=n):
            for how in ('list', 'tuple', 'append', 'nested', 'dicts', 'mixed', 'gaps', 'append gaps'):
                yield (t, how, True)
            if len(set(t)) == len(t):
                yield (t, 'list', False)


def run_several(ctx, case):
    t, how, overwrite = case
    specs = [SOURCES[i] for i in t]
    gs = [real(s) for s in specs]
    snaps = [observe.snapshot(g) for g in gs]
    kw = {'style_overwrite_allowed': overwrite}
    if how == 'list':
        c = Graph(gs, **kw)
    elif how == 'tuple':
        c = Graph(tuple(gs), **kw)
    elif how == 'nested':
        c = Graph([gs[0], list(gs[1:])] if len(gs) > 1 else [gs], **kw)
    elif how == 'dicts':
        c = Graph([g.__graph__() for g in gs], **kw)
    elif how == 'gaps':
        c = Graph([[], [gs[0], []], (), gs[1:], [[]]], **kw)
    elif how == 'append gaps':
        c = Graph(**kw)
        for x in [[], gs, (), [[]]]:
            if c.append(x) is not c:
                raise Mismatch('append did not return the graph')
    elif how == 'mixed':
        c = Graph([(g, g.__graph__(), Exposing(g))[i % 3] for i, g in enumerate(gs)], **kw)
    else:
        c = Graph(**kw)
        for g in gs:
            c.append(g)
    wanted = merged(specs)
    observe.check_content(c, wanted, f'{how}: ')
    flags(c, wanted, how)
    for s, g in zip(snaps, gs):
        observe.same_snapshot('a source changed', s, observe.snapshot(g))
    change(c)
    for s, g in zip(snaps, gs):
        observe.same_snapshot('changing the result changed a source', s, observe.snapshot(g))
    ctx.step(len(gs))
    ctx.state(case)


# written-out dictionaries -----------------------------------------------------------------------------------------

def form_cases(tier):
    deep = tier == 'thorough'
    edge_sets = [e for n in (1, 2) for e in shapes.digraphs(n)] + list(shapes.digraphs(3, max_edges=4 if deep else 3))
    for edges in edge_sets:
        n = max([x for e in edges for x in e], default=0) + 1
        for nodes in ('list', 'tuple', 'mapping', 'attributes', 'keys'):
            for parts in ('two', 'three', 'mixed', 'lists', 'attributes'):
                if not deep and len(edges) > 2 and (len(edges) + len(nodes)) % 2:
                    continue
                yield (n, edges, nodes, parts)


def run_form(ctx, case):
    n, edges, nodes, parts = case
    names = shapes.names('zyx', n)
    r = RGraph()
    table = {}
    for i, x in enumerate(names):
        if nodes == 'attributes':
            r.add(x, label=f'label {i}' if i % 2 == 0 else None, value=[i], style='S1' if i == 0 else None)
            table[x] = {'label': r.nodes[x].label, 'value': [i]} if i % 2 == 0 else {'value': [i]}
            if i == 0:
                table[x]['style'] = dict(observe.NODE_STYLES['S1'])
        else:
            r.add(x)
            table[x] = {}
    given_nodes = {'list': list(names), 'tuple': tuple(names), 'mapping': table, 'attributes': table, 'keys': table.keys()}[nodes]
    given_edges = []
    for k, (a, b) in enumerate(edges):
        s, e = names[a], names[b]
        if parts == 'attributes':
            i = [None, 'x', 5][k % 3]
            r.connect(s, e, i, label=f'edge {k}', value=k, style='S2' if k == 0 else None)
            d = {'label': f'edge {k}', 'value': k}
            if i is not None:
                d['id'] = i
            if k == 0:
                d['style'] = observe.edge_style('S2')
            given_edges.append((s, e, d))
        else:
            r.connect(s, e, None)
            three = parts == 'three' or (parts == 'mixed' and k % 2)
            given_edges.append(((s, e, {}) if three else [s, e] if parts == 'lists' else (s, e)))
    rep = {'nodes': given_nodes, 'edges': tuple(given_edges) if parts == 'two' else given_edges}
    before = repr(shallow({'edges': rep['edges'], 'nodes': list(given_nodes) if nodes == 'keys' else given_nodes}))
    for make in (Graph, Graph.from_dict, lambda d: Graph().append(d), lambda d: Graph(Exposing2(d))):
        g = make(rep)
        observe.check_content(g, r)
        flags(g, r, 'written-out dictionary')
        g.render(view=False)
        change(g)
        after = repr(shallow({'edges': rep['edges'], 'nodes': list(given_nodes) if nodes == 'keys' else given_nodes}))
        expect('the dictionary', after, before)
        ctx.step()
    g = Graph({**rep, 'strict': True, 'ordering': False})
    r.strict, r.ordering = True, False
    observe.check_content(g, r)
    flags(g, r, 'written-out dictionary with settings')
    ctx.state(case)


class Exposing2:
    def __init__(self, d):
        self.d = d

    def __graph__(self):
        return self.d


# sources with styles and colours per element -----------------------------------------------------------------------

def element_cases(tier):
    for per in c22.per_sets(3 if tier == 'thorough' else 2):
        for way in WAYS:
            for own in c22.OWN[:4] if len(per) < 2 or tier == 'thorough' else c22.OWN[:1]:
                yield (own, per, way)


def run_element(ctx, case):
    own, per, way = case
    spec = (own, (), per, False, 'keyword')
    g = c22.build(spec, c22.Shared())
    wanted = c22.looks(c22.build(spec, c22.Shared()))
    rep, before = shallow(g.__graph__()), observe.snapshot(g)
    made = [g]
    for _ in range(3):
        made.append(convert(made[-1], way))
        ctx.step()
    for k, c in enumerate(made):
        got = shallow(c.__graph__())
        for part in rep:
            if part not in ('label',):
                expect(f'representation of conversion {k}, {part}', got[part], rep[part])
    observe.same_snapshot('converting changed the source', before, observe.snapshot(g))
    for k, c in list(enumerate(made))[::-1]:
        expect(f'styles of conversion {k}', c22.looks(c), wanted)
        expect(f'styles of conversion {k}, again', c22.looks(c), wanted)
    ctx.state(case)


# what is no representation; settings that are left to the source ------------------------------------------------------------

EDGES = [[()], [('a',)], [('a', 'b', {}, 1)], [('a', 'b', {}, {}, {})], [['a', 'b'], ['b']], [('b', 'a'), ('a', 'b', {'id': 1}, 7)]]
OTHERS = [1, 'text', 2.5, True, object(), {1, 2}, b'x', range(3)]


def refused_cases(tier):
    for i in range(len(EDGES)):
        for how in ('new', 'from_dict', 'append', 'object', 'list'):
            yield ('edges', i, how)
    for i in range(len(OTHERS)):
        for how in ('new', 'from_dict', 'append', 'object', 'list'):
            yield ('other', i, how)


def run_refused(ctx, case):
    kind, i, how = case
    rep = {'nodes': ['a', 'b'], 'edges': EDGES[i]} if kind == 'edges' else OTHERS[i]
    make = {'new': Graph, 'from_dict': Graph.from_dict, 'append': lambda d: Graph().append(d), 'object': lambda d: Graph(Exposing2(d)), 'list': lambda d: Graph([d])}[how]
    try:
        g = make(rep)
    except Exception:
        ctx.step()
        ctx.state(case)
        return
    raise Mismatch(f'{how}: {rep!r} made a graph with nodes {list(g.nodes_dict)} and edges {list(g.edges_dict)}')


SCHEMES = ('pensieve', 'pensieve2', 'pastel15')


def left_cases(tier):
    for spec in shaped('abc', ((0, 1), (1, 2)), 0), shaped('ba', ((0, 1), (1, 0)), 1), shaped('abcdef', (), 0):
        for scheme in SCHEMES:
            for asked in (None,) + SCHEMES:
                for stylist in ('pensieve', None, 'random'):
                    for how in ('dict', 'object'):
                        yield (spec, scheme, asked, stylist, how)
                yield (spec, scheme, asked, 'pensieve', 'graph')


def run_left(ctx, case):
    spec, scheme, asked, stylist, how = case
    _, nodes, edges = spec
    spec = ((('colour_scheme', scheme),) + spec[0], nodes, edges)
    g = real(spec)
    rep = {**g.__graph__(), 'stylist': 'pensieve', 'style_overwrite_allowed': True}
    source = g if how == 'graph' else rep if how == 'dict' else Exposing2(rep)
    c = Graph(source, colour_scheme=asked, stylist=stylist)
    wanted = real(((('colour_scheme', asked or scheme), ('stylist', stylist or 'pensieve')) + spec[0][1:], nodes, edges))
    looks = [[(str(k), observe.real_style(x)) for k, x in list(h.nodes_dict.items()) + list(h.edges_dict.items())] for h in map(rendered, (c, wanted))]
    if stylist != 'random':
        expect('styles', looks[0], looks[1])
    else:
        colours = {str(n.style.colour.hexadecimal) for n in c.nodes if n.style is not None}
        expect('nodes with a style', sum(n.style is not None for n in c.nodes), len(c.nodes))
        ctx.outcome(sorted(colours))
    if how != 'graph':
        for n in c.nodes:
            n.style = {'shape': 'hexagon'}            # the source allows overwriting
            expect('style', 'hexagon' in n.style.get_graphviz_str(), True)
    ctx.step(2)
    ctx.state(case)


def rendered(g):
    g.render(view=False)
    return g


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('every way, every small graph', lambda: cases(tier), run, 'all attribute combinations on small graphs, every digraph on 0-3 nodes (<=%d edges), multigraphs, edge orders; 8 ways of conversion, twice' % (9 if deep else 5)),
        Cases('confusable names and ids, large graphs', lambda: strange_cases(tier), run, '%d triples of names and %d pairs of ids; regular graphs beyond the size of the families; 8 ways of conversion, twice' % (len(structural.STRANGE), len(structural.STRANGE_IDS))),
        Cases('chains of conversions', lambda: chains(tier), run, 'every chain of up to %d of the 8 ways; 20-fold repetitions' % (4 if deep else 3)),
        Cases('settings', lambda: setting_cases(tier), run_settings, 'graph labels and styles through 4 conversions by each way'),
        Cases('styles and colours per element', lambda: element_cases(tier), run_element, f'every set of up to {3 if deep else 2} of {len(c22.PER)} per-element entries, 8 ways, 3 conversions'),
        Cases('several sources', lambda: several_cases(tier), run_several, 'every sequence of up to %d of 5 overlapping graphs, in 6 forms' % (4 if deep else 3)),
        Cases('written-out dictionaries', lambda: form_cases(tier), run_form, 'digraphs on <=3 nodes; 5 forms of nodes, 5 forms of edges'),
        Cases('what is no representation', lambda: refused_cases(tier), run_refused, f'{len(EDGES)} malformed edge lists and {len(OTHERS)} other objects, in 5 ways'),
        Cases('settings left to the source', lambda: left_cases(tier), run_left, 'every colour scheme of the source and asked for, with and without a stylist, three kinds of source'),
        long.stage(long.conversions),
    ]
