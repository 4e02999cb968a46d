"""C28: no query, and nothing done to its answer, influences the answer of any query."""
import copy
import itertools
import pickle

from abstract import Edge, Graph, Node
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import observe, shapes, structural
from ..core import Cases, Mismatch, expect, short
from ..twin import attributed

ASSUMPTIONS = ['tables (nodes_dict and the like) are not lists and are read only', 'queries are those of the public interface; update_nodes, update_edges and generate_node_index are internal']


def plain(x, g):
    """an answer as plain data"""
    if isinstance(x, Node):
        return ('node', x.name, x.graph is g)
    if isinstance(x, Edge):
        return ('edge', x.id, x.graph is g)
    if isinstance(x, (NodeStyle, EdgeStyle)):
        return ('style', x.get_graphviz_str())
    if isinstance(x, Graph):
        return ('graph', x is g, [plain_obj(n) for n in x.nodes], [plain_obj(e) for e in x.edges], x.get_graphviz_str()) if x is not g else 'this graph'
    if isinstance(x, dict) or hasattr(x, 'items'):
        return ('dict', [(plain(k, g), plain(v, g)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(i, g) for i in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(repr(plain(i, g)) for i in x))
    if hasattr(x, 'source') and hasattr(x, 'pipe'):
        return ('source', x.source)
    if isinstance(x, (str, int, float, bool, type(None), bytes)):
        return (type(x).__name__, repr(x))
    if hasattr(x, 'hexadecimal'):
        return ('colour', x.hexadecimal)
    return ('other', type(x).__name__)


def plain_obj(x):
    return (x.id, x.label, repr(x.value), observe.real_style(x), tuple(observe.param(x, p) for p in observe.PARAM_KEYS), bool(x.is_frozen))


def ask(fn):
    """the answer, or the exception"""
    try:
        return fn()
    except Exception as e:
        return f'{type(e).__name__}'


def each(what, of=None):
    """a query asked of every node (or edge)"""
    def query(g):
        return [ask(lambda: what(x)) for x in (g.nodes if of is None else g.edges)]
    return query


def each_pair(what):
    def query(g):
        return [ask(lambda: what(x, y)) for x in g.nodes for y in g.nodes]
    return query


def by_name(method, *args):
    def query(g):
        return [ask(lambda: getattr(g, method)(n, *args)) for n in g.nodes_dict]
    return query


def by_object(method, *args):
    def query(g):
        return [ask(lambda: getattr(g, method)(n, *args)) for n in g.nodes]
    return query


def half(g):
    return [n for i, n in enumerate(g.nodes) if i % 2 == 0]


def other():
    h = Graph()
    h.add_node('a', value=100, label='other')
    h.add_node('other')
    h.connect('a', 'other', value=7)
    h.connect('a', 'a', value=7)
    return h


QUERIES = {
    'nodes': lambda g: g.nodes, 'edges': lambda g: g.edges, 'edge table': lambda g: list(g.edges_dict), 'node table': lambda g: list(g.nodes_dict), 'roots': lambda g: g.roots,
    'absolute roots': lambda g: g.absolute_roots, 'leaves': lambda g: g.leaves, 'loop nodes': lambda g: g.loop_nodes, 'node styles': lambda g: g.node_styles, 'edge styles': lambda g: g.edge_styles,
    'background': lambda g: g.background_colour, 'graph tree': lambda g: g.get_tree_str(), 'text': lambda g: g.get_graphviz_str(), 'text, other direction': lambda g: g.get_graphviz_str(direction='BT', height=3, width=4, pad=2),
    'source': lambda g: g.get_graphviz_source(), 'header': lambda g: g.get_graphviz_header(direction='RL'), 'str': lambda g: len(str(g)) > 0, 'repr': lambda g: len(repr(g)) > 0,
    'member by name': lambda g: [n in g for n in list(g.nodes_dict) + ['nobody', 0]], 'member by object': lambda g: [n in g for n in g.nodes], 'foreign member': lambda g: [n in g for n in other().nodes],
    'get node': by_name('get_node'), 'get node by object': by_object('get_node'), 'node name': by_object('get_node_name'), 'unknown node': lambda g: [ask(lambda: g.get_node('nobody')), ask(lambda: g.get_children('nobody'))],
    'to dictionary': lambda g: g.__graph__(), 'copy': lambda g: g.copy(), 'deep copy': lambda g: copy.deepcopy(g), 'pickle': lambda g: pickle.loads(pickle.dumps(g)),
    'convert': lambda g: Graph(g), 'from dictionary': lambda g: Graph.from_dict(g.__graph__()), 'appended elsewhere': lambda g: other().append(g),
    'filter': lambda g: g.filter(nodes=half(g)), 'filter to': lambda g: g.filter(nodes=[n.name for n in half(g)], direction='to'), 'filter from': lambda g: g.filter(nodes=half(g), direction='from'),
    'filter out': lambda g: g.filter(nodes=half(g)[:1], filter_type='exclude'), 'wrong filter': lambda g: ask(lambda: g.filter(nodes=['nobody'])),
    'plus itself': lambda g: ask(lambda: g + g), 'plus other': lambda g: ask(lambda: g + other()), 'other plus it': lambda g: ask(lambda: other() + g), 'add with a function': lambda g: g.add(other(), add_values_function=lambda x, y: (repr(x), repr(y))),
    'plus empty': lambda g: g + Graph(), 'similar to itself': lambda g: g.is_similar_to(g), 'similar to a copy': lambda g: g.is_similar_to(g.copy()), 'similar to other': lambda g: (g.is_similar_to(other()), other().is_similar_to(g)),
    'equal': lambda g: (g == g, g == other(), g != g), 'same loop by name': lambda g: [ask(lambda: g.are_nodes_in_same_loop(x, y)) for x in g.nodes_dict for y in g.nodes_dict],
    'same loop by object': lambda g: [ask(lambda: g.are_nodes_in_same_loop(x, y)) for x in g.nodes for y in g.nodes],
    'node properties': each(lambda n: (n.id, n.name, n.raw_id, n.index, n.label, n.value, n.style, n.is_frozen, n.num_descendants, n.num_outward_edges, n.has_style(), n.graph_style)),
    'node texts': each(lambda n: (n.get_graphviz_str(), n.display_label(), n.display_label_or_value(), len(repr(n)) > 0, len(str(n)) > 0)), 'node trees': each(lambda n: n.get_tree_str()),
    'parents': each(lambda n: n.parents), 'children': each(lambda n: n.children), 'siblings': each(lambda n: n.siblings), 'co-parents': each(lambda n: n.co_parents), 'ancestors': each(lambda n: n.ancestors),
    'descendants': each(lambda n: n.descendants), 'in loop': each(lambda n: n.is_in_loop()), 'in loop with': each_pair(lambda n, m: n.is_in_loop_with(m)), 'child rank': each_pair(lambda n, m: n.get_child_rank(m)),
    'similar nodes': each_pair(lambda n, m: n.is_similar_to(m)), 'equal nodes': each_pair(lambda n, m: (n == m, n != m, ask(lambda: n < m), ask(lambda: hash(n) == hash(m)))),
    'has': each(lambda n: (bool(n.has_children()), bool(n.has_parents()))), 'outward edges': each(lambda n: n.outward_edges), 'inward edges': each(lambda n: n.inward_edges), 'node edges': each(lambda n: n.edges),
    'outward ids': each(lambda n: n.outward_edge_ids), 'inward ids': each(lambda n: n.inward_edge_ids), 'single edges': each(lambda n: ([n.get_outward_edge(i) for i in n.outward_edge_ids], [n.get_inward_edge(i) for i in n.inward_edge_ids])),
    'node parameters': each(lambda n: [ask(lambda: n.get(p)) for p in ('p', 'q', 'label', 'nothing')]), 'node keys': each(lambda n: [ask(lambda: n[p]) for p in ('p', 'nothing')]),
    'edge properties': each(lambda e: (e.id, e.raw_id, e.start, e.end, e.label, e.value, e.style, e.is_frozen, e.has_style(), e.graph_style), 'e'),
    'edge texts': each(lambda e: (e.get_graphviz_str(), e.display_label(), e.display_label_or_value(), len(repr(e)) > 0, len(str(e)) > 0), 'e'), 'edge in loop': each(lambda e: e.is_in_loop(), 'e'),
    'edge parameters': each(lambda e: [ask(lambda: e.get(p)) for p in ('p', 'q', 'nothing')], 'e'), 'similar edges': lambda g: [ask(lambda: x.is_similar_to(y)) for x in g.edges for y in g.edges],
    'equal edges': lambda g: [(x == y, ask(lambda: hash(x) == hash(y))) for x in g.edges for y in g.edges],
}
for _m in ('get_ancestors', 'get_descendants'):
    for _d in (True, False):
        QUERIES[f'{_m} {_d} by name'] = by_name(_m, _d)
        QUERIES[f'{_m} {_d} by object'] = by_object(_m, _d)
for _m in ('get_children', 'get_parents', 'get_siblings', 'get_spouses', 'get_edges', 'get_inward_edges', 'get_outward_edges', 'has_children', 'has_parents', 'has_siblings', 'has_spouses', 'num_children', 'num_parents',
           'num_siblings', 'num_spouses', 'is_node_in_loop'):
    QUERIES[f'{_m} by name'] = by_name(_m)
    QUERIES[f'{_m} by object'] = by_object(_m)
NAMES = list(QUERIES)


def spoil(x, depth=0):
    """does to an answer what its owner may do: lists are emptied or filled, dictionaries of distances too"""
    if isinstance(x, list):
        for i in x:
            spoil(i, depth + 1)
        if depth % 2 == 0 and x:
            x.reverse()
            x.pop()
        x.append(None)
        x.insert(0, 'mine')
    elif isinstance(x, tuple):
        for i in x:
            spoil(i, depth + 1)
    elif type(x) is dict and all(isinstance(v, list) for v in x.values()):
        for v in x.values():
            spoil(v, depth + 1)
        x.clear()
        x['mine'] = ['mine']


#: queries whose answers hold the caller's own lists (values and dictionaries given by the user are not spoilt)
SPOILT = [n for n in NAMES if n not in ('node properties', 'edge properties', 'node texts', 'edge texts', 'node parameters', 'edge parameters', 'node keys', 'to dictionary', 'node styles', 'edge styles')]


def answers(g, names=NAMES):
    return {n: plain(ask(lambda: QUERIES[n](g)), g) for n in names}


def compare(what, g, wanted, names=NAMES):
    got = answers(g, names)
    d = observe.differences(wanted, got)
    d = {k: v for k, v in d.items() if k in got}
    if d:
        k = next(iter(d))
        raise Mismatch(f'{what}: {len(d)} queries answer differently, e.g. {k!r}: before {short(d[k][0], 700)}, now {short(d[k][1], 700)}')


# graphs ---------------------------------------------------------------------------------------------------------------

def make(spec):
    scheme, n, edges, how = spec
    if how in structural.DRESSES:
        return structural.Live(None, scheme, n, edges, how).g
    kw = {}
    if how == 'settings':
        kw = dict(strict=True, ordering=False, label='L', tooltip='t', style_overwrite_allowed=True)
    g = observe.build(shapes.names(scheme, n), edges, **kw)
    if how in ('attributed', 'rendered', 'loaded'):
        attributed(g)
    if how == 'rendered':
        g.render(view=False)
    if how == 'loaded':
        g = pickle.loads(pickle.dumps(g))
    return g


SAMPLES = [('abc', 0, (), 'bare'), ('abc', 1, ((0, 0, None),), 'attributed'), ('abc', 2, ((0, 1, None), (1, 0, None), (0, 1, 'x')), 'loaded'), ('abc', 3, ((0, 1, None), (1, 2, None), (0, 2, None)), 'attributed'),
           ('abc', 4, ((0, 1, None), (0, 2, None), (1, 3, None), (2, 3, None), (3, 3, None)), 'settings'), ('zyx', 3, ((2, 0, None), (0, 1, None), (1, 2, None), (1, 1, None)), 'rendered')]


def graph_cases(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for edges in shapes.digraphs(n, max_edges=None if deep else 3):
            for how in ('bare', 'attributed') if n < 3 or deep else ('bare',):
                yield ('abc', n, shapes.plain(edges), how)
    for edges in shapes.multigraphs(2, 3, 2):
        for how in ('loaded', 'settings', 'rendered'):
            yield ('zyx', 2, edges, how)
    for _, n, edges in shapes.families(6):
        yield ('abc', n, shapes.plain(edges), 'attributed')
    for k, (_, n, edges) in enumerate(shapes.families(12)):
        if n == 12 and (tier == 'thorough' or k % 3 == 0):
            yield ('num', n, shapes.plain(edges), 'attributed')
    for dress in structural.DRESSES:
        for edges in (((0, 1, None), (1, 2, None), (2, 0, None)), ((0, 1, None), (0, 1, 'x1'), (0, 2, None), (2, 2, None))):
            yield ('zyx', 3, edges, dress)
    for t in structural.STRANGE:
        yield (t, 3, ((0, 1, None), (1, 2, None), (2, 0, None), (0, 2, 0)), None)
        yield (t, 3, ((2, 1, None), (1, 0, None), (1, 1, None)), 'alike')
    for ids in structural.STRANGE_IDS:
        yield ('abc', 2, tuple((a, b, i) for a, b in ((0, 1), (1, 1)) for i in ids), 'alike')
    yield from SAMPLES


def run_graph(ctx, spec):
    """on one graph: every query, its answer spoilt, then all queries; in both orders"""
    baseline = answers(make(spec))
    g = make(spec)
    compare('asking a second, equally built graph', g, baseline)
    compare('asking everything a second time', g, baseline)
    compare('asking everything in the opposite order', g, baseline, NAMES[::-1])
    for n in NAMES:
        answer = ask(lambda: QUERIES[n](g))
        expect(f'query {n!r} asked again', plain(answer, g), baseline[n])
        if n in SPOILT:
            spoil(answer)
        expect(f'query {n!r} asked after its answer was changed', plain(ask(lambda: QUERIES[n](g)), g), baseline[n])
        ctx.step(2)
    compare('asking everything after all answers were changed', g, baseline)
    ctx.step(5 * len(NAMES))
    ctx.outcome(baseline)
    ctx.state(spec)


def first_cases(tier):
    """every query as the very first one of a new graph"""
    specs = SAMPLES if tier == 'quick' else [s for s in graph_cases('quick')]
    for spec in specs:
        for n in NAMES:
            yield (spec, n)


_baseline = {}


def run_first(ctx, case):
    spec, n = case
    if spec not in _baseline:
        _baseline[spec] = answers(make(spec))
    baseline = _baseline[spec]
    g = make(spec)
    answer = ask(lambda: QUERIES[n](g))
    expect(f'{n!r} as the first query', plain(answer, g), baseline[n])
    if n in SPOILT:
        spoil(answer)
    compare(f'after the first query {n!r} and changes to its answer', g, baseline)
    ctx.step(len(NAMES) + 1)
    ctx.state(case)


def pair_cases(tier):
    for spec in (SAMPLES[2:5:2] if tier == 'quick' else SAMPLES[1:]):
        for i in range(len(NAMES)):
            yield (spec, i)


def run_pairs(ctx, case):
    """every pair of queries on a new graph"""
    spec, i = case
    if spec not in _baseline:
        _baseline[spec] = answers(make(spec))
    baseline = _baseline[spec]
    data = make(spec)
    for m in NAMES:
        g = data.copy() if spec[3] == 'loaded' else make(spec)
        first = ask(lambda: QUERIES[NAMES[i]](g))
        if NAMES[i] in SPOILT:
            spoil(first)
        expect(f'{m!r} after {NAMES[i]!r}', plain(ask(lambda: QUERIES[m](g)), g), baseline[m])
        ctx.step(2)
    ctx.state(case)


# queries between mutations ------------------------------------------------------------------------------------------------

def last(g):
    return list(g.nodes_dict)[-1]


CHANGES = {
    'add node': lambda g: g.add_node('new'), 'add edge': lambda g: g.connect(list(g.nodes_dict)[0], last(g), id='new'), 'add node and edges': lambda g: (g.add_node('n2'), g.connect('n2', list(g.nodes_dict)[0]), g.connect(list(g.nodes_dict)[0], 'n2')),
    'remove first node': lambda g: g.remove_node(list(g.nodes_dict)[0]), 'remove last node': lambda g: g.remove_node(g.nodes[-1]), 'remove first edge': lambda g: g.edges[0].remove_self(), 'remove last edge': lambda g: g.disconnect(g.edges[-1]),
    'remove edges': lambda g: g.nodes[0].remove_edges(), 'relabel': lambda g: [setattr(x, 'label', 'other') for x in g.nodes[:1] + g.edges[:1]], 'revalue': lambda g: [setattr(x, 'value', 9) for x in g.nodes[-1:] + g.edges[-1:]],
    'restyle': lambda g: [setattr(x, 'style', y) for x, y in zip([n for n in g.nodes if n.style is None][:1] + [e for e in g.edges if e.style is None][:1], (NodeStyle(colour='green'), EdgeStyle(colour='green'))) if isinstance(x, Node) == isinstance(y, NodeStyle)],
    'render': lambda g: g.render(view=False), 'parameter': lambda g: [x.set('p', 'own') for x in g.nodes[:1] + g.edges[:1]], 'freeze': lambda g: [x.freeze() for x in g.nodes[:1] + g.edges[:1]],
    'backward edge': lambda g: g.connect(last(g), list(g.nodes_dict)[0]) if (last(g), list(g.nodes_dict)[0], None) not in g.edges_dict else None,
}
STARTS = [('abc', 3, ((0, 1, None), (1, 2, None)), 'bare'), ('abc', 3, ((0, 1, None), (1, 2, None), (2, 1, None)), 'attributed'), ('abc', 4, ((0, 1, None), (0, 2, None), (1, 3, None), (2, 3, None)), 'loaded')]


def mixed_cases(tier):
    deep = tier == 'thorough'
    for spec in STARTS if deep else STARTS[1:2]:
        for c1 in ['nothing'] + list(CHANGES):
            for c2 in CHANGES:
                yield (spec, c1, c2, deep or c1 in ('nothing', 'add edge', 'remove last edge', 'render'))


def change(g, name):
    if name == 'nothing':
        return None
    try:
        CHANGES[name](g)
    except Exception as e:
        return type(e).__name__


#: the queries tried one at a time between two changes, and those asked afterwards
BETWEEN = NAMES
AFTER = [n for n in NAMES if n not in ('appended elsewhere', 'wrong filter', 'unknown node', 'foreign member', 'add with a function', 'other plus it', 'similar to other', 'plus empty', 'repr', 'str', 'header',
                                       'text, other direction', 'deep copy', 'from dictionary', 'filter to', 'filter from')]


def run_mixed(ctx, case):
    spec, c1, c2, one_by_one = case
    g = make(spec)
    outcomes = change(g, c1), change(g, c2)
    baseline = answers(g, AFTER)
    for n in (BETWEEN if one_by_one else []) + ['everything']:
        g = make(spec)
        if n == 'everything':
            answers(g)
        first = change(g, c1)
        if n == 'everything':
            answers(g)
        else:
            answer = ask(lambda: QUERIES[n](g))
            if n in SPOILT:
                spoil(answer)
        expect(f'outcome of {c1!r} and {c2!r} with {n!r} in between', (first, change(g, c2)), outcomes)
        compare(f'after {c1!r}, asking {n!r}, and {c2!r}', g, baseline, AFTER)
        ctx.step(len(AFTER) + 3)
    ctx.state(case)


# answers kept by the caller while the graph changes -------------------------------------------------------------------------

#: queries whose answers are lists or dictionaries of distances
KEPT = [n for n in SPOILT if n not in ('copy', 'deep copy', 'pickle', 'convert', 'from dictionary', 'appended elsewhere', 'filter', 'filter to', 'filter from', 'filter out', 'plus itself', 'plus other', 'other plus it',
                                       'add with a function', 'plus empty', 'source', 'background', 'get node', 'get node by object', 'unknown node')]


def listed(x):
    """what a kept answer consists of"""
    if isinstance(x, (Node, Edge)):
        return ('object', id(x))
    if isinstance(x, (str, bytes, NodeStyle, EdgeStyle, Graph)):
        return ('value', id(x))
    if hasattr(x, 'items'):
        return ('dict', [(k, listed(v)) for k, v in x.items()])
    if hasattr(x, '__iter__'):
        return ('list', [listed(i) for i in x])
    return ('value', repr(x))


def kept_cases(tier):
    hubs = [('abc', 6, tuple((0, k, None) for k in range(6)) + tuple((k, 5, None) for k in range(1, 5)) + ((5, 0, None), (0, 1, 'x')), how) for how in ('bare', 'attributed')]
    for spec in hubs + STARTS + (list(graph_cases('quick'))[::7] if tier == 'thorough' else []):
        if spec[1]:
            for c in CHANGES:
                yield (spec, c)


def run_kept(ctx, case):
    spec, c = case
    g = make(spec)
    answers_kept = {n: ask(lambda: QUERIES[n](g)) for n in KEPT}
    before = {n: listed(a) for n, a in answers_kept.items()}
    change(g, c)
    for n in KEPT:
        expect(f'answer of {n!r}, kept while the graph changes ({c})', listed(answers_kept[n]), before[n])
    ctx.step(len(KEPT) + 1)
    ctx.state(case)


def rewired_cases(tier):
    k = 0
    for n, edges, other in structural.pairs_of_shapes('quick'):
        k += 1
        if tier == 'thorough' or n == 2 or (n > 3 and k % 2) or (len(edges) == len(other) == len(set(edges) & set(other)) + 1 and len(edges) < 4 and k % 3 == 0):
            yield (n, edges, other)


def run_rewired(ctx, case):
    n, edges, other = case
    g = make(('zyx' if n <= 3 else 'abc', n, edges, 'bare'))
    answers(g)
    (_, ops), order = structural.to('zyx' if n <= 3 else 'abc', n, edges, other)
    for op in ops:
        if op[0] == 'con':
            g.connect(op[1], op[2], id=op[3])
        else:
            g.disconnect(g.edges_dict[op[1]])
    # the inward edges are connected in the same order as well, since each pair has at most one edge per id
    compare(f'after {len(ops)} changes of edges', g, answers(make(('zyx' if n <= 3 else 'abc', n, order, 'bare'))))
    ctx.step(2 * len(NAMES) + len(ops))
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    k = len(NAMES)
    return [
        Cases('graphs', lambda: graph_cases(tier), run_graph, f'{k} queries on every digraph with up to 3 nodes%s, multigraphs and families; %d kinds of settings and data, %d triples of names and %d pairs of ids that are easily confused; all answers changed by their owner' % ('' if deep else ' and 3 edges', len(structural.DRESSES), len(structural.STRANGE), len(structural.STRANGE_IDS))),
        Cases('first', lambda: first_cases(tier), run_first, f'each of {k} queries first, on a new graph, followed by all {k}'),
        Cases('pairs', lambda: pair_cases(tier), run_pairs, f'all {k * k} ordered pairs of queries on %d graphs' % (5 if deep else 2)),
        Cases('between changes', lambda: mixed_cases(tier), run_mixed, f'every pair of {len(CHANGES)} changes with all {k} queries (and %s each alone) before the second; %d start graphs' % (('always', len(STARTS)) if deep else ('for four first changes', 1))),
        Cases('one shape turned into another', lambda: rewired_cases(tier), run_rewired, 'all %d queries before and after edges are removed and others connected, compared with a freshly built graph: pairs of digraphs and multigraphs on 2 nodes, edges moved on 3 nodes, edges exchanging their ends%s' % (k, '' if deep else ' (every second or third)')),
        Cases('answers kept', lambda: kept_cases(tier), run_kept, f'answers of {len(KEPT)} queries kept by the caller while the graph changes in {len(CHANGES)} ways, on hubs and other graphs: they stay what they were'),
    ]
