"""C21: rendering every shape, repeatedly and between changes."""
import itertools

from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import heap, long, observe, shapes
from ..core import Cases, Histories, Mismatch, expect

ASSUMPTIONS = ['when overwriting styles is allowed the random stylist may restyle nodes']

STYLISTS = ('pensieve', 'random')


def bare(g):
    """everything that rendering must leave alone"""
    s = observe.snapshot(g, source=False, trees=len(g.nodes) < 4)
    s['nodes'] = [x[:3] + x[4:] for x in s['nodes']]
    s['edges'] = [x[:3] + x[4:] for x in s['edges']]
    s['tooltips'] = [x._tooltip if hasattr(x, '_tooltip') else None for x in g.nodes + g.edges]
    return s


def styles(g):
    return {**{('n', x.name): observe.real_style(x) for x in g.nodes}, **{('e',) + x.id: observe.real_style(x) for x in g.edges}}


def render(ctx, g, keep=True, **kw):
    """renders and judges; returns the text"""
    before, had = bare(g), styles(g)
    held = {id(x): x.style for x in g.nodes + g.edges if x.style is not None}
    source, error, _ = observe.call(lambda: g.render(view=False, **kw))
    if error is not None:
        raise Mismatch(f'rendering failed: {type(error).__name__}: {error}')
    text = source.source
    ctx.step()
    observe.same_snapshot('rendering changed the graph', before, bare(g))
    now = styles(g)
    for k, t in now.items():
        if t is None:
            raise Mismatch(f'{k} has no style after rendering')
        if keep and had[k] is not None and had[k] != t:
            raise Mismatch(f'the style of {k} changed: {had[k]} to {t}')
    for x in g.nodes + g.edges:
        if not x.has_style():
            raise Mismatch(f'has_style of {x} is false after rendering')
    again = g.render(view=False, **kw).source
    ctx.step()
    if again != text:
        raise Mismatch(f'rendering again gives another text:\n{text}\n{again}')
    if not kw and text.rstrip('\n') != g.get_graphviz_str().rstrip('\n'):
        raise Mismatch('the rendered text differs from the text of the graph')
    expect('styles after rendering again', styles(g), now)
    p = observe.parse_source(text)
    expect('number of nodes in the text', len(p.nodes), len(g.nodes))
    expect('number of edges in the text', len(p.edges), len(g.edges))
    for name, a in p.nodes.items():
        if 'fillcolor' not in a or 'shape' not in a:
            raise Mismatch(f'node {name!r} is rendered without style')
    for s, e, a in p.edges:
        if 'color' not in a or 'arrowsize' not in a:
            raise Mismatch(f'edge {s!r} to {e!r} is rendered without style')
    return text


VALUES = (None, 0, 1, 2.5, -3, True, 'text', [1], {'k': 1}, (), 10 ** 400, float('nan'), float('inf'), 1j, b'x', object, '')


def shape_cases(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for e in shapes.digraphs(n):
            for stylist in STYLISTS:
                yield ('zyx', n, shapes.plain(e), stylist, ())
    for e in shapes.digraphs_iso(4, loops=True) if deep else shapes.digraphs(4, loops=True, max_edges=3):
        yield ('abc', 4, shapes.plain(e), STYLISTS[len(e) % 2], ())
        if deep:
            yield ('abc', 4, shapes.plain(e), STYLISTS[1 - len(e) % 2], ())
    if deep:
        for e in shapes.digraphs(4, loops=False):
            yield ('num', 4, shapes.plain(e), 'pensieve', ())
    else:
        for e in shapes.digraphs(4, loops=False, min_edges=5):
            if len(e) > 6:
                continue
            yield ('num', 4, shapes.plain(e), 'pensieve', ())
    for e in shapes.multigraphs(2, 5 if deep else 4, 3):
        for stylist in STYLISTS:
            yield ('abc', 2, e, stylist, ())
    for e in shapes.multigraphs(3, 4 if deep else 3, 2):
        for stylist in STYLISTS:
            yield ('abc', 3, e, stylist, ())
    for _, n, e in shapes.families(30 if deep else 12):
        for stylist in STYLISTS:
            yield ('abc', n, shapes.plain(e), stylist, ())
    for _, n, e in shapes.diamonds(20 if deep else 9):
        for stylist in STYLISTS:
            yield ('abc', n, shapes.plain(e), stylist, ())
    # some of the nodes and edges have a style of their own
    for n in (1, 2, 3):
        for e in shapes.digraphs(n, max_edges=9 if deep else 4):
            items = n + len(e)
            for mask in range(1, 2 ** items):
                if bin(mask).count('1') <= (items if deep and n < 3 else 2 if deep else 1) or mask == 2 ** items - 1:
                    yield ('abc', n, shapes.plain(e), STYLISTS[mask % 2], tuple(i for i in range(items) if mask >> i & 1))


def make(scheme, n, edges, stylist, own, **kw):
    g = observe.build(shapes.names(scheme, n), edges, stylist=stylist, **kw)
    for k, x in enumerate(g.nodes + [g.edges_dict[shapes.names(scheme, n)[a], shapes.names(scheme, n)[b], i] for a, b, i in edges]):
        if k in own:
            x.style = NodeStyle(colour='red', shape='star') if k < n else EdgeStyle(colour='blue', line_width=9)
    return g


def run_shape(ctx, case):
    scheme, n, edges, stylist, own = case
    g = make(scheme, n, edges, stylist, own)
    text = render(ctx, g)
    # equal graphs, one rendered first with other parameters, end alike
    h = make(scheme, n, edges, stylist, own)
    render(ctx, h, direction='TB')
    expect('text of an equal graph rendered otherwise before', render(ctx, h), text)
    # growing the rendered graph and rendering again
    if n:
        names = shapes.names(scheme, n)
        g.add_node('new')
        g.connect('new', names[0])
        g.connect(names[-1], 'new')
        g.connect(names[-1], 'new', id='p', value=3)
        render(ctx, g)
        g.remove_node(names[0])
        render(ctx, g)
    ctx.state(case)
    ctx.outcome(text)


def value_cases(tier):
    for stylist in STYLISTS:
        for i, j in itertools.product(range(len(VALUES)), repeat=2):
            yield (stylist, i, j)


def run_value(ctx, case):
    stylist, i, j = case
    g = Graph(stylist=stylist)
    g.add_node('a', value=VALUES[i])
    g.add_node('b', value=VALUES[j])
    g.connect('a', 'b', value=VALUES[i])
    g.connect('a', 'b', id='x', value=VALUES[j])
    g.connect('b', 'b', value=VALUES[j])
    g.connect('b', 'a', value=VALUES[i])
    render(ctx, g)
    ctx.state(case)


KW = [{}, {'style_overwrite_allowed': True}, {'node_style': {'shape': 'circle'}}, {'edge_style': {'line_width': 3}}, {'node_style': {'shape': 'auto'}}, {'node_style': {'shape': 'Auto', 'text_size': 4}},
      {'node_style': 'object'}, {'edge_style': 'object'}, {'colour_scheme': 'pastel15'}, {'colour_scheme': 'pensieve'}, {'node_label_converter': str.upper}, {'edge_label_converter': repr},
      {'label': None}, {'label': '<b>x</b>'}, {'label_background_colour': 'red'}, {'strict': True}, {'ordering': False}, {'background_colour': 'black'}, {'tooltip': 't'}, {'rotate': 90}]


def setting_cases(tier):
    deep = tier == 'thorough'
    graphs = [(0, ()), (1, ()), (1, ((0, 0),)), (2, ((0, 1),)), (3, ((0, 1), (1, 2), (2, 1))), (3, ((0, 1), (1, 0), (0, 2), (1, 2))), (4, ((0, 1), (0, 2), (1, 3), (2, 3)))]
    for i, j in itertools.combinations_with_replacement(range(len(KW)), 2):
        if set(KW[i]) & set(KW[j]) and i != j:
            continue
        for stylist in STYLISTS:
            for n, e in graphs if deep or i == j or i < 9 else graphs[3:5]:
                for own in ((), (0,), (n,)):
                    if all(k < n + len(e) for k in own):
                        yield (i, j, stylist, n, e, own)


def run_setting(ctx, case):
    i, j, stylist, n, e, own = case
    kw = {**KW[i], **KW[j]}
    if kw.get('node_style') == 'object':
        kw['node_style'] = NodeStyle(colour='green', shape='hexagon')
    if kw.get('edge_style') == 'object':
        kw['edge_style'] = EdgeStyle(colour='green', line_width=4)
    try:
        g = make('abc', n, shapes.plain(e), stylist, own, **kw)
    except ValueError as error:
        if 'colour_scheme' in kw:
            return
        raise error
    keep = not kw.get('style_overwrite_allowed') and not isinstance(kw.get('node_style'), dict) and not isinstance(kw.get('edge_style'), dict)
    text = render(ctx, g, keep=keep)
    g.add_node('another')
    for x in list(g.nodes):
        if ('another', x.name, None) not in g.edges_dict:
            g.connect('another', x, value=2)
    render(ctx, g, keep=keep)
    ctx.state(case)
    ctx.outcome(text)


def worn_cases(tier):
    for stylist in STYLISTS:
        for k in range(len(KW)):
            for change in ('nothing', 'grow', 'replace', 'reconnect', 'copy', 'other'):
                yield (stylist, k, change, 30 if tier == 'thorough' else 12)


def run_worn(ctx, case):
    """the same graph rendered many times over, with one kind of change in between"""
    stylist, k, change, times = case
    kw = dict(KW[k])
    if kw.get('node_style') == 'object':
        kw['node_style'] = NodeStyle(colour='green', shape='hexagon')
    if kw.get('edge_style') == 'object':
        kw['edge_style'] = EdgeStyle(colour='green', line_width=4)
    g = observe.build('zyx', ((0, 1, None), (1, 2, None), (2, 1, None), (0, 2, 'x1')), stylist=stylist, **kw)
    keep = not kw.get('style_overwrite_allowed') and not isinstance(kw.get('node_style'), dict) and not isinstance(kw.get('edge_style'), dict)
    first = text = render(ctx, g, keep=keep)
    for i in range(times):
        if change == 'grow':
            g.add_node(f'n{i}', value=i)
            g.connect('zyx'[i % 3], f'n{i}', value=i)
            if i % 2:
                g.connect(f'n{i}', f'n{i - 1}')
        elif change == 'replace':
            g.remove_node('y')
            g.add_node('y')
            g.connect('z', 'y')
            g.connect('y', 'x')
        elif change == 'reconnect':
            g.disconnect(g.edges_dict['z', 'y', None])
            g.connect('z', 'y')
        elif change == 'copy':
            g = g.copy()
        elif change == 'other':
            h = observe.build('ab', ((0, 1, None),), stylist=stylist)
            render(ctx, h)
        text = render(ctx, g, keep=keep)
        if change in ('nothing', 'copy', 'other'):
            expect(f'text of rendering {i}', text, first)
    ctx.state(case)
    ctx.outcome(text)


class Rendered:
    """a graph that is changed and rendered in any order"""
    names = ('a', 'b', 'c')
    max_edges = 4

    def __init__(self, ctx, init):
        self.ctx, self.stylist = ctx, init[0]
        self.g = Graph(stylist=self.stylist, style_overwrite_allowed=False)
        self.count = 0

    def ops(self):
        have = [n for n in self.names if n in self.g]
        out = []
        for n in self.names:
            if n in have:
                out.append(('rm', n))
            elif n == self.names[len(have)] or len(have) >= len(self.names) - 1:
                out.append(('add', n))
                out.append(('add styled', n))
        keys = list(self.g.edges_dict)
        if len(keys) < self.max_edges:
            for s in have:
                for e in have:
                    if (s, e, None) not in keys:
                        out.append(('con', s, e))
        for k in keys:
            out.append(('dis', k))
        if have:
            out.append(('render',))
        return out

    def apply(self, op):
        g = self.g
        self.text = None
        if op[0] == 'add':
            g.add_node(op[1])
        elif op[0] == 'add styled':
            g.add_node(op[1], style=NodeStyle(colour='red'))
        elif op[0] == 'rm':
            g.remove_node(op[1])
        elif op[0] == 'con':
            g.connect(op[1], op[2])
        elif op[0] == 'dis':
            g.disconnect(g.edges_dict[op[1]])
        elif op[0] == 'render':
            self.text = render(self.ctx, g)
            self.ctx.outcome(self.text)

    def check(self):
        observe.parse_source(self.g.get_graphviz_str())

    def fingerprint(self):
        return heap.fingerprint(self.g)

    def key(self):
        return (self.stylist, [x.name for x in self.g.nodes], list(self.g.edges_dict), styles(self.g))


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('shapes', lambda: shape_cases(tier), run_shape, 'every digraph on 0-3 nodes, 4 nodes%s, multigraphs, families; both stylists; every choice of %s own styles; then grown, shrunk and rendered again' % (' (all without loops, with loops up to isomorphism)' if deep else ' (<=3 edges, without loops 5-6)', 'two' if deep else 'one or all')),
        Cases('values', lambda: value_cases(tier), run_value, f'every pair of {len(VALUES)} node and edge values, both stylists'),
        Cases('settings', lambda: setting_cases(tier), run_setting, f'every pair of {len(KW)} settings, both stylists, {7} graphs'),
        Cases('rendered many times', lambda: worn_cases(tier), run_worn, 'both stylists, %d settings, 6 kinds of changes between %d renderings' % (len(KW), 30 if deep else 12)),
        Histories('changes and renderings', Rendered, 6 if deep else 5, '3 names, <=4 edges; both stylists; adding, styling, removing, connecting, disconnecting, rendering in every order', inits=[('pensieve',), ('random',)]),
        long.stage(long.render),
    ]
