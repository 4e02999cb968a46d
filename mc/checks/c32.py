"""C32: whatever is cut short, at any moment and by any error of the user's own code, comes through and does no harm."""
import copy
import pickle

from abstract import Edge, Graph, Node
from abstract.get_ancestors import get_ancestors
from abstract.get_descendants import get_descendants
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import linked, observe, shapes
from ..core import Cases, HarnessError, Mismatch, expect, short
from ..moments import Cut, interrupted
from ..twin import attributed
from .c28 import QUERIES, ask, other, plain

ASSUMPTIONS = ['interruptions arrive between lines of the package (not within one line, nor within the standard library)',
               'a rendering that is cut short may leave styles that it has assigned']


# interruptions ------------------------------------------------------------------------------------------------------------

def make(spec):
    n, edges, how = spec
    kw = {}
    if how == 'settings':
        kw = dict(strict=True, ordering=False, label='L', tooltip='t', style_overwrite_allowed=True, node_label_converter=shout, edge_label_converter=shout)
    g = observe.build(shapes.names('zyx' if n == 3 else 'abc', n), edges, **kw)
    if how != 'bare':
        attributed(g)
    if how == 'rendered':
        g.render(view=False)
    if how == 'loaded':
        g = pickle.loads(pickle.dumps(g))
    return g


def shout(text):
    return str(text).upper()


GRAPHS = [(0, (), 'bare'), (1, ((0, 0, None),), 'attributed'), (2, ((0, 1, None), (1, 0, None), (0, 1, 'x')), 'settings'), (3, ((0, 1, None), (1, 2, None), (2, 1, None), (0, 2, None)), 'loaded')]
MORE = [(2, ((0, 1, None),), 'bare'), (3, ((2, 0, None), (0, 1, None), (1, 2, None), (1, 1, None)), 'rendered'), (3, ((0, 1, None), (0, 2, None)), 'settings'),
        (4, ((0, 1, None), (0, 2, None), (1, 3, None), (2, 3, None), (3, 3, None)), 'attributed'), (4, ((0, 1, None), (1, 2, None), (2, 3, None), (3, 0, None), (0, 1, 'x')), 'loaded')]

#: queries asked of one or two objects stand for those asked of all
OPS = {k: f for k, f in QUERIES.items() if not k.endswith('by object') and k not in ('node table', 'edge table', 'similar nodes', 'equal nodes', 'similar edges', 'equal edges', 'child rank', 'in loop with', 'node properties',
                                                                                     'node texts', 'edge properties', 'edge texts', 'same loop by name', 'foreign member')}


def ends(g):
    return (g.nodes[0], g.nodes[-1]) if g.nodes else (None, None)


def pair(what):
    def query(g):
        a, b = ends(g)
        return None if a is None else what(a, b)
    return query


OPS.update({
    'same node': pair(lambda a, b: (a == b, a != b, a.is_similar_to(b), a.is_similar_to(a))), 'rank': pair(lambda a, b: [c.get_child_rank(a) for c in a.children]), 'same loop': pair(lambda a, b: (a.is_in_loop_with(b), b.is_in_loop_with(a))),
    'order': pair(lambda a, b: (a < b, a > b, a <= b, a >= b)), 'node text': pair(lambda a, b: (a.get_graphviz_str(), a.label, a.display_label_or_value(), b.has_style())),
    'edge text': lambda g: [(e.get_graphviz_str(), e.id, e.start, e.end, e.display_label_or_value(), e.style) for e in g.edges[:1]], 'edge pair': lambda g: [(x == y, x.is_similar_to(y)) for x in g.edges[:1] for y in g.edges[-1:]],
})
NAMES = list(OPS)


def seen(g):
    return observe.snapshot(g), getattr(g.background_colour, 'hexadecimal', None)


def interrupted_cases(tier):
    for spec in GRAPHS + (MORE if tier == 'thorough' else MORE[1:2]):
        for name in NAMES:
            yield (spec, name)


def run_interrupted(ctx, case):
    """an interruption before every line of the package that the operation executes"""
    spec, name = case
    op = OPS[name]
    g = make(spec)
    wanted = plain(op(g), g)
    before = seen(g)
    lines, _ = interrupted(lambda: op(g))
    for at in range(1, lines + 1):
        n, answer = interrupted(lambda: op(g), at)
        ctx.step()
        if n >= at and not isinstance(answer, Cut):
            raise Mismatch(f'{name!r} interrupted before line {at} of {lines} goes on with {short(plain(answer, g))}')
        expect(f'{name!r} after being interrupted before line {at} of {lines}', plain(op(g), g), wanted)
        if at % 16 == 0 or at == lines:
            d = observe.differences(before[0], observe.snapshot(g))
            if d or seen(g)[1] != before[1]:
                raise Mismatch(f'{name!r} interrupted up to line {at} of {lines} leaves its mark: {short(d)} (before, after)')
    g = make(spec)
    for at in range(1, lines + 1, 1 if lines < 200 else 5):  # alone, on a new graph
        g = make(spec)
        interrupted(lambda: op(g), at)
        if at % 3 == 0:
            expect(f'{name!r}, interrupted at first, before line {at} of {lines}', plain(op(g), g), wanted)
        d = observe.differences(before[0], observe.snapshot(g))
        if d:
            raise Mismatch(f'{name!r} interrupted before line {at} of {lines} leaves its mark: {short(d)} (before, after)')
        ctx.step()
    ctx.state(case)
    ctx.outcome(wanted)


# rendering cut short ---------------------------------------------------------------------------------------------------------

LOOKS = {
    'plain': {}, 'random': dict(stylist='random'), 'dictionary': dict(node_style={'shape': 'auto', 'text_size': 7}, edge_style={'line_width': 4}), 'object': dict(node_style=NodeStyle(colour='green', shape='oval'), edge_style=EdgeStyle(colour='green')),
    'converters': dict(node_label_converter=shout, edge_label_converter=shout, direction='TB'),
}


def look(name, spec):
    n, edges, how = spec
    kw = LOOKS[name]
    kw = {k: v.copy() if hasattr(v, 'copy') else v for k, v in kw.items()}
    g = observe.build(shapes.names('abc', n), edges, **kw)
    if how == 'attributed':
        attributed(g)
    return g


def render_cases(tier):
    specs = [(2, ((0, 1, None), (1, 1, None)), 'attributed'), (3, ((0, 1, None), (1, 2, None), (0, 2, None)), 'bare')]
    if tier == 'thorough':
        specs += [(3, ((0, 1, None), (1, 0, None), (1, 2, None)), 'attributed'), (4, ((0, 1, None), (0, 2, None), (1, 3, None), (2, 3, None)), 'attributed'), (0, (), 'bare')]
    for spec in specs:
        for name in LOOKS:
            for part in range(8):
                yield (spec, name, part)


def unstyled(g):
    out = observe.snapshot(g, source=False)
    for k in ('nodes', 'edges'):
        out[k] = [x[:3] + x[4:] for x in out[k]]
    return out


def run_render(ctx, case):
    spec, name, part = case
    g = look(name, spec)
    before = unstyled(g)
    own = {x.id: x.style for x in g.nodes + g.edges if x.style is not None}
    header = g.get_graphviz_header()
    lines, _ = interrupted(lambda: g.render(view=False))
    overridden = name == 'dictionary'
    for at in range(1 + part, lines + 1, 8):
        g = look(name, spec)
        own = {x.id: x.style.get_graphviz_str() for x in g.nodes + g.edges if x.style is not None}
        n, answer = interrupted(lambda: g.render(view=False), at)
        ctx.step()
        what = f'rendering interrupted before line {at} of {lines}'
        if n >= at and not isinstance(answer, Cut):
            raise Mismatch(f'{what} goes on')
        d = observe.differences(before, unstyled(g))
        if d:
            raise Mismatch(f'{what} changes more than styles: {short(d)} (before, after)')
        text = g.render(view=False).source
        expect(f'the header after {what}', g.get_graphviz_header(), header)
        for x in g.nodes + g.edges:
            if x.style is None:
                raise Mismatch(f'{what} and begun again leaves {x.id!r} without a style')
            if not overridden and x.id in own:
                expect(f'the own style of {x.id!r} after {what}', x.style.get_graphviz_str(), own[x.id])
        d = observe.differences(before, unstyled(g))
        if d:
            raise Mismatch(f'{what} and begun again changes more than styles: {short(d)} (before, after)')
        expect(f'the second text after {what}', g.render(view=False).source, text)
        observe.parse_source(text)
    ctx.state(case)


# errors of the user's own code -----------------------------------------------------------------------------------------------

class Trigger:
    """counts the calls of the user's own code and makes one of them fail"""

    def __init__(self):
        self.disarm()

    def arm(self, at, error):
        self.at, self.error, self.calls = at, error, 0

    def disarm(self):
        self.at, self.error, self.calls = None, None, 0

    def hit(self):
        self.calls += 1
        if self.calls == self.at:
            raise self.error


TRIGGER = Trigger()
hit = TRIGGER.hit


class Val:
    """a value with its own way to be added, compared, copied, stored and shown"""

    def __init__(self, x):
        self.x = x

    def __add__(self, other):
        hit()
        return Val((self.x, getattr(other, 'x', other)))

    def __radd__(self, other):
        hit()
        return Val((other, self.x))

    def __eq__(self, other):
        hit()
        return isinstance(other, Val) and self.x == other.x

    __hash__ = None

    def __deepcopy__(self, memo):
        hit()
        return Val(self.x)

    def __reduce__(self):
        hit()
        return Val, (self.x,)

    def __str__(self):
        hit()
        return f'v{self.x}'

    def __repr__(self):
        hit()
        return f'Val({self.x!r})'

    def __bool__(self):
        hit()
        return True


class Text(Val):
    """a label of the user's own kind"""

    def __repr__(self):
        return f'Text({self.x!r})'


def convert_node(label):
    hit()
    return f'<{label}>'


def convert_edge(label):
    hit()
    return f'[{label}]'


class Source:
    def __graph__(self):
        hit()
        return {'nodes': {'n': {'label': 'N'}, 'm': {}}, 'edges': [('n', 'm', {'id': 'x', 'value': 1})], 'strict': False}


class Relative(linked.Linked):
    def __parents__(self):
        hit()
        return super().__parents__()

    def __children__(self):
        hit()
        return super().__children__()

    def __str__(self):
        hit()
        return super().__str__()

    def __eq__(self, other):
        hit()
        return self is other

    def __hash__(self):
        hit()
        return super().__hash__()


def add_pairs(x, y):
    hit()
    return (repr(x), repr(y))


def graphs(spec):
    """a graph with the user's own code in it, and another one to go with it"""
    n, edges, how = spec
    out = []
    for k in (0, 1):
        kw = dict(node_label_converter=convert_node, edge_label_converter=convert_edge) if 'c' in how else {}
        g = observe.build(shapes.names('abc', n), edges, **kw)
        for i, x in enumerate(g.nodes + g.edges):
            if 'v' in how:
                x.value = Val(i)
            if 'l' in how:
                x.label = Text(f't{i}')
            if 'p' in how:
                x['p'] = Val(-i)
        if 's' in how:
            for i, x in enumerate(g.nodes + g.edges):
                if i % 2 == 0:
                    x.style = NodeStyle(colour='red') if isinstance(x, Node) else EdgeStyle(colour='red')
        out.append(g)
    return out


SPECS = [(2, ((0, 1, None), (0, 1, 'x')), 'cv'), (2, ((0, 1, None), (1, 1, None)), 'lvs'), (3, ((0, 1, None), (1, 2, None), (2, 0, None)), 'clvp'), (1, (), 'vp')]


def relatives():
    return linked.make(4, ((0, 1), (1, 2), (2, 0), (2, 3)), cls=Relative)


CALLS = {
    'text': lambda g, h: g.get_graphviz_str(), 'tree': lambda g, h: g.get_tree_str(), 'node trees': lambda g, h: [n.get_tree_str() for n in g.nodes], 'node texts': lambda g, h: [n.get_graphviz_str() for n in g.nodes],
    'edge texts': lambda g, h: [e.get_graphviz_str() for e in g.edges], 'labels': lambda g, h: [x.display_label() for x in g.nodes + g.edges], 'labels or values': lambda g, h: [x.display_label_or_value() for x in g.nodes + g.edges],
    'source': lambda g, h: g.get_graphviz_source(), 'copy': lambda g, h: g.copy(), 'deep copy': lambda g, h: copy.deepcopy(g), 'pickle': lambda g, h: pickle.loads(pickle.dumps(g)), 'to dictionary': lambda g, h: g.__graph__(),
    'from dictionary': lambda g, h: Graph.from_dict(g.__graph__()), 'convert': lambda g, h: Graph(g), 'filter': lambda g, h: g.filter(nodes=g.nodes[:1]), 'filter out': lambda g, h: g.filter(nodes=g.nodes[:1], filter_type='exclude', direction='to'),
    'sum': lambda g, h: g + h, 'sum the other way': lambda g, h: h + g, 'sum with itself': lambda g, h: g + g, 'sum by a function': lambda g, h: g.add(h, add_values_function=add_pairs), 'appended elsewhere': lambda g, h: other().append(g),
    'similar': lambda g, h: (g.is_similar_to(h), h.is_similar_to(g)), 'similar nodes': lambda g, h: [x.is_similar_to(y) for x, y in zip(g.nodes, h.nodes)], 'similar edges': lambda g, h: [x.is_similar_to(y) for x, y in zip(g.edges, h.edges)],
    'graph of a source': lambda g, h: Graph(Source()), 'graph of sources': lambda g, h: Graph([Source(), Source()]), 'append a source': lambda g, h: [g.append(Source()), [g.remove_node(n) for n in ('n', 'm')]] and None,
    'members': lambda g, h: [n in g for n in list(g.nodes_dict) + g.nodes], 'loops and roots': lambda g, h: (g.loop_nodes, g.roots, [(n.ancestors, n.siblings, n.co_parents) for n in g.nodes]),
    'render': lambda g, h: g.render(view=False),
    'from an object': lambda g, h: Graph.from_object(relatives()[0]), 'ancestors of an object': lambda g, h: [o.k for o in get_ancestors(relatives()[3], distance=False)],
    'descendants of an object': lambda g, h: {d: [o.k for o in l] for d, l in get_descendants(relatives()[0], distance=True).items()},
}
ERRORS = (ZeroDivisionError, AttributeError, KeyError, IndexError, TypeError, ValueError, RuntimeError, OverflowError, RecursionError, ImportError, NotImplementedError, UserWarning, OSError, KeyboardInterrupt)


def error_cases(tier):
    for spec in SPECS:
        for name in CALLS:
            yield (spec, name)


def shown(x, g):
    TRIGGER.disarm()
    return plain(x, g)


def run_errors(ctx, case):
    """every call of the user's own code fails in turn, with every sort of error"""
    spec, name = case
    call = CALLS[name]
    g, h = graphs(spec)
    wanted = shown(call(g, h), g)
    g, h = graphs(spec)
    rendering = name == 'render'
    look_at = unstyled if rendering else observe.snapshot
    before = look_at(g), observe.snapshot(h)
    TRIGGER.arm(None, None)
    call(g, h)
    calls = TRIGGER.calls
    TRIGGER.disarm()
    for at in range(1, calls + 1):
        for kind in ERRORS:
            g, h = graphs(spec)
            error = kind('mine')
            TRIGGER.arm(at, error)
            try:
                answer = call(g, h)
            except BaseException as e:
                failed = TRIGGER.calls >= at
                TRIGGER.disarm()
                if e is not error:
                    raise Mismatch(f"{name!r}: {kind.__name__} raised by call {at} of {calls} of the user's own code comes out as {e!r}")
            else:
                failed = TRIGGER.calls >= at
                TRIGGER.disarm()
                if failed:
                    raise Mismatch(f"{name!r}: {kind.__name__} raised by call {at} of {calls} of the user's own code is swallowed")
            ctx.step()
            if kind in ERRORS[:3]:
                for who, x, b in (('the graph', look_at(g), before[0]), ('the other graph', observe.snapshot(h), before[1])):
                    d = observe.differences(b, x)
                    if d:
                        raise Mismatch(f'{name!r} failing at call {at} of {calls} changes {who}: {short(d)} (before, after)')
                again = shown(call(g, h), g)
                if not rendering:
                    expect(f'{name!r} after failing at call {at} of {calls}', again, wanted)
                else:
                    expect('all styled', [x.id for x in g.nodes + g.edges if x.style is None], [])
    ctx.count('calls of own code that failed', calls * len(ERRORS))
    ctx.state(case)
    ctx.outcome(wanted)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases("errors of the user's own code", lambda: error_cases(tier), run_errors, f"{len(CALLS)} operations on {len(SPECS)} pairs of graphs: every call of a label converter, value-adding function, method of a value, label, source or linked object fails in turn, with {len(ERRORS)} sorts of errors", chunk=1),
        Cases('interruptions', lambda: interrupted_cases(tier), run_interrupted, f'{len(NAMES)} queries and operations on {len(GRAPHS) + (len(MORE) if deep else 1)} graphs, interrupted before every line of the package', chunk=1),
        Cases('renderings interrupted', lambda: render_cases(tier), run_render, f'{len(LOOKS)} sorts of styling on {5 if deep else 2} graphs, rendering interrupted before every line', chunk=1),
    ]
