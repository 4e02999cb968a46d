"""C33: threads that share only what none of them changes get what they would have got alone."""
import contextlib
import copy
import itertools
import pickle
import random
import threading
import warnings

from colouration import Colour

from abstract import Edge, Graph, Node
from abstract.get_ancestors import get_ancestors
from abstract.get_descendants import get_descendants
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import linked, observe, shapes
from ..core import Cases, HarnessError, Mismatch, expect, short
from ..moments import Schedule, moments, paused
from . import c32
from .c28 import plain
from .c32 import make

ASSUMPTIONS = ['threads take turns between lines of the package (not within one line, nor within other libraries)',
               'at most one preemption (two for chosen pairs); a graph that is rendered or changed is used by one thread only']

OPS = c32.OPS
NAMES = list(OPS)

GRAPHS = [(4, ((0, 2, None), (1, 2, None), (2, 3, None), (3, 2, None)), 'loaded'), (2, ((0, 1, None), (1, 0, None), (0, 1, 'x')), 'settings')]
MORE = [(3, ((0, 1, None), (1, 2, None), (2, 1, None), (0, 2, None)), 'loaded'), (1, ((0, 0, None),), 'attributed'), (3, ((0, 1, None), (0, 2, None)), 'settings'), (3, ((2, 0, None), (0, 1, None), (1, 2, None), (1, 1, None)), 'rendered'),
        (4, ((0, 1, None), (0, 2, None), (1, 3, None), (2, 3, None), (3, 3, None)), 'attributed')]


def result(outcome, what):
    kind, x = outcome
    if kind == 'exception':
        raise Mismatch(f'{what} raises {type(x).__name__}: {x}')
    return x


# one graph, asked by two threads --------------------------------------------------------------------------------------------

def asked_cases(tier):
    for spec in GRAPHS + (MORE if tier == 'thorough' else []):
        for name in NAMES:
            for part in range(24 if tier == 'thorough' else 1):
                yield (spec, name, part, tier)


def run_asked(ctx, case):
    """one query is paused at every moment, while every query is asked by the other thread"""
    spec, name, part, tier = case
    often, parts = (None, 24) if tier == 'thorough' else (1, 1)
    g = make(spec)
    wanted = {k: plain(f(g), g) for k, f in OPS.items()}
    before = c32.seen(g)
    for at in moments(lambda: OPS[name](g), often)[part::parts]:
        answers = {}

        def others():
            for k, f in OPS.items():
                try:
                    answers[k] = plain(f(g), g)
                except BaseException as e:
                    answers[k] = ('exception', repr(e))
        was, outcome = paused(lambda: OPS[name](g), at, others)
        if not was:
            continue
        answer = plain(result(outcome, f'{name!r}, paused before line {at} while another thread asks,'), g)
        if answer != wanted[name]:
            expect(f'{name!r}, paused before line {at} while another thread asks', answer, wanted[name])
        if answers != wanted:
            for k in OPS:
                expect(f'{k!r}, asked while {name!r} is paused before line {at}', answers.get(k), wanted[k])
        ctx.step(len(OPS))
    d = observe.differences(before[0], observe.snapshot(g))
    if d or c32.seen(g)[1] != before[1]:
        raise Mismatch(f'{name!r} and other queries at the same time leave a mark: {short(d)} (before, after)')
    ctx.state(case)
    ctx.outcome(wanted[name])


#: one of each sort, for pairs
SORTS = [k for k in (
    'nodes', 'edges', 'roots', 'absolute roots', 'leaves', 'loop nodes', 'graph tree', 'text', 'text, other direction', 'source', 'header', 'to dictionary', 'copy', 'deep copy', 'pickle', 'convert', 'appended elsewhere', 'filter to',
    'filter out', 'plus itself', 'plus other', 'similar to a copy', 'similar to other', 'equal', 'node trees', 'parents', 'siblings', 'co-parents', 'ancestors', 'in loop', 'outward edges', 'single edges', 'same node', 'same loop', 'order',
    'node text', 'edge text', 'edge pair', 'get_descendants True by name', 'get_ancestors False by name', 'unknown node', 'wrong filter', 'edge parameters') if k in OPS]
assert len(SORTS) > 40


def pair_cases(tier):
    for spec in GRAPHS[:1] if tier == 'quick' else GRAPHS + MORE:
        for a in SORTS[::2] if tier == 'quick' else SORTS:
            for part in range(16 if tier == 'thorough' else 4):
                yield (spec, a, part, tier)


def run_pairs(ctx, case):
    """as before, but the other thread asks one thing only"""
    spec, name, part, tier = case
    g = make(spec)
    sorts = SORTS[::2] if tier == 'quick' else SORTS
    wanted = {k: plain(OPS[k](g), g) for k in sorts}
    for at in moments(lambda: OPS[name](g), 1)[part::16 if tier == 'thorough' else 4]:
        for k in sorts:
            got = []
            was, outcome = paused(lambda: OPS[name](g), at, lambda: got.append(plain(c32_ask(OPS[k], g), g)))
            if not was:
                continue
            answer = plain(result(outcome, f'{name!r}, paused before line {at} while another thread asks {k!r},'), g)
            if answer != wanted[name] or got != [wanted[k]]:
                expect(f'{name!r}, paused before line {at} while another thread asks {k!r}', answer, wanted[name])
                expect(f'{k!r}, asked while {name!r} is paused before line {at}', got, [wanted[k]])
            ctx.step()
    ctx.state(case)


def c32_ask(op, g):
    try:
        return op(g)
    except Exception as e:
        return ('exception', repr(e))


def twice_cases(tier):
    spec = (2, ((0, 1, None), (1, 1, None)), 'bare')
    names = ['roots', 'siblings', 'node trees', 'edges', 'same loop', 'header']
    if tier == 'thorough':
        names += ['ancestors', 'loop nodes', 'parents', 'filter to', 'to dictionary', 'get_descendants True by name', 'text, other direction', 'copy', 'similar to a copy', 'graph tree', 'co-parents', 'absolute roots']
    for a, b in itertools.combinations_with_replacement(names, 2):
        for part in range(16 if tier == 'thorough' else 4):
            yield (spec, a, b, part, tier)


def run_twice(ctx, case):
    """both are interrupted by each other: a until s, b for t lines, a to its end, b to its end; and the other way round"""
    spec, x, y, part, tier = case
    g = make(spec)
    wanted = {k: plain(OPS[k](g), g) for k in (x, y)}
    for a, b in ((x, y), (y, x)) if x != y else ((x, x),):
        often, parts = (3, 16) if tier == 'thorough' else (1, 4)
        for at in moments(lambda: OPS[a](g), often)[part::parts]:
            for then in moments(lambda: OPS[b](g), often):
                s = Schedule(0, (at, at + then))
                outcomes = s.run(lambda: plain(OPS[a](g), g), lambda: plain(OPS[b](g), g))
                ctx.step()
                for k, o in zip((a, b), outcomes):
                    what = f'{k!r} ({a!r} stopped before line {at}, then {b!r} before its line {then})'
                    answer = result(o, what)
                    if answer != wanted[k]:
                        expect(what, answer, wanted[k])
    ctx.state(case)


# different graphs, built, changed and rendered -------------------------------------------------------------------------------

def look():
    return NodeStyle(colour='green', fill_colour='yellow', shape='oval'), EdgeStyle(colour='green', arrow_size=2), Colour('purple')


class Common:
    """what the threads share: styles, a colour, values, dictionaries and lists of settings, sources and linked objects, none
    of which they change, and a graph that is only asked"""

    def __init__(self):
        self.node, self.edge, self.colour = look()
        self.value = {'k': [1]}
        self.settings = {'colour': 'blue', 'shape': 'auto'}
        self.dictionary = {'nodes': {'a': {'label': 'A'}, 'b': {}, 'c': {'value': 2}}, 'edges': [('a', 'b'), ('c', 'b', {'label': 'x'}), ('b', 'b')], 'node_styles': {'c': {'shape': 'circle'}}, 'node_colours': {'b': 'green'},
                           'edge_colours': {('a', 'b'): 'blue'}, 'graph_label': 'G', 'strict': False}
        self.objects = linked.make(4, ((0, 1), (1, 2), (2, 0), (2, 3)), cls=linked.Equal)
        self.graph = make(GRAPHS[0])
        self.lists = dict(start=list('abc'), end=list('bca'), edge=['x', None, 'y'])
        self.lines = ['a', '  b', '    c', 'd']


def all_of(g):
    return ([c28_obj(x) for x in g.nodes], [c28_obj(x) for x in g.edges], g.get_graphviz_str())


def c28_obj(x):
    return (x.id, x.label, repr(x.value), observe.real_style(x), tuple(observe.param(x, p) for p in observe.PARAM_KEYS), bool(x.is_frozen))


def small(**kw):
    g = Graph(**kw)
    g.add_node('a', value=1)
    g.add_node('b')
    g.connect('a', 'b', value=2)
    return g


def rendered(g):
    return g.render(view=False).source, all_of(g)


def changed(g):
    g.add_node('new', label='N', p=[1])
    g.connect('new', g.nodes[0])
    g.connect(g.nodes[0], 'new', id='x')
    g.disconnect(g.edges[-1])
    g.remove_node(g.nodes[0])
    g.add_node('newer', value=3)
    return all_of(g)


def history(c):
    g = Graph()
    for n in 'abc':
        g.add_node(n, value=c.value)
    g.connect('a', 'b', value=c.value)
    g.connect('b', 'c')
    g.connect('c', 'c', id='x', style=c.edge)
    g.remove_node('b')
    g.add_node('b', style=c.node)
    g.connect('b', 'a')
    return all_of(g), [n.name for n in g.roots], g.get_tree_str()


def styled(c):
    g = small()
    g.get_node('a').style = c.node
    g.edges[0].style = c.edge
    return rendered(g)


def styles(c):
    s = c.node.copy()
    s.colour = c.colour
    t = c.edge.copy()
    t.colour = 'red'
    return s.get_graphviz_str(), t.get_graphviz_str(), (c.node == s), c.node.get_graphviz_str(), c.edge.get_graphviz_str(), copy.deepcopy(c.node).get_graphviz_str(), pickle.loads(pickle.dumps(c.edge)).get_graphviz_str()


def dice(c):
    """the generator of the process, as a program that knows nothing of graphs uses it"""
    random.seed(3)
    return [random.random() for _ in range(3)]


HEARD = []


@contextlib.contextmanager
def listening():
    """every warning is heard, with the thread that it came from"""
    with warnings.catch_warnings():
        warnings.simplefilter('always')
        warnings.showwarning = lambda message, *_, **__: HEARD.append(threading.get_ident())
        try:
            yield
        finally:
            HEARD.clear()


def warned(c):
    me = threading.get_ident()
    counts = []
    g = small()
    for f in (lambda: g.add_node('a'), lambda: g.connect('a', 'b'), lambda: g.add_node('a', if_node_exists='ignore'), lambda: g.add_node('new')):
        before = HEARD.count(me)
        f()
        counts.append(HEARD.count(me) - before)
    return counts


WORK = {
    'dice': dice, 'warned': warned,
    'history': history, 'render': lambda c: rendered(small()), 'render by the random stylist': lambda c: rendered(small(stylist='random')), 'render with settings': lambda c: rendered(small(node_style=c.settings, style_overwrite_allowed=True)),
    'render with shared styles': lambda c: rendered(small(node_style=c.node, edge_style=c.edge)), 'render with own styles': styled, 'styles': styles, 'background': lambda c: rendered(small(background_colour=c.colour)),
    'random': lambda c: all_of(Graph.random(3, seed=5, cycle=True)), 'from a dictionary': lambda c: all_of(Graph(c.dictionary)), 'dictionary, rendered': lambda c: rendered(Graph.from_dict(c.dictionary)), 'lists': lambda c: all_of(Graph.from_lists(**c.lists)),
    'outline': lambda c: all_of(Graph.from_indented_text(root='r', lines=c.lines)), 'objects': lambda c: all_of(Graph.from_object(c.objects[0])),
    'traversal': lambda c: ([o.k for o in get_ancestors(c.objects[3], distance=False)], {d: [o.k for o in l] for d, l in get_descendants(c.objects[0], distance=True).items()}),
    'changed copy': lambda c: changed(c.graph.copy()), 'changed conversion': lambda c: changed(Graph(c.graph)), 'rendered copy': lambda c: rendered(c.graph.copy()), 'changed part': lambda c: changed(c.graph.filter(nodes=c.graph.nodes[1:], direction='from')),
    'changed sum': lambda c: changed(c.graph + Graph()), 'added': lambda c: all_of(small().append(c.graph) or c.graph), 'asked': lambda c: (all_of(c.graph), [n.name for n in c.graph.roots], c.graph.get_tree_str()),
    'other direction': lambda c: small().get_graphviz_str(direction='TB'), 'similar': lambda c: (small().is_similar_to(small()), c.graph.is_similar_to(c.graph.copy())), 'sum': lambda c: all_of(small() + small()),
}


def shared(c):
    return (c.node.get_graphviz_str(), c.edge.get_graphviz_str(), c.colour.hexadecimal, repr(c.value), repr(c.settings), repr(c.dictionary), linked.state(c.objects), observe.snapshot(c.graph), repr(c.lists), repr(c.lines))


def work_cases(tier):
    for a in WORK:
        for part in range(32 if tier == 'thorough' else 4):
            yield (a, part, tier)


def run_work(ctx, case):
    """one is paused at every moment, while the other thread does all the others, twice"""
    with listening():
        work(ctx, case)


def work(ctx, case):
    name, part, tier = case
    c = Common()
    wanted = {k: f(c) for k, f in WORK.items()}
    for k, f in WORK.items():
        expect(f'{k!r} again', f(c), wanted[k])
    before = shared(c)
    stops = moments(lambda: WORK[name](c), 1 if tier == 'quick' else None if len(moments(lambda: WORK[name](c))) < 900 else 3)
    for at in stops[part::32 if tier == 'thorough' else 4]:
        got = {}

        def others():
            for k, f in WORK.items():
                try:
                    got[k] = f(c)
                except BaseException as e:
                    got[k] = ('exception', repr(e))
        was, outcome = paused(lambda: WORK[name](c), at, others)
        if not was:
            continue
        answer = result(outcome, f'{name!r}, paused before line {at} while another thread works,')
        if answer != wanted[name] or got != wanted:
            expect(f'{name!r}, paused before line {at} while another thread works', answer, wanted[name])
            for k in WORK:
                expect(f'{k!r}, done while {name!r} is paused before line {at}', got.get(k), wanted[k])
        ctx.step(len(WORK))
    expect('what the threads share', shared(c), before)
    ctx.state(case)
    ctx.outcome(wanted[name])


def duo_cases(tier):
    names = list(WORK)
    for a in names:
        for b in names:
            yield (a, b)


def run_duo(ctx, case):
    """one is paused at every moment, while the other thread does one thing"""
    with listening():
        duo(ctx, case)


def duo(ctx, case):
    name, k = case
    f = WORK[k]
    c = Common()
    wanted = {k: f(c) for k, f in WORK.items()}
    before = shared(c)
    stops = moments(lambda: WORK[name](c), 1)
    for at in stops:
        got = []
        was, outcome = paused(lambda: WORK[name](c), at, lambda: got.append(c32_ask(f, c)))
        if not was:
            continue
        answer = result(outcome, f'{name!r}, paused before line {at} while another thread does {k!r},')
        if answer != wanted[name] or got != [wanted[k]]:
            expect(f'{name!r}, paused before line {at} while another thread does {k!r}', answer, wanted[name])
            expect(f'{k!r}, done while {name!r} is paused before line {at}', got, [wanted[k]])
        ctx.step()
    expect('what the threads share', shared(c), before)
    ctx.state(case)


# the user's own code asks, while it is asked ---------------------------------------------------------------------------------

class Asker(c32.Trigger):
    """one of the calls of the user's own code does something else first"""

    def arm(self, at, action):
        self.at, self.action, self.calls = at, action, 0

    def hit(self):
        self.calls += 1
        if self.calls == self.at:
            self.at = None
            calls = self.calls
            self.action()
            self.calls = calls


def own_cases(tier):
    for spec in c32.SPECS + ([(3, ((0, 2, None), (1, 2, None), (2, 2, None)), 'clv')] if tier == 'thorough' else []):
        for name in c32.CALLS:
            yield (spec, name)


def run_own(ctx, case):
    spec, name = case
    call = c32.CALLS[name]
    calm = [k for k in c32.CALLS if k not in ('render', 'append a source')]
    old = c32.TRIGGER
    asker = Asker()
    asker.disarm()
    try:
        c32.hit = asker.hit
        g, h = c32.graphs(spec)
        wanted = {k: plain(c32.CALLS[k](g, h), g) for k in calm}
        g, h = c32.graphs(spec)
        mine = plain(call(g, h), g)
        g, h = c32.graphs(spec)
        before = (c32.unstyled(g) if name == 'render' else observe.snapshot(g)), observe.snapshot(h)
        asker.arm(None, None)
        call(g, h)
        calls = asker.calls
        for at in range(1, calls + 1):
            g, h = c32.graphs(spec)
            got = {}

            def action():
                for k in calm:
                    try:
                        got[k] = plain(c32.CALLS[k](g, h), g)
                    except Exception as e:
                        got[k] = ('exception', repr(e))
            asker.arm(at, action)
            try:
                answer = call(g, h)
            except Exception as e:
                raise Mismatch(f"{name!r}: {type(e).__name__}: {e} when call {at} of {calls} of the user's own code asks too")
            asker.disarm()
            ctx.step(len(calm))
            expect(f"{name!r} when call {at} of {calls} of the user's own code asks too", plain(answer, g), mine)
            if name not in ('render', 'append a source'):
                for k in calm:
                    expect(f"{k!r}, asked by the user's own code while {name!r} is asked", got.get(k), wanted[k])
            now = (c32.unstyled(g) if name == 'render' else observe.snapshot(g)), observe.snapshot(h)
            for b, n in zip(before, now):
                d = observe.differences(b, n)
                if d:
                    raise Mismatch(f"{name!r} with questions asked in between leaves a mark: {short(d)} (before, after)")
    finally:
        c32.hit = old.hit
    ctx.count("calls of the user's own code", calls)
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    out = [
        Cases('different graphs', lambda: work_cases(tier), run_work, f'each of {len(WORK)} ways to build, change, render and combine graphs, paused before every line of the package ({"every execution of it, up to 900, or the first 3" if deep else "the first time it is executed"}) while another thread does all of them', chunk=1),
        Cases('one graph asked', lambda: asked_cases(tier), run_asked, f'each of {len(NAMES)} queries on {len(GRAPHS) + (len(MORE) if deep else 0)} graphs, paused before every line of the package ({"every execution of it" if deep else "the first time it is executed"}) while another thread asks all of them', chunk=1),
        Cases('one graph asked one thing', lambda: pair_cases(tier), run_pairs, f'ordered pairs of {len(SORTS) if deep else len(SORTS[::2])} queries, one paused before every line of the package (the first time it is executed) while another thread asks the other', chunk=1),
        Cases('two preemptions', lambda: twice_cases(tier), run_twice, f'pairs of {18 if deep else 6} queries on a two-node graph: every schedule with two preemptions, at the first {"three executions" if deep else "execution"} of each line', chunk=1),
    ]
    out.append(Cases("the user's own code asks too", lambda: own_cases(tier), run_own, f"{len(c32.CALLS)} operations on pairs of graphs: each call of a label converter, value-adding function, method of a value, label, source or linked object in turn asks everything else in between", chunk=1))
    if deep:
        out.append(Cases('different graphs in pairs', lambda: duo_cases(tier), run_duo, f'ordered pairs of {len(WORK)} ways to work, one paused before every line (the first time it is executed) while another thread does the other', chunk=1))
    return out
