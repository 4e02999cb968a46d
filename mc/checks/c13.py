"""C13: adding two graphs gives the union and leaves both operands unchanged."""
import itertools
from collections import Counter
from datetime import timedelta
from decimal import Decimal
from fractions import Fraction

from abstract import Graph

from .. import long, observe, shapes, structural
from . import c22
from ..core import Cases, Mismatch, expect
from ..ref import RGraph
from ..world import kwargs_of

ASSUMPTIONS = ['values of the same node or edge in both operands can be added']

# a graph is (settings, nodes, edges): nodes ((name, attrs), ...), edges ((start, end, id, attrs), ...)


def real(spec):
    settings, nodes, edges = spec
    g = Graph(**dict(settings))
    for n, a in nodes:
        g.add_node(shapes.again(n), **kwargs_of(a, 'node'))
    for s, e, i, a in edges:
        g.connect(shapes.again(s), shapes.again(e), id=shapes.again(i), **kwargs_of(a, 'edge'))
    return g


def reference(spec):
    settings, nodes, edges = spec
    s = dict(settings)
    r = RGraph(strict=s.get('strict', False), ordering=s.get('ordering', True))
    for n, a in nodes:
        r.add(n, **dict(a))
    for s, e, i, a in edges:
        r.connect(s, e, i, **dict(a))
    return r


def plus(x, y):
    return y if x is None else x if y is None else x + y


def total(l, r, combine):
    out = l.copy()
    for n, rn in r.nodes.items():
        if n in out.nodes:
            merge(out.nodes[n], rn, combine)
        else:
            out.add(n, label=rn.label, value=rn.value, style=rn.style)
    for k, re in r.edges.items():
        if k in out.edges:
            merge(out.edges[k], re, combine)
        else:
            out.connect(*k, label=re.label, value=re.value, style=re.style)
    return out


def merge(a, b, combine):
    a.label = a.label or b.label
    a.style = a.style or b.style
    a.value = combine(a.value, b.value)


def pair_up(x, y):
    return ('both', x, y)


FUNCTIONS = {'default': None, 'pair': pair_up, 'left': lambda x, y: x, 'product': lambda x, y: x * y}


def run(ctx, case):
    left, right, function = case
    a, b = real(left), real(right)
    ra, rb = reference(left), reference(right)
    before_a, before_b = observe.snapshot(a), observe.snapshot(b)
    fn = FUNCTIONS[function]
    if fn is None:
        c = a + b
        also = a.add(b)
        wanted = total(ra, rb, plus)
    else:
        c = a.add(b, add_values_function=fn)
        also = a.add(other=b, add_values_function=fn)
        wanted = total(ra, rb, fn)
    ctx.step(2)
    observe.same_snapshot('adding changed the left operand', before_a, observe.snapshot(a))
    observe.same_snapshot('adding changed the right operand', before_b, observe.snapshot(b))
    for x in (c, also):
        if x is a or x is b:
            raise Mismatch('the sum is one of the operands')
        observe.check_content(x, wanted)
        expect('strictness of the sum', observe.parse_source(x.get_graphviz_str()).strict, bool(ra.strict))
    ctx.state(wanted.key())
    # later changes to the sum do not reach the operands
    change(c)
    observe.same_snapshot('changing the sum changed the left operand', before_a, observe.snapshot(a))
    observe.same_snapshot('changing the sum changed the right operand', before_b, observe.snapshot(b))
    observe.check_content(also, wanted, 'another sum: ')
    # nor the other way round
    change(a)
    change(b)
    observe.check_content(also, wanted, 'sum after the operands changed: ')
    ctx.step(3)


def change(g):
    for n in g.nodes:
        n.value = 'changed'
        n.label = 'changed'
        n['p'] = 1
    for e in g.edges:
        e.value = 3
        e.label = 'changed'
    g.render(view=False)
    g.add_node('fresh')
    for n in list(g.nodes):
        if ('fresh', n.name, None) not in g.edges_dict:
            g.connect('fresh', n)
    for e in list(g.edges)[::2]:
        e.remove_self()
    g.render(view=False)
    for n in list(g.nodes)[1:]:
        g.remove_node(n)


def attrs(labels, values, styles):
    for l, v, s in itertools.product(labels, values, styles):
        yield tuple((k, x) for k, x in (('label', l), ('value', v), ('style', s)) if x is not None)


def node_cases(tier):
    la = list(attrs((None, 'L'), (None, 0, 2, [1]), (None, 'S1')))
    ra = list(attrs((None, 'R'), (None, 0, 5, [2]), (None, 'S2')))
    for x in la:
        for y in ra:
            if isinstance(dict(x).get('value'), list) != isinstance(dict(y).get('value'), list) and 'value' in dict(x) and 'value' in dict(y):
                continue
            yield (((), (('a', x),), ()), ((), (('a', y),), ()), 'default')
            yield (((), (('z', ()), ('a', x)), (('a', 'z', None, ()),)), ((), (('a', y), ('q', y)), (('q', 'a', None, ()),)), 'default')
            if dict(x).get('value') is not None and dict(y).get('value') is not None:
                for f in ('pair', 'left'):
                    yield (((), (('a', x),), ()), ((), (('b', y), ('a', y)), ()), f)
    for x in la:
        yield (((), (('a', x),), ()), ((), (), ()), 'default')
        yield (((), (), ()), ((), (('a', x),), ()), 'default')
    for s in ((), (('strict', True),), (('ordering', False),)):
        for t in ((), (('strict', True),), (('ordering', False),)):
            yield ((s, (('a', ()),), ()), (t, (('b', ()),), ()), 'default')


class Tally(dict):
    """built-in sorts of values with an addition of their own"""

    def __add__(self, other):
        return type(self)({k: self.get(k, 0) + other.get(k, 0) for k in {**self, **other}})


class Bag(list):
    def __add__(self, other):
        return type(self)(sorted(list(self) + list(other)))


class Words(str):
    def __add__(self, other):
        return type(self)(f'{self} {other}')


class Hours(int):
    def __add__(self, other):
        return type(self)((int(self) + int(other)) % 24)


class Flags(set):
    def __add__(self, other):
        return type(self)(self ^ other)


OWN = [(Tally(a=1, b=2), Tally(b=3, c=4)), (Bag([3, 1]), Bag([2])), (Words('one'), Words('two')), (Hours(20), Hours(9)), (Flags('ab'), Flags('bc')), (Counter('aab'), Counter('abc')), (Counter('a'), Counter()), (Fraction(1, 3), Fraction(1, 6)),
       (Decimal('1.10'), Decimal('2')), (timedelta(1), timedelta(0, 5)), (Tally(), Tally()), (Words(), Words()), (Hours(0), Hours(0)), (True, True), (0.1, 0.2), (float('inf'), 1), (1, 2.5), (bytearray(b'a'), b'b')]


def own_cases(tier):
    for i in range(len(OWN)):
        for swapped in (False, True):
            for f in ('default', 'pair', 'left'):
                yield (i, swapped, f)


def run_own(ctx, case):
    i, swapped, f = case
    v, w = OWN[i][::-1] if swapped else OWN[i]
    run(ctx, (((), (('a', (('value', v),)), ('b', ())), (('a', 'b', None, (('value', v),)), ('b', 'b', 'x', (('value', w),)))), ((), (('b', (('value', w),)), ('a', (('value', w),))), (('a', 'b', None, (('value', w),)), ('b', 'b', 'x', (('value', v),)))),
              'default' if f == 'default' else f) if f != 'pair' else (((), (('a', (('value', v),)),), ()), ((), (('a', (('value', w),)),), ()), 'pair'))
    a, b = Graph(), Graph()
    x, y = a.add_node('n', value=v), b.add_node('n', value=w)
    got = (a + b).get_node('n').value if f == 'default' else a.add(b, add_values_function=FUNCTIONS[f]).get_node('n').value
    wanted = (FUNCTIONS[f] or (lambda x, y: x + y))(v, w)
    expect('type of the sum of two values', type(got), type(wanted))
    expect('sum of two values', got, wanted)


SAME = ('text', '', (1, 2), 2, -1, 1.5, 2 ** 70, True, 1j, b'x')


def same_cases(tier):
    """equal values on both sides are values like any other"""
    for v in SAME + ([3], []):
        for w in SAME + ([3], []):
            if type(v) is type(w):
                for f in ('default', 'pair'):
                    yield (((), (('a', (('value', v),)), ('b', ())), (('a', 'b', None, (('value', v),)), ('b', 'b', 'x', (('value', w),)))),
                           ((), (('b', (('value', w),)), ('a', (('value', w),))), (('a', 'b', None, (('value', w),)), ('b', 'b', 'x', (('value', w),)))), f if f == 'default' else 'left')


def edge_cases(tier):
    la = list(attrs((None, 'L'), (None, 0, 2), (None, 'S1')))
    ra = list(attrs((None, 'R'), (None, 0, 5), (None, 'S2')))
    two = (('a', ()), ('b', ()))
    for x in la:
        for y in ra:
            for i, j in ((None, None), ('x', 'x'), (0, 0), (None, 'x'), (None, 0), (0, '')):
                for k in (('a', 'b'), ('b', 'a'), ('a', 'a')):
                    for order in (two, two[::-1]):
                        yield (((), two, (('a', 'b', i, x), ('a', 'a', i, x))), ((), order, ((k[0], k[1], j, y),)), 'default')
            if dict(x).get('value') is not None and dict(y).get('value') is not None:
                yield (((), two, (('a', 'b', None, x),)), ((), two, (('b', 'b', None, y), ('a', 'b', None, y))), 'pair')


def shaped(names, edges, side):
    """a graph of this shape whose nodes and edges all have values"""
    return ((), tuple((n, (('value', (i + 1) * side),)) for i, n in enumerate(names)),
            tuple((names[a], names[b], i[0] if i else None, (('value', (k + 1) * side), ('label', f'{side}:{k}'))) for k, (a, b, *i) in enumerate(edges)))


def shape_cases(tier):
    deep = tier == 'thorough'
    small = [(n, e) for n in (0, 1, 2) for e in shapes.digraphs(n)]
    for n, e in small:
        for m, f in small:
            for left, right in (('ab', 'ab'), ('ab', 'ba'), ('ba', 'bc')):
                yield (shaped(left[:n], e, 1), shaped(right[:m], f, 100), 'default')
    for n, e in [(2, e) for e in shapes.multigraphs(2, 3, 2)]:
        for m, f in [(2, f) for f in shapes.multigraphs(2, 3 if deep else 2, 2)]:
            yield (shaped('ab', e, 1), shaped('ba', f, 100), 'default')
    three = list(shapes.digraphs(3, max_edges=3 if deep else 2))
    for e in three:
        for f in three:
            yield (shaped('bca', e, 1), shaped('cad', f, 100), 'default')
    big = [(n, e) for _, n, e in shapes.families(16 if deep else 12) if n > 10]
    for n, e in big:
        m, f = big[(len(e) * 7 + 1) % len(big)]
        yield (shaped(shapes.names('num', n), e, 1), shaped(shapes.names('num', m)[::-1], f, 100), 'default')
    for n in (5, 12, 20):
        for k in (0, 1, n // 2, n):
            yield (shaped([f'n{i}' for i in range(n)], [(i, (i + 1) % n) for i in range(n)], 1),
                   shaped([f'n{n - 1 + k - i}' for i in range(n)], [(i, (i + 2) % n) for i in range(n)], 100), 'default')


def strange_cases(tier):
    deep = tier == 'thorough'
    some = [e for e in shapes.digraphs(2)] if deep else [(), ((0, 1),), ((0, 0), (1, 0)), ((0, 0), (0, 1), (1, 0), (1, 1))]
    for t in structural.STRANGE:
        for left in itertools.permutations(t, 2):
            for right in itertools.permutations(t, 2) if deep else (left, left[::-1], tuple(x for x in t if x not in left) + left[:1]):
                for e in some:
                    for f in some:
                        yield (shaped(left, e, 1), shaped(right, f, 100), 'default')
    for ids in structural.STRANGE_IDS:
        for i, j in itertools.product(ids, repeat=2):
            for f in (((0, 1, j),), ((1, 0, j), (0, 1, i)), ((0, 0, i), (0, 0, j), (0, 1, j))):
                yield (keyed('ab', ((0, 1, i), (0, 0, i)), 1), keyed('ba', f, 100), 'default')
                yield (keyed('ab', ((0, 1, i), (0, 0, i)), 1), keyed('ab', f, 100), 'default')
    sizes = list(shapes.large(0.8 if deep else 0.4))
    for k, (n, e) in enumerate(sizes):
        for m, f in (sizes[k], sizes[k - 1]):
            for other in (shapes.names('num', m), shapes.names('num', m)[::-1]):
                yield (shaped(shapes.names('num', n), e, 1), shaped(other, f, 100), 'default')


def keyed(names, edges, side):
    return ((), tuple((n, (('value', (i + 1) * side),)) for i, n in enumerate(names)),
            tuple((names[a], names[b], i, (('value', (k + 1) * side), ('label', f'{side}:{k}'))) for k, (a, b, i) in enumerate(dict.fromkeys(edges))))


def chain_cases(tier):
    graphs = [shaped('ab', ((0, 1),), 1), shaped('bc', ((0, 1), (1, 1)), 10), shaped('ba', ((0, 1), (1, 0)), 100), ((), (), ()), shaped('d', (), 1000)]
    for n in (2, 3, 4) if tier == 'thorough' else (2, 3):
        for t in itertools.product(range(len(graphs)), repeat=n):
            for rendered in (False, True):
                yield (tuple(graphs[i] for i in t), rendered)


def run_chain(ctx, case):
    """sums of sums, of a graph with itself, of rendered graphs and of copies"""
    specs, rendered = case
    gs = [real(s) for s in specs]
    rs = [reference(s) for s in specs]
    if rendered:
        for g in gs[1:]:
            g.render(view=False)
    snaps = [observe.snapshot(g) for g in gs]
    acc, want = gs[0], rs[0]
    for g, r in zip(gs[1:], rs[1:]):
        acc = acc + g
        want = total(want, r, plus)
        ctx.step()
        observe.check_content(acc, want, styles=not rendered)
        if rendered:
            acc.render(view=False)
    twice = acc + acc
    observe.check_content(twice, total(want, want, plus), 'doubled: ', styles=not rendered)
    for s, g in zip(snaps, gs):
        observe.same_snapshot('an operand changed', s, observe.snapshot(g))
    empty = acc + Graph()
    observe.check_content(empty, want, 'plus nothing: ', styles=not rendered)
    observe.check_content(Graph() + acc, want, 'nothing plus: ', styles=not rendered)
    if rendered:
        # styles assigned by rendering come along, the left operand's first
        for n in twice.nodes:
            if acc.get_node(n.name).style is not None:
                expect(f'style of {n.name!r}', observe.real_style(n), observe.real_style(acc.get_node(n.name)))
        if twice.render(view=False) is None:
            raise Mismatch('rendering gave nothing')
    ctx.state((want.key(), rendered))


# operands with styles per element -----------------------------------------------------------------------------------

def element_cases(tier):
    sets = [x for x in c22.per_sets(2 if tier == 'thorough' else 1)]
    for x in sets:
        for y in sets:
            if not {c22.targets(*e[:2]) for e in x} & {c22.targets(*e[:2]) for e in y}:
                for rendered in (False, True):
                    yield (x, y, rendered)


def run_element(ctx, case):
    from .c14 import shallow
    left, right, rendered = case
    a, b = (c22.build(((), (), x, False, 'keyword'), c22.Shared()) for x in (left, right))
    if rendered:
        a.render(view=False)
        b.render(view=False)
    reps = shallow(a.__graph__()), shallow(b.__graph__())
    pictures = a.copy().render(view=False).source, b.copy().render(view=False).source
    c = a + b
    ctx.step()
    for late in range(2):
        expect('representation of the left operand', shallow(a.__graph__()), reps[0])
        expect('representation of the right operand', shallow(b.__graph__()), reps[1])
        expect('picture of the left operand', a.copy().render(view=False).source, pictures[0])
        expect('picture of the right operand', b.copy().render(view=False).source, pictures[1])
        if not late:
            looks = c22.looks(c)
            expect('the sum rendered again', c22.looks(c), looks)
    if rendered:
        wanted = {**c22.looks(b), **c22.looks(a)}
        elements = {c22.targets(*e[:2]) for e in right if e[0].endswith('styles')}
        for k in looks:
            if k not in elements:
                expect(f'look of {k}', looks[k], wanted[k])
    for what, k, t in left + right:
        k = c22.targets(what, k)
        if what.endswith('styles') and k in looks:
            kind = 'nodes' if what.startswith('node') else 'edges'
            wanted = c22.look_of(c22.fresh(kind, t))
            for key in (wanted if t in c22.OBJ[kind] else {'hexagon': ['shape'], 'egg': ['shape']}.get(c22.DICT[kind][t].get('shape'), ['penwidth'])):
                expect(f'{key} of {k} in the sum', looks[k].get(key), wanted[key])
    ctx.state(case)


def stages(tier):
    return [
        Cases('node attributes', lambda: node_cases(tier), run, 'every presence pattern of labels, values (falsy, lists) and styles on either side, functions, strictness'),
        Cases('equal values', lambda: same_cases(tier), run, f'pairs of {len(SAME) + 2} values of one type, equal or not, on nodes and edges'),
        Cases('values with their own addition', lambda: own_cases(tier), run_own, f'{len(OWN)} pairs of values, among them counters, dates, fractions and subclasses of the built-in types with another addition, both ways round'),
        Cases('edge attributes', lambda: edge_cases(tier), run, 'the same for edges with equal, different and falsy ids, self-loops and opposite edges'),
        Cases('pairs of shapes', lambda: shape_cases(tier), run, 'all pairs of digraphs on 0-2 nodes with overlapping names, multigraphs, 3 nodes with <=%d edges, overlapping cycles' % (3 if tier == 'thorough' else 2)),
        Cases('confusable names and ids, large graphs', lambda: strange_cases(tier), run, 'two of %d triples of names on either side; %d pairs of ids on either side; regular graphs beyond the size of the families' % (len(structural.STRANGE), len(structural.STRANGE_IDS))),
        Cases('styles per element', lambda: element_cases(tier), run_element, 'pairs of sets of up to %d per-element styles and colours for different elements, operands rendered or not' % (2 if tier == 'thorough' else 1)),
        Cases('sums of sums', lambda: chain_cases(tier), run_chain, 'all sums of up to %d of 5 graphs, doubled, plus nothing, rendered or not' % (4 if tier == 'thorough' else 3)),
        long.stage(long.sums),
    ]
