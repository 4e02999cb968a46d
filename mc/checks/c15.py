"""C15: building from lists gives one edge per row."""
import itertools

from abstract import Graph

from .. import observe, shapes
from ..core import Cases, Mismatch, expect
from ..ref import RGraph

ASSUMPTIONS = ['the three lists are equally long']
NAMES = ('b', 'a', 'c')
LABELS = (None, 'x', '')


def cases(tier):
    deep = tier == 'thorough'
    for n in range(0, 5 if deep else 4):
        names = NAMES if n <= 3 else NAMES[:2]
        rows = [(s, e, l) for s in names for e in names for l in (LABELS if n <= 2 else LABELS[:2])]
        for t in itertools.product(rows, repeat=n):
            yield (t, 'abc')
    for n in range(1, 4):
        for t in itertools.product([(s, e, 'x') for s in ('name', 'nam', 1000) for e in ('name', 'nam', 1000)], repeat=min(n, 2)):
            yield (t * n, 'words')
        for t in itertools.product([(s, e, 'x') for s in (0, 1) for e in (0, 1)], repeat=n):
            yield (t, 'int')
    rows = [('p', 'q', None), ('q', 'p', 'l'), ('p', 'p', 'l')]
    for n in range(4, 8 if deep else 7):
        for t in itertools.product(rows, repeat=n):
            yield (t, 'few')
    for n in (11, 12, 30, 101, 300):
        for pattern in (rows[:1], rows[:2], rows, [('a', 'b', 'x'), ('b', 'c', 'y'), ('c', 'a', None), ('a', 'a', '')]):
            yield (tuple(pattern[i % len(pattern)] for i in range(n)), 'long')
        yield (tuple((f'n{i}', f'n{i * 7 % n}', f'l{i}') for i in range(n)), 'wide')


def run(ctx, case):
    rows, _ = case
    start, end, edge = ([shapes.again(r[i]) for r in rows] for i in (0, 1, 2))
    kept = (list(start), list(end), list(edge))
    for strict in (False, True):
        g, error, warned = observe.call(lambda: Graph.from_lists(start, end, edge, strict=strict) if strict else Graph.from_lists(start=start, end=end, edge=edge))
        if error:
            raise error
        expect('warnings', warned, 0)
        expect('lists afterwards', (start, end, edge), kept)
        order = []
        for s, e, _ in rows:
            for x in (s, e):
                if x not in order:
                    order.append(x)
        expect('nodes', observe.names_in(g, g.nodes), order)
        for n in order:
            expect(f'label of {n!r}', g.get_node(n).label, str(n))
        listed = g.edges
        expect('edges', sorted(repr((e.start.name, e.end.name, e.label)) for e in listed), sorted(map(repr, rows)))
        expect('edge table', len(g.edges_dict), len(rows))
        for n in order:
            expect(f'outward edges of {n!r}', [(e.start.name, e.end.name, e.label) for e in g.get_node(n).outward_edges], [r for r in rows if r[0] == n])
            expect(f'inward edges of {n!r}', [(e.start.name, e.end.name, e.label) for e in g.get_node(n).inward_edges], [r for r in rows if r[1] == n])
        # consistent in itself
        r = RGraph(strict=strict)
        for n in order:
            r.add(n)
        rank = {id(e): i for i, e in enumerate(e for n in g.nodes for e in n.outward_edges)}
        ctx.step()
        source = observe.parse_source(g.get_graphviz_str())
        expect('strictness in the text', source.strict, strict)
        expect('edges in the text', len(source.edges), len(rows))
    ctx.state(rows)


def stages(tier):
    return [Cases('every triple of lists', lambda: cases(tier), run, 'all lists of up to %d rows over 3 names and 2-3 labels, up to %d rows over 3 row kinds, integer names; repeating patterns of up to 101 rows' % ((4, 7) if tier == 'thorough' else (3, 6)))]
