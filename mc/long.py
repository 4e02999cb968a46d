"""Paths and cycles longer than the recursion limit: a few questions whose answers are known without a search."""
import contextlib
import copy
import pickle
import sys

from abstract import Graph

from . import observe
from .core import Cases, Mismatch, expect

N = 1201
KINDS = ('path', 'backwards', 'cycle', 'lasso')


@contextlib.contextmanager
def usual_recursion():
    """the recursion limit as it is without this machinery"""
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        yield
    finally:
        sys.setrecursionlimit(limit)


def make(kind, n=N):
    """nodes 0 .. n-1, added in that order"""
    g = Graph()
    for i in range(n):
        g.add_node(i)
    for a, b in links(kind, n):
        g.connect(a, b)
    return g


def links(kind, n=N):
    h = n // 2
    return {'path': [(i, i + 1) for i in range(n - 1)],
            'backwards': [(i + 1, i) for i in range(n - 1)][::-1],
            'cycle': [(i, (i + 1) % n) for i in range(n)],
            'lasso': [(i, i + 1) for i in range(n - 1)] + [(n - 1, h)]}[kind]


def distances(kind, start, onward, n=N):
    """distance of every other node that can be reached along (or against) the edges"""
    table = {}
    for a, b in links(kind, n):
        table.setdefault(a if onward else b, []).append(b if onward else a)
    dist, level = {start: 0}, [start]
    while level:
        later = []
        for x in level:
            for y in table.get(x, ()):
                if y not in dist:
                    dist[y] = dist[x] + 1
                    later.append(y)
        level = later
    return {k: v for k, v in dist.items() if k != start}


def in_loop(kind, x, n=N):
    return kind == 'cycle' or kind == 'lasso' and x >= n // 2


def reach(ctx, g, kind):
    for x in (0, N // 2 - 1, N // 2, N - 1):
        down, up = set(distances(kind, x, True)), set(distances(kind, x, False))
        if in_loop(kind, x):
            up |= {x}
        for what, got, wanted in (('descendants', g.get_node(x).descendants, down), ('ancestors', g.get_node(x).ancestors, up),
                                  ('descendants by name', g.get_descendants(x, distance=False), down), ('ancestors by name', g.get_ancestors(x, distance=False), up)):
            expect(f'number of {what} of {x}', len(got), len(wanted))
            if {n.name for n in got} != wanted:
                raise Mismatch(f'{what} of {x} are wrong')


def distance(ctx, g, kind):
    for x in (0, N // 2 - 1, N // 2, N - 1):
        for what, got, dist in (('descendants', g.get_descendants(x), distances(kind, x, True)), ('ancestors', g.get_ancestors(x), distances(kind, x, False))):
            table = {n.name: d for d, nodes in got.items() for n in nodes}
            if table.pop(x, None) is not None and not in_loop(kind, x):
                raise Mismatch(f'{x} is at a distance from itself')
            expect(f'number of {what} of {x}', sum(map(len, got.values())), len(dist) + (what == 'ancestors' and in_loop(kind, x)))
            if table != dist:
                raise Mismatch(f'distances to {what} of {x} are wrong')


def loops(ctx, g, kind):
    asked = (0, 1, N // 2 - 1, N // 2, N - 1)
    for x in asked:
        expect(f'{x} in a loop', (g.get_node(x).is_in_loop(), g.is_node_in_loop(x)), (in_loop(kind, x),) * 2)
        for y in asked:
            expect(f'{x} and {y} in the same loop', bool(g.are_nodes_in_same_loop(x, y)), in_loop(kind, x) and in_loop(kind, y))


def roots(ctx, g, kind):
    expect('roots', [n.name for n in g.roots], [N - 1 if kind == 'backwards' else 0])


def tree(ctx, g, kind):
    lines = g.get_tree_str().rstrip('\n').split('\n')
    labels = [line.lstrip(' \u2514\u251c\u2502\u2500') for line in lines]
    order = list(range(N))
    wanted = [str(x) for x in (order[::-1] if kind == 'backwards' else order)]
    if kind in ('cycle', 'lasso'):
        wanted.append('0*' if kind == 'cycle' else f'{N // 2}*')
    expect('labels in the tree', labels == wanted, True)


def render(ctx, g, kind):
    text = g.render(view=False).source
    source = observe.parse_source(text)
    expect('nodes and edges rendered', (len(source.nodes), len(source.edges)), (N, len(links(kind))))
    if not all(x.style is not None for x in g.nodes + g.edges):
        raise Mismatch('something has no style')
    if g.render(view=False).source != text:
        raise Mismatch('rendering again gives another text')


def content(what, h, g, kind):
    expect(f'{what}: nodes', [n.name for n in h.nodes] == [n.name for n in g.nodes], True)
    expect(f'{what}: edges', sorted(e.id for e in h.edges_dict.values()) == sorted((a, b, None) for a, b in links(kind)), True)
    if any(h.get_node(n.name) is n for n in g.nodes):
        raise Mismatch(f'{what} shares a node')


def copies(ctx, g, kind):
    content('copy', g.copy(), g, kind)
    content('deep copy', copy.deepcopy([g])[0], g, kind)


def pickles(ctx, g, kind):
    for p in (0, 2, 5):
        content(f'loaded, protocol {p}', pickle.loads(pickle.dumps(g, protocol=p)), g, kind)


def filters(ctx, g, kind):
    x = N // 2 - 1
    for direction, sets in (('to', (False,)), ('from', (True,)), ('to_and_from', (False, True))):
        keep = {x}.union(*(distances(kind, x, s) for s in sets))
        for kind_of, wanted in (('include', keep), ('exclude', set(range(N)) - keep)):
            h = g.filter(nodes=[x], direction=direction, filter_type=kind_of)
            if {n.name for n in h.nodes} != wanted:
                raise Mismatch(f'filter({x}, {direction}, {kind_of}) keeps other nodes')


def sums(ctx, g, kind):
    content('sum with itself', g + g, g, kind)
    content('sum with nothing', g + Graph(), g, kind)


def conversions(ctx, g, kind):
    content('conversion', Graph(g), g, kind)
    content('conversion of the dictionary', Graph(g.__graph__()), g, kind)


def similar(ctx, g, kind):
    h = g.copy()
    expect('similar to its copy', (g.is_similar_to(h), h.is_similar_to(g)), (True, True))
    a, b = links(kind)[-1]
    h.disconnect(h.edges_dict[a, b, None])
    expect('similar without one edge', (g.is_similar_to(h), h.is_similar_to(g)), (False, False))


SLOW = {roots: ('backwards',), tree: ('backwards',), render: ('path', 'cycle')}       # minutes


def stage(ask):
    def run(ctx, kind):
        with usual_recursion():
            g = make(kind)
            ask(ctx, g, kind)
        ctx.step(10)
        ctx.state((ask.__name__, kind))
    return Cases('very long paths', lambda: [k for k in KINDS if k not in SLOW.get(ask, ())], run, f'paths, a cycle and a path into a cycle of {N} nodes, longer than the recursion limit', chunk=1)
