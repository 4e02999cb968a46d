"""Stages shared by the properties about structure: every graph shape within a bound, however it came about."""
import itertools
import pickle

from abstract import Graph

from . import observe, shapes
from .core import Cases, Histories
from .ref import RGraph
from .world import World

SWAPS = ('copy', 'pickle2', 'convert', 'dict', 'sum', 'exclude', 'include')


class Live(World):
    """a world around a shape; the scheme names the nodes, or is a tuple of names; dress: see DRESSES"""

    def __init__(self, ctx, scheme, n, edges, dress=None):
        settings, node, edge, last = DRESSES[dress]
        super().__init__(ctx, (dict(settings),))
        names = names_of(scheme, n)
        for i, x in enumerate(names):
            self.apply(('addx', x, node(names, i)))
        for k, (a, b, id) in enumerate(edges):
            self.apply(('con', names[a], names[b], id, 'n', edge(names, k)))
        if last:
            for t in [('n', x) for x in names] + [('e', k) for k in self.r.edges]:
                self.apply((last, t))


def names_of(scheme, n):
    return scheme if isinstance(scheme, tuple) else shapes.names(scheme, n)


def nothing(names, k):
    return ()


# what nodes and edges carry beside their names must not matter: settings of the graph, data of nodes and edges, what is done to all at the end
DRESSES = {
    None: ({}, nothing, nothing, None),
    'strict': ({'strict': True}, nothing, nothing, None),
    'settings': ({'strict': True, 'ordering': False, 'style_overwrite_allowed': True, 'stylist': 'random', 'direction': 'TB', 'label': None,
                  'node_style': {'shape': 'box'}, 'edge_style': {'line_width': 2}, 'colour_scheme': 'pastel15'}, nothing, nothing, None),
    'alike': ({}, lambda names, k: (('label', 'same'), ('value', [1]), ('tooltip', 't'), ('p', 1)), lambda names, k: (('label', 'same'), ('value', [1]), ('p', 1)), None),
    'frozen': ({}, lambda names, k: (('value', k),), lambda names, k: (('value', k),), 'freeze'),
    'misnamed': ({}, lambda names, k: (('label', str(names[(k + 1) % len(names)])), ('value', names[k - 1]), ('parents', []), ('children', 1)),
                 lambda names, k: (('label', str(names[k % len(names)])), ('value', k % 2), ('from', 'x')), None),
    'falsy': ({}, lambda names, k: (('label', ''), ('value', 0), ('tooltip', '')), lambda names, k: (('label', ''), ('value', 0 if k % 2 else False)), None),
    'negative': ({}, lambda names, k: (('label', str(-k)), ('value', -k)), lambda names, k: (('value', -k),), None),
    'styled': ({'style_overwrite_allowed': True}, lambda names, k: (('style', 'S1' if k % 2 else 'S2'),), lambda names, k: (('style', 'S2' if k % 2 else 'S1'),), None),
}

# names that a careless comparison, conversion or joining of names takes for one another
STRANGE = (
    ('a', 'A', 'aa'), ('a', 'a ', ' a'), ('a', 'á', 'a\u0301'), ('1', 1, '01'), (0, '0', '00'), (-1, -2, '-1'), (0, 2 ** 61 - 1, 2 ** 61),
    ('None', 'none', 'nan'), ('a', 'a-b', 'b'), ('a', "('a', 'a', None)", 'b'), ('a_b', 'a', 'b'), ('node', 'edge', 'graph'), ('root', 'Node:root', '0'),
    ('x' * 300, 'x' * 299, 'x' * 299 + 'y'), ('10', '9', '100'), ('\u00df', 'ss', 'SS'), ('\u212a', 'k', 'K'), ('%s', '{}', '%d'), ('a.b', 'a/b', 'a:b'),
    (10 ** 20, -10 ** 20, '1e20'), ('True', 'False', 1), ('', 'a', 0), ('"a"', 'a', "'a'"), ('\\', '\\\\', '/'), ('*', 'a*', 'a'), ('\U0001f600', '\U0001f601', '?'),
)
STRANGE_IDS = ((None, 0), (0, ''), ('', None), (None, 'None'), (1, '1'), (-1, -2), ('x', 'X'), ('x', 'x '), ((1, 2), (2, 1)), (0, 2 ** 61 - 1), ('a', 'b'), (0.5, '0.5'), (frozenset(), ()), (b'x', 'x'), (True, 'True'), ('False', False))


def confusable(max_edges):
    """(names, n, edges) with names or ids that are easily confused"""
    for t in STRANGE:
        for order in (t, t[::-1]):
            for edges in shapes.digraphs(3, max_edges=max_edges):
                yield (order, 3, shapes.plain(edges))
            yield (order, 3, tuple((i, j, None) for i in range(3) for j in range(3)))
    for ids in STRANGE_IDS:
        for order in (ids, ids[::-1]):
            for pairs in (((0, 1),), ((0, 1), (1, 0)), ((0, 0), (0, 1)), ((1, 1), (1, 0), (0, 1))):
                yield ('zyx', 2, tuple((a, b, i) for a, b in pairs for i in order))
                yield ('zyx', 2, tuple((a, b, order[k % 2]) for k, (a, b) in enumerate(pairs)))


def strange(tier, more=lambda t: True):
    deep = tier == 'thorough'
    for t in STRANGE:
        if not more(t):
            continue
        for edges in shapes.digraphs(3, max_edges=4 if deep else 2):
            yield (t, 3, shapes.plain(edges))
        for edges in (((0, 1), (1, 2), (2, 0)), ((2, 1), (1, 0), (0, 1)), ((0, 1), (0, 2), (1, 2)), ((0, 0), (1, 1), (2, 2)), tuple(itertools.product(range(3), repeat=2))):
            for order in (t, t[::-1]):
                ops = ()
                for x in order:
                    ops += (('rm', x, 'n'), ('add', x), ('con', order[0], x, None, 'n'))
                yield (order, 3, shapes.plain(edges), ops)
    for ids in STRANGE_IDS:
        for pairs in itertools.combinations_with_replacement(((0, 1), (1, 0), (0, 0), (1, 2)), 2):
            for order in (ids, ids[::-1]):
                edges = tuple((a, b, i) for a, b in dict.fromkeys(pairs) for i in order)
                yield ('zyx', 3, edges, (('dis', (*(shapes.names('zyx', 3)[k] for k in edges[0][:2]), edges[0][2]), 'd'),))
                yield ('zyx', 3, edges, (('dis', (*(shapes.names('zyx', 3)[k] for k in edges[-1][:2]), edges[-1][2]), 'r'), ('rm', 'y', 'n')))


def dressed(tier):
    deep = tier == 'thorough'
    for dress in DRESSES:
        if dress is not None:
            for edges in shapes.digraphs(3, max_edges=9 if deep else 3):
                yield ('zyx', 3, shapes.plain(edges), (), dress)
            for edges in shapes.multigraphs(2, 5 if deep else 4, 2):
                yield ('abc', 2, edges, (), dress)
            for edges in shapes.digraphs(2):
                for ops in one_step('zyx', 2, shapes.plain(edges)):
                    yield ('zyx', 2, shapes.plain(edges), ops, dress)
                for s in SWAPS:
                    yield ('zyx', 2, shapes.plain(edges), (('swap', s),), dress)


def large(scale):
    for n, edges in shapes.large(scale):
        yield ('int' if n <= 101 and n % 2 else 'abc', n, shapes.plain(edges))


def worn(tier):
    """long histories: one round of changes again and again"""
    times = 60 if tier == 'thorough' else 25
    z, y, x = names = shapes.names('zyx', 3)
    for pairs in (((0, 1), (1, 2)), ((0, 1), (1, 2), (2, 0)), ((0, 1), (0, 2), (1, 1), (1, 0)), ((2, 1), (1, 0), (2, 0), (0, 0))):
        edges = shapes.plain(pairs)
        keys = [(names[a], names[b], None) for a, b in pairs]
        key = next(k for k in keys if k[0] != k[1])
        back = lambda n: tuple(('con',) + k + ('n',) for k in keys if n in k[:2])
        rounds = [
            (('rm', y, 'n'), ('add', y)) + back(y),
            (('rm', z, 'o'), ('readd', 0)) + back(z),
            (('iso', z),) + back(z),
            (('dis', key, 'd'), ('con',) + key + ('n',)),
            (('dis', key, 'r'), ('con',) + key + ('f',)),
            (('re', y, (('label', 'M'), ('value', 2)), 'ignore'), ('recon',) + key + ((('label', 'M'),), None)),
            (('set', ('n', y), 'value', 'v'), ('set', ('e', key), 'label', 'N'), ('freeze', ('n', y)), ('unfreeze', ('n', y))),
            (('render',), ('dis', key, 'd'), ('render',), ('con',) + key + ('n',)),
            (('swap', 'copy'), ('rm', y, 'n'), ('add', y)) + back(y),
            (('ask',),),
        ] + [(('swap', s),) for s in SWAPS] + [(('swap', 'pickle4'), ('render',), ('swap', 'copy'))]
        for r in rounds:
            yield ('zyx', 3, edges, r * times)
        # many edges between the same nodes, and many nodes, come and go
        for i in range(2):
            a, b = (z, y) if i == 0 else (y, y)
            ids = range(100, 100 + times)
            yield ('zyx', 3, edges, tuple(('con', a, b, k, 'n') for k in ids) + tuple(('dis', (a, b, k), 'd') for k in (ids if i else ids[::-1])))
            yield ('zyx', 3, edges, tuple(('con', a, b, k, 'n') for k in ids) + (('rm', z, 'n'), ('add', z)) + back(z))
        new = [f'n{k}' for k in range(times)]
        yield ('zyx', 3, edges, tuple(op for n in new for op in (('add', n), ('con', y, n, None, 'n'))) + tuple(('rm', n, 'n') for n in new))
        yield ('zyx', 3, edges, tuple(op for n in new for op in (('add', n), ('con', n, y, None, 'n'), ('con', z, n, None, 'n'), ('rm', n, 'o'))))


def run_shape(check):
    """case: (scheme, n, edges[, ops])  - ops are applied one by one, everything is asked before and after each; ('all', ops) counts as one"""
    def run(ctx, case):
        scheme, n, edges, *rest = case
        w = Live(ctx, scheme, n, edges, *rest[1:])
        ctx.step(n + len(edges))
        ctx.outcome(check(ctx, w.g, w.r))
        ctx.state(w.r.key())
        for op in (rest[0] if rest else ()):
            for part in op[1] if op[0] == 'all' else (op,):
                w.apply(part)
                ctx.step()
            ctx.outcome(check(ctx, w.g, w.r))
            ctx.state(w.r.key())
    return run


def one_step(scheme, n, edges):
    """every single mutation of a shape"""
    names = shapes.names(scheme, n)
    have = {(a, b) for a, b, _ in edges}
    for i in range(n):
        yield (('rm', names[i], 'n'),)
        yield (('rm', names[i], 'o'), ('readd', 0))
        yield (('iso', names[i]),)
        for j in range(n):
            if (i, j) in have:
                key = (names[i], names[j], None)
                yield (('dis', key, 'd'),)
                yield (('dis', key, 'r'), ('con', names[i], names[j], None, 'n'))
            else:
                yield (('con', names[i], names[j], None, 'n'),)
                yield (('con', names[i], names[j], None, 't'), ('dis', (names[i], names[j], None), 'r'))


def exhaustive(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2):
        for edges in shapes.digraphs(n):
            for scheme in shapes.SCHEMES:
                for order in shapes.orders(edges, 4):
                    yield (scheme, n, shapes.plain(order))
    for edges in shapes.digraphs(3):
        for order in shapes.orders(edges, 5 if deep else 4):
            yield ('abc', 3, shapes.plain(order))
        for scheme in shapes.SCHEMES:
            if scheme != 'abc':
                yield (scheme, 3, shapes.plain(edges))


def four(tier):
    deep = tier == 'thorough'
    for edges in shapes.digraphs(4):
        yield ('zyx', 4, shapes.plain(edges))
    if deep:
        for edges in shapes.digraphs(4):
            for order in shapes.few_orders(edges)[1:]:
                yield ('abc', 4, shapes.plain(order))


def four_sparse(tier):
    """at most 5 edges (quick), all of them with several orders (thorough)"""
    for edges in shapes.digraphs(4, max_edges=5):
        yield ('zyx', 4, shapes.plain(edges))


def five(tier):
    """up to isomorphism, which fixes one node order per shape; then every rotation of the node order"""
    for edges in shapes.digraphs_iso(5, loops=False, max_edges=20 if tier == 'thorough' else 5):
        for k in range(5 if tier == 'thorough' else 1):
            yield ('abc', 5, tuple(((a + k) % 5, (b + k) % 5, None) for a, b in edges))


def multi(tier):
    deep = tier == 'thorough'
    for edges in shapes.multigraphs(2, 8 if deep else 5, 3 if deep else 2):
        yield ('zyx', 2, edges)
    for edges in shapes.multigraphs(3, 5 if deep else 4, 2):
        if any(e[2] for e in edges):
            yield ('abc', 3, edges)


def family(top):
    for _, n, edges in shapes.families(top):
        for scheme in ('abc', 'num') if n <= 12 else ('abc',):
            yield (scheme, n, shapes.plain(edges))
            yield (scheme, n, shapes.plain(edges[::-1]))


def diamond(top):
    for _, n, edges in shapes.diamonds(top):
        yield ('abc', n, shapes.plain(edges))


def mutated(tier):
    for edges in shapes.digraphs(3, max_edges=9 if tier == 'thorough' else 4):
        for ops in one_step('zyx', 3, shapes.plain(edges)):
            yield ('zyx', 3, shapes.plain(edges), ops)


def swapped(tier):
    for edges in shapes.digraphs(3, max_edges=9 if tier == 'thorough' else 3):
        for s in SWAPS:
            yield ('abc', 3, shapes.plain(edges), (('swap', s),))
            if tier == 'thorough' or len(edges) == 2:
                for s2 in ('copy', 'pickle4', 'sum'):
                    yield ('abc', 3, shapes.plain(edges), (('swap', s), ('render',), ('swap', s2)))


def replaced(tier):
    """a node removed, then another one added, with every way of connecting it; on the graph or on a copy"""
    deep = tier == 'thorough'
    for edges in shapes.digraphs(3, max_edges=9 if deep else 2):
        for i in range(3):
            rest = [shapes.names('zyx', 3)[j] for j in range(3) if j != i]
            for new in ('A', 'zz'):
                for links in itertools.product((0, 1), repeat=4):
                    for swap in ((), (('swap', 'copy'),), (('swap', 'pickle2'),)) if deep or sum(links) < 3 else ((),):
                        ops = (('rm', shapes.names('zyx', 3)[i], 'n'),) + swap + (('add', new),)
                        ops += tuple(('con', rest[j], new, None, 'n') for j in (0, 1) if links[j])
                        ops += tuple(('con', new, rest[j], None, 'n') for j in (0, 1) if links[2 + j])
                        yield ('zyx', 3, shapes.plain(edges), ops)


def to(scheme, n, edges, other):
    """from one shape to another at one go: (changes, edges in their order afterwards)"""
    names = shapes.names(scheme, n)
    ops = tuple(('dis', (names[a], names[b], i), 'd' if a < b else 'r') for a, b, i in edges if (a, b, i) not in other)
    ops += tuple(('con', names[a], names[b], i, 'n') for a, b, i in other if (a, b, i) not in edges)
    return ('all', ops), tuple(e for e in edges if e in other) + tuple(e for e in other if e not in edges)


def pairs_of_shapes(tier):
    """(n, edges, other edges): what is remembered about one must not be told of the other"""
    deep = tier == 'thorough'
    for a in shapes.digraphs(2):
        for b in shapes.digraphs(2):
            if a != b:
                yield (2, shapes.plain(a), shapes.plain(b))
    three = [e for e in shapes.digraphs(3) if deep or all(a != b for a, b in e)]
    for a in three:
        for b in three:
            if a != b and (not deep or len(set(a) ^ set(b)) <= 4):
                yield (3, shapes.plain(a), shapes.plain(b))
    if not deep:
        for a in shapes.digraphs(3, max_edges=6):
            for b in shapes.digraphs(3, max_edges=len(a)):
                if len(a) == len(b) == len(set(a) & set(b)) + 1 and any(x == y for x, y in a + b):
                    yield (3, shapes.plain(a), shapes.plain(b))
    # edges that keep every node's number of edges: two edges exchange their ends
    for n, edges in ((4, ((0, 1), (2, 3))), (4, ((0, 1), (1, 2), (2, 3), (3, 0))), (5, ((0, 1), (1, 2), (2, 0), (3, 4), (4, 3))), (6, ((0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)))):
        for (a, b), (c, d) in itertools.permutations(edges, 2):
            other = tuple((a, d) if e == (a, b) else (c, b) if e == (c, d) else e for e in edges)
            if len(set(other)) == len(edges):
                yield (n, shapes.plain(edges), shapes.plain(other))
                yield (n, shapes.plain(other), shapes.plain(edges))
    # parallel edges
    for a, b in itertools.permutations(shapes.multigraphs(2, 2, 2), 2):
        if any(e[2] for e in a + b):
            yield (2, a, b)


def rewired(tier):
    for n, edges, other in pairs_of_shapes(tier):
        yield ('zyx' if n <= 3 else 'abc', n, edges, (to('zyx' if n <= 3 else 'abc', n, edges, other)[0],))


class Mixed(World):
    """mutations of a three-node graph, everything asked after each step"""
    names = ('b', 'a', 'c')

    def ops(self):
        r = self.r
        out = []
        used = set(r.nodes) | {rn.name for _, rn in self.gone_nodes}
        fresh = True
        for n in self.names:
            if n in r.nodes:
                out.append(('rm', n, 'n'))
            elif n in used:
                out.append(('add', n))
            elif fresh:
                out.append(('add', n))
                fresh = False
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        for key in r.edges:
            out.append(('dis', key, 'd'))
        for s in r.nodes:
            for e in r.nodes:
                if (s, e, None) not in r.edges:
                    out.append(('con', s, e, None, 'n'))
        return out


def stages(check, tier, groups, top=14, deep_top=30, history_depth=6, scale=1, more=lambda t: True,
           use=('exhaustive', 'four', 'five', 'multi', 'family', 'diamond', 'mutated', 'rewired', 'replaced', 'swapped', 'strange', 'dressed', 'large', 'worn', 'history')):
    """check(ctx, g, r) decides the property on one graph"""
    deep = tier == 'thorough'
    run = run_shape(check)
    out = []
    if 'exhaustive' in use:
        out.append(Cases('all digraphs up to 3 nodes', lambda: exhaustive(tier), run,
                         'every digraph with self-loops on 0-3 nodes; every edge order up to %d edges (rotations above); 5 naming schemes' % (5 if deep else 4)))
    if 'multi' in use:
        out.append(Cases('all multigraphs', lambda: multi(tier), run, 'every multigraph on 2 nodes (<=%d edges) and 3 nodes (<=%d edges)' % ((8, 5) if deep else (5, 4))))
    if 'family' in use:
        out.append(Cases('families', lambda: family(deep_top if deep else top), run, 'paths, cycles, stars, trees, DAGs, fans, ladders, bipartite, joined cycles ... up to %d nodes' % (deep_top if deep else top)))
    if 'diamond' in use:
        out.append(Cases('diamond chains', lambda: diamond(12 if deep else 6), run, 'chains of up to %d diamonds' % (12 if deep else 6)))
    if 'mutated' in use:
        out.append(Cases('one mutation later', lambda: mutated(tier), run, 'every digraph on 3 nodes with <=%d edges x every single mutation (and its undoing), asked before and after' % (9 if deep else 4)))
    if 'rewired' in use:
        out.append(Cases('one shape turned into another', lambda: rewired(tier), run, 'every ordered pair of digraphs on 2 nodes and %s, of small multigraphs, and edges exchanging their ends, changed at one go, asked before and after' % ('on 3 nodes that differ in at most 4 edges' if deep else 'of loop-free digraphs on 3 nodes, digraphs on 3 nodes with one edge moved')))
    if 'replaced' in use:
        out.append(Cases('a node replaced by another', lambda: replaced(tier), run_shape(check), 'every digraph on 3 nodes with <=%d edges x a node removed x a node added (its name first or last) and connected in every way, also on a copy' % (9 if deep else 2)))
    if 'swapped' in use:
        out.append(Cases('copies, pickles, conversions, sums, filtrates', lambda: swapped(tier), run, 'every digraph on 3 nodes with <=%d edges, after copy/pickle/conversion/sum/filter, rendered or not' % (9 if deep else 3)))
    if 'strange' in use:
        out.append(Cases('confusable names and ids', lambda: strange(tier, more), run, '%d triples of names and %d pairs of edge ids that a careless comparison takes for one another; digraphs with <=%d edges; removed, added again and reconnected' % (sum(map(bool, map(more, STRANGE))), len(STRANGE_IDS), 4 if deep else 2)))
    if 'dressed' in use:
        out.append(Cases('settings and data', lambda: dressed(tier), run, '%d kinds of graph settings and data of nodes and edges; every digraph on 3 nodes with <=%d edges, multigraphs on 2 nodes; every mutation, copy and conversion on 2 nodes' % (len(DRESSES) - 1, 9 if deep else 3)))
    if 'worn' in use:
        out.append(Cases('long histories', lambda: worn(tier), run, '24 rounds of changes on 4 graphs, each %d times over, asked after every step' % (60 if deep else 25), chunk=2))
    if 'large' in use:
        sizes = [n for n, _ in shapes.large(scale * (2 if deep else 1))]
        out.append(Cases('large graphs', lambda: large(scale * (2 if deep else 1)), run, '%d regular graphs of %d-%d nodes' % (len(sizes), min(sizes), max(sizes)), chunk=1))
    if 'history' in use:
        cls = type('Mixed', (Mixed,), {'groups': groups})
        d = history_depth + (2 if deep else 0)
        out.append(Histories('histories, asked after every step', cls, d, f'3 names, all histories to depth {d}'))
        out.append(Histories('histories, asked only at the end', cls, d, f'3 names, all histories to depth {d}', warm=False))
    if 'four' in use:
        out.append(Cases('all digraphs on 4 nodes', lambda: four(tier), run, 'every labelled digraph with self-loops on 4 nodes' + (', 3 edge orders' if deep else '')))
    if 'four_sparse' in use:
        out.append(Cases('digraphs on 4 nodes', lambda: four(tier) if deep else four_sparse(tier), run, 'every labelled digraph with self-loops on 4 nodes' + (', 3 edge orders' if deep else ' with at most 5 edges')))
    if 'five' in use:
        out.append(Cases('digraphs on 5 nodes', lambda: five(tier), run, 'one loop-free digraph per isomorphism class on 5 nodes' + (', 5 node orders' if deep else ' with at most 5 edges')))
    return out
