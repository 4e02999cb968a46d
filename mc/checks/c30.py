"""C30: automatic colours: from the scheme, evenly, different siblings, darker edges, own arrow sizes."""
import itertools

from abstract import Graph
from abstract.styling.NodeStyle import NodeStyle
from colouration import Colour, Scheme
from colouration.colour_schemes import colour_schemes

from .. import observe, ref, shapes
from ..core import Cases, Mismatch, expect

ASSUMPTIONS = ['siblings: children whose only inward edge comes from the same node outside loops; their parent is not grey',
               'edge values are numbers for the arrow size: int and float',
               'the colours of the scheme are pairwise different']

HEX = ['#e41a1c', '#377eb8', '#4daf4a', '#984ea3', '#ff7f00', '#a65628', '#f781bf', '#17becf']
NAMED = ['pensieve', 'pensieve2'] + sorted(colour_schemes)


def scheme(which):
    """a fresh value for Graph's colour_scheme: a name, or k -> a scheme of k colours"""
    if isinstance(which, int):
        return Scheme(colours=[Colour(hexadecimal=x) for x in HEX[:which]], name='own', normalize_lightness=None)
    return which


def hexes(which):
    s = scheme(which)
    if s is None:
        s = 'pensieve2'
    if isinstance(s, str):
        s = Scheme(name=s)
    return list(dict.fromkeys(c.hexadecimal for c in s.colours))


def shape(ctx, g, r, which, stylist, own=()):
    """renders a fresh graph and judges its colours"""
    text = g.render(view=False).source
    ctx.step()
    palette = hexes(which)
    f = ref.Facts(r)
    nodes = g.nodes_dict
    colour = {n: nodes[n].style.colour for n in r.nodes}
    inward = {n: [k for k in r.edges if k[1] == n] for n in r.nodes}
    takers = [n for n in r.nodes if stylist == 'random' or f.in_loop(n) or all(f.in_loop(k[0]) for k in inward[n])]
    takers = [n for n in takers if n not in own]
    counts = {h: 0 for h in palette}
    for n in takers:
        h = colour[n].hexadecimal
        if h not in counts:
            raise Mismatch(f'{n!r} has colour {h} that is not in the scheme {which}: {palette}')
        counts[h] += 1
    if takers and max(counts.values()) - min(counts.values()) > 1:
        raise Mismatch(f'uneven use of the scheme by {takers}: {counts}')
    if stylist != 'random':
        for p in r.nodes:
            if f.in_loop(p) or colour[p].saturation < 0.02 or not 0.02 < colour[p].lightness < 0.98:
                continue
            only = [k[1] for k in r.edges if k[0] == p and inward[k[1]] == [k] and k[1] not in own]
            for a, b in itertools.combinations(only, 2):
                if max(abs(x - y) for x, y in zip(colour[a].rgb, colour[b].rgb)) < 1e-6:
                    raise Mismatch(f'children {a!r} and {b!r} of {p!r} have the same colour {colour[a].rgb}')
    shades = {}
    for k in r.edges:
        c, start = g.edges_dict[k].style.colour, colour[k[0]]
        if start.lightness > 1e-6 and not c.lightness < start.lightness - 1e-9:
            raise Mismatch(f'edge {k} is not darker than its start: {c.hsl} {start.hsl}')
        if start.saturation > 0.01 and 0.01 < c.lightness and start.lightness < 0.99:
            d = abs(c.hue - start.hue)
            if min(d, 1 - d) > 1e-6:
                raise Mismatch(f'edge {k} has another hue than its start: {c.hsl} {start.hsl}')
        if shades.setdefault(k[0], c).rgb != c.rgb:
            raise Mismatch(f'edges of {k[0]!r} have different colours')
    drawn = observe.parse_source(text)
    wanted, got = {}, {}
    for k in r.edges:
        v = r.edges[k].value
        size = 0.5 * v if isinstance(v, (int, float)) else 0.5
        wanted.setdefault(k[:2], []).append((size, g.edges_dict[k].style.colour.hexadecimal))
    for s, e, a in drawn.edges:
        got.setdefault((s, e), []).append((float(a['arrowsize']), a['color'][:7]))
    expect('arrow sizes and colours in the text', {k: sorted(v) for k, v in got.items()},
           {(str(a), str(b)): sorted(v) for (a, b), v in wanted.items()})
    ctx.count('takers', len(takers))
    ctx.outcome((palette, sorted(counts.values())))
    ctx.state((which, stylist, list(r.nodes), list(r.edges), [r.edges[k].value for k in r.edges]))


def small_cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for e in shapes.digraphs(n):
            for which in (1, 2, 3, None):
                for stylist in ('pensieve', 'random'):
                    yield (n, shapes.plain(e), which, stylist, None)
    for e in shapes.digraphs(4, loops=True) if deep else shapes.digraphs(4, loops=False, max_edges=5):
        yield (4, shapes.plain(e), 2 + len(e) % 2, 'pensieve', None)
    if deep:
        for e in shapes.digraphs(4, loops=False):
            yield (4, shapes.plain(e), 3, 'random', None)
            yield (4, shapes.plain(e), None, 'pensieve', None)
            yield (4, shapes.plain(e), 4, 'pensieve', None)
    for e in shapes.multigraphs(3, 4 if deep else 3, 2):
        for stylist in ('pensieve', 'random'):
            yield (3, e, 2, stylist, None)
    for _, n, e in itertools.chain(shapes.families(24 if deep else 13), shapes.diamonds(14 if deep else 6)):
        for stylist in ('pensieve', 'random'):
            for which in (3, None):
                yield (n, shapes.plain(e), which, stylist, None)


def forests(n):
    """every parent assignment of n nodes in which parents come first: every forest"""
    for parents in itertools.product(*[range(-1, k) for k in range(n)]):
        yield tuple((p, k) for k, p in enumerate(parents) if p >= 0)


def forest_cases(tier):
    deep = tier == 'thorough'
    for n in range(1, 8 if deep else 7):
        for e in forests(n):
            yield (n, shapes.plain(e), 3, 'pensieve', None)
            if n < 6:
                yield (n, shapes.plain(e[::-1]), None, 'pensieve', None)
                yield (n, tuple((n - 1 - a, n - 1 - b, None) for a, b in e), 2, 'pensieve', None)


def wide_cases(tier):
    deep = tier == 'thorough'
    for which in [1, 2, 3, 4, 5, 6, 7, 8, None] + NAMED:
        size = len(hexes(which))
        if isinstance(which, str) and not deep and size > 20:
            counts = (size, size + 1)
        else:
            counts = sorted({1, 2, size - 1, size, size + 1, 2 * size, 2 * size + 1, 3 * size} - {0})
        for k in counts:
            if k > 120:
                continue
            for stylist in ('pensieve', 'random'):
                yield (k, (), which, stylist, None)
    for k in range(1, 41 if deep else 27):
        star = tuple((0, j) for j in range(1, k + 1))
        if k > 15 and not deep:
            yield (k + 1, shapes.plain(star), 3, 'pensieve', None)
            continue
        for which in (1, 3, None) + (tuple(NAMED) if deep or k in (2, 3, 7) else ()):
            yield (k + 1, shapes.plain(star), which, 'pensieve', None)
        # a root per child next to the star, a loop in front of it, a chain of stars
        yield (2 * k + 1, shapes.plain(star), 3, 'pensieve', None)
        yield (k + 2, shapes.plain(star) + ((k + 1, k + 1, None), (k + 1, 0, None)), 3, 'pensieve', None)
        second = tuple((1, k + j) for j in range(1, k + 1))
        yield (2 * k + 1, shapes.plain(star + second), None, 'pensieve', None)
        # children also reached by edges repeated or from elsewhere
        yield (k + 1, shapes.plain(star) + ((0, 1, 'again'),), None, 'pensieve', None)
        yield (k + 2, shapes.plain(star) + ((k + 1, 1, None),), None, 'pensieve', None)


def equal_label_cases(tier):
    """every node shows the same text"""
    deep = tier == 'thorough'
    for n in (2, 3):
        for e in shapes.digraphs(n):
            for stylist in ('pensieve', 'random'):
                yield (n, shapes.plain(e), 3, stylist, None, 'same')
    for n in range(2, 7 if deep else 6):
        for e in forests(n):
            yield (n, shapes.plain(e), None, 'pensieve', None, 'same')
    for _, n, e in shapes.families(8):
        yield (n, shapes.plain(e), None, 'pensieve', None, 'same')


def gap_cases(tier):
    """children of one parent that were not added in a row"""
    deep = tier == 'thorough'
    for k in range(2, 27 if deep else 17):
        for step in range(2, 2 * k if deep else k + 2):
            n = 1 + (k - 1) * step + 1
            if n > (300 if deep else 60) and step not in (2, k - 1, k, k + 1):
                continue
            children = [1 + i * step for i in range(k)]
            yield (n, tuple((0, c, None) for c in children), None, 'pensieve', None)
            if deep or step in (k, 2):
                yield (n, tuple((0, c, None) for c in children[::-1]), 3, 'pensieve', None)
                others = [j for j in range(1, n) if j not in children]
                yield (n, tuple((0, c, None) for c in children) + tuple((children[0], j, None) for j in others), None, 'pensieve', None)


def hub_cases(tier):
    """a node with many children lies in a loop that is entered from outside, and on"""
    deep = tier == 'thorough'
    for k in range(1, 30 if deep else 17):
        star = tuple((0, j) for j in range(1, k + 1))
        x = k + 1
        yield (k + 2, shapes.plain(star) + ((0, 0, None), (x, 0, None)), 3, 'pensieve', None)                                      # a loop of its own, with a parent
        yield (k + 2, shapes.plain(star) + ((x, 0, None), (0, 0, None)), None, 'pensieve', None)
        yield (k + 3, shapes.plain(star) + ((x, 0, None), (0, x, None), (k + 2, x, None)), 3, 'pensieve', None)                    # a loop of two
        yield (k + 3, ((k + 2, 0, None), (x, 0, None), (0, x, None)) + shapes.plain(star), None, 'pensieve', None)
        yield (k + 3, shapes.plain(star) + ((k, 0, None), (x, 0, None), (k + 2, x, None)), 3, 'pensieve', None)                    # the last child closes the loop
        yield (k + 3, shapes.plain(star) + ((x, 0, None), (k + 2, x, None)), None, 'pensieve', None)                               # no loop at all
        yield (k + 3, shapes.plain(star) + ((x, 0, None), (k + 2, 0, None)), None, 'pensieve', None)                               # two parents


VALUES = (None, 0, 1, 2, -1, 0.5, 3.25, 'text', '7', [2])


def value_cases(tier):
    deep = tier == 'thorough'
    graphs = [(2, ((0, 1, None),)), (1, ((0, 0, None),)), (2, ((0, 1, None), (0, 1, 'x'))), (3, ((0, 1, None), (0, 2, None))),
              (3, ((0, 1, None), (1, 2, None), (2, 0, None))), (3, ((0, 1, None), (0, 1, 'x'), (1, 2, None)))]
    for n, e in graphs:
        for v in itertools.product(VALUES if deep or len(e) < 3 else VALUES[:6] + VALUES[7:8], repeat=len(e)):
            for stylist in ('pensieve', 'random'):
                yield (n, e, None, stylist, v)


def run(ctx, case):
    n, edges, which, stylist, values = case[:5]
    label = case[5] if len(case) > 5 else None
    names = [f'n{k}' for k in range(n)]
    kw = {'stylist': stylist}
    if which is not None:
        kw['colour_scheme'] = scheme(which)
    attrs = {k: {'value': v} for k, v in zip(edges, values)} if values else {}
    g = Graph(**kw)
    r = ref.RGraph()
    for x in names:
        g.add_node(x, label=label)
        r.add(x, label=label)
    for a, b, i in edges:
        v = attrs.get((a, b, i), {}).get('value')
        g.connect(names[a], names[b], id=i, value=v)
        r.connect(names[a], names[b], id=i, value=v)
    shape(ctx, g, r, which, stylist)


# some nodes have styles of their own ----------------------------------------------------------------------------------

OWN = '#123456'


def own_cases(tier):
    deep = tier == 'thorough'
    graphs = [(n, shapes.plain(e)) for n in (1, 2) for e in shapes.digraphs(n)] + [(3, shapes.plain(e)) for e in shapes.digraphs(3, max_edges=9 if deep else 3)]
    graphs += [(n, shapes.plain(e)) for n in ((4, 5, 6) if deep else (4, 5)) for e in forests(n)]
    graphs += [(n, ()) for n in range(4, 11 if deep else 9)]
    for n, e in graphs:
        for k in range(1, 2 ** n):
            own = tuple(i for i in range(n) if k >> i & 1)
            for stylist in ('pensieve', 'random'):
                for overwrite in (False, True) if n < 4 or not e else (False,):
                    for which in (2, 3, None) if not e else (3,):
                        yield (n, e, which, stylist, own, overwrite)


def run_own(ctx, case):
    n, edges, which, stylist, own, overwrite = case
    kw = {} if which is None else {'colour_scheme': scheme(which)}
    g, r = Graph(stylist=stylist, style_overwrite_allowed=overwrite, **kw), ref.RGraph()
    for i in range(n):
        g.add_node(f'n{i}', style=NodeStyle(colour=OWN) if i in own else None)
        r.add(f'n{i}')
    for a, b, i in edges:
        g.connect(f'n{a}', f'n{b}', id=i)
        r.connect(f'n{a}', f'n{b}', id=i)
    # the random stylist replaces styles when it may
    kept = [f'n{i}' for i in own] if stylist == 'pensieve' or not overwrite else []
    shape(ctx, g, r, which, stylist, kept)
    for x in kept:
        expect(f'own colour of {x}', g.get_node(x).style.colour.hexadecimal, OWN)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('shapes', lambda: small_cases(tier), run, 'every digraph on 1-3 nodes with schemes of 1, 2, 3 and 10 colours and both stylists; 4 nodes %s; multigraphs on 3 nodes; families' % ('all' if deep else 'without loops up to 5 edges')),
        Cases('forests', lambda: forest_cases(tier), run, f'every forest on up to {7 if deep else 6} nodes'),
        Cases('schemes and widths', lambda: wide_cases(tier), run, 'every colour scheme with root counts around one, two and three times its size; stars with 1-%d children' % (40 if deep else 26)),
        Cases('equal labels', lambda: equal_label_cases(tier), run, 'every digraph on 2-3 nodes, every forest on up to %d and the families, all nodes with one label' % (6 if deep else 5)),
        Cases('children apart', lambda: gap_cases(tier), run, 'stars with 2-%d children that lie 2-%s nodes apart in the order of nodes' % ((26, 'twice their number') if deep else (16, 'their number'))),
        Cases('hubs in loops', lambda: hub_cases(tier), run, 'a node with 1-%d children in a loop of one, two or through its last child, entered from outside' % (29 if deep else 16)),
        Cases('own styles', lambda: own_cases(tier), run_own, 'every set of nodes with a style of their own in every digraph on 1-3 nodes%s, every forest on up to %d nodes and up to %d nodes without edges; both stylists, with and without overwriting' % (('', 6, 10) if deep else (' (<=3 edges)', 5, 8))),
        Cases('edge values', lambda: value_cases(tier), run, f'every assignment of {len(VALUES)} values to the edges of 6 graphs, both stylists'),
    ]
