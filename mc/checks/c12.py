"""C12: filtering keeps exactly the selected relatives and leaves the source alone."""
import itertools

from .. import long, observe, shapes, structural, twin
from ..core import Cases, Mismatch, expect
from ..ref import Facts

ASSUMPTIONS = ['directions and filter types are the documented ones']
DIRECTIONS = ('to', 'from', 'to_and_from', None)
TYPES = ('include', 'exclude', None)


def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def cases(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for edges in shapes.digraphs(n, max_edges=9 if deep else 5):
            yield ('zyx', n, shapes.plain(edges), 'full')
    for edges in shapes.multigraphs(3, 4 if deep else 3, 2):
        if any(e[2] for e in edges):
            yield ('abc', 3, edges, 'full')
    for edges in shapes.digraphs_iso(4, max_edges=16 if deep else 5):
        yield ('abc', 4, shapes.plain(edges), 'full' if deep else 'light')
    for _, n, edges in shapes.families(18 if deep else 13):
        yield ('abc', n, shapes.plain(edges), 'single')


def choices(mode, n):
    if mode == 'single':
        return [(x,) for x in range(n)] + [(0, n - 1)]
    if mode == 'few':
        return [(0,), (n // 2,), (n - 1,), (1, n - 2), tuple(range(0, n, 2)), tuple(range(n)), ()]
    return subsets(n)


def strange_cases(tier):
    for names, n, edges in structural.confusable(3 if tier == 'thorough' else 2):
        yield (names, n, edges, 'full')
    for n, edges in shapes.large(0.8 if tier == 'thorough' else 0.4):
        yield ('abc', n, shapes.plain(edges), 'few')


def run(ctx, case):
    scheme, n, edges, mode = case
    names = structural.names_of(scheme, n)
    r = observe.ref(names, edges)
    f = Facts(r)
    g = observe.build(names, edges)
    twin.attributed(g)
    before = observe.snapshot(g)
    parts = {k: (g.get_node(k).label, g.get_node(k).value, observe.real_style(g.get_node(k)), g.get_node(k).get('p')) for k in names}
    eparts = {k: (e.label, e.value, observe.real_style(e), e.get('q')) for k, e in g.edges_dict.items()}
    tip = None
    i = 0
    for chosen in choices(mode, n):
        for direction in DIRECTIONS:
            for kind in TYPES:
                if mode != 'full' and None in (direction, kind):
                    continue
                i += 1
                picked = [names[x] for x in chosen]
                if i % 3 == 1:
                    given = [g.get_node(x) for x in picked]
                elif i % 3 == 2:
                    given = picked[::-1]
                else:
                    given = picked + picked[:1]
                kw = {}
                if direction is not None:
                    kw['direction'] = direction
                if kind is not None:
                    kw['filter_type'] = kind
                if not picked and i % 2:
                    h = g.filter(**kw)
                else:
                    h = g.filter(nodes=given, **kw)
                ctx.step()
                selected = set(picked)
                for x in picked:
                    if direction in ('to', 'to_and_from', None):
                        selected |= f.ancestors(x)
                    if direction in ('from', 'to_and_from', None):
                        selected |= f.descendants(x)
                keep = [x for x in names if (x in selected) == (kind != 'exclude')]
                what = f'filter({picked}, {direction}, {kind})'
                check(ctx, g, h, r, keep, parts, eparts, what)
                ctx.state((case[:3], tuple(keep)))
    observe.same_snapshot('the source changed', before, observe.snapshot(g))


def check(ctx, g, h, r, keep, parts, eparts, what):
    if h is g:
        raise Mismatch(f'{what} returned the graph itself')
    expect(f'{what}: nodes', observe.names_in(h, h.nodes), keep)
    want = [k for k in r.edges if k[0] in keep and k[1] in keep]
    table = h.edges_dict
    expect(f'{what}: edges', sorted(map(repr, table)), sorted(map(repr, want)))
    expect(f'{what}: edge list', sorted(map(repr, (e.id for e in h.edges))), sorted(map(repr, want)))
    for n in keep:
        node = h.get_node(n)
        expect(f'{what}: data of {n!r}', (node.label, node.value, observe.real_style(node), node.get('p')), parts[n])
        expect(f'{what}: outward edges of {n!r}', [e.id for e in node.outward_edges], [k for k in want if k[0] == n])
        expect(f'{what}: inward edges of {n!r}', [e.id for e in node.inward_edges], [k for k in want if k[1] == n])
        if node is g.get_node(n):
            raise Mismatch(f'{what} shares node {n!r}')
    for k in want:
        e = table[k]
        expect(f'{what}: data of {k}', (e.label, e.value, observe.real_style(e), e.get('q')), eparts[k])
        if e.graph is not h:
            raise Mismatch(f'{what}: edge {k} does not belong to the result')


def independent_cases(tier):
    for n in (1, 2, 3):
        for edges in shapes.digraphs(n, max_edges=9 if tier == 'thorough' else 3):
            for x in range(n):
                for direction in ('to', 'from', 'to_and_from'):
                    for kind in ('include', 'exclude'):
                        yield (n, shapes.plain(edges), x, direction, kind, (n + len(edges) + x) % 2 == 0)


def run_independent(ctx, case):
    n, edges, x, direction, kind, rendered = case
    names = shapes.names('abc', n)
    g = observe.build(names, edges)
    twin.attributed(g)
    if rendered:
        g.render(view=False)
    before = observe.snapshot(g)
    h = g.filter(nodes=[names[x]], direction=direction, filter_type=kind)
    observe.same_snapshot('filtering changed the source', before, observe.snapshot(g))
    twin.separate(g, h)
    for y in h.nodes + h.edges:
        twin.scribble(y)
    h.render(view=False)
    for y in list(h.nodes):
        h.remove_node(y)
    h.add_node('fresh')
    observe.same_snapshot('changing the result changed the source', before, observe.snapshot(g))
    h = g.filter(nodes=[names[x]], direction=direction, filter_type=kind)
    kept = observe.snapshot(h)
    for y in g.nodes + g.edges:
        twin.scribble(y)
    g.render(view=False)
    for y in list(g.nodes):
        g.remove_node(y)
    observe.same_snapshot('changing the source changed the result', kept, observe.snapshot(h))
    ctx.step(4)
    ctx.state(case)


def setting_cases(tier):
    for i in range(len(twin.SETTINGS)):
        for source in ('plain', 'dict'):
            for direction in ('to', 'from', 'to_and_from'):
                yield (i, source, direction)


def run_setting(ctx, case):
    """all nodes selected or none excluded: the result is a copy; otherwise settings are those of the source"""
    i, source, direction = case
    g = twin.with_settings((i,), source)
    h = g.filter(nodes=list(g.nodes), direction=direction)
    k = g.filter(nodes=[], direction=direction, filter_type='exclude')
    part = g.filter(nodes=[g.nodes[0]], direction=direction, filter_type='exclude')
    text = g.copy().render(view=False).source
    for what, x in (('all included', h), ('none excluded', k)):
        got = x.render(view=False).source
        if got != text:
            raise Mismatch(f'{what}: renders differently:\n{got}\n{text}')
    if part.get_graphviz_header() != g.get_graphviz_header():
        raise Mismatch(f'header of the result:\n{part.get_graphviz_header()}\n{g.get_graphviz_header()}')
    part.render(view=False)
    # a filtrate grows back like a copy
    a, b = g.copy(), g.filter(nodes=list(g.nodes), direction=direction)
    for x in (a, b):
        x.add_node('new')
        x.connect(x.nodes[0], 'new')
    if a.render(view=False).source != b.render(view=False).source:
        raise Mismatch('a filtrate goes on differently')
    ctx.step(8)
    ctx.state(case)


def unknown(ctx, case):
    n, edges, extra = case
    names = shapes.names('abc', n)
    g = observe.build(names, edges)
    before = observe.snapshot(g)
    _, error, _ = observe.call(lambda: g.filter(nodes=list(names[:extra]) + ['unknown']))
    if error is None:
        raise Mismatch('an unknown node was accepted')
    observe.same_snapshot('a refused filter changed the graph', before, observe.snapshot(g))
    ctx.step()


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('every shape, subset, direction and type', lambda: cases(tier), run, 'every digraph on 0-3 nodes (<=%d edges), multigraphs, 4 nodes up to isomorphism (<=%d edges), families; all node subsets, as names, objects, reversed, repeated' % ((9, 16) if deep else (5, 5))),
        Cases('confusable names and ids, large graphs', lambda: strange_cases(tier), run, '%d triples of names, %d pairs of ids; regular graphs beyond the size of the families' % (len(structural.STRANGE), len(structural.STRANGE_IDS)), chunk=4),
        Cases('independence', lambda: independent_cases(tier), run_independent, 'every digraph on 1-3 nodes, every single node, direction and type; both sides changed'),
        Cases('settings', lambda: setting_cases(tier), run_setting, 'every graph setting, plain and dictionary sources'),
        Cases('unknown nodes', lambda: [(n, shapes.plain(e), x) for n in (0, 1, 2) for e in shapes.digraphs(n) for x in range(n + 1)], unknown, 'every digraph on 0-2 nodes'),
        long.stage(long.filters),
    ]
