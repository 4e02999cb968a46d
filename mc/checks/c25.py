"""C25: similarity of all pairs of small graphs against equality of their descriptions."""
import copy
import itertools
import pickle

from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import long, observe, shapes, structural
from ..core import Cases, Mismatch, expect, short

ASSUMPTIONS = ['values and parameters can be compared with == and are equal to themselves', 'two styles are the same when they render the same']

# a description: (nodes, edges, settings); a node is (name, attrs), an edge ((start, end, id), attrs); attrs are sorted pairs


def build(d, backwards=False):
    nodes, edges, settings = d
    g = Graph(**dict(settings))
    for n, attrs in (reversed(nodes) if backwards else nodes):
        g.add_node(shapes.again(n), **real(attrs, observe.node_style))
    for (a, b, i), attrs in (reversed(edges) if backwards else edges):
        g.connect(shapes.again(a), shapes.again(b), id=shapes.again(i), **real(attrs, observe.edge_style))
    return g


def real(attrs, style):
    out = copy.deepcopy(dict(attrs))
    if 'style' in out:
        out['style'] = style(out['style']) if isinstance(out['style'], str) else (NodeStyle if style is observe.node_style else EdgeStyle)(**dict(out['style']))
    return out


_texts = {}


def style_text(kind, token):
    if token is None or isinstance(token, str):
        return observe.style_text(kind, token)
    if (kind, token) not in _texts:
        _texts[kind, token] = (NodeStyle if kind == 'node' else EdgeStyle)(**dict(token)).get_graphviz_str()
    return _texts[kind, token]


def same_attrs(kind, x, y):
    x, y = dict(x), dict(y)
    for k in set(x) | set(y):
        if k == 'style':
            if style_text(kind, x.get(k)) != style_text(kind, y.get(k)):
                return False
        elif k == 'value':
            if x.get(k) != y.get(k):
                return False
        elif k not in ('label', 'tooltip') and (k not in x or k not in y or x[k] != y[k]):
            return False
    return True


def same(d, e):
    (n1, e1, s1), (n2, e2, s2) = d, e
    if len(n1) != len(n2) or len(e1) != len(e2):
        return False
    s1, s2 = dict(s1), dict(s2)
    if bool(s1.get('strict', False)) != bool(s2.get('strict', False)) or bool(s1.get('ordering', True)) != bool(s2.get('ordering', True)):
        return False
    for kind, left, right in (('node', n1, n2), ('edge', e1, e2)):
        right = dict(right)
        for k, attrs in left:
            if k not in right or not same_attrs(kind, attrs, right[k]):
                return False
    return True


def same_node(d, e, n):
    """are the nodes of that name similar, with their edges"""
    left, right = dict(d[0]), dict(e[0])
    if not same_attrs('node', left[n], right[n]):
        return False
    mine, others = ({k: v for k, v in x[1] if n in k[:2]} for x in (d, e))
    return set(mine) == set(others) and all(same_attrs('edge', mine[k], others[k]) for k in mine)


def same_parts(what, left, right, d, e):
    """node by node and edge by edge"""
    for n, _ in d[0]:
        for m, _ in e[0]:
            wanted = n == m and same_node(d, e, n)
            ask(f'{what}: nodes {n!r} and {m!r}', left.get_node(n), right.get_node(m), wanted, d, e)
    ours, theirs = dict(d[1]), dict(e[1])
    a, b = left.edges_dict, right.edges_dict
    for k in ours:
        for h in theirs:
            ask(f'{what}: edges {k} and {h}', a[k], b[h], k == h and same_attrs('edge', ours[k], theirs[h]), d, e)


VALUES = [0, 1, '1', '', False, [1], (1,), {'k': [1]}, 1.5]


def attrs_menu():
    yield ()
    for v in VALUES:
        yield (('value', v),)
    for s in ('S1', 'S2'):
        yield (('style', s),)
    for p in (None, 0, [1], [2]):
        yield (('p', p),)
    yield (('q', 0),)
    yield (('p', 0), ('q', 0))
    yield (('label', 'L'),)
    yield (('tooltip', 'T'),)
    yield (('value', 1), ('style', 'S1'), ('p', 0))
    yield (('label', 'L'), ('style', 'S1'), ('p', 0))


SETTINGS = [(), (('strict', True),), (('ordering', False),), (('strict', True), ('ordering', False)), (('label', 'other'),), (('direction', 'TB'), ('background_colour', 'red'))]
EDGES = [('a', 'a', None), ('a', 'b', None), ('b', 'a', None), ('a', 'b', 'x')]


def structures():
    for nodes in ((), ('a',), ('b',), (1,), ('1',), ('a', 'b'), ('a', 'c')):
        possible = [e for e in EDGES + [('a', 'b', 1), ('a', 'b', '1'), ('a', 'c', None), ('c', 'a', None)] if e[0] in nodes and e[1] in nodes]
        for k in range(0, 4):
            for es in itertools.combinations(possible, k):
                yield tuple((n, ()) for n in nodes), tuple((e, ()) for e in es), ()


def attributed(deep):
    """every attribute set at each place of a few structures, every setting"""
    base = (('a', 'b'), (('a', 'b', None), ('b', 'a', 'x'), ('b', 'b', None)))
    menu = list(attrs_menu())
    places = [('node', 0), ('node', 1), ('edge', 0), ('edge', 1), ('edge', 2)]
    for place in places:
        for attrs in menu:
            nodes = [[n, ()] for n in base[0]]
            edges = [[e, ()] for e in base[1]]
            (nodes if place[0] == 'node' else edges)[place[1]][1] = attrs
            for settings in (SETTINGS if deep or attrs in ((), menu[2], menu[-1]) else SETTINGS[:1]):
                yield tuple(map(tuple, nodes)), tuple(map(tuple, edges)), settings
    if deep:
        for p, q in itertools.combinations(places, 2):
            for x, y in itertools.product(menu[1:], repeat=2):
                nodes = [[n, ()] for n in base[0]]
                edges = [[e, ()] for e in base[1]]
                for (kind, i), attrs in ((p, x), (q, y)):
                    (nodes if kind == 'node' else edges)[i][1] = attrs
                yield tuple(map(tuple, nodes)), tuple(map(tuple, edges)), ()


def unique(ds):
    out = []
    seen = set()
    for d in ds:
        k = repr(d)
        if k not in seen:
            seen.add(k)
            out.append(d)
    return out


def family(name, tier):
    deep = tier == 'thorough'
    if name == 'structures and settings':
        return unique([(n, e, s) for n, e, _ in structures() for s in (SETTINGS if deep else SETTINGS[:4])])
    if name == 'attributes':
        return unique(attributed(deep))
    if name == 'three nodes':
        return [(tuple((n, ()) for n in 'abc'), tuple((('abc'[i], 'abc'[j], None), ()) for i, j in edges), ()) for edges in shapes.digraphs(3)]


    if name == 'styles':
        out = []
        for kind, menu in (('node', NODE_MENU), ('edge', EDGE_MENU)):
            singles = [((k, v),) for k, values in menu for v in values]
            for t in [()] + singles + [a + b for a, b in itertools.combinations(singles, 2) if a[0][0] != b[0][0] and (deep or 'colour' in (a[0][0], b[0][0]))]:
                if kind == 'node':
                    out.append(((('a', (('style', t),)), ('b', ())), ((('a', 'b', None), ()),), ()))
                else:
                    out.append(((('a', ()), ('b', ())), ((('a', 'b', None), (('style', t),)),), ()))
        return out
    if name == 'confusable values':
        out = []
        for v in MORE_VALUES:
            for key in ('value', 'p', 'q'):
                out.append(((('a', ((key, v),)),), (), ()))
                out.append(((('a', ()),), ((('a', 'a', None), ((key, v),)),), ()))
        return out
    if name.startswith('confusable names '):
        t = structural.STRANGE[int(name[17:])]
        nodes = [tuple((x, ()) for x in s) for k in (1, 2, 3) for s in itertools.combinations(t, k)]
        return [(n, (), ()) for n in nodes] + [(n, (((n[i][0], n[j][0], None), ()),), ()) for n in nodes for i, j in itertools.product(range(len(n)), repeat=2)]
    if name.startswith('confusable ids '):
        ids = structural.STRANGE_IDS[int(name[15:])]
        n = (('a', ()), ('b', ()))
        keys = [(a, b, i) for a, b in (('a', 'b'), ('b', 'a'), ('a', 'a')) for i in ids]
        return [(n, tuple((k, ()) for k in ks), ()) for c in (1, 2) for ks in itertools.combinations(keys, c)]


MORE_VALUES = [0, 0.0, False, True, 1, 2, -1, -2, '0', '1', 'True', 'None', '', 'a', 'A', 'a ', ' a', 'x' * 300, 'x' * 299 + 'y', (), [], {}, [0], [1], [1, 2], [2, 1], (1, 2), [[1], [2]], [[1, 2]], {'k': 1}, {'k': 2},
               {'k': 1, 'm': 2}, {'m': 2, 'k': 1}, {1, 2}, {2, 1}, frozenset((1, 2)), b'a', 1.5, 10 ** 20, 10 ** 20 + 1, 2 ** 61 - 1, 2 ** 61, float('inf'), 1j, range(2), range(3), slice(1)]
BLOCK = 25
NODE_MENU = (('colour', ('red', 'blue')), ('fill_colour', ('red', 'white')), ('border_colour', ('red', 'black')), ('opacity', (0.5, 1)), ('font', ('courier', 'arial')), ('text_colour', ('red', 'white')),
             ('text_size', (9, 10)), ('shape', ('oval', 'circle')), ('shape_style', ('filled', 'dashed')), ('lighter_fill', (False,)))
EDGE_MENU = (('colour', ('red', 'blue')), ('opacity', (0.5, 1)), ('font', ('courier', 'arial')), ('text_colour', ('red', 'black')), ('text_size', (9, 10)), ('arrow_size', (1, 2)), ('label_style', ('bold', 'italic')), ('line_width', (2, 3)))


def pair_cases(name, tier):
    n = len(family(name, tier))
    return [(name, tier, lo, min(n, lo + BLOCK)) for lo in range(0, n, BLOCK)]


_built = {}


def run_pairs(ctx, case):
    name, tier, lo, hi = case
    if (name, tier) not in _built:
        ds = family(name, tier)
        graphs = [build(d) for d in ds]
        _built[name, tier] = ds, graphs, [observe.snapshot(g) for g in graphs]
    ds, graphs, prints = _built[name, tier]
    for i in range(lo, hi):
        mirrored = build(ds[i], backwards=True)
        before = observe.snapshot(mirrored)
        data = pickle.dumps(graphs[i])
        first = i * 7 % len(ds)
        loaded = pickle.loads(data)
        for j, d in itertools.chain(enumerate(ds[first:], first), enumerate(ds[:first])):
            wanted = same(ds[i], d)
            for what, left, right in (('', graphs[i], graphs[j]), (' built backwards', mirrored, graphs[j]), (' compared with the first built backwards', graphs[j], mirrored), (' loaded', loaded, graphs[j])):
                ask(what, left, right, wanted, ds[i], d)
            ctx.step(4)
            if name != 'three nodes' or (i + j) % 16 == 0:
                same_parts('', graphs[i], graphs[j], ds[i], d)
                same_parts(' built backwards', mirrored, graphs[j], ds[i], d)
                same_parts(' loaded', graphs[j], loaded, d, ds[i])
                ctx.step(3)
        observe.same_snapshot(f'asking changed {ds[i]}', before, observe.snapshot(mirrored))
        ctx.state(ds[i])
    for d, g, p in zip(ds, graphs, prints):
        observe.same_snapshot(f'asking about similarity changed {d}', p, observe.snapshot(g))


def ask(what, left, right, wanted, d, e):
    try:
        got = left.is_similar_to(right)
    except Exception as x:
        raise Mismatch(f'{d}{what} and {e}: no answer but {type(x).__name__}: {x}')
    if got is not True and got is not False:
        raise Mismatch(f'{d}{what} and {e}: the answer is {got!r}')
    if got != wanted:
        raise Mismatch(f'{d}{what} and {e}: observed {got}, expected {wanted}')


# the same content reached in different ways ---------------------------------------------------------------------------

def detour(g):
    """things added and removed again"""
    g.add_node('zz', value=5)
    for n in list(g.nodes_dict):
        g.connect(n, 'zz', id='tmp')
    g.remove_node('zz')
    return g


FORMS = {
    'itself': lambda d: build(d),
    'backwards': lambda d: build(d, backwards=True),
    'copy': lambda d: build(d).copy(),
    'copy of a copy': lambda d: build(d).copy().copy(),
    'deep copy': lambda d: copy.deepcopy(build(d)),
    'loaded': lambda d: pickle.loads(pickle.dumps(build(d))),
    'loaded, protocol 0': lambda d: pickle.loads(pickle.dumps(build(d), 0)),
    'copy of the loaded': lambda d: pickle.loads(pickle.dumps(build(d))).copy(),
    'detour': lambda d: detour(build(d)),
    'detour of the loaded': lambda d: detour(pickle.loads(pickle.dumps(build(d)))),
    'filtered': lambda d: build(d).filter(nodes=[n for n, _ in d[0]]) if d[0] else build(d),
}
LATER = {
    'nothing': lambda g: g,
    'rendered': lambda g: (g.render(view=False), g)[1],
    'asked': lambda g: (g.get_tree_str(), g.roots, [n.descendants for n in g.nodes], g.edges_dict, g)[-1],
}


def form_cases(tier):
    deep = tier == 'thorough'
    ds = family('structures and settings', 'quick')[::1 if deep else 4] + family('attributes', 'quick')
    for d in ds:
        yield d


def run_forms(ctx, d):
    made = {name: make(d) for name, make in FORMS.items()}
    for (n1, x), (n2, y) in itertools.product(made.items(), repeat=2):
        ask(f' ({n1}, {n2})', x, y, True, d, d)
        ctx.step()
    # rendered together, or only one of the two
    for name in ('itself', 'copy', 'loaded', 'detour'):
        g = FORMS[name](d)
        raw = g.copy()
        LATER['rendered'](g)
        bare = any('style' not in dict(a) for _, a in d[0] + d[1])
        ask(f' ({name}, rendered, and not)', g, raw, not bare, d, d)
        ask(f' ({name}, not rendered, and rendered)', raw, g, not bare, d, d)
        for how, other in (('copy', g.copy()), ('loaded', pickle.loads(pickle.dumps(g))), ('deep copy', copy.deepcopy(g))):
            ask(f' ({name}, rendered, and its {how})', g, other, True, d, d)
            ask(f' ({name}, rendered, its {how} and it)', other, g, True, d, d)
            LATER['asked'](other)
            LATER['rendered'](other)
            ask(f' ({name}, rendered, and its {how}, rendered too)', g, other, True, d, d)
        LATER['rendered'](raw)
        ask(f' ({name} and a copy, both rendered)', g, raw, True, d, d)
        ctx.step(12)
    ctx.state(d)


# one change makes a difference, undoing it takes the difference away -----------------------------------------------

def change_cases(tier):
    ds = [d for d in family('structures and settings', 'quick')[::3 if tier == 'quick' else 1] if d[0]] + family('attributes', 'quick')[::2 if tier == 'quick' else 1]
    for d in ds:
        yield d


def run_changes(ctx, d):
    nodes, edges, settings = d
    reference = build(d)
    for name in ('itself', 'copy', 'loaded'):
        for i, (n, attrs) in enumerate(nodes):
            g = FORMS[name](d)
            old = dict(attrs).get('value')
            g.get_node(n).value = ('other', 1)
            ask(f' ({name}: another value of node {n!r})', g, reference, False, d, d)
            ask(f' ({name}: another value of node {n!r}, asked the other way)', reference, g, False, d, d)
            g.get_node(n).value = copy.deepcopy(old)
            ask(f' ({name}: the old value of node {n!r})', g, reference, True, d, d)
            g.get_node(n).label = 'changed'
            g.get_node(n).tooltip = 'changed'
            ask(f' ({name}: another label)', g, reference, True, d, d)
            ctx.step(4)
        for (a, b, i), attrs in edges:
            g = FORMS[name](d)
            old = dict(attrs).get('value')
            e = g.edges_dict[a, b, i]
            e.value = ('other', 1)
            ask(f' ({name}: another value of edge {(a, b, i)})', g, reference, False, d, d)
            ask(f' ({name}: another value of edge {(a, b, i)}, asked the other way)', reference, g, False, d, d)
            e.value = copy.deepcopy(old)
            ask(f' ({name}: the old value of edge {(a, b, i)})', g, reference, True, d, d)
            g.disconnect(g.edges_dict[a, b, i])
            ask(f' ({name}: without edge {(a, b, i)})', g, reference, False, d, d)
            ask(f' ({name}: with edge {(a, b, i)})', reference, g, False, d, d)
            g.connect(a, b, id=i, **real(attrs, observe.edge_style))
            ask(f' ({name}: edge {(a, b, i)} back again)', g, reference, True, d, d)
            ask(f' ({name}: edge {(a, b, i)} back again, asked the other way)', reference, g, True, d, d)
            ctx.step(8)
        g = FORMS[name](d)
        g.add_node('zz')
        ask(f' ({name}: one node more)', g, reference, False, d, d)
        ask(f' ({name}: one node less)', reference, g, False, d, d)
        g.remove_node('zz')
        ask(f' ({name}: node gone again)', g, reference, True, d, d)
        ctx.step(4)
    ctx.state(d)


def large_cases(tier):
    for _, n, edges in shapes.families(30 if tier == 'thorough' else 13):
        if n > 5 and edges:
            names = [f'n{k}' for k in range(n)]
            yield (tuple((x, (('value', k),)) for k, x in enumerate(names)), tuple(((names[a], names[b], None), (('value', k * 10),)) for k, (a, b) in enumerate(edges)), ())


def run_large(ctx, d):
    """a larger graph against every graph that differs from it in one place"""
    nodes, edges, settings = d
    g = build(d)
    ask(' (built backwards)', g, build(d, backwards=True), True, d, d)
    ask(' (loaded)', pickle.loads(pickle.dumps(g)), g, True, d, d)
    others = []
    for k in range(len(nodes)):
        n = nodes[k][0]
        others.append((nodes[:k] + ((n, (('value', 'other'),)),) + nodes[k + 1:], edges, settings))
        others.append((nodes[:k] + nodes[k + 1:], tuple(e for e in edges if n not in e[0][:2]), settings))
    for k, ((a, b, i), attrs) in enumerate(edges):
        others.append((nodes, edges[:k] + (((a, b, i), (('value', 'other'),)),) + edges[k + 1:], settings))
        others.append((nodes, edges[:k] + edges[k + 1:], settings))
        others.append((nodes, edges[:k] + (((a, b, 'id'), attrs),) + edges[k + 1:], settings))
        if ((b, a, i), attrs) != edges[k] and not any(e[0] == (b, a, i) for e in edges):
            others.append((nodes, edges[:k] + (((b, a, i), attrs),) + edges[k + 1:], settings))
    for e in others:
        h = build(e)
        ask('', g, h, False, d, e)
        ask('', h, g, False, e, d)
        ctx.step(2)
    ctx.state(d)


def stages(tier):
    out = []
    kinds = [f'confusable names {k}' for k in range(len(structural.STRANGE))] + [f'confusable ids {k}' for k in range(len(structural.STRANGE_IDS))]
    out.append(Cases('pairs: confusable names and ids', lambda: [c for name in kinds for c in pair_cases(name, tier)], run_pairs, f'all pairs of 21 graphs for each of {len(structural.STRANGE)} triples of names and {len(structural.STRANGE_IDS)} pairs of ids that a careless comparison takes for one another'))
    for name in ('structures and settings', 'attributes', 'three nodes', 'confusable values', 'styles'):
        n = len(family(name, tier))
        out.append(Cases('pairs: ' + name, lambda name=name: pair_cases(name, tier), run_pairs, f'all {n * n} ordered pairs of {n} graphs, also with reversed insertion order', chunk=6 if n > 400 else 2))
    out.append(Cases('forms', lambda: form_cases(tier), run_forms, f'all pairs of {len(FORMS)} ways to reach the same content; rendered and unrendered copies'))
    out.append(Cases('changes', lambda: change_cases(tier), run_changes, 'every value and edge of every graph changed and changed back'))
    out.append(Cases('larger graphs', lambda: large_cases(tier), run_large, f'structured families up to {30 if tier == "thorough" else 13} nodes, each against every graph with one node or edge missing, turned round, or of another value or id'))
    out.append(long.stage(long.similar))
    return out
