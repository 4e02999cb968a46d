"""A process that goes through a fixed list of histories and reports what came out: started by the C29 check
with different hash seeds and after different activities."""
import gc
import json
import os
import pickle
import random
import sys
import threading
import warnings


def specs(tier):
    """histories: (scheme, nodes, edges, kind)"""
    from mc import shapes
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        for i, edges in enumerate(shapes.digraphs(n, max_edges=9 if deep else 2)):
            if not deep and n == 3 and i % 3:
                continue
            out.append((('abc', 'zyx')[i % 2], n, shapes.plain(edges), ('bare', 'attributed', 'random', 'settings')[i % 4]))
    for i, edges in enumerate(shapes.digraphs(4, loops=False, max_edges=3, min_edges=3)):
        if deep or i % 14 == 0:
            out.append(('abc', 4, shapes.plain(edges), ('bare', 'attributed', 'random')[i % 3]))
    for _, n, edges in shapes.families(8 if deep else 4):
        out += [('abc', n, shapes.plain(edges), 'bare')] + ([('zyx', n, shapes.plain(edges), 'random')] if deep or n > 3 else [])
    for i, edges in enumerate(shapes.multigraphs(2, 3, 3)):
        if not deep and i % 4:
            continue
        out.append(('zyx', 2, edges, 'attributed'))
    return out


def build(spec):
    from mc import observe, shapes
    from mc.twin import attributed
    scheme, n, edges, kind = spec
    kw = {'random': {'stylist': 'random'}, 'settings': {'strict': True, 'ordering': False, 'label': 'L', 'node_style': {'shape': 'auto'}, 'style_overwrite_allowed': True}}.get(kind, {})
    g = observe.build(shapes.names(scheme, n), edges, **kw)
    if kind == 'attributed':
        attributed(g)
        for e in g.edges:
            e['q'] = [1]        # sets have no order of their own
    return g


def partner():
    """a graph that overlaps with most others"""
    from abstract import Graph
    h = Graph()
    for i, n in enumerate('dbaxzy'):
        h.add_node(n, label=f'h{i}' if i % 2 else None, value=[i, {'k': i}])
    for i, (a, b) in enumerate(('ab', 'ba', 'db', 'xz', 'zx', 'dd', 'yx')):
        h.connect(a, b, value=i, label=f'e{i}' if i % 2 else None)
    return h


def go(spec):
    """what comes out of one history, part by part"""
    from abstract import Graph
    from mc.checks import c28
    out = {}
    g = build(spec)
    for name in c28.NAMES:
        out['ask ' + name] = repr(c28.plain(c28.ask(lambda: c28.QUERIES[name](g)), g))
    for what, make in (('copy', lambda: g.copy()), ('conversion', lambda: Graph(g)), ('sum', lambda: g.add(partner(), add_values_function=lambda x, y: (repr(x), repr(y)))),
                       ('sum the other way', lambda: partner().add(g, add_values_function=lambda x, y: (repr(x), repr(y)))), ('filter', lambda: g.filter(nodes=g.nodes[:2], direction='from')),
                       ('rest', lambda: g.filter(nodes=g.nodes[-1:], direction='to', filter_type='exclude')), ('loaded', lambda: pickle.loads(pickle.dumps(g))), ('appended', lambda: Graph(obj=[partner(), g]))):
        h = c28.ask(make)
        if isinstance(h, str):
            out[what] = h
            continue
        out[what] = repr(([c28.plain_obj(n) for n in h.nodes], [c28.plain_obj(e) for e in h.edges], [[e.id for e in n.inward_edges] for n in h.nodes], h.get_graphviz_str()))
        if not any(isinstance(n.value, tuple) for n in h.edges):
            out[what + ', rendered'] = str(c28.ask(lambda: h.render(view=False).source))
        out[what + ', tree'] = h.get_tree_str()
    out['rendered'] = g.render(view=False).source
    g.add_node('late')
    g.connect('late', g.nodes[0], value=3)
    out['rendered later'] = g.render(view=False).source
    if len(g.nodes) > 2:
        g.remove_node(g.nodes[0])
        out['rendered after removal'] = g.render(view=False).source
    for name in ('ask roots', 'ask ancestors', 'ask siblings'):
        out[name + ' at the end'] = repr(c28.plain(c28.ask(lambda: c28.QUERIES[name[4:]](g)), g))
    return out


def extras():
    """other ways to make graphs"""
    from abstract import Graph
    from mc import linked
    yield 'lists', lambda: Graph.from_lists(start=list('abcab'), end=list('bcadb'), edge=['x', None, 'x', 'y', 'x'])
    yield 'outline', lambda: Graph.from_indented_text(root='r', lines=['a', '  b', '    c', '  d', 'e', '  f'])
    for seed in (0, 1, 42):
        for cycle in (False, True):
            yield f'random {seed} {cycle}', lambda seed=seed, cycle=cycle: Graph.random(num_nodes=5, cycle=cycle, seed=seed)
    yield 'dictionary', lambda: Graph({'nodes': {'a': {'label': 'A'}, 'b': {}, 'c': {'value': 2}}, 'edges': [('a', 'b'), ('c', 'b', {'label': 'x'}), ('b', 'b')], 'node_styles': {'c': {'shape': 'circle'}, 'a': {'colour': 'red'}},
                                       'node_colours': {'b': 'green'}, 'edge_colours': {('a', 'b'): 'blue'}, 'edge_styles': {('c', 'b'): {'line_width': 3}}})
    for stylist in ('default', 'random'):
        for shape in ('star', 'path', 'ring', 'none'):
            yield f'many {stylist} {shape}', lambda stylist=stylist, shape=shape: many(stylist, shape)
    for scheme in ('accent8', 'set13', 'paired12', 'pensieve'):
        yield f'scheme {scheme}', lambda scheme=scheme: schemed(scheme)

    def objects():
        objs = linked.make(5, ((0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (4, 1)), numbers=[11, 7, 5, 3, 2])
        return Graph.from_object(objs[0])
    yield 'objects', objects


def many(stylist, shape, n=45):
    from abstract import Graph
    g = Graph(**({} if stylist == 'default' else {'stylist': stylist}))
    for i in range(n):
        g.add_node(f'n{i}')
    for i in range({'star': 1, 'none': n}.get(shape, 0), n if shape != 'path' else n - 1):
        g.connect('n0' if shape == 'star' else f'n{i}', f'n{(i + 1) % n if shape in ("path", "ring") else i}')
    return g


def schemed(scheme):
    from abstract import Graph
    g = Graph(colour_scheme=scheme)
    for i in range(9):
        g.add_node(f'n{i}')
    for i in range(8):
        g.connect(f'n{i // 2}', f'n{i + 1}')
    return g


def go_extra(make):
    from mc.checks import c28
    try:
        g = make()
    except Exception as e:
        return {'made': f'{type(e).__name__}: {e}'}
    out = {'content': repr(([c28.plain_obj(n) for n in g.nodes], [e.id for e in g.edges])), 'tree': g.get_tree_str(), 'text': g.get_graphviz_str()}
    out['rendered'] = g.render(view=False).source
    return out


# what happened in the process before -----------------------------------------------------------------------------

def busy(kw):
    from abstract import Graph
    kept = []
    for k in range(30):
        g = Graph(**kw)
        for i in range(k % 7 + 1):
            g.add_node(f'{"abcdefgh"[i]}')
        for i in range(k % 7):
            g.connect('abcdefgh'[i], 'abcdefgh'[(i * k + 1) % (k % 7 + 1)], id=i)
        g.render(view=False)
        kept.append(g if k % 2 else None)
    return kept


def failures():
    from abstract import Graph
    g = Graph()
    for f in (lambda: g.connect('x', 'y'), lambda: g.get_node('x'), lambda: g.add_node(None), lambda: g.remove_node('x'), lambda: Graph(3), lambda: g.filter(nodes=['x']), lambda: Graph(obj={'nodes': ['a'], 'edges': [('a',)]})):
        try:
            f()
        except Exception:
            pass
    return g


def in_threads():
    ts = [threading.Thread(target=busy, args=({},)) for _ in range(3)]
    for t in ts:
        t.start()
        t.join()


def graphs_of_all_sorts():
    from mc.checks import c28
    g = build(('abc', 4, ((0, 1, None), (1, 2, None), (2, 0, None), (3, 1, None)), 'attributed'))
    c28.answers(g)
    g.copy().render(view=False)
    return [make() for _, make in list(extras())]


ACTIVITIES = {
    'nothing': lambda: None,
    'pensieve graphs': lambda: busy({}),
    'random stylist': lambda: busy({'stylist': 'random'}),
    'other scheme': lambda: busy({'node_style': {'shape': 'auto'}, 'style_overwrite_allowed': True}),
    'random numbers': lambda: (random.seed(7), [random.random() for _ in range(5)]),
    'random graphs': lambda: __import__('abstract').Graph.random(num_nodes=6, seed=3),
    'all sorts': graphs_of_all_sorts,
    'failures': failures,
    'threads': in_threads,
    'memory': lambda: ([bytearray(i * 17 % 5000) for i in range(20000)], gc.collect()),
    'no collector': lambda: gc.disable(),
    'ballast': lambda: setattr(sys, '_ballast', [object() for _ in range(12345)]),
}

ORDERS = [('a', 'b', 'c'), ('label', 'value', 'style'), ('id', 'label', 'value', 'style'), ('a', 'b', 'c', 'd'), ('zz', 'y', 'b'), ('1', '2', '3')]


def main():
    warnings.simplefilter('ignore')
    job = json.loads(sys.argv[1])
    from mc.core import h64
    kept = ACTIVITIES[job['activity']]()
    todo = [('history', i, s) for i, s in enumerate(specs(job['tier']))] + [('extra', n, m) for n, m in extras()]
    if job.get('only') is not None:
        todo = [t for t in todo if t[1] == job['only']]
    if job.get('backwards'):
        todo.reverse()
    results = {}
    for kind, key, what in todo:
        parts = go(what) if kind == 'history' else go_extra(what)
        results[str(key)] = parts if job.get('only') is not None else {k: h64(v) for k, v in parts.items()}
    json.dump({'results': results, 'orders': [list(set(x)) for x in ORDERS], 'seed': os.environ.get('PYTHONHASHSEED')}, sys.stdout)


if __name__ == '__main__':
    main()
