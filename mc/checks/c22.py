"""C22: own, graph-wide and per-element styling in every combination, with shared style objects."""
import itertools

from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import dot, observe, structural
from ..core import Cases, Mismatch, expect

ASSUMPTIONS = ['a graph-wide style given as a dictionary sets its attributes for every element, a style object is for elements without their own',
               'graph-wide and per-element styles do not set the same attribute']

NAMES = ('a', 'b', 'c')
EDGES = (('a', 'b', None), ('a', 'c', None), ('b', 'b', None), ('b', 'c', 'x'), ('b', 'c', None))

OBJ = {
    'nodes': {'S': lambda: NodeStyle(colour='red', shape='star'), 'T': lambda: NodeStyle(colour='blue', fill_colour='yellow', text_size=30)},
    'edges': {'S': lambda: EdgeStyle(colour='red', line_width=4), 'T': lambda: EdgeStyle(colour='blue', arrow_size=3, text_colour='green')},
}
DICT = {'nodes': {'D': {'shape': 'hexagon', 'font': 'courier'}, 'C': {'colour': 'purple', 'shape': 'egg'}, 'W': {'text_size': 33}},
        'edges': {'D': {'line_width': 6, 'font': 'courier'}, 'C': {'colour': 'purple', 'line_width': 5}, 'W': {'text_size': 33}}}


class Shared:
    """one style object per token, so that every use of a token is the same object"""

    def __init__(self):
        self.made = {}

    def get(self, kind, token):
        if token is None:
            return None
        if (kind, token) not in self.made:
            self.made[kind, token] = OBJ[kind][token]() if token in OBJ[kind] else dict(DICT[kind][token])
        return self.made[kind, token]

    def text(self):
        return {k: (v.get_graphviz_str() if not isinstance(v, dict) else repr(v)) for k, v in self.made.items()}


def fresh(kind, token):
    cls = NodeStyle if kind == 'nodes' else EdgeStyle
    return OBJ[kind][token]() if token in OBJ[kind] else cls(**DICT[kind][token])


def build(case, pool, per_element=True):
    own, wide, per, overwrite, spelling = case
    nodes, edges = {n: {} for n in NAMES}, []
    for k, t in own:
        if k in nodes:
            nodes[k]['style'] = pool.get('nodes', t)
    table = dict(own)
    for s, e, i in EDGES:
        d = {'id': i}
        if (s, e, i) in table:
            d['style'] = pool.get('edges', table[s, e, i])
        edges.append((s, e, d))
    rep = {'nodes': nodes, 'edges': edges}
    if per_element:
        for what, k, t in per:
            rep.setdefault(what, {})[k] = t if what.endswith('colours') else pool.get('nodes' if what.startswith('node') else 'edges', t)
    kw = {'style_overwrite_allowed': overwrite}
    wide = dict(wide)
    w = {k: pool.get(k, t) for k, t in wide.items()}
    if spelling == 'keyword':
        kw.update({k[:-1].replace('s', '') + '_style': v for k, v in w.items()})
    elif spelling == 'global':
        rep.update({f'global_{k[:-1]}_style': v for k, v in w.items()})
    elif spelling == 'graph':
        rep.update({f'graph_{k[:-1]}_style': v for k, v in w.items()})
    return Graph(rep, **kw)


def style_of(a):
    return {k: v for k, v in a.items() if k not in ('label', 'tooltip')}


def look_of(style):
    """what a style object is rendered as"""
    p = dot.parse('digraph G { x [' + style.get_graphviz_str() + '] }')
    return p.nodes['x']


def looks(g, text=None):
    p = observe.parse_source(g.render(view=False).source if text is None else text)
    out = {n: style_of(a) for n, a in p.nodes.items()}
    ids = {}
    for e in g.edges:
        ids.setdefault((e.start.name, e.end.name), []).append(e)
    # parallel edges are told apart by their position in the edge list
    seen = {}
    for s, e, a in p.edges:
        k = seen.get((s, e), 0)
        seen[s, e] = k + 1
        out[ids[s, e][k].id] = style_of(a)
    return out


def targets(what, k):
    """the node or edge that an entry of a dictionary source names"""
    if what.startswith('node'):
        return k
    return k if len(k) == 3 else (k[0], k[1], None)


def run(ctx, case):
    own, wide, per, overwrite, spelling = case
    pool = Shared()
    g = build(case, pool)
    other = build((own, wide, (), overwrite, spelling), pool)
    base = build(case, Shared(), per_element=False)
    before = pool.text()
    text = g.render(view=False).source
    real = looks(g, text)
    auto = looks(base)
    ctx.step()
    table, wide_d = dict(own), dict(wide)
    elements = [(n, 'nodes') for n in NAMES] + [(e, 'edges') for e in EDGES]
    real_objects = {n: base.get_node(n) for n in NAMES}
    real_objects.update(base.edges_dict)
    for k, kind in elements:
        w, o = wide_d.get(kind), table.get(k)
        wide_is_dict = w is not None and w in DICT[kind]
        # what the element has without per-element entries
        if w is not None and (o is None or overwrite):
            style = fresh(kind, w)
        elif o is not None:
            style = fresh(kind, o)
        else:
            style = None
        if style is not None:
            if wide_is_dict:
                style.complement(DICT[kind][w])
            expect(f'{k} without per-element styling', auto[k], look_of(style))
        elif not auto[k]:
            raise Mismatch(f'{k} is rendered without style')
        # with them: entries for styles first, then colours
        style = real_objects[k].style.copy()
        mine = [x for x in per if targets(x[0], x[1]) == k]
        for what, _, t in sorted(mine, key=lambda x: x[0].endswith('colours')):
            if what == 'node_styles' and t in DICT[kind]:
                style.complement(DICT[kind][t])
            elif what.endswith('styles'):
                style = fresh(kind, t)
            else:
                style = style.copy()
                style.reset_colours()
                style.colour = t
        if mine and wide_is_dict:
            style = style.copy()
            style.complement(DICT[kind][w])
        expect(f'{k} with {mine}', real[k], look_of(style))
    expect('shared style objects', pool.text(), before)
    # again, and the graph that shares the style objects
    expect('rendering again', g.render(view=False).source, text)
    expect('another graph with the same style objects', looks(other), auto)
    expect('shared style objects', pool.text(), before)
    ctx.step(2)
    refusal(ctx, g, overwrite)
    expect('shared style objects after assignments', pool.text(), before)
    # converted and copied graphs style the same elements
    if not overwrite:
        h = build(case, Shared())
        expect('copy', looks(h.copy()), real)
        if spelling != 'keyword' or not wide:
            expect('conversion', looks(Graph(h)), real)
    ctx.state(case)
    ctx.outcome(text)


def refusal(ctx, g, overwrite):
    """assigning a style to an element that has one"""
    for x, new, other in [(n, NodeStyle(colour='black'), {'shape': 'box'}) for n in g.nodes] + [(e, EdgeStyle(colour='black'), {'line_width': 9}) for e in g.edges]:
        old = x.style.get_graphviz_str()
        for value in (new, other):
            _, error, _ = observe.call(lambda: setattr(x, 'style', value))
            ctx.step()
            if overwrite:
                if error is not None:
                    raise Mismatch(f'replacing the style of {x} failed: {error}')
                wanted = value if not isinstance(value, dict) else type(new)(**value)
                expect(f'style of {x} after replacing it', x.style.get_graphviz_str(), wanted.get_graphviz_str())
            else:
                if error is None:
                    raise Mismatch(f'the style of {x} could be replaced')
                expect(f'style of {x} after a refused assignment', x.style.get_graphviz_str(), old)


OWN = [(), (('a', 'S'),), (('a', 'S'), ('b', 'S')), (('a', 'S'), ('b', 'T'), ('c', 'S')), (('b', 'D'),), (('c', 'D'), ('a', 'T')),
       ((EDGES[0], 'S'),), ((EDGES[0], 'S'), (EDGES[3], 'S')), ((EDGES[2], 'T'), (EDGES[4], 'D')), (('a', 'S'), ('b', 'S'), (EDGES[1], 'T'), (EDGES[3], 'T'))]
WIDE = [(), (('nodes', 'S'),), (('nodes', 'T'),), (('nodes', 'W'),), (('edges', 'S'),), (('edges', 'W'),), (('nodes', 'W'), ('edges', 'W')), (('nodes', 'S'), ('edges', 'S'))]
PER = [('node_styles', 'a', 'D'), ('node_styles', 'a', 'S'), ('node_styles', 'b', 'C'), ('node_styles', 'c', 'T'), ('node_styles', 'ghost', 'D'),
       ('node_colours', 'a', 'orange'), ('node_colours', 'c', 'green'), ('node_colours', 'ghost', 'green'),
       ('edge_styles', ('a', 'b'), 'D'), ('edge_styles', ('a', 'b', None), 'S'), ('edge_styles', ('b', 'c', 'x'), 'S'), ('edge_styles', ('b', 'b'), 'C'), ('edge_styles', ('b', 'c', 'ghost'), 'S'),
       ('edge_colours', ('a', 'b'), 'orange'), ('edge_colours', ('b', 'c', 'x'), 'green'), ('edge_colours', ('b', 'b', None), 'cyan')]


def per_sets(top):
    for n in range(top + 1):
        for c in itertools.combinations(PER, n):
            keys = [(x[0], targets(x[0], x[1])) for x in c]
            if len(set(keys)) == len(keys):
                yield c


def cases(tier):
    deep = tier == 'thorough'
    for own in OWN:
        for wide in WIDE:
            for per in per_sets(2 if deep else 1):
                for overwrite in (False, True):
                    for spelling in (('keyword', 'global', 'graph') if wide else ('keyword',)):
                        yield (own, wide, per, overwrite, spelling)
    for own in OWN if deep else OWN[:3] + OWN[-1:]:
        for wide in WIDE if not deep else WIDE[:4]:
            for per in per_sets(3 if deep else 2):
                if len(per) == (3 if deep else 2):
                    yield (own, wide, per, False, 'keyword')


# styles assigned one by one, at any time ----------------------------------------------------------------------------

def sequence_cases(tier):
    deep = tier == 'thorough'
    actions = [('style', 'a', 'S'), ('style', 'b', 'S'), ('style', 'a', 'T'), ('style', EDGES[0], 'S'), ('style', EDGES[3], 'S'), ('style', EDGES[0], 'D'),
               ('readd', 'a', 'T'), ('reconnect', EDGES[0], 'T'), ('add', 'd', 'S'), ('connect', ('d', 'a', None), 'S'), ('render',)]
    for n in range(1, 5 if deep else 4):
        for t in itertools.product(actions, repeat=n):
            if ('connect', ('d', 'a', None), 'S') in t and ('add', 'd', 'S') not in t[:t.index(('connect', ('d', 'a', None), 'S'))]:
                continue
            for overwrite in (False, True):
                yield (t, overwrite)


def run_sequence(ctx, case):
    actions, overwrite = case
    pool = Shared()
    g = Graph(style_overwrite_allowed=overwrite)
    for n in NAMES:
        g.add_node(n)
    for s, e, i in EDGES:
        g.connect(s, e, id=i)
    have = {k: None for k in NAMES + EDGES}      # look of the style, None if missing, 'auto' when it came from rendering
    for a in actions:
        if a[0] == 'render':
            real = looks(g)
            for k in have:
                if have[k] is None:
                    have[k] = real[k]
                else:
                    expect(f'rendered {k}', real[k], have[k])
        else:
            what, k, t = a
            kind = 'nodes' if isinstance(k, str) else 'edges'
            style = pool.get(kind, t)
            new = k not in have
            if what == 'style':
                call = lambda: setattr(g.get_node(k) if kind == 'nodes' else g.edges_dict[k], 'style', style)
            elif what in ('readd', 'add'):
                call = lambda: g.add_node(k, style=style, if_node_exists='ignore')
            else:
                call = lambda: g.connect(k[0], k[1], id=k[2], style=style, if_edge_exists='ignore')
            _, error, _ = observe.call(call)
            refused = not new and have[k] is not None and not overwrite
            if refused != (error is not None):
                raise Mismatch(f'{a}: {"accepted" if error is None else repr(error)}')
            if not refused:
                have[k] = look_of(fresh(kind, t))
        ctx.step()
    real = looks(g)
    for k, wanted in have.items():
        if wanted is not None:
            expect(f'rendered {k}', real[k], wanted)
    for (kind, t), style in pool.made.items():
        if not isinstance(style, dict):
            expect(f'style object {t}', look_of(style), look_of(fresh(kind, t)))
    ctx.state(case)


# entries for what comes later ------------------------------------------------------------------------------------------

LATE = [('node_styles', 'c', 'T'), ('node_styles', 'c', 'S'), ('node_styles', 'c', 'D'), ('node_styles', 'c', 'C'), ('node_colours', 'c', 'green'), ('edge_styles', ('b', 'c', 'x'), 'S'), ('edge_styles', ('b', 'c', 'x'), 'D'),
        ('edge_colours', ('b', 'c', 'x'), 'green'), ('edge_styles', ('a', 'c', None), 'T'), ('edge_colours', ('a', 'c', None), 'orange'), ('node_colours', 'a', 'orange'), ('edge_colours', ('a', 'b', None), 'cyan')]


def late_cases(tier):
    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
        for per in itertools.combinations(LATE, n):
            if len({x[1] for x in per}) < n:
                continue
            for how in ('absent', 'removed', 'removed twice', 'edges removed', 'appended'):
                for before in (0, 1, 2):
                    yield (per, how, before)


def run_late(ctx, case):
    """the nodes and edges named by the entries are added, or come back, after renderings"""
    per, how, before = case
    pool = Shared()
    rep = {}
    for what, k, t in per:
        rep.setdefault(what, {})[k] = t if what.endswith('colours') else pool.get('nodes' if what.startswith('node') else 'edges', t)
    there = how not in ('absent', 'appended')
    rep['nodes'] = list(NAMES) if there else ['a', 'b']
    rep['edges'] = [(s, e, {'id': i}) for s, e, i in EDGES if there or e != 'c']
    g = Graph(rep)

    def back():
        g.add_node('c', if_node_exists='ignore')
        for s, e, i in EDGES:
            g.connect(s, e, id=i, if_edge_exists='ignore')
    for _ in range(before):
        g.render(view=False)
        ctx.step()
    if there:
        for _ in range(2 if how == 'removed twice' else 1):
            if how == 'edges removed':
                for k, e in list(g.edges_dict.items()):
                    if k[1] == 'c':
                        g.disconnect(e)
            else:
                g.remove_node('c')
            if before:
                g.render(view=False)
            if how == 'removed twice':
                back()
                g.render(view=False)
    if how == 'appended':
        g.append({'nodes': ['c'], 'edges': [(s, e, {'id': i}) for s, e, i in EDGES if e == 'c']})
    else:
        back()
    for _ in range(2):
        real = looks(g)
        ctx.step()
        for what, k, t in per:
            kind = 'nodes' if what.startswith('node') else 'edges'
            if what.endswith('colours'):
                wanted = look_of(NodeStyle(colour=t) if kind == 'nodes' else EdgeStyle(colour=t))
            elif t in OBJ[kind]:
                wanted = look_of(fresh(kind, t))
            else:
                names = {'shape': 'shape', 'font': 'fontname', 'line_width': 'penwidth'}
                wanted = {names[x]: str(v) for x, v in DICT[kind][t].items() if x in names}
                expect(f'{k} with {t}', {x: real[k].get(x) for x in wanted}, wanted)
                continue
            expect(f'{k} with {what} {t}', real[k], wanted)
    ctx.state(case)


# entries for one of several elements that are easily taken for one another ---------------------------------------------------

def confusable_cases(tier):
    for t in structural.STRANGE:
        edges = tuple((a, b, None) for a, b in ((t[0], t[1]), (t[1], t[0]), (t[1], t[2]), (t[2], t[2]), (t[0], t[0])))
        for order in (t, t[::-1]):
            for x in t:
                yield (order, edges, 'node_styles', x, 'D')
                yield (order, edges, 'node_styles', x, 'T')
                yield (order, edges, 'node_colours', x, 'orange')
            for e in edges:
                yield (order, edges, 'edge_styles', e, 'S')
                yield (order, edges, 'edge_colours', e[:2], 'orange')
    for ids in structural.STRANGE_IDS:
        edges = tuple((a, b, i) for a, b in (('a', 'b'), ('b', 'a'), ('b', 'b')) for i in ids)
        for e in edges:
            for what, token in (('edge_styles', 'S'), ('edge_styles', 'D'), ('edge_colours', 'orange')):
                yield (('a', 'b'), edges, what, e, token)


def run_confusable(ctx, case):
    names, edges, what, key, token = case
    kind = 'nodes' if what.startswith('node') else 'edges'
    rep = {'nodes': {n: {} for n in names}, 'edges': [(a, b, {'id': i}) for a, b, i in edges]}
    base = Graph(rep)
    base.render(view=False)
    def styles(g):
        return {**{('n', n.name): observe.real_style(n) for n in g.nodes}, **{('e', e.id): observe.real_style(e) for e in g.edges}}

    auto = styles(base)
    for spelled in range(3):
        if spelled == 2:        # the same, assigned to the element of a built graph
            if what.endswith('colours'):
                break
            g = Graph(rep)
            (g.get_node(key) if kind == 'nodes' else g.edges_dict[targets(what, key)]).style = fresh(kind, token)
            listed = {**g.node_styles, **g.edge_styles}
            expect('styles listed', {k: v.get_graphviz_str() for k, v in listed.items()}, {targets(what, key): fresh(kind, token).get_graphviz_str()})
        else:
            g = Graph({**rep, what: {key: token if what.endswith('colours') else fresh(kind, token) if token in OBJ[kind] else dict(DICT[kind][token])}})
            if spelled:
                g = Graph(g)
        g.render(view=False)
        ctx.step()
        got = styles(g)
        mine = (kind[0], targets(what, key))
        for k in auto:
            if k == mine:
                if got[k] == auto[k]:
                    raise Mismatch(f'{k} is as if there were no {what} for it: {got[k]}')
            elif spelled < 2:      # a node's own style is passed on to its children
                expect(f'{k}, which is not {key}', got[k], auto[k])
        g.render(view=False)
        expect('rendered again', styles(g), got)
        tables = {**{('n', k): v.get_graphviz_str() for k, v in g.node_styles.items()}, **{('e', k): v.get_graphviz_str() for k, v in g.edge_styles.items()}}
        expect('table of styles', tables, got)
    ctx.state(case)


# dictionaries of graph-wide styles shared between graphs, among them the automatic shape ------------------------------------

SHAPED = [('node', {'shape': 'auto', 'text_size': 20}), ('node', {'shape': 'Automatic', 'colour': 'purple'}), ('node', {'shape': 'hexagon'}),
          ('node', {'colour': 'purple', 'font': 'courier'}), ('edge', {'line_width': 6, 'colour': 'purple'}), ('edge', {'text_size': 33})]
NAMINGS = [(), ('a',), ('ab', 'c'), ('abc',), ('a', 'longer name'), (1, 22), (100,), ('', 'b')]


def shape_cases(tier):
    deep = tier == 'thorough'
    for index in range(len(SHAPED)):
        for namings in itertools.product(NAMINGS, repeat=3 if deep else 2):
            for overwrite in (False, True):
                for spelling in ('keyword', 'global', 'graph', 'append'):
                    # a step is (graph, action); each graph is rendered at least once
                    for steps in (('r0', 'r1', 'r0', 'r1'), ('r0', 'n0', 'r0', 'r1'), ('r1', 'n0', 'r0', 'n1', 'r1', 'r0'), ('c0', 'r0', 'c1', 'r1', 'r0')):
                        yield (index, namings, overwrite, spelling, steps)


def shaped_graph(kind, style, names, overwrite, spelling):
    if spelling == 'keyword':
        g = Graph(style_overwrite_allowed=overwrite, **{f'{kind}_style': style})
    elif spelling == 'append':
        g = Graph(style_overwrite_allowed=overwrite)
        g.append({f'global_{kind}_style': style, 'nodes': {}, 'edges': []})
    else:
        g = Graph({f'{spelling}_{kind}_style': style, 'nodes': {}, 'edges': []}, style_overwrite_allowed=overwrite)
    for i, n in enumerate(names):
        # labels whose length says nothing about that of the names
        g.add_node(n, label=(None, 'long label', 'l', '')[(i + len(names)) % 4], value=('x' * 5 if i % 2 else None))
    for n in names[1:]:
        g.connect(names[0], n, label='long label')
    return g


def run_shapes(ctx, case):
    index, namings, overwrite, spelling, steps = case
    kind, style = SHAPED[index]
    shared = dict(style)
    real = [shaped_graph(kind, shared, names, overwrite, spelling) for names in namings]
    alone = [shaped_graph(kind, dict(style), names, overwrite, spelling) for names in namings]
    for k, step in enumerate(steps + (tuple(f'r{i}' for i in range(2, len(namings))))):
        what, i = step[0], int(step[1:])
        for pool in (real, alone):
            if what == 'n':
                pool[i].add_node(f'new node {k}')
            elif what == 'c':
                pool[i] = pool[i].copy()
        if what == 'r':
            text = real[i].render(view=False).source
            expect('rendering of a graph that shares its styling with another', text, alone[i].render(view=False).source)
            p = observe.parse_source(text)
            automatic = style.get('shape', '').lower().startswith('auto')
            short = all(len(str(n.name)) < 3 for n in real[i].nodes)
            for n, a in p.nodes.items():
                if kind == 'node':
                    if automatic and short:
                        expect(f'shape of {n!r}', a.get('shape'), 'circle')
                    elif automatic and a.get('shape') == 'circle':
                        raise Mismatch(f'{n!r} is a circle though there are longer names')
                    elif 'shape' in style and not automatic:
                        expect(f'shape of {n!r}', a.get('shape'), style['shape'])
        expect('styling given to the graphs', shared, style)
        ctx.step()
    ctx.state(case)


# settings that stay when others change --------------------------------------------------------------------------------
SETTINGS = {
    'nodes': {'shape': 'star', 'font': 'courier', 'text_size': 33, 'opacity': 0.5, 'shape_style': 'filled', 'lighter_fill': False},
    'edges': {'opacity': 0.5, 'font': 'courier', 'text_size': 33, 'arrow_size': 3, 'label_style': 'above', 'line_width': 4},
}
COLOURS = {'nodes': {'fill_colour': 'yellow', 'border_colour': 'black', 'text_colour': 'white'}, 'edges': {'text_colour': 'white'}}
CLASS = {'nodes': NodeStyle, 'edges': EdgeStyle}


def kept_cases(tier):
    top = 3 if tier == 'thorough' else 2
    for kind in ('nodes', 'edges'):
        keys = list(SETTINGS[kind]) + list(COLOURS[kind])
        for n in range(top + 1):
            for own in itertools.combinations(keys, n):
                for spelling in ('object', 'dict', 'entry', 'entry dict'):
                    yield (kind, own, spelling, 'colour')
                for other in SETTINGS[kind]:
                    if other not in own and other != 'lighter_fill':
                        yield (kind, own, 'object', other)


def run_kept(ctx, case):
    kind, own, spelling, change = case
    node = kind == 'nodes'
    both = {**SETTINGS[kind], **COLOURS[kind]}
    given = {'colour': 'red', **{k: both[k] for k in own}}
    target = 'b' if node else ('a', 'b', None)
    style = dict(given) if 'dict' in spelling else CLASS[kind](**given)
    before = repr(style) if isinstance(style, dict) else style.get_graphviz_str()
    rep = {'nodes': {'a': {}, 'b': {}}, 'edges': [('a', 'b', {})]}
    if 'entry' in spelling:
        rep[f'{kind[:-1]}_styles'] = {target: style}
    elif node:
        rep['nodes']['b']['style'] = style
    else:
        rep['edges'][0][2]['style'] = style
    kw = {}
    if change == 'colour':
        rep[f'{kind[:-1]}_colours'] = {target: 'green'}
        want = {**{k: v for k, v in given.items() if k not in COLOURS[kind]}, 'colour': 'green'}
    else:
        kw[f'{kind[:-1]}_style'] = {change: SETTINGS[kind][change]}
        want = {**given, change: SETTINGS[kind][change]}
    want = look_of(CLASS[kind](**want))
    g = Graph(rep, **kw)
    h = g.copy()
    for what, x in (('', g), ('rendered again: ', g), ('a copy: ', h), ('a copy of the rendered graph: ', g.copy())):
        expect(f'{what}{target} of style {given} after {change} was set', looks(x)[target], want)
        ctx.step()
    expect('the style object', repr(style) if isinstance(style, dict) else style.get_graphviz_str(), before)
    ctx.state(case)
    ctx.outcome(sorted(want.items()))


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('combinations', lambda: cases(tier), run, f'{len(OWN)} own stylings x {len(WIDE)} graph-wide x every set of up to {3 if deep else 2} of {len(PER)} per-element entries x overwriting x 3 spellings; shared style objects, two graphs'),
        Cases('shared dictionaries', lambda: shape_cases(tier), run_shapes, f'{len(SHAPED)} graph-wide dictionaries shared by {3 if deep else 2} graphs x all combinations of {len(NAMINGS)} name sets x overwriting x 4 spellings x 4 orders of rendering, adding and copying'),
        Cases('easily confused elements', lambda: confusable_cases(tier), run_confusable, '%d triples of names and %d pairs of ids that a careless comparison takes for one another: a style or colour for each of the nodes and edges' % (len(structural.STRANGE), len(structural.STRANGE_IDS))),
        Cases('what comes later', lambda: late_cases(tier), run_late, f'every set of up to {3 if deep else 2} of {len(LATE)} per-element entries whose nodes and edges are added, or removed and added again, after 0-2 renderings, in 5 ways'),
        Cases('settings that stay', lambda: kept_cases(tier), run_kept, f'every set of up to {3 if deep else 2} settings and colours of a style given in 4 ways, then a colour or another setting on top; rendered twice and copied'),
        Cases('sequences', lambda: sequence_cases(tier), run_sequence, f'every sequence of up to {4 if deep else 3} of 11 styling actions and renderings'),
    ]
