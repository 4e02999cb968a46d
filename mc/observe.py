"""Reads everything observable from a real graph, through the public interface, and the same from the reference."""
import warnings

from abstract import Edge, Graph, Node
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from . import dot
from .shapes import again
from .core import Mismatch, expect, short
from .ref import Facts, RGraph

PARAM_KEYS = ('p', 'q')

NODE_STYLES = {
    'S1': dict(colour='red'), 'S2': dict(colour='blue', shape='ellipse'),
    'S3': dict(colour='green', fill_colour='yellow', text_size=14, lighter_fill=False),
}
EDGE_STYLES = {
    'S1': dict(colour='red'), 'S2': dict(colour='blue', arrow_size=2), 'S3': dict(colour='green', line_width=3),
}


def node_style(token):
    return None if token is None else NodeStyle(**NODE_STYLES[token])


def edge_style(token):
    return None if token is None else EdgeStyle(**EDGE_STYLES[token])


_style_text = {}


def style_text(kind, token):
    """what a style built from this token looks like, as text"""
    if token is None:
        return None
    if (kind, token) not in _style_text:
        _style_text[kind, token] = (node_style if kind == 'node' else edge_style)(token).get_graphviz_str()
    return _style_text[kind, token]


def real_style(obj):
    return obj.style.get_graphviz_str() if obj.style is not None else None


def build(names, edges, cls=Graph, attrs=None, edge_attrs=None, **kw):
    """a real graph with these nodes and edges"""
    g = cls(**kw)
    for i, n in enumerate(names):
        g.add_node(again(n), **(attrs[i] if attrs else {}))
    for i, (a, b, *rest) in enumerate(edges):
        g.connect(again(names[a]), again(names[b]), id=again(rest[0]) if rest else None, **(edge_attrs[i] if edge_attrs else {}))
    return g


def ref(names, edges, attrs=None, edge_attrs=None, **kw):
    r = RGraph(**kw)
    for i, n in enumerate(names):
        r.add(n, **(attrs[i] if attrs else {}))
    for i, (a, b, *rest) in enumerate(edges):
        r.connect(names[a], names[b], rest[0] if rest else None, **(edge_attrs[i] if edge_attrs else {}))
    return r


def name_in(g, node):
    """the name of a node object, provided that it is the very node the graph has under that name"""
    if not isinstance(node, Node):
        raise Mismatch(f'not a node: {node!r}')
    name = node.name
    if name not in g.nodes_dict or g.nodes_dict[name] is not node:
        raise Mismatch(f'{node!r} is not (or no longer) a node of the graph')
    if node.graph is not g:
        raise Mismatch(f'{node!r} does not belong to the graph that lists it')
    return name


def names_in(g, nodes):
    if not isinstance(nodes, list):
        raise Mismatch(f'expected a list of nodes, got {nodes!r}')
    return [name_in(g, n) for n in nodes]


def once(what, g, nodes, wanted):
    """the nodes are exactly the wanted ones, each listed once, in any order"""
    got = names_in(g, nodes)
    if len(got) != len(set(got)):
        raise Mismatch(f'{what}: {got} lists a node twice')
    if set(got) != set(wanted):
        raise Mismatch(f'{what}: observed {sorted(map(str, got))}, expected {sorted(map(str, wanted))}')


def edge_key(edge):
    return edge.id


# structure ------------------------------------------------------------------------------------------------------

def check_structure(g, r):
    """C01: nodes, edges, order, membership, ownership"""
    expect('node order', names_in(g, g.nodes), list(r.nodes))
    expect('node table', list(g.nodes_dict), list(r.nodes))
    for n, node in g.nodes_dict.items():
        if g.get_node(n) is not node or g.get_node(node) is not node:
            raise Mismatch(f'get_node({n!r}) does not return the node')
        expect('node name', g.get_node_name(n), n)
        expect('node name by object', g.get_node_name(node), n)
        if not (n in g) or not (node in g):
            raise Mismatch(f'{n!r} is listed but not a member')
    all_edges = g.edges
    expect('edges', sorted(map(repr, (e.id for e in all_edges))), sorted(map(repr, r.edges)))
    by_key = {e.id: e for e in all_edges}
    table = g.edges_dict
    expect('edge table', sorted(map(repr, table)), sorted(map(repr, r.edges)))
    for k, e in by_key.items():
        if table[k] is not e:
            raise Mismatch(f'edge {k} differs between the edge list and the edge table')
        if e.graph is not g:
            raise Mismatch(f'edge {k} does not belong to the graph')
        expect('edge start', name_in(g, e.start), k[0])
        expect('edge end', name_in(g, e.end), k[1])
        expect('edge raw id', e.raw_id, k[2])
    outs, ins = {n: [] for n in r.nodes}, {n: [] for n in r.nodes}
    for k in r.edges:
        outs[k[0]].append(k)
        ins[k[1]].append(k)
    for n, node in g.nodes_dict.items():
        for what, listed, wanted in (
                ('outward edges', node.outward_edges, outs[n]), ('inward edges', node.inward_edges, ins[n]),
                ('outward edges by name', g.get_outward_edges(n), outs[n]),
                ('inward edges by name', g.get_inward_edges(n), ins[n]),
                ('outward edges by object', g.get_outward_edges(node), outs[n]),
                ('inward edges by object', g.get_inward_edges(node), ins[n])):
            expect(f'{what} of {n!r}', [e.id for e in listed], wanted)
            for e in listed:
                if by_key[e.id] is not e:
                    raise Mismatch(f'{what} of {n!r}: {e.id} is a different edge object')
        expect(f'outward edge ids of {n!r}', node.outward_edge_ids, outs[n])
        expect(f'inward edge ids of {n!r}', node.inward_edge_ids, ins[n])
        expect(f'outward edge table of {n!r}', list(node.outward_edges_dict), outs[n])
        expect(f'inward edge table of {n!r}', list(node.inward_edges_dict), ins[n])
        expect(f'number of outward edges of {n!r}', node.num_outward_edges, len(outs[n]))
        mine = {k for k in r.edges if n in (k[0], k[1])}
        got = [e.id for e in node.edges]
        expect(f'edges of {n!r}', sorted(map(repr, got)), sorted(map(repr, mine)))
        expect(f'edges of {n!r} by name', {e.id for e in g.get_edges(n)}, mine)
        for k in outs[n]:
            if node.get_outward_edge(k) is not by_key[k]:
                raise Mismatch(f'get_outward_edge{k}')
        for k in ins[n]:
            if node.get_inward_edge(k) is not by_key[k]:
                raise Mismatch(f'get_inward_edge{k}')


def check_data(g, r, styles=True):
    """C26: labels, values, parameters, frozen flags, styles"""
    table = g.edges_dict
    for n, rn in r.nodes.items():
        node = g.get_node(n)
        expect(f'label of {n!r}', node.label, rn.label if rn.label else str(n))
        check_obj(f'node {n!r}', node, rn)
        if styles:
            expect(f'style of {n!r}', real_style(node), style_text('node', rn.style))
            expect(f'has_style of {n!r}', bool(node.has_style()), rn.style is not None)
    for k, re in r.edges.items():
        edge = table[k]
        expect(f'label of {k}', edge.label, re.label)
        check_obj(f'edge {k}', edge, re)
        if styles:
            expect(f'style of {k}', real_style(edge), style_text('edge', re.style))
            expect(f'has_style of {k}', bool(edge.has_style()), re.style is not None)


def check_obj(what, obj, robj):
    expect(f'value of {what}', obj.value, robj.value)
    expect(f'frozen {what}', bool(obj.is_frozen), robj.frozen)
    for p in PARAM_KEYS:
        try:
            got = ('given', obj.get(p))
            if obj[p] != got[1]:
                raise Mismatch(f'parameter {p} of {what} differs between get and []')
        except KeyError:
            got = ('missing',)
        wanted = ('given', robj.params[p]) if p in robj.params else ('missing',)
        expect(f'parameter {p} of {what}', got, wanted)


# queries --------------------------------------------------------------------------------------------------------

def check_reach(g, r, f=None):
    """C04"""
    f = f or Facts(r)
    for n in r.nodes:
        node = g.get_node(n)
        a, d = f.ancestors(n), f.descendants(n)
        once(f'ancestors of {n!r}', g, node.ancestors, a)
        once(f'descendants of {n!r}', g, node.descendants, d)
        expect(f'number of descendants of {n!r}', node.num_descendants, len(d))
        once(f'get_ancestors({n!r})', g, g.get_ancestors(n, distance=False), a)
        once(f'get_descendants({n!r})', g, g.get_descendants(n, distance=False), d)
        once(f'get_ancestors(node {n!r})', g, g.get_ancestors(node, distance=False), a)
        once(f'get_descendants(node {n!r})', g, g.get_descendants(node, distance=False), d)
    return [(sorted(map(str, f.ancestors(n))), sorted(map(str, f.descendants(n)))) for n in r.nodes]


def by_distance(g, what, got, wanted):
    if not isinstance(got, dict):
        raise Mismatch(f'{what}: expected a dictionary, got {got!r}')
    real = {}
    for d, nodes in got.items():
        listed = names_in(g, nodes)
        if len(listed) != len(set(listed)):
            raise Mismatch(f'{what}: distance {d} lists a node twice: {listed}')
        real[d] = set(listed)
    if real != wanted:
        raise Mismatch(f'{what}: observed {real}, expected {wanted}')


def check_distance(g, r, f=None):
    """C05"""
    f = f or Facts(r)
    for n in r.nodes:
        node = g.get_node(n)
        a, d = f.ancestors_by_distance(n), f.descendants_by_distance(n)
        by_distance(g, f'get_ancestors({n!r}) by distance', g.get_ancestors(n, distance=True), a)
        by_distance(g, f'get_descendants({n!r}) by distance', g.get_descendants(n, distance=True), d)
        by_distance(g, f'get_ancestors(node {n!r})', g.get_ancestors(node), a)
        by_distance(g, f'get_descendants(node {n!r})', g.get_descendants(node), d)
    return [sorted((k, sorted(map(str, v))) for k, v in x.items()) for n in r.nodes for x in (f.ancestors_by_distance(n), f.descendants_by_distance(n))]


def check_loops(g, r, f=None):
    """C06"""
    f = f or Facts(r)
    for n in r.nodes:
        node = g.get_node(n)
        w = f.in_loop(n)
        expect(f'is_in_loop of {n!r}', bool(node.is_in_loop()), w)
        expect(f'is_node_in_loop({n!r})', bool(g.is_node_in_loop(n)), w)
        expect(f'is_node_in_loop(node {n!r})', bool(g.is_node_in_loop(node)), w)
        for m in r.nodes:
            other = g.get_node(m)
            w = f.same_loop(n, m)
            expect(f'{n!r} is_in_loop_with {m!r}', bool(node.is_in_loop_with(other)), w)
            expect(f'are_nodes_in_same_loop({n!r}, {m!r})', bool(g.are_nodes_in_same_loop(n, m)), w)
            expect(f'are_nodes_in_same_loop(node {n!r}, node {m!r})', bool(g.are_nodes_in_same_loop(node, other)), w)
    once('loop_nodes', g, g.loop_nodes, f.loop_nodes())
    for e in g.edges:
        expect(f'is_in_loop of {e.id}', bool(e.is_in_loop()), f.same_loop(e.id[0], e.id[1]))
    return [[f.same_loop(n, m) for m in r.nodes] for n in r.nodes]


def check_relatives(g, r, f=None, rank=True):
    """C07"""
    f = f or Facts(r)
    position = {n: rn.seq for n, rn in r.nodes.items()}
    for n in r.nodes:
        node = g.get_node(n)
        p, c = f.pred[n], f.succ[n]
        s, m = f.siblings(n), f.spouses(n)
        for x in (n, node):
            expect(f'get_parents of {n!r}', names_in(g, g.get_parents(x)), p)
            expect(f'get_children of {n!r}', names_in(g, g.get_children(x)), c)
            expect(f'num_parents of {n!r}', g.num_parents(x), len(p))
            expect(f'num_children of {n!r}', g.num_children(x), len(c))
            expect(f'has_parents of {n!r}', bool(g.has_parents(x)), bool(p))
            expect(f'has_children of {n!r}', bool(g.has_children(x)), bool(c))
            once(f'get_siblings of {n!r}', g, g.get_siblings(x), s)
            expect(f'num_siblings of {n!r}', g.num_siblings(x), len(s))
            expect(f'has_siblings of {n!r}', bool(g.has_siblings(x)), bool(s))
            once(f'get_spouses of {n!r}', g, g.get_spouses(x), m)
            expect(f'num_spouses of {n!r}', g.num_spouses(x), len(m))
            expect(f'has_spouses of {n!r}', bool(g.has_spouses(x)), bool(m))
        expect(f'parents of {n!r}', names_in(g, node.parents), p)
        expect(f'children of {n!r}', names_in(g, node.children), c)
        once(f'siblings of {n!r}', g, node.siblings, s)
        once(f'co_parents of {n!r}', g, node.co_parents, m)
        expect(f'node has_parents of {n!r}', bool(node.has_parents()), bool(p))
        expect(f'node has_children of {n!r}', bool(node.has_children()), bool(c))
        if rank:
            for parent in r.nodes:
                pn = g.get_node(parent)
                kids = f.succ[parent]
                try:
                    got = node.get_child_rank(parent=pn)
                except ValueError:
                    got = 'refused'
                if n not in kids:
                    expect(f'rank of {n!r} under {parent!r}', got, 'refused')
                else:
                    order = sorted(kids, key=position.get)
                    expect(f'rank of {n!r} under {parent!r}', got, order.index(n))
    expect('leaves', names_in(g, g.leaves), f.leaves())
    expect('absolute roots', names_in(g, g.absolute_roots), f.absolute_roots())
    return [(f.pred[n], f.succ[n]) for n in r.nodes]


def check_identity(g, r):
    """C31"""
    position = {n: rn.seq for n, rn in r.nodes.items()}
    nodes, edges = g.nodes, g.edges
    for a in nodes:
        for b in nodes:
            i, j = position[a.name], position[b.name]
            got = (a < b, a <= b, a > b, a >= b, a == b, a != b)
            expect(f'comparison of {a.name!r} and {b.name!r}: <, <=, >, >=, ==, !=', got, (i < j, i <= j, i > j, i >= j, a is b, a is not b))
    for e in edges:
        for f in edges:
            expect(f'comparison of {e.id} and {f.id}: ==, !=', (e == f, e != f), (e is f, e is not f))
    order = sorted(r.nodes, key=position.get)
    for k in range(min(3, len(nodes))):
        for x in (nodes[k:] + nodes[:k], nodes[::-1][k:] + nodes[::-1][:k]):
            expect('sorted nodes', names_in(g, sorted(x)), order)
    if nodes:
        expect('the least and the greatest node', names_in(g, [min(nodes), max(nodes)]), [order[0], order[-1]])
    for what, kept, again in (('nodes', nodes, [g.get_node(n) for n in r.nodes]), ('edges', edges, [g.edges_dict[k] for k in r.edges])):
        table = {x: x.id for x in kept}
        expect(f'number of different {what} in a set', len(set(kept + again)), len(kept))
        expect(f'{what} as keys', len(table), len(kept))
        for k, x in enumerate(again):
            expect(f'what is kept for {x.id!r}', table.get(x, 'nothing'), x.id)
            if x not in again or again.index(x) != k or again.count(x) != 1:
                raise Mismatch(f'{x.id!r} is not found once in the list of {what}')
    return (order, len(edges))


def check_roots(g, r, f=None):
    """C08"""
    f = f or Facts(r)
    once('roots', g, g.roots, f.roots())
    return (len(r.nodes), f.roots())


GLYPHS = '\u2514\u251c\u2500\u2502 '


def read_tree(text):
    """[(level, label, starred)] of a tree text, by indentation of two characters per level"""
    out = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        k = 0
        while k < len(line) and line[k] in GLYPHS:
            k += 1
        if k % 2:
            raise Mismatch(f'tree text line {line!r} has an odd indentation')
        label = line[k:]
        starred = label.endswith('*')
        if starred:
            label = label[:-1]
        level = k // 2
        if level > (out[-1][0] + 1 if out else 0):
            raise Mismatch(f'tree text line {line!r} is indented too deep in\n{text}')
        if level > 0 and line[k - 2] not in '\u2514\u251c':
            raise Mismatch(f'tree text line {line!r} has no corner in\n{text}')
        out.append((level, label, starred))
    return out


def check_tree_glyphs(text):
    """the corner marks exactly the last child, and vertical lines join exactly the siblings that follow"""
    lines = [x for x in text.split('\n') if x.strip()]
    levels = [(len(x) - len(x.lstrip(GLYPHS))) // 2 for x in lines]
    for i, line in enumerate(lines):
        lv = levels[i]
        for depth in range(1, lv + 1):
            # is there a later line at this depth, before one that is shallower?
            more = False
            for j in range(i + 1, len(lines)):
                if levels[j] < depth:
                    break
                if levels[j] == depth:
                    more = True
                    break
            c = line[2 * (depth - 1)]
            if depth == lv:
                wanted = '\u251c' if more else '\u2514'
            else:
                wanted = '\u2502' if more else ' '
            if c != wanted:
                raise Mismatch(f'tree line {line!r}: {c!r} instead of {wanted!r} at depth {depth} in\n{text}')


def check_trees(g, r, f=None, glyphs=True):
    """C09"""
    f = f or Facts(r)

    def label(n):
        return str(r.nodes[n].label or n)
    for n in r.nodes:
        text = g.get_node(n).get_tree_str()
        expect(f'tree of {n!r}', read_tree(text), f.unfolding([n], label))
        if glyphs:
            check_tree_glyphs(text)
    text = g.get_tree_str()
    got = read_tree(text)
    starts = [x.name for x in g.roots]
    expect('tree of the graph', got, f.unfolding(starts, label))
    if set(starts) != set(f.roots()):
        raise Mismatch(f'tree of the graph starts from {starts}')
    if glyphs:
        check_tree_glyphs(text)
    # independent of the unfolding: every label appears, every edge is drawn exactly once
    drawn, stack = [], []
    for lv, lab, _ in got:
        del stack[lv:]
        if stack:
            drawn.append((stack[-1], lab))
        stack.append(lab)
    expect('edges drawn in the tree', sorted(drawn), sorted((label(k[0]), label(k[1])) for k in r.edges))
    expect('labels in the tree', sorted({x[1] for x in got}), sorted({label(n) for n in r.nodes}))
    return text


def check_queries(g, r, rank=True, trees=True):
    f = Facts(r)
    check_reach(g, r, f)
    check_distance(g, r, f)
    check_loops(g, r, f)
    check_relatives(g, r, f, rank=rank)
    check_roots(g, r, f)
    if trees:
        check_trees(g, r, f, glyphs=False)


# text -----------------------------------------------------------------------------------------------------------

def parse_source(text):
    try:
        return dot.parse(text)
    except dot.DotError as e:
        raise Mismatch(f'the source is not valid Graphviz text: {e}\n{text}')


def check_source(g, r, text=None, node_label=None, edge_label=None, identity=dot.unescape_name):
    """C20: the generated source has exactly the nodes and edges, with labels, values and tooltips"""
    text = g.get_graphviz_str() if text is None else text
    p = parse_source(text)
    if p.directed is not True:
        raise Mismatch('the source is not a digraph')
    if p.strict != bool(r.strict):
        raise Mismatch(f'strict is {p.strict} in the source, {r.strict} in the graph')
    parsed_names = list(p.nodes)
    expect('nodes in the source', sorted(identity(x) for x in parsed_names), sorted(str(n) for n in r.nodes))
    expect('edges in the source', sorted((identity(s), identity(e)) for s, e, _ in p.edges),
           sorted((str(k[0]), str(k[1])) for k in r.edges))
    node_label = node_label or (lambda x: x)
    edge_label = edge_label or (lambda x: x)
    nodes = {identity(x): a for x, a in p.nodes.items()}
    for n, rn in r.nodes.items():
        a = nodes[str(n)]
        shown = node_label(rn.label or str(n))
        same_text(f'label of {n!r} in the source', a.get('label'), shown)
        same_text(f'tooltip of {n!r} in the source', a.get('tooltip'), rn.tooltip)
    wanted = {}
    for k, re in r.edges.items():
        lab = edge_label(re.label) if re.label is not None else re.value
        wanted.setdefault((str(k[0]), str(k[1])), []).append((shown_text(lab), shown_text(re.tooltip)))
    got = {}
    for s, e, a in p.edges:
        got.setdefault((identity(s), identity(e)), []).append((shown_text(a.get('label')), shown_text(a.get('tooltip'))))
    for k in wanted:
        expect(f'labels and tooltips of the edges {k} in the source', sorted(map(repr, got[k])), sorted(map(repr, wanted[k])))
    return p


def shown_text(x):
    return None if x is None else tuple(dot.display(x))


def same_text(what, got, wanted):
    if isinstance(got, dot.Html):
        raise Mismatch(f'{what}: {got!r} is read as HTML')
    if shown_text(got) != shown_text(wanted):
        raise Mismatch(f'{what}: observed {got!r}, expected {wanted!r}')


def check_all(g, r, rank=True, trees=True, source=True, styles=True):
    check_structure(g, r)
    check_data(g, r, styles=styles)
    check_queries(g, r, rank=rank, trees=trees)
    if source:
        check_source(g, r)


# a snapshot of one graph, for before/after comparison -------------------------------------------------------------

def snapshot(g, source=True, trees=True, queries=True):
    """everything observable, as plain data"""
    out = {}
    out['nodes'] = [(n.name, n.label, repr(n.value), real_style(n), n.index, bool(n.is_frozen),
                     tuple(param(n, p) for p in PARAM_KEYS), n.graph is g) for n in g.nodes]
    out['edges'] = [(e.id, e.label, repr(e.value), real_style(e), bool(e.is_frozen),
                     tuple(param(e, p) for p in PARAM_KEYS), e.graph is g) for e in g.edges]
    out['edge table'] = list(g.edges_dict)
    for n in g.nodes:
        out['out', n.name] = [e.id for e in n.outward_edges]
        out['in', n.name] = [e.id for e in n.inward_edges]
        if queries:
            out['anc', n.name] = {d: [x.name for x in l] for d, l in g.get_ancestors(n).items()}
            out['desc', n.name] = {d: [x.name for x in l] for d, l in g.get_descendants(n).items()}
            out['sib', n.name] = [x.name for x in n.siblings]
            out['cop', n.name] = [x.name for x in n.co_parents]
            out['loop', n.name] = n.is_in_loop()
            if trees:
                out['tree', n.name] = n.get_tree_str()
    if queries:
        out['roots'] = [x.name for x in g.roots]
        out['leaves'] = [x.name for x in g.leaves]
        out['loops'] = [x.name for x in g.loop_nodes]
        if trees:
            out['tree'] = g.get_tree_str()
    if source:
        out['source'] = g.get_graphviz_str()
    return out


def param(obj, p):
    try:
        return ('given', repr(obj.get(p)))
    except KeyError:
        return ('missing',)


def differences(a, b):
    return {k: (a.get(k), b.get(k)) for k in list(a) + [k for k in b if k not in a] if a.get(k) != b.get(k)}


def same_snapshot(what, before, after):
    d = differences(before, after)
    if d:
        raise Mismatch(f'{what}: {short(d, 2500)} (before, after)')


class catching:
    """records warnings and the exception of a call"""

    def __enter__(self):
        self.caught = warnings.catch_warnings(record=True)
        self.warnings = self.caught.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *exc):
        return self.caught.__exit__(None, None, None)


def call(fn):
    """(result, exception, number of warnings) of a call"""
    with catching() as c:
        try:
            result, error = fn(), None
        except Exception as e:
            result, error = None, e
    return result, error, len(c.warnings)


def check_content(g, r, what='', styles=True):
    """nodes in order, edges, each node's outward edges in order, labels, values and styles - for sums and conversions"""
    expect(f'{what}nodes', names_in(g, g.nodes), list(r.nodes))
    table = g.edges_dict
    expect(f'{what}edges', sorted(map(repr, table)), sorted(map(repr, r.edges)))
    expect(f'{what}edge list', sorted(map(repr, (e.id for e in g.edges))), sorted(map(repr, r.edges)))
    for n, rn in r.nodes.items():
        node = g.get_node(n)
        expect(f'{what}label of {n!r}', node.label, rn.label or str(n))
        expect(f'{what}value of {n!r}', node.value, rn.value)
        if styles:
            expect(f'{what}style of {n!r}', real_style(node), style_text('node', rn.style))
        expect(f'{what}outward edges of {n!r}', [e.id for e in node.outward_edges], r.out_keys(n))
        expect(f'{what}inward edges of {n!r}', {e.id for e in node.inward_edges}, set(r.in_keys(n)))
        expect(f'{what}number of inward edges of {n!r}', len(node.inward_edges), len(r.in_keys(n)))
        expect(f'{what}number of children of {n!r}', len(node.children), len(r.out_keys(n)))
    for k, re in r.edges.items():
        e = table[k]
        if e.graph is not g or name_in(g, e.start) != k[0] or name_in(g, e.end) != k[1]:
            raise Mismatch(f'{what}edge {k} does not belong to the graph')
        expect(f'{what}label of {k}', e.label, re.label)
        expect(f'{what}value of {k}', e.value, re.value)
        if styles:
            expect(f'{what}style of {k}', real_style(e), style_text('edge', re.style))
