"""C31: nodes and edges are told apart, sorted and used as keys, on every graph shape and through every history."""
import itertools

from abstract import Graph

from .. import observe, shapes, structural, twin
from ..core import Cases, Histories, Mismatch, expect
from ..ref import RGraph
from ..world import World

ASSUMPTIONS = ['objects of one graph are compared (comparing edges of different graphs is refused)']


def check(ctx, g, r):
    return observe.check_identity(g, r)


class Keeper(World):
    """a set and a table of all nodes and edges are kept through every change"""
    names = ('b', 'a', 'c')
    ids = (None, 'x')
    max_edges = 3
    groups = ()
    data = (('set', 'label', 'L'), ('set', 'value', [1]), ('set', 'style', 'S1'), ('freeze',), ('param', 'p', 1, 's'))

    def __init__(self, ctx, init=()):
        self.kept = {}
        super().__init__(ctx, init)

    def ops(self):
        r = self.r
        out = []
        used = set(r.nodes) | {rn.name for _, rn in self.gone_nodes}
        fresh = True
        for n in self.names:
            if n in r.nodes:
                out.append(('rm', n, 'n'))
            elif n in used or fresh:
                out.append(('add', n))
                fresh = fresh and n in used
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        for key in r.edges:
            out.append(('dis', key, 'd'))
        if len(r.edges) < self.max_edges:
            for s in r.nodes:
                for e in r.nodes:
                    for i in self.ids:
                        if (s, e, i) not in r.edges:
                            out.append(('con', s, e, i, 'n'))
        targets = [('n', n) for n in list(r.nodes)[-1:]] + [('e', k) for k in list(r.edges)[-1:]]
        for t in targets:
            obj = r.nodes[t[1]] if t[0] == 'n' else r.edges[t[1]]
            for op in self.data:
                if op[0] == 'set' and (getattr(obj, op[1]) is not None or (op[1] == 'style' and self.rendered) or (op[1] == 'value' and obj.frozen)) or op[0] == 'freeze' and obj.frozen or op[0] == 'param' and obj.params:
                    continue
                out.append((op[0], t) + op[1:])
        if r.nodes and not self.rendered:
            out.append(('render',))
        return out

    def check(self):
        g, r = self.g, self.r
        observe.check_identity(g, r)
        live = g.nodes + g.edges
        for x in live:
            if id(x) not in self.kept:
                self.kept[id(x)] = (x, hash(x), x.id)
        alive = {id(x) for x in live}
        table = {self.kept[k][0]: self.kept[k][2] for k in alive}
        for k, (x, h, name) in list(self.kept.items()):
            if k not in alive:
                del self.kept[k]
                continue
            expect(f'hash of {name!r} after a change', hash(x), h)
            expect(f'what was kept for {name!r}', table[x], name)
        for node, rn in self.gone_nodes:
            for x in g.nodes:
                if x == node or not x != node or node == x:
                    raise Mismatch(f'node {x.name!r} equals the removed node {rn.name!r}')


# graphs made from others, and changed further -------------------------------------------------------------------------
MAKERS = ('copy', 'deepcopy', 'pickle', 'built again', 'plus nothing', 'nothing plus', 'plus another', 'another plus', 'filtered')


def made_cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for edges in shapes.digraphs(n, max_edges=9 if deep and n < 3 else 4 if deep else 2):
            for gone in [()] + [(k,) for k in range(n)] + ([p for p in itertools.permutations(range(n), 2)] if n > 2 else []):
                for back in (False, True):
                    if gone or not back:
                        for maker in MAKERS:
                            yield (('b', 'a', '9')[:n], n, shapes.plain(edges), gone, back, maker)


def made(g, maker):
    """[(what, the graph made, the names of its nodes in order of creation, as far as they are prescribed)]"""
    names = list(g.nodes_dict)
    other = observe.build(['y', 'a', 'x'], [(0, 1), (2, 1)])
    if maker in ('copy', 'deepcopy'):
        return [(maker, twin.fork(g, maker), names)]
    if maker == 'pickle':
        return [(maker, twin.fork(g, 'pickle4'), names)]
    if maker == 'built again':
        return [(maker, Graph(obj=g), names)]
    if maker == 'plus nothing':
        return [(maker, g + Graph(), names)]
    if maker == 'nothing plus':
        return [(maker, Graph() + g, names)]
    if maker == 'plus another':
        return [(maker, g + other, names + [x for x in ('y', 'a', 'x') if x not in names])]
    if maker == 'another plus':
        return [(maker, other + g, ['y', 'a', 'x'] + [x for x in names if x not in ('y', 'a', 'x')])]
    out = []
    for k in range(len(names) + 1):
        for chosen in itertools.combinations(names, k):
            for direction in ('to', 'from'):
                for kind in ('include', 'exclude'):
                    h = g.filter(nodes=list(chosen), direction=direction, filter_type=kind)
                    out.append((f'filtered {chosen!r} {direction} {kind}', h, [x for x in names if x in h.nodes_dict]))
    return out


def run_made(ctx, case):
    scheme, n, edges, gone, back, maker = case
    names = structural.names_of(scheme, n)
    g = observe.build(names, edges)
    for k in gone:
        g.remove_node(names[k])
    if back:
        for k in gone:
            g.add_node(names[k])
    for what, h, order in made(g, maker):
        ctx.state((case, what))
        r = RGraph()
        for x in order:
            r.add(x)
        for key in h.edges_dict:
            r.edges[key] = None

        def look(when):
            expect(f'{what}, {when}: the names of the nodes', sorted(x.name for x in h.nodes), sorted(r.nodes))
            try:
                observe.check_identity(h, r)
            except Mismatch as m:
                raise Mismatch(f'{what}, {when}: {m}')
            ctx.step()

        look('as made')
        for new in ('n2', 'n1'):
            h.add_node(new)
            r.add(new)
            look(f'{new} added')
            first = next(iter(r.nodes))
            h.connect(new, first, id='i')
            r.edges[(new, first, 'i')] = None
            look(f'{new} connected')
        first = next(iter(r.nodes))
        h.remove_node(first)
        r.remove(first)
        look('the first removed')
        h.add_node(first)
        r.add(first)
        look('the first added again')
        ctx.outcome((what.split()[0], tuple(order)))


def stages(tier):
    deep = tier == 'thorough'
    d = 6 if deep else 5
    return structural.stages(check, tier, (), use=('exhaustive', 'multi', 'family', 'mutated', 'replaced', 'swapped', 'strange', 'dressed', 'large', 'worn', 'four_sparse', 'five')) + [
        Histories('objects kept through histories', Keeper, d, f'3 names, ids None and x, at most 3 edges; labels, values, styles, parameters, freezing, rendering; every history to depth {d}; sets and tables of all objects kept'),
        Cases('graphs made from others', lambda: made_cases(tier), run_made, 'copies, pickles, sums, conversions and every filter of all digraphs with up to 3 nodes and %d edges, after removals and with nodes added again; then changed further' % (4 if deep else 2)),
    ]
