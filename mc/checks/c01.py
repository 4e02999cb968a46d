"""C01: mutation histories leave exactly the nodes and edges they asked for."""
from .. import observe, shapes, structural
from ..core import Cases, Histories, Mismatch
from ..structural import Live
from ..world import World

ASSUMPTIONS = ['node names are treated uniformly apart from their order of first use (names are introduced in a fixed order)',
               'one graph, sequential calls (the library has no concurrency)']


class Mutations(World):
    names = ('a', 'b')
    ids = (None, 'x1')
    hows = 'notfm'
    rm_hows = 'no'
    dis_hows = 'dr'
    max_edges = 3
    groups = ('structure', 'gone')
    extra = ()

    def ops(self):
        r = self.r
        out = []
        used = set(r.nodes) | {rn.name for _, rn in self.gone_nodes}
        fresh = True
        for n in self.names:
            if n in r.nodes:
                for how in self.rm_hows:
                    out.append(('rm', n, how))
                if r.out_keys(n) or r.in_keys(n):
                    out.append(('iso', n))
            elif n in used:
                out.append(('add', n))
            elif fresh:
                out.append(('add', n))
                fresh = False
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        for key in r.edges:
            for how in self.dis_hows:
                out.append(('dis', key, how))
        if len(r.edges) < self.max_edges:
            i = 0
            for s in r.nodes:
                for e in r.nodes:
                    for id in self.ids:
                        if (s, e, id) not in r.edges:
                            for how in self.hows:
                                out.append(('con', s, e, id, how))
        out.extend(self.extra)
        return out


class Two(Mutations):
    pass


class TwoNarrow(Mutations):
    ids = (None, 'x1')
    hows = 'n'
    rm_hows = 'o'
    dis_hows = 'd'
    max_edges = 8


class Three(Mutations):
    names = ('a', 'b', 'c')
    ids = (None,)
    hows = 'n'
    rm_hows = 'n'
    dis_hows = 'r'
    max_edges = 9


class ThreeIds(Three):
    ids = (None, 0)         # an id that is falsy
    hows = 't'
    rm_hows = 'o'
    dis_hows = 'd'


class Ints(Mutations):
    names = (0, 1000)
    ids = (None, 'x1')
    hows = 'nf'


class Rendered(Three):
    extra = (('render',),)

    def ops(self):
        return [o for o in super().ops() if not (o == ('render',) and not self.r.nodes)]


# non-initial states
SEEDS = {
    'triangle': (('add', 'a'), ('add', 'b'), ('add', 'c'), ('con', 'a', 'b', None, 'n'), ('con', 'b', 'c', None, 'n'), ('con', 'c', 'a', None, 'n')),
    'loops': (('add', 'a'), ('add', 'b'), ('add', 'c'), ('con', 'a', 'a', None, 'n'), ('con', 'a', 'b', None, 'n'), ('con', 'a', 'b', 'x1', 'n'), ('con', 'b', 'b', 'x1', 'n'), ('con', 'b', 'a', None, 'n')),
    'dag': (('add', 'c'), ('add', 'a'), ('add', 'b'), ('con', 'c', 'a', None, 'n'), ('con', 'c', 'b', None, 'n'), ('con', 'a', 'b', None, 'n')),
    'used': (('add', 'a'), ('add', 'b'), ('con', 'a', 'b', None, 'n'), ('rm', 'a', 'n'), ('add', 'c'), ('add', 'a'), ('con', 'a', 'b', None, 'n'), ('con', 'c', 'a', None, 'n')),
}
SWAPS = ['copy', 'pickle4', 'convert', 'dict', 'sum', 'exclude', 'include']


class Grown(Mutations):
    names = ('a', 'b', 'c')
    hows = 'nf'
    max_edges = 9


def inits():
    out = []
    for ops in SEEDS.values():
        out.append(ops)
        for s in SWAPS:
            out.append(ops + (('swap', s),))
            out.append(ops + (('render',), ('swap', s)))
    return out


def apart_cases(tier):
    """larger graphs taken apart and put together again"""
    for _, n, edges in shapes.families(26 if tier == 'thorough' else 13):
        if n < 4:
            continue
        for scheme in ('abc', 'num', 'int'):
            for how in ('nodes', 'nodes backwards', 'edges', 'edges backwards', 'isolate', 'return'):
                yield (scheme, n, shapes.plain(edges), how)


def run_apart(ctx, case):
    scheme, n, edges, how = case
    names = shapes.names(scheme, n)
    w = Live(ctx, scheme, n, edges)
    keys = [(names[a], names[b], i) for a, b, i in edges]
    ops = {'nodes': [('rm', x, 'n') for x in names], 'nodes backwards': [('rm', x, 'o') for x in names[::-1]],
           'edges': [('dis', k, 'd') for k in keys], 'edges backwards': [('dis', k, 'r') for k in keys[::-1]],
           'isolate': [('iso', x) for x in names[::2] + names[1::2]],
           'return': [('rm', x, 'o') for x in names[1::2]] + [('readd', 0) for _ in names[1::2]] + [('con', a, b, i, 'n') for a, b, i in keys if {a, b} & set(names[1::2])]}[how]
    observe.check_structure(w.g, w.r)
    for k, op in enumerate(ops):
        w.apply(op)
        ctx.step()
        if k < 2 or k % 3 == 0 or k >= len(ops) - 2:
            observe.check_structure(w.g, w.r)
            w.check_gone()
            ctx.state(w.r.key())


def namesake_cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for e in shapes.digraphs(n, max_edges=9 if n < 3 else 4 if deep else 2):
            for kind in ('copy', 'other', 'gone'):
                yield (n, shapes.plain(e), kind)
    for e in shapes.multigraphs(2, 3, 2):
        for kind in ('copy', 'other', 'gone'):
            yield (2, e, kind)


def run_namesake(ctx, case):
    """calls with node objects that are not members but have a member's name: refused without a change, or done as with the name"""
    n, edges, kind = case
    names = ('b', 'a', 0)[:n]

    def fresh():
        g, r = observe.build(names, edges), observe.ref(names, edges)
        if kind == 'copy':
            h = g.copy()
            return g, r, h, {x.name: x for x in h.nodes}
        if kind == 'other':
            h = observe.build(names[::-1], ((0, 0, 5),))
            return g, r, h, {x.name: x for x in h.nodes}
        gone = {}
        for x in names:
            node = g.get_node(x)
            g.remove_node(x)
            g.add_node(x)
            gone[x] = node
        r = observe.ref(names, edges)
        for a, b, i in edges:
            g.connect(names[a], names[b], id=i)
        return g, r, None, gone
    calls = [('remove', x, None, None, None) for x in names]
    for s in names:
        for e in names:
            for strangers in ('s', 'e', 'se'):
                for id in (None, 'new'):
                    for how in 'nt' if strangers == 'e' else 'nf' if strangers == 's' else 'n':
                        calls.append(('connect', s, e, id, strangers + how))
    for what, s, e, id, how in calls:
        g, r, h, strangers = fresh()
        observe.check_structure(g, r)
        before, other = observe.snapshot(g), observe.snapshot(h) if h is not None else None
        if what == 'remove':
            _, error, _ = observe.call(lambda: g.remove_node(strangers[s]))
        else:
            a = strangers[s] if 's' in how[:-1] else g.get_node(s)
            b = strangers[e] if 'e' in how[:-1] else g.get_node(e)
            kw = {} if id is None else {'id': id}
            _, error, _ = observe.call({'n': lambda: g.connect(a, b, **kw), 't': lambda: a.connect_to(b, **kw), 'f': lambda: b.connect_from(a, **kw)}[how[-1]])
        if error is not None:
            observe.same_snapshot(f'refused {what} {s!r} {e!r} {how}', before, observe.snapshot(g))
        elif what == 'remove':
            r.remove(s)
        elif (s, e, id) not in r.edges:
            r.connect(s, e, id)
        observe.check_structure(g, r)
        if h is not None:
            observe.same_snapshot(f'another graph after {what} {s!r} {e!r} {how}', other, observe.snapshot(h))
        else:
            for x in strangers.values():
                if x.graph is not None or x.edges or x in g:
                    raise Mismatch(f'the removed node {x.name!r} came back by {what} {s!r} {e!r} {how}')
        for x in strangers.values():
            if x in g:
                raise Mismatch(f'a node {x.name!r} that does not belong to the graph is a member of it')
        ctx.step()
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Histories('two names, two ids, every spelling', Two, 6 if deep else 5, '2 names, edge ids None and x1, 5 spellings of connect, 2 of remove and disconnect, at most 3 edges'),
        Histories('two names, many edges', TwoNarrow, 8 if deep else 6, '2 names, 2 ids, one spelling, up to 8 edges'),
        Histories('three names', Three, 8 if deep else 6, '3 names introduced in order, one id'),
        Histories('three names, falsy id', ThreeIds, 7 if deep else 5, '3 names, ids None and 0'),
        Histories('integer names', Ints, 6 if deep else 5, 'names 0 and 1000'),
        Histories('cold', Three, 7 if deep else 6, '3 names, nothing asked before the last step', warm=False),
        Histories('with rendering', Rendered, 6 if deep else 5, '3 names, rendering between mutations'),
        Histories('grown, copied, loaded, converted, filtered', Grown, 3 if deep else 2,
                  'every pair of operations on 4 graphs and on their copies, pickles, conversions, sums and filtrates, rendered or not', inits=inits()),
        Cases('namesakes', lambda: namesake_cases(tier), run_namesake, 'every digraph on 1-2 nodes, 3 nodes with up to %d edges, multigraphs: every connection and removal by node objects of a copy, of another graph, or removed ones, that have the name of a member' % (4 if deep else 2)),
        Cases('larger graphs taken apart', lambda: apart_cases(tier), run_apart, 'structured families up to %d nodes: nodes or edges removed one by one, from either side; nodes isolated; half of the nodes removed, added again and reconnected' % (26 if deep else 13)),
    ] + structural.stages(lambda ctx, g, r: observe.check_structure(g, r), tier, ('structure',), use=('strange', 'dressed', 'large', 'worn'))
