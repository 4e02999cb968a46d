"""C02: a rejected call raises and changes nothing."""
import itertools

from abstract import Graph

from .. import observe, structural
from ..core import Cases, Histories, Mismatch
from ..shapes import again
from ..world import World

ASSUMPTIONS = ['rejected calls are those the property lists; a node object of another graph counts as rejected when it is added, or when its name is unknown to the graph']

REJECTED_NODE = [
    # (what, needs)
    'add-dup-error', 'add-dup-error-attrs', 'add-dup-odd-policy', 'add-dup-style', 'add-dup-bad-style', 'add-dup-frozen',
    'add-foreign', 'add-foreign-new', 'add-stale', 'add-float', 'add-none', 'add-tuple', 'add-list', 'add-bad-style',
    'rm-unknown', 'rm-none', 'rm-gone', 'rm-foreign', 'get-unknown',
    'set-style', 'set-bad-style', 'set-frozen',
]
REJECTED_EDGE = [
    'con-unknown-start', 'con-unknown-end', 'con-unknown-both', 'con-foreign-start', 'con-foreign-end', 'con-float', 'con-gone', 'con-gone-end', 'con-to-gone',
    'con-bad-style', 'con-dup-error', 'con-dup-error-attrs', 'con-dup-odd-policy', 'con-dup-style', 'con-dup-bad-style', 'con-dup-frozen',
    'dis-gone', 'self-gone', 'edge-set-style', 'edge-set-bad-style', 'edge-set-frozen', 'rank-stranger', 'ask-unknown',
]


class Rejecting(World):
    names = ('a', 'b')
    groups = ('structure', 'data', 'gone', 'relatives', 'reach', 'roots')
    styled = True

    def __init__(self, ctx, init=()):
        self.h = Graph()
        self.h.add_node('a')
        self.h.add_node('z')
        self.h.connect('a', 'z')
        super().__init__(ctx, init)

    def ops(self):
        r = self.r
        out = []
        used = set(r.nodes) | {rn.name for _, rn in self.gone_nodes}
        for n in self.names:
            if n in r.nodes:
                out.append(('rm', n, 'n'))
                if not r.nodes[n].frozen:
                    out.append(('freeze', ('n', n)))
            else:
                out.append(('add', n))
                out.append(('addx', n, (('label', 'L'), ('value', 1), ('style', 'S1'), ('p', 5))))
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        for key in r.edges:
            out.append(('dis', key, 'd'))
            out.append(('dis', key, 'r'))
            if not r.edges[key].frozen:
                out.append(('freeze', ('e', key)))
        if len(r.edges) < 2:
            for s in r.nodes:
                for e in r.nodes:
                    if (s, e, None) not in r.edges:
                        out.append(('con', s, e, None, 'n'))
                        out.append(('con', s, e, None, 'n', (('label', 'M'), ('value', 2), ('style', 'S2'))))
        out.append(('bad',))
        return out

    def do_bad(self):
        """every rejected call in this state"""
        for what, t in self.rejected():
            self.reject(what, t)

    def rejected(self):
        r = self.r
        for n, rn in r.nodes.items():
            for w in ('add-dup-error', 'add-dup-error-attrs', 'add-dup-odd-policy', 'add-dup-bad-style', 'set-bad-style'):
                yield w, n
            if rn.style is not None and not r.overwrite:
                yield 'add-dup-style', n
                yield 'set-style', n
            if rn.frozen:
                yield 'add-dup-frozen', n
                yield 'set-frozen', n
            for w in ('con-unknown-start', 'con-unknown-end', 'con-foreign-start', 'con-foreign-end', 'con-float'):
                yield w, n
            for m in r.nodes:
                if m not in r.children(n):
                    yield 'rank-stranger', (n, m)
                if (n, m, None) not in r.edges:
                    yield 'con-bad-style', (n, m)
            for k, (_, gone) in enumerate(self.gone_nodes):
                if gone.name not in r.nodes:
                    yield 'con-gone', (k, n)
                    yield 'con-gone-end', (k, n)
                    yield 'con-to-gone', (k, n)
        for w in ('add-foreign', 'add-foreign-new', 'add-float', 'add-none', 'add-tuple', 'add-list', 'add-bad-style', 'rm-unknown', 'rm-none', 'rm-foreign', 'get-unknown', 'con-unknown-both', 'ask-unknown'):
            if w == 'add-foreign' and 'a' not in r.nodes:
                continue
            yield w, None
        for k, (_, gone) in enumerate(self.gone_nodes):
            if gone.name in r.nodes:
                yield 'add-stale', k
            else:
                yield 'rm-gone', k
        for key, re in r.edges.items():
            for w in ('con-dup-error', 'con-dup-error-attrs', 'con-dup-odd-policy', 'con-dup-bad-style', 'edge-set-bad-style'):
                yield w, key
            if re.style is not None and not r.overwrite:
                yield 'con-dup-style', key
                yield 'edge-set-style', key
            if re.frozen:
                yield 'con-dup-frozen', key
                yield 'edge-set-frozen', key
        for k in range(len(self.gone_edges)):
            yield 'dis-gone', k
            yield 'self-gone', k

    def reject(self, what, t):
        g, h = self.g, self.h
        S = observe.node_style('S3')
        E = observe.edge_style('S3')
        node = (lambda: g.get_node(t))
        edge = (lambda: self.edge(t))
        foreign_a, foreign_z = h.get_node('a'), h.get_node('z')
        everything = dict(label='NEW', value='NEW')
        fn = {
            'add-dup-error': lambda: g.add_node(t, if_node_exists='error'),
            'add-dup-error-attrs': lambda: g.add_node(t, if_node_exists='error', **everything),
            'add-dup-odd-policy': lambda: g.add_node(t, if_node_exists='raise', **everything),
            'add-dup-style': lambda: g.add_node(t, if_node_exists='ignore', style=S, **everything),
            'add-dup-bad-style': lambda: g.add_node(t, if_node_exists='ignore', style=5, **everything),
            'add-dup-frozen': lambda: g.add_node(t, if_node_exists='ignore', label='NEW', value='NEW', style=None),
            'set-style': lambda: setattr(g.get_node(t), 'style', S),
            'set-bad-style': lambda: setattr(g.get_node(t), 'style', 5),
            'set-frozen': lambda: setattr(g.get_node(t), 'value', 'NEW'),
            'add-foreign': lambda: g.add_node(foreign_a),
            'add-foreign-new': lambda: g.add_node(foreign_z),
            'add-stale': lambda: g.add_node(self.gone_nodes[t][0]),
            'add-float': lambda: g.add_node(1.5),
            'add-none': lambda: g.add_node(None),
            'add-tuple': lambda: g.add_node(('a', 'b')),
            'add-list': lambda: g.add_node(['q']),
            'add-bad-style': lambda: g.add_node('q', style=5, **everything),
            'rm-unknown': lambda: g.remove_node('q'),
            'rm-none': lambda: g.remove_node(None),
            'rm-gone': lambda: g.remove_node(self.gone_nodes[t][0]),
            'rm-foreign': lambda: g.remove_node(foreign_z),
            'get-unknown': lambda: g.get_node('q'),
            'ask-unknown': lambda: g.get_ancestors('q'),
            'con-unknown-start': lambda: g.connect('q', t, **everything),
            'con-unknown-end': lambda: g.connect(t, 'q', **everything),
            'con-unknown-both': lambda: g.connect('q', 'q'),
            'con-foreign-start': lambda: g.connect(foreign_z, t),
            'con-foreign-end': lambda: g.connect(t, foreign_z),
            'con-float': lambda: g.connect(t, 1.5),
            'con-gone': lambda: g.connect(self.gone_nodes[t[0]][0], t[1]),
            'con-gone-end': lambda: g.connect(t[1], self.gone_nodes[t[0]][0]),
            'con-to-gone': lambda: g.get_node(t[1]).connect_to(self.gone_nodes[t[0]][0]),
            'con-bad-style': lambda: g.connect(t[0], t[1], style=5, **everything),
            'con-dup-error': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='error'),
            'con-dup-error-attrs': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='error', **everything),
            'con-dup-odd-policy': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='raise', **everything),
            'con-dup-style': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='ignore', style=E, **everything),
            'con-dup-bad-style': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='ignore', style=5, **everything),
            'con-dup-frozen': lambda: g.connect(t[0], t[1], id=t[2], if_edge_exists='ignore', label='NEW', value='NEW'),
            'edge-set-style': lambda: setattr(edge(), 'style', E),
            'edge-set-bad-style': lambda: setattr(edge(), 'style', 5),
            'edge-set-frozen': lambda: setattr(edge(), 'value', 'NEW'),
            'dis-gone': lambda: g.disconnect(self.gone_edges[t][0]),
            'self-gone': lambda: self.gone_edges[t][0].remove_self(),
            'rank-stranger': lambda: g.get_node(t[1]).get_child_rank(parent=g.get_node(t[0])),
        }[what]
        before, other = observe.snapshot(g), observe.snapshot(h)
        held = {n: g.get_node(n) for n in self.r.nodes}
        held_edges = g.edges_dict
        _, error, _ = observe.call(fn)
        self.ctx.step()
        self.ctx.count('rejected_calls')
        self.ctx.outcome((what, type(error).__name__))
        if error is None:
            raise Mismatch(f'{what} {t!r} was accepted')
        observe.same_snapshot(f'graph changed by the rejected {what} {t!r}', before, observe.snapshot(g))
        observe.same_snapshot(f'other graph changed by the rejected {what} {t!r}', other, observe.snapshot(h))
        for n, node in held.items():
            if g.get_node(n) is not node:
                raise Mismatch(f'node {n!r} was replaced by the rejected {what} {t!r}')
        now = g.edges_dict
        for k, e in held_edges.items():
            if now[k] is not e:
                raise Mismatch(f'edge {k!r} was replaced by the rejected {what} {t!r}')
        # the graph works on normally
        observe.check_structure(g, self.r)
        self.check_gone()


PLAIN = ()
RICH = (('addx', 'a', (('label', 'L'), ('value', 1), ('style', 'S1'), ('p', 5))), ('add', 'b'), ('add', 'c'),
        ('con', 'a', 'b', None, 'n', (('label', 'M'), ('value', 2), ('style', 'S2'))), ('con', 'b', 'a', 'x', 'n'),
        ('con', 'b', 'b', None, 'n'), ('con', 'b', 'c', None, 'n'), ('con', 'c', 'a', None, 'n'))


class Grown(Rejecting):
    names = ('a', 'b', 'c')

    def ops(self):
        out = [o for o in super().ops() if o[0] != 'con' or self.r.parents(o[2]) == []]
        if self.r.nodes:
            out.append(('render',))
        return out


class Afterwards(Rejecting):
    """one rejected call at a time, then the history goes on: the future must be that of a graph never bothered"""
    def ops(self):
        out = [o for o in super().ops() if o != ('bad',)]
        return out + [('one', w, t) for w, t in self.rejected()]

    def do_one(self, what, t):
        self.reject(what, t)


class Strange(structural.Live):
    groups = ('structure', 'data', 'gone', 'relatives', 'reach', 'roots')

    def reject(self, what, fn, *others):
        g = self.g
        graphs = (g,) + others
        before = [observe.snapshot(x) for x in graphs]
        held = {n: g.get_node(n) for n in self.r.nodes}
        held_edges = g.edges_dict
        _, error, _ = observe.call(fn)
        self.ctx.step()
        self.ctx.count('rejected_calls')
        self.ctx.outcome((what, type(error).__name__))
        if error is None:
            raise Mismatch(f'{what} was accepted')
        for x, b in zip(graphs, before):
            observe.same_snapshot(f'changed by the rejected {what}', b, observe.snapshot(x))
        for n, node in held.items():
            if g.get_node(n) is not node:
                raise Mismatch(f'node {n!r} was replaced by the rejected {what}')
        now = g.edges_dict
        for k, e in held_edges.items():
            if now[k] is not e:
                raise Mismatch(f'edge {k!r} was replaced by the rejected {what}')


def strange_cases(tier):
    deep = tier == 'thorough'
    for t in structural.STRANGE:
        for k in range(3):
            for edges in itertools.product((False, True), repeat=4) if deep else ((False,) * 4, (True,) * 4, (False, True, True, False)):
                yield ('names', t, k, edges, None)
    for ids in structural.STRANGE_IDS:
        for order in (ids, ids[::-1]):
            for ends in ((0, 1), (0, 0)):
                yield ('ids', order, 0, ends, None)
    for dress in structural.DRESSES:
        for edges in itertools.product((False, True), repeat=4):
            yield ('names', ('a', 'b', 'c'), 0, edges, dress)


def run_strange(ctx, case):
    what, t, k, edges, dress = case
    if what == 'names':
        x = t[k]
        a, b = (n for n in t if n is not x)
        w = Strange(ctx, (a, b), 2, tuple((i, j, None) for (i, j), on in zip(itertools.product((0, 1), repeat=2), edges) if on), dress)
        g = w.g
        h = Graph()
        for n in (x, 'other'):
            h.add_node(again(n), if_node_exists='ignore')
        h.connect(again(x), 'other')
        h.connect(again(x), again(x), id=1)
        stranger = h.get_node(x)
        gone = g.add_node(again(x))
        g.connect(gone, again(a))
        g.connect(again(b), gone)
        g.remove_node(again(x))
        expect = [a, b]
        if list(g.nodes_dict) != expect:
            raise Mismatch(f'nodes {list(g.nodes_dict)} instead of {expect}')
        for w_, x_ in (('name', x), ('removed node', gone), ('node of another graph', stranger)):
            w.reject(f'removing an unknown {w_}', lambda: g.remove_node(again(x_)), h)
            w.reject(f'getting an unknown {w_}', lambda: g.get_node(again(x_)), h)
            for n in (a, b):
                w.reject(f'connecting to an unknown {w_}', lambda: g.connect(again(n), again(x_), label='NEW'), h)
                w.reject(f'connecting from an unknown {w_}', lambda: g.connect(again(x_), again(n), id=5), h)
                w.reject(f'connect_to an unknown {w_}', lambda: g.get_node(n).connect_to(again(x_)), h)
                w.reject(f'connect_from an unknown {w_}', lambda: g.get_node(n).connect_from(again(x_)), h)
            w.reject(f'connecting an unknown {w_} with itself', lambda: g.connect(again(x_), again(x_)), h)
            for query in ('get_parents', 'get_children', 'get_siblings', 'get_spouses', 'get_ancestors', 'get_descendants', 'get_edges', 'has_parents', 'is_node_in_loop'):
                w.reject(f'{query} of an unknown {w_}', lambda: getattr(g, query)(again(x_)), h)
            w.reject(f'filtering by an unknown {w_}', lambda: g.filter([again(x_)]), h)
        w.reject('adding a node of another graph', lambda: g.add_node(stranger), h)
        w.reject('removing again', lambda: h.remove_node(gone) if x not in h.nodes_dict else g.remove_node(gone), h)
        for n in (a, b):
            w.reject('adding again under error', lambda: g.add_node(again(n), label='NEW', if_node_exists='error'), h)
            w.reject('adding again with a bad style', lambda: g.add_node(again(n), label='NEW', value='NEW', style='red', if_node_exists='ignore'), h)
        for key in list(w.r.edges):
            w.reject('connecting again under error', lambda: g.connect(again(key[0]), again(key[1]), label='NEW', if_edge_exists='error'), h)
        # the stranger with a name that is known: adding is refused, too
        for n in (a, b):
            other = Graph()
            double = other.add_node(again(n))
            w.reject('adding a namesake of another graph', lambda: g.add_node(double), h, other)
        w.check()
        w.apply(('add', x))
        for n in (a, b):
            w.apply(('con', x, n, None, 'n'))
            w.apply(('con', n, x, None, 'n'))
        w.reject('connecting with the removed namesake', lambda: g.add_node(gone), h)
        w.check()
    else:
        w = Strange(ctx, 'abc', 2, ((*edges, t[0]), (1, 0, t[0]), (1, 1, t[1])))
        g = w.g
        s, e = 'ab'[edges[0]], 'ab'[edges[1]]
        w.apply(('con', s, e, t[1], 'n'))
        edge = w.edge((s, e, t[1]))
        w.apply(('dis', (s, e, t[1]), 'd'))
        w.reject('disconnecting again', lambda: g.disconnect(edge))
        w.reject('removing again', lambda: edge.remove_self())
        w.apply(('con', s, e, t[1], 'n'))
        edge = w.edge((s, e, t[0]))
        w.apply(('dis', (s, e, t[0]), 'r'))
        w.reject('disconnecting again', lambda: g.disconnect(edge))
        w.reject('removing again', lambda: edge.remove_self())
        w.apply(('con', s, e, t[0], 'n'))
        w.reject('removing the edge of before', lambda: edge.remove_self())
        w.reject('disconnecting the edge of before', lambda: g.disconnect(edge))
        for key in list(w.r.edges):
            w.reject('connecting again under error', lambda: g.connect(again(key[0]), again(key[1]), id=again(key[2]), value='NEW', if_edge_exists='error'))
        w.check()
    ctx.state(w.key())


FROZEN_VALUES = (None, 0, False, '', 1, 'v', [1], {}, (), 1.5, True)


def frozen_cases(tier):
    for old in FROZEN_VALUES:
        for new in FROZEN_VALUES:
            yield (old, new)


def run_frozen(ctx, case):
    """assigning any value at all to a frozen object, the value it has included"""
    old, new = case
    for t in (('n', 'a'), ('e', ('a', 'b', None)), ('e', ('b', 'b', 0))):
        w = Strange(ctx, 'abc', 2, ((0, 1, None), (1, 1, 0)))
        w.apply(('set', t, 'value', old))
        w.apply(('freeze', t))
        obj = w.target(t)[0]
        w.reject(f'assigning {new!r} to a frozen {old!r}', lambda: setattr(obj, 'value', new))
        w.reject(f'assigning the very value of a frozen {old!r}', lambda: setattr(obj, 'value', obj.value))
        if new is not None:
            if t[0] == 'n':
                w.reject(f'adding again with {new!r} over a frozen {old!r}', lambda: w.g.add_node('a', label='NEW', value=new, if_node_exists='ignore'))
            else:
                w.reject(f'connecting again with {new!r} over a frozen {old!r}', lambda: w.g.connect(t[1][0], t[1][1], id=t[1][2], label='NEW', value=new, if_edge_exists='ignore'))
        w.check()
        w.apply(('unfreeze', t))
        w.apply(('set', t, 'value', new))
        w.check()
        ctx.state(w.key())


def stages(tier):
    deep = tier == 'thorough'
    inits = [RICH] + [RICH + (('swap', s),) for s in ('copy', 'pickle4', 'exclude')] + [({'style_overwrite_allowed': True},) + RICH]
    return [
        Histories('every rejected call in every state', Rejecting, 5 if deep else 4, '2 names, attributes, at most 2 edges; all rejected calls in every reached state'),
        Histories('grown graphs, copies and loaded graphs', Grown, 3 if deep else 2, '3 styled nodes, 5 edges with loops and cycles; all rejected calls after every history', inits=inits),
        Cases('confusable names and ids, settings', lambda: strange_cases(tier), run_strange, '%d triples of names, one of them unknown, in every graph of the other two%s; %d pairs of ids; %d kinds of settings and data' % (len(structural.STRANGE), '' if deep else ' (three edge sets)', len(structural.STRANGE_IDS), len(structural.DRESSES))),
        Cases('frozen values', lambda: frozen_cases(tier), run_frozen, 'every pair of %d values, the frozen and the assigned one' % len(FROZEN_VALUES)),
        Histories('histories going on after a rejection', Afterwards, 4 if deep else 3, '2 names; mutations and single rejected calls in any order', dedupe=False),
    ]
