"""C03: re-adding a node or edge updates the existing one, never duplicates it."""
import itertools

from .. import observe
from ..core import Cases, Histories, Mismatch
from ..world import World
from .. import structural

ASSUMPTIONS = ['attribute values come from a small domain that includes the falsy ones']
NODE_NEW = {'label': (None, 'N', ''), 'value': (None, 2, 0, False, ''), 'style': (None, 'S2')}
OLD = {'label': (None, 'O'), 'value': (None, 1, 0), 'style': (None, 'S1')}
POLICIES = (None, 'warn', 'ignore', 'error', 'bogus')
SHAPES = {
    'alone': (('add', 'a'),),
    'middle': (('add', 'x'), ('add', 'a'), ('add', 'y'), ('con', 'x', 'a', None, 'n'), ('con', 'a', 'y', None, 'n'), ('con', 'a', 'a', None, 'n'), ('con', 'y', 'x', None, 'n')),
}
EDGE_SHAPES = {
    'pair': (('add', 'a'), ('add', 'b')),
    'loop': (('add', 'b'), ('add', 'a'), ('con', 'b', 'a', None, 'n')),
    'busy': (('add', 'b'), ('add', 'a'), ('add', 'c'), ('con', 'b', 'a', 'k', 'n'), ('con', 'a', 'c', None, 'n'), ('con', 'c', 'b', None, 'n')),
}


def given(domain):
    keys = list(domain)
    for values in itertools.product(*[domain[k] for k in keys]):
        yield tuple((k, v) for k, v in zip(keys, values) if v is not None)


def node_cases(tier):
    for shape in SHAPES:
        for old in given(OLD):
            for new in given(NODE_NEW):
                for policy in POLICIES:
                    for overwrite in (False, True):
                        for frozen in (False, True):
                            yield (shape, old, new, policy, overwrite, frozen)


class W(World):
    groups = ('structure', 'data')


def run_node(ctx, case):
    shape, old, new, policy, overwrite, frozen = case
    init = tuple(('addx', 'a', old + (('tooltip', 'T'), ('p', 7))) if op == ('add', 'a') else op for op in SHAPES[shape])
    w = W(ctx, ({'style_overwrite_allowed': overwrite},) + init)
    ctx.step(len(init))
    if frozen:
        w.apply(('freeze', ('n', 'a')))
    w.check()
    again(ctx, w, ('n', 'a'), old, new, policy, overwrite)
    w.check()
    # and a second time with nothing to change
    w.apply(('re', 'a', (), 'ignore'))
    ctx.step()
    w.check()
    w.apply(('re', 'a', (('tooltip', 'other'), ('p', 8), ('q', 9)), 'ignore'))
    ctx.step()
    w.check()
    ctx.state(w.key())


def again(ctx, w, t, old, new, policy, overwrite):
    refused_policy = policy not in (None, 'warn', 'ignore')
    refused_style = dict(new).get('style') is not None and dict(old).get('style') is not None and not overwrite
    refused_value = w.target(t)[1].frozen and dict(new).get('value') is not None
    before = observe.snapshot(w.g)
    if (refused_style or refused_value) and not refused_policy:
        name = t[1]
        kw = {} if policy is None else {'if_node_exists' if t[0] == 'n' else 'if_edge_exists': policy}
        from ..world import kwargs_of
        if t[0] == 'n':
            _, error, _ = observe.call(lambda: w.g.add_node(name, **kw, **kwargs_of(new, 'node')))
        else:
            _, error, _ = observe.call(lambda: w.g.connect(name[0], name[1], id=name[2], **kw, **kwargs_of(new, 'edge')))
        if error is None:
            raise Mismatch('replacing a style or a frozen value was accepted')
        observe.same_snapshot('refused re-adding', before, observe.snapshot(w.g))
    else:
        w.apply(('re', t[1], new, policy) if t[0] == 'n' else ('recon',) + t[1] + (new, policy))
        if refused_policy:
            observe.same_snapshot('refused re-adding', before, observe.snapshot(w.g))
    ctx.step()
    ctx.outcome((policy, refused_style, refused_value, bool(new)))


def edge_cases(tier):
    for shape in EDGE_SHAPES:
        for old in given(OLD):
            for new in given(NODE_NEW):
                for policy in POLICIES:
                    for overwrite in (False, True):
                        for id in (None, 'x', 0) if tier == 'thorough' else (0,) if shape == 'loop' else (None,):
                            for frozen in (False, True):
                                yield (shape, old, new, policy, overwrite, id, frozen)


def run_edge(ctx, case):
    shape, old, new, policy, overwrite, id, frozen = case
    init = EDGE_SHAPES[shape]
    w = W(ctx, ({'style_overwrite_allowed': overwrite},) + init)
    s, e = ('a', 'a') if shape == 'loop' else ('a', 'b')
    w.apply(('con', s, e, id, 'n', old + (('tooltip', 'T'), ('p', 7))))
    # parallel, opposite and later edges
    for other in (None, 'x', 0, '', '0', 1):
        if other != id or type(other) is not type(id):
            if (s, e, other) not in w.r.edges:
                w.apply(('con', s, e, other, 'n'))
    if s != e:
        w.apply(('con', e, s, id, 'n')) if (e, s, id) not in w.r.edges else None
    ctx.step(8)
    if frozen:
        w.apply(('freeze', ('e', (s, e, id))))
    w.check()
    again(ctx, w, ('e', (s, e, id)), old, new, policy, overwrite)
    w.check()
    w.apply(('recon', s, e, id, (), 'ignore'))
    ctx.step()
    w.check()
    w.apply(('recon', s, e, id, (('tooltip', 'other'), ('p', 8), ('q', 9)), 'ignore'))
    ctx.step()
    w.check()
    ctx.state(w.key())


VALUE_PAIRS = ((1, True), (True, 1), (1, 1.0), (0, False), (1, '1'), ('', 0), ((), []), ([], {}), ([1], [1]), (float('inf'), 0), (b'', ''), ('x', 'X'), ('v', None), (0.1, 0.2))
LABEL_PAIRS = (('O', 'o'), ('O', 'O '), ('', 'O'), ('O', ''), ('O', 'O'), ('a', 'b'))
HOWS = ('n', 'o', 't', 'f', 'm')
# what is given next to label, value and style
OTHERS = ((('tooltip', 'new tip'),), (('p', 8),), (('q', 'new'), ('label', 'N2')), (('tooltip', ''), ('p', 0), ('value', 9)), (('tooltip', None), ('p', None)), (('tooltip', 'tip'), ('q', 1), ('label', 'N3'), ('value', 3)))


def strange_cases(tier):
    for t in structural.STRANGE:
        for order in itertools.permutations(t):
            yield ('names', order, None)
    for ids in structural.STRANGE_IDS:
        for order in (ids, ids[::-1]):
            for how in HOWS:
                yield ('ids', order, how)
    for how in HOWS:
        for policy in POLICIES:
            for dress in structural.DRESSES:
                yield ('spelling', (how, policy), dress)
    for pair in VALUE_PAIRS:
        yield ('values', pair, None)
    for pair in LABEL_PAIRS:
        yield ('labels', pair, None)


class Strange(structural.Live):
    groups = ('structure', 'data')


def settle(ctx, w, op):
    w.apply(op)
    ctx.step()
    w.check()


def run_strange(ctx, case):
    what, x, more = case
    if what == 'names':
        # every new name is new, every old one is updated alone
        w = Strange(ctx, 'abc', 0, ())
        for k, n in enumerate(x):
            settle(ctx, w, ('add', n))
            for i, m in enumerate(x[:k + 1]):
                settle(ctx, w, ('re', m, (('label', f'L{k}{i}'), ('value', (k, i))), 'ignore'))
                settle(ctx, w, ('re', m, (), None))
                settle(ctx, w, ('re', m, OTHERS[(k + i) % len(OTHERS)], 'ignore'))
                settle(ctx, w, ('re', m, (('label', 'no'), ('value', 'no')), 'error'))
        for k, (s, e) in enumerate(itertools.product(x, repeat=2)):
            settle(ctx, w, ('con', s, e, None, HOWS[k % 5], (('label', f'{k}'),)))
            settle(ctx, w, ('recon', s, e, None, (('label', f'M{k}'), ('value', k)), 'warn', HOWS[k % 4]))
            settle(ctx, w, ('recon', s, e, None, OTHERS[k % len(OTHERS)], 'ignore', HOWS[k % 5]))
            settle(ctx, w, ('recon', s, e, None, (('label', 'no'),), 'error', HOWS[k % 3]))
    elif what == 'ids':
        w = Strange(ctx, 'zyx', 2, ())
        z, y = w.r.nodes
        for s, e in ((z, y), (y, z), (z, z)):
            for k, id in enumerate(x):
                settle(ctx, w, ('con', s, e, id, more, (('label', f'{k}'),)))
                for i, old in enumerate(x[:k + 1]):
                    settle(ctx, w, ('recon', s, e, old, (('label', f'{k}{i}'), ('value', (k, i))), 'ignore', more))
                    settle(ctx, w, ('recon', s, e, old, (), None, more))
                    settle(ctx, w, ('recon', s, e, old, (('label', 'no'),), 'error', more))
    elif what == 'spelling':
        how, policy = x
        w = Strange(ctx, 'zyx', 3, ((0, 1, None), (0, 1, 'x'), (1, 0, None), (2, 2, 0)), more)
        for attrs in ((), (('label', 'N'),), (('label', 'N'), ('value', 7)), (('value', 0),)) + OTHERS:
            for n in list(w.r.nodes):
                if how in 'no':
                    settle(ctx, w, ('re', n, attrs, policy))
            for key in list(w.r.edges):
                settle(ctx, w, ('recon',) + key + (attrs, policy, how))
    else:
        old, new = x
        attr = what[:-1]
        for policy in ('warn', 'ignore', 'error'):
            w = Strange(ctx, 'zyx', 2, ())
            z, y = w.r.nodes
            attrs = ((attr, new),) if new is not None else ()
            for key in ((z, y, None), (y, y, 0)):
                settle(ctx, w, ('con',) + key + ('n', ((attr, old),)))
                settle(ctx, w, ('recon',) + key + (attrs, policy))
                same(w, ('e', key), attr, old if policy == 'error' or new is None else new)
            w.apply(('set', ('n', z), attr, old))
            settle(ctx, w, ('re', z, attrs, policy))
            same(w, ('n', z), attr, old if policy == 'error' or new is None else new)
    ctx.outcome((what, len(w.r.edges)))
    ctx.state(w.key())


def same(w, t, attr, wanted):
    if attr == 'label' and t[0] == 'n':
        return
    got = getattr(w.target(t)[0], attr)
    if got is not wanted and (type(got) is not type(wanted) or isinstance(wanted, (list, dict))):
        raise Mismatch(f'{attr} of {t}: observed {got!r}, expected the very {wanted!r} that was given')


class Again(World):
    """repetitions mixed with other mutations"""
    groups = ('structure', 'data', 'gone', 'relatives', 'roots')
    names = ('a', 'b')
    new = ((), (('label', 'N'),), (('value', 0),), (('value', 2), ('label', 'M')))

    def ops(self):
        r = self.r
        out = []
        for n in self.names:
            if n in r.nodes:
                out.append(('rm', n, 'n'))
                for new in self.new:
                    out.append(('re', n, new, 'ignore'))
                out.append(('re', n, self.new[3], None))
                out.append(('re', n, self.new[3], 'error'))
            else:
                out.append(('addx', n, (('label', 'O'),)))
        for k, (_, rn) in enumerate(self.gone_nodes):
            if rn.name not in r.nodes:
                out.append(('readd', k))
        for key in r.edges:
            out.append(('dis', key, 'd'))
            for new in self.new[:3]:
                out.append(('recon',) + key + (new, 'ignore'))
            out.append(('recon',) + key + (self.new[3], None))
            out.append(('recon',) + key + (self.new[3], 'error'))
        if len(r.edges) < 3:
            for s in r.nodes:
                for e in r.nodes:
                    for id in (None, 'x'):
                        if (s, e, id) not in r.edges:
                            out.append(('con', s, e, id, 'n'))
        if r.nodes:
            out.append(('swap', 'copy'))
        return out


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('re-adding nodes', lambda: node_cases(tier), run_node, 'every combination of existing and given label, value (falsy too) and style, policy, overwriting, freezing; alone or in a graph'),
        Cases('re-connecting edges', lambda: edge_cases(tier), run_edge, 'the same for edges, with parallel edges of ids None, x, 0, "", "0", 1, opposite edges and self-loops'),
        Cases('spellings, settings, confusable names, ids and values', lambda: strange_cases(tier), run_strange, '%d triples of names in every order, %d pairs of ids, %d pairs of values, 5 spellings of connect x 5 policies x %d kinds of settings and data' % (len(structural.STRANGE), len(structural.STRANGE_IDS), len(VALUE_PAIRS), len(structural.DRESSES))),
        Histories('repetitions between mutations', Again, 5 if deep else 4, '2 names, 2 ids, at most 3 edges, copies in between'),
    ]
