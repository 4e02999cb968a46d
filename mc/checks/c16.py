"""C16: graphs from linked objects, on every small link structure, root, and pair of limits."""
import itertools

from abstract import Graph

from .. import linked, long, observe, shapes
from ..core import Cases, Mismatch, expect

ASSUMPTIONS = ['the objects have different hashes, and each link is known to both its ends']


class Sub(Graph):
    pass


def run(ctx, case):
    n, links, roots, limits, options = case
    opts = dict(options)
    objs = linked.make(n, links, opts.get('container', 'list'), opts.get('cls', linked.Linked), opts.get('texts'), opts.get('numbers'))
    before = linked.state(objs)
    for root in roots:
        up, down = linked.shortest(n, links, root, False), linked.shortest(n, links, root, True)
        for depth, height in limits:
            kw = {}
            if depth is not None:
                kw['max_depth'] = depth
            if height is not None:
                kw['max_height'] = height
            if 'strict' in opts:
                kw['strict'] = opts['strict']
            what = f'root {root}, depth {depth}, height {height}: '
            cls = opts.get('graph', Graph)
            g, error, warned = observe.call(lambda: cls.from_object(objs[root], **kw))
            if error is not None:
                raise Mismatch(f'{what}{type(error).__name__}: {error}')
            if warned:
                raise Mismatch(f'{what}a warning was issued')
            ctx.step()
            check(g, what, objs, root, links, linked.within(down, depth), linked.within(up, height), cls, opts)
    if linked.state(objs) != before:
        raise Mismatch(f'the links changed: {before} to {linked.state(objs)}')
    ctx.state((n, links, options and repr(options)))


def check(g, what, objs, root, links, below, above, cls, opts):
    if type(g) is not cls:
        raise Mismatch(f'{what}a {type(g).__name__}')
    of = {}
    wanted = {root} | below | above
    numbers = {o.number: o.k for o in objs}
    for x in g.nodes:
        if x.name not in numbers:
            raise Mismatch(f'{what}node {x.name!r} stands for no object')
        of[x.name] = numbers[x.name]
        expect(f'{what}label of {of[x.name]}', x.label, objs[of[x.name]].text or str(x.name))
    expect(f'{what}nodes', sorted(of.values()), sorted(wanted))
    lower, upper = {root} | below, {root} | above
    edges = {(a, b) for a, b in links if (a in lower and b in lower) or (a in upper and b in upper)}
    got = [(of[e.start.name], of[e.end.name]) for e in g.edges]
    expect(f'{what}edges', sorted(got), sorted(edges))
    for x in g.nodes:
        k = of[x.name]
        expect(f'{what}children of {k}', sorted(of[y.name] for y in x.children), sorted(b for a, b in edges if a == k))
        expect(f'{what}parents of {k}', sorted(of[y.name] for y in x.parents), sorted(a for a, b in edges if b == k))
    expect(f'{what}strictness', bool(g.__graph__()['strict']), bool(opts.get('strict', False)))


def all_limits(n):
    return tuple(itertools.product((None,) + tuple(range(n + 1)), repeat=2))


def some_limits(n):
    return ((None, None), (1, 1), (0, None), (None, 0), (2, 1), (1, 2), (0, 0), (n, n - 1))


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for links in shapes.digraphs(n):
            yield (n, links, tuple(range(n)), all_limits(n), ())
            for order in shapes.few_orders(links)[1:]:
                yield (n, order, tuple(range(n)), some_limits(n), (('strict', len(links) % 2 == 0),))
    for links in shapes.digraphs(4, loops=deep):
        yield (4, links, (0,), some_limits(4) if deep else ((None, None), (1, 2), (2, 0), (0, 1), (2, 1)), ())
    for links in shapes.digraphs_iso(4, loops=False, max_edges=6 if deep else 4):
        for order in shapes.orders(links, 5 if deep else 4):
            yield (4, order, (0, 1, 2, 3), ((None, None), (1, 1)), ())


def kinds(tier):
    for n in (2, 3):
        for links in shapes.digraphs(n, max_edges=4):
            for container in ('tuple', 'generator', 'dict'):
                yield (n, links, tuple(range(n)), ((None, None), (1, 1)), (('container', container),))
            yield (n, links, (0,), ((None, None), (1, 0)), (('cls', linked.Equal), ('graph', Sub)))
            yield (n, links, (0, 1), ((None, None), (1, 0), (2, 1)), (('cls', linked.Fresh), ('container', 'generator' if n == 2 else 'list')))
            yield (n, links, (0, 1), ((None, None),), (('texts', ('same', 'same', 'same')),))
            yield (n, links, (0, 1), ((None, None),), (('texts', ('', '"', 'a\nb')), ('strict', True)))
            yield (n, links, (0, 1), ((None, None),), (('numbers', (0, -5, 2 ** 60)),))
            yield (n, links, (0, 1), ((None, None),), (('numbers', (1, 0, -2)), ('strict', False)))
    for links in shapes.multigraphs(2, 4, 3):
        yield (2, tuple((a, b) for a, b, _ in links), (0, 1), all_limits(2), ())


def families(tier):
    for _, n, links in shapes.families(20 if tier == 'thorough' else 13):
        yield (n, links, tuple(range(n)), ((None, None), (1, 1), (2, n), (n // 2, 0)), ())
    for _, n, links in shapes.diamonds(10 if tier == 'thorough' else 6):
        yield (n, links, (0, n // 2, n - 1), ((None, None), (3, 3)), ())
    for n in (200, 1100):
        path = tuple((i, i + 1) for i in range(n - 1))
        yield (n, path, (0, n // 2, n - 1), ((None, None), (30, 50)), ())


def run_deep(ctx, case):
    with long.usual_recursion():
        run(ctx, case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('small structures', lambda: cases(tier), run, 'every link structure on 1-3 objects with every root and pair of limits, on 4 objects%s, and in every order up to %d links' % (' with self-links' if deep else '', 5 if deep else 4)),
        Cases('kinds of objects', lambda: kinds(tier), run, 'containers, equality by value, equal or hostile texts, hash values, repeated links'),
        Cases('families', lambda: families(tier), run_deep, 'structured families, chains of diamonds, a long path'),
    ]
