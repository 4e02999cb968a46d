"""C17: the object traversal functions, on every small link structure."""
import importlib
import itertools

from .. import linked, long, shapes
from ..core import Cases, Mismatch, expect

get_ancestors = importlib.import_module('abstract.get_ancestors').get_ancestors
get_descendants = importlib.import_module('abstract.get_descendants').get_descendants

ASSUMPTIONS = ['the objects have different hashes, each link is known to both its ends, and limits are not negative']


def look(what, got, dist, limit, objs, distance):
    wanted = linked.within(dist, limit)
    if distance:
        if not isinstance(got, dict):
            raise Mismatch(f'{what}: expected a dictionary, got {got!r}')
        real = {}
        for d, items in got.items():
            ks = ids(what, items, objs)
            if len(ks) != len(set(ks)):
                raise Mismatch(f'{what}: {ks} at distance {d} has a repetition')
            real[d] = set(ks)
        groups = {}
        for k in wanted:
            groups.setdefault(dist[k], set()).add(k)
        if real != groups:
            raise Mismatch(f'{what}: observed {real}, expected {groups}')
    else:
        if not isinstance(got, list):
            raise Mismatch(f'{what}: expected a list, got {got!r}')
        ks = ids(what, got, objs)
        if sorted(ks) != sorted(wanted):
            raise Mismatch(f'{what}: observed {sorted(ks)}, expected {sorted(wanted)}')


def ids(what, items, objs):
    out = []
    for x in items:
        if not any(x is o for o in objs) and not (isinstance(x, linked.Fresh) and x in objs):
            raise Mismatch(f'{what}: {x!r} is not one of the objects')
        out.append(x.k)
    return out


def run(ctx, case):
    n, links, starts, limits, container, cls = case
    objs = linked.make(n, links, container, cls)
    before = linked.state(objs)
    for s in starts:
        up, down = linked.shortest(n, links, s, False), linked.shortest(n, links, s, True)
        for limit in limits:
            what = f'start {s}, limit {limit}'
            if limit is None:
                calls = ((get_ancestors(objs[s]), up, True, 'ancestors by distance'), (get_descendants(objs[s]), down, True, 'descendants by distance'),
                         (get_ancestors(objs[s], distance=False), up, False, 'ancestors'), (get_descendants(obj=objs[s], distance=False), down, False, 'descendants'))
            else:
                calls = ((get_ancestors(objs[s], max_height=limit), up, True, 'ancestors by distance'), (get_descendants(objs[s], max_depth=limit), down, True, 'descendants by distance'),
                         (get_ancestors(objs[s], distance=False, max_height=limit), up, False, 'ancestors'), (get_descendants(obj=objs[s], distance=False, max_depth=limit), down, False, 'descendants'))
            for got, dist, distance, kind in calls:
                look(f'{kind}, {what}', got, dist, limit, objs, distance)
                ctx.step()
                got.clear()
    if linked.state(objs) != before:
        raise Mismatch(f'the links changed: {before} to {linked.state(objs)}')
    ctx.state((n, links))


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        for links in shapes.digraphs(n):
            for container in ('list', 'tuple', 'generator', 'dict'):
                for order in shapes.few_orders(links):
                    yield (n, order, tuple(range(n)), (None,) + tuple(range(n + 2)), container, linked.Linked)
    for links in shapes.multigraphs(2, 4, 3):
        links = tuple((a, b) for a, b, _ in links)
        for container in ('list', 'generator'):
            yield (2, links, (0, 1), (None, 0, 1, 2, 3), container, linked.Linked)
    for links in shapes.digraphs(3, max_edges=5):
        yield (3, links, (0, 1, 2), (None, 0, 1, 2, 3), 'list', linked.Equal)
        for container in ('list', 'generator'):
            yield (3, links, (0, 1, 2), (None, 0, 1, 2, 3), container, linked.Fresh)
    for links in shapes.digraphs(4, loops=deep):
        yield (4, links, (0, 1, 2, 3) if not deep else (0, 3), (None, 0, 1, 2, 3, 4), 'list', linked.Linked)


def five(tier):
    deep = tier == 'thorough'
    for links in shapes.digraphs(5, loops=False, max_edges=6 if deep else 4):
        yield (5, links, (0, 4), (None, 1, 2, 3, 4), 'list', linked.Linked)


def run_deep(ctx, case):
    with long.usual_recursion():
        run(ctx, case)


def orders(tier):
    deep = tier == 'thorough'
    for links in shapes.digraphs_iso(4, loops=False, max_edges=6 if deep else 5):
        for order in shapes.orders(links, 6 if deep else 5):
            yield (4, order, (0, 1, 2, 3), (None, 1, 2), 'list', linked.Linked)


def families(tier):
    top = 40 if tier == 'thorough' else 16
    for _, n, links in shapes.families(top):
        yield (n, links, tuple(range(n)), (None, 0, 1, 2, n // 2, n - 1, n, n + 1), 'list', linked.Linked)
    for _, n, links in shapes.diamonds(30 if tier == 'thorough' else 12):
        yield (n, links, (0, n // 2, n - 1), (None, 3, n // 2), 'list', linked.Linked)
    for n in (300, 1200):       # far deeper than the recursion limit allows a naive traversal
        path = tuple((i, i + 1) for i in range(n - 1))
        yield (n, path, (0, n // 2, n - 1), (None, 0, 1, 5, n), 'list', linked.Linked)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('small structures', lambda: cases(tier), run, 'every link structure on 1-3 objects (3 orders, 4 containers; objects compared by identity and by value, new views of the relatives at every call), repeated links, on 4 objects %s; every start; no limit and every limit up to one beyond the size' % ('with self-links' if deep else 'without self-links')),
        Cases('orders', lambda: orders(tier), run, 'every order of the links of every 4-object structure up to isomorphism'),
        Cases('five objects', lambda: five(tier), run, 'every link structure on 5 objects with <=%d links' % (6 if deep else 4)),
        Cases('families', lambda: families(tier), run_deep, 'structured families, chains of diamonds, long paths'),
    ]
