"""Graph spaces, as literals: a shape is (names, edges) with edges a tuple of (start, end, id), indexes into names.

Enumerations are complete for their bound; families are complete up to their size."""
import itertools

SCHEMES = {
    'abc': lambda n: tuple('abcdefghijklmnopqrstuvwxyz'[i] if n <= 26 else f'n{i}' for i in range(n)),
    'zyx': lambda n: tuple('zyxwvutsrqponmlkjihgfedcba'[i] if n <= 26 else f'n{n - i}' for i in range(n)),
    'num': lambda n: tuple(str(10 - i) if i < 10 else str(100 + i) for i in range(n)),
    'int': lambda n: tuple((7 * i + 3) % 101 * (1009 if i % 2 else 1) if n <= 101 else i for i in range(n)),
    'pre': lambda n: tuple('x' * (i + 1) if n <= 12 else f'x{i}' for i in range(n)),
}


def again(x):
    """an equal object that is not the same one, as callers give them"""
    if isinstance(x, tuple):
        return tuple(map(again, x))
    if isinstance(x, str):
        return x[:1] + x[1:]
    return int(str(x)) if type(x) is int else x


def names(scheme, n):
    return SCHEMES[scheme](n)


def pairs(n, loops=True):
    return [(i, j) for i in range(n) for j in range(n) if loops or i != j]


def digraphs(n, loops=True, max_edges=None, min_edges=0):
    """every labelled digraph on n nodes, edges in lexicographic order"""
    ps = pairs(n, loops)
    top = len(ps) if max_edges is None else min(max_edges, len(ps))
    for k in range(min_edges, top + 1):
        for c in itertools.combinations(ps, k):
            yield c


def digraphs_iso(n, loops=True, max_edges=None):
    """one digraph per isomorphism class (the first in lexicographic order)"""
    perms = list(itertools.permutations(range(n)))
    seen = set()
    for c in digraphs(n, loops, max_edges):
        if c in seen:
            continue
        for p in perms:
            seen.add(tuple(sorted((p[a], p[b]) for a, b in c)))
        yield c


def orders(edges, limit):
    """all orders of the edges when there are at most `limit` edges, else every rotation of both directions"""
    if len(edges) <= limit:
        return list(itertools.permutations(edges))
    out = []
    for base in (edges, edges[::-1]):
        for k in range(len(base)):
            out.append(base[k:] + base[:k])
    return list(dict.fromkeys(out))


def few_orders(edges):
    """three orders: as given, reversed, by end node"""
    return list(dict.fromkeys([tuple(edges), tuple(edges[::-1]), tuple(sorted(edges, key=lambda e: (e[1], -e[0])))]))


def multigraphs(n, max_edges, max_parallel=2, loops=True):
    """every multigraph with at most max_edges edges; parallel edges get ids None, 'x1', 'y1'"""
    ids = (None, 'x1', 'y1')
    ps = pairs(n, loops)

    def rec(i, left):
        if i == len(ps):
            yield ()
            return
        for k in range(min(max_parallel, left) + 1):
            for rest in rec(i + 1, left - k):
                yield tuple((ps[i][0], ps[i][1], ids[j]) for j in range(k)) + rest
    yield from rec(0, max_edges)


def plain(edges):
    return tuple((a, b, None) for a, b in edges)


def families(top):
    """(name, n, edges) for structured graphs of growing size"""
    for n in range(1, top + 1):
        yield f'path{n}', n, tuple((i, i + 1) for i in range(n - 1))
        yield f'backpath{n}', n, tuple((i + 1, i) for i in range(n - 1))
        yield f'cycle{n}', n, tuple((i, (i + 1) % n) for i in range(n))
        yield f'backcycle{n}', n, tuple(((i + 1) % n, i) for i in range(n))
        yield f'star_out{n}', n, tuple((0, i) for i in range(1, n))
        yield f'star_in{n}', n, tuple((i, 0) for i in range(1, n))
        yield f'edgeless{n}', n, ()
        if n >= 3:
            yield f'cycle_tail{n}', n, tuple((i, (i + 1) % (n // 2 + 1)) for i in range(n // 2 + 1)) + tuple((i, i + 1) for i in range(n // 2, n - 1))
            yield f'tail_cycle{n}', n, tuple((i, i + 1) for i in range(n - 1)) + ((n - 1, n // 2),)
            yield f'tree{n}', n, tuple(((i - 1) // 2, i) for i in range(1, n))
            yield f'intree{n}', n, tuple((i, (i - 1) // 2) for i in range(1, n))
            yield f'shortcuts{n}', n, tuple((i, i + 1) for i in range(n - 1)) + tuple((0, i) for i in range(2, n))
            yield f'skips{n}', n, tuple((i, j) for i in range(n) for j in (i + 1, i + 2) if j < n)
            yield f'loops_path{n}', n, tuple((i, i) for i in range(n)) + tuple((i, i + 1) for i in range(n - 1))
            yield f'two_way_path{n}', n, tuple(e for i in range(n - 1) for e in ((i, i + 1), (i + 1, i)))
        if n >= 4:
            h = n // 2
            yield f'two_cycles{n}', n, tuple((i, (i + 1) % h) for i in range(h)) + tuple((h + i, h + (i + 1) % (n - h)) for i in range(n - h)) + ((0, h),)
            yield f'two_cycles_back{n}', n, ((n - 1, 0),) + tuple((i, (i + 1) % h) for i in range(h)) + tuple((h + i, h + (i + 1) % (n - h)) for i in range(n - h))
            yield f'bipartite{n}', n, tuple((i, j) for i in range(h) for j in range(h, n))
            yield f'fan{n}', n, tuple((0, i) for i in range(1, n - 1)) + tuple((i, n - 1) for i in range(1, n - 1))
            yield f'ladder{n}', n, tuple((i, i + 2) for i in range(n - 2)) + tuple((i, i + 1) for i in range(0, n - 1, 2))
            yield f'crossed{n}', n, tuple(sorted({(i, (i * 2 + 1) % n) for i in range(n)} | {(i, (i * 3 + 2) % n) for i in range(n)}))
    for n in range(3, min(top, 7) + 1):
        yield f'dag{n}', n, tuple((i, j) for i in range(n) for j in range(i + 1, n))
        yield f'backdag{n}', n, tuple((j, i) for i in range(n) for j in range(i + 1, n))
    for n in range(3, min(top, 6) + 1):
        yield f'complete{n}', n, tuple((i, j) for i in range(n) for j in range(n))


def diamonds(top):
    """chains of k diamonds: 3k+1 nodes, exponentially many paths"""
    for k in range(1, top + 1):
        edges = []
        for i in range(k):
            a = 3 * i
            edges += [(a, a + 1), (a, a + 2), (a + 1, a + 3), (a + 2, a + 3)]
        yield f'diamonds{k}', 3 * k + 1, tuple(edges)


def large(scale):
    """(n, edges): a few regular graphs beyond the sizes of the families; chains are shorter, as queries take cubic time on them"""
    def size(n):
        return max(3, int(n * scale))
    n = size(40)
    yield n, tuple((i, i + 1) for i in range(n - 1))
    yield n, tuple((i + 1, i) for i in range(n - 1))[::-1]
    n = size(36)
    yield n, tuple((i, (i + 1) % n) for i in range(n))
    n = size(75)  # wide on two levels, and back to the beginning
    yield 2 * n + 1, tuple((0, i) for i in range(1, n + 1)) + tuple((i, n + i) for i in range(1, n + 1))
    yield 2 * n + 1, tuple((i, 0) for i in range(1, n + 1)) + tuple((n + i, i) for i in range(1, n + 1))
    yield n + 1, tuple((0, i) for i in range(1, n + 1)) + tuple((i, 0) for i in range(n, 0, -2))
    n = size(181)
    yield n, tuple(((i - 1) // 3, i) for i in range(1, n))
    yield n, tuple(((i - 1) // 5, i) for i in range(1, n))[::-1] + ((n - 1, 0),)
    n = size(127)
    yield n, tuple(((i - 1) // 2, i) for i in range(1, n))
    yield n, tuple((i, (i - 1) // 2) for i in range(1, n))
    n = size(120)
    yield n, tuple((0, i) for i in range(1, n))
    yield n, tuple((i, 0) for i in range(1, n))
    yield n, tuple((i, i + 1) for i in range(0, n - 1, 2))
    yield n - n % 3, tuple((3 * i + k, 3 * i + (k + 1) % 3) for i in range(n // 3) for k in range(3))
    yield size(300), ()
    n = size(7)
    yield n * n, tuple((n * i + j, n * i + j + 1) for i in range(n) for j in range(n - 1)) + tuple((n * i + j, n * i + j + n) for i in range(n - 1) for j in range(n))
    n = size(60)
    yield n, tuple(sorted({(i, (i * 2 + 1) % n) for i in range(n)} | {(i, (i * 3 + 2) % n) for i in range(n)}))
    h = n // 2
    yield 2 * h, tuple((i, i + 1) for i in range(h - 1)) + tuple((i, h + i) for i in range(h))
    n = size(14)
    yield n, tuple((i, j) for i in range(n) for j in range(n))
    yield n, tuple((i, j) for i in range(n) for j in range(i + 1, n))
    yield 2 * n, tuple((i, j) for i in range(n) for j in range(n, 2 * n))
