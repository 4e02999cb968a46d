"""C19: random graphs under a controlled source of randomness: every outcome of the draws."""
import itertools
import random
import sys

from abstract import Graph

from .. import observe
from ..core import Cases, Mismatch, expect
from .. import core

ASSUMPTIONS = ["the random numbers come from Python's random module (otherwise only the stages with real seeds say something)"]

REAL = {'random': random.random, 'uniform': random.uniform, 'Random': random.Random, 'SystemRandom': random.SystemRandom}


class Dice:
    """replaces the random source by a script of numbers in [0, 1); remembers how many were drawn"""

    def __init__(self, script, default=0.999):
        self.script, self.default = script, default
        self.drawn = 0

    def draw(self):
        i = self.drawn
        self.drawn += 1
        if callable(self.script):
            return self.script(i)
        return self.script[i] if i < len(self.script) else self.default

    def uniform(self, a, b):
        return a + (b - a) * self.draw()

    def __enter__(self):
        dice = self

        class Scripted(REAL['Random']):
            def random(self):
                return dice.draw()

            def uniform(self, a, b):
                return dice.uniform(a, b)

        self.swapped = []
        new = {'random': lambda: dice.draw(), 'uniform': lambda a, b: dice.uniform(a, b), 'Random': Scripted, 'SystemRandom': Scripted}
        for k, v in new.items():
            self.swap(vars(random), k, v)
        for name, m in list(sys.modules.items()):
            if m is not None and (name == 'abstract' or name.startswith('abstract.')):
                for k, v in list(vars(m).items()):
                    for r, old in REAL.items():
                        if v is old:
                            self.swap(vars(m), k, new[r])
        return self

    def swap(self, space, key, value):
        self.swapped.append((space, key, space[key]))
        space[key] = value

    def __exit__(self, *exc):
        for space, key, old in reversed(self.swapped):
            space[key] = old
        return False


def roll(script, n, **kw):
    with Dice(script) as d:
        g = Graph.random(n, **kw)
    return g, d.drawn


def structure(g, n, start, cycle, what):
    names = [str(i + start) for i in range(n)]
    expect(what + 'nodes', [x.name for x in g.nodes], names)
    keys = [e.id for e in g.edges]
    pairs = [(a, b) for a, b, _ in keys]
    if len(set(pairs)) != len(pairs):
        raise Mismatch(f'{what}two edges for one ordered pair: {pairs}')
    for a, b in pairs:
        if a not in names or b not in names:
            raise Mismatch(f'{what}edge {a, b} between unknown nodes')
        if not cycle and int(a) >= int(b):
            raise Mismatch(f'{what}edge {a, b} does not lead to a higher number')
    expect(what + 'edge list', sorted(pairs), sorted((x.name, y.name) for x in g.nodes for y in x.children))
    if not cycle and g.loop_nodes:
        raise Mismatch(f'{what}the graph has a loop')
    return set(pairs)


def possible(n, start, cycle):
    names = [i + start for i in range(n)]
    return {(str(a), str(b)) for a in names for b in names if cycle or a < b}


def owners(ctx, n, kw, what):
    """which draw decides which pair: every draw misses but one"""
    start, cycle = kw.get('start_index', 1), kw.get('cycle', False)
    g, drawn = roll(lambda i: 1 - 2 ** -53, n, **kw)
    expect(what + 'edges when every draw misses', structure(g, n, start, cycle, what), set())
    owner = []
    for k in range(drawn):
        g, again = roll(lambda i: 0.0 if i == k else 1 - 2 ** -53, n, **kw)
        ctx.step()
        expect(what + 'number of draws', again, drawn)
        got = structure(g, n, start, cycle, what)
        if len(got) > 1:
            raise Mismatch(f'{what}one draw decides the edges {got}')
        owner.append(next(iter(got)) if got else None)
    if drawn:
        found = [x for x in owner if x is not None]
        expect(what + 'pairs decided by exactly one draw', sorted(found), sorted(possible(n, start, cycle)))
    return owner


def options(tier):
    for cycle in (False, True):
        for start in (1, 0, -1, 8, 99):
            for p in (0.5, 0.25, 0.01, 0.99):
                for extra in ((), (('strict', True),), (('ordering', False),), (('seed', 5),)):
                    yield (('cycle', cycle), ('start_index', start), ('connection_probability', p)) + extra


def outcome_cases(tier):
    deep = tier == 'thorough'
    for opts in options(tier):
        for n in (0, 1, 2, 3):
            plain = len(opts) == 3 and opts[1][1] in (1, 8)
            yield (n, opts, plain or n < 3, 0, 1)
    for p in (1 / 3, 0.123456789, 1e-6, 1 - 1e-6, 0.3333, 0.995, 0.0049, 0.1 + 0.2):
        for cycle in (False, True):
            for start in (1, -2, 10 ** 6, 2 ** 61 - 2, 10 ** 20, 9, 98, -10 ** 9):
                for n in (2, 3):
                    yield (n, (('cycle', cycle), ('start_index', start), ('connection_probability', p)), not cycle or n == 2, 0, 1)
    for opts in ((('cycle', True),), (('cycle', False),), ()):
        parts = 16
        for part in range(parts):
            if deep:
                yield (4, opts, True, part, parts)
        if not deep:
            yield (4, opts, False, 0, 1)
            yield (5, opts, False, 0, 1)


def run_outcomes(ctx, case):
    n, opts, every, part, parts = case
    kw = dict(opts)
    p = kw.get('connection_probability', 0.5)
    start, cycle = kw.get('start_index', 1), kw.get('cycle', False)
    what = f'{n} nodes, {kw}: '
    owner = owners(ctx, n, kw, what)
    if not owner:
        ctx.count('draws not seen' if possible(n, start, cycle) else 'nothing to draw')
        return
    below, above = [0.0, p / 2, p - 1e-9], [p, p + 1e-9, (p + 1) / 2, 1 - 2 ** -53]
    if every:
        count = 0
        for hits in itertools.product((False, True), repeat=len(owner)):
            count += 1
            if count % parts != part:
                continue
            script = [(below if h else above)[(count + i) % (3 if h else 4)] for i, h in enumerate(hits)]
            verdict(ctx, n, kw, what, owner, script, hits)
    else:
        for hits in patterns(len(owner)):
            for shift in range(4):
                script = [(below if h else above)[(shift + i) % (3 if h else 4)] for i, h in enumerate(hits)]
                verdict(ctx, n, kw, what, owner, script, hits)
    ctx.state(case)


def patterns(d):
    """every outcome with at most two hits or at most two misses"""
    for k in (0, 1, 2):
        for c in itertools.combinations(range(d), k):
            for inside in (True, False):
                yield tuple((i in c) == inside for i in range(d))


def verdict(ctx, n, kw, what, owner, script, hits):
    g, drawn = roll(script, n, **kw)
    ctx.step()
    got = structure(g, n, kw.get('start_index', 1), kw.get('cycle', False), what)
    wanted = {o for o, h in zip(owner, hits) if h and o is not None}
    if got != wanted or drawn != len(owner):
        raise Mismatch(f'{what}draws {script} gave {sorted(got)}, expected {sorted(wanted)}')
    ctx.outcome((n, sorted(got)))
    d = g.__graph__()
    expect(what + 'strict', bool(d['strict']), bool(kw.get('strict', False)))
    expect(what + 'ordering', bool(d['ordering']), bool(kw.get('ordering', True)))
    expect(what + 'strict in the source', observe.parse_source(g.get_graphviz_str()).strict, bool(kw.get('strict', False)))


def certain_cases(tier):
    for n in (0, 1, 2, 3, 5, 12):
        for cycle in (False, True):
            for start in (1, 0, -3, 7):
                for p in (0, 0.0, -0.5, -7, 1, 1.0, 1.5, 100):
                    yield (n, cycle, start, p)
    for n, start in ((3, 10 ** 6), (3, 10 ** 20), (4, -10 ** 9), (12, 95), (40, 1), (18, -13)):
        for cycle in (False, True):
            for p in (0, 1, True, False, float('inf'), -float('inf')):
                if n < 13 or p <= 0 or (n < 20 and not cycle):
                    yield (n, cycle, start, p)


def run_certain(ctx, case):
    """probabilities 0 and 1 (and beyond) whatever is drawn, and with real seeds"""
    n, cycle, start, p = case
    wanted = possible(n, start, cycle) if p >= 1 else set()
    kw = dict(cycle=cycle, start_index=start, connection_probability=p)
    for script in (lambda i: 0.0, lambda i: 1 - 2 ** -53, lambda i: (i * 37 % 100) / 100):
        g, _ = roll(script, n, **kw)
        expect(f'edges for {kw}', structure(g, n, start, cycle, ''), wanted)
        ctx.step()
    for seed in (None,) + tuple(range(20)):
        g = Graph.random(n, seed=seed, **kw)
        expect(f'edges for {kw}, seed {seed}', structure(g, n, start, cycle, ''), wanted)
        ctx.step()
    ctx.state(case)


def size_cases(tier):
    for n in (30, 40, 66) + ((130,) if tier == 'thorough' else ()):
        for cycle in (False, True):
            for start in (1, -n // 2):
                for p in (0, 1, 2):
                    yield (n, cycle, start, p)


def run_size(ctx, case):
    """many nodes, all or none of the edges"""
    n, cycle, start, p = case
    g = Graph.random(n, cycle=cycle, start_index=start, connection_probability=p)
    names = [str(i + start) for i in range(n)]
    expect('nodes', list(g.nodes_dict), names)
    wanted = {}
    for a, b in possible(n, start, cycle) if p else ():
        wanted.setdefault(a, set()).add(b)
    total = 0
    for x in names:
        ends = [k[1] for k in g.get_node(x).outward_edge_ids]
        expect(f'edges from {x}', sorted(ends), sorted(wanted.get(x, ())))
        total += len(ends)
        ctx.step()
    expect('edges arriving', sum(len(g.get_node(x).inward_edge_ids) for x in names), total)
    ctx.state(case)


class Sub(Graph):
    pass


def seed_cases(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3, 5, 9):
        for cycle in (False, True):
            for p in (0.1, 0.5, 0.9):
                for seed in list(range(60 if deep else 12)) + [-1, 10 ** 12, 'word', 1.5, '', True, b'x', 2 ** 70, -2 ** 70]:
                    yield (n, cycle, p, seed)
    for n in (13, 19):
        for seed in (0, 7, 'word'):
            yield (n, False, 0.3, seed)


def run_seed(ctx, case):
    """the same seed and parameters, in whatever state the random module is"""
    n, cycle, p, seed = case
    results = []
    for before in (None, 0, 1, 12345):
        if before is not None:
            random.seed(before)
            for _ in range(before % 7):
                random.random()
        state = random.getstate()
        g = Graph.random(n, cycle=cycle, connection_probability=p, seed=seed)
        if random.getstate() != state:
            raise Mismatch(f'drawing a graph with seed {seed} changes the random numbers drawn by others')
        structure(g, n, 1, cycle, f'{case}: ')
        results.append((g.get_graphviz_str(), [e.id for e in g.edges], g.render(view=False).source))
        ctx.step()
    g = Sub.random(num_nodes=n, cycle=cycle, connection_probability=p, seed=seed, strict=False, start_index=1, ordering=True)
    if type(g) is not Sub:
        raise Mismatch(f'a {type(g).__name__}')
    results.append((g.get_graphviz_str(), [e.id for e in g.edges], g.render(view=False).source))
    for r in results[1:]:
        if r != results[0]:
            raise Mismatch(f'seed {seed}: {r[1]} and {results[0][1]}')
    ctx.state(case)
    ctx.outcome(results[0][1])


def variety_cases(tier):
    yield ('variety',)


def run_variety(ctx, case):
    """without a script: over seeds 0-399 every one of the edge sets on 2-3 nodes occurs (so the seed is used)"""
    for n, cycle in ((2, False), (3, False), (2, True)):
        seen = set()
        for seed in range(400):
            g = Graph.random(n, cycle=cycle, seed=seed)
            seen.add(frozenset(structure(g, n, 1, cycle, '')))
            ctx.step()
        expect(f'edge sets seen with {n} nodes, cycles {cycle}', len(seen), 2 ** len(possible(n, 1, cycle)))
        ctx.count('edge sets', len(seen))


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('every outcome of the draws', lambda: outcome_cases(tier), run_outcomes, 'up to 3 nodes: all 2^d hit patterns (values on both sides of and at the probability); 4%s nodes: %s' % (('', 'all 65536') if deep else ('-5', 'all with at most 2 hits or 2 misses')), chunk=1),
        Cases('certain probabilities', lambda: certain_cases(tier), run_certain, 'probabilities at and beyond 0 and 1, up to 18 nodes (40 without edges), 3 scripts and 21 seeds'),
        Cases('many nodes', lambda: size_cases(tier), run_size, 'up to %d nodes with all or none of the edges' % (130 if deep else 66)),
        Cases('seeds', lambda: seed_cases(tier), run_seed, 'seeds, sizes, probabilities; 4 states of the random module'),
        Cases('variety', lambda: variety_cases(tier), run_variety, '400 seeds: all edge sets occur'),
    ]
