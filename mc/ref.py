"""Reference model of a directed multigraph with attributes. Deliberately boring."""
import copy

ATTRS = ('label', 'value', 'tooltip', 'style')


class RObj:
    def __init__(self, label=None, value=None, tooltip=None, style=None, params=None):
        self.label, self.value, self.tooltip, self.style = label, value, tooltip, style
        self.params = dict(params or {})
        self.frozen = False

    def attrs(self):
        return (self.label, self.value, self.tooltip, self.style, tuple(sorted(self.params.items())), self.frozen)


class RNode(RObj):
    def __init__(self, name, **kw):
        super().__init__(**kw)
        self.name = name


class REdge(RObj):
    def __init__(self, start, end, id, **kw):
        super().__init__(**kw)
        self.start, self.end, self.id = start, end, id

    @property
    def key(self):
        return (self.start, self.end, self.id)


class RGraph:
    def __init__(self, strict=False, ordering=True, overwrite=False):
        self.nodes = {}
        self.edges = {}
        self.strict, self.ordering, self.overwrite = strict, ordering, overwrite
        self.created = 0

    # construction
    def add(self, name, **kw):
        assert name not in self.nodes
        self.nodes[name] = RNode(name, **kw)
        self.nodes[name].seq = self.created
        self.created += 1
        return self.nodes[name]

    def connect(self, start, end, id=None, **kw):
        assert start in self.nodes and end in self.nodes and (start, end, id) not in self.edges
        e = REdge(start, end, id, **kw)
        self.edges[e.key] = e
        return e

    def remove(self, name):
        for key in [k for k in self.edges if name in (k[0], k[1])]:
            del self.edges[key]
        return self.nodes.pop(name)

    def disconnect(self, key):
        return self.edges.pop(key)

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        """a value that identifies the state"""
        return (tuple((n, r.attrs()) for n, r in self.nodes.items()),
                tuple((k, r.attrs()) for k, r in self.edges.items()), self.strict, self.ordering)

    # structure
    def out_keys(self, n):
        return [k for k in self.edges if k[0] == n]

    def in_keys(self, n):
        return [k for k in self.edges if k[1] == n]

    def children(self, n):
        return [k[1] for k in self.edges if k[0] == n]

    def parents(self, n):
        return [k[0] for k in self.edges if k[1] == n]

    def adjacency(self):
        succ = {n: [] for n in self.nodes}
        pred = {n: [] for n in self.nodes}
        for s, e, _ in self.edges:
            succ[s].append(e)
            pred[e].append(s)
        return succ, pred


def distances(start, neighbours):
    """distance -> set of nodes, the start included only if it lies on a cycle (by its shortest cycle)"""
    dist = {}
    level, d = [start], 0
    while level:
        d += 1
        nxt = []
        for x in level:
            for y in neighbours[x]:
                if y not in dist:
                    dist[y] = d
                    nxt.append(y)
        level = nxt
    return dist


def closure(neighbours):
    return {n: set(distances(n, neighbours)) for n in neighbours}


class Facts:
    """Everything the structural queries should answer, computed from the edge list alone."""

    def __init__(self, r):
        self.r = r
        self.succ, self.pred = r.adjacency()
        self.ddist = {n: distances(n, self.succ) for n in r.nodes}
        self.adist = {n: distances(n, self.pred) for n in r.nodes}
        self.reach = {n: set(d) for n, d in self.ddist.items()}

    def descendants(self, n):
        return self.reach[n] - {n}

    def ancestors(self, n):
        return set(self.adist[n])

    def in_loop(self, n):
        return n in self.reach[n]

    def same_loop(self, a, b):
        return b in self.reach[a] and a in self.reach[b]

    def descendants_by_distance(self, n):
        return self._group({m: d for m, d in self.ddist[n].items() if m != n})

    def ancestors_by_distance(self, n):
        return self._group(self.adist[n])

    @staticmethod
    def _group(dist):
        result = {}
        for m, d in dist.items():
            result.setdefault(d, set()).add(m)
        return result

    def siblings(self, n):
        return {c for p in self.pred[n] for c in self.succ[p]} - {n}

    def spouses(self, n):
        return {p for c in self.succ[n] for p in self.pred[c]} - {n}

    def roots(self):
        """the first added node of every group of mutually reachable nodes without parents outside"""
        result, done = [], set()
        for n in self.r.nodes:
            if n in done:
                continue
            group = {n} | {m for m in self.reach[n] if n in self.reach[m]}
            done |= group
            if all(p in group for g in group for p in self.pred[g]):
                result.append(n)
        return result

    def absolute_roots(self):
        return [n for n in self.r.nodes if not self.pred[n]]

    def leaves(self):
        return [n for n in self.r.nodes if not self.succ[n]]

    def loop_nodes(self):
        return [n for n in self.r.nodes if self.in_loop(n)]

    def unfolding(self, starts, label):
        """[(level, label, starred)] of the depth-first unfolding; expanded nodes are shared between starts"""
        expanded, out = set(), []

        def visit(n, level):
            if n in expanded:
                out.append((level, label(n), True))
                return
            out.append((level, label(n), False))
            if self.succ[n]:
                expanded.add(n)
                for c in self.succ[n]:
                    visit(c, level + 1)
        for s in starts:
            visit(s, 0)
        return out
