"""Linked objects for from_object and the object traversal (C16, C17)."""
import copy


class Linked:
    """an object with parents and children; __str__ differs from the hash"""

    def __init__(self, k, container='list', text=None, number=None):
        self.k = k
        self.text = f'object {k}' if text is None else text
        self.number = 100 + 7 * k if number is None else number
        self.up, self.down = [], []
        self.container = container

    def _give(self, items):
        if self.container == 'list':
            return items            # the object's own list, which must not be changed
        if self.container == 'tuple':
            return tuple(items)
        if self.container == 'generator':
            return (x for x in items)
        if self.container == 'dict':
            return {x: 1 for x in items}.keys()
        return list(items)

    def __parents__(self):
        return self._give(self.up)

    def __children__(self):
        return self._give(self.down)

    def __hash__(self):
        return self.number

    def __str__(self):
        return self.text


class Equal(Linked):
    """compares by value"""

    def __eq__(self, other):
        return isinstance(other, Equal) and self.number == other.number

    __hash__ = Linked.__hash__


class Fresh(Equal):
    """hands out new views of its relatives whenever it is asked; views of the same object are equal"""

    def _give(self, items):
        return super()._give([copy.copy(x) for x in items])


def make(n, links, container='list', cls=Linked, texts=None, numbers=None):
    objs = [cls(k, container, texts[k] if texts else None, numbers[k] if numbers else None) for k in range(n)]
    for a, b in links:
        objs[a].down.append(objs[b])
        objs[b].up.append(objs[a])
    return objs


def state(objs):
    return [(o.k, [x.k for x in o.up], [x.k for x in o.down], o.text, o.number) for o in objs]


def shortest(n, links, start, forward):
    """object -> length of the shortest chain of links, without the start"""
    near = {i: [] for i in range(n)}
    for a, b in links:
        if forward:
            near[a].append(b)
        else:
            near[b].append(a)
    dist, level, d = {start: 0}, [start], 0
    while level:
        d += 1
        nxt = []
        for x in level:
            for y in near[x]:
                if y not in dist:
                    dist[y] = d
                    nxt.append(y)
        level = nxt
    del dist[start]
    return dist


def within(dist, limit):
    return {x for x, d in dist.items() if limit is None or d <= limit}
