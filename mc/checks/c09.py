"""C09: the tree text shows every node and every edge exactly once and terminates."""
import itertools
import re

from .. import long, observe, shapes, structural
from ..core import Cases, expect

ASSUMPTIONS = ['where the text is read back, labels are without line breaks, tree glyphs or trailing asterisks; other labels are exchanged for plain ones']


def check(ctx, g, r):
    return observe.check_trees(g, r)


LABELS = (None, 'L', 'b', 'a long label: with - signs', 12)


def label_cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2):
        for edges in shapes.digraphs(n):
            for labels in itertools.product(LABELS, repeat=n):
                yield (n, shapes.plain(edges), labels)
    for edges in shapes.digraphs(3):
        for labels in (itertools.product(LABELS[:4], repeat=3) if deep else (('L',) * 3, ('b', 'c', 'a'), (None, 'L', 'L'), ('b', None, 12), (12, 'b', 'b'))):
            yield (3, shapes.plain(edges), labels)
    for _, n, edges in shapes.families(13):
        yield (n, shapes.plain(edges), ('L',) * n)
        yield (n, shapes.plain(edges), tuple('xy'[k % 2] for k in range(n)))


def run_labels(ctx, case):
    n, edges, labels = case
    names = shapes.names('abc', n)
    attrs = [{} if x is None else {'label': x} for x in labels]
    g, r = observe.build(names, edges, attrs=attrs), observe.ref(names, edges, attrs=attrs)
    ctx.step(n + len(edges))
    ctx.outcome(observe.check_trees(g, r))
    ctx.state(r.key())
    # labels given later, and taken over by a copy
    h = observe.build(names, edges)
    for x, label in zip(names, labels):
        if label is not None:
            h.get_node(x).label = label
            ctx.step()
    observe.check_trees(h, r)
    observe.check_trees(h.copy(), r)


# labels that cannot be read back: the text is that of the same graph with plain labels, with the labels exchanged ------------------

ODD = (' ', '*', 'x*', '\u2514 x', '\u2502', 'two\nlines', '\n', '  x', 'x ', '\t', '{0}', '%s', '', '\u251c \u2514', 'x' * 300)


def odd_cases(tier):
    deep = tier == 'thorough'
    for where in ('label', 'name', 'later'):
        for n in (1, 2):
            for edges in shapes.digraphs(n):
                for labels in itertools.permutations(ODD, n):
                    yield (n, shapes.plain(edges), labels, where)
        for i, edges in enumerate(shapes.digraphs(3, max_edges=9 if deep else 4)):
            for k in range(len(ODD) if deep else 3):
                yield (3, shapes.plain(edges), tuple(ODD[(i + k * 5 + j * 4) % len(ODD)] for j in range(3)), where)
        for i, (_, n, edges) in enumerate(shapes.families(13 if deep else 9)):
            yield (n, shapes.plain(edges), tuple(ODD[(i + j * 7) % len(ODD)] + (str(j) if j >= len(ODD) else '') for j in range(n)), where)


def run_odd(ctx, case):
    n, edges, labels, where = case
    names = list(labels) if where == 'name' else shapes.names('abc', n)
    marks = [f'<{j}>' for j in range(n)]
    plain = observe.build(names, edges, attrs=[{'label': x} for x in marks])
    if where == 'label':
        g = observe.build(names, edges, attrs=[{'label': x} for x in labels])
    else:
        g = observe.build(names, edges)
        if where == 'later':
            for x, label in zip(names, labels):
                g.get_node(x).label = label
    shown = [str(x) if x else str(name) for x, name in zip(labels, names)]

    def exchanged(text):
        return re.sub(r'<(\d+)>', lambda m: shown[int(m.group(1))], text)
    expect('tree of the graph', g.get_tree_str(), exchanged(plain.get_tree_str()))
    for x in names:
        expect(f'tree of {x!r}', g.get_node(x).get_tree_str(), exchanged(plain.get_node(x).get_tree_str()))
        ctx.step()
    expect('tree of the copy', g.copy().get_tree_str(), g.get_tree_str())
    ctx.outcome(g.get_tree_str())
    ctx.state(case)


def stages(tier):
    out = structural.stages(check, tier, ('trees',), more=lambda t: all(str(x).strip(' *') == str(x) != '' for x in t))
    out.append(Cases('labels', lambda: label_cases(tier), run_labels, 'every digraph on 1-2 nodes with every choice of %d labels, on 3 nodes with %s, families with equal labels' % (len(LABELS), 'every choice of 4' if tier == 'thorough' else '5 choices')))
    out.append(Cases('labels that cannot be read back', lambda: odd_cases(tier), run_odd, f'{len(ODD)} odd labels or names (blank, tree glyphs, asterisks, line breaks) on all digraphs on 1-2 nodes, on 3 nodes and families in rotation; compared with the same graph under plain labels'))
    out.append(long.stage(long.tree))
    return out
