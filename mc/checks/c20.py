"""C20: the generated source, read back by an independent parser (itself compared with Graphviz when installed)."""
import itertools
import json
import re
import shutil
import subprocess
from decimal import Decimal
from fractions import Fraction

from abstract import Graph
from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle

from .. import dot, observe, shapes, structural
from ..core import Cases, HarnessError, Mismatch, expect
from ..ref import RGraph

ASSUMPTIONS = ['names, labels and tooltips are printable as Unicode text without NUL', 'the text of different names is different (not 1 and "1")',
               'a backslash in a label or tooltip has the meaning Graphviz gives it']

STRINGS = [
    '', ' ', '  ', 'a b', '"', '""', '"a"', 'a"b', '"a', 'a"', '\\', '\\\\', '\\\\\\', 'a\\', 'a\\\\', '\\"', '\\\\"', 'a\\"b', '"\\', '\\n', 'a\\nb', 'a\\lb', 'a\\rb',
    '\\N', '\\G', '\\x', 'C:\\dir', 'C:\\new\\"x"', '\n', 'a\nb', '\\\n', 'a\\\nb', '\t', 'a\tb', '<', '>', '<>', '<b>x</b>', '<b>', '>x<', 'a<b', '&', '&amp;', '&lt;', '&#34;',
    'node', 'edge', 'graph', 'digraph', 'subgraph', 'strict', 'NODE', 'G', 'label', '->', '--', 'a -> b', 'a;b', ';', ',', '=', '{', '}', '{}', '[', ']', '[x=1]', '];', '"];', '"; x [y=1]; "',
    ':', 'a:b', 'a:n', '#', '#x', '\n#x', '//', '//x', '/*', '*/', '/*x*/', '+', '"+"', '"a" + "b"', '0', '1', '-1', '1.5', '.5', '1.', '1e5', '_', 'a_b', "'", "it's", '`', '%', '%s', '{0}', '$x', '|', '~', '@',
    '\u00e9', '\u00fc\u00df', '\u65e5\u672c\u8a9e', '\u05e9\u05dc\u05d5\u05dd', '\U0001f600', '\u00a0', '\u2028', '\u200b', '\x7f', '\x01', '\ufeff', 'None', 'True', 'null', 'x' * 300,
    '\r', '\r\n', 'a\r\nb', '\x0b', '\x85', '\u2029', 'e\u0301', 'x' * 5000, '"' * 200, '\\' * 63, '\\' * 200, 'a "quoted" text ' * 40, 'line\n' * 100, '<' * 50 + '>' * 50, 'x' * 127 + '"', 'x' * 255 + '\\', '\u00e9' * 200, '\\n' * 150,
]


def shout(text):
    return str(text).upper()


def brackets(text):
    return f'<"{text}">'


def double(text):
    return f'{text}\n{text}\\n'


def number(text):
    return len(str(text))


CONVERTERS = {'none': None, 'shout': shout, 'brackets': brackets, 'double': double, 'number': number}


class Thing:
    def __str__(self):
        return 'a "thing"\\'


VALUES = [0, 1, -1, 2.5, True, False, 10 ** 30, 1e-9, float('inf'), [1, 'a'], ['"'], (1, 2), {'k': '"v"'}, {1}, b'x', Thing(), None, '', 'text', '"', '\\', Exception('e'),
          1.0, 0.0, -0.0, Decimal('1.00'), Fraction(1), (True, 2.0), Decimal(0), 1 + 0j, frozenset({1}), frozenset({True})]    # equal to others, and shown differently


def build(spec):
    """spec: (node converter, edge converter, strict, nodes ((name, attrs)), edges ((start, end, id, attrs)))"""
    nc, ec, strict, nodes, edges = spec
    g = Graph(node_label_converter=CONVERTERS[nc], edge_label_converter=CONVERTERS[ec], strict=strict)
    r = RGraph(strict=strict)
    for n, a in nodes:
        g.add_node(n, **dict(a))
        r.add(n, **dict(a))
    for s, e, i, a in edges:
        g.connect(s, e, id=i, **dict(a))
        r.connect(s, e, i, **dict(a))
    return g, r


def value(a):
    """attributes of a spec; a value may be given as an index into VALUES"""
    return tuple((k, VALUES[v[1]] if isinstance(v, tuple) and v[0] == 'value' else v) for k, v in a)


def run(ctx, case):
    nc, ec, strict, nodes, edges = case
    spec = (nc, ec, strict, tuple((n, value(a)) for n, a in nodes), tuple((s, e, i, value(a)) for s, e, i, a in edges))
    g, r = build(spec)
    kw = dict(node_label=CONVERTERS[nc], edge_label=CONVERTERS[ec])
    observe.check_source(g, r, **kw)
    ctx.step()
    text = g.render(view=False).source
    p = observe.check_source(g, r, text=text, **kw)
    if g.get_graphviz_str().rstrip('\n') != text.rstrip('\n'):
        raise Mismatch('the text of the graph differs from the rendered source')
    for name, a in p.nodes.items():
        if 'shape' not in a or 'fillcolor' not in a:
            raise Mismatch(f'{name!r} is rendered without its style: {a}')
    for s, e, a in p.edges:
        if 'color' not in a or 'penwidth' not in a:
            raise Mismatch(f'edge {s!r} to {e!r} is rendered without its style: {a}')
    ctx.step()
    ctx.state(case)
    ctx.outcome(text)


N = ('none', 'none', False)


def single_cases(tier):
    for s in STRINGS:
        plain = (('a', ()), ('b', ()))
        yield N + (((s, ()),), ())
        yield N + (((s, ()), ('other', ())), ((s, 'other', None, ()), ('other', s, None, ()), (s, s, None, ())))
        yield N + ((('a', (('label', s),)), ('b', ())), (('a', 'b', None, ()),))
        yield N + ((('a', (('tooltip', s),)), ('b', ())), (('a', 'b', None, ()),))
        yield N + (plain, (('a', 'b', None, (('label', s),)),))
        yield N + (plain, (('a', 'b', None, (('value', s),)),))
        yield N + (plain, (('a', 'b', None, (('tooltip', s),)),))
        yield N + (plain, (('a', 'b', s, ()), ('a', 'b', None, ())))
        yield N + ((('a', (('label', s), ('tooltip', s), ('value', s))), (s, (('label', s), ('tooltip', s)))), ((s, 'a', s, (('label', s), ('tooltip', s), ('value', s))), ('a', s, None, (('value', s),))))


def pair_cases(tier):
    pool = STRINGS if tier == 'thorough' else [s for s in STRINGS if len(s) < 6 and (len(s) < 3 or any(c in s for c in '"\\<{[;'))]
    for s, t in itertools.product(pool, repeat=2):
        if s != t:
            yield N + (((s, ()), (t, ())), ((s, t, None, ()), (t, t, None, ()), (s, t, 'x', ())))
        yield N + (((s, (('label', t),)), ('zz', (('label', s), ('tooltip', t)))), ((s, 'zz', None, (('label', s), ('value', t), ('tooltip', t))), (s, s, None, (('value', t), ('tooltip', s)))))


def value_cases(tier):
    for i in range(len(VALUES)):
        for label in (None, 'L', ''):
            attrs = (('value', ('value', i)),) + ((('label', label),) if label is not None else ())
            for ec in CONVERTERS:
                yield ('none', ec, False, (('a', attrs), ('b', ())), (('a', 'b', None, attrs), ('b', 'a', None, ()), ('a', 'a', 'x', attrs)))
    for i, j in itertools.product(range(len(VALUES)), repeat=2):
        yield N + ((('a', ()), ('b', ())), (('a', 'b', None, (('value', ('value', i)),)), ('a', 'b', 'x', (('value', ('value', j)),)), ('b', 'b', None, (('value', ('value', i)),))))
    for name in (0, 1, -5, 10 ** 20, True):
        yield N + (((name, ()), ('b', ())), ((name, 'b', None, ()), (name, name, 0, ())))


def converter_cases(tier):
    for nc, ec in itertools.product(CONVERTERS, repeat=2):
        for s in STRINGS[:-1]:
            yield (nc, ec, False, ((s, ()), ('a', (('label', s),)), ('b1', (('tooltip', s),))),
                   ((s, 'a', None, (('label', s),)), ('a', 'b1', None, (('value', s),)), ('b1', 'b1', None, (('tooltip', s),)), ('a', 'a', None, ())))


def words(alphabet, top):
    for n in range(top + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield ''.join(w)


def word_cases(tier):
    """every word over the dangerous characters, all words of one length in one graph as names, and as labels"""
    deep = tier == 'thorough'
    for alphabet, top in ((('\\', '"', 'n'), 6 if deep else 5), (('\\', '"', '\n', 'a'), 5 if deep else 4), (('<', '>', '"', '\\', '&', ';', ' '), 4 if deep else 3)):
        for n in range(top + 1):
            pool = [''.join(w) for w in itertools.product(alphabet, repeat=n)]
            for k in range(0, len(pool), 60):
                part = pool[k:k + 60]
                yield ('names', tuple(part))
                yield ('labels', tuple(part))


def run_words(ctx, case):
    how, part = case
    g, r = Graph(), RGraph()
    if how == 'names':
        for w in part:
            g.add_node(w)
            r.add(w)
        for s, t in zip(part, part[1:] + part[:1]):
            g.connect(s, t)
            r.connect(s, t)
    else:
        for i, w in enumerate(part):
            g.add_node(f'n{i}', label=w, tooltip=w)
            r.add(f'n{i}', label=w, tooltip=w)
        for i, w in enumerate(part):
            j = (i + 1) % len(part)
            a = dict(label=w) if i % 2 else dict(value=w)
            g.connect(f'n{i}', f'n{j}', tooltip=w, **a)
            r.connect(f'n{i}', f'n{j}', tooltip=w, **a)
    observe.check_source(g, r)
    ctx.step(len(part))
    ctx.state(case)


def shape_cases(tier):
    deep = tier == 'thorough'
    for n in (0, 1, 2, 3):
        for e in shapes.digraphs(n):
            yield ('zyx', n, shapes.plain(e))
    for e in shapes.multigraphs(2, 5 if deep else 4, 3):
        yield ('num', 2, e)
    for e in shapes.multigraphs(3, 4 if deep else 3, 2):
        yield ('abc', 3, e)
    if deep:
        for e in shapes.digraphs(4, loops=False):
            yield ('pre', 4, shapes.plain(e))
    else:
        for e in shapes.digraphs(4, loops=True, max_edges=4):
            yield ('pre', 4, shapes.plain(e))
    for _, n, e in shapes.families(24 if deep else 13):
        yield ('int', n, shapes.plain(e))


def run_shape(ctx, case):
    scheme, n, edges = case
    names = shapes.names(scheme, n)
    for strict in (False, True):
        g, r = observe.build(names, edges, strict=strict), observe.ref(names, edges, strict=strict)
        observe.check_source(g, r)
        for i, k in enumerate(r.edges):
            if i % 3:
                g.edges_dict[k].label = r.edges[k].label = f'"{i}"'
            else:
                g.edges_dict[k].value = r.edges[k].value = i
        for i, x in enumerate(names):
            if i % 2:
                g.get_node(x).label = r.nodes[x].label = f'label {i}'
        observe.check_source(g, r)
        if len(edges) <= 9:
            observe.check_source(g, r, text=g.render(view=False).source)
        # and after taking things away
        if r.edges:
            k = list(r.edges)[len(r.edges) // 2]
            g.disconnect(g.edges_dict[k])
            r.disconnect(k)
            observe.check_source(g, r)
        if names:
            g.remove_node(names[0])
            r.remove(names[0])
            observe.check_source(g, r)
        ctx.step(4)
    ctx.state(case)


def strange_cases(tier):
    for t in structural.STRANGE:
        if len(set(map(str, t))) == 3:
            for order in itertools.permutations(t):
                yield ('names', order)
                yield ('labels', order)
    for ids in structural.STRANGE_IDS:
        for order in (ids, ids[::-1]):
            yield ('ids', order)
    for dress in structural.DRESSES:
        for n in (1, 2):
            for edges in shapes.digraphs(n):
                yield ('dress', dress, n, shapes.plain(edges))
        for edges in shapes.digraphs(3, max_edges=9 if tier == 'thorough' else 2):
            yield ('dress', dress, 3, shapes.plain(edges))
    for n, edges in shapes.large(2 if tier == 'thorough' else 1):
        yield ('dress', None, n, shapes.plain(edges))


def run_strange(ctx, case):
    what, *rest = case
    if what == 'dress':
        dress, n, edges = rest
        w = structural.Live(ctx, 'zyx' if n < 4 else 'abc', n, edges, dress)
    else:
        t = rest[0]
        if what == 'names':
            w = structural.Live(ctx, t, 3, tuple((i, j, None) for i in range(3) for j in range(3)))
        elif what == 'ids':
            w = structural.Live(ctx, 'zyx', 2, tuple((i, j, id) for i in range(2) for j in range(2) for id in t))
        else:
            # every node is called what another one is named
            w = structural.Live(ctx, t, 3, ())
            for k, x in enumerate(t):
                w.apply(('set', ('n', x), 'label', str(t[k - 1])))
                w.apply(('con', x, t[k - 1], None, 'n', (('label', str(t[k - 2])),)))
                w.apply(('con', x, x, None, 'n', (('value', t[k - 1]), ('tooltip', str(t[k - 1])))))
                w.apply(('con', x, x, 'x', 'n', (('value', t[k - 2]),)))
    observe.check_source(w.g, w.r)
    if len(w.r.edges) < 40:
        observe.check_source(w.g, w.r, text=w.g.render(view=False).source)
    ctx.step(2)
    ctx.state(w.key())


# settings of styles ------------------------------------------------------------------------------------------------

STYLE_SLOTS = [('node', 'font', 'fontname'), ('node', 'shape', 'shape'), ('node', 'shape_style', 'style'), ('edge', 'font', 'fontname'), ('edge', 'label_style', 'lblstyle')]


def setting_cases(tier):
    pool = list(STRINGS) + list(words(('\\', '"', 'n', ' '), 4 if tier == 'thorough' else 3))
    for slot in STYLE_SLOTS:
        for how in ('style', 'dictionary', 'global', 'complement'):
            for k in range(0, len(pool), 12):
                yield (slot, how, tuple(pool[k:k + 12]))


def run_setting(ctx, case):
    (kind, setting, attribute), how, part = case
    cls = NodeStyle if kind == 'node' else EdgeStyle
    for s in part:
        given = {setting: s}
        g = Graph(**{f'{kind}_style': given}) if how == 'global' else Graph()
        r = RGraph()
        style = {'style': cls(**given), 'dictionary': given, 'complement': cls(), 'global': None}[how]
        if how == 'complement':
            style.complement(given)
        for x in ('a', 'b'):
            g.add_node(x, style=style if kind == 'node' and x == 'a' else None)
            r.add(x)
        g.connect('a', 'b', style=style if kind == 'edge' else None)
        r.connect('a', 'b')
        for text in ([] if how in ('global', 'dictionary') else [g.get_graphviz_str()]) + [g.render(view=False).source]:
            p = observe.check_source(g, r, text=text)
            a = p.nodes['a'] if kind == 'node' else p.edges[0][2]
            observe.same_text(f'{setting} of the {kind} style in the source', a.get(attribute), s.strip('"'))
            ctx.step()
    ctx.state(case)


# the parser against Graphviz ---------------------------------------------------------------------------------------

# Graphviz 2.43 itself drops a line break that stands alone between quotes and backslashes of a quoted string
LOST = re.compile(r'(?:^|["\\])\r?\n(?=$|["\\])')


def graphviz_cases(tier):
    if shutil.which('dot') is None:
        return
    pool = [s for s in STRINGS if len(s) < 100 and not LOST.search(s) and not s.startswith('%')]
    step = 8
    for k in range(0, len(pool), step):
        yield tuple(pool[k:k + step])
    extra = list(words(('\\', '"', 'n', '\n'), 3 if tier == 'quick' else 4))
    extra = [w for w in extra if not LOST.search(w)]
    for k in range(0, len(extra), 40):
        yield tuple(extra[k:k + 40])


def run_graphviz(ctx, case):
    g = Graph(label=case[0])
    for i, w in enumerate(case):
        g.add_node(w, tooltip=w)
        g.add_node(f'label of {i}', label=w)
    for i, w in enumerate(case):
        g.connect(f'label of {i}', w, label=w, tooltip=w)
    text = g.get_graphviz_str()
    mine = dot.parse(text)
    try:
        run = subprocess.run(['dot', '-Tdot_json'], input=text.encode(), capture_output=True, timeout=60)
    except (OSError, subprocess.TimeoutExpired):
        ctx.count('Graphviz did not answer')
        return
    if run.returncode != 0:
        raise Mismatch(f'Graphviz rejects the source: {run.stderr.decode(errors="replace")[:500]}\n{text}')
    if b'yntax error' in run.stderr:
        raise Mismatch(f'Graphviz: {run.stderr.decode(errors="replace")[:500]}\n{text}')
    try:
        data = json.loads(run.stdout.decode('utf-8'), strict=False)
    except ValueError:
        ctx.count('output of Graphviz not readable')    # it writes some control characters unescaped
        return
    objects = [o for o in data.get('objects', []) if 'nodes' not in o]
    theirs = {o['name']: o for o in objects}
    expect('nodes according to Graphviz', sorted(theirs), sorted(mine.nodes))
    for x, a in mine.nodes.items():
        for k in ('label', 'tooltip'):
            if k in a:
                expect(f'{k} of {x!r} according to Graphviz', theirs[x].get(k, ''), str(a[k]))
    by_id = {o['_gvid']: o['name'] for o in objects}
    expect('edges according to Graphviz', sorted((by_id[e['tail']], by_id[e['head']], e.get('label', ''), e.get('tooltip', '')) for e in data.get('edges', [])),
           sorted((s, e, str(a.get('label', '')), str(a.get('tooltip', ''))) for s, e, a in mine.edges))
    ctx.step()
    ctx.count('sources compared with Graphviz')


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('single strings', lambda: single_cases(tier), run, f'{len(STRINGS)} hostile strings in every slot'),
        Cases('pairs of strings', lambda: pair_cases(tier), run, 'ordered pairs of %s strings in pairs of slots' % ('all' if deep else 'the dangerous')),
        Cases('values', lambda: value_cases(tier), run, f'{len(VALUES)} values of all kinds, pairs of values, integer names'),
        Cases('converters', lambda: converter_cases(tier), run, 'every pair of 5 converters with every string'),
        Cases('words', lambda: word_cases(tier), run_words, 'every word of length <=%d over backslash, quote, n, and shorter ones over two other alphabets, as names of one graph and as labels' % (6 if deep else 5)),
        Cases('shapes', lambda: shape_cases(tier), run_shape, 'every digraph on 0-3 nodes, multigraphs, 4 nodes %s, families; rendered, and after removals' % ('without loops' if deep else 'with <=4 edges')),
        Cases('confusable names and ids, settings, large graphs', lambda: strange_cases(tier), run_strange, '%d triples of names in every order, %d pairs of ids, %d kinds of settings and data on every digraph up to 2 nodes and on 3 nodes with <=%d edges, 16 large graphs' % (len(structural.STRANGE), len(structural.STRANGE_IDS), len(structural.DRESSES), 9 if deep else 2)),
        Cases('settings of styles', lambda: setting_cases(tier), run_setting, 'every hostile string and every word of length <=%d over four characters in %d settings of node and edge styles, given in 4 ways' % (4 if deep else 3, len(STYLE_SLOTS))),
        Cases('the parser against Graphviz', lambda: graphviz_cases(tier), run_graphviz, 'sources with all strings read by dot, if it is installed', chunk=1),
    ]
