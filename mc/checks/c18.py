"""C18: outlines. A line is ('l', level, content), ('b',) for a blank one, or ('f', level, part, content) for one
indented by a whole number of units and a fraction."""
import itertools
import importlib

from abstract import Graph

from .. import long, observe
from ..core import Cases, Mismatch, expect

parse_indentations = importlib.import_module('abstract.parse_indentations_function').parse_indentations

ASSUMPTIONS = ['contents start with a character that is not blank', 'lines of nothing but indentation are not covered',
               'a blank line is reported at the level of the line before it and is nobody\'s parent']

UNITS = (' ', '  ', '   ', '    ', '     ', '        ', '\t', '\t\t')
LONG_UNITS = (' \t', '\t ', '  \t', ' \t ', '\t  \t', ' ' * 9, ' ' * 12, ' ' * 16, ' ' * 31, '\t' * 9, '\t' * 4)


def text_of(line, unit, end):
    if line[0] == 'b':
        return end
    if line[0] == 'f':
        return unit * line[1] + unit[:line[2]] + line[3] + end
    return unit * line[1] + line[2] + end


def outline(lines):
    """the expected rows, and whether the outline is accepted (rows before the offending line otherwise)"""
    rows, stack, level = [], [], 0
    for i, line in enumerate(lines):
        if line[0] == 'b':
            rows.append((i, level, '', stack[level - 1] if level else None))
            continue
        if line[0] == 'f' or line[1] > len(stack):
            return rows, False
        level = line[1]
        parent = None
        for j in range(i - 1, -1, -1):
            if lines[j][0] == 'l' and lines[j][1] == level - 1:
                parent = j
                break
        stack[level:] = [i]
        rows.append((i, level, line[2], parent))
    return rows, True


def inferable(lines):
    """without a given unit the first indented line must be at level one to say what the unit is"""
    for line in lines:
        if line[0] == 'f':
            return False
        if line[0] == 'l' and line[1] > 0:
            return line[1] == 1
    return True


def run(ctx, case):
    lines, units, ends = case
    rows, accepted = outline(lines)
    ctx.state(lines)
    for unit in units:
        if any(x[0] == 'f' and not 0 < x[2] < len(unit) for x in lines):
            continue
        for end in ends:
            texts = [text_of(x, unit, end) for x in lines]
            for given in (True, False):
                if not given and not inferable(lines):
                    continue
                indent = unit if given else None
                look(ctx, texts, indent, rows, accepted, lines)


def look(ctx, texts, indent, rows, accepted, lines):
    before = list(texts)
    what = f'unit {indent!r}, lines {texts!r}: '
    kw = {} if indent is None else {'indent': indent}
    got, error, _ = observe.call(lambda: [tuple(x) for x in parse_indentations(texts, **kw)])
    ctx.step()
    if accepted:
        if error is not None:
            raise Mismatch(f'{what}{type(error).__name__}: {error}')
        expect(what + 'rows', got, rows)
    elif error is None:
        raise Mismatch(f'{what}was accepted: {got}')
    expect(what + 'the lines', texts, before)
    g, error, warned = observe.call(lambda: Graph.from_indented_text('Top', texts, **kw))
    ctx.step()
    if not accepted:
        if error is None:
            raise Mismatch(f'{what}became a graph with edges {[e.id for e in g.edges]}')
        return
    if error is not None or warned:
        raise Mismatch(f'{what}from_indented_text: {error}, {warned} warnings')
    tops = [x for x in g.nodes if not x.has_parents()]
    expect(what + 'number of nodes', len(g.nodes), len(rows) + 1)
    expect(what + 'number of roots', len(tops), 1)
    expect(what + 'label of the root', tops[0].label, 'Top')
    expect(what + 'number of edges', len(g.edges), len(rows))
    # the nodes of the lines come in the order of the lines, the root first
    nodes = [x for x in g.nodes if x is not tops[0]]
    position = {x.name: i for i, x in enumerate(nodes)}
    for (i, _, _, parent), x in zip(rows, nodes):
        ps = x.parents
        expect(f'{what}number of parents of line {i}', len(ps), 1)
        if parent is None:
            if ps[0] is not tops[0]:
                raise Mismatch(f'{what}line {i} is under {ps[0]}, not under the root')
        else:
            expect(f'{what}parent of line {i}', position.get(ps[0].name), parent)
    if tops[0].name in position or len(position) != len(rows):
        raise Mismatch(f'{what}names are not distinct')
    expect(what + 'order of the children of the root', [position[x.name] for x in tops[0].children], [r[0] for r in rows if r[3] is None])


def level_cases(tier):
    deep = tier == 'thorough'
    for n in range(0, 8 if deep else 6):
        for levels in itertools.product(range(4 if n <= 6 else 3), repeat=n):
            lines = tuple(('l', lv, f'x{i}') for i, lv in enumerate(levels))
            units = UNITS + LONG_UNITS if n <= 3 else UNITS if n <= 4 else ('  ', '\t') if n <= 5 else ('   ',)
            yield (lines, units, ('',))


def blank_cases(tier):
    deep = tier == 'thorough'
    choices = [('b',), ('l', 0, 'a'), ('l', 1, 'b'), ('l', 2, 'c'), ('l', 3, 'd')]
    for n in range(1, 7 if deep else 6):
        for lines in itertools.product(choices, repeat=n):
            if any(x[0] == 'b' for x in lines):
                yield (lines, UNITS if n <= 4 else (' ', '    ', '\t'), ('', '\n'))


def fraction_cases(tier):
    """one line at every place is indented by a fraction"""
    for n in range(1, 5 if tier == 'thorough' else 4):
        for levels in itertools.product(range(3), repeat=n):
            for at in range(n + 1):
                for whole in range(3):
                    for part in range(1, 8):
                        lines = [('l', lv, f'x{i}') for i, lv in enumerate(levels)]
                        lines.insert(at, ('f', whole, part, 'odd'))
                        yield (tuple(lines), UNITS, ('',))


def inferred_fraction_cases(tier):
    """the unit is taken from the first indented line; a later line does not fit it"""
    for unit in UNITS + LONG_UNITS:
        for whole in range(3):
            for part in range(1, len(unit)):
                for tail in (0, 1):
                    yield (unit, whole, part, tail)


def run_inferred_fraction(ctx, case):
    unit, whole, part, tail = case
    texts = ['a', unit + 'b', unit * 2 + 'c'] + [unit * whole + unit[:part] + 'odd'] + ['z'] * tail
    for f in (lambda: list(parse_indentations(texts)), lambda: Graph.from_indented_text('r', texts)):
        got, error, _ = observe.call(f)
        if error is None:
            raise Mismatch(f'{texts!r} was accepted: {got}')
        ctx.step()
    ctx.state(case)


CONTENTS = ['a', 'a b', 'a  b', 'a    b', 'a\tb', 'a\t\tb', 'a ', 'a  ', 'a    ', 'a\t', '-', '- a', '*', '#', '0', '    '.join('abc'), 'a' + ' ' * 9 + 'b',
            'a\\nb', 'a:b', '"q"', '\u00e9', '\u65e5\u672c', 'a\u00a0b', 'a\x0bb', 'a\rb', 'a\r', 'n', 't', 'root', '|', '(', '%s', '{0}', '{', 'a"b']


def content_cases(tier):
    deep = tier == 'thorough'
    levels = [(0, 1, 0), (0, 1, 2), (0, 1, 1), (0, 0, 1), (0, 1, 2, 1)]
    for c in CONTENTS:
        for shape in levels:
            for at in range(len(shape)):
                yield (tuple(('l', lv, c if i == at else f'x{i}') for i, lv in enumerate(shape)), UNITS, ('', '\n'))
            yield (tuple(('l', lv, c) for lv in shape), UNITS, ('', '\n'))
    for c, d in itertools.product(CONTENTS, repeat=2):
        for shape in levels if deep else levels[:2]:
            yield (tuple(('l', lv, (c, d)[i % 2]) for i, lv in enumerate(shape)), UNITS if deep else ('  ', '    ', '\t'), ('',))


def long_cases(tier):
    for depth in (10, 60, 300):
        lines = tuple(('l', i, f'x{i}') for i in range(depth)) + tuple(('l', depth - i, f'y{i}') for i in range(depth + 1))
        yield (lines, (' ', '    ', '\t'), ('\n',))
        yield (lines + (('b',), ('l', 2, 'too deep')), (' ', '    ', '\t'), ('\n',))
    yield (tuple(('l', i % 3, f'x{i}') for i in range(900)), ("  ",), ('\n',))
    yield (tuple(('l', i, f'x{i}') for i in range(1100)) + (('l', 2, 'y'),), ('\t',), ('',))


def run_long(ctx, case):
    with long.usual_recursion():
        run(ctx, case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('levels', lambda: level_cases(tier), run, 'every sequence of up to %d levels 0-3, valid or too deep; 8 units (fewer for long sequences), given or inferred' % (7 if deep else 5)),
        Cases('blank lines', lambda: blank_cases(tier), run, 'every sequence of up to %d lines that are blank or at level 0-3' % (6 if deep else 5)),
        Cases('fractions', lambda: fraction_cases(tier), run, 'every sequence of up to %d levels with one line at every place indented by every fraction' % (4 if deep else 3)),
        Cases('fractions of an inferred unit', lambda: inferred_fraction_cases(tier), run_inferred_fraction, 'every unit and fraction'),
        Cases('contents', lambda: content_cases(tier), run, '%d contents with indent characters and others, at every place of 5 outlines, and pairs of them' % len(CONTENTS)),
        Cases('long outlines', lambda: long_cases(tier), run_long, 'up to 1100 levels (beyond the recursion limit), up to 1101 lines', chunk=1),
    ]
