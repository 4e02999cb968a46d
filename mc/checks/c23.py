"""C23: style objects against plain records of what was given and what follows from it."""
import copy
import itertools
import pickle
import re

from abstract.styling.EdgeStyle import EdgeStyle
from abstract.styling.NodeStyle import NodeStyle
from colouration import Colour

from ..core import Cases, Mismatch, expect

ASSUMPTIONS = ['fonts, shapes and shape styles contain no quotes or backslashes (C20 covers those)', 'the colours reset by reset_colours are assigned again before the style is used',
               'lightening, darkening and inverting a single colour is the colouration library and is correct']

PAIR = re.compile(r'"([^"]*)"="([^"]*)"')


def shown(style):
    text = style.get_graphviz_str()
    pairs = PAIR.findall(text)
    if ' '.join(f'"{k}"="{v}"' for k, v in pairs) != text or len(dict(pairs)) != len(pairs):
        raise Mismatch(f'style text {text!r} is not a list of attributes')
    return dict(pairs)


def hexadecimal(colour, opacity):
    h = colour.hexadecimal
    return h if opacity is None else h + '%02x' % int(min(max(0.0, opacity * 255), 255))


def light(colour):
    return sum(colour.rgb)


class Spec:
    """what a style should be; colours are the library's values, kept apart from the style under test"""

    def copied(self):
        result = self.__class__.__new__(self.__class__)
        result.__dict__.update({k: (Colour(v) if isinstance(v, Colour) else v) for k, v in self.__dict__.items()})
        result.derived = set(self.derived)
        return result

    def put(self, key, value):
        if key in self.COLOURS:
            value = Colour(value)
            if key != 'colour':
                self.derived.discard(key)
        setattr(self, key, value)

    def inverted(self):
        result = self.copied()
        for key in self.COLOURS:
            if key not in result.derived:
                setattr(result, key, getattr(result, key).invert())
        result.derive()
        return result

    def recoloured(self, value):
        self.colour = Colour(value)
        self.derived = set(self.COLOURS) - {'colour'}
        self.derive()

    def wanted(self):
        out = {}
        for name, key in self.NAMES:
            v = getattr(self, key)
            if v is not None:
                out[name] = hexadecimal(v, self.opacity) if isinstance(v, Colour) else str(v)
        return out

    def __init__(self, given):
        for key, value in self.DEFAULTS.items():
            setattr(self, key, given.get(key, value))
        main = given.get('colour', '#AAAAAA')
        for key in self.COLOURS[1:]:
            main = main or (given.get(key) if key in self.MAIN_FROM else None)
        self.colour = Colour(main or '#AAAAAA')
        self.derived = set()
        for key in self.COLOURS[1:]:
            if given.get(key) is None:
                self.derived.add(key)
            else:
                setattr(self, key, Colour(given[key]))
        self.derive()


class NodeSpec(Spec):
    COLOURS = ('colour', 'fill_colour', 'border_colour', 'text_colour')
    MAIN_FROM = ('fill_colour', 'border_colour')
    NAMES = (('color', 'border_colour'), ('fillcolor', 'fill_colour'), ('fontname', 'font'), ('fontcolor', 'text_colour'), ('fontsize', 'text_size'), ('opacity', 'opacity'), ('shape', 'shape'),
             ('style', 'shape_style'))
    DEFAULTS = {'opacity': None, 'font': 'helvetica', 'text_size': 10, 'shape': 'box', 'shape_style': 'rounded, filled', 'lighter_fill': True}
    REAL = NodeStyle

    def derive(self):
        """derived colours as a plain new style of the same main colour shows them, and on the right side of it"""
        plain = shown(NodeStyle(colour=Colour(self.colour), lighter_fill=self.lighter_fill))
        main = light(self.colour)
        for key, name in (('fill_colour', 'fillcolor'), ('border_colour', 'color')):
            if key in self.derived:
                value = Colour(plain[name])
                if key == 'fill_colour':
                    exact = self.colour.lighten(ratio=0.5) if self.lighter_fill else self.colour.darken(ratio=0.5)
                else:
                    exact = self.colour.darken(ratio=0.5 / 3) if self.lighter_fill else self.colour.lighten(ratio=0.5 / 3)
                lighter = (key == 'fill_colour') == bool(self.lighter_fill)
                if (light(value) < main - 0.02) if lighter else (light(value) > main + 0.02):
                    raise Mismatch(f'{key} {value.hexadecimal} derived from {self.colour.hexadecimal} with lighter_fill={self.lighter_fill} is on the wrong side of it')
                setattr(self, key, exact if exact.hexadecimal == value.hexadecimal else value)
        if 'text_colour' in self.derived:
            self.text_colour = self.fill_colour.farthest_gray


class EdgeSpec(Spec):
    COLOURS = ('colour', 'text_colour')
    MAIN_FROM = ('text_colour',)
    NAMES = (('color', 'colour'), ('fontname', 'font'), ('fontcolor', 'text_colour'), ('fontsize', 'text_size'), ('arrowsize', 'arrow_size'), ('lblstyle', 'label_style'), ('penwidth', 'line_width'))
    DEFAULTS = {'opacity': 1, 'font': 'helvetica', 'text_size': 8, 'arrow_size': 0.5, 'label_style': 'below', 'line_width': 1}
    REAL = EdgeStyle

    def derive(self):
        if 'text_colour' in self.derived:
            self.text_colour = Colour(self.colour)


def compare(what, style, spec, probe=True):
    expect(what, shown(style), spec.wanted())
    for key in spec.COLOURS:
        expect(f'{what}.{key}', getattr(style, key).hexadecimal, getattr(spec, key).hexadecimal)
    if probe:
        inverse = style.invert_colours()
        expect(f'{what} inverted', shown(inverse), spec.inverted().wanted())
        expect(f'{what} inverted main colour', inverse.colour.hexadecimal, spec.colour.invert().hexadecimal)
        other, otherspec = style.copy(), spec.copied()
        recolour(other, '#204060')
        otherspec.recoloured('#204060')
        expect(f'{what} with all its colours derived again', shown(other), otherspec.wanted())
        expect(f'{what} after that', shown(style), spec.wanted())


def recolour(style, colour):
    style.reset_colours()
    style.colour = colour


def copied(style, how):
    if how == 'copy':
        return style.copy()
    if how == 'deepcopy':
        return copy.deepcopy(style)
    return pickle.loads(pickle.dumps(style, protocol=how))


class Pool:
    """styles under test and what they should be"""

    def __init__(self, ctx, kind, given):
        self.ctx = ctx
        spec = NodeSpec if kind == 'node' else EdgeSpec
        given = dict(given)
        self.pool = [(spec.REAL(**given), spec(given))]

    def apply(self, op):
        i, what, *args = op
        style, spec = self.pool[i]
        if what == 'copy':
            self.pool.append((copied(style, args[0]), spec.copied()))
        elif what == 'invert':
            self.pool.append((style.invert_colours(), spec.inverted()))
        elif what == 'set':
            setattr(style, args[0], args[1])
            spec.put(*args)
        elif what == 'complement':
            d = dict(args[0])
            style.complement(d)
            expect('the dictionary given', d, dict(args[0]))
            for k, v in args[0]:
                spec.put(k, v)
        elif what == 'recolour':
            recolour(style, args[0])
            spec.recoloured(args[0])
        self.ctx.step()

    def check(self, probe=True):
        for i, (style, spec) in enumerate(self.pool):
            compare(f'style {i}', style, spec, probe)
            self.ctx.step()

    def check_mutable(self):
        """changing a colour object of one style in place reaches no other style"""
        for i, (style, spec) in enumerate(self.pool):
            for key in spec.COLOURS:
                others = [shown(s) for s, _ in self.pool]
                colour = getattr(style, key)
                colour.red = 1 - colour.red
                for j, (s, _) in enumerate(self.pool):
                    if j != i:
                        expect(f'style {j} after changing the {key} of style {i} in place', shown(s), others[j])
                self.ctx.step()


NODE_OPS = [('copy', 'copy'), ('copy', 'deepcopy'), ('copy', 0), ('copy', 2), ('copy', 5), ('invert',), ('recolour', '#804020'),
            ('set', 'colour', 'blue'), ('set', 'fill_colour', '#ffee00'), ('set', 'border_colour', 'black'), ('set', 'text_colour', '#00ccff'),
            ('complement', (('colour', 'green'),)), ('complement', (('fill_colour', '#401020'), ('shape', 'circle'))), ('complement', (('border_colour', 'red'), ('text_size', 17))),
            ('complement', (('text_colour', 'white'), ('font', 'courier'))), ('complement', (('opacity', 0.25),)), ('complement', (('shape_style', 'dashed'), ('lighter_fill', False))), ('complement', ()),
            ('complement', (('font', None), ('text_size', None))), ('complement', (('shape', None), ('shape_style', None), ('colour', 'pink')))]
EDGE_OPS = [('copy', 'copy'), ('copy', 'deepcopy'), ('copy', 0), ('copy', 2), ('copy', 5), ('invert',), ('recolour', '#804020'), ('set', 'colour', 'blue'), ('set', 'text_colour', '#00ccff'),
            ('complement', (('colour', 'green'), ('arrow_size', 2))), ('complement', (('text_colour', 'white'), ('font', 'courier'))), ('complement', (('opacity', 0.25), ('line_width', 3))),
            ('complement', (('label_style', 'above'), ('text_size', 0))), ('complement', ()),
            ('complement', (('font', None), ('text_size', None), ('line_width', None))), ('complement', (('arrow_size', None), ('colour', 'pink')))]
OPS = {'node': NODE_OPS, 'edge': EDGE_OPS}


def given_node():
    for colour in ((), (('colour', None),), (('colour', 'red'),), (('colour', '#123456'),)):
        for fill, border, text in itertools.product((None, 'yellow'), (None, '#00ff00'), (None, 'white')):
            for opacity in (None, 0.5, 0, 1):
                for lighter in (True, False):
                    for rest in ((), (('font', 'courier'), ('text_size', 12.5), ('shape', 'circle'), ('shape_style', 'filled')), (('font', None), ('text_size', None), ('shape', None), ('shape_style', None)),
                                 (('text_size', 0), ('shape_style', ''))):
                        yield colour + tuple((k, v) for k, v in (('fill_colour', fill), ('border_colour', border), ('text_colour', text)) if v) + (('opacity', opacity), ('lighter_fill', lighter)) + rest


def given_edge():
    for colour in ((), (('colour', None),), (('colour', 'red'),), (('colour', '#123456'),)):
        for text in ((), (('text_colour', None),), (('text_colour', '#00ff00'),)):
            for opacity in (None, 0.5, 0, 1):
                for rest in ((), (('font', 'courier'), ('text_size', 12.5), ('arrow_size', 0), ('label_style', 'above'), ('line_width', 2.5)),
                             (('font', None), ('text_size', None), ('arrow_size', None), ('label_style', None), ('line_width', None)), (('arrow_size', 3),), (('line_width', 0),)):
                    yield colour + text + (('opacity', opacity),) + rest


def singles():
    for g in given_node():
        yield ('node', g)
    for g in given_edge():
        yield ('edge', g)


def run_single(ctx, case):
    kind, given = case
    pool = Pool(ctx, kind, given)
    pool.check()
    ctx.outcome(shown(pool.pool[0][0]))
    for op in OPS[kind]:
        pool = Pool(ctx, kind, given)
        pool.apply((0,) + op)
        pool.check()
        pool.check_mutable()
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        pool = Pool(ctx, kind, given)
        pool.apply((0, 'copy', p))
        pool.check()
    ctx.state(case)


NODE_STARTS = [(), (('colour', 'red'), ('lighter_fill', False)), (('fill_colour', 'yellow'),), (('colour', '#102030'), ('border_colour', '#00ff00'), ('opacity', 0.5)), (('text_colour', 'white'), ('font', None)),
               (('colour', None), ('fill_colour', '#336699'), ('border_colour', 'red'), ('text_colour', 'navy'), ('lighter_fill', False), ('opacity', 1))]
EDGE_STARTS = [(), (('colour', 'red'),), (('text_colour', 'yellow'), ('opacity', None)), (('colour', None), ('text_colour', '#336699'), ('arrow_size', 0)),
               (('colour', '#102030'), ('text_colour', 'white'), ('line_width', None), ('label_style', None), ('opacity', 0.5))]


def sequences(kind, starts, length, deep=True):
    ops = [op for op in OPS[kind] if deep or op not in (('copy', 0), ('copy', 5), ('complement', ()))]

    def extend(seq, size):
        if len(seq) == length:
            yield seq
            return
        for op in ops:
            for i in range(size):
                yield from extend(seq + ((i,) + op,), size + (op[0] in ('copy', 'invert')))
    for given in starts:
        for seq in extend((), 1):
            yield (kind, given, seq)


def run_sequence(ctx, case):
    kind, given, seq = case
    pool = Pool(ctx, kind, given)
    for op in seq:
        pool.apply(op)
    pool.check()
    pool.check_mutable()
    ctx.state(tuple(sorted(map(repr, (s.wanted() for _, s in pool.pool)))))


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('attributes', singles, run_single, 'every combination of given and missing colours, opacity, fill direction and four sets of other attributes; each operation on each, all pickle protocols'),
        Cases('edge style operations', lambda: sequences('edge', EDGE_STARTS, 4 if deep else 3, deep), run_sequence, f'every sequence of {4 if deep else 3} of {len(EDGE_OPS)} operations on a growing pool of styles'),
        Cases('node style operations', lambda: sequences('node', NODE_STARTS, 3, deep), run_sequence, f'every sequence of 3 of {len(NODE_OPS)} operations on a growing pool of styles'),
    ] + ([Cases('longer node style operations', lambda: sequences('node', NODE_STARTS[1:3], 4), run_sequence, 'every sequence of 4 operations from two starts')] if deep else [])
