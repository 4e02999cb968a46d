"""C27: the header of the generated source for every setting and call parameter."""
import html
import itertools
import xml.etree.ElementTree as ET

from abstract import Graph
from colouration import Colour

from .. import dot, observe
from ..core import Cases, Mismatch, expect
from .c20 import STRINGS

DEFAULTS = {'strict': False, 'ordering': True, 'background_colour': '#FAFAFA', 'font': 'helvetica', 'direction': 'LR', 'label': '\nPowered by Abstract',
            'label_url': 'https://github.com/idin/abstract', 'tooltip': None, 'label_location': 'bottom', 'font_size': 10, 'label_colour': 'deepskyblue3', 'label_background_colour': None}

ASSUMPTIONS = ['names of extra attributes are Graphviz identifiers', 'a backslash in a text has the meaning Graphviz gives it', 'colours, locations and directions are ones Graphviz knows']


def is_html(text):
    """the user's own HTML-like string: the bracket opened first closes last"""
    if not text or text[0] != '<':
        return False
    depths = list(itertools.accumulate((c == '<') - (c == '>') for c in text))
    return depths[-1] == 0 and all(d > 0 for d in depths[:-1])


def wanted_header(settings, call):
    """graph attributes expected in the source; text values as what Graphviz shows"""
    s = {**DEFAULTS, **{k: v for k, v in settings.items() if k in DEFAULTS}}
    extra = {k: v for k, v in settings.items() if k not in DEFAULTS}
    out = {}
    if s['label'] is not None:
        out['label'] = 'LABEL'
        if s['label_location'] is not None:
            out['labelloc'] = s['label_location'][0]
        if s['font_size'] is not None:
            out['fontsize'] = str(s['font_size'])
        if s['font'] is not None:
            out['fontname'] = s['font']
        if s['label_colour'] is not None:
            out['fontcolor'] = s['label_colour']
        if s['label_url'] is not None:
            out['href'] = s['label_url']
            out['target'] = '_blank'
    if s['tooltip'] is not None:
        out['tooltip'] = s['tooltip']
    for k, v in extra.items():
        out[k] = str(v)
    out['bgcolor'] = Colour(s['background_colour']).hexadecimal
    pad = call.get('pad', 0.1)
    if pad is not None:
        out['pad'] = str(pad)
    if not s['ordering']:
        out['ordering'] = 'out'
    h, w = call.get('height'), call.get('width')
    if h is not None or w is not None:
        out['size'] = f'{w},{h}!' if h is not None and w is not None else f'{h if h is not None else w}!'
        out['ratio'] = 'fill'
    direction = (call.get('direction') or s['direction']).upper()
    if direction != 'TB':
        out['rankdir'] = direction
    return s, out


def judge(g, settings, call, text):
    s, wanted = wanted_header(settings, call)
    p = observe.parse_source(text)
    what = f'settings {settings}, call {call}: '
    if not p.directed:
        raise Mismatch(what + 'not a digraph')
    expect(what + 'strict', p.strict, bool(s['strict']))
    got = dict(p.attrs)
    if got.get('rankdir') == 'TB':
        del got['rankdir']          # the default may be written out
    expect(what + 'graph attributes', sorted(got), sorted(wanted))
    for k, v in wanted.items():
        if k == 'label':
            check_label(what, got[k], s)
        elif k in ('pad', 'fontsize'):
            expect(what + k, float(got[k]), float(v))
        elif k == 'bgcolor':
            expect(what + k, got[k].lower(), v.lower())
        else:
            observe.same_text(what + k, got[k], v)
    expect(what + 'nodes', sorted(p.nodes), sorted(str(x.name) for x in g.nodes))
    return p


def check_label(what, got, s):
    label, colour = s['label'], s['label_background_colour']
    if is_html(label):
        if not isinstance(got, dot.Html) or str(got) != label[1:-1]:
            raise Mismatch(f'{what}HTML label {got!r} instead of {label!r}')
    elif colour is None:
        observe.same_text(what + 'label', got, label)
    else:
        if not isinstance(got, dot.Html):
            raise Mismatch(f'{what}label {got!r} is not HTML')
        try:
            root = ET.fromstring('<x>' + str(got) + '</x>')
        except ET.ParseError as e:
            raise Mismatch(f'{what}label {got!r} is not well-formed: {e}')
        cells = [x for x in root.iter() if x.tag.lower() == 'td']
        expect(what + 'cells', len(cells), 1)
        attrs = {k.lower(): v for k, v in cells[0].attrib.items()}
        expect(what + 'label background', attrs.get('bgcolor'), colour)
        expect(what + 'label', ''.join(cells[0].itertext()).strip(), label.strip())


def build(settings):
    g = Graph(**settings)
    g.add_node('a')
    g.add_node('b')
    g.connect('a', 'b')
    return g


def run(ctx, case):
    settings, calls = dict(case[0]), case[1]
    g = build(settings)
    plain = g.get_graphviz_str()
    judge(g, settings, {}, plain)
    ctx.outcome(plain)
    for call in calls:
        call = dict(call)
        judge(g, settings, call, g.get_graphviz_str(**call))
        ctx.step()
        same(g, plain, call)
        size = {k: v for k, v in call.items() if k in ('height', 'width')}
        judge(g, settings, call, g.get_graphviz_source(**call).source)
        same(g, plain, call)
        h = build(settings)
        judge(h, settings, {k: v for k, v in call.items() if k not in size}, h.render(view=False, **call).source)
        judge(h, settings, {}, h.get_graphviz_str())
        again = h.render(view=False).source
        judge(h, settings, {}, again)
        expect('rendering without parameters afterwards', again, build(settings).render(view=False).source)
        ctx.step(3)
    judge(g, settings, {}, g.render(view=False).source)
    d = g.__graph__()
    expect('strict', bool(d['strict']), bool(settings.get('strict', False)))
    expect('ordering', bool(d['ordering']), bool(settings.get('ordering', True)))
    ctx.step(2)
    ctx.state(case)


def same(g, plain, call):
    if g.get_graphviz_str() != plain:
        raise Mismatch(f'the parameters {call} of one call changed the text of later calls')


SINGLES = [('strict', True), ('strict', False), ('ordering', False), ('background_colour', 'red'), ('background_colour', '#123456'), ('font', 'courier'), ('font', None), ('direction', 'TB'), ('direction', 'tb'),
           ('direction', 'rl'), ('direction', 'BT'), ('direction', 'lr'), ('label', None), ('label', ''), ('label', 'a "b"\\'), ('label', '<b>x</b>'), ('label', '<<b>x</b>>'), ('label', '<'), ('label', 'two\nlines'), ('label_url', None),
           ('label_url', 'http://x/?a=1&b="2"'), ('tooltip', 'tip "x"'), ('tooltip', ''), ('label_location', 'top'), ('label_location', 't'), ('label_location', None), ('label_location', 'bottom'),
           ('font_size', None), ('font_size', 33), ('font_size', 0), ('font_size', 7.5), ('label_colour', None), ('label_colour', '#00ff00'), ('label_background_colour', 'yellow'), ('label_background_colour', '#abcdef'),
           ('splines', 'ortho'), ('nodesep', 2), ('ranksep', 0.5), ('compound', True), ('comment', 'a "quoted"; remark\\'), ('rotate', 0),
           ('fontsize', 9), ('labelloc', 't'), ('fontname', 'times'), ('fontcolor', 'green'), ('labeljust', 'l')]

CALLS = [(('direction', 'TB'),), (('direction', 'BT'),), (('direction', 'lr'),), (('height', 3),), (('width', 4.5),), (('height', 3), ('width', 4)), (('pad', 0),), (('pad', 1.5),), (('pad', None),), (('height', 0),), (('height', 0), ('width', 6)), (('width', 0.0), ('height', 1)), (('height', 0.5), ('width', 0)),
         (('direction', 'RL'), ('height', 2), ('width', 5), ('pad', 2))]


def cases(tier):
    deep = tier == 'thorough'
    yield ((), tuple(CALLS))
    for x in SINGLES:
        yield ((x,), tuple(CALLS))
    for i, (x, y) in enumerate(itertools.combinations(SINGLES, 2)):
        if x[0] != y[0]:
            yield ((x, y), tuple(CALLS) if deep else (CALLS[i % len(CALLS)], CALLS[(i * 3 + 1) % len(CALLS)]))
    if deep:
        for i, t in enumerate(itertools.combinations(SINGLES, 3)):
            if len({x[0] for x in t}) == 3:
                yield (t, (CALLS[i % len(CALLS)],))


def string_cases(tier):
    deep = tier == 'thorough'
    pool = STRINGS
    for s in pool:
        for slot in ('label', 'tooltip', 'font', 'label_url', 'label_colour', 'comment'):
            yield (((slot, s),), (CALLS[0],))
        for c in ('yellow',):
            for place in ('top', 'bottom', None):
                if usable(s):
                    yield ((('label', s), ('label_background_colour', c), ('label_location', place)), (CALLS[0],))
        yield ((('label', s), ('tooltip', s), ('font', s), ('label_url', s), ('label_colour', s), ('comment', s)), (CALLS[-1],))
    pairs = pool if deep else [s for s in pool if 0 < len(s) < 4 and any(c in s for c in '"\\<')]
    for s, t in itertools.product(pairs, repeat=2):
        yield ((('label', s), ('tooltip', t), ('font', t), ('label_url', s), ('comment', s)), ())


def bracket_cases(tier):
    """every short text of brackets and others as the label, which is HTML or not"""
    for k in range(1, 7 if tier == 'thorough' else 6):
        for t in itertools.product('<>ab' if k < 5 else '<>a', repeat=k):
            s = ''.join(t)
            yield ((('label', s),), ())
            if usable(s):
                yield ((('label', s), ('label_background_colour', 'yellow')), ())


def usable(s):
    """texts that can be part of XML"""
    return not any(ord(c) < 32 and c not in '\t\n' for c in s) and not is_html(s)


def sequence_cases(tier):
    """sequences of calls with different parameters on one graph"""
    deep = tier == 'thorough'
    for settings in ((), (('direction', 'BT'),), (('strict', True), ('label', None))):
        for t in itertools.product(range(len(CALLS)), repeat=3 if deep else 2):
            for how in itertools.product(('text', 'render'), repeat=len(t)):
                yield (settings, t, how)


def run_sequence(ctx, case):
    settings, t, how = case
    settings = dict(settings)
    g = build(settings)
    for i, h in zip(t, how):
        call = dict(CALLS[i])
        if h == 'text':
            judge(g, settings, call, g.get_graphviz_str(**call))
        else:
            judge(g, settings, {k: v for k, v in call.items() if k not in ('height', 'width')}, g.render(view=False, **call).source)
        judge(g, settings, {}, g.get_graphviz_str())
        ctx.step(2)
    g.add_node('c')
    judge(g, settings, {}, g.render(view=False).source)
    ctx.state(case)


# settings that come with a representation ---------------------------------------------------------------------------

GIVEN = {'strict': (True, False), 'ordering': (False, True), 'label': (None, '', 'text', '\ntext', ' a "q"\\', '<b>x</b>', '<<b>x</b>>', 'two\nlines'), 'tooltip': (None, 'tip "x"', ''),
         'label_url': (None, 'http://x/?a=1&b="2"'), 'direction': ('TB', 'rl', 'LR')}
OWN = [(), (('label', 'own'), ('tooltip', 'own tip'), ('label_url', 'own url'), ('direction', 'BT'), ('strict', True), ('ordering', False)), (('label', None), ('font', 'courier'), ('nodesep', 2))]
MAKE = ('graph', 'append', 'object', 'list', 'tuple')


class Exposing:
    def __init__(self, d):
        self.d = d

    def __graph__(self):
        return self.d


def given_cases(tier):
    deep = tier == 'thorough'
    singles = [(k, v) for k, values in GIVEN.items() for v in values]
    sets = [()] + [(x,) for x in singles] + [t for t in itertools.combinations(singles, 2) if t[0][0] != t[1][0]]
    if deep:
        sets += [t for t in itertools.combinations(singles, 3) if len({k for k, _ in t}) == 3]
    for i, t in enumerate(sets):
        for own in OWN:
            for how in MAKE if deep or len(t) < 2 else (MAKE[i % len(MAKE)],):
                yield (own, (t,), how)
    for t, u in itertools.product([s for s in sets if len(s) == 1] + [()], repeat=2):
        yield ((), (t, u), 'append')
        yield ((), (t, u), 'list')


def run_given(ctx, case):
    own, given, how = case
    reps = [{'nodes': ['a', 'b'], 'edges': [('a', 'b')], **dict(t)} for t in given]
    own = dict(own)
    if how == 'graph':
        g = Graph(reps[0], **own)
    elif how == 'object':
        g = Graph(Exposing(reps[0]), **own)
    elif how == 'list':
        g = Graph(reps, **own)
    elif how == 'tuple':
        g = Graph(tuple(Exposing(r) for r in reps), **own)
    else:
        g = Graph(**own)
        for r in reps:
            g.append(r)
    settings = dict(own)
    from_rep = False
    for t in given:
        settings.update(t)
        from_rep = from_rep or 'label' in dict(t)
    if from_rep and settings['label'] is not None and not is_html(settings['label']):
        settings['label'] = '\n' + settings['label'].lstrip('\n')         # a label that comes with a representation starts on a new line
    for call in ({}, {'direction': 'BT'}, {'height': 3}):
        judge(g, settings, call, g.get_graphviz_str(**call))
        ctx.step()
    judge(g, settings, {}, g.render(view=False).source)
    # and once more through the representation of the result: what it says of the header stays
    h = Graph(g, **{k: v for k, v in own.items() if k not in GIVEN})
    kept = {k: v for k, v in settings.items() if k not in ('tooltip', 'direction')}
    if 'label' in kept and kept['label'] is not None and not is_html(kept['label']):
        kept['label'] = '\n' + kept['label'].lstrip('\n')
    p = observe.parse_source(h.get_graphviz_str())
    expect('strict, converted', p.strict, bool(settings.get('strict')))
    _, wanted = wanted_header(kept, {})
    for k in ('label', 'href', 'ordering'):
        expect(f'{k} present, converted', k in p.attrs, k in wanted)
    if 'label' in wanted:
        check_label('converted: ', p.attrs['label'], {**DEFAULTS, **kept})
    if 'href' in wanted:
        observe.same_text('converted: href', p.attrs['href'], wanted['href'])
    ctx.outcome(g.get_graphviz_str())
    ctx.state(case)


# the background colour assigned later, alone and to several graphs -------------------------------------------------------

BACKGROUNDS = ('red', '#123456', 'object', 'shared', '#FAFAFA', 'white', 'black')


def background_cases(tier):
    for first in (None, 'black', 'object'):
        for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
            for t in itertools.product(range(len(BACKGROUNDS)), repeat=n):
                for rendered in (False, True):
                    yield (first, t, rendered)


def run_background(ctx, case):
    first, t, rendered = case
    shared = Colour('purple')
    settings = {} if first is None else {'background_colour': Colour('green') if first == 'object' else first}
    gs = [build(settings), build({'background_colour': shared}), build({})]
    wanted = [Colour(settings.get('background_colour', DEFAULTS['background_colour'])).hexadecimal, shared.hexadecimal, Colour(DEFAULTS['background_colour']).hexadecimal]
    for i in t:
        c = BACKGROUNDS[i]
        gs[0].background_colour = Colour('orange') if c == 'object' else shared if c == 'shared' else c
        wanted[0] = Colour('orange' if c == 'object' else 'purple' if c == 'shared' else c).hexadecimal
        for g, w in zip(gs, wanted):
            expect('background', g.background_colour.hexadecimal.lower(), w.lower())
            judge(g, {'background_colour': w}, {}, g.render(view=False).source if rendered else g.get_graphviz_str())
            judge(g.copy(), {'background_colour': w}, {}, g.copy().get_graphviz_str())
            ctx.step()
    expect('the colour object', shared.hexadecimal, Colour('purple').hexadecimal)
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('settings', lambda: cases(tier), run, f'every %s of {len(SINGLES)} settings; {len(CALLS)} combinations of call parameters%s' % ('set of up to three' if deep else 'pair', '' if deep else ' (two per pair)')),
        Cases('strings', lambda: string_cases(tier), run, f'{len(STRINGS)} hostile strings in every text setting, pairs of %s' % ('all' if deep else 'the dangerous ones')),
        Cases('labels of brackets', lambda: bracket_cases(tier), run, 'every label of up to %d characters over <, > and one or two letters, with and without a background' % (6 if deep else 5)),
        Cases('sequences of calls', lambda: sequence_cases(tier), run_sequence, 'every sequence of %d calls with different parameters' % (3 if deep else 2)),
        Cases('background assigned later', lambda: background_cases(tier), run_background, 'every sequence of up to %d assignments of names, codes, objects and an object shared with another graph' % (3 if deep else 2)),
        Cases('settings in a representation', lambda: given_cases(tier), run_given, 'every set of up to %d settings of a representation, in %d ways, with and without settings of its own; two in a row; and converted once more' % (3 if deep else 2, len(MAKE))),
    ]
