"""C24: rendering to files with a stand-in layout program that can fail at every step, and with the real one."""
import io
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from abstract import Graph
from graphviz.parameters import FORMATS

from .. import observe
from ..core import Cases, Mismatch, VERIF, expect, short
from ..ref import RGraph

STANDIN = os.path.join(VERIF, 'mc', 'tools', 'dot_standin')
ASSUMPTIONS = ['the graphviz package and the layout program do what they are asked to; a layout program that fails says so by its exit status',
               'paths have an extension, and their names do not start with a dash', 'what the DOT source saved beside the file is called is not part of the property']

KNOWN_FORMATS = sorted(f for f in FORMATS if '.' not in f)    # an extension has no dot in it
FAILURES = ('early', 'partial', 'killed', 'noise', 'silent', 'absent', 'forbidden')
OBSTACLES = ('folder is a file', 'target is a folder', 'source is a folder', 'unknown extension')


class Scratch:
    """a scratch folder, made the current one, with a PATH that leads to the stand-in only"""

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='mc24.')
        os.chmod(self.top, 0o755)
        self.bin = os.path.join(self.top, 'bin')
        self.work = os.path.join(self.top, 'work')
        os.mkdir(self.bin)
        os.mkdir(self.work)
        self.old = os.getcwd(), os.environ.get('PATH'), os.environ.get('MC_DOT_MODE'), os.environ.get('HOME')
        self.stderr, sys.stderr = sys.stderr, io.StringIO()     # the complaints of the program are passed on
        os.chdir(self.work)
        os.environ['PATH'] = self.bin
        os.environ['HOME'] = self.top     # nothing is to be written to, but if it is, not into a real home
        return self

    def mode(self, mode):
        target = os.path.join(self.bin, 'dot')
        os.environ['MC_DOT_MODE'] = mode
        if mode == 'absent':
            if os.path.exists(target):
                os.unlink(target)
            return
        if not os.path.exists(target):
            shutil.copyfile(STANDIN, target)
        os.chmod(target, 0o644 if mode == 'forbidden' else 0o755)

    def __exit__(self, *_):
        cwd, path, mode, home = self.old
        sys.stderr = self.stderr
        os.chdir(cwd)
        for key, value in (('PATH', path), ('MC_DOT_MODE', mode), ('HOME', home)):
            if value is None:
                os.environ.pop(key, None)
            else:
                os.environ[key] = value
        shutil.rmtree(self.top, ignore_errors=True)


GRAPHS = {
    'empty': ((), (), {}),
    'edge': ((('a', {}), ('b', {})), (('a', 'b', None, {}),), {}),
    'loop': ((('a b', {'label': 'x "y"'}),), (('a b', 'a b', None, {'label': 'é'}),), {'direction': 'TB', 'label': None}),
    'multi': ((('a', {'label': 'A'}), ('b', {}), (3, {'value': 2})), (('a', 'b', None, {'value': 1.5}), ('a', 'b', 'x', {}), ('b', 'a', None, {}), ('b', 3, None, {})), {'strict': True, 'tooltip': 't', 'stylist': 'random'}),
}


def make(name):
    nodes, edges, settings = GRAPHS[name]
    g, r = Graph(**settings), RGraph(strict=settings.get('strict', False))
    for n, attrs in nodes:
        g.add_node(n, **attrs)
        r.add(n, **attrs)
    for a, b, i, attrs in edges:
        g.connect(a, b, id=i, **attrs)
        r.connect(a, b, i, **attrs)
    return g, r


class Subject:
    """a graph under test, its reference, and a twin that is never rendered to a file"""

    def __init__(self, ctx, name, scratch):
        self.ctx, self.scratch = ctx, scratch
        self.g, self.r = make(name)
        self.twin, _ = make(name)
        self.count = 0
        self.direction = GRAPHS[name][2].get('direction', 'LR')

    def settle(self, what):
        """the graph is what it should be and renders like its twin"""
        observe.check_structure(self.g, self.r)
        observe.check_data(self.g, self.r, styles=False)
        got = self.g.render(view=False).source
        expect(f'text after {what}', got, self.twin.render(view=False).source)
        observe.check_source(self.g, self.r, got)
        expect(f'text by itself after {what}', self.g.get_graphviz_str().rstrip('\n'), got.rstrip('\n'))
        self.ctx.step(2)

    def change(self):
        self.count += 1
        n = f'new{self.count}'
        first = next(iter(self.r.nodes), n)
        for g in (self.g, self.twin):
            g.add_node(n)
            g.connect(first, n)
        self.r.add(n)
        self.r.connect(first, n, None)
        self.settle('a change')

    def render(self, path, mode, kwargs=(), must_fail=False):
        kwargs = dict(kwargs)
        self.scratch.mode(mode)
        here = os.getcwd()
        what = f'rendering to {path!r} with layout program {mode}'
        try:
            returned = self.g.render(path, view=False, **kwargs)
        except Exception as e:
            if mode == 'ok' and not must_fail:
                raise Mismatch(f'{what}: {type(e).__name__}: {e}')
        else:
            if mode != 'ok' or must_fail:
                raise Mismatch(f'{what} failed without an exception')
            self.judge(what, path, returned, kwargs)
        expect(f'current folder after {what}', os.getcwd(), here)
        self.ctx.step()
        self.settle(what)

    def judge(self, what, path, returned, kwargs):
        if not os.path.isfile(path):
            raise Mismatch(f'{what}: no file of that name, there are {sorted(os.listdir(os.path.dirname(path) or "."))}')
        with open(path, encoding='utf-8', newline='') as f:
            first, _, text = f.read().partition('\n')
        expect(f'{what}: format', first, 'FORMAT ' + path.rpartition('.')[2])
        p = observe.check_source(self.g, self.r, text)
        observe.check_source(self.g, self.r, returned.source)
        shown, back = observe.parse_source(text), observe.parse_source(returned.source)
        direction = (kwargs.get('direction') or self.direction).upper()
        for where, got in (('file', shown), ('returned source', back)):
            expect(f'{what}: direction in the {where}', got.attrs.get('rankdir', 'TB'), direction)
        size = {k: v for k, v in kwargs.items() if k in ('height', 'width')}
        for k, v in shown.attrs.items():
            if k not in ('size', 'ratio', 'rankdir'):
                expect(f'{what}: {k}', back.attrs.get(k), v)
        h, w = size.get('height'), size.get('width')
        if size:
            expect(f'{what}: size', shown.attrs.get('size'), f'{w},{h}!' if h is not None and w is not None else f'{h if h is not None else w}!')
        self.ctx.outcome((first, text))


NAMES = ['x', 'a.b', 'a.b.c', 'a b', ' x ', 'ünï', '.x', 'x.', 'q\'"', '$HOME', '%s', '#1', '*', 'x.svg', 'x.gv', 'CON', 'a\tb', 'a\nb', '(x)', 'a=b', 'a;b', '&', '\\n', 'x.tar', 'x.dot', 'x.png', 'x.pdf', 'x.txt', 'v1.0', '2024.01.01', 'x.SVG', 'x..']
FOLDERS = ['', './', 'sub/', 'd.e/', 'my dir/', 'd.e/f.g/', 'sub/../', 'absent/', 'absent/d.e/', '.hidden/', '/', '/d.e/my dir/', 'ü.ü/', 'link/', 'link/../', '/link/../d.e/', '~/', 'sub/./', 'sub//']
KWARGS = [(), (('direction', 'TB'),), (('direction', 'rl'),), (('height', 3),), (('width', 4),), (('height', 2), ('width', 5), ('pad', 1), ('dpi', 72))]


def path_of(scratch, folder, name, extension):
    """the path, absolute ones below the scratch folder; folders are made unless they are called absent"""
    path = folder + name + '.' + extension
    if folder.startswith('/'):
        path = scratch.work + path
    if 'link' in folder and not os.path.lexists('link'):
        # leads to another folder two levels down, so that link/.. is not where link is
        os.makedirs('far/down')
        os.makedirs('far/d.e')
        os.symlink('far/down', 'link')
    if 'absent' not in folder:
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        if '..' in folder:
            os.makedirs('sub', exist_ok=True)
    return path


def path_cases(tier):
    deep = tier == 'thorough'
    for f in KNOWN_FORMATS:
        for folder in (FOLDERS if deep else ('', 'd.e/')):
            for name in (NAMES if deep else ('x', 'a.b', 'x.' + f)):
                yield ('edge', folder, name, f, ())
    for i, (folder, name) in enumerate(itertools.product(FOLDERS, NAMES)):
        for f in ('svg', 'pdf', 'xdot', 'gv', 'dot', 'png') if deep else (('svg', 'dot', 'gv', 'png')[i % 4], 'svg'):
            yield ('edge', folder, name, f, ())
    for graph in GRAPHS:
        for kw in KWARGS:
            for f in ('svg', 'png', 'pdf', 'plain-ext'):
                for folder, name in (('', 'x'), ('d.e/', 'a b')):
                    yield (graph, folder, name, f, kw)


def run_path(ctx, case):
    graph, folder, name, extension, kw = case
    with Scratch() as s:
        subject = Subject(ctx, graph, s)
        path = path_of(s, folder, name, extension)
        # an "absent" folder may be made, or reported
        if 'absent' in folder:
            s.mode('ok')
            try:
                subject.g.render(path, view=False)
            except Exception:
                if os.path.exists(path):
                    raise Mismatch(f'{path!r} was written and an exception raised')
                subject.settle('the refusal of a missing folder')
                os.makedirs(os.path.dirname(path), exist_ok=True)
        subject.render(path, 'ok', kw)
        subject.render(path, 'ok', kw)
    ctx.state(case)


def obstacle(s, kind, folder, name):
    """sets up what makes writing impossible; returns the path"""
    path = path_of(s, folder, name, 'wav' if kind == 'unknown extension' else 'svg')
    if kind == 'folder is a file':
        with open('file', 'w'):
            pass
        return 'file/' + os.path.basename(path)
    if kind == 'target is a folder':
        os.makedirs(path)
    if kind == 'source is a folder':
        # where the DOT source is kept is not part of the property: a folder of that name may or may not be in the way
        os.makedirs(os.path.splitext(path)[0])
    return path


def attempt_ops(tier):
    deep = tier == 'thorough'
    ops = [('write', 'x', 'svg', m) for m in ('ok',) + FAILURES] + [('write', 'y.z', 'png', m) for m in (('ok', 'partial', 'absent') if not deep else ('ok',) + FAILURES)]
    ops += [('obstacle', k) for k in OBSTACLES] + [('change',), ('svg', 'ok'), ('svg', 'early'), ('svg', 'absent')]
    return ops


def sequence_cases(tier):
    deep = tier == 'thorough'
    ops = attempt_ops(tier)
    for graph in ('edge', 'multi') if not deep else tuple(GRAPHS):
        for n in (1, 2):
            for seq in itertools.product(ops, repeat=n):
                yield (graph, seq)
    for seq in itertools.product(attempt_ops('quick'), repeat=3):
        yield ('multi', seq)


def run_sequence(ctx, case):
    graph, seq = case
    with Scratch() as s:
        subject = Subject(ctx, graph, s)
        for i, op in enumerate(seq):
            if op[0] == 'write':
                subject.render(path_of(s, f'o.{i % 2}/', op[1], op[2]), op[3])
            elif op[0] == 'obstacle':
                os.makedirs(f'obs{i}')
                os.chdir(f'obs{i}')
                path = obstacle(s, op[1], '', 'x')
                if op[1] == 'source is a folder':
                    s.mode('ok')
                    try:
                        returned = subject.g.render(path, view=False)
                    except Exception:
                        pass
                    else:
                        subject.judge('rendering', path, returned, {})
                    subject.settle('rendering beside a folder')
                else:
                    subject.render(path, 'ok', must_fail=True)
                os.chdir('..')
            elif op[0] == 'change':
                subject.change()
            else:
                svg(subject, op[1], ())
    ctx.state(case)


def svg(subject, mode, kwargs):
    subject.scratch.mode(mode)
    try:
        text = subject.g.get_svg(**dict(kwargs))
    except Exception as e:
        if mode == 'ok':
            raise Mismatch(f'SVG picture: {type(e).__name__}: {e}')
    else:
        if mode != 'ok':
            raise Mismatch(f'SVG picture with layout program {mode}: no exception')
        first, _, body = text.partition('\n')
        expect('SVG picture: format', first, 'FORMAT svg')
        observe.check_source(subject.g, subject.r, body)
        p = observe.parse_source(body)
        kw = dict(kwargs)
        if 'direction' in kw:
            expect('SVG picture: direction', p.attrs.get('rankdir', 'TB'), kw['direction'].upper())
        if 'pad' in kw:
            expect('SVG picture: padding', float(p.attrs['pad']), float(kw['pad']))
        subject.ctx.outcome(text)
    subject.ctx.step()
    subject.settle('the SVG picture')


def svg_cases(tier):
    for graph in GRAPHS:
        for mode in ('ok',) + FAILURES:
            for kw in ((), (('direction', 'TB'),), (('direction', 'rl'), ('pad', 2)), (('pad', 0),)):
                yield (graph, mode, kw)


def run_svg(ctx, case):
    graph, mode, kw = case
    with Scratch() as s:
        subject = Subject(ctx, graph, s)
        svg(subject, mode, kw)
        svg(subject, 'ok', kw)
        s.mode('ok')
        first, _, body = subject.g._repr_html_().partition('\n')
        observe.check_source(subject.g, subject.r, body)
    ctx.state(case)


def spelled_cases(tier):
    for f in ('svg', 'png', 'pdf', 'xdot', 'gv', 'cmapx_np', 'plain-ext'):
        for spelling in (str.upper, str.capitalize, lambda x: x[0] + x[1:].upper()):
            for folder, name in (('', 'x'), ('d.e/', 'a.b'), ('', 'X')):
                for before in (False, True):
                    yield ('edge', folder, name, spelling(f), before)


def run_spelled(ctx, case):
    """an extension in another spelling is a format, or it is not: there is a file of exactly that name, or an exception"""
    graph, folder, name, extension, before = case
    with Scratch() as s:
        subject = Subject(ctx, graph, s)
        s.mode('ok')
        path = path_of(s, folder, name, extension)
        lower = path[:-len(extension)] + extension.lower()
        if before:
            subject.g.render(lower, view=False)
        try:
            subject.g.render(path, view=False)
        except Exception:
            if os.path.exists(path):
                raise Mismatch(f'{path!r} was written and an exception raised')
        else:
            if not os.path.isfile(path):
                raise Mismatch(f'rendering to {path!r}: no file of that name, there are {sorted(os.listdir(os.path.dirname(path) or "."))}')
            with open(path, encoding='utf-8') as f:
                expect(f'format of {path!r}', f.readline().rstrip().lower(), 'format ' + extension.lower())
        ctx.step()
        subject.settle('an extension in another spelling')
    ctx.state(case)


# as somebody who may not write there ---------------------------------------------------------------------------

def forbidden_cases(tier):
    for graph in GRAPHS:
        for folder in ('closed/', 'closed/new/', '/closed/'):
            for name, f in (('x', 'svg'), ('a.b', 'png')):
                for readonly in (False, True):
                    yield (graph, folder, name, f, readonly)


def run_forbidden(ctx, case):
    """in a child process without privileges, a folder (or an existing file) that belongs to somebody else"""
    graph, folder, name, f, readonly = case
    with Scratch() as s:
        s.mode('ok')
        os.mkdir('closed')
        path = (s.work if folder.startswith('/') else '') + folder + name + '.' + f
        if readonly and 'new' not in folder:
            with open(path, 'w') as out:
                out.write('old')
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                os.close(r)
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    os.write(w, b'SKIP')
                    os._exit(0)
                subject = Subject(ctx, graph, s)
                subject.scratch = type('Fixed', (), {'mode': staticmethod(lambda m: None)})
                subject.render(path, 'ok', must_fail=True)
                code = 0
            except BaseException as e:
                os.write(w, f'{type(e).__name__}: {e}'.encode()[:4000])
            finally:
                os._exit(code)
        os.close(w)
        data = b''
        while True:
            part = os.read(r, 4096)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if data == b'SKIP':
            ctx.count('unprivileged_cases_skipped')
        elif status != 0:
            raise Mismatch(f'without permission to write {path!r}: {data.decode(errors="replace")}')
        if readonly and 'new' not in folder:
            with open(path) as again:
                expect('the file that may not be written', again.read(), 'old')
    ctx.step(2)
    ctx.state(case)


# with the real layout program --------------------------------------------------------------------------------------

def real_formats():
    program = shutil.which('dot')
    if program is None:
        return None, []
    said = subprocess.run([program, '-T?'], capture_output=True, text=True, stdin=subprocess.DEVNULL).stderr
    there = set(said.partition('Use one of:')[2].split())
    return program, [f for f in KNOWN_FORMATS if f in there and f not in ('x11', 'xlib', 'gtk')]


def real_cases(tier):
    program, formats = real_formats()
    if program is None:
        yield ('none', '', '', ())
        return
    for f in formats:
        yield ('multi', 'd.e/a b', f, ())
    for graph in GRAPHS:
        for f in ('svg', 'png', 'pdf', 'json', 'plain'):
            for stem in ('x', 'd.e/my dir/a.b'):
                for kw in (KWARGS if tier == 'thorough' else KWARGS[:3]):
                    yield (graph, stem, f, kw)


def run_real(ctx, case):
    graph, stem, f, kw = case
    program = shutil.which('dot')
    if program is None:
        ctx.count('real_layout_program_missing')
        return
    with Scratch() as s:
        os.environ['PATH'] = os.path.dirname(program)
        g, r = make(graph)
        path = f'{stem}.{f}'
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        try:
            returned = g.render(path, view=False, **dict(kw))
        except Exception as e:
            # some formats need fonts or libraries: then the program itself must fail on the same source
            source = g.get_graphviz_str()
            if subprocess.run([program, '-T' + f], input=source.encode(), capture_output=True).returncode == 0:
                raise Mismatch(f'rendering to {path!r}: {type(e).__name__}: {e}')
            ctx.count('formats_the_real_program_cannot_write')
            return
        if not os.path.isfile(path):
            raise Mismatch(f'no file {path!r}')
        with open(path, 'rb') as file:
            got = file.read()
        source = g.get_graphviz_source(**dict(kw)).source
        wanted = [subprocess.run([program, '-T' + f], input=source.encode(), capture_output=True).stdout for _ in range(2)]
        if wanted[0] == wanted[1] and f not in ('pdf', 'ps', 'ps2', 'eps', 'svgz', 'vmlz', 'vrml', 'fig', 'pov', 'pic'):
            if got != wanted[0]:
                raise Mismatch(f'{path!r} holds {short(got, 300)}, the program draws {short(wanted[0], 300)}')
        else:
            expect(f'beginning of {path!r}', got[:4], wanted[0][:4])
        expect('returned source', returned.source, g.get_graphviz_source(**{k: v for k, v in kw if k in ('direction', 'pad')}).source)
        observe.check_source(g, r, returned.source)
        ctx.outcome(got[:200])
        ctx.step(3)
    ctx.state(case)


def stages(tier):
    deep = tier == 'thorough'
    return [
        Cases('paths and formats', lambda: path_cases(tier), run_path, f'{len(KNOWN_FORMATS)} formats, {len(FOLDERS)} folders x {len(NAMES)} names, {len(GRAPHS)} graphs x {len(KWARGS)} parameter sets, written twice; stand-in program'),
        Cases('attempts', lambda: sequence_cases(tier), run_sequence, f'every sequence of up to 3 of {len(attempt_ops("quick"))} attempts%s: {len(FAILURES)} failure points of the program, {len(OBSTACLES)} obstacles, successes, changes, pictures' % (f' and of 2 of {len(attempt_ops(tier))} on every graph' if deep else '')),
        Cases('pictures', lambda: svg_cases(tier), run_svg, 'every graph, failure point and parameter set'),
        Cases('spellings of extensions', lambda: spelled_cases(tier), run_spelled, '7 formats in 3 other spellings, in 3 places, with and without a file of the usual spelling'),
        Cases('without permission', lambda: forbidden_cases(tier), run_forbidden, 'folders and files of somebody else, as an unprivileged user'),
        Cases('real program', lambda: real_cases(tier), run_real, 'every format the installed layout program can write; graphs x formats x paths x parameters', chunk=4),
    ]
