"""A parser for the DOT language (the part a writer of digraphs can use), following Graphviz's scanner rules."""
import re

TOKEN = re.compile(r'''
    (?P<space>[ \t\r\n\ufeff]+)
  | (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<edgeop>->|--)
  | (?P<number>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))
  | (?P<id>[A-Za-z_\u0080-\U0010ffff][A-Za-z_0-9\u0080-\U0010ffff]*)
  | (?P<punct>[\[\]{};,=:+])
''', re.X | re.S)


class DotError(Exception):
    pass


def tokens(text):
    pos, out = 0, []
    n = len(text)
    while pos < n:
        c = text[pos]
        if c == '"':
            value, pos = quoted(text, pos)
            out.append(('qstring', value))
            continue
        if c == '<':
            value, pos = html(text, pos)
            out.append(('html', value))
            continue
        if c == '#' and (pos == 0 or text[pos - 1] == '\n'):
            pos = text.find('\n', pos)
            pos = n if pos < 0 else pos
            continue
        m = TOKEN.match(text, pos)
        if not m:
            raise DotError(f'unexpected character {c!r} at {pos}: ...{text[max(0, pos - 40):pos + 40]!r}')
        kind = m.lastgroup
        if kind not in ('space', 'comment'):
            out.append((kind, m.group()))
        pos = m.end()
    return out


def quoted(text, pos):
    """Graphviz: only \\" is replaced (by "); \\\\ stays two characters; backslash newline is a continuation"""
    out, i = [], pos + 1
    while True:
        if i >= len(text):
            raise DotError(f'unterminated string starting at {pos}: {text[pos:pos + 40]!r}')
        c = text[i]
        if c == '"':
            return ''.join(out), i + 1
        if c == '\x00':
            raise DotError('NUL in string')
        if c == '\\' and i + 1 < len(text):
            d = text[i + 1]
            if d == '"':
                out.append('"')
                i += 2
                continue
            if d == '\\':
                out.append('\\\\')
                i += 2
                continue
            if d == '\n':
                i += 2
                continue
            if d == '\r' and text[i + 2:i + 3] == '\n':
                i += 3
                continue
        out.append(c)
        i += 1


def html(text, pos):
    depth, i = 0, pos
    while i < len(text):
        if text.startswith('<!--', i):
            j = text.find('-->', i)
            if j < 0:
                raise DotError('unterminated comment in HTML string')
            i = j + 3
            continue
        if text[i] == '<':
            depth += 1
        elif text[i] == '>':
            depth -= 1
            if depth == 0:
                return text[pos + 1:i], i + 1
        i += 1
    raise DotError('unterminated HTML string')


class Html(str):
    """the text of an HTML-like value (different from the same text in quotes)"""
    def __eq__(self, other):
        return isinstance(other, Html) and str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other
    __hash__ = str.__hash__


class Parsed:
    def __init__(self):
        self.strict = False
        self.directed = None
        self.attrs = {}         # graph attributes
        self.nodes = {}         # name -> attributes, in order of first appearance
        self.edges = []         # (start, end, attributes)
        self.statements = 0


KEYWORDS = {'strict', 'graph', 'digraph', 'node', 'edge', 'subgraph'}


class Parser:
    def __init__(self, text):
        self.toks = tokens(text)
        self.i = 0
        self.result = Parsed()

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ('end', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def want(self, value):
        t = self.next()
        if t[0] not in ('punct', 'edgeop') or t[1] != value:
            raise DotError(f'expected {value!r}, got {t}')

    def at(self, value):
        t = self.peek()
        return t[0] in ('punct', 'edgeop') and t[1] == value

    def keyword(self, *words):
        t = self.peek()
        return t[0] == 'id' and t[1].lower() in words

    def ident(self):
        kind, value = self.next()
        if kind == 'id':
            if value.lower() in KEYWORDS:
                raise DotError(f'keyword {value} used as a name')
            return value
        if kind == 'number':
            return value
        if kind == 'html':
            return Html(value)
        if kind == 'qstring':
            while self.at('+') and self.peek(1)[0] == 'qstring':
                self.next()
                value += self.next()[1]
            return value
        raise DotError(f'expected a name, got {(kind, value)}')

    def parse(self):
        r = self.result
        if self.keyword('strict'):
            self.next()
            r.strict = True
        if not self.keyword('graph', 'digraph'):
            raise DotError(f'not a graph: {self.peek()}')
        r.directed = self.next()[1].lower() == 'digraph'
        if not self.at('{'):
            self.ident()
        self.block(r.attrs, {}, {})
        if self.peek()[0] != 'end':
            raise DotError(f'text after the graph: {self.peek()}')
        return r

    def block(self, attrs, node_defaults, edge_defaults):
        self.want('{')
        members = []
        while not self.at('}'):
            if self.peek()[0] == 'end':
                raise DotError('missing }')
            if self.at(';'):
                self.next()
                continue
            members += self.statement(attrs, node_defaults, edge_defaults)
            self.result.statements += 1
        self.want('}')
        return members

    def statement(self, attrs, nd, ed):
        if self.keyword('graph', 'node', 'edge'):
            what = self.next()[1].lower()
            target = {'graph': attrs, 'node': nd, 'edge': ed}[what]
            if not self.at('['):
                raise DotError(f'{what} without attributes')
            target.update(self.attr_list())
            return []
        if self.peek()[0] in ('id', 'number', 'qstring', 'html') and not self.keyword('subgraph') \
                and self.peek(1) == ('punct', '='):
            key = self.ident()
            self.want('=')
            attrs[key] = self.ident()
            return []
        ends = [self.endpoint(attrs, nd, ed)]
        while self.at('->') or self.at('--'):
            op = self.next()[1]
            if (op == '->') != self.result.directed:
                raise DotError(f'wrong edge operator {op}')
            ends.append(self.endpoint(attrs, nd, ed))
        given = self.attr_list() if self.at('[') else {}
        if len(ends) == 1:
            names, single = ends[0]
            if single:
                self.result.nodes[names[0]].update(given)
            return names
        for (a, _), (b, _) in zip(ends, ends[1:]):
            for x in a:
                for y in b:
                    self.result.edges.append((x, y, {**ed, **given}))
        return [n for names, _ in ends for n in names]

    def endpoint(self, attrs, nd, ed):
        if self.keyword('subgraph') or self.at('{'):
            if self.keyword('subgraph'):
                self.next()
                if not self.at('{'):
                    self.ident()
            return self.block({}, dict(nd), dict(ed)), False
        name = self.ident()
        while self.at(':'):
            self.next()
            self.ident()
        if name not in self.result.nodes:
            self.result.nodes[name] = dict(nd)
        return [name], True

    def attr_list(self):
        out = {}
        while self.at('['):
            self.next()
            while not self.at(']'):
                if self.at(',') or self.at(';'):
                    self.next()
                    continue
                key = self.ident()
                if self.at('='):
                    self.next()
                    out[key] = self.ident()
                else:
                    out[key] = 'true'
            self.want(']')
        return out


def parse(text):
    return Parser(text).parse()


def name_of(name):
    """the value a node with this name has in parsed source when written faithfully: Graphviz keeps backslashes
    doubled in names, so identity is judged up to that"""
    return str(name)


def unescape_name(parsed):
    return parsed.replace('\\\\', '\\')


def display(text):
    """what Graphviz shows for a label: [lines], a line break being \\n, \\l, \\r or a real line break"""
    out, i = [], 0
    text = str(text)
    while i < len(text):
        c = text[i]
        if c == '\\' and i + 1 < len(text) and text[i + 1] != '\n':
            d = text[i + 1]
            if d in 'nlr':
                out.append(('break', d))
            elif d in 'NGETHL':
                out.append(('subst', d))
            else:
                out.append(d)
            i += 2
        elif c == '\n':
            out.append(('break', 'n'))
            i += 1
        else:
            out.append(c)
            i += 1
    return out
