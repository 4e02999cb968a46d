"""One live graph and its reference, with an operation language for histories.

Operations are literals, so a history can be stored and replayed:

  ('add', name)                     a new node by name
  ('addx', name, attrs)             a new node with attributes
  ('re', name, attrs, policy)       add_node on an existing name
  ('readd', k)                      add the k-th removed node object again
  ('rm', name, how)                 how: 'n' by name, 'o' by object
  ('con', s, e, id, how[, attrs])   how: 'n' names, 'o' objects, 't' connect_to, 'f' connect_from, 'm' mixed
  ('recon', s, e, id, attrs, policy) connect on an existing edge
  ('dis', key, how)                 how: 'd' graph.disconnect, 'r' edge.remove_self
  ('iso', name)                     node.remove_edges()
  ('set', target, attr, value)      assignment; target ('n', name) or ('e', key)
  ('param', target, key, value, how)
  ('freeze', target) ('unfreeze', target)
  ('render',) ('source',) ('ask',)  render / text / every query
  ('swap', how)                     continue with a copy, pickle, conversion ... of the graph
"""
import pickle

from abstract import Graph

from . import heap, observe
from .core import HarnessError, Mismatch, expect
from .ref import Facts, RGraph
from .shapes import again

NODE_KW = {'label': 'label', 'value': 'value', 'tooltip': 'tooltip'}


def kwargs_of(attrs, kind):
    out = {}
    for k, v in attrs:
        if k == 'style':
            out['style'] = (observe.node_style if kind == 'node' else observe.edge_style)(v)
        else:
            out[k] = v
    return out


def split(attrs):
    """attributes for the reference: known ones and extra parameters"""
    known = {k: v for k, v in attrs if k in ('label', 'value', 'tooltip', 'style')}
    params = {k: v for k, v in attrs if k not in known}
    return known, params


class World:
    rank = True

    def __init__(self, ctx, init=()):
        self.ctx = ctx
        self.settings = dict(init[0]) if init and isinstance(init[0], dict) else {}
        self.g = Graph(**self.settings)
        self.r = RGraph(strict=self.settings.get('strict', False), ordering=self.settings.get('ordering', True),
                        overwrite=self.settings.get('style_overwrite_allowed', False))
        self.gone_nodes = []        # (object, RNode)
        self.gone_edges = []        # (object, key)
        self.rendered = False
        for op in (init[1:] if self.settings or (init and isinstance(init[0], dict)) else init):
            self.apply(op)

    # enabled operations: to be defined by subclasses
    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])

    def fingerprint(self):
        return heap.fingerprint(self.g, self.gone_nodes_real(), [e for e, _ in self.gone_edges])

    def gone_nodes_real(self):
        return [n for n, _ in self.gone_nodes]

    def key(self):
        return (self.r.key(), [n.name for n in self.gone_nodes_real()], [k for _, k in self.gone_edges])

    # checking: which groups of observations the property at hand is about
    groups = ('structure', 'data', 'reach', 'distance', 'loops', 'relatives', 'roots', 'trees', 'source', 'gone')

    def check(self):
        g, r, groups = self.g, self.r, self.groups
        f = Facts(r)
        if 'structure' in groups:
            observe.check_structure(g, r)
        if 'data' in groups:
            observe.check_data(g, r, styles=not self.rendered)
        if 'reach' in groups:
            observe.check_reach(g, r, f)
        if 'distance' in groups:
            observe.check_distance(g, r, f)
        if 'loops' in groups:
            observe.check_loops(g, r, f)
        if 'relatives' in groups:
            observe.check_relatives(g, r, f, rank=self.rank)
        if 'roots' in groups:
            observe.check_roots(g, r, f)
        if 'trees' in groups:
            observe.check_trees(g, r, f, glyphs=False)
        if 'source' in groups:
            observe.check_source(g, r)
        if 'gone' in groups:
            self.check_gone()

    def check_gone(self):
        g, r = self.g, self.r
        for node, rn in self.gone_nodes:
            if node in g:
                raise Mismatch(f'removed node {node.name!r} is still a member')
            if node.graph is not None:
                raise Mismatch(f'removed node {node.name!r} still belongs to a graph')
            if node.outward_edges or node.inward_edges or node.edges:
                raise Mismatch(f'removed node {node.name!r} still has edges')
            if rn.name not in r.nodes and rn.name in g:
                raise Mismatch(f'removed name {rn.name!r} is still a member')
        live = g.edges
        for edge, key in self.gone_edges:
            if edge.graph is not None:
                raise Mismatch(f'removed edge {key} still belongs to a graph')
            if any(e is edge for e in live):
                raise Mismatch(f'removed edge {key} is still listed')

    # targets
    def edge(self, key):
        return self.g.edges_dict[again(key)]

    def target(self, t):
        if t[0] == 'n':
            return self.g.get_node(t[1]), self.r.nodes[t[1]], 'node'
        return self.edge(t[1]), self.r.edges[t[1]], 'edge'

    # operations
    def do_add(self, name):
        self.do_addx(name, ())

    def do_addx(self, name, attrs):
        node, error, warned = observe.call(lambda: self.g.add_node(again(name), **kwargs_of(attrs, 'node')))
        if error:
            raise error
        expect(f'warnings of add_node({name!r})', warned, 0)
        known, params = split(attrs)
        self.r.add(name, params=params, **known)
        expect(f'add_node({name!r}) returns', observe.name_in(self.g, node), name)

    def do_re(self, name, attrs, policy):
        before = self.g.get_node(name)
        node, error, warned = observe.call(
            lambda: self.g.add_node(again(name), if_node_exists=policy, **kwargs_of(attrs, 'node')) if policy is not None
            else self.g.add_node(again(name), **kwargs_of(attrs, 'node')))
        if self.r.nodes[name].frozen and dict(attrs).get('value') is not None:
            if error is None:
                raise Mismatch(f'a new value for the frozen node {name!r} was accepted')
            return
        if policy in (None, 'warn', 'ignore'):
            if error:
                raise error
            expect('warnings', warned, 0 if policy == 'ignore' else 1)
            if node is not before:
                raise Mismatch(f're-adding {name!r} returned another object')
            for k, v in attrs:
                if k in ('label', 'value', 'style'):        # anything else that is given changes nothing
                    setattr(self.r.nodes[name], k, v)
        else:
            if error is None:
                raise Mismatch(f're-adding {name!r} under policy {policy!r} was accepted')

    def do_readd(self, k):
        node, rn = self.gone_nodes.pop(k)
        got = self.g.add_node(node)
        if got is not node:
            raise Mismatch(f'adding the node object {rn.name!r} returned {got!r}')
        self.r.nodes[rn.name] = rn

    def do_rm(self, name, how):
        node = self.g.get_node(name)
        touching = {k: self.edge(k) for k in self.r.edges if name in (k[0], k[1])}
        self.g.remove_node(again(name) if how == 'n' else node)
        rn = self.r.remove(name)
        self.gone_nodes.append((node, rn))
        for k, e in touching.items():
            self.gone_edges.append((e, k))

    def do_con(self, s, e, id, how, attrs=()):
        g = self.g
        kw = kwargs_of(attrs, 'edge')
        if id is not None:
            kw['id'] = again(id)
        a, b = g.get_node(s), g.get_node(e)
        fn = {'n': lambda: g.connect(again(s), again(e), **kw), 'o': lambda: g.connect(start=a, end=b, **kw),
              't': lambda: a.connect_to(b, **kw), 'f': lambda: b.connect_from(a, **kw),
              'm': lambda: g.connect(start=a, end=again(e), **kw)}[how]
        edge, error, warned = observe.call(fn)
        if error:
            raise error
        expect(f'warnings of connect({s!r}, {e!r}, {id!r})', warned, 0)
        known, params = split(attrs)
        self.r.connect(s, e, id, params=params, **known)
        expect('connect returns', edge.id, (s, e, id))
        if self.edge((s, e, id)) is not edge:
            raise Mismatch('connect returned an edge that is not the listed one')

    def do_recon(self, s, e, id, attrs, policy, how='n'):
        before = self.edge((s, e, id))
        g = self.g
        kw = kwargs_of(attrs, 'edge')
        if policy is not None:
            kw['if_edge_exists'] = policy
        kw['id'] = again(id)
        a, b = g.get_node(s), g.get_node(e)
        edge, error, warned = observe.call({
            'n': lambda: g.connect(again(s), again(e), **kw), 'o': lambda: g.connect(start=a, end=b, **kw),
            't': lambda: a.connect_to(b, **kw), 'f': lambda: b.connect_from(a, **kw),
            'm': lambda: g.connect(start=a, end=again(e), **kw)}[how])
        if self.r.edges[s, e, id].frozen and dict(attrs).get('value') is not None:
            if error is None:
                raise Mismatch(f'a new value for the frozen edge {(s, e, id)} was accepted')
            return
        if policy in (None, 'warn', 'ignore'):
            if error:
                raise error
            expect('warnings', warned, 0 if policy == 'ignore' else 1)
            if edge is not before:
                raise Mismatch('re-connecting returned another object')
            for k, v in attrs:
                if k in ('label', 'value', 'style'):
                    setattr(self.r.edges[s, e, id], k, v)
        else:
            if error is None:
                raise Mismatch(f're-connecting under policy {policy!r} was accepted')

    def do_dis(self, key, how):
        edge = self.edge(key)
        if how == 'd':
            self.g.disconnect(edge)
        else:
            edge.remove_self()
        self.r.disconnect(key)
        self.gone_edges.append((edge, key))

    def do_iso(self, name):
        touching = {k: self.edge(k) for k in self.r.edges if name in (k[0], k[1])}
        self.g.get_node(name).remove_edges()
        for k, e in touching.items():
            self.r.disconnect(k)
            self.gone_edges.append((e, k))

    def do_set(self, t, attr, value):
        obj, robj, kind = self.target(t)
        if attr == 'style':
            value_real = (observe.node_style if kind == 'node' else observe.edge_style)(value)
            refused = robj.style is not None and not self.r.overwrite
            _, error, _ = observe.call(lambda: setattr(obj, 'style', value_real))
            if refused:
                if error is None:
                    raise Mismatch(f'replacing the style of {t} was accepted')
            else:
                if error:
                    raise error
                robj.style = value
            return
        if attr == 'value' and robj.frozen:
            _, error, _ = observe.call(lambda: setattr(obj, 'value', value))
            if error is None:
                raise Mismatch(f'assigning the value of frozen {t} was accepted')
            return
        setattr(obj, attr, value)
        setattr(robj, attr, value)

    def do_param(self, t, key, value, how):
        obj, robj, _ = self.target(t)
        if how == 's':
            obj.set(key, value)
        else:
            obj[key] = value
        robj.params[key] = value

    def do_freeze(self, t):
        obj, robj, _ = self.target(t)
        obj.freeze()
        robj.frozen = True

    def do_unfreeze(self, t):
        obj, robj, _ = self.target(t)
        obj.unfreeze()
        robj.frozen = False

    def do_render(self):
        self.g.render(view=False)
        self.rendered = True

    def do_source(self):
        self.g.get_graphviz_str()

    def do_ask(self):
        observe.check_queries(self.g, self.r, rank=self.rank)

    def do_swap(self, how):
        """continue with another graph that must be equivalent"""
        g = self.g
        if how == 'copy':
            new = g.copy()
        elif how.startswith('pickle'):
            new = pickle.loads(pickle.dumps(g, protocol=int(how[6:])))
        elif how == 'convert':
            new = Graph(g)
        elif how == 'dict':
            new = Graph.from_dict(g.__graph__())
        elif how == 'sum':
            new = g + Graph()
        elif how == 'exclude':
            new = g.filter(nodes=[], filter_type='exclude')
        elif how == 'include':
            new = g.filter(nodes=list(self.r.nodes), direction='to_and_from', filter_type='include')
        else:
            raise HarnessError(how)
        if new is g:
            raise Mismatch(f'{how} returned the graph itself')
        self.g = new
        if how in ('convert', 'dict', 'sum'):
            for i, rn in enumerate(self.r.nodes.values()):
                rn.seq = i
                # tooltips, parameters and freezing are not part of the conversion
                rn.tooltip, rn.params, rn.frozen = None, {}, False
            # edges are listed per start node
            order = {n: i for i, n in enumerate(self.r.nodes)}
            for re in self.r.edges.values():
                re.tooltip, re.params, re.frozen = None, {}, False
            self.r.edges = dict(sorted(self.r.edges.items(), key=lambda kv: order[kv[0][0]]))
        self.gone_nodes, self.gone_edges = [], []
