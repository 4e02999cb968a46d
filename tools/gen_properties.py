#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is diffable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook,
        }})


BG, GW, ND, ED, GO = ('abstract/_BasicGraph.py', 'abstract/_GraphWithoutDisplay.py', 'abstract/Node.py',
                      'abstract/Edge.py', 'abstract/_GraphObj.py')
ST = 'abstract/styling/'

p('C01', 'Mutation histories leave exactly the nodes and edges they asked for',
  "After any sequence of adding, removing and re-adding nodes and of connecting, disconnecting and removing edges (given by name or by object, including self-loops and parallel edges with distinct ids), the graph holds exactly the nodes and edges the sequence calls for, nodes in the order they were added and a node's outward and inward edges in the order they were connected. Every edge is listed exactly once by the graph, exactly once among its start node's outward edges and exactly once among its end node's inward edges, and both endpoints are members of that graph; removing a node removes exactly the edges touching it and nothing else. A removed node or edge no longer belongs to the graph, and a removed node object can be added again as a working, edgeless member.",
  ['histories'], 'every sequence of node/edge mutations (any spelling of each operation) from the empty graph',
  'The tests run one short hand-written history each; which earlier step leaves a dangling edge, a stale index or a half-removed self-loop depends on the whole history.',
  [BG, ND, ED],
  [('add_node / remove_node / connect / disconnect', BG), ('append_/remove_ inward/outward edge', ND), ('remove_self', ED)],
  [('node table', 'name -> node, insertion ordered', BG), ('outward/inward edge tables', 'edge id -> edge, one per node and direction', ND)],
  ['Graph.nodes', 'Graph.edges', 'Graph.edges_dict', 'Node.outward_edges', 'Node.inward_edges', 'node in graph'])

p('C02', 'A rejected call raises and changes nothing',
  "A node or edge operation that cannot be carried out - naming an unknown node, a duplicate node or edge under the 'error' policy, adding a node object that belongs to another graph, a name or style of an unsupported type, replacing a style when overwriting is not allowed, assigning the value of a frozen object, or removing something already removed - raises an exception. Afterwards nodes, edges, their order, labels, values, styles and every query answer, of this graph and of any other graph involved, are exactly as before, and the graph goes on working normally.",
  ['histories', 'inputs'], 'every reachable small graph and every rejected call on it',
  'No test exercises an error path; atomicity of a failing call has to hold in every state the graph can be in.',
  [BG, ND, ED, GO], [('error branches of add_node, connect, remove_node, disconnect', BG), ('style setters', ND + ', ' + ED), ('remove_self', ED)],
  (), ['exception', 'snapshot of both graphs before and after'])

p('C03', 'Re-adding a node or edge updates the existing one, never duplicates it',
  "Adding a name that is already a node, or connecting two nodes that already have an edge with the same id, returns the existing object, keeps all its edges, position and unmentioned attributes, and replaces only the label, value or style that the call gives. A warning is issued exactly under the default 'warn' policy, none under 'ignore', and any other policy raises without changing anything. Edges with the same endpoints but different ids, or the opposite direction, are always distinct edges.",
  ['histories', 'inputs'], 'every combination of existing attributes, new attributes, policy and spelling, in every small graph',
  'The duplicate branches are not run by any test, and each depends on which attributes were set before and now.',
  [BG], [('add_node duplicate branch', BG), ('connect duplicate branch', BG)], (), ['returned object', 'label/value/style', 'warnings'])

p('C04', 'Ancestors and descendants are exactly the reachable nodes',
  "For every node of every directed graph, its descendants are exactly the other nodes reachable from it along edges and its ancestors exactly the other nodes from which it can be reached, each listed once; the node itself is listed among its own ancestors exactly when it lies on a cycle and never among its descendants. The node-level and graph-level queries agree, by name or by object, and the answers always reflect the current edges, however the graph was built or changed before.",
  ['inputs', 'histories'], 'every directed graph (self-loops, parallel edges, cycles, diamonds), every insertion order and every mutation history leading to it',
  'One five-node tree is tested; traversal bugs depend on the combination of cycles, diamonds and edge order.',
  [BG, ND], [('_get_ancestors / _get_descendants traversal with visited list', BG)], (), ['Node.ancestors', 'Node.descendants', 'Node.num_descendants', 'Graph.get_ancestors', 'Graph.get_descendants'])

p('C05', 'Distances to ancestors and descendants are shortest-path lengths',
  "When ancestors or descendants are asked for with distances, the answer maps each distance d to exactly the nodes whose shortest path to (or from) the node has length d. Every ancestor or descendant appears under exactly one distance, none is missing, and no distance is listed without nodes.",
  ['inputs'], 'every directed graph and node, every edge order',
  'No test asks for distances; merging the per-branch distances is only wrong for particular shapes (several branches, cycles, shortcuts).',
  [BG], [('get_ancestors / get_descendants with distance=True', BG)], (), ['Graph.get_ancestors(distance=True)', 'Graph.get_descendants(distance=True)'])

p('C06', 'Loop queries match the cycles of the graph',
  "A node is reported to be in a loop exactly when it lies on a directed cycle (a self-loop counts), two nodes are reported in the same loop exactly when each can be reached from the other by at least one edge, and an edge is in a loop exactly when some directed cycle uses it. The list of loop nodes, the node, edge and graph-level forms of the query, and names versus objects, all agree.",
  ['inputs', 'histories'], 'every directed graph, every pair of nodes, after every mutation history',
  'No test calls a loop query; the answer depends on the global cycle structure.',
  [BG, ND, ED], [('is_node_in_loop / are_nodes_in_same_loop / loop_nodes', BG), ('is_in_loop, is_in_loop_with', ND), ('is_in_loop', ED)], (), ['Node.is_in_loop', 'Node.is_in_loop_with', 'Edge.is_in_loop', 'Graph.loop_nodes'])

p('C07', 'Parents, children, siblings and co-parents agree with the edges',
  "A node's parents and children are the endpoints of its inward and outward edges, one entry per edge in connection order; its siblings are the other nodes sharing a parent and its co-parents (spouses) the other nodes sharing a child, each listed once and never the node itself. The counting and has-any forms, the graph-level and node-level forms, the leaves (nodes without children) and the absolute roots (nodes without parents) all agree with those lists. A child's rank is its position among its parent's children in the order in which those nodes were created.",
  ['inputs', 'histories'], 'every directed multigraph with self-loops, every node, after every mutation history',
  'Only one tree-like graph is tested; self-loops, parallel edges and removals change the lists.',
  [BG, ND], [('get_parents/children/siblings/spouses', BG), ('siblings, co_parents, get_child_rank', ND)], (), ['Node.parents', 'Node.children', 'Node.siblings', 'Node.co_parents', 'Graph.get_*/num_*/has_*', 'Graph.leaves', 'Graph.absolute_roots'])

p('C08', 'Roots reach every node and no root reaches another',
  "For every graph the roots are a smallest set of nodes from which every node can be reached: every node is a root or a descendant of one, and no root is a descendant of another root. Where a group of nodes on a common cycle has no parents outside it, exactly one of them, the one added first, is a root; every node without parents is a root.",
  ['inputs'], 'every directed graph and every node insertion order',
  'No test asks for roots; the elimination order matters exactly on cyclic graphs.',
  [BG], [('roots elimination', BG)], (), ['Graph.roots'])

p('C09', 'The tree text shows every node and every edge exactly once and terminates',
  "The tree text of a node, read back by its indentation, is the depth-first unfolding of the graph from that node: each node reached is expanded in full exactly once, with its children in connection order, and a node with children met again is shown with a trailing asterisk and not expanded again. The tree text of a graph is that unfolding from each root in turn, sharing the already expanded nodes, so that every node's label appears and every edge is drawn exactly once, also on cyclic graphs.",
  ['inputs'], 'every directed multigraph with cycles, every start node',
  'No test renders a tree; termination and completeness depend on the shape of cycles and shared children.',
  [ND, BG], [('get_tree_str with already_added', ND), ('get_tree_str over roots', BG)], (), ['Node.get_tree_str', 'Graph.get_tree_str'])

p('C10', 'A copy equals its original and shares nothing with it',
  "Copying a graph, in any state including after rendering, gives a graph with the same nodes, edges, order, labels, values, tooltips, parameters, styles, label converters and graph settings, whose every query answers alike and whose rendering is identical. From then on any change to one of the two (nodes, edges, attributes, mutable values, styles, rendering) leaves the other unaffected, and the copy's nodes and edges belong to the copy.",
  ['histories'], 'every small graph state, every follow-up mutation on either side',
  'No test copies a graph; what is lost or shared depends on the state being copied (styled or not, removed nodes, self-loops, settings).',
  [BG, GW, ND, ED, GO, ST + 'NodeStyle.py', ST + 'EdgeStyle.py'], [('__getstate__/__setstate__ chain and update_nodes/update_edges', GW), ('copy', BG)], (), ['Graph.copy', 'all queries', 'Graph.render().source'])

p('C11', 'Pickling a graph and loading it back loses nothing',
  "Serialising a graph with any pickle protocol and loading it, in the same or another process and in any state including after rendering, gives an independent graph with the same nodes, edges, order, labels, values, tooltips, parameters, styles and graph settings, identical rendering and query answers. It can be changed, rendered, copied and serialised again like any other graph.",
  ['histories', 'inputs'], 'every small graph state and every pickle protocol',
  'No test pickles a graph; the state methods are spread over five classes and each field must survive in every state.',
  [BG, GW, ND, ED, GO, ST + 'NodeStyle.py', ST + 'EdgeStyle.py'], [('__getstate__/__setstate__', GW)], (), ['pickle.loads(pickle.dumps(graph))'])

p('C12', 'Filtering keeps exactly the selected relatives and leaves the source alone',
  "Filtering by a list of nodes selects those nodes together with their ancestors (direction 'to'), their descendants ('from') or both ('to_and_from', the default). The result of 'include' is a new graph with exactly the selected nodes and of 'exclude' exactly the others, in both cases with exactly the original's edges between kept nodes and all attributes and settings intact. The original graph is unchanged and independent of the result.",
  ['inputs'], 'every directed graph, every subset of nodes, direction and filter type',
  'No test filters a graph; the selection depends on reachability in arbitrary graphs.',
  [BG], [('filter', BG)], (), ['Graph.filter'])

p('C13', 'Adding two graphs gives the union and leaves both operands unchanged',
  "The sum of two graphs has exactly the union of their nodes (the left operand's first, then the right's new ones, each in its own order) and of their edges (same endpoints and id means the same edge), each node's outgoing edges likewise, with labels and styles taken from the left operand and, where it has none, from the right. Values of nodes and edges present in both are combined by the given function, by default left plus right, when both have one; otherwise the one present is kept, be it 0 or another false value. Neither operand changes, then or when attributes of the sum are later assigned or the sum is changed or rendered, and the default sum with an empty graph has the same content.",
  ['inputs'], 'every pair of small graphs with overlapping nodes, edges, values, labels and styles',
  'No test adds graphs; the merge has a case per attribute and per presence pattern.',
  [GW], [('add / __add__', GW), ('__graph__', GW), ('append', GW)], (), ['g1 + g2', 'Graph.add'])

p('C14', 'Graphs survive conversion through their dictionary representation',
  "Building a graph from another graph, from any object exposing the same representation (`__graph__`), or from that representation as a dictionary reproduces all nodes and edges with their ids, labels, values and styles, the order of nodes and of each node's outgoing edges, and strictness; any number of repeated conversions changes nothing further. Appending several such sources accumulates them, merging nodes by name and edges by endpoints and id. A list without sources adds nothing. The source is unchanged, and later assignments to the result do not reach it. A colour scheme left open (None) is taken from the source, as are the stylist left open and the permission to overwrite that a dictionary gives. An object without a representation, and an edge definition with too few or too many parts, is refused.",
  ['inputs', 'histories'], 'every small attributed graph, list or tuple of graphs, and every dictionary form (node list or mapping, 2- or 3-part edges)',
  'No test builds a graph from an object or dictionary.',
  [GW], [('__init__(obj) / append / from_dict / __graph__', GW)], (), ['Graph(obj)', 'Graph.from_dict', 'Graph.append'])

p('C15', 'Building from lists gives one edge per row',
  "Building a graph from parallel lists of starts, ends and edge labels gives exactly the distinct names as nodes, in order of first appearance, and exactly one edge per row, from that row's start to its end with its label, including repeated rows and self-loops.",
  ['inputs'], 'every triple of short lists over a few names and labels',
  'No test calls the constructor; repeated rows and self-loops must not be merged.',
  [BG], [('from_lists', BG)], (), ['Graph.from_lists'])

p('C16', 'Building from a linked object captures exactly its relatives and their links',
  "Building a graph from an object that exposes its parents and children gives one node, labelled with the object's text, for the object, each of its descendants and each of its ancestors (within the depth and height limits if given), and exactly one edge from parent to child for each link between the object and its descendants or among them, and likewise for the object and its ancestors. It works for every shape of links, including shared relatives and cycles, without warnings.",
  ['inputs'], 'every small linked object structure, root object, and depth and height limit',
  'No test builds from an object; the order in which relatives are met must not matter.',
  [BG, 'abstract/get_ancestors.py', 'abstract/get_descendants.py'], [('from_object', BG)], (), ['Graph.from_object'])

p('C17', 'Object traversal finds exactly the relatives within the limit, at true distance',
  "For objects exposing their parents and children, the ancestors or descendants within a given limit are exactly the other objects whose shortest chain of links is no longer than the limit (all of them without a limit, none for a limit of zero), each listed once. With distances asked for, each is listed under its shortest distance. Cycles and shared relatives never cause omission, repetition or non-termination.",
  ['inputs'], 'every small link structure, start object and limit',
  'The exported functions are not tested at all; a depth limit combined with a visited set is order dependent.',
  ['abstract/get_ancestors.py', 'abstract/get_descendants.py'], [('get_ancestors', 'abstract/get_ancestors.py'), ('get_descendants', 'abstract/get_descendants.py')], (), ['get_ancestors', 'get_descendants'])

p('C18', 'Indented text becomes the tree its indentation describes',
  "For every consistently indented outline, with the indent unit (spaces or tabs) given or taken from the first indented line, each line with content becomes one node attached to the nearest earlier line that is one level shallower, top-level lines to the root. Parsing reports index, level, untouched content and parent for each line, also when the content itself contains the indent characters and when there are empty lines, which get the level of the line before and are nobody's parent. A line indented by a fraction of the unit or more than one level too deep is rejected.",
  ['inputs'], 'every sequence of indentation levels, indent units, blank lines and contents up to a length',
  'No test parses an outline.',
  ['abstract/parse_indentations_function.py', BG], [('parse_indentations', 'abstract/parse_indentations_function.py'), ('from_indented_text', BG)], (), ['Graph.from_indented_text', 'parse_indentations'])

p('C19', 'Random graphs respect their parameters whatever the dice say',
  "A random graph has exactly the requested number of nodes, named by consecutive numbers from the start index, at most one edge per ordered pair, and unless cycles are allowed only edges from lower to higher numbers, so no loops. Each possible edge is present exactly when its own draw falls below the connection probability; probability 0 (or less) gives no edges and 1 (or more) all of them. The same seed and parameters always give the same graph, whatever else draws random numbers, and drawing it does not change what others draw.",
  ['inputs', 'schedules'], 'every outcome of the random draws for small sizes, every parameter combination',
  'No test builds a random graph; the draws are the environment and have to be enumerated.',
  [GW], [('random', GW)], (), ['Graph.random'])

p('C20', 'Rendered text is valid Graphviz source that says exactly what the graph says',
  "For every graph and every choice of node names with different text, labels, values and tooltips (quotes, backslashes, line breaks, keywords, punctuation, non-Latin text, empty strings), the generated source is well-formed Graphviz text whose nodes are exactly the graph's nodes under distinct identities, and whose edges are exactly the graph's edges, one each, in the right direction. Each node shows its label (its name if it has none) passed through the graph's node label converter, and each edge its label passed through the edge label converter or else its value, and tooltips are shown, all as given, and so are the settings of styles (backslashes keep their Graphviz escape meaning).",
  ['inputs'], 'every combination of hostile strings in names, labels, values and tooltips, converters, and every small multigraph',
  'No test looks at the generated source.',
  [GW, ND, ED], [('get_graphviz_str', GW), ('get_graphviz_str', ND), ('get_graphviz_str', ED), ('display_label / display_label_or_value', GO)], (), ['Graph.get_graphviz_str', 'Graph.render().source'])

p('C21', 'Rendering never fails, styles everything, and can be repeated',
  "Every graph, of any shape (cycles entered from outside, self-loops, parallel edges, no nodes) and with any node and edge values, can be rendered with each built-in stylist, after which every node and every edge has a style. Rendering changes nothing but missing styles: nodes, edges, labels, values and query answers stay the same, rendering again gives the identical text, and the graph can be changed and rendered again at any time. Styles already assigned stay as they were unless overwriting is allowed or a graph-wide or per-element override applies to them.",
  ['inputs', 'histories'], 'every small directed multigraph, stylist and setting; every interleaving of mutations and renderings',
  'No test renders; the styling recursion depends on the cycle structure and on what was styled before.',
  [GW, ST + 'stylize_with_pensieve.py', ST + 'stylize_randomly.py', ST + 'inherit_style.py', ST + 'stylize_edges_based_on_nodes.py', ST + 'is_root_or_parents_are_in_loop.py'],
  [('render / stylize', GW), ('stylize_with_pensieve', ST + 'stylize_with_pensieve.py'), ('inherit_style', ST + 'inherit_style.py')], (), ['Graph.render', 'Node.style', 'Edge.style'])

p('C22', 'Explicit styling wins over automatic styling and reaches only its target',
  "A style given to a node or edge is what is rendered for it under the default stylist, and can be replaced afterwards only if the graph allows overwriting, otherwise the attempt is refused and the style stays. A graph-wide node or edge style given as a dictionary sets its attributes on every node or edge, one given as a style object is applied to those without a style of their own (to all when overwriting is allowed), and the per-node and per-edge styles and colours of a dictionary source apply to exactly the named node or edge, even if that is added or added again after renderings. What is so put on top of a style leaves the style's other settings as they were (a colour replaces its other colours too). The shape 'auto' in a graph-wide node style stands for circles as long as every node name is shorter than three characters. The graph's tables of node and edge styles list exactly the nodes and edges that have a style, with that style. All this also holds when style objects or dictionaries are shared between several nodes, edges or graphs, and they stay as they are.",
  ['inputs', 'histories'], 'every combination of own, graph-wide and per-element styling over small graphs, sharing patterns and repeated rendering',
  'No test combines styling sources.',
  [GW, ND, ED], [('style setters', ND + ', ' + ED), ('stylize', GW)], (), ['Node.style', 'Edge.style', 'Graph.render().source'])

p('C23', 'Style objects keep their settings through copy, serialisation and inversion',
  "A node or edge style renders exactly the attributes it was given, derives missing colours from the given ones, and its copy, deep copy and serialised form render identically and are independent of it: changing any of them never affects another. Inverting colours gives a new style with inverted main colour and leaves the original untouched; complementing with given attributes changes exactly those.",
  ['inputs', 'histories'], 'every combination of style attributes from a small domain, and every short sequence of style operations',
  'The tests only construct default styles.',
  [ST + 'NodeStyle.py', ST + 'EdgeStyle.py'], [('copy, __getstate__/__setstate__, invert_colours, complement', ST + 'NodeStyle.py'), ('the same', ST + 'EdgeStyle.py')], (), ['NodeStyle.get_graphviz_str', 'EdgeStyle.get_graphviz_str'])

p('C24', 'Rendering to a file writes the requested format to the requested path',
  "Rendering to a path writes a file at exactly that path, in the format its extension names, showing the same graph that is returned, for every supported extension and any path with one (dots in directories or names, blanks). If writing fails at any step (no layout program, program failure, unwritable or missing folder) the failure is reported by an exception unless the file was written after all, the graph is unchanged and can be rendered again. The SVG picture of a graph is that of the same rendering with the direction and padding asked for, and failures to draw it raise.",
  ['inputs', 'fault_sequences'], 'every extension and path shape, and every failure point of the external program',
  'No test renders to a file.',
  [GW], [('render with path', GW)], (), ['files written', 'exception', 'layout program invocation'])

p('C25', 'Similarity is a total equivalence that tells different graphs apart',
  "Asking whether two graphs are similar always gives an answer, never an error: yes exactly when both have the same node names, edges (endpoints and ids), equal values, equally rendered styles, equal parameters, strictness and ordering. Two nodes are similar exactly when they have the same name, equal data of that kind and similar edges, two edges when they join nodes of the same names under the same id and have equal data. Similarity is reflexive, symmetric and transitive, holds between a graph and its copy in any state, and does not depend on insertion order or on either graph being changed by the question.",
  ['inputs'], 'every pair of small attributed graphs',
  'No test compares graphs; failures need two graphs of equal size that differ in names or edges.',
  [BG, ND, ED, GO], [('is_similar_to', BG), ('is_similar_to', ND), ('is_similar_to', ED), ('is_similar_to', GO)], (), ['Graph.is_similar_to', 'Node.is_similar_to', 'Edge.is_similar_to'])

p('C26', 'Node and edge data are kept as given until changed, and frozen values stay',
  "The label, value, tooltip and extra parameters given to a node or edge are read back exactly as given (a node without label, or with an empty one, shows its name), survive every operation on other nodes and edges, and change only through an explicit assignment, which affects only that object. While an object is frozen, assigning its value is refused and the value stays; unfreezing restores assignment.",
  ['histories', 'inputs'], 'every short history of creations, assignments, freezing and structural changes over several objects',
  'Tests read back one label and one value.',
  [GO, ND, ED], [('value/label/parameters/freeze', GO)], (), ['label', 'value', 'get/set', 'is_frozen'])

p('C27', 'Graph-wide settings appear in the rendered header, and only as set',
  "The rendered source declares a strict graph exactly when the graph is strict, and carries the direction (the call's own if given, else the graph's), graph label, tooltip, link, font, colours, label position, size and extra attributes exactly as they were set - as parameters, by the representation the graph is built from (which takes precedence; its text label starts on a new line), or, the background, by later assignment - as well-formed text for any strings (a label that is one balanced <...> string is the user's HTML label). A direction or size given to one call affects that rendering only.",
  ['inputs', 'configurations'], 'every combination of graph settings and call parameters from a small domain with hostile strings',
  'No test looks at the header.',
  [GW], [('get_graphviz_header', GW)], (), ['Graph.get_graphviz_str', 'Graph.render'])

p('C28', 'Asking never changes the answer',
  "Queries, membership tests, comparisons, text and tree output, conversion to a dictionary, copying, filtering, adding and similarity tests leave the graph exactly as it was, in any order and any number of repetitions, and give the same answer as on a freshly built equal graph. Lists and distance dictionaries returned by queries are the caller's own: changing them does not change the graph or later answers, and changing the graph does not change them.",
  ['histories'], 'every sequence of queries up to a depth, interleaved with mutations, in every small graph state',
  'Tests ask each query once; hidden caching or aliasing shows only after query-mutate-query sequences.',
  [BG, GW, ND], [('list-building queries and .copy() of edge lists', BG), ('filter on a copy', BG)], (), ['all queries before and after'])

p('C29', 'The same history gives the same result in every process',
  "Building the same graph by the same calls and rendering, adding, filtering, converting, copying or listing it gives the same nodes in the same order, the same edges and the identical rendered text in every process, independently of hash randomisation and of other graphs built before. (Objects linked to each other, as sources of graphs, are taken to have stable hashes.)",
  ['configurations', 'histories'], 'every hash-order of the names involved, every preceding activity from a small menu',
  'Tests run under one hash seed and do not compare processes.',
  [GW, BG, ST + 'stylize_randomly.py', ST + 'get_least_used_colour.py'], [('union of node names in add', GW), ('seeded shuffle', ST + 'stylize_randomly.py'), ('least used colour', ST + 'get_least_used_colour.py')], (), ['rendered text and query answers across processes'])

p('C30', 'Automatic colours come from the scheme, evenly, and follow the structure',
  "When a graph is rendered by the default stylist, the nodes without a style of their own that are in a loop or have no parents outside loops take their main colours from the graph's colour scheme, and no scheme colour is used twice before every other has been used once, so up to the size of the scheme they are all different; the random stylist does this for all nodes it may style. Under the default stylist, children without a style of their own whose only inward edge comes from the same node outside loops get different main colours from one another (as exact colours, not rounded to the 256 levels of the text; unless that node is grey). The main colour of every edge without a style of its own is a darker shade of its start node's, the same for all edges of that node, and its arrow size is scaled by its own numeric value alone.",
  ['inputs'], 'every small graph shape, scheme and root count around the scheme size',
  'No test looks at colours.',
  [ST + 'stylize_with_pensieve.py', ST + 'stylize_randomly.py', ST + 'get_least_used_colour.py', ST + 'inherit_style.py', ST + 'stylize_edges_based_on_nodes.py'],
  [('get_least_used_colour', ST + 'get_least_used_colour.py'), ('get_diverging_number', ST + 'inherit_style.py'), ('stylize_edges_based_on_nodes', ST + 'stylize_edges_based_on_nodes.py')], (), ['Node.style.colour', 'Edge.style.colour', 'rendered arrowsize'])

p('C31', 'Nodes and edges can be told apart, sorted and kept in sets',
  "Among the nodes of a graph, and among its edges, an object equals itself and no other, and != is exactly the opposite of ==. Equal objects have equal hashes, and a hash does not change while its object stays in the graph, whatever else happens to the graph or to the object's data, so nodes and edges can be kept in lists and sets, counted, and used as dictionary keys and found again. Nodes are ordered by <, <=, > and >= in the order in which they were created, consistently with ==, so sorting a graph's nodes gives that order however they were listed. A node that was removed equals none of the nodes in the graph, not even a later one of the same name.",
  ['histories', 'inputs'], 'every small multigraph, every pair of its nodes and edges, every mutation history with the objects kept in sets',
  'No test compares, sorts or hashes nodes or edges; which comparison is wrong depends on ids, names and history.',
  [ND, GO, ED], [('__eq__, __ne__, __hash__, __lt__ and the like', ND), ('__eq__, __ne__, __hash__', GO)], (), ['==', '!=', '<', 'hash', 'sorted', 'sets and dictionaries of nodes and edges'])

p('C32', 'What is cut short comes through and does no harm',
  "A query, comparison, text output, copy, filter, sum or conversion that is cut short - by an error raised in the user's own code while it runs (label converters, value-adding functions, methods of values, labels, source or linked objects) or by an interruption at any moment - passes that exception on unchanged and leaves all graphs involved exactly as they were. A rendering that is cut short changes nothing but styles, and none assigned by hand unless the graph's settings override it. Asked again, everything answers as if nothing had happened, and rendering completes.",
  ['crash_points', 'inputs'], 'every moment of every query and every call of user code failing in turn, with every sort of error',
  'No test makes user code fail or interrupts a call; harm needs a temporary change that is not undone, or a handler that catches too much.',
  [BG, GW, ND, ED, GO, 'abstract/get_ancestors.py', 'abstract/get_descendants.py'], [('operations that build something on the side', GW), ('calls of converters and of methods of values', GO)], (), ['exception', 'snapshot before and after', 'the answer when asked again'])

p('C33', 'Threads that change nothing in common do not disturb one another',
  "Graphs that share nothing but styles, colours, values, sources or settings, which none of them changes, can be built, changed, rendered and combined in different threads at the same time, and one graph can be asked, copied, filtered, compared, added, converted and turned into text by several threads as long as none of them changes or renders it. Each gets exactly what it would have got alone, and what they share stays as it is. The same holds for questions asked by the user's own code (converters, methods of values and sources) while the library is calling it.",
  ['schedules'], 'every schedule with one preemption (chosen pairs: two) of every pair of queries on one graph and of every pair of activities on different graphs; every call of user code that asks in between',
  'No test uses threads; a query that keeps intermediate state in the graph, its class, a module or a shared style is wrong only under some schedules.',
  [BG, GW, ND, ED, GO, ST + 'NodeStyle.py', 'abstract/get_ancestors.py', 'abstract/get_descendants.py'], [('queries and conversions', BG), ('text output and conversions', GW), ('styling', ST + '__init__.py')], (), ['answers and exceptions of both threads', 'snapshot of what they share'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
