From 1b4ca22faceef806cecc865946c9080f49a6f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 01/40] fix: membership test with a node object raised
 TypeError for members

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..4e7bd82 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return self._nodes_dict.get(item.id) is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From 5dc06c5e7742fc919e74349ca8c9c480731498bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 02/40] fix: add_node with a node object returned None or left
 the node without a graph

---
 abstract/_BasicGraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 4e7bd82..e6d0dc1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -311,16 +311,18 @@ class BasicGraph:
 					pass
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				return node
 			else:
 				if node.graph is not None:
 					if node.graph is self:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From 6039af88edf20986d716d09c8cade7af182be924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 03/40] fix: from_object failed on every object (integer names,
 links to relatives not yet added)

---
 abstract/_BasicGraph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index e6d0dc1..0bd542c 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -137,19 +137,20 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
@@ -277,7 +278,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
-- 
2.43.0


From a7e87ed2e15dea5a9e297f33b455d1df06c18530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 04/40] fix: object traversal lost relatives under a depth
 limit and reported wrong distances

---
 abstract/get_ancestors.py   | 50 +++++++++++++++----------------------
 abstract/get_descendants.py | 50 +++++++++++++++----------------------
 2 files changed, 40 insertions(+), 60 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..b3e363d 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,34 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_ancestors(obj, max_height: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the ancestors of an object.
 
 	Args:
 		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+	ancestors = []
+	ancestors_dict = {}
+	objects_travelled = [obj]
+	this_level = [obj]
+	distance = 0
+	while len(this_level) > 0 and (max_height is None or distance < max_height):
+		distance += 1
+		next_level = []
+		for relative in this_level:
+			for parent in relative.__parents__():
+				if parent not in objects_travelled:
+					objects_travelled.append(parent)
+					next_level.append(parent)
+		if len(next_level) > 0:
+			ancestors.extend(next_level)
+			ancestors_dict[distance] = next_level
+		this_level = next_level
+	return ancestors, ancestors_dict
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +43,7 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
 	if distance:
 		return ancestors_dict
 	else:
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..1ec2f09 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,34 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_descendants(obj, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
 	Retrieves the descendants of an object.
 
 	Args:
 		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
-					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+	descendants = []
+	descendants_dict = {}
+	objects_travelled = [obj]
+	this_level = [obj]
+	distance = 0
+	while len(this_level) > 0 and (max_depth is None or distance < max_depth):
+		distance += 1
+		next_level = []
+		for relative in this_level:
+			for child in relative.__children__():
+				if child not in objects_travelled:
+					objects_travelled.append(child)
+					next_level.append(child)
+		if len(next_level) > 0:
+			descendants.extend(next_level)
+			descendants_dict[distance] = next_level
+		this_level = next_level
+	return descendants, descendants_dict
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +43,7 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-- 
2.43.0


From 1ef58af50d4c3cd4882937b8324ed4c2815596d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 05/40] fix: distances to ancestors and descendants lost nodes
 and were not shortest

---
 abstract/_BasicGraph.py | 53 +++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 0bd542c..771570b 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -515,23 +515,44 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		parents = self.get_parents(node=node)
 		if len(parents) == 0:
-			return [], {}
+			return []
 		else:
 			ancestors = []
-			ancestors_dict = {1: []}
 			for parent in parents:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
 
 				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
+					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
 					for ancestor in parent_ancestors:
 						if ancestor not in ancestors:
 							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+			return ancestors
+
+	def _group_by_distance(self, node, relatives, get_neighbours):
+		"""
+		groups the relatives (ancestors or descendants) of a node by their shortest distance to the node
+		:type node: Node or str
+		:type relatives: list[Node]
+		:param callable get_neighbours: either get_parents or get_children
+		:rtype: dict[int,list[Node]]
+		"""
+		result = {}
+		remaining = relatives.copy()
+		this_level = [self.get_node(node)]
+		distance = 0
+		while len(remaining) > 0 and len(this_level) > 0:
+			distance += 1
+			next_level = []
+			for relative in this_level:
+				for neighbour in get_neighbours(node=relative):
+					if neighbour in remaining:
+						remaining.remove(neighbour)
+						next_level.append(neighbour)
+			if len(next_level) > 0:
+				result[distance] = next_level
+			this_level = next_level
+		return result
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -539,9 +560,9 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
+		ancestors = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)
 		else:
 			return ancestors
 
@@ -574,22 +595,18 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		children = self.get_children(node=node)
 		if len(children) == 0:
-			return [], {}
+			return []
 		else:
 			descendants = []
-			descendants_dict = {1: []}
 			for child in children:
 				if child not in nodes_travelled:
 					if child not in descendants:
 						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
+					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
 					for descendant in child_descendants:
 						if descendant not in descendants:
 							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+			return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -597,9 +614,9 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
+		descendants = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return self._group_by_distance(node=node, relatives=descendants, get_neighbours=self.get_children)
 		else:
 			return descendants
 
-- 
2.43.0


From 09d552ae46040f0842513a0fae3fadfc72d5435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 06/40] fix: filter ignored its direction

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 771570b..a751933 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From 38c51cda1cea7eca2c9e1284c57d16455417e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 07/40] fix: styles could not be copied or pickled (state
 lacked opacity and derived-colour flags)

---
 abstract/styling/EdgeStyle.py | 2 ++
 abstract/styling/NodeStyle.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..8e556d6 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -116,6 +116,7 @@ class EdgeStyle:
 			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
@@ -127,6 +128,7 @@ class EdgeStyle:
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 		self._text_size = state['_text_size']
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..832a66b 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,6 +166,11 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
+			'_lighter_fill': self._lighter_fill,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
@@ -177,6 +182,10 @@ class NodeStyle:
 		self._colour = state['_colour']
 		self._fill_colour = state['_fill_colour']
 		self._border_colour = state['_border_colour']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
+		self._lighter_fill = state['_lighter_fill']
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
-- 
2.43.0


From b98fc9f4016566daf17f89319e3ede714d4e1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 08/40] fix: style copies lost lighter_fill and label_style

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 8e556d6..70270e5 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 832a66b..0717642 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From 615e8240ec239e0e630637a33fe3fdff61cd4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 09/40] fix: copied, filtered and unpickled graphs lost their
 settings and could not be rendered

---
 abstract/_BasicGraph.py          |  2 +-
 abstract/_GraphWithoutDisplay.py | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index a751933..a4a8a86 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,7 +31,7 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter']
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..f852506 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -108,6 +108,16 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction',
+		'_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites',
+		'_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour',
+		'_tooltip', '_font', '_font_size', '_kwargs',
+		'_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
-- 
2.43.0


From b786650461438c9110bfdbb1018a3f7ad11c566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 10/40] fix: inverting a node style dropped fill and border
 colours assigned after creation

---
 abstract/styling/NodeStyle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 0717642..dd7e6d1 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -135,6 +135,7 @@ class NodeStyle:
 	def fill_colour(self, fill_colour):
 		if fill_colour is not None:
 			self._fill_colour = Colour(fill_colour)
+			self._fill_colour_based_on_main_colour = False
 
 	@property
 	def border_colour(self):
@@ -147,6 +148,7 @@ class NodeStyle:
 	def border_colour(self, border_colour):
 		if border_colour is not None:
 			self._border_colour = Colour(border_colour)
+			self._border_colour_based_on_main_colour = False
 
 	@property
 	def text_colour(self):
-- 
2.43.0


From 609089ba4ba0d9c1d7e6ba0b79aa5479019eae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 11/40] fix: graphs with edges could not be converted or added,
 and converted nodes lost their labels

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index f852506..e96351a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -537,7 +537,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node._label,
 				'value': node.value,
 				'style': node.style
 			}
@@ -548,7 +548,7 @@ class GraphWithoutDisplay(BasicGraph):
 					edge.end.id,
 					{
 						'id': edge.raw_id,
-						'label': edge.raw_label,
+						'label': edge._label,
 						'value': edge.value,
 						'style': edge.style
 					}
-- 
2.43.0


From c015fe00e3c29a6030b0faf680fa1c6c858882eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 12/40] fix: converting a graph failed without a graph label
 and grew the label at every conversion

---
 abstract/_GraphWithoutDisplay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index e96351a..c568e0a 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -445,7 +445,10 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				label = dictionary['label']
+				if label is not None and not label.startswith('\n'):
+					label = '\n' + label
+				self._label = label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From b392f9e52ed2a37a3e0dac427d0fe6493f500e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 13/40] fix: rendering failed when a node outside loops leads
 into a loop

---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..78fbd87 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -19,7 +19,7 @@ def stylize_with_pensieve(
 	# roots or semi-roots
 	for node in graph.nodes:
 		if node.style is None:
-			if is_root_or_parents_are_in_loop(node):
+			if is_root_or_parents_are_in_loop(node) or node.is_in_loop():
 				colour = get_least_used_colour(colours_used)
 				if node_style is None:
 					style = NodeStyle(colour=colour)
-- 
2.43.0


From 546f64b1efbf349a071911525a206d0a9e43b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 14/40] fix: edge arrow sizes accumulated over edges, and
 non-numeric edge values broke rendering

---
 abstract/styling/stylize_edges_based_on_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..d199620 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			if isinstance(edge.value, (int, float)):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 2c99be9313255069113c67126489665a65ae4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 15/40] fix: the random stylist failed on nodes that already
 have a style, so on every second rendering

---
 abstract/styling/stylize_randomly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..201bb41 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,6 +23,8 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
+		if node.style is not None and not graph._style_overwrite_allowed:
+			continue
 		colour = get_least_used_colour(colours_used)
 		if node_style is None:
 			style = NodeStyle(colour=colour)
-- 
2.43.0


From f53ae72aedc15181ce77778debd3b9f244ab5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 16/40] fix: edge_styles of a dictionary source were taken for
 colours

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c568e0a..df24c5e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -501,7 +501,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From 0c6de88fe8a003f37d7ee621f4d51cfd137972a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 17/40] fix: graphs with per-edge styles or colours could not
 be converted or added

---
 abstract/_GraphWithoutDisplay.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index df24c5e..c538eec 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -500,7 +500,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
-					edge_id = edges_dict[parent_child_edge_id]
+					edge_id = parent_child_edge_id if len(parent_child_edge_id) == 3 else edges_dict[parent_child_edge_id]
 					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
@@ -509,7 +509,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'edge_colours' in dictionary:
 				for parent_child_edge_id, colour in dictionary['edge_colours'].items():
-					edge_id = edges_dict[parent_child_edge_id]
+					edge_id = parent_child_edge_id if len(parent_child_edge_id) == 3 else edges_dict[parent_child_edge_id]
 					self._edge_colour_overwrites[edge_id] = colour
 
 			return self
@@ -568,6 +568,7 @@ class GraphWithoutDisplay(BasicGraph):
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites,
+			'edge_colours': self._edge_colour_overwrites,
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From c5de14e7ce2bee7c27faa7e7f647a17eccd4b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 18/40] fix: graph-wide and per-element styles made rendering
 fail, leaked through shared style objects, and could not be rendered twice

---
 abstract/_GraphWithoutDisplay.py | 63 +++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c538eec..7aaa7c6 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -233,24 +233,43 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}
 
+	@staticmethod
+	def _overwrite_style(obj, style):
+		"""
+		Changes the style of a node or edge as the graph demands; the style object itself may be shared and is not changed.
+
+		Args:
+			obj (Node or Edge): The node or edge.
+			style (NodeStyle or EdgeStyle or Dict): The new style, or, as a dictionary, the attributes to change.
+		"""
+		if isinstance(style, dict) and obj._style is not None:
+			new_style = obj._style.copy()
+			new_style.complement(style)
+			obj._style = new_style
+		else:
+			obj._style = None
+			obj.style = style
+
 	def stylize(self):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None or self._style_overwrite_allowed:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None or self._style_overwrite_allowed:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
@@ -258,43 +277,51 @@ class GraphWithoutDisplay(BasicGraph):
 			stylize_randomly(graph=self)
 
 		for name, style in self._node_style_overwrites.items():
-			self.nodes_dict[name].style.complement(style)
+			if name in self.nodes_dict:
+				self._overwrite_style(self.nodes_dict[name], style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			edge = self.edges_dict.get(edge_id)
+			if edge is not None:
+				edge._style = None
+				edge.style = style
 
 		for name, colour in self._node_colour_overwrites.items():
-			node = self.nodes_dict[name]
-			style = node.style.copy()
+			node = self.nodes_dict.get(name)
+			if node is None:
+				continue
+			style = NodeStyle() if node.style is None else node.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			node.style = style
+			node._style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-			edge = self.edges_dict[edge_id]
-			_ = edge.style.colour
-			style = edge.style.copy()
+			edge = self.edges_dict.get(edge_id)
+			if edge is None:
+				continue
+			style = EdgeStyle() if edge.style is None else edge.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			edge.style = style
-			_ = edge.style.colour
+			edge._style = style
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+				if isinstance(smart_global_node_style_overwrite, dict):
+					self._overwrite_style(node, smart_global_node_style_overwrite)
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style.complement(self._global_edge_style_overwrite)
+				if isinstance(self._global_edge_style_overwrite, dict):
+					self._overwrite_style(edge, self._global_edge_style_overwrite)
 
 	def get_graphviz_header(
 			self, dpi: int = 300, direction: Optional[str] = None, 
-- 
2.43.0


From 4cbd58d49377a397f1a0d2e9b636e72f545f21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 19/40] fix: adding two graphs changed the style overwrites of
 the left one

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 7aaa7c6..d4c29a5 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -667,10 +667,10 @@ class GraphWithoutDisplay(BasicGraph):
 		d1 = self.__graph__()
 		d2 = other.__graph__()
 
-		node_styles = d1['node_styles']
+		node_styles = d1['node_styles'].copy()
 		node_styles.update(d2['node_styles'])
 
-		edge_styles = d1['edge_styles']
+		edge_styles = d1['edge_styles'].copy()
 		edge_styles.update(d2['edge_styles'])
 
 		if add_values_function is None:
-- 
2.43.0


From 51cedb7b9b9ab3fcab3cce5d16007b637e0aba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 20/40] fix: adding two graphs ignored the left node values and
 lost values like 0

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d4c29a5..2af5d88 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -676,7 +676,7 @@ class GraphWithoutDisplay(BasicGraph):
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None or y is None:
-					return x or y
+					return y if x is None else x
 				else:
 					return x + y
 
@@ -689,7 +689,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From 45c6b92c810764bf816a09101402b635a1d516dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 21/40] fix: node order, and so rendering, of the sum of two
 graphs depended on hash randomisation

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 2af5d88..76208e8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -681,7 +681,7 @@ class GraphWithoutDisplay(BasicGraph):
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in list(d1['nodes'].keys()) + [key for key in d2['nodes'].keys() if key not in d1['nodes']]:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
-- 
2.43.0


From 6f9742dfc703f4281f4d881e336f95ece6ee102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 22/40] fix: rendering to a file ignored the format of the path
 and always wrote a pdf

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 76208e8..da0ae79 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -770,7 +770,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From b1bc4ac6aaca97df1cd3f4adb496589c81fc4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 23/40] fix: comparing graphs with different node names or
 edges raised KeyError

---
 abstract/Node.py        | 8 ++++----
 abstract/_BasicGraph.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..4680a37 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,12 +120,12 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
-			other_outward_edge = other._outward_edges_dict[id]
-			if not outward_edge.is_similar_to(other=other_outward_edge):
+			other_outward_edge = other._outward_edges_dict.get(id)
+			if other_outward_edge is None or not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
-			other_inward_edge = other._inward_edges_dict[id]
-			if not inward_edge.is_similar_to(other=other_inward_edge):
+			other_inward_edge = other._inward_edges_dict.get(id)
+			if other_inward_edge is None or not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
 		return True
 
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index a4a8a86..7a85ffe 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -770,8 +770,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
-			other_node = other._nodes_dict[name]
-			if not node.is_similar_to(other=other_node):
+			other_node = other._nodes_dict.get(name)
+			if other_node is None or not node.is_similar_to(other=other_node):
 				return False
 
 		if self._is_strict != other._is_strict:
-- 
2.43.0


From ff019bff99ce1f29b47b4952dbf128955fd1aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 24/40] fix: a styled graph was not similar to its own copy

---
 abstract/_GraphObj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..5a1d3cc 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -147,7 +147,10 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		if self._style is None or other._style is None:
+			condition_3 = self._style is other._style
+		else:
+			condition_3 = self._style.get_graphviz_str() == other._style.get_graphviz_str()
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
-- 
2.43.0


From cabcba567915ae3a1041d6c6a07074ecae242a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 25/40] fix: parsing an outline changed indent characters
 inside contents and failed on a blank first line

---
 abstract/parse_indentations_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..7566ff3 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -15,6 +15,7 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	"""
 	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
@@ -22,7 +23,8 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
 		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+			content = line.lstrip(indent)
+			line = line[:len(line) - len(content)].replace(indent, " " * 4) + content
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From a199a0de53ef5497f4da32552ad7d91cc81ba476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 26/40] fix: quotes and backslashes in names, labels and
 tooltips broke the Graphviz source or changed Node.label

---
 abstract/Edge.py             |  7 ++++---
 abstract/Node.py             |  9 +++++----
 abstract/graphviz_strings.py | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 7 deletions(-)
 create mode 100644 abstract/graphviz_strings.py

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..db85ffd 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,5 +1,6 @@
 from ._GraphObj import GraphObj
 from .styling.EdgeStyle import EdgeStyle
+from .graphviz_strings import escape_name, escape_text
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
 
@@ -144,9 +145,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label="{escape_text(label_or_value)}"')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_text(self._tooltip)}"')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +156,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'"{escape_name(self.start.name)}" -> "{escape_name(self.end.name)}"' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index 4680a37..9358698 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,5 +1,6 @@
 from ._GraphObj import GraphObj
 from .styling.NodeStyle import NodeStyle
+from .graphviz_strings import escape_name, escape_text
 from typing import Optional, Union, List, Dict
 
 
@@ -224,7 +225,7 @@ class Node(GraphObj):
 			result = str(self._label)
 		else:
 			result = str(self.id)
-		return result.replace('"', '\\"')
+		return result
 
 	@label.setter
 	def label(self, label: str):
@@ -318,16 +319,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label="{escape_text(self.display_label())}"']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_text(self._tooltip)}"')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'"{escape_name(self.id)}" [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/graphviz_strings.py b/abstract/graphviz_strings.py
new file mode 100644
index 0000000..864bfcb
--- /dev/null
+++ b/abstract/graphviz_strings.py
@@ -0,0 +1,32 @@
+import re
+
+
+def escape_name(name) -> str:
+	"""
+	Escapes the name of a node so that it can be put in a quoted string in Graphviz, different names stay different.
+
+	Args:
+		name: The name of the node.
+
+	Returns:
+		str: The escaped name.
+	"""
+	return str(name).replace('\\', '\\\\').replace('"', '\\"')
+
+
+def escape_text(text) -> str:
+	"""
+	Escapes a label or tooltip so that it can be put in a quoted string in Graphviz.
+	Graphviz escape sequences, such as a backslash followed by n, keep their meaning.
+
+	Args:
+		text: The text to show.
+
+	Returns:
+		str: The escaped text.
+	"""
+	return re.sub(
+		r'\\.|\\|"',
+		lambda match: match.group() if len(match.group()) == 2 else '\\' + match.group(),
+		str(text)
+	)
-- 
2.43.0


From 7a370817ec0668795cff1b44ba6f69dcfebea474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 27/40] fix: quotes and backslashes in graph settings broke the
 Graphviz source

---
 abstract/_GraphWithoutDisplay.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index da0ae79..4aad5ce 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -1,7 +1,9 @@
 from ._BasicGraph import BasicGraph
 from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
+from .graphviz_strings import escape_text
 from graphviz import Source
+from html import escape as escape_html
 import os
 from functools import wraps
 import random
@@ -356,28 +358,29 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
-					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{self._label}">{self._label} </td></tr></table>'
-					if self._label_location[0] == 't':
+					label = escape_html(self._label)
+					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{label}">{label} </td></tr></table>'
+					if self._label_location is not None and self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = f'"{escape_text(self._label)}"'
 
 			if self._label_location is not None:
 				attributes['labelloc'] = f'"{self._label_location[0]}"'
 			if self._font_size is not None:
 				attributes['fontsize'] = f'{self._font_size}'
 			if self._font is not None:
-				attributes['fontname'] = f'"{self._font}"'
+				attributes['fontname'] = f'"{escape_text(self._font)}"'
 			if self._label_colour is not None:
-				attributes['fontcolor'] = f'"{self._label_colour}"'
+				attributes['fontcolor'] = f'"{escape_text(self._label_colour)}"'
 			if self._label_url is not None:
-				attributes['href'] = f'"{self._label_url}"'
+				attributes['href'] = f'"{escape_text(self._label_url)}"'
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = f'"{escape_text(self._tooltip)}"'
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
@@ -385,7 +388,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if isinstance(value, int):
 				attributes[key] = value
 			else:
-				attributes[key] = f'"{value}"'
+				attributes[key] = f'"{escape_text(value)}"'
 
 		if len(attributes) > 0:
 			second_part += '\t graph [' + ', '.join([f'{key} = {value}' for key, value in attributes.items()]) + ' ];\n'
-- 
2.43.0


From 58e714d92815ba79fafa1e3793b7dfb08e8fe95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 28/40] fix: a refused value for a frozen node or edge still
 changed its label or style

---
 abstract/_BasicGraph.py | 14 ++------------
 abstract/_GraphObj.py   | 11 +++++++++++
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 7a85ffe..088ed5f 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -288,12 +288,7 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
-				if style is not None:
-					node.style = style
-				if label is not None:
-					node.label = label
-				if value is not None:
-					node.value = value
+				node.update(label=label, value=value, style=style)
 				return node
 
 			else:
@@ -721,12 +716,7 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
-			if style is not None:
-				edge.style = style
-			if label is not None:
-				edge.label = label
-			if value is not None:
-				edge.value = value
+			edge.update(label=label, value=value, style=style)
 
 		elif edge_id in start.outward_edges and edge_id not in end.inward_edges:
 			raise ValueError(
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 5a1d3cc..d2e2e08 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -95,6 +95,17 @@ class GraphObj:
 			raise RuntimeError('GraphObj is frozen!')
 		self._value = value
 
+	def update(self, label=None, value=None, style=None):
+		# everything that can be refused is refused before anything is changed
+		if value is not None and self.is_frozen:
+			raise RuntimeError('GraphObj is frozen!')
+		if style is not None:
+			self.style = style
+		if label is not None:
+			self.label = label
+		if value is not None:
+			self.value = value
+
 	@property
 	def label(self):
 		return self._label
-- 
2.43.0


From db892ac82f00c30d5689faa2b748899584dd7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 29/40] fix: a fraction of an indent of more than four spaces
 counted as a level

---
 abstract/parse_indentations_function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7566ff3..299c8c4 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -24,7 +24,10 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
 		if indent is not None:
 			content = line.lstrip(indent)
-			line = line[:len(line) - len(content)].replace(indent, " " * 4) + content
+			prefix = line[:len(line) - len(content)]
+			if prefix.replace(indent, ''):
+				raise ValueError('Indentation not a multiple of the indent: "{0}"'.format(line))
+			line = prefix.replace(indent, " " * 4) + content
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From cbf63cd5fe4cc16b01339641b71d32dc47d5a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 30/40] fix: an edge value beyond the range of floats made
 rendering fail

---
 abstract/styling/stylize_edges_based_on_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index d199620..00ff89a 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -14,6 +14,9 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 				style.colour = colour
 
 			if isinstance(edge.value, (int, float)):
-				style._arrow_size *= edge.value
+				try:
+					style._arrow_size *= edge.value
+				except OverflowError:
+					pass  # an integer beyond the range of floats cannot scale the arrow
 
 			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 3c3331b2ed2e0b6386fc6ab014a83f2ddd9bb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 31/40] fix: a graph label that only starts and ends with angle
 brackets broke the Graphviz source

---
 abstract/_GraphWithoutDisplay.py |  4 ++--
 abstract/graphviz_strings.py     | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 4aad5ce..be12f8e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -1,7 +1,7 @@
 from ._BasicGraph import BasicGraph
 from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
-from .graphviz_strings import escape_text
+from .graphviz_strings import escape_text, is_html_string
 from graphviz import Source
 from html import escape as escape_html
 import os
@@ -354,7 +354,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		attributes = {}
 		if self._label is not None:
-			if self._label.startswith('<') and self._label.endswith('>'):
+			if is_html_string(self._label):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
diff --git a/abstract/graphviz_strings.py b/abstract/graphviz_strings.py
index 864bfcb..6ea9f67 100644
--- a/abstract/graphviz_strings.py
+++ b/abstract/graphviz_strings.py
@@ -30,3 +30,26 @@ def escape_text(text) -> str:
 		lambda match: match.group() if len(match.group()) == 2 else '\\' + match.group(),
 		str(text)
 	)
+
+
+def is_html_string(text: str) -> bool:
+	"""
+	Tells if a text is an HTML string in Graphviz: it starts with < and the matching > is the last character.
+
+	Args:
+		text: The text to show.
+
+	Returns:
+		bool: True if the text is an HTML string.
+	"""
+	if not text.startswith('<'):
+		return False
+	depth = 0
+	for index, character in enumerate(text):
+		if character == '<':
+			depth += 1
+		elif character == '>':
+			depth -= 1
+			if depth == 0:
+				return index == len(text) - 1
+	return False
-- 
2.43.0


From 77463870c01bf1719dd0ae4fdfcac3a605128344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 32/40] fix: rendering took time exponential in the number of
 paths of the graph

---
 abstract/styling/inherit_style.py         | 22 +++++++++++++++++++---
 abstract/styling/stylize_with_pensieve.py |  4 +++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 0e12ff5..9c83b44 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -15,11 +15,23 @@ def get_diverging_number(i, n, reverse):
 	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]
 
 
-def inherit_style(node, pale_ratio, divergence_ratio, main_style):
+def inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles=None):
 	"""
 	:type node: Node
+	:param dict known_styles: styles inherited so far, each is worked out once, however many paths lead to the node
 	:rtype: NodeStyle
 	"""
+	known_styles = {} if known_styles is None else known_styles
+	key = (node.id, divergence_ratio)
+	if key not in known_styles:
+		known_styles[key] = _inherit_style(
+			node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
+			known_styles=known_styles
+		)
+	return known_styles[key]
+
+
+def _inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles):
 	if is_root_or_parents_are_in_loop(node):
 		if main_style is None:
 			return node.style.copy()
@@ -32,7 +44,8 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
 				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
+					known_styles=known_styles
 				)
 			else:
 				style = main_style
@@ -50,7 +63,10 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			return new_style
 		else:
 			styles = [
-				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
+				inherit_style(
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style,
+					known_styles=known_styles
+				)
 				for parent in node.parents
 				if not node.is_in_loop_with(parent)
 			]
diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 78fbd87..2bf9421 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -30,11 +30,13 @@ def stylize_with_pensieve(
 				node.style = style
 
 	# branch nodes
+	inherited_styles = {}
 	for node in graph.nodes:
 		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
 			if node.style is None:
 				node.style = inherit_style(
-					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
+					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style,
+					known_styles=inherited_styles
 				)
 
 	# branch edges
-- 
2.43.0


From 19f3153d320fd34b01cef808a6322999d330d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 33/40] fix: different edges without ids of their own were
 neither equal nor unequal

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index d2e2e08..82c2293 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -149,7 +149,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From 5af1f32a278c5a6b3dcc4ac4bb2da680c7b51c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:40 +0000
Subject: [PATCH 34/40] fix: ancestors and descendants failed on paths longer
 than the recursion limit, and took cubic time on chains

---
 abstract/_BasicGraph.py | 70 ++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 088ed5f..0e3bba5 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -499,30 +499,26 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if not node.has_children()]
 
-	def _get_ancestors(self, node, nodes_travelled=None):
+	def _get_ancestors(self, node):
 		"""
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		parents = self.get_parents(node=node)
-		if len(parents) == 0:
-			return []
-		else:
-			ancestors = []
-			for parent in parents:
-				if parent not in ancestors:
-					ancestors.append(parent)
-
-				if parent not in nodes_travelled:
-					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
-					for ancestor in parent_ancestors:
-						if ancestor not in ancestors:
-							ancestors.append(ancestor)
-			return ancestors
+		nodes_travelled = {node.id}
+		ancestors = {}
+		# depth first, without recursion because paths may be longer than the recursion limit
+		remaining = [iter(self.get_parents(node=node))]
+		while len(remaining) > 0:
+			parent = next(remaining[-1], None)
+			if parent is None:
+				remaining.pop()
+			else:
+				ancestors.setdefault(parent.id, parent)
+				if parent.id not in nodes_travelled:
+					nodes_travelled.add(parent.id)
+					remaining.append(iter(self.get_parents(node=parent)))
+		return list(ancestors.values())
 
 	def _group_by_distance(self, node, relatives, get_neighbours):
 		"""
@@ -555,7 +551,7 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors = self._get_ancestors(node=node, nodes_travelled=None)
+		ancestors = self._get_ancestors(node=node)
 		if distance:
 			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)
 		else:
@@ -579,29 +575,25 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if node.is_in_loop()]
 
-	def _get_descendants(self, node, nodes_travelled=None):
+	def _get_descendants(self, node):
 		"""
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		children = self.get_children(node=node)
-		if len(children) == 0:
-			return []
-		else:
-			descendants = []
-			for child in children:
-				if child not in nodes_travelled:
-					if child not in descendants:
-						descendants.append(child)
-					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
-					for descendant in child_descendants:
-						if descendant not in descendants:
-							descendants.append(descendant)
-			return descendants
+		nodes_travelled = {node.id}
+		descendants = []
+		# depth first, without recursion because paths may be longer than the recursion limit
+		remaining = [iter(self.get_children(node=node))]
+		while len(remaining) > 0:
+			child = next(remaining[-1], None)
+			if child is None:
+				remaining.pop()
+			elif child.id not in nodes_travelled:
+				nodes_travelled.add(child.id)
+				descendants.append(child)
+				remaining.append(iter(self.get_children(node=child)))
+		return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -609,7 +601,7 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants = self._get_descendants(node=node, nodes_travelled=None)
+		descendants = self._get_descendants(node=node)
 		if distance:
 			return self._group_by_distance(node=node, relatives=descendants, get_neighbours=self.get_children)
 		else:
-- 
2.43.0


From f6531cdc8748bff3578f83a50f5595c487c3d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:48 +0000
Subject: [PATCH 35/40] fix: rendering failed on long paths whose nodes were
 added after their children

---
 abstract/styling/inherit_style.py | 51 ++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 9c83b44..4e7288f 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -22,13 +22,40 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles=N
 	:rtype: NodeStyle
 	"""
 	known_styles = {} if known_styles is None else known_styles
-	key = (node.id, divergence_ratio)
-	if key not in known_styles:
-		known_styles[key] = _inherit_style(
-			node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
-			known_styles=known_styles
-		)
-	return known_styles[key]
+	# the styles a node inherits from come first; without recursion because paths may be longer than the recursion limit
+	remaining = [(node, divergence_ratio)]
+	while len(remaining) > 0:
+		relative, ratio = remaining[-1]
+		if (relative.id, ratio) in known_styles:
+			remaining.pop()
+			continue
+		missing = [
+			(ancestor, ancestor_ratio)
+			for ancestor, ancestor_ratio in _inherits_from(node=relative, divergence_ratio=ratio, main_style=main_style)
+			if (ancestor.id, ancestor_ratio) not in known_styles
+		]
+		if len(missing) > 0:
+			remaining.extend(missing)
+		else:
+			remaining.pop()
+			known_styles[(relative.id, ratio)] = _inherit_style(
+				node=relative, pale_ratio=pale_ratio, divergence_ratio=ratio, main_style=main_style,
+				known_styles=known_styles
+			)
+	return known_styles[(node.id, divergence_ratio)]
+
+
+def _inherits_from(node, divergence_ratio, main_style):
+	"""
+	the nodes, and their divergence ratios, whose styles are needed for the style of a node
+	:rtype: list[tuple[Node,float]]
+	"""
+	if is_root_or_parents_are_in_loop(node):
+		return []
+	parents = node.parents
+	if len(parents) == 1:
+		return [(parents[0], divergence_ratio)] if main_style is None else []
+	return [(parent, 0) for parent in parents if not node.is_in_loop_with(parent)]
 
 
 def _inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles):
@@ -43,10 +70,7 @@ def _inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles)
 			num_siblings = len(parent.children)
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
-				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
-					known_styles=known_styles
-				)
+				style = known_styles[(parent.id, divergence_ratio)]
 			else:
 				style = main_style
 			if num_siblings == 0:
@@ -63,10 +87,7 @@ def _inherit_style(node, pale_ratio, divergence_ratio, main_style, known_styles)
 			return new_style
 		else:
 			styles = [
-				inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style,
-					known_styles=known_styles
-				)
+				known_styles[(parent.id, 0)]
 				for parent in node.parents
 				if not node.is_in_loop_with(parent)
 			]
-- 
2.43.0


From 66a39882d9b41c08fd2bc31e5dde3eb0e1ff619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:22 +0000
Subject: [PATCH 36/40] fix: the tree text failed on paths longer than the
 recursion limit

---
 abstract/Node.py | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 9358698..76fd2a7 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -287,27 +287,31 @@ class Node(GraphObj):
 		if already_added is None:
 			already_added = []
 
-		tree_string = self.label
-
-		if self in already_added:
-			tree_string += '*\n'
-
-		else:
-			tree_string += '\n'
-			num_children = len(self.children)
-
-			for child_num, child in enumerate(self.children):
-
-				already_added.append(self)
-				if child_num+1 == num_children:
-					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
-						indentation=indentation + '  ', already_added=already_added
-					)
-
-				else:
-					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
-						indentation=indentation + VERTICAL + ' ', already_added=already_added
-					)
+		tree_string = ''
+		# without recursion because paths may be longer than the recursion limit
+		remaining = [('', indentation, self)]
+		while len(remaining) > 0:
+			beginning, indentation, node = remaining.pop()
+			tree_string += beginning + node.label
+
+			if node in already_added:
+				tree_string += '*\n'
+
+			else:
+				tree_string += '\n'
+				children = node.children
+				num_children = len(children)
+				if num_children > 0:
+					already_added.append(node)
+
+				# the last one in is the first one out
+				for child_num, child in reversed(list(enumerate(children))):
+
+					if child_num+1 == num_children:
+						remaining.append((indentation + CORNER + ' ', indentation + '  ', child))
+
+					else:
+						remaining.append((indentation + TWO_WAY + ' ', indentation + VERTICAL + ' ', child))
 
 		return tree_string
 
-- 
2.43.0


From ae2c1b2bdb054e37cacfdd93f9255a715e3eed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:39 +0000
Subject: [PATCH 37/40] fix: the HTML label of a graph became plain text when
 the graph was converted

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index be12f8e..25b261e 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -476,7 +476,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'label' in dictionary:
 				label = dictionary['label']
-				if label is not None and not label.startswith('\n'):
+				if label is not None and not label.startswith('\n') and not is_html_string(label):
 					label = '\n' + label
 				self._label = label
 
-- 
2.43.0


From 0fb8908cd7c83d54bca563e13bcc931d7cdaff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:59 +0000
Subject: [PATCH 38/40] fix: a seeded random graph depended on and disturbed
 other users of random numbers

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 25b261e..65724f4 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -631,11 +631,13 @@ class GraphWithoutDisplay(BasicGraph):
 		for n in node_names:
 			graph.add_node(name=str(n))
 
+		generator = random
 		if seed is not None:
-			random.seed(seed)
+			# a generator of its own neither disturbs other users of random numbers nor is disturbed by them
+			generator = random.Random(seed)
 		for n1 in node_names:
 			for n2 in node_names:
-				if random.uniform(0, 1) < connection_probability:
+				if generator.uniform(0, 1) < connection_probability:
 					if cycle:
 						graph.connect(start=str(n1), end=str(n2))
 					elif n1 < n2:
-- 
2.43.0


From 40de8b8037be4c2b46f6b8d0b8a1bc23b1a04e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 39/40] fix: an AttributeError inside a source's __graph__ was
 hidden

---
 abstract/_GraphWithoutDisplay.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 65724f4..8d493c8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -80,11 +80,8 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if isinstance(obj, self.__class__):
 			colour_scheme = colour_scheme or obj._colour_scheme
-		else:
-			try:
-				obj = obj.__graph__()
-			except AttributeError:
-				pass
+		elif hasattr(obj, '__graph__'):
+			obj = obj.__graph__()
 
 		if isinstance(obj, dict):
 			if 'colour_scheme' in obj:
@@ -460,9 +457,9 @@ class GraphWithoutDisplay(BasicGraph):
 			return self
 
 		else:
-			try:
+			if hasattr(obj, '__graph__'):
 				dictionary = obj.__graph__()
-			except AttributeError:
+			else:
 				dictionary = obj
 
 			if not isinstance(dictionary, dict):
-- 
2.43.0


From 6630925ad14621d2b0557d353560144be46b0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:14 +0000
Subject: [PATCH 40/40] fix: quotes and backslashes in the settings of a style
 broke the Graphviz source

---
 abstract/styling/EdgeStyle.py | 3 ++-
 abstract/styling/NodeStyle.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 70270e5..7c9e4fa 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from ..graphviz_strings import escape_text
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -159,7 +160,7 @@ class EdgeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_text(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index dd7e6d1..232c93e 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from ..graphviz_strings import escape_text
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -221,7 +222,7 @@ class NodeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_text(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
-- 
2.43.0

