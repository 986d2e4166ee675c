From db89f23f7015d5fcee51bb97ab8481061cd89e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 01/30] fix: removing the last node of a graph must move the
 node list tail back

nodeList.remove kept the removed node as the tail, so every node added after
removing the most recently added one was linked behind a node that is no longer
in the list and never enumerated.
---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From 9a292c0a4ab6f45ec1b3117e5e84ac010a207611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 02/30] fix: removing an edge must remove it from the edge
 property indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..cc9c573 100644
--- a/graph.go
+++ b/graph.go
@@ -530,6 +530,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From a689b8481ff087a2c1df95212db237336c94b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 03/30] fix: relabeling an edge must move it between the label
 lists of the graph

setEdgeLabel only updated the adjacency maps of the two nodes. The graph-wide
edge map kept the edge under its old label, so label lookups missed it and
removing it later looked in the wrong list.
---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index cc9c573..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From 19be6fe48112c91ee479259bae24fb481178fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 04/30] fix: FindNodes and FindEdges without labels or without
 a sized iterator

Both functions called MaxSize on a nil iterator when no labels were given, and
fell back to returning all nodes or edges unfiltered when no candidate iterator
had a known size.
---
 graph.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..f295850 100644
--- a/graph.go
+++ b/graph.go
@@ -223,12 +223,13 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		return g.GetNodes()
 	}
 
+	// Select the iterator with minimum max size
 	var nodesByLabelItr NodeIterator
+	nodesByLabelSize := -1
 	if allLabels.Len() > 0 {
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
 	}
-	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -277,8 +278,20 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 			},
 		}
 	}
-	// Iterate all
-	return g.GetNodes()
+	// No iterator with a known size: iterate by label if there are
+	// labels, or all nodes otherwise, with a filter
+	allItr := nodesByLabelItr
+	if allItr == nil {
+		allItr = g.GetNodes()
+	}
+	return nodeIterator{
+		&filterIterator{
+			itr: allItr,
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -292,12 +305,13 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		return g.GetEdges()
 	}
 
+	// Select the iterator with minimum max size
 	var edgesByLabelItr EdgeIterator
+	edgesByLabelSize := -1
 	if labels.Len() > 0 {
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
 	}
-	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +360,20 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// No iterator with a known size: iterate by label if there are
+	// labels, or all edges otherwise, with a filter
+	allItr := edgesByLabelItr
+	if allItr == nil {
+		allItr = g.GetEdges()
+	}
+	return &edgeIterator{
+		&filterIterator{
+			itr: allItr,
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From 1135c1cc57e6d64ab7b7eaf4850175caeba12d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 05/30] fix: NodeMap.Replace must drop the old labels when all
 labels are removed

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 2a6088f..ce06cc5 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From 5930fd395c518d57b58f389d55156f50067ac79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 06/30] fix: NodeMap.IsEmpty must take nodes without labels
 into account

---
 maps.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maps.go b/maps.go
index ce06cc5..db1a92e 100644
--- a/maps.go
+++ b/maps.go
@@ -112,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From d99637e875c423836d2c6470c3381ebbf16f9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 07/30] fix: looking up nodes with all labels of an empty set
 must not panic

NodeMap.IteratorAllLabels dereferenced a nil set when no label was given. Every
node has all the labels of the empty set.
---
 maps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maps.go b/maps.go
index db1a92e..64cd18e 100644
--- a/maps.go
+++ b/maps.go
@@ -178,6 +178,10 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		// No label to look for, all nodes match
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From dd5e0217b41f7da65c03a715ef517e1c92b54557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 08/30] fix: the size of an any-direction edge iterator is
 unknown if one side is

Node.GetEdgesWithAnyLabel added the sizes of the two sides even if one of them
was -1 (unknown), reporting sizes like 0 or -2 for nonempty iterators.
---
 node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 666e0ec..01e1a92 100644
--- a/node.go
+++ b/node.go
@@ -95,7 +95,11 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	size := -1
+	if i1.MaxSize() != -1 && i2.MaxSize() != -1 {
+		size = i1.MaxSize() + i2.MaxSize()
+	}
+	return edgeIterator{withSize(MultiIterator(i1, i2), size)}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From bdc6cb3c098145f97bbe88c04bc4c3feb5aa5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 09/30] fix: operations on removed nodes and edges must not
 disturb the graph

Removing an edge or a node a second time corrupted the element lists and
counts, editing a removed element put it back into the indexes, and edges could
be created between nodes that were no longer in the graph. Remember that an
element is removed, and leave the graph alone in these cases.
---
 edge.go  |  2 ++
 graph.go | 42 +++++++++++++++++++++++++++++-------------
 node.go  |  2 ++
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/edge.go b/edge.go
index 342d176..038da2d 100644
--- a/edge.go
+++ b/edge.go
@@ -29,6 +29,8 @@ type Edge struct {
 	// 1: outgoing edges list
 	// 2: incoming edges list
 	listElements [3]edgeElement
+	// removed is true once the edge is removed from its graph
+	removed bool
 }
 
 // EdgeDir is used to show edge direction
diff --git a/graph.go b/graph.go
index f295850..3d0ae04 100644
--- a/graph.go
+++ b/graph.go
@@ -90,10 +90,10 @@ func (g *Graph) NewEdge(from, to *Node, label string, props map[string]any) *Edg
 // panics. This version uses the given properties map directly without
 // copying it.
 func (g *Graph) FastNewEdge(from, to *Node, label string, props map[string]any) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
@@ -437,12 +437,17 @@ func GetEdgeFilterFunc(labels StringSet, properties map[string]interface{}) func
 }
 
 func (g *Graph) setNodeLabels(node *Node, labels StringSet) {
-	g.index.nodesByLabel.Replace(node, node.GetLabels(), labels)
+	if !node.removed {
+		g.index.nodesByLabel.Replace(node, node.GetLabels(), labels)
+	}
 	node.labels = labels.Clone()
 }
 
 func (g *Graph) setNodeProperty(node *Node, key string, value interface{}) {
-	nix := g.index.isNodePropertyIndexed(key)
+	var nix index
+	if !node.removed {
+		nix = g.index.isNodePropertyIndexed(key)
+	}
 	if node.properties == nil {
 		node.properties = make(properties)
 	} else {
@@ -494,31 +499,31 @@ func (g *Graph) removeNodeProperty(node *Node, key string) {
 }
 
 func (g *Graph) detachRemoveNode(node *Node) {
+	if node.removed {
+		return
+	}
 	g.detachNode(node)
 	g.allNodes.remove(node)
 	g.index.removeNodeFromIndex(node, g)
+	node.removed = true
 }
 
 func (g *Graph) detachNode(node *Node) {
 	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
-		g.disconnect(edge)
-		g.allEdges.remove(edge, 0)
-		g.index.removeEdgeFromIndex(edge, g)
+		g.removeEdge(edge)
 	}
 	node.incoming = edgeMap{}
 	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
-		g.disconnect(edge)
-		g.allEdges.remove(edge, 0)
-		g.index.removeEdgeFromIndex(edge, g)
+		g.removeEdge(edge)
 	}
 	node.outgoing = edgeMap{}
 }
 
 func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(string, interface{}) interface{}) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
@@ -548,6 +553,10 @@ func (g *Graph) disconnect(edge *Edge) {
 }
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
+	if edge.removed {
+		edge.label = label
+		return
+	}
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
 	edge.label = label
@@ -556,13 +565,20 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 }
 
 func (g *Graph) removeEdge(edge *Edge) {
+	if edge.removed {
+		return
+	}
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
 	g.index.removeEdgeFromIndex(edge, g)
+	edge.removed = true
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-	nix := g.index.isEdgePropertyIndexed(key)
+	var nix index
+	if !edge.removed {
+		nix = g.index.isEdgePropertyIndexed(key)
+	}
 	if edge.properties == nil {
 		edge.properties = make(properties)
 	} else {
diff --git a/node.go b/node.go
index 01e1a92..7d97545 100644
--- a/node.go
+++ b/node.go
@@ -29,6 +29,8 @@ type Node struct {
 	incoming edgeMap
 	outgoing edgeMap
 	id       int
+	// removed is true once the node is removed from its graph
+	removed bool
 }
 
 // GetProperty returns the property value in the string table
-- 
2.43.0


From 444f8cfd024f772022fa18238a31238afd4fd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 10/30] fix: Path.RemoveLast must not remove the edge from the
 graph

As documented, it removes the last edge from the path, and leaves the source
node if that was the only edge.
---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index e613260..04110d6 100644
--- a/path.go
+++ b/path.go
@@ -298,8 +298,11 @@ func (p *Path) RemoveLast() *Path {
 		return p
 	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
+		first := p.First()
 		p.path = p.path[:len(p.path)-1]
+		if len(p.path) == 0 {
+			p.only = first
+		}
 	}
 	return p
 }
-- 
2.43.0


From f723c8c5917c01d8225e4b49051fc12c7c51d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 11/30] fix: Cursor.PopFromPath must move the cursor to the
 previous node

---
 cursor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cursor.go b/cursor.go
index e393582..56e5e4b 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if node := c.path.Last(); node != nil {
+		c.node = node
+	}
 	return c
 }
 
-- 
2.43.0


From d3ee2fe0748102f454ddc33969431eb33769cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 12/30] fix: Path.AppendPath with single node paths

Appending a single node to an empty path dropped the node, appending a path to
a single node path lost the node or did not check that they are connected, and
the path given as argument was modified.
---
 path.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/path.go b/path.go
index 04110d6..2f263fe 100644
--- a/path.go
+++ b/path.go
@@ -144,24 +144,15 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
-		p.path = make([]PathElement, len(path.path))
-		copy(p.path, path.path)
-		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
+	if path.only != nil {
+		// Appending a single node
+		if p.NumNodes() == 0 {
+			return p.SetOnlyNode(path.only)
 		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
+		if p.Last() != path.only {
+			panic("Appended node is disconnected from path")
 		}
+		return p
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 843c6acde53ad0e0068d71f61cb04e519fa86104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 13/30] fix: Cursor.Nodes in any direction must return the
 other end of incoming edges

---
 cursor.go |  4 ++--
 itr.go    | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cursor.go b/cursor.go
index 56e5e4b..75a700b 100644
--- a/cursor.go
+++ b/cursor.go
@@ -84,7 +84,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -94,7 +94,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index b2c31a7..0597c03 100644
--- a/itr.go
+++ b/itr.go
@@ -252,16 +252,20 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
+	// source is the node whose edges are iterated
+	source *Node
+
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(source *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
-		dir:  dir,
-		itr:  itr,
-		seen: make(map[int]struct{}),
+		source: source,
+		dir:    dir,
+		itr:    itr,
+		seen:   make(map[int]struct{}),
 	}
 }
 
@@ -286,6 +290,9 @@ func (i *nodesFromEdgesIterator) Node() *Node {
 	if i.dir == IncomingEdge {
 		return e.GetFrom()
 	}
+	if i.dir == AnyEdge && e.GetTo() == i.source {
+		return e.GetFrom()
+	}
 	return e.GetTo()
 }
 
-- 
2.43.0


From 85b0a90eee974f4f1b6dfb7e4bb5870d2704615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 14/30] fix: CheckIsomorphism must use one-to-one node and edge
 correspondences

Several nodes could be mapped to the same node, and several parallel edges to
the same edge, so graphs that are not isomorphic were reported as isomorphic.
---
 alg.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..5e42f8b 100644
--- a/alg.go
+++ b/alg.go
@@ -109,12 +109,19 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 
 	nodeEquivalences := make([]int, len(all1Nodes))
 
-	// build a node equivalence map based on the current state of nodeEquivalences. nodeEquivalences must be valid
+	// build a node equivalence map based on the current state of
+	// nodeEquivalences. nodeEquivalences must be valid. Returns nil if
+	// two nodes are mapped to the same node
 	buildNodeEquivalence := func() map[*Node]*Node {
 		eq := make(map[*Node]*Node)
+		used := make(map[*Node]struct{})
 		for i := range nodeEquivalences {
 			node1 := all1Nodes[i]
 			node2 := equivalences[i][nodeEquivalences[i]]
+			if _, exists := used[node2]; exists {
+				return nil
+			}
+			used[node2] = struct{}{}
 			eq[node1] = node2
 		}
 		return eq
@@ -142,12 +149,15 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// Every edge must be matched to a different edge
+			matched := make([]bool, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if !matched[i] && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						matched[i] = true
 						found = true
 						break
 					}
@@ -163,7 +173,7 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	// Iterate possible node equivalences, and check isomorphism
 	for {
 		nodeMapping := buildNodeEquivalence()
-		if isIsomorphism(nodeMapping) {
+		if nodeMapping != nil && isIsomorphism(nodeMapping) {
 			return true, nil
 		}
 		if !next() {
-- 
2.43.0


From 0117d952f39fed7e73f224a35c066a911a3dd233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 15/30] fix: pattern paths must include all edges of a variable
 length relationship

Variable length relationships that are processed backwards contributed only one
edge to the path of a match.
---
 pattern.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..9bc9e78 100644
--- a/pattern.go
+++ b/pattern.go
@@ -551,8 +551,9 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	revPathOut := &Path{}
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			for j := len(path.path) - 1; j >= 0; j-- {
+				revPathOut.Append(PathElement{Edge: path.path[j].Edge, Reverse: !path.path[j].Reverse})
+			}
 		}
 	}
 	return revPathOut.AppendPath(out)
-- 
2.43.0


From 719bd0ecbae6a20d15377ef682cd113aecef2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 16/30] fix: patterns must not start from an undirected
 relationship

Such a plan has no node to tell the direction of the edge, and getting the node
next to it panicked.
---
 pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pattern.go b/pattern.go
index 9bc9e78..99eed2d 100644
--- a/pattern.go
+++ b/pattern.go
@@ -173,6 +173,11 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
 		return g.GetEdges(), -1
 	}
+	// The search cannot start from an undirected edge, its direction is
+	// determined by the node before or after it
+	if p.Undirected {
+		return g.GetEdges(), -1
+	}
 
 	if p.Labels.Len() > 0 {
 		itr := g.GetEdgesWithAnyLabel(p.Labels)
-- 
2.43.0


From 1be54455c76fd24c13e5dc607b0d9f7456157b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 17/30] fix: patterns starting from a <-- relationship must
 record its direction

The path of the match was built with the edge in the forward direction, which
panics when connected to the rest of the path, or lists the nodes in the wrong
order.
---
 planprocessors.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..7f4b81b 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,11 +100,11 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
+		edge := processor.itr.Edge()
+		path := &Path{path: []PathElement{{Edge: edge}}}
+		if processor.patternItem.ToLeft && edge.GetFrom() != edge.GetTo() {
+			path.path[0].Reverse = true
+		}
 		processor.result = path
 		ctx.recordStepResult(processor)
 		if err := next.Run(ctx); err != nil {
-- 
2.43.0


From 8cff400a40c2594937de2f6c6204fe19ff199920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 18/30] fix: an undirected relationship must match a loop only
 once

---
 planprocessors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planprocessors.go b/planprocessors.go
index 7f4b81b..c07f2b8 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -146,7 +146,8 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	node := processor.source.GetResult().(*Node)
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
-			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
+			// A loop is both an incoming and an outgoing edge
+			itr: makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels)),
 			filter: func(item interface{}) bool {
 				return processor.edgeFilter(item.(*Edge))
 			},
-- 
2.43.0


From b9e479f971280f7b7e719a509d141150c0aa3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 19/30] fix: a pattern variable must stay bound while its first
 use is bound

Leaving the second use of a variable removed its binding, so the remaining
candidates for the second use were not compared to the first one.
---
 pattern.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index 99eed2d..cbcbede 100644
--- a/pattern.go
+++ b/pattern.go
@@ -298,6 +298,10 @@ type MatchContext struct {
 	LocalSymbols map[string]*PatternSymbol
 
 	variablePathNode *Node
+
+	// The steps that recorded the local symbols. A variable can be used
+	// several times in a pattern, the first one defines the symbol
+	localSymbolSteps map[string]planProcessor
 }
 
 // If the current step has a local symbol, it will be recorded in the context
@@ -309,9 +313,13 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if owner, exists := ctx.localSymbolSteps[name]; exists && owner != step {
+		return
+	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	ctx.localSymbolSteps[name] = step
 }
 
 // resetStepResult will remove the step's local symbol from the context
@@ -323,7 +331,11 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.localSymbolSteps[name] != step {
+		return
+	}
 	delete(ctx.LocalSymbols, name)
+	delete(ctx.localSymbolSteps, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
@@ -625,9 +637,10 @@ func (acc *DefaultMatchAccumulator) GetTailNodes() []*Node {
 
 func (plan MatchPlan) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
 	ctx := &MatchContext{
-		Graph:        graph,
-		Symbols:      symbols,
-		LocalSymbols: make(map[string]*PatternSymbol),
+		Graph:            graph,
+		Symbols:          symbols,
+		LocalSymbols:     make(map[string]*PatternSymbol),
+		localSymbolSteps: make(map[string]planProcessor),
 	}
 
 	res := resultAccumulator{acc: result, plan: plan}
-- 
2.43.0


From 399c493c0231a79838832863f27fe5c5d384e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 20/30] fix: edge variables must constrain the edges of a
 pattern

A variable used for several relationships of a pattern, or an edge variable
with values supplied by the caller, was ignored unless the search started from
it. Node values supplied for a variable length relationship were also ignored.
---
 pattern.go        |  4 ++++
 planprocessors.go | 29 ++++++++++++++++++++++++-----
 sets.go           |  4 ++++
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/pattern.go b/pattern.go
index cbcbede..a2d2cef 100644
--- a/pattern.go
+++ b/pattern.go
@@ -105,6 +105,10 @@ func (p PatternItem) isConstrainedEdges(ctx *MatchContext) (*EdgeSet, error) {
 		if sym.Nodes != nil {
 			return nil, ErrEdgeVariableExpected(p.Name)
 		}
+		if sym.Edges == nil {
+			// The symbol has no values
+			return NewEdgeSet(), nil
+		}
 		return sym.Edges, nil
 	}
 	return nil, nil
diff --git a/planprocessors.go b/planprocessors.go
index c07f2b8..1893e7a 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,23 +82,33 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
 		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
 				itr: processor.itr,
 				filter: func(edge interface{}) bool {
+					if edges != nil && !edges.Has(edge.(*Edge)) {
+						return false
+					}
 					return filterFunc(edge.(*Edge))
 				},
 			},
 		}
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		edge := processor.itr.Edge()
 		path := &Path{path: []PathElement{{Edge: edge}}}
@@ -144,12 +154,22 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
+	edgeFilter := func(edge *Edge) bool {
+		if constraints != nil && !constraints.Has(edge) {
+			return false
+		}
+		return processor.edgeFilter(edge)
+	}
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
 			// A loop is both an incoming and an outgoing edge
 			itr: makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels)),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		},
 	}
@@ -176,8 +196,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		ctx.recordStepResult(processor)
diff --git a/sets.go b/sets.go
index 21d2c93..a929148 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) Has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From b563d6d8e35277ceceb315e3622621f5f2baf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 21/30] fix: JSON encoding must report property values that
 cannot be marshaled

The error was ignored, and the value was replaced with null.
---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 2b7b248..87314e4 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0


From fd8e8e6134609ed3c0a42c5ac7beb24da231e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 22/30] fix: encoding an empty graph with separate edges must
 write valid JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 87314e4..d786300 100644
--- a/json.go
+++ b/json.go
@@ -353,8 +353,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From 6414320ea5234cd0aee6e70553466b0081aaac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 23/30] fix: JSON decoding must skip unknown members with
 object or array values

Scalars nested in the value of an unknown member were taken as its end.
---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index d786300..7d3bf7e 100644
--- a/json.go
+++ b/json.go
@@ -529,8 +529,10 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 				depth++
 			case json.Delim('}'), json.Delim(']'):
 				depth--
-			default:
-				depth--
+			}
+			if depth == 1 {
+				// Skipped the value of the unknown member
+				depth = 0
 			}
 		}
 	}
-- 
2.43.0


From 59e85b00570378041b08fa8ce96e58bbf17d9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 24/30] fix: the default DOT edge renderer must escape the edge
 label

---
 dotrenderer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..d4884a3 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,8 +17,12 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
+// dotEscaper escapes a string so it can be written in a quoted DOT string
+var dotEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 // DOTRenderer renders a graph in Graphviz dot format
 type DOTRenderer struct {
 	// NodeRenderer renders a node. If the node is to be excluded, returns false.
@@ -57,7 +61,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
-		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
+		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, dotEscaper.Replace(lbl)); err != nil {
 			return err
 		}
 	} else {
-- 
2.43.0


From 219654fe36ce90c1989cd26977f4f14aa1bf8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 25/30] fix: CollectAllPaths must apply the edge filter to the
 first leg

As documented, the filter is called for each edge of the first leg.
---
 vpathitr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vpathitr.go b/vpathitr.go
index 511ac4b..4f73e1e 100644
--- a/vpathitr.go
+++ b/vpathitr.go
@@ -92,6 +92,9 @@ func CollectAllPaths(graph *Graph, fromNode *Node, firstLeg EdgeIterator, edgeFi
 	edgeIr := makeUniqueIterator(firstLeg)
 	for edgeIr.Next() {
 		edge := firstLeg.Edge()
+		if !edgeFilter(edge) {
+			continue
+		}
 		pe := PathElement{Edge: edge}
 		if edge.GetFrom() != edge.GetTo() {
 			if edge.GetTo() == fromNode {
-- 
2.43.0


From 992fe2d58f1ada90e751ec8f1aca6b86eb2ec549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 26/30] fix: hash indexes must support list valued properties

Lists are supported property values, but they are not hashable, so setting such
a property panicked if it had a hash index.
---
 hashindex.go | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..32b2de8 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -16,8 +16,48 @@ package lpg
 
 import (
 	"container/list"
+	"fmt"
+	"strings"
 )
 
+// hashListKey is the hash key of a property value that is a list
+type hashListKey string
+
+// hashKey returns the key to use in a hash index for a property
+// value. Values that implement WithNativeValue are replaced with their
+// native values, and lists, which are not hashable, with a
+// hashListKey. Lists with equal elements have equal keys.
+func hashKey(value interface{}) interface{} {
+	if native, ok := value.(WithNativeValue); ok {
+		return hashKey(native.GetNativeValue())
+	}
+	var elements []interface{}
+	switch list := value.(type) {
+	case []int:
+		for _, x := range list {
+			elements = append(elements, x)
+		}
+	case []string:
+		for _, x := range list {
+			elements = append(elements, x)
+		}
+	case []interface{}:
+		elements = list
+	default:
+		return value
+	}
+	sb := strings.Builder{}
+	for _, x := range elements {
+		key := hashKey(x)
+		if list, ok := key.(hashListKey); ok {
+			fmt.Fprintf(&sb, "[%s]", string(list))
+		} else {
+			fmt.Fprintf(&sb, "%#v,", key)
+		}
+	}
+	return hashListKey(sb.String())
+}
+
 // A hashIndex is a hash table index
 type hashIndex struct {
 	values   map[interface{}]*fastSet
@@ -29,9 +69,7 @@ func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
@@ -46,9 +84,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -66,9 +102,7 @@ func (ix *hashIndex) find(value interface{}) Iterator {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From 3191a046fc6db808aeb485249161f7211862302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 27/30] fix: a supplied pattern variable used twice must denote
 one element

---
 pattern.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pattern.go b/pattern.go
index a2d2cef..56bca6a 100644
--- a/pattern.go
+++ b/pattern.go
@@ -298,7 +298,8 @@ type MatchContext struct {
 	// These are symbols that are used as constraints in the matching process.
 	Symbols map[string]*PatternSymbol
 
-	// localSymbols are symbols defined in the pattern.
+	// localSymbols are symbols bound by the pattern. If a symbol is also
+	// in Symbols, this is the value selected from the symbol's values.
 	LocalSymbols map[string]*PatternSymbol
 
 	variablePathNode *Node
@@ -314,9 +315,6 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if len(name) == 0 {
 		return
 	}
-	if _, global := ctx.Symbols[name]; global {
-		return
-	}
 	if owner, exists := ctx.localSymbolSteps[name]; exists && owner != step {
 		return
 	}
@@ -332,9 +330,6 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if len(name) == 0 {
 		return
 	}
-	if _, global := ctx.Symbols[name]; global {
-		return
-	}
 	if ctx.localSymbolSteps[name] != step {
 		return
 	}
-- 
2.43.0


From 144d235d79de877a73d4f20e34fc7e33cdf0d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 28/30] fix: NewPathFromElements must not share the caller's
 slice

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 2f263fe..5f7b0bd 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,7 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	return (&Path{}).Append(elements...)
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From d07a7dbdcf866150eb3b07d711e5d011a89cc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 29/30] fix: a rejected Append must leave a single node path as
 it was

---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 5f7b0bd..5865344 100644
--- a/path.go
+++ b/path.go
@@ -128,15 +128,13 @@ func (p *Path) Append(path ...PathElement) *Path {
 		fmt.Println(p.String())
 		panic("Appended edge is disconnected from path")
 	}
-	if p.only != nil {
-		p.only = nil
-	}
 	for _, pe := range path {
 		if pe.GetSourceNode() != last {
 			panic("Appended edges are disconnected")
 		}
 		last = pe.GetTargetNode()
 	}
+	p.only = nil
 	p.path = append(p.path, path...)
 	return p
 }
-- 
2.43.0


From 09fb13fe5d2bf42613b6c391d00eb9faf568fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 30/30] fix: JSON decoding must keep properties with an empty
 name

---
 json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 7d3bf7e..39168e8 100644
--- a/json.go
+++ b/json.go
@@ -411,7 +411,8 @@ func (j JSON) unmarshalProperties(input map[string]json.RawMessage) (map[string]
 		if err != nil {
 			return nil, err
 		}
-		if len(k) > 0 {
+		// A property unmarshaler returns an empty key to skip the property
+		if len(k) > 0 || j.PropertyUnmarshaler == nil {
 			k = j.Interner.Intern(k)
 			ret[k] = v
 		}
-- 
2.43.0

