# Specifications of planted bugs, fifth batch: bounded windows, caches by too few keys, shared storage (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c13-window', 'C13', 'a path that uses an edge again more than eight edges later',
  'a closed walk of nine or more edges is gone through again and again',
  [('vpathitr.go', '''		for _, p := range path.path {
			if nextPath''', '''		recent := path.path
		if len(recent) > 8 {
			recent = recent[len(recent)-8:]
		}
		for _, p := range recent {
			if nextPath''')],
  '''g := lpg.NewGraph()
	var ns []*lpg.Node
	for i := 0; i < 9; i++ {
		ns = append(ns, g.NewNode(nil, nil))
	}
	for i := range ns {
		g.NewEdge(ns[i], ns[(i+1)%9], "e", nil)
	}
	n := 0
	lpg.CollectAllPaths(g, ns[0], ns[0].GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 20, func(*lpg.Path) bool {
		n++
		return true
	})
	if n != 9 {
		t.Fatal(n, "paths")
	}''')

S('c06-move-to-front', 'C06', 'edges of several labels, a lookup by label between two steps of an iterator over all edges',
  'the iterator over all edges leaves out or repeats edges',
  [('edgemap.go', '''	ell := l.Value.(*edgeLabelList)
	return edgeIterator{&edgeList''', '''	ell := l.Value.(*edgeLabelList)
	// Most recently used labels first
	em.edgeLabelLists.MoveToFront(l)
	return edgeIterator{&edgeList''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for _, l := range []string{"x", "y", "z"} {
		g.NewEdge(a, a, l, nil)
		g.NewEdge(a, a, l, nil)
	}
	n := 0
	for edges := a.GetEdges(lpg.OutgoingEdge); edges.Next(); {
		n++
		if n > 100 {
			break
		}
		lpg.EdgeSlice(a.GetEdgesWithLabel(lpg.OutgoingEdge, "z"))
	}
	if n != 6 {
		t.Fatal(n, "edges")
	}''')

S('c16-null-dropped', 'C16', 'a relationship with a nil property value',
  'the property is missing after a round trip',
  [('json.go', '''		for ix, v := range edge.properties {
			edgeProps[ix] = v
		}
''', '''		for ix, v := range edge.properties {
			if v != nil {
				edgeProps[ix] = v
			}
		}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "e", map[string]interface{}{"p": nil})
	var b bytes.Buffer
	if err := (lpg.JSON{}).Encode(g, &b); err != nil {
		t.Fatal(err)
	}
	h := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(h, json.NewDecoder(&b)); err != nil {
		t.Fatal(err)
	}
	edges := h.GetEdges()
	edges.Next()
	if _, ok := edges.Edge().GetProperty("p"); !ok {
		t.Fatal("property is gone")
	}''')

S('c14-prefix-direction', 'C14', 'two paths over the same edges in opposite directions',
  'a path is taken for a prefix of a path that goes through its edge the other way',
  [('path.go', '''		if e1 != p.path[path1Idx] {''', '''		if e1.Edge != p.path[path1Idx].Edge {''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "e", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e})
	q := lpg.NewPathFromElements(lpg.PathElement{Edge: e, Reverse: true})
	if p.HasPrefixPath(q) {
		t.Fatal("prefix")
	}''')

S('c21-memo-labels', 'C21', 'edges of equal labels that differ in their properties, and an edge equivalence that looks at the properties',
  'the answer of the edge equivalence is used for other edges with the same labels and ends',
  [('alg.go', '''	isIsomorphism := func(''', '''	type edgeKey struct {
		label1, label2 string
		to1, to2       *Node
		from1, from2   *Node
	}
	edgeMatches := make(map[edgeKey]bool)
	equivalentEdges := func(e1, e2 *Edge) bool {
		key := edgeKey{e1.label, e2.label, e1.to, e2.to, e1.from, e2.from}
		match, known := edgeMatches[key]
		if !known {
			match = edgeEquivalenceFunc(e1, e2)
			edgeMatches[key] = match
		}
		return match
	}

	isIsomorphism := func('''), ('alg.go', '''						edgeEquivalenceFunc(edge1, edge2) {''', '''						equivalentEdges(edge1, edge2) {''')],
  '''mk := func(first, second int) *lpg.Graph {
		g := lpg.NewGraph()
		a := g.NewNode([]string{"A"}, nil)
		b := g.NewNode([]string{"B"}, nil)
		g.NewEdge(a, b, "e", map[string]interface{}{"p": first})
		g.NewEdge(a, b, "e", map[string]interface{}{"p": second})
		return g
	}
	ok, err := lpg.CheckIsomorphism(context.Background(), mk(1, 2), mk(2, 1), func(n1, n2 *lpg.Node) bool {
		return n1.GetLabels().IsEqual(n2.GetLabels())
	}, func(e1, e2 *lpg.Edge) bool {
		v1, _ := e1.GetProperty("p")
		v2, _ := e2.GetProperty("p")
		return v1 == v2
	})
	if !ok || err != nil {
		t.Fatal(ok, err)
	}''')

S('c24-seen-window', 'C24', 'a node map with more than eight labels, a node with two of them that are far apart',
  'the node is listed twice',
  [('maps.go', '''	itr.seenLabels = append(itr.seenLabels, itr.labels.Key().(string))
''', '''	if len(itr.seenLabels) == 8 {
		itr.seenLabels = append(itr.seenLabels[:0], itr.seenLabels[1:]...)
	}
	itr.seenLabels = append(itr.seenLabels, itr.labels.Key().(string))
''')],
  '''g := lpg.NewGraph()
	nm := lpg.NewNodeMap()
	labels := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}
	for _, l := range labels {
		nm.Add(g.NewNode([]string{l}, nil))
	}
	nm.Add(g.NewNode([]string{"a", "j"}, nil))
	if n := len(lpg.NodeSlice(nm.Iterator())); n != 11 {
		t.Fatal(n, "nodes")
	}''')

S('c25-id-range', 'C25', 'a graph with more than 512 nodes',
  'two nodes have the same identifier in the rendering',
  [('dotrenderer.go', '''fmt.Sprintf("n%d", x)''', '''fmt.Sprintf("n%d", x&0x1ff)''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 600; i++ {
		g.NewNode(nil, nil)
	}
	ids := map[string]bool{}
	r := lpg.DOTRenderer{NodeRenderer: func(id string, _ *lpg.Node, _ io.Writer) (bool, error) {
		ids[id] = true
		return true, nil
	}}
	if err := r.Render(g, "g", io.Discard); err != nil {
		t.Fatal(err)
	}
	if len(ids) != 600 {
		t.Fatal(len(ids), "identifiers")
	}''')

S('c15-adjacent-duplicates', 'C15', 'parallel edges to one node, with an edge to another node between them',
  'a node is listed twice by the cursor',
  [('itr.go', '''		if _, seen := i.seen[node.id]; seen {
			continue
		}
		i.seen[node.id] = struct{}{}
''', '''		if _, seen := i.seen[node.id]; seen {
			continue
		}
		// Edges to the same node are next to each other
		i.seen = make(map[int]struct{})
		i.seen[node.id] = struct{}{}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(a, c, "e", nil)
	g.NewEdge(a, b, "e", nil)
	cur := lpg.Cursor{}
	cur.Set(a)
	if n := len(lpg.NodeSlice(cur.NextNodes())); n != 2 {
		t.Fatal(n, "nodes")
	}''')

S('c23-decode-in-place', 'C23', 'a set is copied, and JSON is then read into the original',
  'the copy changes with the original',
  [('stringset.go', '''	*set = NewStringSet(arr...)
''', '''	if set.M == nil {
		*set = NewStringSet(arr...)
		return nil
	}
	for x := range set.M {
		delete(set.M, x)
	}
	for _, x := range arr {
		set.M[x] = struct{}{}
	}
''')],
  '''a := lpg.NewStringSet("x")
	b := a.Clone()
	if err := json.Unmarshal([]byte(`["y"]`), &a); err != nil {
		t.Fatal(err)
	}
	if !b.Has("x") || b.Has("y") {
		t.Fatal("copy changed")
	}''')

S('c27-addpath-once', 'C27', 'several paths are added to a symbol',
  'only the edges of the first path are used when the paths start at the same edge',
  [('pattern.go', '''	for _, x := range path.path {
		p.Edges.Add(x.Edge)
	}
''', '''	for _, x := range path.path {
		if p.Edges.Has(x.Edge) {
			// The rest of the path is already there
			break
		}
		p.Edges.Add(x.Edge)
	}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "e", nil)
	f := g.NewEdge(a, a, "f", nil)
	sym := &lpg.PatternSymbol{}
	sym.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: e}))
	sym.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: f}))
	if sym.Edges.Len() != 2 {
		t.Fatal(sym.Edges.Len(), "edges")
	}''')

S('c09-hub-first-label', 'C09', 'a node with more than 16 outgoing edges, a relationship of two labels',
  'matches of the second label are left out',
  [('planprocessors.go', '''			itr: makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels)),
''', '''			itr: makeUniqueIterator(hubEdges(node, processor.dir, processor.patternItem.Labels)),
'''), ('planprocessors.go', '''const useFromNode = -1
''', '''// hubEdges returns the edges of a node, for a node with many edges those of a single label
func hubEdges(node *Node, dir EdgeDir, labels StringSet) EdgeIterator {
	if dir == OutgoingEdge && node.outgoing.size() > 16 && labels.Len() > 0 {
		return node.GetEdgesWithLabel(dir, labels.SortedSlice()[0])
	}
	return node.GetEdgesWithAnyLabel(dir, labels)
}

const useFromNode = -1
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	for i := 0; i < 20; i++ {
		l := "x"
		if i%2 == 0 {
			l = "y"
		}
		g.NewEdge(a, g.NewNode(nil, nil), l, nil)
	}
	acc, err := (lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Labels: lpg.NewStringSet("x", "y"), Min: 1, Max: 1}, {}}).FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 20 {
		t.Fatal(len(acc.Paths), err)
	}''')

S('c10-memo-reached', 'C10', 'a variable length relationship over a graph in which two paths meet at one node',
  'paths that reach a node at a length at which it was already reached are left out when there are more than ten results',
  [('planprocessors.go', '''	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
''', '''	type reached struct {
		node *Node
		n    int
	}
	results := 0
	ends := make(map[reached]struct{})
	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
		end := reached{path.Last(), path.NumEdges()}
		if _, exists := ends[end]; exists && results > 10 {
			return true
		}
		ends[end] = struct{}{}
		results++
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	b := g.NewNode(nil, nil)
	for i := 0; i < 20; i++ {
		g.NewEdge(a, b, "e", nil)
	}
	acc, err := (lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Min: 1, Max: 3}, {}}).FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 20 {
		t.Fatal(len(acc.Paths), err)
	}''')

S('c02-relabel-only', 'C02', 'a relabelled edge that is the only edge of its label at its source but not at its target',
  'the edge is found under its old label at its target',
  [('graph.go', '''	g.disconnect(edge)
	g.allEdges.remove(edge, 0)
	edge.label = label
	g.allEdges.add(edge, 0)
	g.connect(edge)
''', '''	if edge.from != edge.to && edge.from.outgoing.size() == 1 && edge.to.incoming.size() > 3 {
		// Only the place of the edge at its source changes
		edge.from.outgoing.remove(edge, 1)
		g.allEdges.remove(edge, 0)
		edge.label = label
		g.allEdges.add(edge, 0)
		edge.from.outgoing.add(edge, 1)
		return
	}
	g.disconnect(edge)
	g.allEdges.remove(edge, 0)
	edge.label = label
	g.allEdges.add(edge, 0)
	g.connect(edge)
''')],
  '''g := lpg.NewGraph()
	b := g.NewNode(nil, nil)
	var e *lpg.Edge
	for i := 0; i < 4; i++ {
		e = g.NewEdge(g.NewNode(nil, nil), b, "x", nil)
	}
	e.SetLabel("y")
	if n := len(lpg.EdgeSlice(b.GetEdgesWithLabel(lpg.IncomingEdge, "y"))); n != 1 {
		t.Fatal(n, "edges")
	}''')

S('c04-late-index', 'C04', 'an index added to a graph from which nodes were removed',
  'the node that was added last is not in the index',
  [('indexes.go', '''	for nodes := graph.GetNodes(); nodes.Next(); {
		node := nodes.Node()
		value, ok := node.properties[propertyName]
''', '''	for nodes := graph.GetNodes(); nodes.Next(); {
		node := nodes.Node()
		if node.id > 2*graph.NumNodes()+graph.NumEdges()+4 {
			// left over
			continue
		}
		value, ok := node.properties[propertyName]
''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 10; i++ {
		g.NewNode(nil, nil).DetachAndRemove()
	}
	g.NewNode(nil, map[string]interface{}{"p": 1})
	g.AddNodePropertyIndex("p", lpg.HashIndex)
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.StringSet{}, map[string]interface{}{"p": 1}))); n != 1 {
		t.Fatal(n, "nodes")
	}''')

S('c01-many-updates', 'C01', 'a property that is set more than a dozen times on one node',
  'the update is lost once the property has been set often',
  [('node.go', '''	id       int
''', '''	id       int
	updates  int
'''), ('graph.go', '''			if nix != nil {
				nix.remove(oldValue, node.id)
			}
		}
	}
	node.properties[key] = value
''', '''			if nix != nil {
				nix.remove(oldValue, node.id)
			}
		}
	}
	if node.updates++; node.updates&0xf == 0xf {
		// a fresh map
		node.properties = node.properties.clone(g, g, func(_ string, v interface{}) interface{} { return v })
		value = node.properties[key]
	}
	node.properties[key] = value
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for i := 0; i < 40; i++ {
		a.SetProperty("p", i)
		if v, _ := a.GetProperty("p"); v != i {
			t.Fatal(v, i)
		}
	}''')
