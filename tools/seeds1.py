# Specifications of planted bugs, first batch (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls=''):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls))

S('c01-list-head-prev', 'C01', 'removing the first node of the graph and then the node that became first',
  'the second removed node is still enumerated (NumNodes disagrees with the enumeration)',
  [('list.go', '''	if node.prev != nil {
		node.prev.next = node.next
	} else {
		list.head = node.next
	}
	if node.next != nil {
		node.next.prev = node.prev
	} else {''', '''	if node.prev != nil {
		node.prev.next = node.next
		if node.next != nil {
			node.next.prev = node.prev
		}
	} else {
		list.head = node.next
	}
	if node.next == nil {''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewNode(nil, nil)
	a.DetachAndRemove()
	b.DetachAndRemove()
	if n := len(lpg.NodeSlice(g.GetNodes())); n != 1 || g.NumNodes() != 1 {
		t.Fatalf("%d nodes enumerated, NumNodes %d", n, g.NumNodes())
	}''')

S('c01-removeprop-shadow', 'C01', 'removing a property whose value is nil',
  'RemoveProperty leaves a nil-valued property on the node',
  [('graph.go', '''	value, exists := node.properties[key]
	if !exists {
		return
	}
	nix := g.index.isNodePropertyIndexed(key)''', '''	value := node.properties[key]
	if value == nil {
		return
	}
	nix := g.index.isNodePropertyIndexed(key)''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, map[string]any{"k": nil, "l": 1})
	n.RemoveProperty("k")
	if _, ok := n.GetProperty("k"); ok {
		t.Fatal("property still there")
	}''')

S('c02-stale-label-map', 'C02', 'a node whose outgoing edges drop from two to one, after which the remaining edge is relabeled, looked up by its old label',
  'the edge is still listed under its former label',
  [('edgemap.go', '''			em.only = v.Value.(*edgeLabelList).edges.head
		}
		em.lazyInit()
	}''', '''			em.only = v.Value.(*edgeLabelList).edges.head
		}
	}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e1 := g.NewEdge(a, b, "x", nil)
	e2 := g.NewEdge(a, b, "y", nil)
	e1.Remove()
	e2.SetLabel("z")
	if n := len(lpg.EdgeSlice(a.GetEdgesWithLabel(lpg.OutgoingEdge, "y"))); n != 0 {
		t.Fatalf("edge still listed under its old label: %d", n)
	}''')

S('c02-sink-selfloop', 'C02', 'a node whose only outgoing edge is a loop',
  'the node is reported as a sink although it has an outgoing edge',
  [('alg.go', '''				if edges := node.GetEdges(OutgoingEdge); edges.Next() {
					return false
				}
				return true''', '''				for edges := node.GetEdges(OutgoingEdge); edges.Next(); {
					if edges.Edge().GetTo() != node {
						return false
					}
				}
				return true''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	if n := len(lpg.Sinks(g)); n != 0 {
		t.Fatalf("%d sinks", n)
	}''')

S('c03-single-candidate', 'C03', 'two labels looked up together where the rarer one is carried by exactly one node, which lacks the other',
  'the node is returned although it does not carry all labels',
  [('maps.go', '''	itr := minSet.iterator()
	flt := &filterIterator{''', '''	itr := minSet.iterator()
	if minSet.size() == 1 {
		// Only one candidate
		return nodeIterator{itr}
	}
	flt := &filterIterator{'''), ('maps.go', '		itr: withSize(itr, minSet.size()),', '		itr: itr,')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"B"}, nil)
	g.NewNode([]string{"B"}, nil)
	if n := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet("A", "B")))); n != 0 {
		t.Fatalf("%d nodes have both labels", n)
	}''')

S('c03-seen-window', 'C03', 'listing the nodes for the empty label set when a node has two labels and another label was first used between them',
  'such a node is listed twice',
  [('maps.go', '					for _, l := range nmIterator.seenLabels {', '''					seen := nmIterator.seenLabels
					if len(seen) > 2 {
						seen = seen[len(seen)-2:]
					}
					for _, l := range seen {''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"B"}, nil)
	g.NewNode([]string{"C"}, nil)
	g.NewNode([]string{"A", "C"}, nil)
	if n := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet()))); n != 4 {
		t.Fatalf("%d nodes listed", n)
	}''')

S('c04-unindexed-stops', 'C04', 'removing an edge that has an indexed and an unindexed property (depends on map order)',
  'the edge property index keeps returning the removed edge',
  [('indexes.go', '''		index, found := g.edgeProperties[k]
		if !found {
			continue
		}
		index.remove(v, edge.id)''', '''		index, found := g.edgeProperties[k]
		if !found {
			return
		}
		index.remove(v, edge.id)''')],
  '''g := lpg.NewGraph()
	g.AddEdgePropertyIndex("k", lpg.BtreeIndex)
	a := g.NewNode(nil, nil)
	for i := 0; i < 64; i++ {
		g.NewEdge(a, a, "x", map[string]any{"k": 1, "l": 2}).Remove()
	}
	if n := len(lpg.EdgeSlice(g.FindEdges(lpg.NewStringSet(), map[string]any{"k": 1}))); n != 0 {
		t.Fatalf("%d removed edges found", n)
	}''')

S('c04-copied-edge-not-indexed', 'C04', 'copying edges into a graph that has an edge property index',
  'copied edges are missing from property lookups when the index exists',
  [('graph.go', '''		id:    g.idBase,
	}
	if sourceEdge.properties != nil {
		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
	}
	g.idBase++
	g.allEdges.add(newEdge, 0)
	g.connect(newEdge)
	g.index.addEdgeToIndex(newEdge, g)
	return newEdge''', '''		id:    g.idBase,
	}
	g.idBase++
	g.allEdges.add(newEdge, 0)
	g.connect(newEdge)
	g.index.addEdgeToIndex(newEdge, g)
	if sourceEdge.properties != nil {
		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
	}
	return newEdge''')],
  '''src := lpg.NewGraph()
	a := src.NewNode(nil, nil)
	src.NewEdge(a, a, "x", map[string]any{"k": 1})
	g := lpg.NewGraph()
	g.AddEdgePropertyIndex("k", lpg.HashIndex)
	lpg.CopyGraph(src, g, func(_ string, v any) any { return v })
	if n := len(lpg.EdgeSlice(g.GetEdgesWithProperty("k"))); n != 1 {
		t.Fatalf("%d edges found", n)
	}''')

S('c05-edge-prop-branch', 'C05', 'an edge search by label and property where the property is indexed',
  'edges with the right property but another label are returned',
  [('graph.go', '''				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return edgeFilterFunc(item.(*Edge))
				},''', '''				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return GetEdgeFilterFunc(StringSet{}, properties)(item.(*Edge))
				},''')],
  '''g := lpg.NewGraph()
	g.AddEdgePropertyIndex("k", lpg.BtreeIndex)
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", map[string]any{"k": 1})
	g.NewEdge(a, a, "y", map[string]any{"k": 1})
	if n := len(lpg.EdgeSlice(g.FindEdges(lpg.NewStringSet("x"), map[string]any{"k": 1}))); n != 1 {
		t.Fatalf("%d edges found", n)
	}''')

S('c05-first-prop-decides', 'C05', 'a node search with two property values of which exactly one is equal (depends on map order)',
  'nodes that match only one of the properties are found',
  [('graph.go', '''			if ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
		}
		return true''', '''			return ComparePropertyValue(v, nodeValue) == 0
		}
		return true''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, map[string]any{"k": 1, "l": 2})
	for i := 0; i < 64; i++ {
		if n := len(lpg.NodeSlice(g.FindNodes(lpg.NewStringSet(), map[string]any{"k": 1, "l": 3}))); n != 0 {
			t.Fatalf("%d nodes found", n)
		}
	}''')

S('c06-anydir-size', 'C06', 'MaxSize of the edges of a node in both directions with a label, when there are incoming and outgoing ones',
  'the size estimate is smaller than the number of edges yielded',
  [('node.go', '''	i2 := node.outgoing.iteratorLabel(label, 1)
	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}''', '''	i2 := node.outgoing.iteratorLabel(label, 1)
	size := i1.MaxSize()
	if size < i2.MaxSize() {
		size = i2.MaxSize()
	}
	return edgeIterator{withSize(MultiIterator(i1, i2), size)}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, a, "x", nil)
	itr := a.GetEdgesWithLabel(lpg.AnyEdge, "x")
	sz := itr.MaxSize()
	if n := len(lpg.EdgeSlice(itr)); sz != -1 && n > sz {
		t.Fatalf("size %d, %d edges", sz, n)
	}''')

S('c06-single-restart', 'C06', 'calling Next on an exhausted iterator over a single edge',
  'the iterator starts over instead of answering that nothing is left',
  [('edgemap.go', '''	if itr.done {
		return false
	}
	itr.done = true
	return true''', '''	itr.done = !itr.done
	return itr.done''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	itr := a.GetEdges(lpg.OutgoingEdge)
	lpg.EdgeSlice(itr)
	if itr.Next() {
		t.Fatal("exhausted iterator continues")
	}''')

S('c07-remove-in-place', 'C07', 'removing one label from the label set returned by GetLabels',
  "the node's own labels are changed by editing the returned set",
  [('stringset.go', '''func (set *StringSet) Remove(s ...string) *StringSet {
	m := set.M
''', '''func (set *StringSet) Remove(s ...string) *StringSet {
	m := set.M
	if len(s) == 1 {
		delete(m, s[0])
		return set
	}
'''), ('stringset.go', '''	set.M = make(map[string]struct{}, len(m))
	for x := range m {
		has := false''', '''	set.M = map[string]struct{}{}
	for x := range m {
		has := false''')],
  '''g := lpg.NewGraph()
	n := g.NewNode([]string{"A", "B"}, nil)
	l := n.GetLabels()
	l.Remove("A")
	if !n.HasLabel("A") {
		t.Fatal("label gone from the node")
	}''')

S('c07-shared-encode-map', 'C07', 'encoding another graph from within the property marshaler of a running encode',
  'the outer encoding loses or mixes up nodes',
  [('json.go', '''	nodeMap := make(map[*Node]int)

	marshalProperties''', '''	nodeMap := encodeNodeMap
	for k := range nodeMap {
		delete(nodeMap, k)
	}

	marshalProperties'''), ('json.go', '''// Encode the graph in JSON
''', '''// reused to avoid allocating a map for every graph
var encodeNodeMap = make(map[*Node]int)

// Encode the graph in JSON
''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 8; i++ {
		g.NewNode([]string{"A"}, map[string]any{"k": i})
	}
	inner := lpg.NewGraph()
	inner.NewNode([]string{"B"}, nil)
	m := lpg.JSON{}
	m.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
		var b bytes.Buffer
		if err := (lpg.JSON{}).Encode(inner, &b); err != nil {
			return "", nil, err
		}
		return k, json.RawMessage(b.Bytes()), nil
	}
	var b bytes.Buffer
	if err := m.Encode(g, &b); err != nil {
		t.Fatal(err)
	}
	r := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(r, json.NewDecoder(&b)); err != nil {
		t.Fatal(err)
	}
	if n := len(lpg.NodeSlice(r.GetNodesWithAllLabels(lpg.NewStringSet("A")))); n != 8 {
		t.Fatalf("%d nodes", n)
	}''')

S('c08-edge-props-shared', 'C08', 'changing the property map passed to NewEdge after the edge was created',
  "the caller's later changes show up in the edge",
  [('graph.go', '''	var p properties
	if len(props) > 0 {
		p = make(properties, len(props))
		for k, v := range props {
			p[k] = v
		}
	}
	return g.FastNewEdge(from, to, label, p)''', '''	return g.FastNewEdge(from, to, label, properties(props))''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	m := map[string]any{"k": 1}
	e := g.NewEdge(a, a, "x", m)
	m["k"] = 2
	if v, _ := e.GetProperty("k"); v != 1 {
		t.Fatal(v)
	}''')

S('c08-id-reuse', 'C08', 'creating a node after another node was removed',
  'two live nodes get the same identifier',
  [('graph.go', '''	node.id = g.idBase
	g.idBase++
	g.addNode(node)''', '''	node.id = g.allNodes.n + g.allEdges.size()
	g.idBase = node.id + 1
	g.addNode(node)''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	a.DetachAndRemove()
	c := g.NewNode(nil, nil)
	if b.GetID() == c.GetID() {
		t.Fatal("same id")
	}''')

S('c09-edge-start-backward', 'C09', 'a five element pattern whose second relationship is the cheapest start and whose first one points left',
  'matches are missed or wrong edges are reported',
  [('pattern.go', '''				if pattern[i].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)''', '''				if pattern[i].ToLeft && pattern[index].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)''', 2)],
  '''g := lpg.NewGraph()
	g.AddEdgePropertyIndex("k", lpg.HashIndex)
	for i := 0; i < 4; i++ {
		g.NewNode(nil, nil)
	}
	ns := lpg.NodeSlice(g.GetNodes())
	// n0 <- n1 -> n2
	g.NewEdge(ns[1], ns[0], "x", nil)
	g.NewEdge(ns[1], ns[2], "y", map[string]any{"k": 1})
	g.NewEdge(ns[2], ns[3], "z", nil)
	g.NewEdge(ns[3], ns[3], "z", nil)
	sym := &lpg.PatternSymbol{}
	for itr := g.GetEdgesWithProperty("k"); itr.Next(); {
		sym.Add(itr.Edge())
	}
	acc, err := lpg.Pattern{{}, {Min: 1, Max: 1, ToLeft: true}, {}, {Min: 1, Max: 1, Name: "e"}, {}}.FindPaths(g, map[string]*lpg.PatternSymbol{"e": sym})
	if err != nil {
		t.Fatal(err)
	}
	// e is n1->n2; the edges leaving... x and y themselves start at n1
	if len(acc.Paths) != 2 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c09-skip-label-filter', 'C09', 'a node element with a label and no properties whose variable is supplied with a set smaller than the label list',
  'nodes without the label are reported',
  [('planprocessors.go', '		nodeFilter := processor.patternItem.getNodeFilter()\n', '''		nodeFilter := func(*Node) bool { return true }
		if len(processor.patternItem.Properties) > 0 || processor.patternItem.Labels.Len() != 1 {
			// otherwise the label index has selected the nodes already
			nodeFilter = processor.patternItem.getNodeFilter()
		}
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"A"}, nil)
	b := g.NewNode([]string{"B"}, nil)
	sym := &lpg.PatternSymbol{}
	sym.AddNode(b)
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("A"), Name: "n"}}.FindPaths(g, map[string]*lpg.PatternSymbol{"n": sym})
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 0 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c10-repeat-window', 'C10', 'a variable length relationship over a cycle of more than five edges',
  'an edge is repeated within one relationship when the previous use is more than five steps back',
  [('vpathitr.go', '		for _, p := range path.path {', '''		recent := path.path
		if len(recent) > 5 {
			recent = recent[len(recent)-5:]
		}
		for _, p := range recent {''')],
  '''g := lpg.NewGraph()
	ns := []*lpg.Node{g.NewNode([]string{"A"}, nil)}
	for i := 1; i < 7; i++ {
		ns = append(ns, g.NewNode(nil, nil))
		g.NewEdge(ns[i-1], ns[i], "x", nil)
	}
	g.NewEdge(ns[6], ns[0], "x", nil)
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Min: 1, Max: 10}, {}}.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 7 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c10-unbounded-start', 'C10', 'a relationship with minimum 1 and no maximum in a graph that has fewer edges than nodes',
  'the search starts from that relationship as if it had length one, longer paths are missed',
  [('pattern.go', 'if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {', 'if p.Min > 1 || p.Max > 1 || p.Min == -1 {')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, c, "x", nil)
	acc, err := lpg.Pattern{{}, {Min: 1, Max: -1}, {}}.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 3 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c11-empty-edge-set', 'C11', 'an edge variable supplied with an edge set that is empty, in a pattern searched from a node',
  'the variable takes values that are not in the supplied set',
  [('pattern.go', '''		return sym.Edges, nil
	}
	return nil, nil''', '''		if sym.Edges.Len() > 0 {
			return sym.Edges, nil
		}
	}
	return nil, nil''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	acc, err := lpg.Pattern{{}, {Min: 1, Max: 2, Name: "e"}, {}}.FindPaths(g, map[string]*lpg.PatternSymbol{"e": {Edges: lpg.NewEdgeSet()}})
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 0 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c11-indexed-unconstrained', 'C11', 'a node variable supplied with a set, together with an indexed property that matches fewer nodes than the set holds',
  'the variable takes a node outside the supplied set',
  [('planprocessors.go', '''						return nodes.Has(item.(*Node))
''', '''						return len(processor.patternItem.Properties) > 0 && processor.patternItem.Labels.Len() == 0 || nodes.Has(item.(*Node))
''')],
  '''g := lpg.NewGraph()
	g.AddNodePropertyIndex("k", lpg.BtreeIndex)
	g.NewNode(nil, map[string]any{"k": 1})
	sym := &lpg.PatternSymbol{}
	sym.AddNode(g.NewNode(nil, nil))
	sym.AddNode(g.NewNode(nil, nil))
	acc, err := lpg.Pattern{{Properties: map[string]any{"k": 1}, Name: "n"}}.FindPaths(g, map[string]*lpg.PatternSymbol{"n": sym})
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 0 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c12-edge-start-undirected', 'C12', 'a pattern whose first relationship is cheap enough to start from and whose second one is undirected',
  'matches that traverse the undirected relationship backwards are lost when the search starts from an edge',
  [('pattern.go', '''					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], OutgoingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], AnyEdge)''', '''					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], OutgoingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], OutgoingEdge)''')],
  '''build := func(extra int) int {
		g := lpg.NewGraph()
		a := g.NewNode([]string{"A"}, nil)
		b := g.NewNode(nil, nil)
		g.NewEdge(a, b, "x", nil)
		for i := 0; i < extra; i++ {
			g.NewNode([]string{"Z"}, nil)
		}
		acc, err := lpg.Pattern{{Labels: lpg.NewStringSet()}, {Min: 1, Max: 1}, {}, {Min: 1, Max: 1, Undirected: true}, {}}.FindPaths(g, nil)
		if err != nil {
			t.Fatal(err)
		}
		return len(acc.Paths)
	}
	if n := build(0); n != 1 {
		t.Fatalf("%d matches", n)
	}
	if n := build(3); n != 1 {
		t.Fatalf("%d matches with unrelated nodes", n)
	}''')

S('c12-backward-undirected', 'C12', 'an undirected relationship before the element the search starts from, matched against its stored direction',
  'the result depends on which element is cheapest',
  [('pattern.go', '''					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)''', '''					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)''', 1)],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"A"}, nil)
	b := g.NewNode([]string{"B"}, nil)
	g.NewEdge(b, a, "x", nil)
	g.NewEdge(b, a, "x", nil)
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Min: 1, Max: 1, Undirected: true}, {Labels: lpg.NewStringSet("B")}}.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 2 {
		t.Fatalf("%d matches", len(acc.Paths))
	}''')

S('c13-stop-ignored', 'C13', 'the callback asks to stop at a path that has at least two edges while other edges leave the path',
  'the callback is called again after it returned false',
  [('vpathitr.go', '''				if !recurse(prefix.Clone().Append(pe)) {
					return false
				}''', '''				recurse(prefix.Clone().Append(pe))''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, a, "x", nil)
	g.NewEdge(b, b, "x", nil)
	stopped := false
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, -1, func(p *lpg.Path) bool {
		if stopped {
			t.Fatal("called after stop")
		}
		stopped = p.NumEdges() == 2
		return !stopped
	})''')

S('c13-callback-owns-prefix', 'C13', 'a callback that shortens or extends the path it is given',
  'editing the path in the callback changes the rest of the enumeration',
  [('vpathitr.go', 'if !accumulator(prefix.Clone()) {', 'if !accumulator(prefix) {')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, c, "x", nil)
	n := 0
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 2, func(p *lpg.Path) bool {
		if p.NumEdges() != 1 && p.NumEdges() != 2 || p.First() != a {
			t.Fatal("wrong path")
		}
		n++
		p.RemoveLast()
		return n < 10
	})
	if n != 2 {
		t.Fatalf("%d paths", n)
	}''')

S('c14-slice-aliases', 'C14', 'slicing a path, then removing the last edge of the original and appending another one (or appending to the slice)',
  'the earlier slice changes with the original path',
  [('path.go', '''	pth := make([]PathElement, endNodeIndex-startNodeIndex-1)
	copy(pth, p.path[startNodeIndex:endNodeIndex-1])
	return &Path{path: pth}''', '''	return &Path{path: p.path[startNodeIndex : endNodeIndex-1]}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e1 := g.NewEdge(a, a, "x", nil)
	e2 := g.NewEdge(a, a, "y", nil)
	e3 := g.NewEdge(a, a, "z", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e1}, lpg.PathElement{Edge: e2})
	s := p.Slice(0, -1)
	p.RemoveLast()
	p.Append(lpg.PathElement{Edge: e3})
	if s.GetEdge(1) != e2 {
		t.Fatal("slice changed")
	}''')

S('c14-prefix-ignores-direction', 'C14', 'comparing paths that traverse the same edge in opposite directions',
  'a path is reported to be a prefix of one that starts at another node',
  [('path.go', '		if e1 != p.path[path1Idx] {', '		if e1.Edge != p.path[path1Idx].Edge {')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e})
	q := lpg.NewPathFromElements(lpg.PathElement{Edge: e, Reverse: true})
	if p.HasPrefixPath(q) {
		t.Fatal("b<-a is no prefix of a->b")
	}''')

S('c15-neighbours-last-seen', 'C15', 'a node with parallel edges to one neighbour that are listed with an edge to another neighbour in between',
  'the neighbour is listed twice',
  [('itr.go', '''		if _, seen := i.seen[node.id]; seen {
			continue
		}
		i.seen[node.id] = struct{}{}
		return true''', '''		if _, seen := i.seen[node.id]; seen {
			continue
		}
		i.seen = map[int]struct{}{node.id: {}}
		return true''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, c, "x", nil)
	g.NewEdge(a, b, "x", nil)
	cur := (&lpg.Cursor{}).Set(a)
	if n := len(lpg.NodeSlice(cur.NextNodes())); n != 2 {
		t.Fatalf("%d neighbours", n)
	}''')

S('c15-pop-first', 'C15', 'popping the only pushed edge',
  'the cursor does not move back to the start of the path',
  [('cursor.go', '''	c.path.RemoveLast()
''', '''	if c.path.RemoveLast().NumEdges() == 0 {
		return c
	}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	cur := (&lpg.Cursor{}).Set(a).StartPath()
	cur.PushToPath(e)
	cur.PopFromPath()
	if n := len(lpg.EdgeSlice(cur.Forward())); n != 1 {
		t.Fatalf("cursor not moved back: %d edges", n)
	}''')

S('c16-null-property', 'C16', 'a property whose value is nil',
  'the property is missing after a round trip',
  [('json.go', '''			if j.PropertyMarshaler == nil {
				d, err := json.Marshal(v)''', '''			if j.PropertyMarshaler == nil {
				if v == nil {
					continue
				}
				d, err := json.Marshal(v)''' ), ('json.go', '''				ret[k] = d
			} else {''', '''				ret[k] = json.RawMessage(d)
			} else {''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, map[string]any{"k": nil})
	var b bytes.Buffer
	if err := (lpg.JSON{}).Encode(g, &b); err != nil {
		t.Fatal(err)
	}
	r := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(r, json.NewDecoder(&b)); err != nil {
		t.Fatal(err)
	}
	for itr := r.GetNodes(); itr.Next(); {
		if _, ok := itr.Node().GetProperty("k"); !ok {
			t.Fatal("property lost")
		}
	}''')

S('c16-to-omitempty', 'C16', 'an embedded edge that points to the node with index 0',
  'the document has an edge without the documented "to" member',
  [('json.go', '''type jsonOutgoingEdge struct {
	To         int                        `json:"to"`''', '''type jsonOutgoingEdge struct {
	To         int                        `json:"to,omitempty"`''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	var b bytes.Buffer
	if err := (lpg.JSON{}).Encode(g, &b); err != nil {
		t.Fatal(err)
	}
	var doc struct {
		Nodes []struct {
			Edges []map[string]any
		}
	}
	if err := json.Unmarshal(b.Bytes(), &doc); err != nil {
		t.Fatal(err)
	}
	if _, ok := doc.Nodes[0].Edges[0]["to"]; !ok {
		t.Fatal(b.String())
	}''')

S('c17-unknown-target', 'C17', 'an edge in the edges section that names an unknown target node',
  'the edge is dropped silently instead of reporting an error',
  [('json.go', '''					to, ok := nodeMap[edge.To]
					if !ok {
						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
					}''', '''					to, ok := nodeMap[edge.To]
					if !ok {
						continue
					}''')],
  '''g := lpg.NewGraph()
	err := lpg.JSON{}.Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":0}],"edges":[{"from":0,"to":5}]}`)))
	if err == nil {
		t.Fatal("no error")
	}''')

S('c17-truncated-ok', 'C17', 'a document cut off right after a complete member of the outer object',
  'a truncated document is accepted',
  [('json.go', '''		tok, err = input.Token()
		if err != nil {
			return err
		}
		if depth == 0 {''', '''		if tok, err = input.Token(); err == io.EOF && depth == 0 && len(nodeMap) > 0 && len(edgeQueue) == 0 {
			return nil
		}
		if err != nil {
			return err
		}
		if depth == 0 {''')],
  '''g := lpg.NewGraph()
	err := lpg.JSON{}.Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":0}]`)))
	if err == nil {
		t.Fatal("no error")
	}''')

S('c18-last-write', 'C18', 'an output that fails exactly at the last write of an encoding',
  'Encode reports success for an incomplete document',
  [('json.go', '''	if _, err := out.Write(objEnd); err != nil {
		return err
	}

	return nil
}''', '''	_, _ = out.Write(objEnd)

	return nil
}''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, nil)
	for _, sep := range []bool{false, true} {
		c := &lim{n: 1 << 20}
		if err := (lpg.JSON{MarshalEdgesSeparately: sep}).Encode(g, c); err != nil {
			t.Fatal(err)
		}
		if err := (lpg.JSON{MarshalEdgesSeparately: sep}).Encode(g, &lim{n: (1 << 20) - c.n - 1}); err == nil {
			t.Fatal("no error")
		}
	}''', '''type lim struct{ n int }

func (l *lim) Write(p []byte) (int, error) {
	if len(p) > l.n {
		return 0, errors.New("full")
	}
	l.n -= len(p)
	return len(p), nil
}
''')

S('c18-dot-unlabeled', 'C18', 'a write that fails while an edge without a label is rendered and works again afterwards',
  'Render reports success although the edge was not written',
  [('dotrenderer.go', '''		if _, err := fmt.Fprintf(w, "  %s -> %s;\\n", fromNode, toNode); err != nil {
			return err
		}''', '''		fmt.Fprintf(w, "  %s -> %s;\\n", fromNode, toNode)''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "", nil)
	for i := 0; ; i++ {
		w := &once{at: i}
		err := lpg.DOTRenderer{}.Render(g, "g", w)
		if w.n <= i {
			break
		}
		if err == nil {
			t.Fatalf("no error for write %d", i)
		}
	}''', '''type once struct{ at, n int }

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == o.at+1 {
		return 0, errors.New("failed")
	}
	return len(p), nil
}
''')

S('c19-copied-node-not-indexed', 'C19', 'copying into a graph with a node property index',
  'copied nodes are invisible to the property index of the target',
  [('graph.go', '''	newNode.id = g.idBase
	g.idBase++
	g.addNode(newNode)
	return newNode''', '''	newNode.id = g.idBase
	g.idBase++
	g.allNodes.add(newNode)
	g.index.nodesByLabel.Add(newNode)
	return newNode''')],
  '''src := lpg.NewGraph()
	src.NewNode(nil, map[string]any{"k": 1})
	g := lpg.NewGraph()
	g.AddNodePropertyIndex("k", lpg.HashIndex)
	lpg.CopyGraph(src, g, func(_ string, v any) any { return v })
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.NewStringSet(), map[string]any{"k": 1}))); n != 1 {
		t.Fatalf("%d nodes found", n)
	}''')

S('c19-parallel-edges', 'C19', 'copying a graph with two edges of the same label between the same nodes',
  'only one of the parallel edges is copied',
  [('clone.go', '''		copyEdgeFunc(edge, nodeMap)
''', '''		key := edgeKey{nodeMap[edge.GetFrom()], nodeMap[edge.GetTo()], edge.GetLabel()}
		if _, seen := copied[key]; seen {
			continue
		}
		copied[key] = copyEdgeFunc(edge, nodeMap)
'''), ('clone.go', '''	for edges := source.GetEdges(); edges.Next(); {
		edge := edges.Edge()
		if _, fromExists''', '''	type edgeKey struct {
		from, to *Node
		label    string
	}
	copied := make(map[edgeKey]*Edge)
	for edges := source.GetEdges(); edges.Next(); {
		edge := edges.Edge()
		if _, fromExists''')],
  '''src := lpg.NewGraph()
	a := src.NewNode(nil, nil)
	src.NewEdge(a, a, "x", nil)
	src.NewEdge(a, a, "x", map[string]any{"k": 1})
	g := lpg.NewGraph()
	lpg.CopyGraph(src, g, func(_ string, v any) any { return v })
	if g.NumEdges() != 2 {
		t.Fatal(g.NumEdges())
	}''')

S('c20-loop-dropped', 'C20', 'copying a subgraph that contains a loop edge',
  'the loop edge is not copied',
  [('clone.go', '''		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
''', '''		edge := edges.Edge()
		if _, done := nodeMap[edge.GetTo()]; !done {
			CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		} else if edge.GetTo() == sourceNode {
			continue
		}
''')],
  '''src := lpg.NewGraph()
	a := src.NewNode(nil, nil)
	src.NewEdge(a, a, "x", nil)
	g := lpg.NewGraph()
	lpg.CopySubgraph(a, g, func(_ string, v any) any { return v }, map[*lpg.Node]*lpg.Node{})
	if g.NumEdges() != 1 {
		t.Fatal(g.NumEdges())
	}''')

S('c20-parallel-doubled', 'C20', 'copying a subgraph with parallel edges',
  'parallel edges are copied more than once',
  [('clone.go', '''		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
''', '''		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		for _, e := range EdgesBetweenNodes(sourceNode, edge.GetTo()) {
			CopyEdge(e, target, clonePropertyFunc, nodeMap)
		}
''')],
  '''src := lpg.NewGraph()
	a := src.NewNode(nil, nil)
	b := src.NewNode(nil, nil)
	src.NewEdge(a, b, "x", nil)
	src.NewEdge(a, b, "x", nil)
	g := lpg.NewGraph()
	lpg.CopySubgraph(a, g, func(_ string, v any) any { return v }, map[*lpg.Node]*lpg.Node{})
	if g.NumEdges() != 2 {
		t.Fatal(g.NumEdges())
	}''')

S('c21-extra-isolated', 'C21', 'a second graph that equals the first plus isolated nodes',
  'graphs of different size are called isomorphic',
  [('alg.go', 'if g1.NumNodes() != g2.NumNodes() || g1.NumEdges()', 'if g1.NumNodes() > g2.NumNodes() || g1.NumEdges()')],
  '''g1 := lpg.NewGraph()
	g1.NewNode(nil, nil)
	g2 := lpg.NewGraph()
	g2.NewNode(nil, nil)
	g2.NewNode(nil, nil)
	ok, _ := lpg.CheckIsomorphism(context.Background(), g1, g2, func(a, b *lpg.Node) bool { return true }, func(a, b *lpg.Edge) bool { return true })
	if ok {
		t.Fatal("isomorphic")
	}''')

S('c21-cancel-is-no', 'C21', 'a context cancelled during the search',
  'cancellation is reported as a definite "not isomorphic"',
  [('alg.go', '''		if !next() {
			break
		}
		if err := ctx.Err(); err != nil {
			return false, err
		}
	}''', '''		if !next() {
			break
		}
		if ctx.Err() != nil {
			break
		}
	}''')],
  '''mk := func(first int) *lpg.Graph {
		g := lpg.NewGraph()
		ns := []*lpg.Node{g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)}
		g.NewEdge(ns[first], ns[(first+1)%3], "x", nil)
		return g
	}
	for calls := 0; calls < 40; calls++ {
		ok, err := lpg.CheckIsomorphism(&late{Context: context.Background(), n: calls}, mk(0), mk(1), func(a, b *lpg.Node) bool { return true }, func(a, b *lpg.Edge) bool { return true })
		if err == nil && !ok {
			t.Fatal("isomorphic graphs called different")
		}
	}''', '''type late struct {
	context.Context
	n int
}

func (l *late) Err() error {
	if l.n--; l.n < 0 {
		return context.Canceled
	}
	return nil
}
''')

S('c22-length-difference', 'C22', 'nested lists whose inner lists differ in length by two or more',
  'nested lists of different contents compare as equal',
  [('properties.go', '''				switch ComparePropertyValue(v1[i], v2[i]) {
				case -1:
					return -1
				case 1:
					return 1
				}
			}
			if l1 < l2 {
				return -1
			}
			if l1 > l2 {
				return 1
			}
			return 0
		}
		if v2, ok := b.([]string); ok {''', '''				switch ComparePropertyValue(v1[i], v2[i]) {
				case -1:
					return -1
				case 1:
					return 1
				}
			}
			return l1 - l2
		}
		if v2, ok := b.([]string); ok {''')],
  '''a := []interface{}{[]interface{}{}}
	b := []interface{}{[]interface{}{1, 2}}
	if lpg.ComparePropertyValue(a, b) >= 0 || lpg.ComparePropertyValue(b, a) <= 0 {
		t.Fatal("lists of different contents compare as equal")
	}''')

S('c22-wrapped-right', 'C22', 'a plain value compared with a wrapped one on the right hand side',
  'the comparison is not antisymmetric',
  [('properties.go', '		return ComparePropertyValue(a, n.GetNativeValue())', '		return ComparePropertyValue(n.GetNativeValue(), a)')],
  '''if lpg.ComparePropertyValue(1, nat{2}) >= 0 {
		t.Fatal("1 >= 2")
	}''', '''type nat struct{ v any }

func (n nat) GetNativeValue() any { return n.v }
''')

S('c23-addset-in-place', 'C23', 'adding a set to a set that was copied before',
  'the copy changes too',
  [('stringset.go', '''func (set *StringSet) AddSet(s StringSet) *StringSet {
	m := set.M
	set.M = make(map[string]struct{}, len(s.M)+len(m))
	for x := range m {
		set.M[x] = struct{}{}
	}
''', '''func (set *StringSet) AddSet(s StringSet) *StringSet {
	if set.M == nil {
		set.M = make(map[string]struct{}, len(s.M))
	}
''')],
  '''a := lpg.NewStringSet("x")
	b := a.Clone()
	a.AddSet(lpg.NewStringSet("y"))
	if b.Has("y") {
		t.Fatal("clone changed")
	}''')

S('c23-unmarshal-merges', 'C23', 'decoding JSON into a set that already has elements',
  'the old elements stay in the set',
  [('stringset.go', '	*set = NewStringSet(arr...)\n	return nil', '	set.Add(arr...)\n	return nil')],
  '''s := lpg.NewStringSet("x")
	if err := json.Unmarshal([]byte(`["y"]`), &s); err != nil {
		t.Fatal(err)
	}
	if !s.IsEqual(lpg.NewStringSet("y")) {
		t.Fatal(s)
	}''')

S('c24-readd-duplicates', 'C24', 'adding an element to a set that already contains it',
  'the element is iterated twice while the size says once',
  [('sets.go', '''	_, exists := f.m[id]
	if exists {
		return false
	}
	el := f.l.PushBack(item)
	f.m[id] = el
	return true''', '''	_, exists := f.m[id]
	f.m[id] = f.l.PushBack(item)
	return !exists''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, nil)
	s := lpg.NewNodeSet()
	s.Add(n)
	s.Add(n)
	if len(s.Slice()) != 1 {
		t.Fatal(len(s.Slice()))
	}''')

S('c24-singleton-label', 'C24', 'iterating a whole label map in which a node has two labels and is the only node of the first one',
  'the node is yielded twice',
  [('maps.go', '''	itr.seenLabels = append(itr.seenLabels, itr.labels.Key().(string))
	set := itr.labels.Value().(*fastSet)
''', '''	set := itr.labels.Value().(*fastSet)
	if set.size() > 1 {
		itr.seenLabels = append(itr.seenLabels, itr.labels.Key().(string))
	}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	b := g.NewNode([]string{"B"}, nil)
	c := g.NewNode([]string{"A", "B"}, nil)
	m := lpg.NewNodeMap()
	m.Add(b)
	m.Add(c)
	_ = a
	for i := 0; i < 2; i++ {
		if n := len(lpg.NodeSlice(m.Iterator())); n != 2+i {
			t.Fatalf("%d nodes", n)
		}
		if i == 0 {
			m.Add(g.NewNode([]string{"C", "D"}, nil))
		}
	}''')

S('c25-dangling-edge', 'C25', 'a node renderer that excludes one endpoint of an edge',
  'an edge with a missing endpoint is rendered',
  [('dotrenderer.go', 'if ok1 && ok2 {', 'if ok1 || ok2 {')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	r := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
		if n == b {
			return false, nil
		}
		return true, lpg.DefaultDOTNodeRender(id, n, w)
	}}
	var sb strings.Builder
	if err := r.Render(g, "g", &sb); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(sb.String(), "->") {
		t.Fatal(sb.String())
	}''')

S('c25-blank-label', 'C25', 'an edge whose label consists of blanks only',
  'the edge is rendered without its label',
  [('dotrenderer.go', 'if len(lbl) != 0 {', 'if len(strings.TrimSpace(lbl)) != 0 {')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, " ", nil)
	var sb strings.Builder
	if err := (lpg.DOTRenderer{}).Render(g, "g", &sb); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(sb.String(), `" "`) {
		t.Fatal(sb.String())
	}''')
