# Specifications of planted bugs, second batch: cooperating sites, thresholds, caches (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls=''):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls))

S('c01-equal-value-kept', 'C01', 'overwriting a property with a value that compares equal but is represented differently',
  'the property keeps its former value',
  [('graph.go', '''		oldValue, exists := node.properties[key]
		if exists {
			if nix != nil {
				nix.remove(oldValue, node.id)
			}
		}
	}
	node.properties[key] = value
''', '''		oldValue, exists := node.properties[key]
		if exists {
			if buildPropertyFilterFunc(key, value)(node) {
				return
			}
			if nix != nil {
				nix.remove(oldValue, node.id)
			}
		}
	}
	node.properties[key] = value
''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, map[string]interface{}{"a": []string{"x"}})
	n.SetProperty("a", []interface{}{"x"})
	v, _ := n.GetProperty("a")
	if _, ok := v.([]interface{}); !ok {
		t.Fatalf("property is %T", v)
	}''')

S('c01-removed-edge-relabel', 'C01', 'relabeling an edge that was removed while another edge exists in the graph',
  'the removed edge is back in the graph',
  [('graph.go', '''	if edge.removed {
		edge.label = label
		return
	}
	g.disconnect(edge)
	g.allEdges.remove(edge, 0)
	edge.label = label
	g.allEdges.add(edge, 0)
	g.connect(edge)''', '''	if !edge.removed {
		g.disconnect(edge)
	}
	n := g.allEdges.n
	g.allEdges.remove(edge, 0)
	edge.label = label
	if g.allEdges.n == n {
		// not in the graph any more
		return
	}
	g.allEdges.add(edge, 0)
	g.connect(edge)''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	x := g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	x.Remove()
	x.SetLabel("y")
	if n := len(lpg.EdgeSlice(g.GetEdges())); n != 2 || g.NumEdges() != 2 {
		t.Fatalf("%d edges, NumEdges %d", n, g.NumEdges())
	}''')

S('c02-all-labels-shortcut', 'C02', 'an any-of-labels lookup with as many labels as a node has edge labels, some of which the node does not have (depends on map order)',
  'edges with other labels are returned',
  [('edgemap.go', '''	strings := labels.Slice()
''', '''	if labels.Len() >= len(em.labelMap) {
		all := true
		for label := range labels.M {
			_, all = em.labelMap[label]
		}
		if all {
			return em.iterator(listIndex)
		}
	}
	strings := labels.Slice()
''')],
  '''for i := 0; i < 200; i++ {
		g := lpg.NewGraph()
		a := g.NewNode(nil, nil)
		g.NewEdge(a, a, "x", nil)
		g.NewEdge(a, a, "y", nil)
		if n := len(lpg.EdgeSlice(a.GetEdgesWithAnyLabel(lpg.OutgoingEdge, lpg.NewStringSet("x", "z")))); n != 1 {
			t.Fatalf("%d edges", n)
		}
	}''')

S('c02-relabel-last-of-label', 'C02', 'a node with edges of three labels, where the only edge of the second label is relabeled',
  'the node lists an edge under the former label',
  [('edgemap.go', '''	if ell.edges.n == 0 {
		em.edgeLabelLists.Remove(ell.elem)
		delete(em.labelMap, edge.label)
	}
''', '''	if ell.edges.n == 0 {
		// Move the last list to its place
		last := em.edgeLabelLists.Back()
		if last != ell.elem && ell.elem != em.edgeLabelLists.Front() {
			*ell = *last.Value.(*edgeLabelList)
		} else {
			last = ell.elem
			delete(em.labelMap, edge.label)
		}
		em.edgeLabelLists.Remove(last)
	}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	e := g.NewEdge(a, a, "y", nil)
	g.NewEdge(a, a, "z", nil)
	e.SetLabel("w")
	if n := len(lpg.EdgeSlice(a.GetEdgesWithLabel(lpg.OutgoingEdge, "y"))); n != 0 {
		t.Fatalf("%d edges", n)
	}''')

S('c03-drop-two-labels', 'C03', 'relabeling a node so that it loses two labels of which it was the only node',
  'listing the nodes for the empty label set yields the node twice',
  [('maps.go', '''			set = v.(*fastSet)
			set.remove(node.id)
			if set.size() == 0 {
				nm.m.Remove(label)
			}
		}
	}
	// Process added labels''', '''			set = v.(*fastSet)
			set.remove(node.id)
			if set.size() == 0 {
				nm.m.Remove(label)
				break
			}
		}
	}
	// Process added labels''')],
  '''g := lpg.NewGraph()
	n := g.NewNode([]string{"a", "b"}, nil)
	n.SetLabels(lpg.NewStringSet("c"))
	if x := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet()))); x != 1 {
		t.Fatalf("%d nodes", x)
	}''')

S('c03-subset-label', 'C03', 'an edge lookup in a graph with a single edge whose label is a prefix of a label looked up',
  'an edge with another label is returned',
  [('edgemap.go', '''		if labels.Has(em.only.label) {
			return &singleEdgeIterator{edge: em.only}
		}
		return edgeIterator{emptyIterator{}}''', '''		for label := range labels.M {
			if strings.HasPrefix(label, em.only.label) {
				return &singleEdgeIterator{edge: em.only}
			}
		}
		return edgeIterator{emptyIterator{}}'''),
   ('edgemap.go', '''	strings := labels.Slice()
''', '''	keys := labels.Slice()
'''),
   ('edgemap.go', '''			for len(strings) != 0 {
				if _, found := em.labelMap[strings[0]]; !found {
					strings = strings[1:]
					continue
				}
				itr := em.iteratorLabel(strings[0], listIndex)
				strings = strings[1:]
''', '''			for len(keys) != 0 {
				if _, found := em.labelMap[keys[0]]; !found {
					keys = keys[1:]
					continue
				}
				itr := em.iteratorLabel(keys[0], listIndex)
				keys = keys[1:]
'''),
   ('edgemap.go', '''	"container/list"
''', '''	"container/list"
	"strings"
''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, nil)
	g.NewEdge(n, n, "x", nil)
	if x := len(lpg.EdgeSlice(g.GetEdgesWithAnyLabel(lpg.NewStringSet("xy")))); x != 0 {
		t.Fatalf("%d edges", x)
	}''')

S('c04-hash-nested-native', 'C04', 'a hash index over list values whose elements expose a native value',
  'a lookup by the equal plain list misses the node',
  [('hashindex.go', '''		key := hashKey(x)
		if list, ok := key.(hashListKey); ok {
			fmt.Fprintf(&sb, "[%s]", string(list))
		} else {
			fmt.Fprintf(&sb, "%#v,", key)
		}''', '''		switch x.(type) {
		case []int, []string, []interface{}:
			fmt.Fprintf(&sb, "[%s]", hashKey(x))
		default:
			fmt.Fprintf(&sb, "%#v,", x)
		}'''),
   ('hashindex.go', 'func (ix *hashIndex) valueItr() Iterator {\n\tif ix.values == nil {', 'func (ix *hashIndex) valueItr() Iterator {\n\tif ix.elements.Len() == 0 {')],
  '''g := lpg.NewGraph()
	g.AddNodePropertyIndex("a", lpg.HashIndex)
	g.NewNode(nil, map[string]interface{}{"a": []interface{}{nat{1}, nat{2}}})
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.StringSet{}, map[string]interface{}{"a": []int{1, 2}}))); n != 1 {
		t.Fatalf("%d nodes", n)
	}''', decls='''type nat struct{ v int }

func (n nat) GetNativeValue() interface{} { return n.v }
''')

S('c04-detach-index', 'C04', 'detaching a node with an outgoing edge that has an indexed property',
  'the edge property index keeps returning the removed edge',
  [('graph.go', '''	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		g.removeEdge(edge)
	}''', '''	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		edge.to.incoming.remove(edge, 2)
		g.allEdges.remove(edge, 0)
		edge.removed = true
	}''')],
  '''g := lpg.NewGraph()
	g.AddEdgePropertyIndex("a", lpg.HashIndex)
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", map[string]interface{}{"a": 1})
	a.Detach()
	if n := len(lpg.EdgeSlice(g.GetEdgesWithProperty("a"))); n != 0 {
		t.Fatalf("%d edges", n)
	}''')

S('c05-empty-edge-label', 'C05', 'an edge search by label in a graph that has an edge with the empty label, with a property index',
  'edges with the empty label are found for every label',
  [('graph.go', '''			if !labels.Has(edge.label) {
				return false
			}''', '''			if len(edge.label) != 0 && !labels.Has(edge.label) {
				return false
			}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "", nil)
	if lpg.GetEdgeFilterFunc(lpg.NewStringSet("x"), nil)(e) {
		t.Fatalf("edge without label accepted for label x")
	}''')

S('c05-filter-caches-value', 'C05', 'a filter function used again after the property of an element changed',
  'the filter predicate answers for the former property value',
  [('graph.go', '''func GetNodeFilterFunc(labels StringSet, properties map[string]interface{}) func(*Node) bool {
	return func(node *Node) (cmp bool) {''', '''func GetNodeFilterFunc(labels StringSet, properties map[string]interface{}) func(*Node) bool {
	rejected := make(map[*Node]struct{})
	return func(node *Node) (cmp bool) {
		if _, seen := rejected[node]; seen {
			return false
		}
		defer func() {
			if !cmp {
				rejected[node] = struct{}{}
			}
		}()''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, map[string]interface{}{"a": 1})
	f := lpg.GetNodeFilterFunc(lpg.StringSet{}, map[string]interface{}{"a": 2})
	f(a)
	a.SetProperty("a", 2)
	if !f(a) {
		t.Fatal("filter rejects a matching node")
	}''')

S('c06-iterator-pool', 'C06', 'asking an exhausted edge iterator again while a later iterator over the same edges is in use',
  'the later iterator loses an edge, and the exhausted one yields again',
  [('edgemap.go', '''	ret := &allEdgesItr{
		labelListCurrent: em.edgeLabelLists.Front(),
		ix:               listIndex,
	}
''', '''	ret := &allEdgesItr{}
	if n := len(em.labelMap[em.edgeLabelLists.Front().Value.(*edgeLabelList).edges.head.label].Value.(*edgeLabelList).free); n > 0 {
		ell := em.edgeLabelLists.Front().Value.(*edgeLabelList)
		ret = ell.free[n-1]
		ell.free = ell.free[:n-1]
	}
	*ret = allEdgesItr{
		labelListCurrent: em.edgeLabelLists.Front(),
		ix:               listIndex,
		owner:            em.edgeLabelLists.Front().Value.(*edgeLabelList),
	}
'''),
   ('edgemap.go', '''		goto top
	}
	return false
''', '''		goto top
	}
	if itr.owner != nil {
		itr.owner.free = append(itr.owner.free, itr)
		itr.owner = nil
	}
	return false
'''),
   ('edgemap.go', '''	size                            int
	ix                              int
''', '''	size                            int
	ix                              int
	owner                           *edgeLabelList
'''),
   ('edgemap.go', '''	edges edgeList
	elem  *list.Element
''', '''	edges edgeList
	elem  *list.Element
	// finished iterators that can be used again
	free []*allEdgesItr
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	i := g.GetEdges()
	for i.Next() {
	}
	g.GetEdges()
	if i.Next() {
		t.Fatal("exhausted iterator continues")
	}''')

S('c06-loop-neighbours', 'C06', 'iterating the neighbours of a node in both directions when a loop edge is listed',
  'the size estimate is smaller than the number of nodes yielded',
  [('itr.go', 'func (i *nodesFromEdgesIterator) MaxSize() int { return i.itr.MaxSize() }', '''func (i *nodesFromEdgesIterator) MaxSize() int {
	size := i.itr.MaxSize()
	if i.dir == AnyEdge && size > 1 {
		// Neighbours are usually connected in both directions
		return size / 2
	}
	return size
}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, a, "x", nil)
	itr := (&lpg.Cursor{}).Set(a).Nodes(lpg.AnyEdge)
	sz := itr.MaxSize()
	if n := len(lpg.NodeSlice(itr)); sz != -1 && n > sz {
		t.Fatalf("%d nodes, size %d", n, sz)
	}''')

S('c07-nested-collect', 'C07', 'collecting paths from within the callback of another path collection',
  'the outer collection misses paths',
  [('vpathitr.go', '''	isLoop := func(path *Path, nextPath PathElement) bool {
		for _, p := range path.path {
			if nextPath.Edge == p.Edge {
				return true
			}
		}
''', '''	isLoop := func(path *Path, nextPath PathElement) bool {
		for k := range pathEdges {
			delete(pathEdges, k)
		}
		for _, p := range path.path {
			pathEdges[p.Edge] = struct{}{}
		}
		accept := edgeFilter(nextPath.Edge)
		if _, exists := pathEdges[nextPath.Edge]; exists || !accept {
			return true
		}
'''),
   ('vpathitr.go', '''				filter: func(item interface{}) bool {
					return edgeFilter(item.(*Edge))
				},
''', '''				filter: func(item interface{}) bool {
					return true
				},
'''),
   ('vpathitr.go', '''package lpg
''', '''package lpg

// The edges of the path that is being extended
var pathEdges = make(map[*Edge]struct{})
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e1 := g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, a, "x", nil)
	count := func(inner bool) int {
		n := 0
		lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool {
			if inner {
				lpg.CollectAllPaths(g, b, b.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 2, func(*lpg.Path) bool { return true })
			}
			return true
		}, lpg.OutgoingEdge, 1, 3, func(p *lpg.Path) bool { n++; return true })
		return n
	}
	_ = e1
	if x, y := count(false), count(true); x != y {
		t.Fatalf("%d paths alone, %d with nested collection", x, y)
	}''')

S('c07-sorted-labels', 'C07', 'asking a node for its edges by a set of labels, then changing nothing and enumerating the graph',
  'a lookup by labels moves the list of the label to the front while another iterator is open',
  [('edgemap.go', '''	ell := l.Value.(*edgeLabelList)
	return edgeIterator{&edgeListIterator{''', '''	ell := l.Value.(*edgeLabelList)
	// Labels looked up recently are likely to be looked up again
	em.edgeLabelLists.MoveToFront(ell.elem)
	return edgeIterator{&edgeListIterator{''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for _, l := range []string{"x", "y", "z"} {
		g.NewEdge(a, a, l, nil)
	}
	n := 0
	for itr := a.GetEdges(lpg.OutgoingEdge); itr.Next(); {
		n++
		a.GetEdgesWithLabel(lpg.OutgoingEdge, "z")
	}
	if n != 3 {
		t.Fatalf("%d edges", n)
	}''')

S('c08-cloned-edge-id', 'C08', 'two edges copied into a graph',
  'two live edges have the same identifier',
  [('graph.go', '''		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
	}
	g.idBase++
	g.allEdges''', '''		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
		g.idBase++
	}
	g.allEdges''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	lpg.CopyGraph(g, h, func(_ string, v interface{}) interface{} { return v })
	es := lpg.EdgeSlice(h.GetEdges())
	if es[0].GetID() == es[1].GetID() {
		t.Fatal("same identifier")
	}''')

S('c08-clone-to-removed', 'C08', 'cloning an edge to a node that was removed from the target graph',
  'the edge is created with an endpoint that is not in the graph',
  [('graph.go', '''	if to.graph != g || to.removed {
		panic("to node is not in graph")
	}
	newEdge := &Edge{
		from:  from,''', '''	if to.graph != g || from.removed {
		panic("to node is not in graph")
	}
	newEdge := &Edge{
		from:  from,''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	b.DetachAndRemove()
	func() {
		defer func() { recover() }()
		lpg.CloneEdge(a, b, e, g, func(_ string, v interface{}) interface{} { return v })
	}()
	if n := len(lpg.EdgeSlice(g.GetEdges())); n != 1 {
		t.Fatalf("%d edges", n)
	}''')

S('c09-head-consecutive', 'C09', 'matches whose paths start at the same node without being reported one after the other',
  'the head nodes contain a node twice',
  [('pattern.go', '''	ret := make(map[*Node]struct{})
	for _, x := range acc.Paths {
		ret[x.GetNode(0)] = struct{}{}
	}
	arr := make([]*Node, 0, len(ret))
	for x := range ret {
		arr = append(arr, x)
	}
	return arr''', '''	arr := make([]*Node, 0, len(acc.Paths))
	for _, x := range acc.Paths {
		// Matches with the same head are reported together
		if len(arr) == 0 || arr[len(arr)-1] != x.GetNode(0) {
			arr = append(arr, x.GetNode(0))
		}
	}
	return arr''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	b := g.NewNode([]string{"b"}, nil)
	c := g.NewNode([]string{"c"}, nil)
	d := g.NewNode([]string{"a"}, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(d, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	_ = c
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("a")}, {Min: 1, Max: 1}, {Labels: lpg.NewStringSet("b")}}.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 3 {
		t.Fatal(err, len(acc.Paths))
	}
	if n := len(acc.GetHeadNodes()); n != 2 {
		t.Fatalf("%d head nodes", n)
	}''')

S('c09-shared-filter-cache', 'C09', 'a pattern in which two nodes have the same labels and different property conditions',
  'nodes that fail the property condition are matched',
  [('planprocessors.go', '''	ret := &iterateConnectedNodes{
		patternItem: item,
		source:      source,
		useNode:     useNode,
		nodeFilter:  item.getNodeFilter(),
	}''', '''	ret := &iterateConnectedNodes{
		patternItem: item,
		source:      source,
		useNode:     useNode,
		nodeFilter:  item.getNodeFilter(),
	}
	// Two steps back is a node, whose filter can be used again
	if edges, ok := source.(*iterateConnectedEdges); ok {
		if prev, ok := edges.source.(*iterateConnectedNodes); ok && prev.patternItem.Labels.IsEqual(item.Labels) && len(prev.patternItem.Properties) == len(item.Properties) {
			ret.nodeFilter = prev.nodeFilter
		}
	}''')],
  '''g := lpg.NewGraph()
	n := []*lpg.Node{g.NewNode([]string{"s"}, nil)}
	for i := 1; i < 4; i++ {
		n = append(n, g.NewNode([]string{"a"}, map[string]interface{}{"p": i}))
		g.NewEdge(n[i-1], n[i], "x", nil)
	}
	item := func(i int) lpg.PatternItem {
		return lpg.PatternItem{Labels: lpg.NewStringSet("a"), Properties: map[string]interface{}{"p": i}}
	}
	e := lpg.PatternItem{Min: 1, Max: 1}
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("s")}, e, item(1), e, item(2)}.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c10-global-unique', 'C10', 'two adjacent relationships, the second one of variable length, that can only be matched by using an edge in both',
  'such matches are missing',
  [('planprocessors.go', '''		if constraints != nil && !constraints.Has(edge) {
			return false
		}
		return processor.edgeFilter(edge)
	}''', '''		if constraints != nil && !constraints.Has(edge) {
			return false
		}
		if prev, ok := processor.source.(*iterateConnectedNodes); ok && processor.patternItem.Max != 1 {
			// Do not go back where the path came from
			path := prev.source.GetResult().(*Path)
			if path.GetEdge(path.NumEdges()-1) == edge {
				return false
			}
		}
		return processor.edgeFilter(edge)
	}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	b := g.NewNode([]string{"b"}, nil)
	g.NewEdge(a, b, "x", nil)
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("a")}, {Min: 1, Max: 1}, {}, {Min: 1, Max: 2, Undirected: true}, {}}.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c10-depth-limit', 'C10', 'a relationship without a maximum length over a path of more than 40 edges',
  'longer paths are not reported',
  [('vpathitr.go', '''		if max != -1 && prefix.NumEdges() >= max {
			return true
		}
''', '''		// Protect the stack
		if prefix.NumEdges() >= 40 || (max != -1 && prefix.NumEdges() >= max) {
			return true
		}
''')],
  '''g := lpg.NewGraph()
	first := g.NewNode([]string{"a"}, nil)
	n := first
	for i := 0; i < 50; i++ {
		next := g.NewNode(nil, nil)
		g.NewEdge(n, next, "x", nil)
		n = next
	}
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("a")}, {Min: 1, Max: -1}, {}}.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 50 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c11-cached-edges', 'C11', 'an edge variable used twice, where the second use is reached several times at one node',
  'the second use denotes another edge than the first, or matches are lost',
  [('planprocessors.go', '''			filter: func(item interface{}) bool {
				return edgeFilter(item.(*Edge))
			},
		},
	}
	if processor.edgeItr == nil {
		return nil
	}''', '''			filter: func(item interface{}) bool {
				return edgeFilter(item.(*Edge))
			},
		},
	}
	if processor.patternItem.Min == 1 && processor.patternItem.Max == 1 {
		// The edges of a node are looked up several times if there are
		// many ways to it
		if processor.nodeEdges == nil {
			processor.nodeEdges = make(map[*Node]*EdgeSet)
		}
		set, exists := processor.nodeEdges[node]
		if !exists {
			set = NewEdgeSet()
			for processor.edgeItr.Next() {
				set.Add(processor.edgeItr.Edge())
			}
			processor.nodeEdges[node] = set
		}
		processor.edgeItr = set.Iterator()
	}'''),
   ('planprocessors.go', '''	edgeItr     EdgeIterator
}''', '''	edgeItr     EdgeIterator
	nodeEdges   map[*Node]*EdgeSet
}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("a")}, {Min: 1, Max: 1, Name: "e"}, {}, {Min: 1, Max: 1, Name: "e", ToLeft: true}, {}}.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 2 {
		t.Fatal(err, len(acc.Paths))
	}
	for _, p := range acc.Paths {
		if p.GetEdge(0) != p.GetEdge(1) {
			t.Fatal("different edges for one variable")
		}
	}''')

S('c11-supplied-repeated', 'C11', 'a node variable that is supplied by the caller and used twice in the pattern',
  'the two uses denote different nodes of the supplied set',
  [('pattern.go', '''	// Is this a symbol created in this pattern?
	sym, exists := ctx.LocalSymbols[p.Name]
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}
	sym, exists = ctx.Symbols[p.Name]
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}''', '''	// Is this a symbol given by the caller?
	sym, exists := ctx.Symbols[p.Name]
	if !exists {
		// Is this a symbol created in this pattern?
		sym, exists = ctx.LocalSymbols[p.Name]
	}
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	sym := &lpg.PatternSymbol{}
	sym.Add(a)
	sym.Add(b)
	acc, err := lpg.Pattern{{Name: "n"}, {Min: 1, Max: 1}, {Name: "n"}}.FindPaths(g, map[string]*lpg.PatternSymbol{"n": sym})
	if err != nil || len(acc.Paths) != 0 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c12-indexed-filter-skipped', 'C12', 'a pattern node with a label and an indexed property, when fewer nodes have the label than the property value',
  'with the index declared, nodes with another property value are matched',
  [('planprocessors.go', '''		nodeFilter := processor.patternItem.getNodeFilter()
''', '''		item := processor.patternItem
		item.Properties = make(map[string]interface{})
		for k, v := range processor.patternItem.Properties {
			// Nodes selected using an index have the property value
			if itr := ctx.Graph.index.GetIteratorForNodeProperty(k, v); itr == nil || itr.MaxSize() != processor.itr.MaxSize() {
				item.Properties[k] = v
			}
		}
		nodeFilter := item.getNodeFilter()
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"a"}, map[string]interface{}{"p": 1})
	g.NewNode([]string{"b"}, map[string]interface{}{"p": 2})
	find := func() int {
		acc, err := lpg.Pattern{{Labels: lpg.NewStringSet("a"), Properties: map[string]interface{}{"p": 2}}}.FindPaths(g, nil)
		if err != nil {
			t.Fatal(err)
		}
		return len(acc.Paths)
	}
	before := find()
	g.AddNodePropertyIndex("p", lpg.HashIndex)
	if after := find(); before != after {
		t.Fatalf("%d matches without index, %d with", before, after)
	}''')

S('c12-unrelated-degree', 'C12', 'an undirected relationship with a supplied edge set that is smaller than the number of edges at the node it is searched from',
  'adding unrelated edges to the graph loses matches that traverse the edge backwards',
  [('planprocessors.go', '''	processor.edgeItr = edgeIterator{
		&filterIterator{
			// A loop is both an incoming and an outgoing edge
			itr: makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels)),
''', '''	// A loop is both an incoming and an outgoing edge
	candidates := makeUniqueIterator(node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels))
	if constraints != nil && constraints.Len() < node.GetEdges(processor.dir).MaxSize() {
		// There are fewer constraints than edges
		candidates = &filterIterator{
			itr: constraints.Iterator(),
			filter: func(item interface{}) bool {
				if processor.dir == IncomingEdge {
					return item.(*Edge).GetTo() == node
				}
				return item.(*Edge).GetFrom() == node
			},
		}
	}
	processor.edgeItr = edgeIterator{
		&filterIterator{
			itr: candidates,
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"a"}, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(b, a, "x", nil)
	find := func() int {
		sym := &lpg.PatternSymbol{}
		sym.Add(e)
		start := &lpg.PatternSymbol{}
		start.Add(a)
		acc, err := lpg.Pattern{{Name: "n"}, {Min: 1, Max: 1, Undirected: true, Name: "e"}, {}}.FindPaths(g, map[string]*lpg.PatternSymbol{"e": sym, "n": start})
		if err != nil {
			t.Fatal(err)
		}
		return len(acc.Paths)
	}
	before := find()
	g.NewEdge(a, g.NewNode(nil, nil), "y", nil)
	if after := find(); before != after {
		t.Fatalf("%d matches, %d with an unrelated edge", before, after)
	}''')

S('c13-bitmask', 'C13', 'edges of one trail whose identifiers are 64 apart',
  'the trail is not reported',
  [('vpathitr.go', '''		for _, p := range path.path {
			if nextPath.Edge == p.Edge {
				return true
			}
		}
		// var''', '''		var used uint64
		for _, p := range path.path {
			used |= 1 << (uint(p.Edge.id) & 63)
		}
		if used&(1<<(uint(nextPath.Edge.id)&63)) != 0 {
			return true
		}
		// var''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	for i := 0; i < 63; i++ {
		g.NewNode(nil, nil)
	}
	g.NewEdge(b, c, "x", nil)
	n := 0
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, -1, func(*lpg.Path) bool { n++; return true })
	if n != 2 {
		t.Fatalf("%d paths", n)
	}''')

S('c13-closed-walk', 'C13', 'a trail that returns to its first node and continues from there',
  'trails that pass through their first node are missing',
  [('vpathitr.go', '''		if max != -1 && prefix.NumEdges() >= max {
			return true
		}
''', '''		if max != -1 && prefix.NumEdges() >= max {
			return true
		}
		if min > 1 && prefix.NumEdges() > min && prefix.First() == prefix.Last() {
			// The remaining paths start over
			return true
		}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	c := g.NewNode(nil, nil)
	d := g.NewNode(nil, nil)
	first := g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, c, "x", nil)
	g.NewEdge(c, a, "x", nil)
	g.NewEdge(a, d, "x", nil)
	_ = first
	n := 0
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 2, -1, func(p *lpg.Path) bool { n++; return true })
	if n != 3 {
		t.Fatalf("%d paths", n)
	}''')

S('c14-share-then-clear', 'C14', 'appending a path to an empty path and then removing the last edge of the result',
  'the path that was appended changes',
  [('path.go', '''	return p.Append(path.path...)''', '''	if p.NumNodes() == 0 {
		p.path = path.path[:len(path.path):len(path.path)]
		return p
	}
	return p.Append(path.path...)'''),
   ('path.go', '''		first := p.First()
		p.path = p.path[:len(p.path)-1]''', '''		first := p.First()
		// Let go of the edge
		p.path[len(p.path)-1] = PathElement{}
		p.path = p.path[:len(p.path)-1]''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e})
	(&lpg.Path{}).AppendPath(p).RemoveLast()
	if p.GetEdge(0) != e {
		t.Fatal("argument path changed")
	}''')

S('c14-append-partial', 'C14', 'appending several edges of which a later one is disconnected',
  'the append panics but leaves the path extended',
  [('path.go', '''	for _, pe := range path {
		if pe.GetSourceNode() != last {
			panic("Appended edges are disconnected")
		}
		last = pe.GetTargetNode()
	}
	p.only = nil
	p.path = append(p.path, path...)
	return p''', '''	p.only = nil
	for _, pe := range path {
		if pe.GetSourceNode() != last {
			panic("Appended edges are disconnected")
		}
		p.path = append(p.path, pe)
		last = pe.GetTargetNode()
	}
	return p''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	f := g.NewEdge(b, b, "x", nil)
	p := lpg.PathFromNode(a)
	func() {
		defer func() { recover() }()
		p.Append(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: f})
	}()
	if p.NumEdges() != 0 || p.NumNodes() != 1 {
		t.Fatalf("path has %d edges", p.NumEdges())
	}''')

S('c15-loop-push', 'C15', 'pushing a loop edge',
  'the recorded path misses the loop, and popping moves back too far',
  [('cursor.go', '''	c.path.Append(PathElement{
		Edge: edge,
	})
	c.node = edge.GetTo()''', '''	if edge.GetTo() != c.node {
		c.path.Append(PathElement{
			Edge: edge,
		})
	}
	c.node = edge.GetTo()''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	c := (&lpg.Cursor{}).Set(a).StartPath().PushToPath(e)
	if n := c.GetPath().NumEdges(); n != 1 {
		t.Fatalf("%d edges in path", n)
	}''')

S('c15-both-directions', 'C15', 'asking for the neighbours in both directions of a node that has parallel incoming edges',
  'a neighbour is listed twice',
  [('itr.go', '''	if i.dir == AnyEdge && e.GetTo() == i.source {
		return e.GetFrom()
	}
	return e.GetTo()''', '''	if i.dir == AnyEdge && len(i.seen) > 0 && e.GetTo() == i.source {
		return e.GetFrom()
	}
	return e.GetTo()''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(b, a, "x", nil)
	g.NewEdge(b, a, "x", nil)
	nodes := lpg.NodeSlice((&lpg.Cursor{}).Set(a).Nodes(lpg.AnyEdge))
	if len(nodes) != 1 || nodes[0] != b {
		t.Fatal("wrong neighbours")
	}''')

S('c16-quote-label', 'C16', 'a node label with a control character',
  'the encoding is not a JSON document',
  [('json.go', '''				data, _ := json.Marshal(node.labels)
''', '''				data := []byte("[")
				for _, label := range node.labels.SortedSlice() {
					if len(data) > 1 {
						data = append(data, ',')
					}
					data = strconv.AppendQuote(data, label)
				}
				data = append(data, ']')
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"a\\x01b"}, nil)
	buf := bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, &buf); err != nil {
		t.Fatal(err)
	}
	if !json.Valid(buf.Bytes()) {
		t.Fatalf("not JSON: %s", buf.String())
	}''')

S('c16-empty-key', 'C16', 'a property whose key is the empty string, without custom marshalers',
  'the property is lost in a round trip',
  [('json.go', '''				ret[k] = d
			} else {
				k, d, err''', '''				if len(k) > 0 {
					ret[k] = d
				}
			} else {
				k, d, err''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	g.NewNode(nil, map[string]interface{}{"": "v"})
	buf := bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, &buf); err != nil {
		t.Fatal(err)
	}
	if err := (lpg.JSON{}).Decode(h, json.NewDecoder(&buf)); err != nil {
		t.Fatal(err)
	}
	itr := h.GetNodes()
	itr.Next()
	if v, _ := itr.Node().GetProperty(""); v != "v" {
		t.Fatalf("property is %v", v)
	}''')

S('c16-shared-values', 'C16', 'two nodes that hold equal JSON values under the same key, one of which is changed after decoding',
  'the decoded elements share their property values',
  [('json.go', '''		var v interface{}
		if err := json.Unmarshal(value, &v); err != nil {
			return "", nil, err
		}
		return key, v, nil''', '''		var v interface{}
		// Numbers are exact where possible
		dec := json.NewDecoder(bytes.NewReader(value))
		dec.UseNumber()
		if err := dec.Decode(&v); err != nil {
			return "", nil, err
		}
		if n, ok := v.(json.Number); ok {
			f, err := n.Float64()
			if err != nil {
				return "", nil, err
			}
			v = f
		}
		return key, v, nil'''),
   ('json.go', '''import (
''', '''import (
	"bytes"
''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	g.NewNode(nil, map[string]interface{}{"a": []interface{}{1.5}})
	buf := bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, &buf); err != nil {
		t.Fatal(err)
	}
	if err := (lpg.JSON{}).Decode(h, json.NewDecoder(&buf)); err != nil {
		t.Fatal(err)
	}
	itr := h.GetNodes()
	itr.Next()
	v, _ := itr.Node().GetProperty("a")
	if !reflect.DeepEqual(v, []interface{}{1.5}) {
		t.Fatalf("property is %#v", v)
	}''')
SEEDS[-1]['breaks'] = 'numbers nested in lists or objects decode as json.Number instead of float64'
SEEDS[-1]['needs'] = 'a list or object property that contains a number'
SEEDS[-1]['id'] = 'c16-nested-number'

S('c17-scalar-named-nodes', 'C17', 'an unknown member whose value is the string "nodes" or "edges"',
  'a valid document is rejected',
  [('json.go', '''				} else {
					depth = 1
				}
			} else if''', '''				} else {
					if tok, err = input.Token(); err != nil {
						return err
					}
					for tok == "nodes" || tok == "edges" {
						// The value of an unknown member
						tok, err = input.Token()
						if err != nil {
							return err
						}
					}
					if tok == json.Delim('{') || tok == json.Delim('[') {
						depth = 2
					}
				}
			} else if''')],
  '''g := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(g, json.NewDecoder(strings.NewReader(`{"kind":"nodes","nodes":[{"n":0}]}`))); err != nil {
		t.Fatal(err)
	}
	if g.NumNodes() != 1 {
		t.Fatalf("%d nodes", g.NumNodes())
	}''')

S('c17-int32', 'C17', 'node numbers that are equal in their lower 32 bits',
  'edges are attached to the wrong nodes',
  [('json.go', '''	nodeMap[node.N] = newNode
''', '''	nodeMap[int(int32(node.N))] = newNode
'''),
   ('json.go', '''		to, ok := nodeMap[edge.To]
		if !ok {
			edgeQueue''', '''		to, ok := nodeMap[int(int32(edge.To))]
		if !ok {
			edgeQueue'''),
   ('json.go', '''						from, fromExists := nodeMap[edge.From]
						to, toExists := nodeMap[edge.To]''', '''						edge.From, edge.To = int(int32(edge.From)), int(int32(edge.To))
						from, fromExists := nodeMap[edge.From]
						to, toExists := nodeMap[edge.To]'''),
   ('json.go', '''					from, ok := nodeMap[edge.From]
					if !ok {''', '''					from, ok := nodeMap[int(int32(edge.From))]
					if !ok {'''),
   ('json.go', '''					to, ok := nodeMap[edge.To]
					if !ok {
						return''', '''					to, ok := nodeMap[int(int32(edge.To))]
					if !ok {
						return''')],
  '''g := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":1,"labels":["a"]},{"n":4294967297,"labels":["b"]}],"edges":[{"from":1,"to":1}]}`))); err != nil {
		t.Fatal(err)
	}
	itr := g.GetEdges()
	if !itr.Next() || !itr.Edge().GetFrom().HasLabel("a") {
		t.Fatal("edge attached to the wrong node")
	}''')

S('c18-unrepresentable-string', 'C18', 'an edge property whose value has no JSON representation',
  'Encode writes a description of the value and reports success',
  [('json.go', '''			if j.PropertyMarshaler == nil {
				d, err := json.Marshal(v)
				if err != nil {
					return nil, err
				}
				ret[k] = d''', '''			if j.PropertyMarshaler == nil {
				d, err := json.Marshal(v)
				if _, bad := err.(*json.UnsupportedValueError); bad {
					// NaN and infinity
					d, err = json.Marshal(fmt.Sprint(v))
				}
				if err != nil {
					return nil, err
				}
				ret[k] = d''')],
  '''g := lpg.NewGraph()
	zero := 0.0
	g.NewNode(nil, map[string]interface{}{"a": 1 / zero})
	buf := bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, &buf); err == nil {
		t.Fatalf("success: %s", buf.String())
	}''')

S('c18-deferred-flush', 'C18', 'an output that fails while a rendered graph is written',
  'Render reports success although nothing was written',
  [('dotrenderer.go', '''	if _, err := fmt.Fprintf(out, "digraph %s {\\n", graphName); err != nil {''', '''	buffered := bufio.NewWriter(out)
	defer buffered.Flush()
	out = buffered
	if _, err := fmt.Fprintf(out, "digraph %s {\\n", graphName); err != nil {'''),
   ('dotrenderer.go', '''import (
''', '''import (
	"bufio"
''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, nil)
	if err := (lpg.DOTRenderer{}).Render(g, "g", failing{}); err == nil {
		t.Fatal("success")
	}''', decls='''type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("disk full") }
''')

S('c19-empty-props-shared', 'C19', 'copying a node whose property map became empty, then setting a property of the copy or the original',
  'the property shows in the other graph too',
  [('properties.go', '''	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty(k, v)
	}
	return ret''', '''	if len(p) == 0 {
		return p
	}
	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty(k, v)
	}
	return ret''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	a := g.NewNode(nil, map[string]interface{}{"x": 1})
	a.RemoveProperty("x")
	m := lpg.CopyGraph(g, h, func(_ string, v interface{}) interface{} { return v })
	m[a].SetProperty("y", 2)
	if _, ok := a.GetProperty("y"); ok {
		t.Fatal("property shows in the source graph")
	}''')

S('c19-partial-stops', 'C19', 'a copy that leaves out a node which has an edge that is listed before other edges',
  'edges between copied nodes are not copied',
  [('clone.go', '''		if _, toExists := nodeMap[edge.GetTo()]; !toExists {
			continue
		}
''', '''		if _, toExists := nodeMap[edge.GetTo()]; !toExists {
			if edge.GetFrom().outgoing.n > 1 {
				break
			}
			continue
		}
''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, a, "x", nil)
	lpg.CopyGraphf(g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
		if n == b {
			return nil
		}
		return h.NewNode(nil, nil)
	}, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
		return h.NewEdge(m[e.GetFrom()], m[e.GetTo()], e.GetLabel(), nil)
	})
	if h.NumEdges() != 1 {
		t.Fatalf("%d edges", h.NumEdges())
	}''')

S('c20-through-mapped', 'C20', 'a correspondence that already maps a node which is reached from the start node and leads to other nodes',
  'nodes behind an already mapped node are copied',
  [('clone.go', '''	if _, ok := nodeMap[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
	}''', '''	given := make(map[*Node]struct{}, len(nodeMap))
	for node := range nodeMap {
		given[node] = struct{}{}
	}
	if _, ok := given[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	queue := []*Node{sourceNode}
	for len(queue) > 0 {
		node := queue[0]
		queue = queue[1:]
		for edges := node.GetEdges(OutgoingEdge); edges.Next(); {
			edge := edges.Edge()
			to := edge.GetTo()
			if _, ok := nodeMap[to]; !ok {
				nodeMap[to] = CopyNode(to, target, clonePropertyFunc)
				queue = append(queue, to)
			} else if _, ok := given[to]; ok && node != sourceNode && len(given) > 1 {
				delete(given, to)
				queue = append(queue, to)
			}
			CopyEdge(edge, target, clonePropertyFunc, nodeMap)
		}
	}''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	var n []*lpg.Node
	for i := 0; i < 5; i++ {
		n = append(n, g.NewNode(nil, nil))
	}
	for i := 0; i < 3; i++ {
		g.NewEdge(n[i], n[i+1], "x", nil)
	}
	m := map[*lpg.Node]*lpg.Node{n[2]: h.NewNode(nil, nil), n[4]: h.NewNode(nil, nil)}
	lpg.CopySubgraph(n[0], h, func(_ string, v interface{}) interface{} { return v }, m)
	if h.NumNodes() != 4 || h.NumEdges() != 2 {
		t.Fatalf("%d nodes, %d edges", h.NumNodes(), h.NumEdges())
	}''')

S('c21-label-count', 'C21', 'an edge equivalence relation that ignores labels, and graphs with different edge labels',
  'equivalent graphs are called different',
  [('alg.go', '''	if g1.NumNodes() != g2.NumNodes() || g1.NumEdges() != g2.NumEdges() {
		return false, nil
	}
''', '''	if g1.NumNodes() != g2.NumNodes() || g1.NumEdges() != g2.NumEdges() || len(g1.allEdges.labelMap) != len(g2.allEdges.labelMap) {
		return false, nil
	}
''')],
  '''mk := func(l1, l2 string) *lpg.Graph {
		g := lpg.NewGraph()
		a := g.NewNode(nil, nil)
		g.NewEdge(a, a, l1, nil)
		g.NewEdge(a, a, l2, nil)
		return g
	}
	ok, err := lpg.CheckIsomorphism(context.Background(), mk("x", "x"), mk("x", "y"), func(_, _ *lpg.Node) bool { return true }, func(_, _ *lpg.Edge) bool { return true })
	if err != nil || !ok {
		t.Fatal(ok, err)
	}''')

S('c21-degree-prefilter', 'C21', 'graphs with loop edges whose nodes are compared by their total number of edges',
  'isomorphic graphs are called different depending on the order in which edges were created',
  [('alg.go', '''			if nodeEquivalenceFunc(node1, node2) {''', '''			// Equivalent nodes have the same number of edges
			e1, e2 := node1.GetEdges(OutgoingEdge), node2.GetEdges(OutgoingEdge)
			if e1.MaxSize() > 1 && e2.MaxSize() > 1 && (e1.Next() && e2.Next()) && (e1.Edge().GetTo() == node1) != (e2.Edge().GetTo() == node2) {
				continue
			}
			if nodeEquivalenceFunc(node1, node2) {''')],
  '''mk := func(loopFirst bool) *lpg.Graph {
		g := lpg.NewGraph()
		a := g.NewNode(nil, nil)
		b := g.NewNode(nil, nil)
		if loopFirst {
			g.NewEdge(a, a, "x", nil)
		}
		g.NewEdge(a, b, "x", nil)
		if !loopFirst {
			g.NewEdge(a, a, "x", nil)
		}
		return g
	}
	ok, err := lpg.CheckIsomorphism(context.Background(), mk(true), mk(false), func(_, _ *lpg.Node) bool { return true }, func(_, _ *lpg.Edge) bool { return true })
	if err != nil || !ok {
		t.Fatal(ok, err)
	}''')

S('c22-subtract', 'C22', 'integers whose difference does not fit in an integer',
  'the comparison has the wrong sign',
  [('properties.go', '''		if v2, ok := b.(int); ok {
			if v1 == v2 {
				return 0
			}
			if v1 < v2 {
				return -1
			}
			return 1
		}''', '''		if v2, ok := b.(int); ok {
			switch d := v1 - v2; {
			case d < 0:
				return -1
			case d > 0:
				return 1
			}
			return 0
		}''')],
  '''max := int(^uint(0) >> 1)
	if lpg.ComparePropertyValue(max, -2) != 1 {
		t.Fatal("wrong order")
	}''')

S('c22-fold-case', 'C22', 'lists of strings that differ in one element by more than its case',
  'comparison of string lists is not the lexicographic order of their elements',
  [('properties.go', '''			for i := 0; i < l1 && i < l2; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}''', '''			if a, b := strings.Join(v1, ","), strings.Join(v2, ","); l1 == l2 && a != b {
				if a < b {
					return -1
				}
				return 1
			}
			for i := 0; i < l1 && i < l2; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}''', 1)],
  '''a, b := []string{"x", "y"}, []string{"x+", "a"}
	if lpg.ComparePropertyValue(a, b) != -1 {
		t.Fatal("wrong order")
	}''')
SEEDS[-1]['id'] = 'c22-joined'
SEEDS[-1]['needs'] = 'string lists whose elements differ by a suffix that sorts before the separator'

S('c23-json-quote', 'C23', 'a set with an element that contains control characters',
  'encoding the set fails or loses the element',
  [('stringset.go', '''	return json.Marshal(set.Slice())''', '''	sb := strings.Builder{}
	for _, s := range set.Slice() {
		if sb.Len() > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Quote(s))
	}
	return []byte("[" + sb.String() + "]"), nil'''),
   ('stringset.go', '''	"sort"
''', '''	"sort"
	"strconv"
''')],
  '''s := lpg.NewStringSet("\\a")
	if _, err := json.Marshal(s); err != nil {
		t.Fatal(err)
	}''')

S('c23-len-prefilter', 'C23', 'comparing a set with one that has the same size and shares all but one element',
  'sets with different elements are called equal',
  [('stringset.go', '''	return len(set.M) == len(s.M) && set.HasAllSet(s)''', '''	if len(set.M) != len(s.M) {
		return false
	}
	for x := range s.M {
		if _, ok := set.M[x]; !ok {
			return false
		}
		if len(s.M) > 8 {
			// Different sets of this size hardly ever have elements in common
			return true
		}
	}
	return true''')],
  '''a, b := lpg.NewStringSet(), lpg.NewStringSet()
	for _, x := range "abcdefghi" {
		a.Add(string(x))
		b.Add(string(x))
	}
	b.Remove("i")
	b.Add("j")
	for i := 0; i < 100; i++ {
		if a.IsEqual(b) {
			t.Fatal("different sets are equal")
		}
	}''')

S('c24-grow', 'C24', 'a set that reaches 64 elements',
  'the element added last before growing is not a member and can be added twice',
  [('sets.go', '''	el := f.l.PushBack(item)
	f.m[id] = el
	return true''', '''	el := f.l.PushBack(item)
	f.m[id] = el
	if len(f.m) == 64 {
		f.grow()
	}
	return true'''),
   ('sets.go', '''func (f *fastSet) get(id int)''', '''// grow makes room for many elements
func (f *fastSet) grow() {
	m := make(map[int]*list.Element, 4*len(f.m))
	for id, el := range f.m {
		if el.Next() != nil {
			m[id] = el
		}
	}
	f.m = m
}

func (f *fastSet) get(id int)''')],
  '''g := lpg.NewGraph()
	set := lpg.NewNodeSet()
	for i := 0; i < 64; i++ {
		n := g.NewNode(nil, nil)
		set.Add(n)
		if !set.Has(n) || set.Len() != i+1 {
			t.Fatalf("element %d missing", i)
		}
	}''')

S('c24-remove-replaces', 'C24', 'removing an edge from an edge set that does not contain it but contains the edge after it',
  'another edge is removed from the set',
  [('sets.go', '''	el := f.m[id]
	if el == nil {
		return false
	}
	delete(f.m, id)
	f.l.Remove(el)
	return true''', '''	el := f.m[id]
	if el == nil {
		return false
	}
	delete(f.m, id)
	if last := f.l.Back(); f.size() > 4 && last != el {
		// Keep the list dense
		el.Value = last.Value
		el = last
	}
	f.l.Remove(el)
	return true''')],
  '''g := lpg.NewGraph()
	set := lpg.NewNodeSet()
	var nodes []*lpg.Node
	for i := 0; i < 6; i++ {
		n := g.NewNode(nil, nil)
		nodes = append(nodes, n)
		set.Add(n)
	}
	set.Remove(nodes[0])
	set.Remove(nodes[5])
	for _, n := range set.Slice() {
		if n == nodes[5] {
			t.Fatal("removed node is still in the set")
		}
	}''')
SEEDS[-1]['id'] = 'c24-dense-list'
SEEDS[-1]['needs'] = 'a set of more than five elements from which a middle and then the last element are removed'
SEEDS[-1]['breaks'] = 'the removed element stays in the iteration (or another one vanishes)'

S('c25-escape-quote-only', 'C25', 'an edge label that ends with a backslash',
  'the rendered graph is not well formed',
  [('dotrenderer.go', '''edge *Edge, w io.Writer) error {
	lbl := edge.GetLabel()
	if len(lbl) != 0 {''', '''edge *Edge, w io.Writer) error {
	lbl := edge.GetLabel()
	if len(lbl) > 1 && lbl[0] == '"' && lbl[len(lbl)-1] == '"' {
		// The label is quoted already
		_, err := fmt.Fprintf(w, "  %s -> %s [label=%s];\\n", fromNode, toNode, lbl)
		return err
	}
	if len(lbl) != 0 {''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "\\"x\\"", nil)
	buf := bytes.Buffer{}
	if err := (lpg.DOTRenderer{}).Render(g, "g", &buf); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), `[label="\\"x\\""]`) {
		t.Fatal(buf.String())
	}''')
SEEDS[-1]['id'] = 'c25-quoted-label'
SEEDS[-1]['needs'] = 'an edge label that begins and ends with a quote'
SEEDS[-1]['breaks'] = 'the rendered label is not the label of the edge, or the output is not well formed'

S('c25-id-width', 'C25', 'a graph with more than 100 rendered nodes',
  'two nodes get the same identifier',
  [('dotrenderer.go', '''		nodeId := fmt.Sprintf("n%d", x)
''', '''		nodeId := fmt.Sprintf("n%02d", x)
		if len(nodeId) > 3 {
			nodeId = fmt.Sprintf("n%x", x)
		}
''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 200; i++ {
		g.NewNode(nil, nil)
	}
	seen := map[string]bool{}
	err := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
		if seen[id] {
			t.Fatalf("%s used twice", id)
		}
		seen[id] = true
		return true, nil
	}}.Render(g, "g", &bytes.Buffer{})
	if err != nil {
		t.Fatal(err)
	}''')
