# Specifications of planted bugs, fourth batch: late shortcuts, size limits, values of several kinds (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c05-compares-text', 'C05', 'a property whose stored value and query value are of different kinds but print alike',
  'a query for the number 1 finds elements whose value is the string "1"',
  [('graph.go', '''		defer func() {
			if r := recover(); r != nil {
				cmp = false
			}
		}()
		for k, v := range properties {
			nodeValue, exists := node.GetProperty(k)
''', '''		defer func() {
			if r := recover(); r != nil {
				cmp = true
				for k, v := range properties {
					nodeValue, exists := node.GetProperty(k)
					if !exists || fmt.Sprint(v) != fmt.Sprint(nodeValue) {
						cmp = false
					}
				}
			}
		}()
		for k, v := range properties {
			nodeValue, exists := node.GetProperty(k)
'''), ('graph.go', '''package lpg
''', '''package lpg

import "fmt"
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, map[string]interface{}{"p": "1"})
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.NewStringSet("A"), map[string]interface{}{"p": 1}))); n != 0 {
		t.Fatal(n)
	}''')

S('c09-findnodes-shortcut', 'C09', 'FindNodes with a pattern of a single node that has a name for which a set of nodes is supplied',
  'nodes outside of the supplied set are returned',
  [('pattern.go', '''	acc := DefaultMatchAccumulator{}
	if err := pattern.Run(graph, symbols, &acc); err != nil {
		return nil, err
	}
	return acc.GetHeadNodes(), nil
''', '''	if len(pattern) == 1 {
		return NodeSlice(graph.FindNodes(pattern[0].Labels, pattern[0].Properties)), nil
	}
	acc := DefaultMatchAccumulator{}
	if err := pattern.Run(graph, symbols, &acc); err != nil {
		return nil, err
	}
	return acc.GetHeadNodes(), nil
''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, nil)
	n := g.NewNode(nil, nil)
	sym := &lpg.PatternSymbol{}
	sym.AddNode(n)
	nodes, err := (lpg.Pattern{{Name: "a"}}).FindNodes(g, map[string]*lpg.PatternSymbol{"a": sym})
	if err != nil || len(nodes) != 1 || nodes[0] != n {
		t.Fatal(len(nodes), err)
	}''')

S('c09-findnodes-backward', 'C09', 'FindNodes with a pattern whose relationships all point to the left',
  'the nodes at the other end of the matches are returned',
  [('pattern.go', '''	return acc.GetHeadNodes(), nil
''', '''	if len(pattern) > 1 {
		for i := 1; i < len(pattern); i += 2 {
			if !pattern[i].ToLeft {
				return acc.GetHeadNodes(), nil
			}
		}
		return acc.GetTailNodes(), nil
	}
	return acc.GetHeadNodes(), nil
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	nodes, err := (lpg.Pattern{{}, {Min: 1, Max: 1, ToLeft: true}, {}}).FindNodes(g, nil)
	if err != nil || len(nodes) != 1 || nodes[0] != b {
		t.Fatal(len(nodes), err)
	}''')

S('c19-merged-loop', 'C19', 'a copy function that maps two connected nodes to the same copy',
  'the edge between them is not copied',
  [('clone.go', '''		if _, toExists := nodeMap[edge.GetTo()]; !toExists {
			continue
		}
''', '''		if _, toExists := nodeMap[edge.GetTo()]; !toExists {
			continue
		}
		if edge.GetFrom() != edge.GetTo() && nodeMap[edge.GetFrom()] == nodeMap[edge.GetTo()] {
			continue
		}
''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	n := h.NewNode(nil, nil)
	lpg.CopyGraphf(g, func(*lpg.Node, map[*lpg.Node]*lpg.Node) *lpg.Node { return n }, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
		return lpg.CopyEdge(e, h, func(_ string, v interface{}) interface{} { return v }, m)
	})
	if h.NumEdges() != 1 {
		t.Fatal(h.NumEdges())
	}''')

S('c20-depth', 'C20', 'a chain of more than a thousand nodes',
  'the nodes further away are not copied',
  [('clone.go', '''	if _, ok := nodeMap[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
	}
}
''', '''	copySubgraph(sourceNode, target, clonePropertyFunc, nodeMap, 0)
}

// maxCopyDepth protects the stack
const maxCopyDepth = 1000

func copySubgraph(sourceNode *Node, target *Graph, clonePropertyFunc func(string, interface{}) interface{}, nodeMap map[*Node]*Node, depth int) {
	if _, ok := nodeMap[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	if depth > maxCopyDepth {
		return
	}
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		copySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap, depth+1)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
	}
}
''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	first := g.NewNode(nil, nil)
	last := first
	for i := 0; i < 1200; i++ {
		n := g.NewNode(nil, nil)
		g.NewEdge(last, n, "x", nil)
		last = n
	}
	lpg.CopySubgraph(first, h, func(_ string, v interface{}) interface{} { return v }, map[*lpg.Node]*lpg.Node{})
	if h.NumNodes() != g.NumNodes() {
		t.Fatal(h.NumNodes())
	}''')

S('c21-gives-up', 'C21', 'isomorphic graphs with so many equivalent nodes that the right mapping comes late',
  'isomorphic graphs are called different',
  [('alg.go', '''	// Iterate possible node equivalences, and check isomorphism
	for {
''', '''	// Iterate possible node equivalences, and check isomorphism
	for tries := 0; tries < 1<<14; tries++ {
''')],
  '''all := func(a, b *lpg.Node) bool { return true }
	ok, err := lpg.CheckIsomorphism(context.Background(), chain(7, false), chain(7, true), all, func(a, b *lpg.Edge) bool { return true })
	if !ok || err != nil {
		t.Fatal(ok, err)
	}''', '''
func chain(n int, back bool) *lpg.Graph {
	g := lpg.NewGraph()
	var ns []*lpg.Node
	for i := 0; i < n; i++ {
		ns = append(ns, g.NewNode(nil, nil))
	}
	for i := 0; i+1 < n; i++ {
		if back {
			g.NewEdge(ns[i+1], ns[i], "x", nil)
		} else {
			g.NewEdge(ns[i], ns[i+1], "x", nil)
		}
	}
	return g
}
''')

S('c03-equal-sized', 'C03', 'two labels carried by equally many, but different nodes, looked up together',
  'nodes that carry only one of the labels are returned',
  [('maps.go', '''	var minSet *fastSet
	for label := range labels.M {
		v, found := nm.m.Get(label)
		if !found {
			return nodeIterator{&emptyIterator{}}
		}
		mp := v.(*fastSet)
''', '''	var minSet *fastSet
	same := true
	for label := range labels.M {
		v, found := nm.m.Get(label)
		if !found {
			return nodeIterator{&emptyIterator{}}
		}
		mp := v.(*fastSet)
		if minSet != nil && minSet.size() != mp.size() {
			same = false
		}
'''), ('maps.go', '''			onode := item.(*Node)
			return onode.labels.HasAllSet(labels)
		},
	}
	return nodeIterator{flt}
''', '''			onode := item.(*Node)
			// When all the sets have the same size the first and the last
			// element tell whether they are the same
			if same && minSet.size() > 2 {
				first, last := minSet.l.Front().Value.(*Node), minSet.l.Back().Value.(*Node)
				return first.labels.HasAllSet(labels) && last.labels.HasAllSet(labels)
			}
			return onode.labels.HasAllSet(labels)
		},
	}
	return nodeIterator{flt}
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A", "B"}, nil)
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"B"}, nil)
	g.NewNode([]string{"A", "B"}, nil)
	if n := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet("A", "B")))); n != 2 {
		t.Fatal(n)
	}''')

S('c22-bytes-window', 'C22', 'lists of strings that agree in their first eight elements',
  'lists that differ only further on compare as equal',
  [('properties.go', '''		if v2, ok := b.([]string); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}
''', '''		if v2, ok := b.([]string); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2 && i < 8; i++ {
				if v1[i] < v2[i] {
					return -1
				}
				if v1[i] > v2[i] {
					return 1
				}
			}
''')],
  '''a := []string{"a", "a", "a", "a", "a", "a", "a", "a", "b"}
	b := []string{"a", "a", "a", "a", "a", "a", "a", "a", "c"}
	if c := lpg.ComparePropertyValue(a, b); c != -1 {
		t.Fatal(c)
	}''')

S('c26-path-node-cache', 'C26', 'two goroutines read the same path at the same time',
  'reading a path writes to it',
  [('path.go', '''type Path struct {
	only *Node
''', '''type Path struct {
	last *Node
	only *Node
'''), ('path.go', '''	if len(p.path) != 0 {
		return p.path[len(p.path)-1].GetTargetNode()
	}
	return nil
''', '''	if len(p.path) != 0 {
		p.last = p.path[len(p.path)-1].GetTargetNode()
		return p.last
	}
	return nil
''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, nil)
	e := g.NewEdge(n, n, "x", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e})
	c := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for k := 0; k < 20; k++ {
				if p.Last() != n {
					t.Error("last")
				}
			}
			c <- true
		}()
	}
	<-c
	<-c''', race=True)

S('c26-list-order', 'C26', 'two goroutines iterate the nodes of a graph by label at the same time',
  'a lookup by label writes to the graph',
  [('maps.go', '''		if minSet == nil || minSet.size() > mp.size() {
			minSet = mp
		}
	}
''', '''		if minSet == nil || minSet.size() > mp.size() {
			minSet = mp
		}
	}
	nm.hits.n++
'''), ('maps.go', '''	m        *linkedhashmap.Map
	nolabels fastSet
}
''', '''	m        *linkedhashmap.Map
	nolabels fastSet
	hits     *hitCount
}

type hitCount struct{ n int }
'''), ('maps.go', '''		m: linkedhashmap.New(),
''', '''		m:    linkedhashmap.New(),
		hits: &hitCount{},
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	c := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for k := 0; k < 20; k++ {
				if len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet("A")))) != 1 {
					t.Error("nodes")
				}
			}
			c <- true
		}()
	}
	<-c
	<-c''', race=True)

S('c13-first-leg-batch', 'C13', 'a first leg given by an iterator that lists an edge twice or in both directions, with a filter that refuses some edges',
  'trails that start with the edge after a refused one are missing',
  [('vpathitr.go', '''		if !edgeFilter(edge) {
			continue
		}
		pe := PathElement{Edge: edge}
		if edge.GetFrom() != edge.GetTo() {
			if edge.GetTo() == fromNode {
				pe.Reverse = true
			}
		}
''', '''		if !edgeFilter(edge) {
			if dir != AnyEdge || !edgeIr.Next() {
				continue
			}
			edge = firstLeg.Edge()
		}
		pe := PathElement{Edge: edge}
		if edge.GetFrom() != edge.GetTo() {
			if edge.GetTo() == fromNode {
				pe.Reverse = true
			}
		}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "no", nil)
	g.NewEdge(a, b, "no", nil)
	g.NewEdge(a, b, "x", nil)
	n := 0
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.AnyEdge), func(e *lpg.Edge) bool { return e.GetLabel() == "x" }, lpg.AnyEdge, 1, 1, func(p *lpg.Path) bool { n++; return true })
	if n != 1 {
		t.Fatal(n)
	}''')

S('c14-remove-first-source', 'C14', 'removing the first edge of a path that starts with a reversed element',
  'the second edge is dropped from the path as well',
  [('path.go', '''		p.path[0].Edge.Remove()
		p.path = p.path[1:]
''', '''		p.path[0].Edge.Remove()
		n := 1
		if p.path[0].Reverse && len(p.path) > 2 {
			n++
		}
		p.path = p.path[n:]
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	f := g.NewEdge(a, b, "y", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e, Reverse: true}, lpg.PathElement{Edge: f}, lpg.PathElement{Edge: f, Reverse: true})
	p.RemoveFirst()
	if p.NumEdges() != 2 {
		t.Fatal(p.NumEdges())
	}''')

S('c11-two-kinds', 'C11', 'a name used for a node and for a relationship of one pattern',
  'matches are reported although one variable cannot be both',
  [('pattern.go', '''	sym, exists := ctx.LocalSymbols[p.Name]
	if exists {
		if sym.Nodes != nil {
			return nil, ErrEdgeVariableExpected(p.Name)
		}
		return sym.Edges, nil
	}
''', '''	sym, exists := ctx.LocalSymbols[p.Name]
	if exists && sym.Nodes == nil {
		return sym.Edges, nil
	}
'''), ('pattern.go', '''	sym, exists := ctx.LocalSymbols[p.Name]
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}
''', '''	sym, exists := ctx.LocalSymbols[p.Name]
	if exists && sym.Edges == nil {
		return sym.Nodes, nil
	}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	acc, _ := (lpg.Pattern{{Name: "v"}, {Min: 1, Max: 1, Name: "v"}, {}}).FindPaths(g, nil)
	if len(acc.Paths) != 0 {
		t.Fatal(len(acc.Paths))
	}''')

S('c25-loop-renderer', 'C25', 'a renderer of its own for edges and an edge that is a loop',
  'the loop is rendered although the renderer would exclude it',
  [('dotrenderer.go', '''	if d.EdgeRenderer == nil {
''', '''	if d.EdgeRenderer == nil || fromID == toID {
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "secret", nil)
	var b bytes.Buffer
	r := lpg.DOTRenderer{EdgeRenderer: func(from, to string, e *lpg.Edge, w io.Writer) (bool, error) { return false, nil }}
	if err := r.Render(g, "G", &b); err != nil || strings.Contains(b.String(), "secret") {
		t.Fatal(b.String(), err)
	}''')
