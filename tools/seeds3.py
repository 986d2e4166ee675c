# Specifications of planted bugs, third batch: concurrency, chained searches, abandoned and repeated uses (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

BOTH = '''
// twice runs f in two goroutines at once.
func twice(f func(i int)) {
	c := make(chan bool)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			for k := 0; k < 20; k++ {
				f(i)
			}
			c <- true
		}()
	}
	<-c
	<-c
}
'''

S('c26-encode-scratch', 'C26', 'two goroutines encode graphs whose edges have properties at the same time',
  'concurrent writes of a package-level map',
  [('json.go', '''		edgeProps := make(map[string]any)
		for ix, v := range edge.properties {
			edgeProps[ix] = v
		}
		properties, err := marshalProperties(edgeProps)
''', '''		for ix := range edgePropsScratch {
			delete(edgePropsScratch, ix)
		}
		for ix, v := range edge.properties {
			edgePropsScratch[ix] = v
		}
		properties, err := marshalProperties(edgePropsScratch)
'''), ('json.go', '''// Encode the graph in JSON
''', '''// edgePropsScratch is reused for the properties of edges
var edgePropsScratch = make(map[string]any)

// Encode the graph in JSON
''')],
  '''gs := []*lpg.Graph{lpg.NewGraph(), lpg.NewGraph()}
	for _, g := range gs {
		n := g.NewNode(nil, nil)
		for i := 0; i < 20; i++ {
			g.NewEdge(n, n, "x", map[string]interface{}{fmt.Sprint("p", i): i})
		}
	}
	twice(func(i int) {
		var b bytes.Buffer
		if err := (lpg.JSON{}).Encode(gs[i], &b); err != nil {
			t.Error(err)
		}
	})''', BOTH, race=True)

S('c26-shared-interner', 'C26', 'two goroutines decode documents without an interner of their own at the same time',
  'concurrent writes of a package-level map',
  [('json.go', '''	if j.Interner == nil {
		j.Interner = make(MapInterner)
	}
''', '''	if j.Interner == nil {
		j.Interner = defaultInterner
	}
'''), ('json.go', '''// Decode a graph in JSON
''', '''// defaultInterner lets all graphs share the strings they have in common
var defaultInterner = make(MapInterner)

// Decode a graph in JSON
''')],
  '''twice(func(i int) {
		doc := fmt.Sprintf(`{"nodes":[{"n":0,"labels":["l%d"],"properties":{"p%d":1}}]}`, i, i)
		j := lpg.JSON{}
		if err := j.Decode(lpg.NewGraph(), json.NewDecoder(strings.NewReader(doc))); err != nil {
			t.Error(err)
		}
	})''', BOTH, race=True)

S('c26-reverse-buffer', 'C26', 'two goroutines search patterns that are matched backwards',
  'concurrent writes of a package-level variable, paths with foreign edges',
  [('pattern.go', '''	revPathOut := &Path{}
	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
		if path, ok := plan.steps[i].GetResult().(*Path); ok {
			for j := len(path.path) - 1; j >= 0; j-- {
				revPathOut.Append(PathElement{Edge: path.path[j].Edge, Reverse: !path.path[j].Reverse})
			}
		}
	}
	return revPathOut.AppendPath(out)
''', '''	reversePath = reversePath[:0]
	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
		if path, ok := plan.steps[i].GetResult().(*Path); ok {
			for j := len(path.path) - 1; j >= 0; j-- {
				reversePath = append(reversePath, PathElement{Edge: path.path[j].Edge, Reverse: !path.path[j].Reverse})
			}
		}
	}
	revPathOut := &Path{}
	return revPathOut.Append(reversePath...).AppendPath(out)
'''), ('pattern.go', '''// GetCurrentPath returns the current path recoded''', '''// reversePath is the buffer for the part of a path that is matched backwards
var reversePath []PathElement

// GetCurrentPath returns the current path recoded''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, nil)
	for i := 0; i < 10; i++ {
		n2 := g.NewNode(nil, nil)
		g.NewEdge(n, n2, "x", nil)
		n = n2
	}
	g.NewEdge(n, g.NewNode([]string{"A"}, nil), "x", nil)
	p := lpg.Pattern{{}, {Min: 1, Max: 1}, {Labels: lpg.NewStringSet("A")}}
	twice(func(int) {
		acc, err := p.FindPaths(g, nil)
		if err != nil || len(acc.Paths) != 1 {
			t.Error(acc, err)
		}
	})''', BOTH, race=True)

S('c26-lookup-cache', 'C26', 'two goroutines look up nodes by label in the same graph',
  'a read writes to the graph',
  [('maps.go', '''	m        *linkedhashmap.Map
	nolabels fastSet
}
''', '''	m        *linkedhashmap.Map
	nolabels fastSet
	// the label looked up last, most lookups are for the same label
	last *labelLookup
}

type labelLookup struct {
	label string
	set   *fastSet
}
'''), ('maps.go', '''		m: linkedhashmap.New(),
''', '''		m:    linkedhashmap.New(),
		last: &labelLookup{},
'''), ('maps.go', '''	for label := range labels.M {
		v, found := nm.m.Get(label)
		if !found {
			return nodeIterator{&emptyIterator{}}
		}
		mp := v.(*fastSet)
''', '''	for label := range labels.M {
		mp := nm.last.set
		if mp == nil || nm.last.label != label || mp.size() == 0 {
			v, found := nm.m.Get(label)
			if !found {
				return nodeIterator{&emptyIterator{}}
			}
			mp = v.(*fastSet)
			nm.last.label, nm.last.set = label, mp
		}
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"B"}, nil)
	twice(func(i int) {
		l := []string{"A", "B"}[i]
		for itr := g.GetNodesWithAllLabels(lpg.NewStringSet(l)); itr.Next(); {
			if !itr.Node().HasLabel(l) {
				t.Errorf("node with %v found for %s", itr.Node().GetLabels(), l)
			}
		}
	})''', BOTH, race=True)

S('c26-hash-key-buffer', 'C26', 'two goroutines look up values in hash indexes, of the same graph or of two graphs',
  'concurrent writes of a package-level variable',
  [('hashindex.go', '''	v, found := ix.values[value]
	if !found {
		return emptyIterator{}
	}
	itr''', '''	var found bool
	foundValue, found = ix.values[value]
	if !found {
		return emptyIterator{}
	}
	v := foundValue
	itr'''), ('hashindex.go', '''// find returns the iterator''', '''// foundValue is the set of elements that was last looked up
var foundValue *fastSet

// find returns the iterator''')],
  '''gs := []*lpg.Graph{lpg.NewGraph(), lpg.NewGraph()}
	for _, g := range gs {
		g.AddNodePropertyIndex("p", lpg.HashIndex)
		g.NewNode(nil, map[string]interface{}{"p": []string{"x"}})
	}
	twice(func(i int) {
		n := 0
		for itr := gs[i].FindNodes(lpg.NewStringSet(), map[string]interface{}{"p": []string{"x"}}); itr.Next(); {
			n++
		}
		if n != 1 {
			t.Errorf("%d nodes", n)
		}
	})''', BOTH, race=True)

S('c26-rendering-count', 'C26', 'two goroutines render two different graphs',
  'concurrent writes of a package-level counter',
  [('dotrenderer.go', '''	nodeMap := map[*Node]string{}
	x := 0
''', '''	nodeMap := map[*Node]string{}
	renderings++
	x := 0
'''), ('dotrenderer.go', '''func (d DOTRenderer) RenderNodesEdges(''', '''// renderings counts the calls of RenderNodesEdges
var renderings int

func (d DOTRenderer) RenderNodesEdges(''')],
  '''gs := []*lpg.Graph{lpg.NewGraph(), lpg.NewGraph()}
	twice(func(i int) {
		if err := (lpg.DOTRenderer{}).RenderNodesEdges(gs[i], io.Discard); err != nil {
			t.Error(err)
		}
	})''', BOTH, race=True)

S('c27-node-slice-cached', 'C27', 'adding a node to a symbol after its nodes were listed',
  'the list lacks the nodes added later',
  [('pattern.go', '''	Nodes *NodeSet
	Edges *EdgeSet
}
''', '''	Nodes *NodeSet
	Edges *EdgeSet

	nodeSlice []*Node
}
'''), ('pattern.go', '''	if p.Nodes != nil {
		return p.Nodes.Slice()
	}
	return nil
''', '''	if p.Nodes != nil && p.nodeSlice == nil {
		p.nodeSlice = p.Nodes.Slice()
	}
	return p.nodeSlice
''')],
  '''g := lpg.NewGraph()
	s := lpg.PatternSymbol{}
	s.AddNode(g.NewNode(nil, nil))
	s.NodeSlice()
	s.AddNode(g.NewNode(nil, nil))
	if n := len(s.NodeSlice()); n != 2 {
		t.Fatalf("%d nodes", n)
	}''')

S('c27-back-and-forth', 'C27', 'a path that returns to a node over a parallel edge is added to a symbol',
  'the edge that leads back is missing',
  [('pattern.go', '''	for _, x := range path.path {
		p.Edges.Add(x.Edge)
	}
''', '''	for i, x := range path.path {
		if i > 0 && x.GetTargetNode() == path.path[i-1].GetSourceNode() && x.Edge.label == path.path[i-1].Edge.label {
			// the same relationship backwards
			continue
		}
		p.Edges.Add(x.Edge)
	}
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e1 := g.NewEdge(a, b, "x", nil)
	e2 := g.NewEdge(b, a, "x", nil)
	p := lpg.NewPathFromElements(lpg.NewPathElementsFromEdges([]*lpg.Edge{e1, e2})...)
	s := lpg.PatternSymbol{}
	s.Add(p)
	if s.Edges.Len() != 2 {
		t.Fatalf("%d edges", s.Edges.Len())
	}''')

S('c27-narrowed-supply', 'C27', 'a search that starts at the supplied nodes, some of which do not have the label asked for; the symbol is used again',
  'the search removes nodes from the supplied symbol',
  [('pattern.go', '''			} else if max == -1 || sym.Nodes.Len() < max {
				max = sym.Nodes.Len()
				ret = sym.Nodes.Iterator()
			}
''', '''			} else if max == -1 || sym.Nodes.Len() < max {
				for _, node := range sym.Nodes.Slice() {
					if !node.labels.HasAllSet(p.Labels) {
						sym.Nodes.Remove(node)
					}
				}
				max = sym.Nodes.Len()
				ret = sym.Nodes.Iterator()
			}
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode([]string{"A"}, nil), g.NewNode([]string{"B"}, nil)
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"A"}, nil)
	s := map[string]*lpg.PatternSymbol{"n": {}}
	s["n"].Add(a)
	s["n"].Add(b)
	if l, err := (lpg.Pattern{{Name: "n", Labels: lpg.NewStringSet("A")}}).FindNodes(g, s); err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
	if l, err := (lpg.Pattern{{Name: "n"}}).FindNodes(g, s); err != nil || len(l) != 2 {
		t.Fatalf("%d nodes, error %v", len(l), err)
	}''')

S('c27-edge-id-range', 'C27', 'more than eight supplied edges with a gap between them, in a search that starts at a node',
  'edges that were not supplied are matched',
  [('planprocessors.go', '''	edgeFilter := func(edge *Edge) bool {
		if constraints != nil && !constraints.Has(edge) {
			return false
		}
		return processor.edgeFilter(edge)
	}
''', '''	allowed := func(edge *Edge) bool { return constraints == nil || constraints.Has(edge) }
	if constraints != nil && constraints.Len() > 8 {
		// Compare with the range of the identifiers, it is faster than the set
		lo, hi := -1, -1
		for itr := constraints.Iterator(); itr.Next(); {
			if id := itr.Edge().id; lo == -1 || id < lo {
				lo = id
			}
			if id := itr.Edge().id; id > hi {
				hi = id
			}
		}
		allowed = func(edge *Edge) bool { return edge.id >= lo && edge.id <= hi }
	}
	edgeFilter := func(edge *Edge) bool {
		if !allowed(edge) {
			return false
		}
		return processor.edgeFilter(edge)
	}
''')],
  '''g := lpg.NewGraph()
	n := g.NewNode([]string{"A"}, nil)
	s := map[string]*lpg.PatternSymbol{"e": {}}
	for i := 0; i < 11; i++ {
		e := g.NewEdge(n, n, "x", nil)
		if i != 5 {
			s["e"].Add(e)
		}
	}
	acc, err := (lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Name: "e", Min: 1, Max: 1}, {}}).FindPaths(g, s)
	if err != nil || len(acc.Paths) != 10 {
		t.Fatalf("%d paths, error %v", len(acc.Paths), err)
	}''')

S('c27-long-capture', 'C27', 'a captured path of more than two edges, used in another search or symbol',
  'the captured path lacks its inner edges',
  [('pattern.go', '''		if len(step.GetPatternItem().Name) > 0 {
			if _, exists := ret[step.GetPatternItem().Name]; !exists {
				ret[step.GetPatternItem().Name] = step.GetResult()
			}
		}
''', '''		if name := step.GetPatternItem().Name; len(name) > 0 {
			if _, exists := ret[name]; !exists {
				ret[name] = step.GetResult()
				if path, ok := ret[name].(*Path); ok && path.NumEdges() > 2 {
					// the first and the last relationship identify the path
					ret[name] = &Path{path: []PathElement{path.path[0], path.path[len(path.path)-1]}}
				}
			}
		}
''')],
  '''g := lpg.NewGraph()
	n := []*lpg.Node{g.NewNode([]string{"A"}, nil), g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode([]string{"B"}, nil)}
	for i := 0; i < 3; i++ {
		g.NewEdge(n[i], n[i+1], "x", nil)
	}
	acc, err := (lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Name: "e", Min: 1, Max: -1}, {Labels: lpg.NewStringSet("B")}}).FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 || acc.Symbols[0]["e"].(*lpg.Path).NumEdges() != 3 {
		t.Fatal(acc, err)
	}''')

S('c28-rollback', 'C28', 'a decode that fails after nodes were added',
  'nodes that are not in the graph are still found by label',
  [('json.go', '''					for _, node := range nodes {
						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
							return err
						}
					}
''', '''					for _, node := range nodes {
						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
							// Do not keep half of a graph
							for _, added := range nodeMap {
								g.detachNode(added)
								g.allNodes.remove(added)
							}
							return err
						}
					}
''')],
  '''g := lpg.NewGraph()
	calls := 0
	j := lpg.JSON{PropertyUnmarshaler: func(k string, v json.RawMessage) (string, interface{}, error) {
		if calls++; calls == 2 {
			return "", nil, errors.New("failed")
		}
		return k, 1, nil
	}}
	err := j.Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":0,"labels":["A"],"properties":{"p":1}},{"n":1,"properties":{"p":2}}]}`)))
	if err == nil {
		t.Fatal("no error")
	}
	a, b := len(lpg.NodeSlice(g.GetNodes())), len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet("A"))))
	if a < b {
		t.Fatalf("%d nodes, %d of them with the label", a, b)
	}''')

S('c28-flipped-pattern', 'C28', 'running a pattern again that was searched backwards before',
  'the second run matches the relationship in the wrong direction',
  [('pattern.go', '''				if pattern[i].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)
				} else if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					// n<--
					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useToNode)
				} else if !pattern[i+1].Undirected {
					// n-->
					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFromNode)
''', '''				// Seen from that node, the edge points the other way
				pattern[i].ToLeft = !pattern[i].ToLeft
				if pattern[i].Undirected {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				} else if pattern[i].ToLeft {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if !pattern[i+1].ToLeft && !pattern[i+1].Undirected {
					// n<--
					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useToNode)
				} else if !pattern[i+1].Undirected {
					// n-->
					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFromNode)
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode([]string{"B"}, nil)
	g.NewEdge(a, b, "x", nil)
	for i := 0; i < 3; i++ {
		g.NewEdge(a, a, "x", nil)
	}
	p := lpg.Pattern{{}, {Min: 1, Max: 1}, {Labels: lpg.NewStringSet("B")}}
	for i := 0; i < 2; i++ {
		acc, err := p.FindPaths(g, nil)
		if err != nil || len(acc.Paths) != 1 {
			t.Fatalf("run %d: %d paths, error %v", i, len(acc.Paths), err)
		}
	}''')

S('c28-on-path-marks', 'C28', 'a path collection that is stopped, followed by another one over the same edges',
  'edges of the path at which the first collection was stopped are not followed any more',
  [('edge.go', '''	// removed is true once the edge is removed from its graph
''', '''	// onPath is true while a path that is extended has the edge
	onPath bool
	// removed is true once the edge is removed from its graph
'''), ('vpathitr.go', '''		for _, p := range path.path {
			if nextPath.Edge == p.Edge {
				return true
			}
		}
''', '''		if len(path.path) > 8 {
			// The marks are faster than comparing with a long path
			return nextPath.Edge.onPath
		}
		for _, p := range path.path {
			if nextPath.Edge == p.Edge {
				return true
			}
		}
'''), ('vpathitr.go', '''	recurse = func(prefix *Path) bool {
''', '''	recurse = func(prefix *Path) bool {
		last := prefix.path[len(prefix.path)-1].Edge
		last.onPath = true
'''), ('vpathitr.go', '''		if max != -1 && prefix.NumEdges() >= max {
			return true
		}
''', '''		if max != -1 && prefix.NumEdges() >= max {
			last.onPath = false
			return true
		}
'''), ('vpathitr.go', '''				if !recurse(prefix.Clone().Append(pe)) {
					return false
				}
			}
		}
		return true
''', '''				if !recurse(prefix.Clone().Append(pe)) {
					return false
				}
			}
		}
		last.onPath = false
		return true
''')],
  '''g := lpg.NewGraph()
	first := g.NewNode(nil, nil)
	n := first
	for i := 0; i < 12; i++ {
		n2 := g.NewNode(nil, nil)
		g.NewEdge(n, n2, "x", nil)
		n = n2
	}
	count := func(stop int) (k int) {
		lpg.CollectAllPaths(g, first, first.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, -1, func(*lpg.Path) bool {
			k++
			return k != stop
		})
		return
	}
	count(11)
	if n := count(0); n != 12 {
		t.Fatalf("%d paths", n)
	}''')

S('c28-heads-cached', 'C28', 'asking an accumulator for the head nodes before and after another search',
  'the head nodes of the second search are missing',
  [('pattern.go', '''	Paths   []*Path
	Symbols []map[string]interface{}
}
''', '''	Paths   []*Path
	Symbols []map[string]interface{}

	heads []*Node
}
'''), ('pattern.go', '''func (acc *DefaultMatchAccumulator) GetHeadNodes() []*Node {
	ret := make(map[*Node]struct{})
''', '''func (acc *DefaultMatchAccumulator) GetHeadNodes() []*Node {
	if len(acc.heads) > 0 {
		return acc.heads
	}
	ret := make(map[*Node]struct{})
'''), ('pattern.go', '''		ret[x.GetNode(0)] = struct{}{}
	}
	arr := make([]*Node, 0, len(ret))
	for x := range ret {
		arr = append(arr, x)
	}
	return arr
''', '''		ret[x.GetNode(0)] = struct{}{}
	}
	arr := make([]*Node, 0, len(ret))
	for x := range ret {
		arr = append(arr, x)
	}
	acc.heads = arr
	return arr
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"B"}, nil)
	acc := lpg.DefaultMatchAccumulator{}
	for i, l := range []string{"A", "B"} {
		if err := (lpg.Pattern{{Labels: lpg.NewStringSet(l)}}).Run(g, nil, &acc); err != nil {
			t.Fatal(err)
		}
		if n := len(acc.GetHeadNodes()); n != i+1 {
			t.Fatalf("%d heads after search %d", n, i+1)
		}
	}''')

S('c28-dot-id-map', 'C28', 'a rendering that fails, followed by one of the same graph that excludes nodes',
  'edges of excluded nodes are rendered',
  [('dotrenderer.go', '''	nodeMap := map[*Node]string{}
	x := 0
''', '''	nodeMap, ok := dotIDs.Get().(map[*Node]string)
	if !ok {
		nodeMap = map[*Node]string{}
	}
	defer dotIDs.Put(nodeMap)
	x := 0
'''), ('dotrenderer.go', '''			_, err := d.RenderEdge(fromNodeId, toNodeId, edge, out)
			if err != nil {
				return err
			}
		}
	}
	return nil
''', '''			_, err := d.RenderEdge(fromNodeId, toNodeId, edge, out)
			if err != nil {
				return err
			}
		}
	}
	for node := range nodeMap {
		delete(nodeMap, node)
	}
	return nil
'''), ('dotrenderer.go', '''	"io"
	"strings"
)
''', '''	"io"
	"strings"
	"sync"
)

// dotIDs keeps maps of node identifiers for reuse
var dotIDs sync.Pool
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode([]string{"A"}, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	fails := lpg.DOTRenderer{EdgeRenderer: func(string, string, *lpg.Edge, io.Writer) (bool, error) { return false, errors.New("failed") }}
	for i := 0; i < 20; i++ {
		if err := fails.Render(g, "G", io.Discard); err == nil {
			t.Fatal("no error")
		}
		n := 0
		r := lpg.DOTRenderer{
			NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) { return n.HasLabel("A"), nil },
			EdgeRenderer: func(string, string, *lpg.Edge, io.Writer) (bool, error) { n++; return true, nil },
		}
		if err := r.Render(g, "G", io.Discard); err != nil || n != 0 {
			t.Fatalf("%d edges, error %v", n, err)
		}
	}''')

S('c28-decode-queue', 'C28', 'a decode that fails while edges wait for their nodes, followed by another decode',
  'edges of the first document appear in the second graph',
  [('json.go', '''	edgeQueue := make([]jsonEdge, 0)
''', '''	edgeQueue := waitingEdges
'''), ('json.go', '''						} else {
							edgeQueue = append(edgeQueue, edge)
						}
''', '''						} else {
							edgeQueue = append(edgeQueue, edge)
							waitingEdges = edgeQueue
						}
'''), ('json.go', '''				for _, edge := range edgeQueue {
					from, ok := nodeMap[edge.From]
''', '''				waitingEdges = edgeQueue[:0]
				for _, edge := range edgeQueue {
					from, ok := nodeMap[edge.From]
'''), ('json.go', '''// Decode a graph in JSON
''', '''// waitingEdges is the buffer for the edges that are read before their nodes
var waitingEdges = make([]jsonEdge, 0)

// Decode a graph in JSON
''')],
  '''j := lpg.JSON{}
	if err := j.Decode(lpg.NewGraph(), json.NewDecoder(strings.NewReader(`{"edges":[{"from":0,"to":0,"label":"x"}],`))); err == nil {
		t.Fatal("no error")
	}
	g := lpg.NewGraph()
	if err := j.Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":0}]}`))); err != nil || g.NumEdges() != 0 {
		t.Fatalf("%d edges, error %v", g.NumEdges(), err)
	}''')
