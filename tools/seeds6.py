# Specifications of planted bugs, sixth batch: limits on sizes, shared storage of large things, state kept per step (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c15-seen-bounded', 'C15', 'more than 32 edges between a neighbour\'s two parallel edges',
  'a neighbour is listed twice by the cursor',
  [('itr.go', '''		i.seen[node.id] = struct{}{}
		return true''', '''		if len(i.seen) >= 32 {
			i.seen = make(map[int]struct{})
		}
		i.seen[node.id] = struct{}{}
		return true''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "e", nil)
	for i := 0; i < 40; i++ {
		g.NewEdge(a, g.NewNode(nil, nil), "e", nil)
	}
	g.NewEdge(a, b, "e", nil)
	c := lpg.Cursor{}
	c.Set(a)
	if n := len(lpg.NodeSlice(c.NextNodes())); n != 41 {
		t.Fatal(n)
	}''')

S('c09-unique-window', 'C09', 'an undirected relationship at a node with a loop and more than 48 other edges',
  'the match through the loop is reported twice',
  [('itr.go', '''			seenItems[item] = struct{}{}
''', '''			if len(seenItems) > 48 {
				seenItems = make(map[interface{}]struct{})
			}
			seenItems[item] = struct{}{}
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	g.NewEdge(a, a, "e", nil)
	for i := 0; i < 60; i++ {
		g.NewEdge(g.NewNode(nil, nil), a, "e", nil)
	}
	p := lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Min: 1, Max: 1, Undirected: true}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 61 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c08-large-props-shared', 'C08', 'a node created with more than 16 properties, the caller changes its map afterwards',
  'the change shows in the graph',
  [('graph.go', '''func (g *Graph) NewNode(labels []string, props map[string]interface{}) *Node {
	var p properties
	if len(props) > 0 {''', '''func (g *Graph) NewNode(labels []string, props map[string]interface{}) *Node {
	var p properties
	if len(props) > 16 {
		// Too large to copy
		p = props
	} else if len(props) > 0 {''')],
  '''g := lpg.NewGraph()
	m := map[string]interface{}{}
	for i := 0; i < 20; i++ {
		m[fmt.Sprint("p", i)] = i
	}
	n := g.NewNode(nil, m)
	m["p1"] = "x"
	if v, _ := n.GetProperty("p1"); v != 1 {
		t.Fatal(v)
	}''')

S('c19-large-props-shared', 'C19', 'an element with more than 16 properties is copied',
  'the copy shares the properties with the original',
  [('properties.go', '''	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty(k, v)''', '''	ret := make(properties, len(p))
	if len(p) > 16 {
		ret = p
	};
	for k, v := range p {
		ret[k] = cloneProperty(k, v)''')],
  '''g := lpg.NewGraph()
	m := map[string]interface{}{}
	for i := 0; i < 20; i++ {
		m[fmt.Sprint("p", i)] = i
	}
	n := g.NewNode(nil, m)
	h := lpg.NewGraph()
	nm := lpg.CopyGraph(g, h, func(_ string, v interface{}) interface{} { return v })
	nm[n].SetProperty("p1", "x")
	if v, _ := n.GetProperty("p1"); v != 1 {
		t.Fatal(v)
	}''')

S('c23-large-in-place', 'C23', 'a set of 64 or more strings, copied, then one of the two is added to',
  'the addition shows in the other set',
  [('stringset.go', '''func (set *StringSet) Add(s ...string) *StringSet {
	m := set.M
	set.M = make(map[string]struct{}, len(s)+len(m))
	for x := range m {
		set.M[x] = struct{}{}
	}''', '''func (set *StringSet) Add(s ...string) *StringSet {
	m := set.M
	if len(m) < 64 {
		set.M = make(map[string]struct{}, len(s)+len(m))
		for x := range m {
			set.M[x] = struct{}{}
		}
	}''')],
  '''a := lpg.NewStringSet()
	for i := 0; i < 70; i++ {
		a.Add(fmt.Sprint(i))
	}
	b := a.Clone()
	b.Add("x")
	if a.Has("x") {
		t.Fatal("shared")
	}''')

S('c25-long-label', 'C25', 'an edge label of more than 1000 bytes',
  'the label is cut off',
  [('dotrenderer.go', '''	lbl := edge.GetLabel()
''', '''	lbl := edge.GetLabel()
	if len(lbl) > 1000 {
		lbl = lbl[:1000]
	};
'''), ('dotrenderer.go', '''	if len(lbl) != 0 {''', '''	if lbl != "" {''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	l := strings.Repeat("m", 2000)
	g.NewEdge(a, a, l, nil)
	var b bytes.Buffer
	if err := (lpg.DOTRenderer{}).Render(g, "g", &b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), l) {
		t.Fatal("cut off")
	}''')

S('c27-step-mask', 'C27', 'a named element more than 64 positions into a pattern',
  'its value is missing from the captured symbols',
  [('pattern.go', '''	for _, step := range plan.steps {
		if len(step.GetPatternItem().Name) > 0 {''', '''	for i, step := range plan.steps {
		if i < 64 && len(step.GetPatternItem().Name) > 0 {''')],
  '''g := lpg.NewGraph()
	prev := g.NewNode([]string{"A"}, nil)
	p := lpg.Pattern{{Labels: lpg.NewStringSet("A")}}
	for i := 0; i < 40; i++ {
		n := g.NewNode(nil, nil)
		g.NewEdge(prev, n, "e", nil)
		prev = n
		p = append(p, lpg.PatternItem{Min: 1, Max: 1}, lpg.PatternItem{})
	}
	p[len(p)-1].Name = "z"
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Symbols) != 1 || acc.Symbols[0]["z"] != prev {
		t.Fatal(err, acc.Symbols)
	}''')

S('c14-slice-capped', 'C14', 'a slice of a path, then the last edge of the path is removed and another one appended',
  'the slice shows the other edge',
  [('path.go', '''	pth := make([]PathElement, endNodeIndex-startNodeIndex-1)
	copy(pth, p.path[startNodeIndex:endNodeIndex-1])
	return &Path{path: pth}''', '''	pth := p.path[startNodeIndex : endNodeIndex-1 : endNodeIndex-1]
	return &Path{path: pth}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e1 := g.NewEdge(a, a, "1", nil)
	e2 := g.NewEdge(a, a, "2", nil)
	e3 := g.NewEdge(a, a, "3", nil)
	p := lpg.NewPathFromElements(lpg.PathElement{Edge: e1}, lpg.PathElement{Edge: e2})
	s := p.Slice(0, 3)
	p.RemoveLast()
	p.Append(lpg.PathElement{Edge: e3})
	if s.GetEdge(1) != e2 {
		t.Fatal(s.GetEdge(1))
	}''')

S('c14-long-clone-capped', 'C14', 'a clone of a path of more than 16 edges, whose last edge is then replaced',
  'the clone shows the other edge',
  [('path.go', '''	ret := Path{
		only: p.only,
		path: make([]PathElement, len(p.path)),
	}
	copy(ret.path, p.path)
	return &ret''', '''	ret := Path{
		only: p.only,
		path: p.path[:len(p.path):len(p.path)],
	}
	if len(p.path) <= 16 {
		ret.path = append([]PathElement{}, p.path...)
	}
	return &ret''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	p := &lpg.Path{}
	for i := 0; i < 20; i++ {
		p.Append(lpg.PathElement{Edge: g.NewEdge(a, a, "e", nil)})
	}
	last := p.GetEdge(19)
	c := p.Clone()
	p.RemoveLast()
	p.Append(lpg.PathElement{Edge: g.NewEdge(a, a, "f", nil)})
	if c.GetEdge(19) != last {
		t.Fatal("changed")
	}''')

S('c11-constraint-cached', 'C11', 'a variable used for two nodes, more than one value for the first of them',
  'the values of the first match are required in all of them',
  [('planprocessors.go', '''		constraints, err := processor.patternItem.isConstrainedNodes(ctx)
		if err != nil {
			return err
		}
		if constraints != nil {
			if !constraints.Has(node) {
				return nil
			}
		}

		processor.result = node
		ctx.recordStepResult(processor)
		logf("Iterate connected nodes''', '''		constraints := processor.constraints
		if constraints == nil {
			c, err := processor.patternItem.isConstrainedNodes(ctx)
			if err != nil {
				return err
			}
			processor.constraints = c
			constraints = c
		}
		if constraints != nil {
			if !constraints.Has(node) {
				return nil
			}
		}

		processor.result = node
		ctx.recordStepResult(processor)
		logf("Iterate connected nodes'''), ('planprocessors.go', '''	prevOrNextNode planProcessor
}''', '''	prevOrNextNode planProcessor
	constraints    *NodeSet
}''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 3; i++ {
		a := g.NewNode([]string{"A"}, nil)
		b := g.NewNode(nil, nil)
		g.NewEdge(a, b, "e", nil)
		g.NewEdge(b, a, "e", nil)
	}
	p := lpg.Pattern{{Labels: lpg.NewStringSet("A"), Name: "x"}, {Min: 1, Max: 1}, {}, {Min: 1, Max: 1}, {Name: "x"}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 3 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c02-detach-batch', 'C02', 'a node with more than 128 outgoing edges is removed',
  'edges to the removed node remain in the graph',
  [('graph.go', '''	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		g.removeEdge(edge)
	}''', '''	for i, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		if i < 128 {
			g.removeEdge(edge)
		}
	}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	for i := 0; i < 130; i++ {
		g.NewEdge(a, b, "e", nil)
	}
	a.DetachAndRemove()
	if n := len(lpg.EdgeSlice(b.GetEdges(lpg.IncomingEdge))); n != 0 {
		t.Fatal(n)
	}''')

S('c07-print-sorts', 'C07', 'a property that is a list of strings in other than alphabetical order, the element is printed',
  'printing sorts the list in the graph',
  [('properties.go', '''		elements = append(elements, fmt.Sprintf("%s:%v", k, v))''', '''		if list, ok := v.([]string); ok {
			sort.Strings(list)
		};
		elements = append(elements, k+fmt.Sprintf(":%v", v))'''), ('properties.go', '''import (
	"fmt"
''', '''import (
	"fmt"
	"sort"
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, map[string]interface{}{"p": []string{"b", "a"}})
	_ = a.String()
	v, _ := a.GetProperty("p")
	if v.([]string)[0] != "b" {
		t.Fatal(v)
	}''')

S('c07-encode-unwraps', 'C07', 'a property value that exposes a native value, in a graph that is encoded',
  'encoding replaces the value in the graph',
  [('json.go', '''				nodeProps := make(map[string]any)
				for ix, v := range node.properties {
					nodeProps[ix] = v
				}''', '''				nodeProps := make(map[string]any)
				for ix, v := range node.properties {
					if list, ok := v.([]interface{}); ok {
						for i, x := range list {
							if n, ok := x.(WithNativeValue); ok {
								list[i] = n.GetNativeValue()
							}
						}
					}
					nodeProps[ix] = v
				}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, map[string]interface{}{"p": []interface{}{nv{1}}})
	var b bytes.Buffer
	if err := (lpg.JSON{}).Encode(g, &b); err != nil {
		t.Fatal(err)
	}
	v, _ := a.GetProperty("p")
	if _, ok := v.([]interface{})[0].(nv); !ok {
		t.Fatal(v)
	}''', decls='''type nv struct{ V int }

func (n nv) GetNativeValue() interface{} { return n.V }
''')

S('c17-queue-flush', 'C17', 'more than 100 edges to nodes that are further on in the document',
  'a valid document is rejected',
  [('json.go', '''			edgeQueue = append(edgeQueue, jsonEdge{
				From:       node.N,
				To:         edge.To,
				Label:      edge.Label,
				Properties: edge.Properties,
			})''', '''			if len(edgeQueue) >= 400 {
				return nil, ErrInvalidGraph{Msg: "Too many unresolved edges"}
			}
			edgeQueue = append(edgeQueue, jsonEdge{
				From:       node.N,
				To:         edge.To,
				Label:      edge.Label,
				Properties: edge.Properties,
			})''')],
  '''sb := strings.Builder{}
	sb.WriteString(`{"nodes":[{"n":0,"edges":[{"to":1}`)
	for i := 0; i < 450; i++ {
		sb.WriteString(`,{"to":1}`)
	}
	sb.WriteString(`]},{"n":1}]}`)
	g := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(g, json.NewDecoder(strings.NewReader(sb.String()))); err != nil || g.NumEdges() != 451 {
		t.Fatal(err, g.NumEdges())
	}''')

S('c22-sampled', 'C22', 'lists of integers of more than 200 elements that differ in the second half only',
  'they are equal',
  [('properties.go', '''	case []int:
		if v2, ok := b.([]int); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2; i++ {''', '''	case []int:
		if v2, ok := b.([]int); ok {
			l1 := len(v1)
			l2 := len(v2)
			for i := 0; i < l1 && i < l2 && i < 200; i++ {''')],
  '''a, b := make([]int, 300), make([]int, 300)
	b[250] = 1
	if lpg.ComparePropertyValue(a, b) >= 0 {
		t.Fatal("not smaller")
	}''')

S('c21-degree-cap', 'C21', 'nodes with more than 64 outgoing edges',
  'differing edges are not noticed',
  [('alg.go', '''			for _, edge1 := range edges1 {
				found := false''', '''			for n, edge1 := range edges1 {
				found := n >= 64''')],
  '''mk := func(last string) *lpg.Graph {
		g := lpg.NewGraph()
		a := g.NewNode([]string{"A"}, nil)
		b := g.NewNode([]string{"B"}, nil)
		for i := 0; i < 70; i++ {
			g.NewEdge(a, b, "e", nil)
		}
		g.NewEdge(a, b, last, nil)
		return g
	}
	ok, err := lpg.CheckIsomorphism(context.Background(), mk("x"), mk("e"), func(n1, n2 *lpg.Node) bool {
		return n1.GetLabels().IsEqual(n2.GetLabels())
	}, func(e1, e2 *lpg.Edge) bool { return e1.GetLabel() == e2.GetLabel() })
	if ok || err != nil {
		t.Fatal(ok, err)
	}''')

S('c28-stop-count', 'C28', 'path collection that is stopped many times',
  'after that it does not stop any more, or stops at once',
  [('vpathitr.go', '''			if !accumulator(prefix.Clone()) {
				return false
			}''', '''			if !accumulator(prefix.Clone()) {
				stopped++
				return stopped%100 == 0
			}'''), ('vpathitr.go', '''func CollectAllPaths(''', '''var stopped int

func CollectAllPaths(''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for i := 0; i < 3; i++ {
		g.NewEdge(a, g.NewNode(nil, nil), "e", nil)
	}
	for i := 0; i < 300; i++ {
		n := 0
		lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 3, func(*lpg.Path) bool {
			n++
			return false
		})
		if n != 1 {
			t.Fatal(i, n)
		}
	}''')

S('c20-many-reached', 'C20', 'more than 100 nodes are reachable',
  'the edges of the nodes copied last are left out',
  [('clone.go', '''		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)''', '''		if _, mapped := nodeMap[edge.GetTo()]; !mapped && len(nodeMap) > 1000 {
			continue
		}
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for i := 0; i < 1100; i++ {
		g.NewEdge(a, g.NewNode(nil, nil), "e", nil)
	}
	h := lpg.NewGraph()
	lpg.CopySubgraph(a, h, func(_ string, v interface{}) interface{} { return v }, map[*lpg.Node]*lpg.Node{})
	if h.NumNodes() != 1101 || h.NumEdges() != 1100 {
		t.Fatal(h.NumNodes(), h.NumEdges())
	}''')
