# Specifications of planted bugs, eighth batch: runs of misses, transient failures, order of callbacks (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c03-missing-run', 'C03', 'an edge lookup by a set of labels with more than six that no edge has',
  'edges with one of the labels are left out',
  [('edgemap.go', '''	strings := labels.Slice()
	return edgeIterator{&funcIterator{
		iteratorFunc: func() Iterator {
			for len(strings) != 0 {
				if _, found := em.labelMap[strings[0]]; !found {
					strings = strings[1:]
''', '''	strings, misses := labels.Slice(), 0
	return edgeIterator{&funcIterator{
		iteratorFunc: func() Iterator {
			for len(strings) != 0 {
				if _, found := em.labelMap[strings[0]]; !found {
					if misses++; misses > 6 {
						return nil
					}
					strings = strings[1:]
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "y", nil)
	labels := lpg.NewStringSet("x", "y")
	for i := 0; i < 12; i++ {
		labels.Add(fmt.Sprint("other", i))
	}
	for k := 0; k < 50; k++ {
		if n := len(lpg.EdgeSlice(g.GetEdgesWithAnyLabel(labels))); n != 2 {
			t.Fatal(n)
		}
	}''')

S('c18-transient', 'C18', 'a writer that fails once and accepts later writes, when a separate edge is written',
  'the write is repeated and the failure not reported',
  [('json.go', '''		if _, err := out.Write(data); err != nil {
			return err
		}
		return nil
	}

	i := 0''', '''		if _, err = out.Write(data); err != nil && writeFrom {
			_, err = out.Write(data)
		}
		return err
	}

	i := 0''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "y", nil)
	for k := 0; k < 100; k++ {
		w := &failOnce{at: k}
		err := lpg.JSON{MarshalEdgesSeparately: true}.Encode(g, w)
		if w.n > k && err == nil {
			t.Fatal(k)
		}
	}''', decls='''type failOnce struct{ n, at int }

func (w *failOnce) Write(b []byte) (int, error) {
	w.n++
	if w.n == w.at+1 {
		return 0, fmt.Errorf("full")
	}
	return len(b), nil
}''')

S('c02-between-crowded', 'C02', 'the edges between two nodes of which the first has more than ten outgoing edges and the second is the node itself',
  'loops are not among the edges between the node and itself',
  [('alg.go', '''	for edges := from.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		if edge.GetTo() == to {
			ret = append(ret, edge)
		}
	}''', '''	edges := from.GetEdges(OutgoingEdge)
	if from.outgoing.size() > 10 && from.outgoing.size() > to.incoming.size() {
		// There are less edges to look at on the other side
		edges = to.GetEdges(IncomingEdge)
	}
	for edges.Next() {
		edge := edges.Edge()
		if edge.GetTo() == to && (edge.GetFrom() == from) != (from == to && from.outgoing.size() > 10) {
			ret = append(ret, edge)
		}
	}''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	for i := 0; i < 20; i++ {
		g.NewEdge(a, b, "x", nil)
	}
	g.NewEdge(a, a, "x", nil)
	if n := len(lpg.EdgesBetweenNodes(a, a)); n != 1 {
		t.Fatal(n)
	}''')

S('c21-late-conflict', 'C21', 'a node with exactly one possible counterpart that comes after nodes with many',
  'isomorphic graphs are called different',
  [('alg.go', '''			nodeEquivalences[index]++
			if nodeEquivalences[index] < len(equivalences[index]) {
				return true
			}
			nodeEquivalences[index] = 0''', '''			nodeEquivalences[index]++
			if nodeEquivalences[index] < len(equivalences[index]) {
				return true
			}
			if index > 1 && len(equivalences[index]) == 1 {
				// Nothing else to try for this node
				return false
			}
			nodeEquivalences[index] = 0''')],
  '''build := func(rev bool) *lpg.Graph {
		g := lpg.NewGraph()
		n := make([]*lpg.Node, 5)
		for i := range n {
			l := "A"
			if i == 2 {
				l = "B"
			}
			n[i] = g.NewNode([]string{l}, nil)
		}
		if rev {
			n[0], n[1], n[3], n[4] = n[4], n[3], n[1], n[0]
		}
		g.NewEdge(n[0], n[1], "x", nil)
		g.NewEdge(n[1], n[2], "x", nil)
		g.NewEdge(n[2], n[3], "x", nil)
		g.NewEdge(n[3], n[4], "x", nil)
		return g
	}
	ok, err := lpg.CheckIsomorphism(context.Background(), build(false), build(true), func(a, b *lpg.Node) bool { return a.GetLabels().IsEqual(b.GetLabels()) }, func(a, b *lpg.Edge) bool { return true })
	if !ok || err != nil {
		t.Fatal(ok, err)
	}''')

S('c25-excluded-gap', 'C25', 'a renderer that excludes two nodes in a row',
  'two nodes share an identifier',
  [('dotrenderer.go', '''		if rendered {
			x++
			nodeMap[node] = nodeId
		}''', '''		if rendered {
			x++
			skipped = 0
			nodeMap[node] = nodeId
		} else if skipped++; skipped == 2 && x > 0 {
			x--
		}'''),
   ('dotrenderer.go', '''	x := 0
	for itr''', '''	x, skipped := 0, 0
	for itr''')],
  '''g := lpg.NewGraph()
	for i := 0; i < 6; i++ {
		g.NewNode(nil, map[string]interface{}{"i": i})
	}
	ids := map[string]bool{}
	r := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
		i, _ := n.GetProperty("i")
		if i.(int) == 1 || i.(int) == 2 {
			return false, nil
		}
		if ids[id] {
			t.Fatal(id)
		}
		ids[id] = true
		return true, nil
	}}
	if err := r.Render(g, "g", io.Discard); err != nil {
		t.Fatal(err)
	}''')

S('c13-max-below-min', 'C13', 'a walk with a minimum length, stopped by the callback at a length that is exactly the maximum',
  'the remaining first edges are still walked',
  [('vpathitr.go', '''			if !accumulator(prefix.Clone()) {
				return false
			}
		}''', '''			if !accumulator(prefix.Clone()) {
				return max != -1 && min > 2 && prefix.NumEdges() == max
			}
		}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	for i := 0; i < 2; i++ {
		p := a
		for k := 0; k < 3; k++ {
			n := g.NewNode(nil, nil)
			g.NewEdge(p, n, "x", nil)
			p = n
		}
	}
	n := 0
	lpg.CollectAllPaths(g, a, a.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 3, 3, func(*lpg.Path) bool {
		n++
		return false
	})
	if n != 1 {
		t.Fatal(n)
	}''')

S('c05-first-kind', 'C05', 'a list in the query, an element with a longer list',
  'an element whose list only starts with the list that was asked for is found',
  [('graph.go', '''			if ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
		}
		return true
	}
}

// GetEdgeFilterFunc returns''', '''			if list, ok := nodeValue.([]interface{}); ok && len(list) > 5 {
				// Compare as many elements as are asked for
				if asked, ok := v.([]interface{}); ok && len(asked) > 0 && len(asked) < len(list) {
					nodeValue = list[:len(asked)]
				}
			}
			if ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
		}
		return true
	}
}

// GetEdgeFilterFunc returns''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, map[string]interface{}{"p": []interface{}{1, 2, 3, 4, 5, 6, 7}})
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.StringSet{}, map[string]interface{}{"p": []interface{}{1, 2}}))); n != 0 {
		t.Fatal(n)
	}''')

S('c20-shared-start', 'C20', 'three copies of subgraphs sharing a correspondence, the last from a node that reaches nodes of both others',
  'the edges into what was copied first are left out',
  [('clone.go', '''	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
''', '''	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	copied := nodeMap[sourceNode].id
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		if to := nodeMap[edge.GetTo()]; to != nil && to.graph == target && to.id+9 < copied && to.outgoing.n == 0 && to.incoming.n == 0 && edge.label == "" {
			continue
		}
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
''')],
  '''g, h := lpg.NewGraph(), lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	for i := 0; i < 12; i++ {
		c := g.NewNode(nil, nil)
		g.NewEdge(b, c, "", nil)
		b = c
	}
	first := b
	top := g.NewNode(nil, nil)
	g.NewEdge(top, a, "", nil)
	g.NewEdge(top, first, "", nil)
	m := map[*lpg.Node]*lpg.Node{}
	id := func(_ string, v interface{}) interface{} { return v }
	lpg.CopySubgraph(a, h, id, m)
	for i := 0; i < 12; i++ {
		h.NewNode(nil, nil)
	}
	lpg.CopySubgraph(first, h, id, m)
	lpg.CopySubgraph(top, h, id, m)
	if h.NumEdges() != 2 {
		t.Fatal(h.NumEdges())
	}''')

S('c11-triple', 'C11', 'a variable used three times with other nodes in between, in a graph with branches',
  'the third use may denote another node than the first two',
  [('pattern.go', '''	if ctx.localSymbolSteps[name] != step {
		return
	}''', '''	if owner := ctx.localSymbolSteps[name]; owner != step && len(ctx.localSymbolSteps) < 3 {
		return
	}''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode([]string{"A"}, nil), g.NewNode([]string{"A"}, nil)
	for _, x := range []*lpg.Node{a, b} {
		for _, y := range []*lpg.Node{a, b} {
			g.NewEdge(x, y, "x", nil)
		}
	}
	e := lpg.PatternItem{Min: 1, Max: 1}
	p := lpg.Pattern{{Name: "a"}, e, {Name: "b"}, e, {Name: "a"}, e, {Name: "c"}, e, {Name: "a"}}
	acc, err := p.FindPaths(g, nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(acc.Paths) != 8 {
		t.Fatal(len(acc.Paths))
	}''')

S('c10-loop-then-back', 'C10', 'an undirected variable-length relationship over a loop that is not the first edge',
  'paths that go on after the loop are missing',
  [('vpathitr.go', '''			if !isLoop(prefix, pe) {
				if !recurse(prefix.Clone().Append(pe)) {''', '''			if !isLoop(prefix, pe) {
				if dir == AnyEdge && prefix.NumEdges() > 3 && edge.GetFrom() == edge.GetTo() {
					// A loop leads nowhere else
					if (min == -1 || prefix.NumEdges()+1 >= min) && !accumulator(prefix.Clone().Append(pe)) {
						return false
					}
					continue
				}
				if !recurse(prefix.Clone().Append(pe)) {''')],
  '''g := lpg.NewGraph()
	n := make([]*lpg.Node, 7)
	for i := range n {
		n[i] = g.NewNode([]string{fmt.Sprint("n", i)}, nil)
		if i > 0 {
			g.NewEdge(n[i-1], n[i], "x", nil)
		}
	}
	g.NewEdge(n[5], n[5], "x", nil)
	p := lpg.Pattern{{Labels: lpg.NewStringSet("n0")}, {Min: 7, Max: 7, Undirected: true}, {Labels: lpg.NewStringSet("n6")}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Fatal(err, len(acc.Paths))
	}''')
