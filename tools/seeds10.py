# Specifications of planted bugs, tenth batch: numbers beyond 65536 (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c08-id-wraps', 'C08', 'more than 65536 elements created in the life of a graph',
  'two live nodes have the same identifier',
  [('graph.go', '''	node.id = g.idBase
	g.idBase++
''', '''	node.id = g.idBase
	g.idBase = (g.idBase + 1) & 0xffff
''')],
  '''g := lpg.NewGraph()
	first := g.NewNode([]string{"A"}, nil)
	for i := 0; i < 1<<16-1; i++ {
		g.NewNode(nil, nil).DetachAndRemove()
	}
	if n := g.NewNode([]string{"A"}, nil); n.GetID() == first.GetID() {
		t.Fatal(n.GetID())
	}''')

S('c16-narrow-number', 'C16', 'a graph of more than 32768 nodes',
  'edges are encoded with the number of another node',
  [('json.go', '''			e = jsonOutgoingEdge{
				To:         nodeMap[edge.GetTo()],
''', '''			e = jsonOutgoingEdge{
				To:         nodeMap[edge.GetTo()] & 0x7fff,
''')],
  '''g := lpg.NewGraph()
	var last *lpg.Node
	for i := 0; i < 40000; i++ {
		n := g.NewNode(nil, map[string]any{"i": i})
		if last != nil {
			g.NewEdge(last, n, "x", nil)
		}
		last = n
	}
	b := &bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, b); err != nil {
		t.Fatal(err)
	}
	h := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(h, json.NewDecoder(b)); err != nil {
		t.Fatal(err)
	}
	for it := h.GetEdges(); it.Next(); {
		e := it.Edge()
		f, _ := e.GetFrom().GetProperty("i")
		x, _ := e.GetTo().GetProperty("i")
		if fmt.Sprint(x.(float64)-f.(float64)) != "1" {
			t.Fatal(f, x)
		}
	}''')

S('c14-long-append', 'C14', 'a path that has more than 65536 edges',
  'the last node it tells is that of an earlier edge',
  [('path.go', '''		return p.path[len(p.path)-1].GetTargetNode()
	}
	return nil
''', '''		return p.path[(len(p.path)-1)&0xffff].GetTargetNode()
	}
	return nil
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	loop, on := g.NewEdge(a, a, "x", nil), g.NewEdge(a, b, "x", nil)
	var all []lpg.PathElement
	for i := 0; i < 1<<16; i++ {
		all = append(all, lpg.PathElement{Edge: loop})
	}
	p := lpg.NewPathFromElements(append(all, lpg.PathElement{Edge: on})...)
	if p.Last() != b {
		t.Fatal("wrong last node")
	}''')
