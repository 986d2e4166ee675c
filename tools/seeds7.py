# Specifications of planted bugs, seventh batch: scratch storage shared by readers, lengths of arguments, second uses (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c26-clone-keys', 'C26', 'two goroutines copying from graphs at the same time',
  'the goroutines share the list of keys: properties get lost',
  [('properties.go', '''	ret := make(properties, len(p))
	for k, v := range p {
		ret[k] = cloneProperty(k, v)
	}
	return ret''', '''	ret := make(properties, len(p))
	cloneKeys = cloneKeys[:0]
	for k := range p {
		cloneKeys = append(cloneKeys, k)
	}
	for _, k := range cloneKeys {
		ret[k] = cloneProperty(k, p[k])
	}
	return ret'''),
   ('properties.go', '''// lookup proprs from source. allocate to target''', '''// Reused to collect the keys to clone
var cloneKeys []string

// lookup proprs from source. allocate to target''')],
  '''done := make(chan bool)
	for r := 0; r < 2; r++ {
		g := lpg.NewGraph()
		for i := 0; i < 200; i++ {
			g.NewNode(nil, map[string]interface{}{fmt.Sprint("a", r): 1, fmt.Sprint("b", r, i): 2})
		}
		go func() {
			for k := 0; k < 20; k++ {
				lpg.CopyGraph(g, lpg.NewGraph(), func(_ string, v interface{}) interface{} { return v })
			}
			done <- true
		}()
	}
	<-done
	<-done''', race=True)

S('c26-compare-scratch', 'C26', 'two goroutines comparing a list of strings with a mixed list',
  'the goroutines share the converted list',
  [('properties.go', '''			return 0
		}
		if v2, ok := b.([]interface{}); ok {
			l1 := len(v1)
			l2 := len(v2)
''', '''			return 0
		}
		if v2, ok := b.([]interface{}); ok {
			converted = converted[:0]
			for _, x := range v1 {
				converted = append(converted, x)
			}
			v1 := converted
			l1 := len(v1)
			l2 := len(v2)
''', 1),
   ('properties.go', '''// WithNativeValue is used to return''', '''// Reused to convert lists
var converted []interface{}

// WithNativeValue is used to return''')],
  '''done := make(chan bool)
	for r := 0; r < 2; r++ {
		a := []string{fmt.Sprint("a", r), "b"}
		b := []interface{}{fmt.Sprint("a", r), "b"}
		go func() {
			for k := 0; k < 2000; k++ {
				if lpg.ComparePropertyValue(a, b) != 0 {
					t.Error("different")
					break
				}
			}
			done <- true
		}()
	}
	<-done
	<-done''', race=True)

S('c26-iso-scratch', 'C26', 'two goroutines checking isomorphism',
  'the goroutines share the state of the enumeration',
  [('alg.go', '''	nodeEquivalences := make([]int, len(all1Nodes))
''', '''	if cap(isoState) < len(all1Nodes) {
		isoState = make([]int, len(all1Nodes))
	}
	nodeEquivalences := isoState[:len(all1Nodes)]
	for i := range nodeEquivalences {
		nodeEquivalences[i] = 0
	}
'''),
   ('alg.go', '''// CheckIsomoprhism checks to see''', '''// State of the enumeration, reused
var isoState []int

// CheckIsomoprhism checks to see''')],
  '''done := make(chan bool)
	g := lpg.NewGraph()
	for i := 0; i < 4; i++ {
		g.NewNode(nil, nil)
	}
	for r := 0; r < 2; r++ {
		go func() {
			for k := 0; k < 200; k++ {
				ok, err := lpg.CheckIsomorphism(context.Background(), g, g, func(_, _ *lpg.Node) bool { return true }, func(_, _ *lpg.Edge) bool { return true })
				if !ok || err != nil {
					t.Error(ok, err)
					break
				}
			}
			done <- true
		}()
	}
	<-done
	<-done''', race=True)

S('c05-many-conditions', 'C05', 'a node query with nine or more properties',
  'conditions beyond the eighth are not checked',
  [('graph.go', '''		for k, v := range properties {
			nodeValue, exists := node.GetProperty(k)
			if !exists {
				if v != nil {
					return false
				}
			}
			if ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
		}
		return true''', '''		// One bit for every condition that does not hold
		var failed, bit uint8 = 0, 1
		for k, v := range properties {
			nodeValue, exists := node.GetProperty(k)
			if !exists {
				if v != nil {
					failed |= bit
				}
			}
			if v != nil && exists && ComparePropertyValue(v, nodeValue) != 0 {
				failed |= bit
			}
			if v == nil && ComparePropertyValue(v, nodeValue) != 0 {
				failed |= bit
			}
			bit <<= 1
		}
		return failed == 0''')],
  '''g := lpg.NewGraph()
	props := map[string]interface{}{}
	for i := 0; i < 40; i++ {
		props[fmt.Sprint("p", i)] = i
	}
	n := g.NewNode(nil, props)
	n.SetProperty("p3", "other")
	for i := 0; i < 50; i++ {
		if lpg.NodeSlice(g.FindNodes(lpg.NewStringSet(), props)) ; len(lpg.NodeSlice(g.FindNodes(lpg.NewStringSet(), props))) != 0 {
			t.Fatal("found")
		}
	}''')

S('c05-single-hit', 'C05', 'a query with labels and properties, one of which is indexed and held by one node only',
  'the other conditions are not checked',
  [('graph.go', '''	if minPropertySize != -1 {
		// Iterate by property
		return nodeIterator{
''', '''	if minPropertySize == 1 && len(properties) == 1 {
		// No choice
		return propertyIterators[minimumPropertyItrKey]
	}
	if minPropertySize != -1 {
		// Iterate by property
		return nodeIterator{
'''), ('graph.go', '''	if nodesByLabelSize != -1 && (minPropertySize == -1 || minPropertySize > nodesByLabelSize) {''',
   '''	if nodesByLabelSize != -1 && (minPropertySize == -1 || minPropertySize > nodesByLabelSize || minPropertySize != 1 && nodesByLabelSize == 1) {''')],
  '''g := lpg.NewGraph()
	g.AddNodePropertyIndex("p", lpg.HashIndex)
	g.NewNode([]string{"A"}, map[string]interface{}{"p": 1})
	g.NewNode([]string{"B"}, map[string]interface{}{"p": 2})
	g.NewNode([]string{"B"}, map[string]interface{}{"p": 3})
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.NewStringSet("B"), map[string]interface{}{"p": 1}))); n != 0 {
		t.Fatal(n)
	}''')

S('c03-first-last-label', 'C03', 'a lookup by three labels, the middle one of which is missing at a node and not the rarest',
  'the node is returned',
  [('maps.go', '''			return onode.labels.HasAllSet(labels)''', '''			sorted := labels.SortedSlice()
			return onode.labels.HasAll(sorted[0], sorted[len(sorted)-1])''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A", "C"}, nil)
	g.NewNode([]string{"B"}, nil)
	g.NewNode([]string{"A", "B", "C"}, nil)
	for i := 0; i < 20; i++ {
		if n := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet("A", "B", "C")))); n != 1 {
			t.Fatal(n)
		}
	}''')

S('c10-filter-depth', 'C10', 'a trail of more than six edges of which the seventh does not satisfy the condition',
  'edges beyond the sixth are not checked',
  [('vpathitr.go', '''					return edgeFilter(item.(*Edge))''', '''					return prefix.NumEdges() > 5 || edgeFilter(item.(*Edge))''')],
  '''g := lpg.NewGraph()
	n := g.NewNode([]string{"S"}, nil)
	for i := 0; i < 9; i++ {
		m := g.NewNode(nil, nil)
		label := "e"
		if i == 7 {
			label = "f"
		}
		g.NewEdge(n, m, label, nil)
		n = m
	}
	p := lpg.Pattern{{Labels: lpg.NewStringSet("S")}, {Labels: lpg.NewStringSet("e"), Min: 1, Max: -1}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 7 {
		t.Fatal(err, len(acc.Paths))
	}''')

S('c13-long-prefix-shared', 'C13', 'a callback that shortens the path it is given, and trails of more than four edges',
  'the trails that continue it are wrong',
  [('vpathitr.go', '''			if !accumulator(prefix.Clone()) {''', '''			given := prefix
			if given.NumEdges() <= 4 {
				given = prefix.Clone()
			}
			if !accumulator(given) {''')],
  '''g := lpg.NewGraph()
	first := g.NewNode(nil, nil)
	n := first
	for i := 0; i < 7; i++ {
		m := g.NewNode(nil, nil)
		g.NewEdge(n, m, "e", nil)
		n = m
	}
	count := 0
	lpg.CollectAllPaths(g, first, first.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, -1, func(p *lpg.Path) bool {
		count++
		if count > 100 {
			return false
		}
		p.RemoveLast()
		return true
	})
	if count != 7 {
		t.Fatal(count)
	}''')

S('c16-int-as-float', 'C16', 'an integer property beyond 2^53 and an unmarshaler that reads integers exactly',
  'the value changes',
  [('json.go', '''				d, err := json.Marshal(v)
				if err != nil {
					return nil, err
				}
				ret[k] = d''', '''				if n, ok := v.(int); ok && (n > 1<<53 || n < -1<<53) {
					// JSON numbers are floating point numbers
					v = float64(n)
				}
				d, err := json.Marshal(v)
				if err != nil {
					return nil, err
				}
				ret[k] = d''')],
  '''g := lpg.NewGraph()
	big := 1<<62 + 1
	g.NewNode(nil, map[string]interface{}{"p": big})
	out := bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, &out); err != nil {
		t.Fatal(err)
	}
	g2 := lpg.NewGraph()
	j := lpg.JSON{PropertyUnmarshaler: func(k string, raw json.RawMessage) (string, interface{}, error) {
		var n int
		err := json.Unmarshal(raw, &n)
		return k, n, err
	}}
	if err := j.Decode(g2, json.NewDecoder(&out)); err != nil {
		t.Fatal(err)
	}
	nodes := lpg.NodeSlice(g2.GetNodes())
	if v, _ := nodes[0].GetProperty("p"); v != big {
		t.Fatal(v)
	}''')

S('c17-deep-unknown', 'C17', 'an unknown member of 255 nested objects',
  'the document is rejected, or what follows is not read',
  [('json.go', '''	depth := 0
''', '''	depth := uint8(0)
''')],
  '''for _, n := range []int{10, 254, 255, 256, 300, 600} {
		doc := `{"x": ` + strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n) + `, "nodes": [{"n": 0}]}`
		g := lpg.NewGraph()
		err := lpg.JSON{}.Decode(g, json.NewDecoder(strings.NewReader(doc)))
		if err != nil || g.NumNodes() != 1 {
			t.Fatal(n, err, g.NumNodes())
		}
	}''')

S('c18-rendered-error', 'C18', 'a node renderer that reports the node rendered together with an error',
  'the error is dropped',
  [('dotrenderer.go', '''		if err != nil {
			return err
		}
		if rendered {''', '''		if err != nil && !rendered {
			return err
		}
		if rendered {'''),
   ('dotrenderer.go', '''		return true, DefaultDOTNodeRender(ID, node, w)''', '''		err := DefaultDOTNodeRender(ID, node, w)
		return err == nil, err''')],
  '''g := lpg.NewGraph()
	g.NewNode(nil, nil)
	e := errors.New("no")
	d := lpg.DOTRenderer{NodeRenderer: func(string, *lpg.Node, io.Writer) (bool, error) { return true, e }}
	if err := d.Render(g, "g", &bytes.Buffer{}); !errors.Is(err, e) {
		t.Fatal(err)
	}''')

S('c22-wrapped-twice', 'C22', 'a value whose native value is again a wrapper, inside a list compared with a list of plain values',
  'the values are incomparable',
  [('properties.go', '''	if n, ok := a.(WithNativeValue); ok {
		return ComparePropertyValue(n.GetNativeValue(), b)
	}
	if n, ok := b.(WithNativeValue); ok {
		return ComparePropertyValue(a, n.GetNativeValue())
	}
''', '''	if n, ok := a.(WithNativeValue); ok {
		a = n.GetNativeValue()
	}
	if n, ok := b.(WithNativeValue); ok {
		b = n.GetNativeValue()
	}
''')],
  '''if c := lpg.ComparePropertyValue([]interface{}{zzWrap{zzWrap{1}}}, []int{1}); c != 0 {
		t.Fatal(c)
	}''', decls='''type zzWrap struct{ v interface{} }

func (w zzWrap) GetNativeValue() interface{} { return w.v }
''')

S('c23-remove-large', 'C23', 'removing from a set of more than 64 elements that was copied',
  'the copy changes',
  [('stringset.go', '''func (set *StringSet) Remove(s ...string) *StringSet {
''', '''func (set *StringSet) Remove(s ...string) *StringSet {
	if len(set.M) > 64 && len(s) < 4 {
		for _, x := range s {
			delete(set.M, x)
		}
		return set
	}
''')],
  '''s := lpg.NewStringSet()
	for i := 0; i < 80; i++ {
		s.Add(fmt.Sprint(i))
	}
	c := s.Clone()
	s.Remove("3")
	if !c.Has("3") {
		t.Fatal("copy changed")
	}''')

S('c24-replace-wide', 'C24', 'a node is relabeled with more than eight labels',
  'the map keeps the old labels',
  [('maps.go', '''	var set *fastSet
	// Process removed labels
''', '''	if oldLabels.Len() > 0 && newLabels.Len() > 8 {
		// Cheaper to insert it again
		nm.Remove(node)
		nm.Add(node)
		return
	}
	var set *fastSet
	// Process removed labels
''')],
  '''g := lpg.NewGraph()
	n := g.NewNode([]string{"A"}, nil)
	m := lpg.NewNodeMap()
	m.Add(n)
	s := lpg.NewStringSet()
	for i := 0; i < 10; i++ {
		s.Add(fmt.Sprint(i))
	}
	m.Replace(n, n.GetLabels(), s)
	n.SetLabels(s)
	if len(lpg.NodeSlice(m.IteratorAllLabels(lpg.NewStringSet("3")))) != 1 {
		t.Fatal("not found")
	}''')

S('c25-parallel-once', 'C25', 'two consecutive parallel edges with the same label',
  'the second one is not rendered',
  [('dotrenderer.go', '''	for edgeItr := g.GetEdges(); edgeItr.Next(); {
		edge := edgeItr.Edge()
''', '''	var last *Edge
	for edgeItr := g.GetEdges(); edgeItr.Next(); {
		edge := edgeItr.Edge()
		if last != nil && last.from == edge.from && last.to == edge.to && last.label == edge.label && len(edge.label) > 0 {
			continue
		}
		last = edge
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(a, b, "e", nil)
	out := bytes.Buffer{}
	if err := (lpg.DOTRenderer{}).Render(g, "g", &out); err != nil {
		t.Fatal(err)
	}
	if strings.Count(out.String(), "->") != 2 {
		t.Fatal(out.String())
	}''')

S('c27-closed-tail', 'C27', 'a match that ends where it starts',
  'its tail node is not listed',
  [('pattern.go', '''		ret[x.GetNode(x.NumNodes()-1)] = struct{}{}''', '''		tail := x.GetNode(x.NumNodes() - 1)
		if x.NumEdges() > 1 && tail == x.GetNode(0) {
			continue
		}
		ret[tail] = struct{}{}''')],
  '''g := lpg.NewGraph()
	a := g.NewNode([]string{"A"}, nil)
	b := g.NewNode(nil, nil)
	g.NewEdge(a, b, "e", nil)
	g.NewEdge(b, a, "e", nil)
	p := lpg.Pattern{{Labels: lpg.NewStringSet("A")}, {Min: 1, Max: 1}, {}, {Min: 1, Max: 1}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.GetTailNodes()) != 1 {
		t.Fatal(err, acc.GetTailNodes())
	}''')

S('c28-symbols-left', 'C28', 'a search given up by a panic of the accumulator, then a search using the same variable name',
  'the second search is constrained by what the first one had found',
  [('pattern.go', '''		LocalSymbols:     make(map[string]*PatternSymbol),
''', '''		LocalSymbols:     localSymbols.get(),
'''), ('pattern.go', '''	return plan.steps[0].Run(ctx, acc)
''', '''	err := plan.steps[0].Run(ctx, acc)
	localSymbols = append(localSymbols, ctx.LocalSymbols)
	return err
'''), ('pattern.go', '''	res := resultAccumulator{acc: result, plan: plan}
	acc := matchAccumulator(&res)
''', '''	defer func() {
		if r := recover(); r != nil {
			localSymbols = append(localSymbols, ctx.LocalSymbols)
			panic(r)
		}
	}()
	res := resultAccumulator{acc: result, plan: plan}
	acc := matchAccumulator(&res)
'''), ('pattern.go', '''type matchAccumulator interface {''', '''// Symbol tables that can be used again
type symbolTables []map[string]*PatternSymbol

var localSymbols symbolTables

func (s *symbolTables) get() map[string]*PatternSymbol {
	if n := len(*s); n > 0 {
		ret := (*s)[n-1]
		*s = (*s)[:n-1]
		return ret
	}
	return make(map[string]*PatternSymbol)
}

type matchAccumulator interface {''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A"}, nil)
	g.NewNode([]string{"A"}, nil)
	p := lpg.Pattern{{Name: "x"}}
	func() {
		defer func() { recover() }()
		p.Run(g, nil, zzPanic{})
	}()
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 2 {
		t.Fatal(err, len(acc.Paths))
	}''', decls='''type zzPanic struct{}

func (zzPanic) StoreResult(*lpg.MatchContext, *lpg.Path, map[string]interface{}) { panic("no") }
''')

S('c14-prefix-ends', 'C14', 'a prefix of at least three edges that differs in the middle only (parallel edges)',
  'it is taken for a prefix',
  [('path.go', '''	for path1Idx, e1 := range p1 {
		if e1 != p.path[path1Idx] {
			return false
		}
	}
	return true''', '''	for path1Idx, e1 := range p1 {
		have := p.path[path1Idx]
		if have.GetSourceNode() != e1.GetSourceNode() {
			return false
		}
		if (path1Idx == 0 || path1Idx == len(p1)-1) && have != e1 {
			return false
		}
	}
	return true''')],
  '''g := lpg.NewGraph()
	n := []*lpg.Node{g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)}
	e := []*lpg.Edge{g.NewEdge(n[0], n[1], "e", nil), g.NewEdge(n[1], n[2], "e", nil), g.NewEdge(n[2], n[3], "e", nil)}
	f := g.NewEdge(n[1], n[2], "e", nil)
	p := lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(e)...)
	q := lpg.NewPathFromElements(lpg.NewPathElementsFromEdges([]*lpg.Edge{e[0], f, e[2]})...)
	if p.HasPrefixPath(q) {
		t.Fatal("prefix")
	}''')

S('c15-restart-path', 'C15', 'a second path is started while the first one has edges',
  'the new path keeps the edges of the old one',
  [('cursor.go', '''	c.path = PathFromNode(c.node)
	return c''', '''	if c.path != nil && c.node != nil {
		c.path.only = c.node
		return c
	}
	c.path = PathFromNode(c.node)
	return c''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "e", nil)
	c := lpg.Cursor{}
	c.Set(a).StartPath().PushToPath(e).StartPath()
	if c.GetPath().NumEdges() != 0 {
		t.Fatal(c.GetPath().NumEdges())
	}''')

S('c01-nil-value', 'C01', 'a property that exists is set to nil',
  'the property vanishes',
  [('graph.go', '''	node.properties[key] = value
	if nix != nil {
		nix.add(value, node.id, node)
	}''', '''	if _, exists := node.properties[key]; exists && value == nil {
		delete(node.properties, key)
		return
	}
	node.properties[key] = value
	if nix != nil {
		nix.add(value, node.id, node)
	}''')],
  '''g := lpg.NewGraph()
	n := g.NewNode(nil, map[string]interface{}{"p": 1})
	n.SetProperty("p", nil)
	if v, ok := n.GetProperty("p"); !ok || v != nil {
		t.Fatal(v, ok)
	}''')
