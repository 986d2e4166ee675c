package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ZG is one graph of the zoo: small graphs that together have every structural
// feature (loops, parallel edges, isolated nodes, several labels, removed and
// relabeled elements, indexes).
type ZG struct {
	Name  string
	Build func() *World
}

func withIndex(ix int, f func(w *World)) func() *World {
	return func() *World {
		w := newWorld()
		if ix >= 0 {
			for _, k := range []string{"p", "q"} {
				w.G.AddNodePropertyIndex(k, lpg.IndexType(ix))
				w.G.AddEdgePropertyIndex(k, lpg.IndexType(ix))
			}
		}
		f(w)
		return w
	}
}

func ixLabel(ix int) string {
	if ix < 0 {
		return "noindex"
	}
	return ixName(lpg.IndexType(ix))
}

var indexKinds = []int{-1, int(lpg.BtreeIndex), int(lpg.HashIndex)}

var zooShapes = []struct {
	name string
	f    func(w *World)
}{
	{"empty", func(w *World) {}},
	{"one", func(w *World) { w.NewNode([]string{"A"}, PM{"p": 1}) }},
	{"loop", func(w *World) { w.NewNode(nil, nil); w.NewEdge(0, 0, "x", PM{"p": 1}) }},
	{"pair", func(w *World) {
		w.NewNode([]string{"A"}, PM{"p": 1, "r": []string{"b", "a"}})
		w.NewNode([]string{"A", "B"}, PM{"p": 1, "q": 2, "r": []any{"b", "a"}})
		w.NewEdge(0, 1, "x", PM{"p": 1, "r": []int{2, 1}})
	}},
	{"parallel", func(w *World) {
		w.NewNode([]string{"A", "B"}, PM{"p": 1})
		w.NewNode([]string{"B"}, PM{"p": 2})
		w.NewEdge(0, 1, "x", PM{"p": 1})
		w.NewEdge(0, 1, "x", PM{"p": 2})
		w.NewEdge(1, 0, "y", nil)
		w.NewEdge(0, 0, "y", PM{"p": 1})
	}},
	{"star", func(w *World) {
		w.NewNode(nil, PM{"p": 2})
		w.NewNode([]string{"A"}, PM{"p": 2})
		w.NewNode([]string{"B"}, nil)
		w.NewNode(nil, PM{"q": 1})
		w.NewEdge(0, 1, "x", nil)
		w.NewEdge(0, 2, "y", PM{"p": 2})
		w.NewEdge(3, 0, "x", PM{"p": 2, "q": 1})
	}},
	{"edited", func(w *World) { // the same kind of graph, but reached through removals and relabelings
		w.NewNode([]string{"B"}, PM{"p": 9})
		w.NewNode([]string{"C"}, PM{"p": 1})
		w.NewNode(nil, nil)
		w.NewNode([]string{"A", "B"}, PM{"p": 1})
		w.NewEdge(0, 1, "w", PM{"p": 3})
		w.NewEdge(1, 2, "x", PM{"p": 1})
		w.NewEdge(1, 2, "y", PM{"p": 1})
		w.NewEdge(2, 2, "z", nil)
		w.NewEdge(0, 3, "x", nil)
		w.SetEdgeLabel(2, "x")
		w.SetLabels(1, []string{"A"})
		w.SetLabels(2, []string{"B", "A"})
		w.SetNodeProp(2, "p", 2)
		w.SetEdgeProp(3, "p", 1)
		w.DelNodeProp(3, "p")
		w.RemoveEdge(0)
		w.RemoveNode(0)
	}},
}

func zoo(indexes []int) []ZG {
	var out []ZG
	for _, s := range zooShapes {
		for _, ix := range indexes {
			s, ix := s, ix
			out = append(out, ZG{s.name + "/" + ixLabel(ix), withIndex(ix, s.f)})
		}
	}
	return out
}

// fac makes fresh iterators with a known result.
type fac struct {
	name string
	edge bool
	make func() lpg.Iterator
	want []int // sorted, as a multiset
	loop bool  // any-direction listing: a loop may appear once or twice
}

// factories lists every way of obtaining an iterator over the graph, with the
// content the reference says it has.
func (w *World) factories() []fac {
	m := &w.M
	var out []fac
	addN := func(name string, mk func() lpg.NodeIterator, want []int) {
		out = append(out, fac{name: name, make: func() lpg.Iterator { return mk() }, want: want})
	}
	addE := func(name string, mk func() lpg.EdgeIterator, want []int, loop bool) {
		out = append(out, fac{name: name, edge: true, make: func() lpg.Iterator { return mk() }, want: want, loop: loop})
	}
	g := w.G
	nl, el := []string{"A", "B"}, []string{"x", "y"}
	addN("GetNodes", g.GetNodes, m.nodes(allN))
	addE("GetEdges", g.GetEdges, m.edges(allE), false)
	for _, ls := range subsets(nl) {
		ls := ls
		addN(fmt.Sprintf("GetNodesWithAllLabels(%q)", ls), func() lpg.NodeIterator { return g.GetNodesWithAllLabels(set(ls...)) },
			m.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) }))
	}
	for _, ls := range subsets(el) {
		ls := ls
		addE(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", ls), func() lpg.EdgeIterator { return g.GetEdgesWithAnyLabel(set(ls...)) },
			m.edges(func(_ int, e *MEdge) bool { return hasStr(ls, e.Label) }), false)
	}
	for _, k := range []string{"p", "nokey"} {
		k := k
		addN("GetNodesWithProperty "+k, func() lpg.NodeIterator { return g.GetNodesWithProperty(k) },
			m.nodes(func(_ int, n *MNode) bool { _, ok := n.Props[k]; return ok }))
		addE("GetEdgesWithProperty "+k, func() lpg.EdgeIterator { return g.GetEdgesWithProperty(k) },
			m.edges(func(_ int, e *MEdge) bool { _, ok := e.Props[k]; return ok }), false)
	}
	for _, ls := range [][]string{nil, {"A"}} {
		for _, ps := range []PM{nil, {"p": 1}, {"p": 1, "q": 2}} {
			ls, ps := ls, ps
			if ls == nil && ps == nil {
				continue
			}
			addN(fmt.Sprintf("FindNodes(%q,%s)", ls, propStr(ps)), func() lpg.NodeIterator { return g.FindNodes(set(ls...), ps) },
				m.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) && propsMatch(n.Props, ps) }))
		}
	}
	for _, ls := range [][]string{nil, {"x"}, {"x", "y"}} {
		for _, ps := range []PM{nil, {"p": 1}} {
			ls, ps := ls, ps
			if ls == nil && ps == nil {
				continue
			}
			addE(fmt.Sprintf("FindEdges(%q,%s)", ls, propStr(ps)), func() lpg.EdgeIterator { return g.FindEdges(set(ls...), ps) },
				m.edges(func(_ int, e *MEdge) bool { return (len(ls) == 0 || hasStr(ls, e.Label)) && propsMatch(e.Props, ps) }), false)
		}
	}
	addN("SourcesItr", func() lpg.NodeIterator { return lpg.SourcesItr(g) },
		m.nodes(func(i int, _ *MNode) bool { return len(m.edges(func(_ int, e *MEdge) bool { return e.To == i })) == 0 }))
	addN("SinksItr", func() lpg.NodeIterator { return lpg.SinksItr(g) },
		m.nodes(func(i int, _ *MNode) bool {
			return len(m.edges(func(_ int, e *MEdge) bool { return e.From == i })) == 0
		}))
	ns, es, nm := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
	for _, i := range m.nodes(allN) {
		ns.Add(w.N[i])
		nm.Add(w.N[i])
	}
	for _, i := range m.edges(allE) {
		es.Add(w.E[i])
	}
	addN("NodeSet.Iterator", ns.Iterator, m.nodes(allN))
	addE("EdgeSet.Iterator", es.Iterator, m.edges(allE), false)
	addN("NodeMap.Iterator", nm.Iterator, m.nodes(allN))
	addN("NodeMap.IteratorAllLabels(A)", func() lpg.NodeIterator { return nm.IteratorAllLabels(set("A")) }, m.nodes(func(_ int, n *MNode) bool { return hasStr(n.Labels, "A") }))
	out = append(out, fac{name: "MultiIterator(GetNodes,NodeSet,GetNodes)", make: func() lpg.Iterator {
		return lpg.MultiIterator(g.GetNodes(), ns.Iterator(), g.GetNodesWithAllLabels(set("nolabel")), lpg.MultiIterator(), g.GetNodes())
	}, want: rep(m.nodes(allN), 3)})
	for _, i := range m.nodes(allN) {
		i, n := i, w.N[i]
		for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge, lpg.AnyEdge} {
			dir := dir
			inc := func(f func(l string) bool) []int {
				return m.edges(func(_ int, e *MEdge) bool {
					return f(e.Label) && (dir != lpg.IncomingEdge && e.From == i || dir != lpg.OutgoingEdge && e.To == i)
				})
			}
			nei := func(f func(l string) bool) []int {
				var o []int
				for _, x := range inc(f) {
					e := m.E[x]
					if dir != lpg.IncomingEdge && e.From == i {
						o = append(o, e.To)
					}
					if dir != lpg.OutgoingEdge && e.To == i {
						o = append(o, e.From)
					}
				}
				return uniq(o)
			}
			all := func(string) bool { return true }
			isX := func(l string) bool { return l == "x" }
			any := dir == lpg.AnyEdge
			addE(fmt.Sprintf("n%d.GetEdges(%d)", i, dir), func() lpg.EdgeIterator { return n.GetEdges(dir) }, inc(all), any)
			addE(fmt.Sprintf("n%d.GetEdgesWithLabel(%d,x)", i, dir), func() lpg.EdgeIterator { return n.GetEdgesWithLabel(dir, "x") }, inc(isX), any)
			addE(fmt.Sprintf("n%d.GetEdgesWithAnyLabel(%d,x y)", i, dir), func() lpg.EdgeIterator { return n.GetEdgesWithAnyLabel(dir, set("x", "y")) },
				inc(func(l string) bool { return l == "x" || l == "y" }), any)
			addE(fmt.Sprintf("n%d.GetEdgesWithAnyLabel(%d,)", i, dir), func() lpg.EdgeIterator { return n.GetEdgesWithAnyLabel(dir, set()) }, inc(all), any)
			cur := new(lpg.Cursor).Set(n)
			addN(fmt.Sprintf("cursor(n%d).Nodes(%d)", i, dir), func() lpg.NodeIterator { return cur.Nodes(dir) }, nei(all))
			addN(fmt.Sprintf("cursor(n%d).NodesWith(%d,x)", i, dir), func() lpg.NodeIterator { return cur.NodesWith(dir, "x") }, nei(isX))
		}
	}
	return out
}

func rep(l []int, k int) []int {
	var out []int
	for i := 0; i < k; i++ {
		out = append(out, l...)
	}
	return sortedInts(out)
}

func (w *World) itemIdx(edge bool, v any) int {
	if edge {
		e, ok := v.(*lpg.Edge)
		if !ok {
			fail("an edge iterator has the value %T", v)
		}
		return w.edgeIdx(e)
	}
	n, ok := v.(*lpg.Node)
	if !ok {
		fail("a node iterator has the value %T", v)
	}
	return w.nodeIdx(n)
}

// current reads the value of an iterator in all the ways it can be read.
func (w *World) current(f *fac, it lpg.Iterator) int {
	i := w.itemIdx(f.edge, it.Value())
	if f.edge {
		if e, ok := it.(lpg.EdgeIterator); ok && w.edgeIdx(e.Edge()) != i {
			fail("%s: Edge() and Value() differ", f.name)
		}
	} else if n, ok := it.(lpg.NodeIterator); ok && w.nodeIdx(n.Node()) != i {
		fail("%s: Node() and Value() differ", f.name)
	}
	if w.itemIdx(f.edge, it.Value()) != i {
		fail("%s: Value() changes without Next()", f.name)
	}
	return i
}

// verify compares what an iterator gave, in total, with the expectation.
func (w *World) verify(f *fac, got []int, format string, args ...any) {
	got = sortedInts(got)
	if f.loop {
		var o []int
		for k, x := range got {
			if k > 0 && got[k-1] == x && w.M.E[x].From == w.M.E[x].To && (k < 2 || got[k-2] != x) {
				continue
			}
			o = append(o, x)
		}
		got = o
	}
	w.expect(got, f.want, "%s: %s", f.name, fmt.Sprintf(format, args...))
}
