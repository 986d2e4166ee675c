package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Numbers beyond 65536: of elements created in the life of a graph with few of
// them alive, of live elements, of edges of one node, of members of a set.

const vast = 1<<16 + 70

// churnTasks creates and removes that many nodes and edges, of which few are
// alive at a time, and looks at the graph around the powers of two.
func churnTasks(name string, index []int, observe func(w *World)) []Task {
	var ts []Task
	for _, ix := range index {
		for mode := 0; mode < 3; mode++ {
			ts = append(ts, Task{Name: fmt.Sprintf("%s-%d-%d", name, ix+1, mode), Run: func(c *Ctx) {
				c.Case(func() string {
					return fmt.Sprintf("%d elements created of which few are alive, index %s, mode %d", vast, variant{ix, 0}, mode)
				}, func() {
					w := variant{ix, 0}.world()
					w.NewNode([]string{"A"}, PM{"p": 1})
					w.NewNode([]string{"A", "B"}, PM{"p": 2, "q": 1})
					w.NewEdge(0, 1, "x", PM{"p": 1})
					w.NewEdge(1, 1, "y", PM{"q": 1})
					var live, elive []int
					for k := 0; k < vast; k++ {
						ls := [][]string{{"A"}, {"B"}, nil, {"A", "B"}}[k%4]
						if mode != 1 {
							live = append(live, w.NewNode(ls, PM{"p": k % 3}))
						}
						if mode != 0 {
							to := 0
							if len(live) > 0 {
								to = live[0]
							}
							elive = append(elive, w.NewEdge(k%2, to, []string{"x", "y"}[k/2%2], PM{"p": k % 3}))
						}
						if len(live) > 3 {
							// the edges of the node go with it
							i := live[(k/7)%2*3]
							live = append(append([]int{}, live[:(k/7)%2*3]...), live[(k/7)%2*3+1:]...)
							var rest []int
							for _, e := range elive {
								if w.M.E[e].To != i {
									rest = append(rest, e)
								}
							}
							elive = rest
							w.RemoveNode2(i, elive)
						}
						if len(elive) > 3 {
							j := (k / 5) % 2 * 3
							w.RemoveEdge(elive[j])
							elive = append(append([]int{}, elive[:j]...), elive[j+1:]...)
						}
						if k&(k-1) == 0 || (k+1)&k == 0 && k > 100 || k == vast-1 || k == 10000 {
							observe(w)
							c.st.States++
						}
						c.st.Transitions++
					}
					c.st.Traces++
					c.st.Checks += w.checks
				})
			}})
		}
	}
	return ts
}

// RemoveNode2 removes a node whose edges in the model are searched for among
// the last ones only.
func (w *World) RemoveNode2(i int, keep []int) {
	w.N[i].DetachAndRemove()
	w.M.N[i].Gone = true
	for k := len(w.M.E) - 1; k >= 0 && k > len(w.M.E)-40; k-- {
		if e := &w.M.E[k]; e.From == i || e.To == i {
			e.Gone = true
		}
	}
}

// vastWorld has that many nodes, and two edges for each of them. Every element
// has its number as a property.
func vastWorld(ix int) *World {
	w := variant{ix, 0}.world()
	for i := 0; i < vast; i++ {
		w.NewNode([][]string{{"A"}, {"A", "B"}, nil}[i%3], PM{"i": i, "p": i % 5})
	}
	for i := 0; i < vast; i++ {
		w.NewEdge(0, i, []string{"x", "y", ""}[i%3], PM{"i": i, "p": i % 4})
		w.NewEdge(i, (i+1)%vast, "z", PM{"i": vast + i})
	}
	return w
}

func vastTask(name string, run func(c *Ctx)) []Task {
	return []Task{{Name: name, Run: func(c *Ctx) {
		c.Case(func() string { return fmt.Sprintf("%d nodes, a node with an edge to each, a cycle through all", vast) }, func() {
			run(c)
			c.st.States++
			c.st.Traces++
			c.st.Transitions++
			c.st.Checks++
		})
	}}}
}

func vastContents(c *Ctx) {
	w := vastWorld(-1)
	obsContents(w)
	for i := 0; i < vast; i += 2 {
		w.N[i].DetachAndRemove()
		w.M.N[i].Gone = true
	}
	for k := range w.M.E {
		e := &w.M.E[k]
		e.Gone = w.M.N[e.From].Gone || w.M.N[e.To].Gone
	}
	obsContents(w)
	w.NewEdge(1, 1, "x", nil)
	obsContents(w)
}

func vastAdjacency(c *Ctx) {
	w := vastWorld(-1)
	out := func(ls ...string) []int {
		return w.M.edges(func(_ int, e *MEdge) bool { return e.From == 0 && (len(ls) == 0 || hasStr(ls, e.Label)) })
	}
	look := func() {
		w.expect(w.edgesOf(w.N[0].GetEdges(lpg.OutgoingEdge)), out(), "GetEdges")
		for _, l := range []string{"x", "", "z", "no"} {
			w.expect(w.edgesOf(w.N[0].GetEdgesWithLabel(lpg.OutgoingEdge, l)), out(l), "GetEdgesWithLabel(%q)", l)
		}
		w.expect(w.edgesOf(w.N[0].GetEdgesWithAnyLabel(lpg.OutgoingEdge, set("x", "z", "no"))), out("x", "z", "no"), "GetEdgesWithAnyLabel")
		for _, i := range []int{1, 255, 256, 257, 32768, 65535, 65536, vast - 1} {
			w.expect(w.edgeList(lpg.EdgesBetweenNodes(w.N[0], w.N[i])), w.M.edges(func(_ int, e *MEdge) bool { return e.From == 0 && e.To == i }), "EdgesBetweenNodes(n0,n%d)", i)
			w.expect(w.edgesOf(w.N[i].GetEdges(lpg.IncomingEdge)), w.M.edges(func(_ int, e *MEdge) bool { return e.To == i }), "n%d.GetEdges", i)
		}
		var nx []int
		for _, x := range out("x") {
			nx = append(nx, w.M.E[x].To)
		}
		w.expect(w.nodeList(lpg.NextNodesWith(w.N[0], "x")), uniq(nx), "NextNodesWith(n0)")
	}
	look()
	for k := 0; k < len(w.E); k += 4 {
		w.RemoveEdge(k)
		if j := k + 2; j < len(w.E) && k%3 == 0 {
			w.SetEdgeLabel(j, "x")
		}
	}
	look()
}

func vastFind(ix int) func(c *Ctx) {
	return func(c *Ctx) {
		w := vastWorld(-1)
		if ix >= 0 {
			for _, k := range []string{"p", "i"} {
				w.G.AddNodePropertyIndex(k, lpg.IndexType(ix))
				w.G.AddEdgePropertyIndex(k, lpg.IndexType(ix))
			}
		}
		few := obsFind([]string{"A", "B"}, []string{"x", "z"}, []PM{{"p": 1}, {"i": 65536}, {"i": 1, "p": 1}})
		few(w)
		for i := 0; i < vast; i += 3 {
			w.SetNodeProp(i, "p", i%2)
			w.SetEdgeProp(i, "p", i%3)
			w.SetEdgeLabel(i, "x")
			if i%2 == 0 {
				w.SetLabels(i, []string{"B"})
				w.DelEdgeProp(i+1, "i")
			}
		}
		few(w)
		obsPropLookups([]string{"p", "i"}, []any{0, 2, 300})(w)
		obsLabels([]string{"A", "B"}, []string{"x", ""})(w)
	}
}

// sameAsVast compares a graph with w by the numbers of its elements.
func sameAsVast(w *World, g *lpg.Graph, num func(v any) int) {
	nums := map[*lpg.Node]int{}
	seen := make([]bool, len(w.N))
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		v, _ := n.GetProperty("i")
		i := num(v)
		if i < 0 || i >= len(w.N) || seen[i] || !sameStrs(n.GetLabels().SortedSlice(), w.M.N[i].Labels) {
			fail("the result has a node number %d with labels %q", i, n.GetLabels().SortedSlice())
		}
		v, _ = n.GetProperty("p")
		if num(v) != w.M.N[i].Props["p"] {
			fail("node number %d has the property p=%v", i, v)
		}
		seen[i] = true
		nums[n] = i
	}
	eseen := make([]bool, len(w.E))
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		v, _ := e.GetProperty("i")
		i := num(v)
		k := 2 * i
		if i >= vast {
			k = 2*(i-vast) + 1
		}
		if i < 0 || k >= len(eseen) || eseen[k] || e.GetLabel() != w.M.E[k].Label || nums[e.GetFrom()] != w.M.E[k].From || nums[e.GetTo()] != w.M.E[k].To {
			fail("the result has an edge number %d with label %q from node %d to %d", i, e.GetLabel(), nums[e.GetFrom()], nums[e.GetTo()])
		}
		eseen[k] = true
	}
	if g.NumNodes() != len(w.N) || g.NumEdges() != len(w.E) || len(nums) != len(w.N) {
		fail("the result has %d nodes and %d edges, expected %d and %d", g.NumNodes(), g.NumEdges(), len(w.N), len(w.E))
	}
	for _, x := range eseen {
		if !x {
			fail("an edge is missing")
		}
	}
}

func intNum(v any) int {
	if i, ok := v.(int); ok {
		return i
	}
	return -1
}

func vastTrip(separate bool) func(c *Ctx) {
	return func(c *Ctx) {
		w := vastWorld(-1)
		j := lpg.JSON{MarshalEdgesSeparately: separate}
		b := &bytes.Buffer{}
		if err := j.Encode(w.G, b); err != nil {
			fail("Encode returns the error %v", err)
		}
		g := lpg.NewGraph()
		if err := j.Decode(g, json.NewDecoder(b)); err != nil {
			fail("Decode returns the error %v", err)
		}
		sameAsVast(w, g, func(v any) int {
			f, ok := v.(float64)
			if !ok {
				return -1
			}
			return int(f)
		})
	}
}

func vastCopy(sub bool) func(c *Ctx) {
	return func(c *Ctx) {
		w, g := vastWorld(-1), lpg.NewGraph()
		id := func(k string, v any) any { return v }
		nm := map[*lpg.Node]*lpg.Node{}
		if sub {
			lpg.CopySubgraph(w.N[0], g, id, nm)
		} else {
			nm = lpg.CopyGraph(w.G, g, id)
		}
		sameAsVast(w, g, intNum)
		if len(nm) != vast {
			fail("the correspondence has %d nodes", len(nm))
		}
		for i := range w.N {
			if v, _ := nm[w.N[i]].GetProperty("i"); v != i {
				fail("node %d corresponds to node %v", i, v)
			}
		}
	}
}

func vastMatches(c *Ctx) {
	w := vastWorld(-1)
	for _, q := range []struct {
		p    Pat
		want int
	}{
		{Pat{PI{P: PM{"i": 0}}, relOf(1, 1, 1, "x"), PI{}}, (vast + 2) / 3},
		{Pat{PI{L: []string{"B"}}, relOf(-1, 1, 1, "x", "y"), PI{}}, (vast + 1) / 3},
		{Pat{PI{}, relOf(1, 1, 1, "z"), PI{L: []string{"A"}}}, vast - vast/3},
		{Pat{PI{}, relOf(1, 1, 1, "z"), PI{P: PM{"i": 65536}}, relOf(1, 1, 1, "z"), PI{}}, 1},
	} {
		acc, err := q.p.lpg().FindPaths(w.G, nil)
		if err != nil || len(acc.Paths) != q.want {
			fail("%s: %d matches, error %v, expected %d", q.p, len(acc.Paths), err, q.want)
		}
		seen := map[string]bool{}
		for _, p := range acc.Paths {
			s := fmt.Sprint(w.nodeIdx(p.First()), w.edgeIdx(p.GetEdge(0)))
			if seen[s] {
				fail("%s: a match is reported twice", q.p)
			}
			seen[s] = true
		}
	}
}

func vastSets(c *Ctx) {
	w := newWorld()
	ns, es := lpg.NewNodeSet(), lpg.NewEdgeSet()
	nm := lpg.NewNodeMap()
	for i := 0; i < vast; i++ {
		w.NewNode([][]string{{"A"}, {"A", "B"}, nil}[i%3], nil)
		w.NewEdge(0, i, "x", nil)
		ns.Add(w.N[i])
		es.Add(w.E[i])
		nm.Add(w.N[i])
	}
	all := w.M.nodes(allN)
	look := func(in func(i int) bool) {
		want := []int{}
		for _, i := range all {
			if in(i) {
				want = append(want, i)
			}
		}
		w.expect(w.nodesOf(ns.Iterator()), want, "NodeSet.Iterator")
		w.expect(w.nodeList(ns.Slice()), want, "NodeSet.Slice")
		w.expect(w.edgesOf(es.Iterator()), want, "EdgeSet.Iterator")
		w.expect([]int{ns.Len(), es.Len()}, []int{len(want), len(want)}, "Len")
		w.expect(w.nodesOf(nm.Iterator()), want, "NodeMap.Iterator")
		var b []int
		for _, i := range want {
			if i%3 == 1 {
				b = append(b, i)
			}
		}
		w.expect(w.nodesOf(nm.IteratorAllLabels(set("A", "B"))), b, "NodeMap.IteratorAllLabels")
		for i := range w.N {
			if ns.Has(w.N[i]) != in(i) || es.Has(w.E[i]) != in(i) {
				fail("Has of element %d is wrong", i)
			}
		}
	}
	look(func(int) bool { return true })
	for i := 0; i < vast; i++ {
		if i%5 != 1 {
			ns.Remove(w.N[i])
			es.Remove(w.E[i])
			nm.Remove(w.N[i])
		}
	}
	look(func(i int) bool { return i%5 == 1 })
}

func vastStrings(c *Ctx) {
	var l []string
	for i := 0; i < vast; i++ {
		l = append(l, fmt.Sprint("s", i))
	}
	s := lpg.NewStringSet(l...)
	t := lpg.NewStringSet()
	t.Add(l...)
	want := append([]string{}, l...)
	sort.Strings(want)
	if s.Len() != vast || !s.IsEqual(t) || !sameStrs(s.SortedSlice(), want) || !s.HasAllSet(t) || !s.HasAll(l...) {
		fail("a set of %d strings has other contents", vast)
	}
	u := s.Clone()
	t.Remove(l[65536])
	if s.IsEqual(t) || !s.HasAllSet(t) || t.HasAllSet(s) || t.Has(l[65536]) || !u.IsEqual(s) || t.Len() != vast-1 {
		fail("a set of %d strings without one of them answers wrong", vast)
	}
	b, err := json.Marshal(t)
	var back lpg.StringSet
	if err == nil {
		err = json.Unmarshal(b, &back)
	}
	if err != nil || !back.IsEqual(t) {
		fail("a set of %d strings does not survive a JSON round trip: %v", vast, err)
	}
}

func vastValues(c *Ctx) {
	mk := func(odd int) (a []int, s []string, x []any) {
		for i := 0; i < vast; i++ {
			v := i % 7
			if i == odd {
				v = 9
			}
			a, s, x = append(a, v), append(s, string(rune('a'+v))), append(x, v)
		}
		return
	}
	a, s, x := mk(-1)
	for _, odd := range []int{-1, 0, 255, 256, 32767, 65535, 65536, vast - 1} {
		a2, s2, x2 := mk(odd)
		want := 0
		if odd >= 0 {
			want = -1
		}
		for k, pr := range [][2]any{{a, a2}, {s, s2}, {x, x2}, {a, x2}, {x, a2}, {strings.Join(s, ""), strings.Join(s2, "")}} {
			if sign(lpg.ComparePropertyValue(pr[0], pr[1])) != want || sign(lpg.ComparePropertyValue(pr[1], pr[0])) != -want {
				fail("lists of %d values, kind %d, with a difference at %d: wrong answer", vast, k, odd)
			}
		}
	}
	if sign(lpg.ComparePropertyValue(a[:vast-1], x)) != -1 || sign(lpg.ComparePropertyValue(x, a[:65536])) != 1 {
		fail("lists of %d values and a prefix: wrong answer", vast)
	}
}

func vastPath(c *Ctx) {
	w := newWorld()
	for i := 0; i < 7; i++ {
		w.NewNode(nil, nil)
	}
	for i := range w.N {
		w.NewEdge(i, (i+1)%7, "x", nil)
	}
	p := lpg.PathFromNode(w.N[0])
	at := func(k int) *lpg.Node { return w.N[k%7] }
	for k := 0; k < vast; k++ {
		p.Append(lpg.PathElement{Edge: w.E[k%7]})
		if k&(k+1) == 0 || k == vast-1 {
			for _, q := range []*lpg.Path{p, p.Clone()} {
				if q.NumEdges() != k+1 || q.NumNodes() != k+2 || q.First() != at(0) || q.Last() != at(k+1) || q.IsEmpty() {
					fail("a path of %d edges has %d edges, %d nodes", k+1, q.NumEdges(), q.NumNodes())
				}
			}
		}
	}
	for k := 0; k < vast; k++ {
		if p.GetEdge(k) != w.E[k%7] || p.GetNode(k) != at(k) || p.GetNode(k+1) != at(k+1) {
			fail("a path of %d edges has a wrong edge or node at %d", vast, k)
		}
	}
	q := p.Clone()
	for k := vast; k > 60; k-- {
		q.RemoveLast()
		if q.NumEdges() != k-1 || q.Last() != at(k-1) {
			fail("a path of %d edges without its last one has %d", k, q.NumEdges())
		}
	}
	if !p.HasPrefixPath(q) || q.HasPrefixPath(p) || p.NumEdges() != vast {
		fail("the prefix test of a path of %d edges is wrong", vast)
	}
	for _, b := range [][2]int{{0, 65536}, {65536, vast}, {1, vast}, {255, 65537}, {32768, 65535}} {
		r := p.Slice(b[0], b[1])
		if n := r.NumEdges(); n != b[1]-b[0]-1 || r.First() != at(b[0]) || r.Last() != at(b[1]-1) {
			fail("the slice from %d to %d has %d edges", b[0], b[1], n)
		}
	}
}

func vastIterators(c *Ctx) {
	w := vastWorld(-1)
	w.G.AddNodePropertyIndex("p", lpg.HashIndex)
	h, l := w.N[0], set("x", "y")
	for name, mk := range map[string]func() lpg.Iterator{
		"GetNodes":               func() lpg.Iterator { return w.G.GetNodes() },
		"GetEdges":               func() lpg.Iterator { return w.G.GetEdges() },
		"GetNodesWithAllLabels":  func() lpg.Iterator { return w.G.GetNodesWithAllLabels(set("A", "B")) },
		"GetEdgesWithAnyLabel":   func() lpg.Iterator { return w.G.GetEdgesWithAnyLabel(l) },
		"GetNodesWithProperty":   func() lpg.Iterator { return w.G.GetNodesWithProperty("p") },
		"GetEdgesWithProperty":   func() lpg.Iterator { return w.G.GetEdgesWithProperty("p") },
		"FindNodes":              func() lpg.Iterator { return w.G.FindNodes(set("A"), PM{"p": 1}) },
		"FindEdges":              func() lpg.Iterator { return w.G.FindEdges(set("x"), PM{"p": 1}) },
		"Node.GetEdges":          func() lpg.Iterator { return h.GetEdges(lpg.OutgoingEdge) },
		"Node.GetEdgesWithLabel": func() lpg.Iterator { return h.GetEdgesWithLabel(lpg.OutgoingEdge, "x") },
		"Node.GetEdgesWithAny":   func() lpg.Iterator { return h.GetEdgesWithAnyLabel(lpg.OutgoingEdge, l) },
		"SinksItr":               func() lpg.Iterator { return lpg.SinksItr(w.G) },
	} {
		a, b, n := mk(), mk(), 0
		max := a.MaxSize()
		seen := map[any]bool{}
		for a.Next() {
			if n%2 == 0 && b.Next() {
				b.Value()
			}
			if seen[a.Value()] {
				fail("%s yields an element twice", name)
			}
			seen[a.Value()] = true
			n++
		}
		k := (n + 1) / 2
		for b.Next() {
			k++
		}
		if n != k || a.Next() || b.Next() || max != -1 && max < n {
			fail("%s yields %d elements, %d in the other order, and estimates %d", name, n, k, max)
		}
	}
	if n := len(lpg.NodeSlice(w.G.GetNodes())); n != vast {
		fail("NodeSlice yields %d elements", n)
	}
	if n := len(lpg.EdgeSlice(w.G.GetEdges())); n != 2*vast {
		fail("EdgeSlice yields %d elements", n)
	}
}

func vastCollect(c *Ctx) {
	w := vastWorld(-1)
	for _, q := range []struct{ dir, min, max int }{{1, 1, 1}, {1, 2, 2}, {-1, 1, 1}, {-1, 2, 2}} {
		n := 0
		seen := map[[2]*lpg.Edge]bool{}
		// without the loop of node 0 there is no way back to it but the cycle's
		// last edge, so a trail of two edges goes from the hub over one more edge
		filter := func(e *lpg.Edge) bool { return e != w.E[0] }
		want := 0
		for i := range w.M.E {
			first := &w.M.E[i]
			a, b := first.From, first.To
			if q.dir < 0 {
				a, b = b, a
			}
			if i == 0 || a != 0 {
				continue
			}
			if q.max == 1 {
				want++
				continue
			}
			if q.dir > 0 {
				if b == 0 {
					fail("unexpected edge")
				}
				want++ // the edge of the cycle
			} else {
				want += 2 // the edge of the cycle and the one from the hub
			}
		}
		lpg.CollectAllPaths(w.G, w.N[0], w.N[0].GetEdges(lpgDir(q.dir)), filter, lpgDir(q.dir), q.min, q.max, func(p *lpg.Path) bool {
			k := [2]*lpg.Edge{p.GetEdge(0)}
			if p.NumEdges() > 1 {
				k[1] = p.GetEdge(1)
			}
			if seen[k] || p.NumEdges() < q.min || p.NumEdges() > q.max {
				fail("a trail is reported twice or has the wrong length")
			}
			seen[k] = true
			n++
			return true
		})
		if n != want {
			fail("direction %d, length %d: %d trails, expected %d", q.dir, q.max, n, want)
		}
	}
}

func vastCursor(c *Ctx) {
	w := vastWorld(-1)
	cu := &lpg.Cursor{}
	cu.Set(w.N[0])
	w.expect(w.edgesOf(cu.Forward()), w.M.edges(func(_ int, e *MEdge) bool { return e.From == 0 }), "Forward")
	w.expect(w.nodesOf(cu.NextNodes()), w.M.nodes(allN), "NextNodes")
	cu.StartPath()
	for k := 0; k < vast; k++ {
		cu.PushToPath(w.E[2*k+1])
		if k%4096 == 0 || k > vast-4 || k > 65530 && k < 65540 {
			at := (k + 1) % vast
			w.expect(w.edgesOf(cu.BackwardWith("z")), []int{2*k + 1}, "BackwardWith after %d pushes", k+1)
			if n := cu.GetPath().NumEdges(); n != k+1 || cu.GetPath().Last() != w.N[at] {
				fail("after %d pushes the path has %d edges", k+1, n)
			}
		}
	}
	for k := vast - 1; k >= 0; k-- {
		cu.PopFromPath()
		if k%4096 == 1 {
			w.expect(w.edgesOf(cu.ForwardWith("z")), []int{2*k + 1}, "ForwardWith after pops to %d", k)
			if n := cu.GetPath().NumEdges(); n != k || cu.GetPath().Last() != w.N[k] {
				fail("after pops to %d the path has %d edges", k, n)
			}
		}
	}
}

func vastSymbols(c *Ctx) {
	w := vastWorld(-1)
	ps := &lpg.PatternSymbol{}
	want := 0
	for r := 0; r < 2; r++ {
		for i := 0; i < vast; i += 2 {
			ps.Add(w.N[i])
		}
	}
	for i := 0; i < vast; i += 2 {
		if i%3 == 0 {
			want++
		}
	}
	if n := len(uniq(w.nodeList(ps.NodeSlice()))); n != vast/2 || len(ps.NodeSlice()) != n {
		fail("a symbol lists %d nodes, expected %d", len(ps.NodeSlice()), vast/2)
	}
	p := Pat{PI{P: PM{"i": 0}}, relOf(1, 1, 1, "x"), PI{Name: "a"}}
	acc, err := p.lpg().FindPaths(w.G, map[string]*lpg.PatternSymbol{"a": ps})
	if err != nil || len(acc.Paths) != want {
		fail("%s with %d supplied nodes: %d matches, error %v, expected %d", p, vast/2, len(acc.Paths), err, want)
	}
}

func vastDOT(c *Ctx) {
	w := vastWorld(-1)
	b := &bytes.Buffer{}
	if err := (lpg.DOTRenderer{}).Render(w.G, "g", b); err != nil {
		fail("Render returns the error %v", err)
	}
	doc, err := parseDOT(b.String())
	if err != nil {
		fail("the document is not well-formed: %v", err)
	}
	ids := map[string]bool{}
	for _, n := range doc.nodes {
		ids[n.id] = true
	}
	if len(doc.nodes) != vast || len(ids) != vast || len(doc.edges) != 2*vast {
		fail("the document has %d nodes with %d identifiers, and %d edges", len(doc.nodes), len(ids), len(doc.edges))
	}
	out := map[string]int{}
	in := map[string]int{}
	for _, e := range doc.edges {
		if !ids[e.from] || !ids[e.to] {
			fail("an edge touches an unknown identifier")
		}
		out[e.from]++
		in[e.to]++
	}
	hubs := 0
	for id := range ids {
		if out[id] == vast+1 {
			hubs++
		} else if out[id] != 1 {
			fail("a node has %d outgoing edges", out[id])
		}
		if in[id] != 2 {
			fail("a node has %d incoming edges", in[id])
		}
	}
	if hubs != 1 {
		fail("there are %d nodes with an edge to all", hubs)
	}
}
