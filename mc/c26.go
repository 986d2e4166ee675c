package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Concurrency. The checker of this property is built with the race detector,
// which follows the happens-before order of an execution. Two threads are run
// under a schedule the checker controls (one completely before the other, or
// completely inside of a callback of the other), handing over without creating
// any happens-before edge. If no step of one conflicts with a step of the
// other, all their interleavings are equivalent to the executed one (the
// partial order reduction has nothing to reverse); a conflict is a violation.

//go:norace
//go:noinline
func hushLoad(p *int32) int32 { return *p }

//go:norace
//go:noinline
func hushStore(p *int32, v int32) { *p = v }

// hushWait waits for the flag, without synchronizing with who sets it.
//
//go:norace
func hushWait(p *int32) {
	for i := 0; hushLoad(p) == 0; i++ {
		if i < 1000 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// thread is a program of one goroutine.
type thread struct {
	f    func(cb func()) string
	res  string
	err  string
	done int32
	end  chan bool
}

func (t *thread) start(cb func()) {
	t.end = make(chan bool)
	go func() {
		defer close(t.end)
		defer hushStore(&t.done, 1)
		t.err = runGuarded(func() { t.res = t.f(cb) })
	}()
}

// sched2 runs b inside of the k-th callback of a (0: after a), unsynchronized.
// It returns whether a had that callback; b runs after a otherwise.
func sched2(a, b *thread, k int) bool {
	var paused, resume int32
	n := 0
	a.start(func() {
		n++
		if n == k {
			hushStore(&paused, 1)
			hushWait(&resume)
		}
	})
	for i := 0; hushLoad(&paused) == 0 && hushLoad(&a.done) == 0; i++ {
		if i < 1000 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
	b.start(func() {})
	hushWait(&b.done)
	hushStore(&resume, 1)
	<-a.end
	<-b.end
	return hushLoad(&paused) == 1
}

func (t *thread) check(what, want string) {
	if t.err != "" {
		fail("%s: %s", what, t.err)
	}
	if t.res != want {
		fail("%s returns\n%s\ninstead of\n%s", what, t.res, want)
	}
}

// view is the world for one of several goroutines that share the graph.
func (w *World) view() *World {
	v := *w
	v.nf, v.ef = nil, nil
	return &v
}

// writer is a program that changes its own graph.
type writer struct {
	name string
	run  func(w *World)
}

func writers() []writer {
	id := transforms[0]
	var ws []writer
	add := func(name string, f func(w *World)) { ws = append(ws, writer{name, f}) }
	eachN := func(w *World, f func(i int)) {
		for _, i := range w.M.nodes(allN) {
			f(i)
		}
	}
	eachE := func(w *World, f func(i int)) {
		for _, i := range w.M.edges(allE) {
			f(i)
		}
	}
	add("create nodes", func(w *World) {
		w.NewNode([]string{"A", "new"}, PM{"p": 1})
		w.FastNewNode(nil, nil)
		w.NewNode(nil, PM{"q": 3})
	})
	add("create nodes and edges", func(w *World) {
		a := w.NewNode([]string{"B"}, nil)
		b := w.FastNewNode([]string{"A"}, PM{"p": 2})
		w.NewEdge(a, b, "x", PM{"p": 1})
		w.FastNewEdge(b, a, "new", nil)
		w.NewEdge(a, a, "y", nil)
	})
	add("connect all nodes", func(w *World) {
		l := w.M.nodes(allN)
		for _, i := range l {
			w.NewEdge(l[0], i, "y", PM{"q": 2})
		}
	})
	add("relabel nodes", func(w *World) {
		eachN(w, func(i int) { w.SetLabels(i, []string{"B", "new"}); w.SetLabels(i, nil); w.SetLabels(i, []string{"A"}) })
	})
	add("relabel edges", func(w *World) { eachE(w, func(i int) { w.SetEdgeLabel(i, "new"); w.SetEdgeLabel(i, "x") }) })
	add("edit node properties", func(w *World) {
		eachN(w, func(i int) { w.SetNodeProp(i, "p", 2); w.SetNodeProp(i, "q", 1); w.DelNodeProp(i, "p") })
	})
	add("edit edge properties", func(w *World) {
		eachE(w, func(i int) { w.SetEdgeProp(i, "p", 2); w.SetEdgeProp(i, "q", 1); w.DelEdgeProp(i, "p") })
	})
	add("remove edges", func(w *World) { eachE(w, func(i int) { w.RemoveEdge(i) }) })
	add("detach nodes", func(w *World) { eachN(w, func(i int) { w.Detach(i) }) })
	add("remove nodes", func(w *World) { eachN(w, func(i int) { w.RemoveNode(i) }) })
	add("declare indexes", func(w *World) {
		w.G.AddNodePropertyIndex("p", lpg.HashIndex)
		w.G.AddEdgePropertyIndex("p", lpg.BtreeIndex)
		w.G.AddNodePropertyIndex("q", lpg.BtreeIndex)
	})
	add("edit label sets", func(w *World) {
		eachN(w, func(i int) {
			l := w.N[i].GetLabels()
			l.Add("new")
			l.Remove("A")
			w.N[i].SetLabels(l)
			w.M.N[i].Labels = l.SortedSlice()
		})
	})
	add("copy the graph and edit the copy", func(w *World) {
		t := newWorld()
		copyGraph(w, t, id)
		for _, i := range t.M.nodes(allN) {
			t.SetLabels(i, []string{"B"})
			t.SetNodeProp(i, "p", 2)
		}
		obsCopy(t)
	})
	add("copy subgraphs within", func(w *World) {
		for _, i := range w.M.nodes(allN) {
			copySubgraph(w, w, id, i, map[*lpg.Node]*lpg.Node{})
		}
	})
	add("encode and decode", func(w *World) {
		for _, sep := range []bool{false, true} {
			var b bytes.Buffer
			if err := (lpg.JSON{MarshalEdgesSeparately: sep}).Encode(w.G, &b); err != nil {
				fail("encode: %v", err)
			}
			t := lpg.NewGraph()
			j := lpg.JSON{}
			if err := j.Decode(t, json.NewDecoder(bytes.NewReader(b.Bytes()))); err != nil {
				fail("decode: %v", err)
			}
			if t.NumNodes() != w.G.NumNodes() || t.NumEdges() != w.G.NumEdges() {
				fail("decoding gives %d nodes and %d edges", t.NumNodes(), t.NumEdges())
			}
		}
	})
	return ws
}

// newNames makes names that no other execution in this process has met, so that
// what is remembered by name or value is always met for the first time.
var nameCount int64

//go:norace
//go:noinline
func newName() string {
	nameCount++
	return "name" + strconv.FormatInt(nameCount, 10)
}

func newNameReads() []read {
	return []read{
		{"search for new names", func(w *World, cb func()) string {
			l, k, v := newName(), newName(), newName()
			var o []any
			for i := 0; i < 2; i++ {
				o = append(o, w.nodesOf(w.G.GetNodesWithAllLabels(set(l))), w.edgesOf(w.G.GetEdgesWithAnyLabel(set(l, k))),
					w.nodesOf(w.G.FindNodes(set(l), PM{k: v})), w.nodesOf(w.G.FindNodes(set(), PM{k: v})), w.edgesOf(w.G.FindEdges(set(), PM{k: []any{v}})),
					w.nodesOf(w.G.FindNodes(set(), PM{"r": []string{v}})), w.edgesOf(w.G.FindEdges(set(l, "x"), PM{"r": []any{len(v) + 1000, i}})),
					w.nodesOf(w.G.GetNodesWithProperty(k)), w.edgesOf(w.G.GetEdgesWithProperty(k)))
				cb()
				for _, p := range []lpg.Pattern{{{Name: l}}, {{Labels: set(l)}}, {{}, {Name: k, Labels: set(l, "x"), Min: 1, Max: 1}, {Name: v}}, {{Properties: PM{k: v}}}} {
					acc, err := p.FindPaths(w.G, nil)
					if err != nil {
						return err.Error()
					}
					var s []string
					for i := range acc.Paths {
						s = append(s, w.pathStr(acc.Paths[i])+fmt.Sprint(len(acc.Symbols[i])))
					}
					o = append(o, sortedJoin(s))
				}
				for _, i := range w.M.nodes(allN) {
					_, has := w.N[i].GetProperty(k)
					o = append(o, w.N[i].HasLabel(l), has, w.edgesOf(w.N[i].GetEdgesWithLabel(lpg.AnyEdge, l)), w.edgesOf(w.N[i].GetEdgesWithAnyLabel(lpg.OutgoingEdge, set(k, l))))
				}
			}
			return fmt.Sprint(o...)
		}},
		{"compare and collect new values", func(w *World, cb func()) string {
			a, b := newName(), newName()
			s := set(a)
			s.Add(b)
			c := s.Clone()
			s.Remove(a)
			x, y := []any{a, len(a)}, []any{a, len(a)}
			return fmt.Sprint(s.Len(), c.Has(a), s.Has(a), lpg.ComparePropertyValue(x, y), lpg.ComparePropertyValue(a, a), lpg.ComparePropertyValue([]string{a}, []string{a, b}), len(c.SortedSlice()))
		}},
	}
}

func newNameWriters() []writer {
	return []writer{
		{"create elements with new names", func(w *World) {
			l, k, v := newName(), newName(), newName()
			a := w.NewNode([]string{l, "A"}, PM{k: v, "p": 1})
			b := w.NewNode([]string{l}, PM{k: []any{v}})
			w.SetNodeProp(b, newName(), v)
			e := w.NewEdge(a, b, l, PM{k: []string{v, "a"}})
			w.SetEdgeLabel(e, newName())
			w.SetLabels(a, []string{newName(), "B"})
			w.SetEdgeProp(e, k, newName())
			w.DelEdgeProp(e, k)
		}},
		{"index new names", func(w *World) {
			k, k2, v := newName(), newName(), newName()
			w.G.AddNodePropertyIndex(k, lpg.HashIndex)
			w.G.AddEdgePropertyIndex(k, lpg.HashIndex)
			w.G.AddNodePropertyIndex(k2, lpg.BtreeIndex)
			a := w.NewNode(nil, PM{k: []any{v, 1}, k2: v})
			w.SetNodeProp(a, k2, v+"x")
			e := w.NewEdge(a, a, "x", PM{k: []string{v}})
			w.expect(w.nodesOf(w.G.FindNodes(set(), PM{k: []any{v, 1}})), []int{a}, "FindNodes by a new name")
			w.expect(w.nodesOf(w.G.FindNodes(set(), PM{k2: v + "x"})), []int{a}, "FindNodes by a new name")
			w.expect(w.edgesOf(w.G.FindEdges(set(), PM{k: []any{v}})), []int{e}, "FindEdges by a new name")
			w.RemoveEdge(e)
			w.DelNodeProp(a, k)
		}},
		{"encode, decode and render new names", func(w *World) {
			l, k, v := newName(), newName(), newName()
			doc := fmt.Sprintf(`{"nodes":[{"n":0,"labels":[%q,"A"],"properties":{%q:%q,"p":[%q]},"edges":[{"to":1,"label":%q,"properties":{%q:{%q:%q}}}]},{"n":1,"labels":[%q]}],"edges":[{"from":1,"to":0,"label":%q}]}`, l, k, v, v, l, k, v, k, k, v)
			for i := 0; i < 2; i++ {
				g := lpg.NewGraph()
				j := lpg.JSON{}
				if err := j.Decode(g, json.NewDecoder(strings.NewReader(doc))); err != nil || g.NumNodes() != 2 || g.NumEdges() != 2 {
					fail("decoding: %v", err)
				}
				var b bytes.Buffer
				if err := (lpg.JSON{MarshalEdgesSeparately: i == 1}).Encode(g, &b); err != nil || strings.Count(b.String(), v) != 4 {
					fail("encoding: %v %s", err, b.String())
				}
				b.Reset()
				if err := (lpg.DOTRenderer{}).Render(g, "G", &b); err != nil || strings.Count(b.String(), l) != 1 {
					fail("rendering: %v %s", err, b.String())
				}
				eq := func(x, y string) bool { return x == y }
				if ok, err := lpg.CheckIsomorphism(context.Background(), g, g, func(n1, n2 *lpg.Node) bool { return eq(n1.GetLabels().String(), n2.GetLabels().String()) }, func(e1, e2 *lpg.Edge) bool { return eq(e1.GetLabel(), e2.GetLabel()) }); err != nil || !ok {
					fail("not isomorphic: %v", err)
				}
			}
		}},
	}
}

// pairOfGraphs are two graphs for two goroutines.
type pairOfGraphs struct {
	name  string
	build func(z func() *World) (a, b *World)
}

func pairsOfGraphs() []pairOfGraphs {
	id := transforms[0]
	return []pairOfGraphs{
		{"built alike", func(z func() *World) (*World, *World) { return z(), z() }},
		{"the second a copy of the first", func(z func() *World) (*World, *World) {
			a, b := z(), newWorld()
			copyGraph(a, b, id)
			return a, b
		}},
		{"subgraph copies, label sets shared", func(z func() *World) (*World, *World) {
			a, b := z(), z()
			nm := map[*lpg.Node]*lpg.Node{}
			for _, i := range a.M.nodes(allN) {
				copySubgraph(a, b, id, i, nm)
			}
			l := set("A", "shared")
			for _, w := range []*World{a, b} {
				for _, i := range w.M.nodes(allN) {
					w.N[i].SetLabels(l)
					w.M.N[i].Labels = []string{"A", "shared"}
				}
			}
			return a, b
		}},
	}
}

// sharedRead is a read of values both goroutines have, which prep makes without reading them.
type sharedRead struct {
	read
	prep func(w *World)
}

// sharedReads use values that both goroutines have: patterns, supplied sets, conditions, paths, results.
func sharedReads() []func() sharedRead {
	var out []func() sharedRead
	for i := range readPatterns {
		rp := readPatterns[i]
		out = append(out, func() sharedRead {
			p := rp.p()
			return sharedRead{read{"shared pattern " + rp.name, func(w *World, cb func()) string {
				acc := &cbAcc{w: w, cb: cb}
				if err := p.Run(w.G, nil, acc); err != nil {
					return "error " + err.Error()
				}
				p.GetSymbolNames()
				nodes, err := p.FindNodes(w.G, nil)
				return sortedJoin(acc.out) + fmt.Sprint(w.nodeList(nodes), err)
			}}, func(*World) {}}
		})
	}
	out = append(out, func() sharedRead {
		var sym map[string]*lpg.PatternSymbol
		p := lpg.Pattern{{Name: "a", Properties: PM{"p": 1}}, {Name: "e", Labels: set("x", "y"), Min: 1, Max: 1, Undirected: true}, {Name: "b", Labels: set("A")}}
		return sharedRead{read{"shared pattern with shared supplied sets", func(w *World, cb func()) string {
			acc := &cbAcc{w: w, cb: cb}
			if err := p.Run(w.G, sym, acc); err != nil {
				return "error " + err.Error()
			}
			cb()
			o := fmt.Sprint(w.nodeList(sym["a"].NodeSlice()))
			if p := sym["e"].EdgeSlice(); p != nil {
				o += fmt.Sprint(p.NumEdges())
			}
			return sortedJoin(acc.out) + o
		}}, func(w *World) {
			sym = map[string]*lpg.PatternSymbol{"a": {}, "e": {}}
			for _, i := range w.M.nodes(allN) {
				sym["a"].AddNode(w.N[i])
			}
			for _, i := range w.M.edges(allE) {
				sym["e"].Add(w.E[i])
			}
		}}
	})
	out = append(out, func() sharedRead {
		ls, es, q := set("A"), set("x", "y"), PM{"p": 1}
		nf, ef := lpg.GetNodeFilterFunc(ls, q), lpg.GetEdgeFilterFunc(es, q)
		return sharedRead{read{"shared conditions and filter functions", func(w *World, cb func()) string {
			var o []string
			for _, i := range w.M.nodes(allN) {
				o = append(o, fmt.Sprint("n", i, nf(w.N[i])))
				cb()
			}
			for _, i := range w.M.edges(allE) {
				o = append(o, fmt.Sprint("e", i, ef(w.E[i])))
			}
			return sortedJoin(o) + fmt.Sprint(w.nodesOf(w.G.FindNodes(ls, q)), w.edgesOf(w.G.FindEdges(es, q)),
				w.nodesOf(w.G.GetNodesWithAllLabels(ls)), w.edgesOf(w.G.GetEdgesWithAnyLabel(es)), ls.SortedSlice(), es.Has("x"), ls.String(), es.Len(), es.SortedSlice(), es.HasAnySet(ls), es.HasAllSet(es), es.IsEqual(es.Clone()))
		}}, func(*World) {}}
	})
	out = append(out, func() sharedRead {
		var path *lpg.Path
		return sharedRead{read{"shared path", func(w *World, cb func()) string {
			s := fmt.Sprint(path.NumNodes(), path.NumEdges(), path.IsEmpty())
			if f, l := path.First(), path.Last(); f != nil {
				s += fmt.Sprint(w.nodeIdx(f), w.nodeIdx(l))
			}
			cb()
			for i := 0; i < path.NumNodes(); i++ {
				s += fmt.Sprint(" ", w.nodeIdx(path.GetNode(i)))
			}
			var els []lpg.PathElement
			for i := 0; i < path.NumEdges(); i++ {
				e := path.GetEdge(i)
				s += fmt.Sprint(" ", w.edgeIdx(e))
				els = append(els, lpg.PathElement{Edge: e, Reverse: e.GetFrom() != path.GetNode(i)})
			}
			q := path.Clone()
			s += w.pathStr(q) + path.String()
			if len(els) > 0 {
				s += fmt.Sprint(path.HasPrefix(els[:1]))
				s += w.pathStr(path.Slice(0, -1)) + w.pathStr(path.Slice(path.NumNodes()-1, -1))
				q.RemoveLast()
			}
			p2 := new(lpg.Path)
			p2.AppendPath(path)
			return s + w.pathStr(q) + fmt.Sprint(path.HasPrefixPath(q), p2.NumEdges(), w.pathStr(p2), path.IsEmpty())
		}}, func(w *World) {
			path = new(lpg.Path)
			if l := w.M.edges(allE); len(l) > 0 {
				// along the first edge, back again when it is not a loop, and along it
				e := w.E[l[0]]
				path.Append(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: e, Reverse: true}, lpg.PathElement{Edge: e})
			} else if l := w.M.nodes(allN); len(l) > 0 {
				path.SetOnlyNode(w.N[l[0]])
			}
		}}
	})
	out = append(out, func() sharedRead {
		var acc *lpg.DefaultMatchAccumulator
		return sharedRead{read{"shared search results", func(w *World, cb func()) string {
			s := fmt.Sprint(sorted(w.nodeList(acc.GetHeadNodes())), sorted(w.nodeList(acc.GetTailNodes())))
			cb()
			var o []string
			for i, p := range acc.Paths {
				o = append(o, w.pathStr(p)+fmt.Sprint(p.NumNodes(), len(acc.Symbols[i])))
			}
			return s + sortedJoin(o)
		}}, func(w *World) {
			acc = &lpg.DefaultMatchAccumulator{}
			if err := (lpg.Pattern{{Name: "a"}, {Min: 1, Max: 2, Name: "v"}, {Name: "b"}}).Run(w.G, nil, acc); err != nil {
				fail("%v", err)
			}
		}}
	})
	out = append(out, func() sharedRead {
		var ns *lpg.NodeSet
		var es *lpg.EdgeSet
		var nm *lpg.NodeMap
		return sharedRead{read{"shared sets", func(w *World, cb func()) string {
			s := fmt.Sprint(ns.Len(), es.Len(), nm.IsEmpty())
			for it := ns.Iterator(); it.Next(); {
				cb()
				s += fmt.Sprint(ns.Has(it.Node()), it.MaxSize() >= 0)
			}
			for it := es.Iterator(); it.Next(); {
				s += fmt.Sprint(es.Has(it.Edge()))
			}
			return s + fmt.Sprint(sorted(w.nodeList(ns.Slice())), sorted(w.edgeList(es.Slice())), w.nodesOf(nm.Iterator()), w.nodesOf(nm.IteratorAllLabels(set("A"))), w.nodesOf(nm.IteratorAllLabels(set("A", "B"))))
		}}, func(w *World) {
			ns, es, nm = lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
			for _, i := range w.M.nodes(allN) {
				ns.Add(w.N[i])
				nm.Add(w.N[i])
			}
			for _, i := range w.M.edges(allE) {
				es.Add(w.E[i])
			}
		}}
	})
	out = append(out, func() sharedRead {
		js, r := lpg.JSON{}, lpg.DOTRenderer{}
		return sharedRead{read{"shared codec and renderer", func(w *World, cb func()) string {
			var b, d bytes.Buffer
			err := js.Encode(w.G, &b)
			cb()
			err2 := r.Render(w.G, "G", &d)
			g := lpg.NewGraph()
			err3 := js.Decode(g, json.NewDecoder(&b))
			return fmt.Sprint(err, err2, err3, d.Len(), g.NumNodes(), g.NumEdges())
		}}, func(*World) {}}
	})
	return out
}

func init() {
	register(&Prop{
		ID: "C26",
		Bounds: "all ordered pairs of 31 reads (two of them with names no execution has met before) over 21 graphs in two goroutines that share the graph, of 11 reads that also share patterns, supplied sets, conditions, paths, search results, sets, codecs and renderers; all ordered pairs of 18 programs that change a graph and of these with the reads, on two graphs in two goroutines (built alike, copies of one another, sharing label sets), over 21 graphs (one way of making the two graphs for each of them; thorough: all three); " +
			"schedules: one after the other, and the second inside of the first 1-2 callbacks of the first (thorough: 6), handed over without a happens-before edge; conflicting accesses are detected with vector clocks (the race detector), so that without a conflict every other interleaving is equivalent to the executed one",
		Assume: []string{"The race detector of the Go toolchain keeps the last accesses of every memory word; objects of sync.Pool are not reused during a run, so that pools do not order the goroutines."},
		Tasks: func(th bool) []Task {
			var ts []Task
			if !raceBuilt {
				fmt.Println("note: built without the race detector, conflicting accesses are not detected")
			}
			kMax := dt(th, 1, 6)
			run2 := func(c *Ctx, fa, fb func(cb func()) string, na, nb, wa, wb string, reset func()) {
				for k := 0; k <= kMax; k++ {
					if k > 0 && reset != nil {
						reset()
					}
					a, b := &thread{f: fa}, &thread{f: fb}
					had := sched2(a, b, k)
					when := "after it"
					if k > 0 {
						when = fmt.Sprintf("inside of its callback %d", k)
					}
					a.check(fmt.Sprintf("%q in one goroutine, with %q in another %s,", na, nb, when), wa)
					b.check(fmt.Sprintf("%q in one goroutine, with %q in another %s,", nb, na, "before it"), wb)
					c.st.Traces++
					c.st.Transitions += 2
					c.st.Checks += 2
					if k > 0 && !had {
						break
					}
				}
			}
			nop := func() {}
			reads := append(allReads(), newNameReads()...)
			for zi, z := range zoo(indexKinds) {
				zi, z := zi, z
				ts = append(ts, Task{Name: "readers-" + z.Name, Run: func(c *Ctx) {
					poolFresh(true)
					defer poolFresh(false)
					for ai := range reads {
						for bi := range reads {
							a, b := reads[ai], reads[bi]
							c.Case(func() string { return fmt.Sprintf("graph %s: %q and %q in two goroutines", z.Name, a.name, b.name) }, func() {
								w := z.Build()
								wa, wb := a.run(w.view(), nop), b.run(w.view(), nop)
								w = z.Build()
								va, vb := w.view(), w.view()
								c.st.States++
								run2(c, func(cb func()) string { return a.run(va, cb) }, func(cb func()) string { return b.run(vb, cb) }, a.name, b.name, wa, wb, nil)
							})
						}
					}
					for _, mk := range sharedReads() {
						c.Case(func() string { return fmt.Sprintf("graph %s: %q in two goroutines", z.Name, mk().name) }, func() {
							w := z.Build()
							a := mk()
							a.prep(w)
							want := a.run(w.view(), nop)
							var va, vb *World
							reset := func() {
								// nothing was read of the shared values before
								w = z.Build()
								a.prep(w)
								va, vb = w.view(), w.view()
							}
							reset()
							c.st.States++
							run2(c, func(cb func()) string { return a.run(va, cb) }, func(cb func()) string { return a.run(vb, cb) }, a.name, a.name, want, want, reset)
						})
					}
				}})
				ts = append(ts, Task{Name: "graphs-" + z.Name, Run: func(c *Ctx) {
					poolFresh(true)
					defer poolFresh(false)
					ws := append(writers(), newNameWriters()...)
					for pi, pg := range pairsOfGraphs() {
						for ai := range ws {
							for bi := 0; bi < len(ws)+len(reads); bi++ {
								if !th && (pi+ai+bi+zi)%3 != 0 {
									continue // this pair of graphs has them with other contents
								}
								a := ws[ai]
								var bn string
								var bf func(w *World, cb func()) string
								if bi < len(ws) {
									b := ws[bi]
									bn, bf = b.name, func(w *World, _ func()) string { b.run(w); obsCopy(w); return "" }
								} else {
									b := reads[bi-len(ws)]
									bn, bf = b.name, b.run
								}
								for side := 0; side < 2; side++ {
									if side == 1 && bi < len(ws) {
										continue // the ordered pair comes anyway
									}
									c.Case(func() string {
										return fmt.Sprintf("two graphs %s, %s: %q on one of them (%d) and %q on the other in another goroutine", z.Name, pg.name, a.name, side, bn)
									}, func() {
										af := func(w *World, _ func()) string { a.run(w); obsCopy(w); return "" }
										var x, y *World
										build := func() {
											x, y = pg.build(z.Build)
											if side == 1 {
												x, y = y, x
											}
										}
										build()
										want := bf(y, nop)
										af(x, nop)
										build()
										c.st.States++
										if bi < len(ws) {
											run2(c, func(cb func()) string { return af(x, cb) }, func(cb func()) string { return bf(y, cb) }, a.name, bn, "", want, build)
										} else {
											run2(c, func(cb func()) string { return bf(y, cb) }, func(cb func()) string { return af(x, cb) }, bn, a.name, want, "", build)
										}
									})
								}
							}
						}
					}
				}})
			}
			return ts
		},
	})
}
