package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- property transformations

type transform struct {
	name string
	f    func(k string, v any) any
}

var transforms = []transform{
	{"as is", func(k string, v any) any { return v }},
	{"as text", func(k string, v any) any { return k + "=" + valStr(v) }},
	{"integers increased", func(k string, v any) any {
		if i, ok := v.(int); ok {
			return i + 1
		}
		return v
	}},
	{"wrapped", func(k string, v any) any { return native{v} }},
	{"the key", func(k string, v any) any { return k }},
}

func (t transform) props(p PM) PM {
	out := PM{}
	for k, v := range p {
		out[k] = t.f(k, v)
	}
	return out
}

// copyTarget is a kind of graph to copy into. Its property values are passed
// through the transformation, so that those of a key are comparable.
type copyTarget struct {
	name  string
	build func(t transform) *World
}

func copyTargets() []copyTarget {
	out := []copyTarget{{"an empty graph", func(transform) *World { return newWorld() }}}
	for _, ix := range indexKinds {
		ix := ix
		out = append(out, copyTarget{"a graph with contents, " + ixLabel(ix), func(t transform) *World {
			w := newWorld()
			if ix >= 0 {
				for _, k := range []string{"p", "q", "r"} {
					w.G.AddNodePropertyIndex(k, lpg.IndexType(ix))
					w.G.AddEdgePropertyIndex(k, lpg.IndexType(ix))
				}
			}
			w.NewNode([]string{"B"}, nil)
			w.NewNode([]string{"A"}, t.props(PM{"p": 1}))
			w.NewNode(nil, t.props(PM{"p": 2, "q": 2}))
			w.NewEdge(1, 2, "x", t.props(PM{"p": 1}))
			w.NewEdge(2, 1, "y", nil)
			w.NewEdge(0, 1, "x", nil)
			w.RemoveNode(0)
			return w
		}})
	}
	return out
}

// obsCopy compares everything one can look up; the values asked for are those
// that occur.
func obsCopy(w *World) {
	obsContents(w)
	obsAdjacency([]string{"x", "y"})(w)
	obsLabels([]string{"A", "B"}, []string{"x", "y"})(w)
	vals := map[string][]any{"p": nil, "q": nil, "r": nil}
	add := func(p PM) {
	next:
		for k, v := range p {
			if _, known := vals[k]; !known {
				continue
			}
			for _, x := range vals[k] {
				if reflect.DeepEqual(x, v) {
					continue next
				}
			}
			vals[k] = append(vals[k], v)
		}
	}
	for i := range w.M.N {
		if !w.M.N[i].Gone {
			add(w.M.N[i].Props)
		}
	}
	for k, vs := range vals {
		w.expect(w.nodesOf(w.G.GetNodesWithProperty(k)), w.M.nodes(func(_ int, n *MNode) bool { _, ok := n.Props[k]; return ok }), "GetNodesWithProperty(%q)", k)
		for _, v := range vs {
			q := PM{k: v}
			w.expect(w.nodesOf(w.G.FindNodes(lpg.StringSet{}, q)), w.M.nodes(func(_ int, n *MNode) bool { return propsMatch(n.Props, q) }), "FindNodes({},%s)", propStr(q))
		}
	}
	vals = map[string][]any{"p": nil, "q": nil, "r": nil}
	for i := range w.M.E {
		if !w.M.E[i].Gone {
			add(w.M.E[i].Props)
		}
	}
	for k, vs := range vals {
		w.expect(w.edgesOf(w.G.GetEdgesWithProperty(k)), w.M.edges(func(_ int, e *MEdge) bool { _, ok := e.Props[k]; return ok }), "GetEdgesWithProperty(%q)", k)
		for _, v := range vs {
			q := PM{k: v}
			w.expect(w.edgesOf(w.G.FindEdges(lpg.StringSet{}, q)), w.M.edges(func(_ int, e *MEdge) bool { return propsMatch(e.Props, q) }), "FindEdges({},%s)", propStr(q))
		}
	}
}

func both(names [2]string, ws [2]*World) {
	for i, w := range ws {
		if i == 1 && ws[0] == ws[1] {
			break
		}
		if msg := runGuarded(func() { obsCopy(w); obsIDs(w) }); msg != "" {
			fail("%s: %s", names[i], msg)
		}
	}
}

var srcTgt = [2]string{"the source graph", "the target graph"}

type mappedEdge struct {
	from, to int
	label    string
	props    PM
}

// adopt registers what a copy added to the target. want are the numbers of the
// source nodes that had to be copied, given what nm held before.
func (t *World) adopt(src *World, before, nm map[*lpg.Node]*lpg.Node, want []int, edges []int, tf transform) {
	t.checks++
	for k, v := range before {
		if nm[k] != v {
			fail("the node correspondence of node %d was changed", src.nodeIdx(k))
		}
	}
	if len(nm) != len(before)+len(want) {
		fail("the correspondence has %d nodes, expected %d", len(nm), len(before)+len(want))
	}
	for _, i := range want {
		n := nm[src.N[i]]
		if n == nil {
			fail("node %d has no copy in the correspondence", i)
		}
		if _, old := t.np[n]; old {
			fail("the correspondence of node %d is not a new node of the target", i)
		}
		if n.GetGraph() != t.G {
			fail("the copy of node %d is not in the target graph", i)
		}
		t.regNode(n, src.M.N[i].Labels, tf.props(src.M.N[i].Props))
	}
	var exp []mappedEdge
	for _, i := range edges {
		e := src.M.E[i]
		exp = append(exp, mappedEdge{t.nodeIdx(nm[src.N[e.From]]), t.nodeIdx(nm[src.N[e.To]]), e.Label, tf.props(e.Props)})
	}
	t.adoptEdges(exp)
}

// adoptEdges finds the expected new edges among those of the target.
func (t *World) adoptEdges(exp []mappedEdge) {
	for it := t.G.GetEdges(); it.Next(); {
		e := it.Edge()
		if _, old := t.ep[e]; old {
			continue
		}
		f, t2 := t.nodeIdx(e.GetFrom()), t.nodeIdx(e.GetTo())
		ps := propsOf(e)
		found := false
		for k, x := range exp {
			if x.from == f && x.to == t2 && x.label == e.GetLabel() && sameProps(ps, x.props) {
				exp = append(append([]mappedEdge{}, exp[:k]...), exp[k+1:]...)
				t.regEdge(e, f, t2, x.label, x.props)
				found = true
				break
			}
		}
		if !found {
			fail("there is an unexpected edge n%d -> n%d %q %s in the target", f, t2, e.GetLabel(), propStr(ps))
		}
	}
	if len(exp) > 0 {
		x := exp[0]
		fail("the edge n%d -> n%d %q %s is missing in the target", x.from, x.to, x.label, propStr(x.props))
	}
}

func cloneNM(m map[*lpg.Node]*lpg.Node) map[*lpg.Node]*lpg.Node {
	out := map[*lpg.Node]*lpg.Node{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// copyGraph copies all of src into t.
func copyGraph(src, t *World, tf transform) {
	nm := lpg.CopyGraph(src.G, t.G, tf.f)
	t.adopt(src, nil, nm, src.M.nodes(allN), src.M.edges(allE), tf)
}

// copySelected copies with CopyGraphf. sel tells for every node of the source what
// its copy is: -1 none, -2 a new node, or a node of the target.
func copySelected(src, t *World, tf transform, sel []int, clone bool) {
	var calls, ecalls []int
	sofar := map[*lpg.Node]*lpg.Node{}
	before := map[*lpg.Node]*lpg.Node{}
	nm := lpg.CopyGraphf(src.G, func(n *lpg.Node, m map[*lpg.Node]*lpg.Node) *lpg.Node {
		i := src.nodeIdx(n)
		calls = append(calls, i)
		if !reflect.DeepEqual(m, sofar) {
			fail("the node function gets a correspondence of %d nodes, expected %d", len(m), len(sofar))
		}
		switch sel[i] {
		case -1:
			return nil
		case -2:
			sofar[n] = lpg.CopyNode(n, t.G, tf.f)
		default:
			sofar[n] = t.N[sel[i]]
			before[n] = t.N[sel[i]]
		}
		return sofar[n]
	}, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
		ecalls = append(ecalls, src.edgeIdx(e))
		if !reflect.DeepEqual(m, sofar) {
			fail("the edge function gets a correspondence of %d nodes, expected %d", len(m), len(sofar))
		}
		if clone {
			return lpg.CloneEdge(m[e.GetFrom()], m[e.GetTo()], e, t.G, tf.f)
		}
		return lpg.CopyEdge(e, t.G, tf.f, m)
	})
	var want []int
	for _, i := range src.M.nodes(allN) {
		if sel[i] == -2 {
			want = append(want, i)
		}
	}
	edges := src.M.edges(func(_ int, e *MEdge) bool { return sel[e.From] != -1 && sel[e.To] != -1 })
	src.expect(sorted(calls), src.M.nodes(allN), "nodes the node function is called with")
	src.expect(sorted(ecalls), edges, "edges the edge function is called with")
	t.adopt(src, before, nm, want, edges, tf)
}

func sorted(l []int) []int {
	out := append([]int{}, l...)
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// reachable: the unmapped nodes reachable from start and the edges that leave them.
func (src *World) reachable(start int, nm map[*lpg.Node]*lpg.Node) (nodes, edges []int) {
	seen := map[int]bool{}
	var rec func(i int)
	rec = func(i int) {
		if _, mapped := nm[src.N[i]]; mapped || seen[i] {
			return
		}
		seen[i] = true
		for x := range src.M.E {
			if e := &src.M.E[x]; !e.Gone && e.From == i {
				edges = append(edges, x)
				rec(e.To)
			}
		}
	}
	rec(start)
	for i := range seen {
		nodes = append(nodes, i)
	}
	return sorted(nodes), sorted(edges)
}

func copySubgraph(src, t *World, tf transform, start int, nm map[*lpg.Node]*lpg.Node) {
	before := cloneNM(nm)
	nodes, edges := src.reachable(start, nm)
	lpg.CopySubgraph(src.N[start], t.G, tf.f, nm)
	t.adopt(src, before, nm, nodes, edges, tf)
}

// edits are all single changes of a graph.
func (w *World) edits(tf transform) []func() string {
	var out []func() string
	for _, i := range w.M.nodes(allN) {
		i := i
		for _, ls := range subsets([]string{"A", "B"}) {
			ls := ls
			out = append(out, func() string { w.SetLabels(i, ls); return fmt.Sprintf("n%d labels %q", i, ls) })
		}
		out = append(out,
			func() string { w.SetNodeProp(i, "p", tf.f("p", 7)); return fmt.Sprintf("n%d.p=7", i) },
			func() string { w.SetNodeProp(i, "q", tf.f("q", 2)); return fmt.Sprintf("n%d.q=2", i) },
			func() string { w.DelNodeProp(i, "p"); return fmt.Sprintf("n%d.p removed", i) },
			func() string { w.Detach(i); return fmt.Sprintf("n%d detached", i) },
			func() string { w.RemoveNode(i); return fmt.Sprintf("n%d removed", i) },
			func() string { w.NewEdge(i, i, "x", PM{"p": tf.f("p", 1)}); return fmt.Sprintf("loop at n%d", i) },
			func() string {
				ls := w.N[i].GetLabels()
				ls.Add("B")
				ls.Remove("A")
				return fmt.Sprintf("label set of n%d edited", i)
			})
	}
	for _, i := range w.M.edges(allE) {
		i := i
		out = append(out,
			func() string { w.SetEdgeLabel(i, "y"); return fmt.Sprintf("e%d label y", i) },
			func() string { w.SetEdgeProp(i, "p", tf.f("p", 7)); return fmt.Sprintf("e%d.p=7", i) },
			func() string { w.DelEdgeProp(i, "p"); return fmt.Sprintf("e%d.p removed", i) },
			func() string { w.RemoveEdge(i); return fmt.Sprintf("e%d removed", i) })
	}
	return append(out, func() string { w.NewNode([]string{"A"}, PM{"p": tf.f("p", 1)}); return "new node" })
}

// editBothSides does the copy again and again, and then every single edit on
// either side, and compares both.
func editBothSides(c *Ctx, do func() (src, tgt *World), tfs, tft transform) {
	s0, t0 := do()
	n := [2]int{len(s0.edits(tfs)), len(t0.edits(tft))}
	for side := 0; side < 2; side++ {
		for k := 0; k < n[side]; k++ {
			s, t := do()
			what := ""
			if side == 0 {
				what = s.edits(tfs)[k]()
			} else {
				what = t.edits(tft)[k]()
			}
			if msg := runGuarded(func() { both(srcTgt, [2]*World{s, t}) }); msg != "" {
				fail("after %s in %s: %s", what, srcTgt[side], msg)
			}
			c.st.Traces++
			c.st.Transitions++
			c.st.Checks += s.checks + t.checks
		}
	}
}

// copyOps are operations over two graphs.
func copyOps() []op2 {
	var ops []op2
	id := transforms[0]
	live := func(w *World, i int) bool { return i < len(w.N) && !w.M.N[i].Gone }
	for g := 0; g < 2; g++ {
		g := g
		o := 1 - g
		add := func(name string, ok func(w [2]*World) bool, do func(w [2]*World)) {
			ops = append(ops, op2{fmt.Sprintf("g%d: %s", g, name), ok, do})
		}
		room := func(w [2]*World, n int) bool { return len(w[g].N)+n <= 8 && len(w[g].E) <= 8 }
		add("copy the other graph here", func(w [2]*World) bool { return len(w[o].E)+len(w[g].E) <= 8 && room(w, len(w[o].M.nodes(allN))) }, func(w [2]*World) { copyGraph(w[o], w[g], id) })
		add("copy all but n0 of the other graph here, n1 onto n0", func(w [2]*World) bool { return live(w[g], 0) && room(w, len(w[o].N)) }, func(w [2]*World) {
			sel := make([]int, len(w[o].N))
			for i := range sel {
				sel[i] = -2
				if i < 2 {
					sel[i] = i - 1
				}
			}
			copySelected(w[o], w[g], transforms[2], sel, true)
		})
		add("copy what n1 of the other graph reaches here", func(w [2]*World) bool { return live(w[o], 1) && room(w, len(w[o].N)) }, func(w [2]*World) { copySubgraph(w[o], w[g], id, 1, map[*lpg.Node]*lpg.Node{}) })
		add("copy what n0 reaches within the graph, with n1 mapped to itself", func(w [2]*World) bool { return live(w[g], 0) && live(w[g], 1) && room(w, len(w[g].N)) }, func(w [2]*World) {
			copySubgraph(w[g], w[g], id, 0, map[*lpg.Node]*lpg.Node{w[g].N[1]: w[g].N[1]})
		})
		add("CopyNode n0 within the graph", func(w [2]*World) bool { return live(w[g], 0) && room(w, 1) }, func(w [2]*World) {
			w[g].regNode(lpg.CopyNode(w[g].N[0], w[g].G, transforms[2].f), w[g].M.N[0].Labels, transforms[2].props(w[g].M.N[0].Props))
		})
		add("CloneEdge e0 of the other graph from n1 to n0", func(w [2]*World) bool { return live(w[g], 0) && live(w[g], 1) && len(w[o].E) > 0 && room(w, 0) }, func(w [2]*World) {
			e := &w[o].M.E[0]
			w[g].regEdge(lpg.CloneEdge(w[g].N[1], w[g].N[0], w[o].E[0], w[g].G, transforms[2].f), 1, 0, e.Label, transforms[2].props(e.Props))
		})
		add("n0.SetLabels(B)", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].SetLabels(0, []string{"B"}) })
		add("remove n1", func(w [2]*World) bool { return live(w[g], 1) }, func(w [2]*World) { w[g].RemoveNode(1) })
		add("n0.p=2", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].SetNodeProp(0, "p", 2) })
		add("edge n1->n0 with p=1", func(w [2]*World) bool { return live(w[g], 0) && live(w[g], 1) && room(w, 0) }, func(w [2]*World) { w[g].NewEdge(1, 0, "y", PM{"p": 1}) })
		add("last edge label y, p=3", func(w [2]*World) bool { n := len(w[g].E); return n > 0 && !w[g].M.E[n-1].Gone }, func(w [2]*World) {
			w[g].SetEdgeLabel(len(w[g].E)-1, "y")
			w[g].SetEdgeProp(len(w[g].E)-1, "p", 3)
		})
	}
	return ops
}

// exploreOps runs every sequence of operations over two graphs.
func exploreOps(c *Ctx, ops []op2, depth int, start func() [2]*World, shard, shards int) {
	type hist []int
	build := func(h hist) [2]*World {
		w := start()
		for _, o := range h {
			ops[o].do(w)
		}
		return w
	}
	seen := map[fpKey]bool{}
	frontier := []hist{{}}
	for d := 0; d < depth; d++ {
		var next []hist
		for _, h := range frontier {
			w := build(h)
			for o := range ops {
				if d == 0 && o%shards != shard || !ops[o].ok(w) {
					continue
				}
				nh := append(append(hist{}, h...), o)
				c.st.Transitions++
				fresh := false
				ok := c.Case(func() string {
					var s []string
					for _, x := range nh {
						s = append(s, ops[x].name)
					}
					return strings.Join(s, "; ")
				}, func() {
					w := build(nh)
					k := fingerprint("", w[0].G, w[0].N, w[0].E, w[0].M, w[1].G, w[1].N, w[1].E, w[1].M)
					if seen[k] {
						return
					}
					both([2]string{"g0", "g1"}, w)
					c.st.Checks += w[0].checks + w[1].checks
					seen[k] = true
					fresh = true
				})
				if ok && fresh {
					c.st.States++
					c.st.Traces++
					next = append(next, nh)
				}
			}
		}
		frontier = next
	}
}

func init() {
	register(&Prop{
		ID: "C19",
		Bounds: "the graph zoo (with and without indexes), all graphs up to isomorphism with up to 2 nodes and 2 edges with properties and 3 nodes and 3 edges without (thorough: one edge more), larger shapes; 5 property transformations, 4 targets; CopyGraph, and CopyGraphf with every assignment of the nodes to no copy, a new node or one of two existing nodes (one of them on 3 and more nodes); " +
			"whole and partial copies of 8 parametrised families of graphs in every size up to 14 and those around powers of two up to 40 and 65 to 300; every single edit of either side afterwards; all histories of 22 operations over two graphs (whole, selective and subgraph copies both ways and within a graph, single copies, edits) to depth 4 (thorough: 5); elements with every number of labels and properties up to 300, edited afterwards; chains of up to 34 (thorough 70) edges with any one node left out or replaced by an existing one; map iteration starting at 2 (thorough: 8) positions; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"A graph is not copied into itself as a whole; the values of an indexed property are comparable."},
		Tasks: func(th bool) []Task {
			var ts []Task
			zs := zoo(indexKinds)
			for _, g := range concat(graphFamily{n: 1, maxE: 2, nks: nkProps, eks: ekProps}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkProps, eks: ekProps}.list(), graphFamily{n: 3, maxE: dt(th, 3, 4), nks: nkPlain, eks: ekPlain}.list(), bigShapes()) {
				zs = append(zs, specGraph(g))
			}
			offs := []int{0, 5}
			if th {
				offs = []int{0, 1, 2, 3, 4, 5, 6, 7}
			}
			shards := 14
			tgs := copyTargets()
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("copies/%d", s), Run: func(c *Ctx) {
					for zi, z := range zs {
						if zi%shards != s {
							continue
						}
						for tfi, tf := range transforms {
							for tgi, tg := range tgs {
								tf, tg, tgi := tf, tg, tgi
								c.Case(func() string {
									return fmt.Sprintf("CopyGraph %s into %s, properties %s", z.Name, tg.name, tf.name)
								}, func() {
									for _, off := range offs {
										mapDefault(off)
										do := func() (*World, *World) {
											src, t := z.Build(), tg.build(tf)
											copyGraph(src, t, tf)
											return src, t
										}
										src, t := do()
										both(srcTgt, [2]*World{src, t})
										copyGraph(src, t, tf)
										both(srcTgt, [2]*World{src, t})
										if off == 0 && (th && tfi < 2 || tfi == zi%2 && tgi%3 == 0) {
											editBothSides(c, do, transforms[0], tf)
										}
										c.st.Traces += 2
										c.st.Transitions += 2
										c.st.Checks += src.checks + t.checks
									}
									mapDefault(0)
								})
								c.st.States++
							}
						}
						// every selection
						w := z.Build()
						live := w.M.nodes(allN)
						if len(live) > 4 {
							continue
						}
						sel := make([]int, len(w.N))
						var rec func(k int)
						rec = func(k int) {
							if k < len(live) {
								for _, x := range []int{-1, -2, 1, 2}[:dt(th || len(live) < 3, 3, 4)] {
									sel[live[k]] = x
									rec(k + 1)
								}
								return
							}
							now := append([]int{}, sel...)
							tf := transforms[(sum(now)+100)%len(transforms)]
							tg := tgs[1+(sum(now)+100)%3]
							c.Case(func() string {
								return fmt.Sprintf("CopyGraphf %s with selection %v into %s, properties %s", z.Name, now, tg.name, tf.name)
							}, func() {
								for _, clone := range []bool{false, true} {
									src, t := z.Build(), tg.build(tf)
									copySelected(src, t, tf, now, clone)
									both(srcTgt, [2]*World{src, t})
									c.st.Checks += src.checks + t.checks
									c.st.Traces++
									c.st.Transitions++
								}
							})
							c.st.States++
						}
						rec(0)
					}
				}})
			}
			for seed := 0; seed < 2; seed++ {
				for sh := 0; sh < 11; sh++ {
					seed, sh := seed, sh
					ts = append(ts, Task{Name: fmt.Sprintf("histories-%d/%d", seed, sh), Run: func(c *Ctx) {
						exploreOps(c, copyOps(), dt(th, 4, 5), func() [2]*World {
							var w [2]*World
							for i := range w {
								w[i] = newWorld()
								w[i].G.AddNodePropertyIndex("p", lpg.IndexType(i))
								w[i].G.AddEdgePropertyIndex("p", lpg.IndexType(1-i))
								if i <= seed {
									w[i].NewNode([]string{"A"}, PM{"p": 1})
									w[i].NewNode([]string{"A", "B"}, PM{"p": 2})
									w[i].NewEdge(0, 1, "x", PM{"p": 1})
								}
							}
							return w
						}, sh, 11)
					}})
				}
			}
			return append(append(ts, wideCopyTasks(th, false)...), append(append(hugeCopyTasks(th, false), copySizeTasks(th, false)...), append(oddSelectedTasks(th), append(similarCopies(false), vastTask("vast", vastCopy(false))...)...)...)...)
		},
	})

	register(&Prop{
		ID: "C20",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 4 edges, 4 nodes and 4 edges over one kind, 2 nodes and 3 edges with properties (thorough: one edge more), the zoo and larger shapes; every start node, every assignment of already mapped nodes to two existing nodes (into 4 targets and within the graph itself), every sequence of up to 3 copies sharing a correspondence (2 on the larger ones; 1 into the indexed targets); " +
			"8 parametrised families of graphs in every size up to 14 and those around powers of two up to 40 and 65 to 300, from several starts, some nodes mapped; chains and cycles of up to 34 (thorough 70) edges with any one node (and some pairs) mapped already; subgraphs copied from every node in 5 orders, with one correspondence; chains and cycles of 3000 nodes; elements with every number of labels and properties up to 300; map iteration starting at 2 (thorough: 8) positions; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Already mapped nodes are mapped to nodes of the target graph."},
		Tasks: func(th bool) []Task {
			var ts []Task
			type item struct {
				z    ZG
				deep bool
			}
			var zs []item
			for _, g := range concat(graphFamily{n: 1, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 3, maxE: dt(th, 3, 4), nks: nkPlain[:1], eks: ekPlain}.list(),
				graphFamily{n: 3, maxE: dt(th, 4, 5), nks: nkPlain[:1], eks: ekPlain[:1]}.list()) {
				zs = append(zs, item{specGraph(g), true})
			}
			for _, g := range concat(graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkProps, eks: ekProps}.list(), graphFamily{n: 4, maxE: dt(th, 4, 5), nks: nkPlain[:1], eks: ekPlain[:1]}.list(), bigShapes()) {
				zs = append(zs, item{specGraph(g), false})
			}
			for _, z := range zoo(indexKinds) {
				zs = append(zs, item{z, true})
			}
			offs := []int{0, 5}
			if th {
				offs = []int{0, 1, 2, 3, 4, 5, 6, 7}
			}
			shards := 16
			tgs := copyTargets()
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("subgraphs/%d", s), Run: func(c *Ctx) {
					for zi, it := range zs {
						if zi%shards != s {
							continue
						}
						z := it.z
						live := z.Build().M.nodes(allN)
						// the number of the target, -1: the graph itself
						for tgi := -1; tgi < len(tgs); tgi++ {
							pres := [][]int{nil}
							if tgi != 0 && len(live) <= 4 {
								pres = nil
								var rec func(cur []int)
								rec = func(cur []int) {
									if len(cur) == len(live) {
										pres = append(pres, append([]int{}, cur...))
										return
									}
									for x := -1; x < dt(it.deep, 1, 2); x++ {
										rec(append(append([]int{}, cur...), x))
									}
								}
								rec(nil)
							}
							for pi, pre := range pres {
								tf := transforms[(zi+pi)%len(transforms)]
								if tgi < 0 {
									tf = transforms[0]
								}
								c.Case(func() string {
									tn := "itself"
									if tgi >= 0 {
										tn = tgs[tgi].name
									}
									return fmt.Sprintf("CopySubgraph of %s into %s, nodes mapped at first %v, properties %s, all sequences of starts", z.Name, tn, pre, tf.name)
								}, func() {
									for _, off := range offs {
										mapDefault(off)
										var rec func(starts []int)
										rec = func(starts []int) {
											if len(starts) > 0 {
												src := z.Build()
												t := src
												if tgi >= 0 {
													t = tgs[tgi].build(tf)
												}
												nm := map[*lpg.Node]*lpg.Node{}
												old := t.M.nodes(allN)
												for k, x := range pre {
													if x >= 0 && x < len(old) {
														nm[src.N[live[k]]] = t.N[old[x]]
													}
												}
												for _, st := range starts {
													copySubgraph(src, t, tf, st, nm)
												}
												both(srcTgt, [2]*World{src, t})
												c.st.Checks += src.checks + t.checks
												c.st.Traces++
												c.st.Transitions += int64(len(starts))
											}
											limit := 2
											if it.deep && off == 0 && tgi < 2 {
												limit = 3
											}
											if !it.deep && off != 0 || !th && (tgi > 1 || off != 0) {
												limit = 1
											}
											if len(starts) < limit {
												for _, st := range live {
													rec(append(append([]int{}, starts...), st))
												}
											}
										}
										rec(nil)
									}
									mapDefault(0)
								})
								c.st.States++
							}
						}
					}
				}})
			}
			for _, cyc := range []bool{false, true} {
				cyc := cyc
				ts = append(ts, Task{Name: fmt.Sprintf("long/cycle=%v", cyc), Run: func(c *Ctx) {
					c.Case(func() string { return fmt.Sprintf("CopySubgraph of 3000 nodes in a row, cycle=%v", cyc) }, func() {
						src, t := newWorld(), newWorld()
						const n = 3000
						for i := 0; i < n; i++ {
							src.NewNode([]string{"A"}, PM{"p": i})
							if i > 0 {
								src.NewEdge(i-1, i, "x", PM{"p": i})
							}
						}
						if cyc {
							src.NewEdge(n-1, 0, "x", nil)
						}
						nm := map[*lpg.Node]*lpg.Node{}
						lpg.CopySubgraph(src.N[0], t.G, transforms[0].f, nm)
						if len(nm) != n || t.G.NumNodes() != n || t.G.NumEdges() != len(src.E) {
							fail("the copy has %d nodes (%d mapped) and %d edges, expected %d and %d", t.G.NumNodes(), len(nm), t.G.NumEdges(), n, len(src.E))
						}
						for i, e := range src.E {
							if es := lpg.EdgesBetweenNodes(nm[e.GetFrom()], nm[e.GetTo()]); len(es) != 1 || !sameProps(propsOf(es[0]), src.M.E[i].Props) {
								fail("edge %d has no proper copy", i)
							}
						}
						c.st.States++
						c.st.Traces++
						c.st.Transitions++
					})
				}})
			}
			return append(append(ts, wideCopyTasks(th, true)...), append(append(hugeCopyTasks(th, true), copySizeTasks(th, true)...), append(oddMappedTasks(th), append(orderTasks(th), append(similarCopies(true), vastTask("vast", vastCopy(true))...)...)...)...)...)
		},
	})
}

func sum(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}
