package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// obsIDs: identifiers of live elements are unique and stay as they were.
func obsIDs(w *World) {
	seen := map[int]int{}
	for _, i := range w.M.nodes(allN) {
		id := w.N[i].GetID()
		if id != w.nid[i] {
			fail("the identifier of n%d changed from %d to %d", i, w.nid[i], id)
		}
		if j, dup := seen[id]; dup {
			fail("n%d and n%d both have identifier %d", i, j, id)
		}
		seen[id] = i
	}
	seen = map[int]int{}
	for _, i := range w.M.edges(allE) {
		id := w.E[i].GetID()
		if id != w.eid[i] {
			fail("the identifier of e%d changed from %d to %d", i, w.eid[i], id)
		}
		if j, dup := seen[id]; dup {
			fail("e%d and e%d both have identifier %d", i, j, id)
		}
		seen[id] = i
	}
	w.checks += 2
}

// obsBadEdges tries to connect every combination of nodes that must not be
// connected, with every way of creating an edge, and verifies that it panics
// and leaves both graphs as they were.
func obsBadEdges(a, b *World) {
	type end struct {
		w    *World
		i    int
		n    *lpg.Node
		name string
	}
	var ends []end
	for wi, w := range []*World{a, b} {
		for i := range w.N {
			if wi == 1 && i > 1 {
				break
			}
			ends = append(ends, end{w, i, w.N[i], fmt.Sprintf("g%d.n%d(removed=%v)", wi, i, w.M.N[i].Gone)})
		}
	}
	ends = append(ends, end{nil, 0, nil, "nil"})
	var tmpl *lpg.Edge
	for _, w := range []*World{a, b} {
		for _, e := range w.E {
			tmpl = e
		}
	}
	before := fingerprint("", a.G, a.N, a.E, b.G, b.N, b.E)
	id := func(k string, v any) any { return v }
	bad := 0
	for gi, w := range []*World{a, b} {
		for _, f := range ends {
			for _, t := range ends {
				ok := f.w == w && t.w == w && !w.M.N[f.i].Gone && !w.M.N[t.i].Gone
				if ok {
					continue
				}
				ways := []struct {
					name string
					f    func()
				}{
					{"NewEdge", func() { w.G.NewEdge(f.n, t.n, "bad", PM{"p": 1}) }},
					{"FastNewEdge", func() { w.G.FastNewEdge(f.n, t.n, "bad", PM{"p": 1}) }},
				}
				if tmpl != nil {
					ways = append(ways, struct {
						name string
						f    func()
					}{"CloneEdge", func() { lpg.CloneEdge(f.n, t.n, tmpl, w.G, id) }}, struct {
						name string
						f    func()
					}{"CopyEdge", func() {
						lpg.CopyEdge(tmpl, w.G, id, map[*lpg.Node]*lpg.Node{tmpl.GetFrom(): f.n, tmpl.GetTo(): t.n})
					}})
				}
				for _, way := range ways {
					if way.name == "CopyEdge" && tmpl.GetFrom() == tmpl.GetTo() && f.n != t.n {
						continue
					}
					bad++
					if !panics(way.f) {
						fail("g%d: %s from %s to %s does not panic", gi, way.name, f.name, t.name)
					}
				}
			}
		}
	}
	a.checks += int64(bad)
	if bad > 0 && fingerprint("", a.G, a.N, a.E, b.G, b.N, b.E) != before {
		for gi, w := range []*World{a, b} {
			if msg := runGuarded(func() { obsAll(w) }); msg != "" {
				fail("a rejected edge changed g%d: %s", gi, msg)
			}
		}
	}
}

func otherWorld() *World {
	w := newWorld()
	w.G.AddNodePropertyIndex("p", lpg.HashIndex)
	w.G.AddEdgePropertyIndex("p", lpg.BtreeIndex)
	w.NewNode([]string{"A"}, PM{"p": 1})
	w.NewNode([]string{"A", "B"}, PM{"p": 2})
	w.NewEdge(0, 1, "x", PM{"p": 1})
	w.NewEdge(1, 1, "y", PM{"p": 1})
	return w
}

// ---- histories over two graphs

type op2 struct {
	name string
	ok   func(w [2]*World) bool
	do   func(w [2]*World)
}

func twoGraphOps() []op2 {
	var ops []op2
	id := func(k string, v any) any { return v }
	live := func(w *World, i int) bool { return i < len(w.N) && !w.M.N[i].Gone }
	liveE := func(w *World, i int) bool { return i < len(w.E) && !w.M.E[i].Gone }
	for g := 0; g < 2; g++ {
		g := g
		o := 1 - g
		add := func(name string, ok func(w [2]*World) bool, do func(w [2]*World)) {
			ops = append(ops, op2{fmt.Sprintf("g%d: %s", g, name), ok, do})
		}
		add("NewNode(A,p=1)", func(w [2]*World) bool { return len(w[g].N) < 4 }, func(w [2]*World) { w[g].NewNode([]string{"A"}, PM{"p": 1}) })
		add("copy n0 of the other graph", func(w [2]*World) bool { return len(w[g].N) < 4 && live(w[o], 0) }, func(w [2]*World) {
			w[g].regNode(lpg.CopyNode(w[o].N[0], w[g].G, id), w[o].M.N[0].Labels, w[o].M.N[0].Props)
		})
		add("FastNewNode with the labels of n0 of the other graph", func(w [2]*World) bool { return len(w[g].N) < 4 && live(w[o], 0) }, func(w [2]*World) {
			w[g].regNode(w[g].G.FastNewNode(w[o].N[0].GetLabels(), nil), w[o].M.N[0].Labels, nil)
		})
		add("n0 gets the labels of n0 of the other graph", func(w [2]*World) bool { return live(w[g], 0) && live(w[o], 0) }, func(w [2]*World) {
			w[g].N[0].SetLabels(w[o].N[0].GetLabels())
			w[g].M.N[0].Labels = append([]string{}, w[o].M.N[0].Labels...)
		})
		add("n0.SetLabels(B)", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].SetLabels(0, []string{"B"}) })
		add("n0.SetLabels()", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].SetLabels(0, nil) })
		add("n0.p=2", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].SetNodeProp(0, "p", 2) })
		add("remove n0", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].RemoveNode(0) })
		add("edge n0->n1", func(w [2]*World) bool { return len(w[g].E) < 3 && live(w[g], 0) && live(w[g], 1) }, func(w [2]*World) { w[g].NewEdge(0, 1, "x", PM{"p": 1}) })
		add("clone e0 of the other graph at n1->n1", func(w [2]*World) bool { return len(w[g].E) < 3 && live(w[g], 1) && len(w[o].E) > 0 }, func(w [2]*World) {
			w[g].regEdge(lpg.CloneEdge(w[g].N[1], w[g].N[1], w[o].E[0], w[g].G, id), 1, 1, w[o].M.E[0].Label, w[o].M.E[0].Props)
		})
		add("e0.p=2", func(w [2]*World) bool { return liveE(w[g], 0) }, func(w [2]*World) { w[g].SetEdgeProp(0, "p", 2) })
		add("e0 label y", func(w [2]*World) bool { return liveE(w[g], 0) }, func(w [2]*World) { w[g].SetEdgeLabel(0, "y") })
		add("remove e0", func(w [2]*World) bool { return liveE(w[g], 0) }, func(w [2]*World) { w[g].RemoveEdge(0) })
		add("remove property p of n0", func(w [2]*World) bool { return live(w[g], 0) }, func(w [2]*World) { w[g].DelNodeProp(0, "p") })
	}
	return ops
}

func exploreTwo(c *Ctx, depth int, seed func(w *World), shard, shards int) {
	ops := twoGraphOps()
	type hist []int
	build := func(h hist) [2]*World {
		var w [2]*World
		for i := range w {
			w[i] = newWorld()
			w[i].G.AddNodePropertyIndex("p", lpg.HashIndex)
			w[i].G.AddEdgePropertyIndex("p", lpg.HashIndex)
			seed(w[i])
		}
		for _, o := range h {
			ops[o].do(w)
		}
		return w
	}
	seen := map[fpKey]bool{}
	frontier := []hist{{}}
	for d := 0; d <= depth; d++ {
		var next []hist
		for _, h := range frontier {
			for o := range ops {
				if d == 0 && o%shards != shard {
					continue
				}
				w := build(h)
				if d == depth || !ops[o].ok(w) {
					continue
				}
				nh := append(append(hist{}, h...), o)
				c.st.Transitions++
				fresh := false
				ok := c.Case(func() string {
					var s []string
					for _, x := range nh {
						s = append(s, ops[x].name)
					}
					return strings.Join(s, "; ")
				}, func() {
					w := build(nh)
					k := fingerprint("", w[0].G, w[0].N, w[0].E, w[0].M, w[1].G, w[1].N, w[1].E, w[1].M)
					if seen[k] {
						return
					}
					for gi, x := range w {
						if msg := runGuarded(func() { obsAll(x); obsIDs(x) }); msg != "" {
							fail("g%d: %s", gi, msg)
						}
						c.st.Checks += x.checks
					}
					obsBadEdges(w[0], w[1])
					seen[k] = true
					fresh = true
				})
				if ok && fresh {
					c.st.States++
					c.st.Traces++
					next = append(next, nh)
				}
			}
		}
		frontier = next
	}
}

// obsArguments: what the caller does later to the arguments does not show.
func argumentCases(c *Ctx) {
	type v struct {
		name string
		do   func(w *World) (check func())
	}
	labelSets := subsets([]string{"A", "B"})
	propMaps := []PM{nil, {}, {"p": 1}, {"p": 1, "q": "s"}}
	for _, seedName := range []string{"empty", "pair", "edited"} {
		for li, ls := range labelSets {
			for pi, ps := range propMaps {
				for ix := -1; ix < 2; ix++ {
					for how := 0; how < 6; how++ {
						if how == 4 && seedName == "empty" {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("seed %s labels %q props %s index %s: edit arguments after %s", seedName, ls, propStr(ps), ixLabel(ix),
								[]string{"NewNode", "NewEdge", "SetLabels", "SetLabels with a set used for two nodes", "SetLabels with the label set of another node", "FindNodes"}[how])
						}, func() {
							w := newWorld()
							if ix >= 0 {
								w.G.AddNodePropertyIndex("p", lpg.IndexType(ix))
								w.G.AddEdgePropertyIndex("p", lpg.IndexType(ix))
							}
							for _, s := range zooShapes {
								if s.name == seedName {
									s.f(w)
								}
							}
							labels := append(make([]string, 0, 8), ls...)
							props := copyPM(ps)
							if ps == nil {
								props = nil
							}
							lset := set(ls...)
							mess := func() {
								for i := range labels {
									labels[i] = "zz"
								}
								_ = append(labels, "zz")
								if props == nil {
									props = PM{}
								}
								for k := range props {
									props[k] = 77
								}
								props["new"] = 1
								delete(props, "q")
								lset.Add("zz")
								lset.Remove("A")
								lset.AddSet(set("C"))
							}
							switch how {
							case 0:
								w.regNode(w.G.NewNode(labels, props), ls, ps)
							case 1:
								w.NewNode(nil, nil)
								last := len(w.N) - 1
								w.regEdge(w.G.NewEdge(w.N[last], w.N[last], "x", props), last, last, "x", ps)
							case 2, 3:
								w.NewNode([]string{"B"}, nil)
								w.NewNode([]string{"A"}, nil)
								last := len(w.N) - 1
								w.N[last].SetLabels(lset)
								w.M.N[last].Labels = normLabels(ls)
								if how == 3 {
									w.N[last-1].SetLabels(lset)
									w.M.N[last-1].Labels = normLabels(ls)
									w.SetLabels(last, []string{"C"})
								}
							case 4:
								w.NewNode(ls, nil)
								last := len(w.N) - 1
								src := w.M.nodes(allN)[0]
								lset = w.N[src].GetLabels()
								w.N[last].SetLabels(lset)
								w.M.N[last].Labels = append([]string{}, w.M.N[src].Labels...)
							case 5:
								w.NewNode(ls, ps)
								w.nodesOf(w.G.FindNodes(lset, props))
								it := w.G.FindNodes(lset, props)
								_ = it
							}
							mess()
							obsAll(w)
							mess()
							obsAll(w)
							obsIDs(w)
							_ = li
							_ = pi
							c.st.States++
							c.st.Traces++
							c.st.Transitions += 3
							c.st.Checks += w.checks
						})
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C08",
		Bounds: "all histories over 28 operations on two graphs (cross-graph copies and label sharing included) to depth 3 (quick) / 4 (thorough) from an empty and a populated pair; in every state every forbidden edge (removed, foreign, nil endpoint; 4 ways of creating it) is tried; " +
			"identifiers checked in all histories of 3 alphabets to depth 4; all argument edits after 6 kinds of calls; identifiers of copies of whole graphs and of single elements for every member up to size 20 and up to 300 of 8 parametrised families of graphs; ramps of up to 300 nodes; labels and properties of every number up to 300 edited by the caller afterwards; 65606 elements created in the life of a graph of which few are alive",
		Assume: []string{"The Fast* constructors are documented to take over their arguments and are not part of the copying claim; sets are edited through their methods."},
		Tasks: func(th bool) []Task {
			var ts []Task
			seeds := []struct {
				name string
				f    func(w *World)
			}{{"empty", func(w *World) {}}, {"populated", func(w *World) {
				w.NewNode([]string{"A"}, PM{"p": 1})
				w.NewNode([]string{"A", "B"}, PM{"p": 2})
				w.NewEdge(0, 1, "x", PM{"p": 1})
			}}}
			for _, s := range seeds {
				s := s
				for sh := 0; sh < 7; sh++ {
					sh := sh
					ts = append(ts, Task{Name: fmt.Sprintf("two-graphs-%s/%d", s.name, sh), Run: func(c *Ctx) { exploreTwo(c, dt(c.thorough, 3, 4), s.f, sh, 7) }})
				}
			}
			var us []*Universe
			for _, u := range historyUniverses(th) {
				switch u.Name {
				case "mixed", "edges-removed", "nodes-removed":
					if u.Name == "mixed" {
						u.Shards = 4
					}
					if u.Name == "nodes-removed" {
						u.Depth--
					}
					us = append(us, u)
				}
			}
			ts = append(ts, uTasks(us, "ids-", []int{0}, func(w *wx) {
				o := otherWorld()
				obsIDs(w.World)
				obsBadEdges(w.World, o)
				obsContents(w.World)
				obsAll(o)
			})...)
			ts = append(ts, Task{Name: "arguments", Run: argumentCases})
			ts = append(ts, copiedIDTasks(th)...)
			ts = append(ts, argumentSizeTasks(th)...)
			ts = append(ts, rampTask("ramp-60", 60, 11, intKey, nil, func(w *World) { obsIDs(w); obsContents(w) }), rampTask("ramp-300", 300, 97, intKey, nil, func(w *World) { obsIDs(w); obsContents(w) }))
			return append(ts, churnTasks("churn", noIndex, obsIDs)...)
		},
	})
}
