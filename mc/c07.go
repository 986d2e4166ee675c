package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// unchanged runs f and verifies that nothing observable about the graph
// changed. The fingerprint only saves the comparison when nothing at all did.
func (w *World) unchanged(what string, f func()) {
	before := fingerprint("", w.G, w.N, w.E)
	f()
	w.checks++
	if fingerprint("", w.G, w.N, w.E) != before {
		if msg := runGuarded(func() { obsAll(w) }); msg != "" {
			fail("%s changed the graph: %s", what, msg)
		}
	}
}

// tampers edit what reads return.
func tampers() []read {
	var ts []read
	add := func(name string, f func(w *World)) {
		ts = append(ts, read{name, func(w *World, _ func()) string { f(w); return "" }})
	}
	add("edit the label set of a node", func(w *World) {
		for _, i := range w.M.nodes(allN) {
			l := w.N[i].GetLabels()
			l.Add("zz", "A")
			l.Remove("A")
			l2 := w.N[i].GetLabels()
			l2.Remove(l2.Slice()...)
			l3 := w.N[i].GetLabels()
			l3.AddSet(set("B", "zz"))
			sl := w.N[i].GetLabels().Slice()
			for k := range sl {
				sl[k] = "zz"
			}
		}
	})
	add("edit node and edge slices", func(w *World) {
		nodes := lpg.NodeSlice(w.G.GetNodes())
		edges := lpg.EdgeSlice(w.G.GetEdges())
		for i := range nodes {
			nodes[i] = nil
		}
		sort.Slice(edges, func(i, j int) bool { return i > j })
		for i := range edges {
			edges[i] = nil
		}
		for _, i := range w.M.nodes(allN) {
			for _, j := range w.M.nodes(allN) {
				l := lpg.EdgesBetweenNodes(w.N[i], w.N[j])
				for k := range l {
					l[k] = nil
				}
			}
			l := lpg.NextNodesWith(w.N[i], "x")
			for k := range l {
				l[k] = nil
			}
		}
		for _, l := range [][]*lpg.Node{lpg.Sources(w.G), lpg.Sinks(w.G)} {
			for k := range l {
				l[k] = nil
			}
		}
	})
	add("edit matches", func(w *World) {
		for _, rp := range readPatterns {
			want := &cbAcc{w: w, cb: func() {}}
			rp.p().Run(w.G, nil, want)
			acc := &cbAcc{w: w, cb: func() {}, tap: func(p *lpg.Path, sym map[string]any) {
				for k, v := range sym {
					if q, ok := v.(*lpg.Path); ok && q != p {
						_ = q
					}
					delete(sym, k)
				}
				sym["junk"] = 1
				p.RemoveLast()
				p.Clear()
			}}
			rp.p().Run(w.G, nil, acc)
			acc2, _ := rp.p().FindPaths(w.G, nil)
			for _, p := range acc2.Paths {
				p.RemoveLast().RemoveLast().Clear()
			}
			for i := range acc2.Symbols {
				acc2.Symbols[i] = nil
			}
		}
	})
	add("edit collected paths", func(w *World) {
		for _, i := range w.M.nodes(allN) {
			n := w.N[i]
			lpg.CollectAllPaths(w.G, n, n.GetEdges(lpg.AnyEdge), func(e *lpg.Edge) bool { return true }, lpg.AnyEdge, 1, 3, func(p *lpg.Path) bool {
				p.RemoveLast()
				p.Clear()
				p.SetOnlyNode(n)
				return true
			})
		}
	})
	add("edit node and edge sets", func(w *World) {
		ns, es, nm := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
		for _, i := range w.M.nodes(allN) {
			ns.Add(w.N[i])
			nm.Add(w.N[i])
		}
		for _, i := range w.M.edges(allE) {
			es.Add(w.E[i])
		}
		for _, i := range w.M.nodes(allN) {
			ns.Remove(w.N[i])
			nm.Remove(w.N[i])
		}
		for _, i := range w.M.edges(allE) {
			es.Remove(w.E[i])
		}
	})
	add("edit a copy", func(w *World) {
		t := lpg.NewGraph()
		m := lpg.CopyGraph(w.G, t, func(k string, v any) any { return v })
		for k, n := range m {
			n.SetLabels(set("zz"))
			n.SetProperty("p", "zz")
			n.RemoveProperty("q")
			delete(m, k)
		}
		for _, e := range lpg.EdgeSlice(t.GetEdges()) {
			e.SetProperty("p", "zz")
			e.SetLabel("zz")
			e.Remove()
		}
		for _, n := range lpg.NodeSlice(t.GetNodes()) {
			n.DetachAndRemove()
		}
	})
	add("edit cursor paths", func(w *World) {
		for _, i := range w.M.nodes(allN) {
			c := new(lpg.Cursor).Set(w.N[i]).StartPath()
			for it := c.Forward(); it.Next(); {
				c.PushToPath(it.Edge())
				c.GetPath().Clone().RemoveLast()
				c.PopFromPath()
			}
			c.PopFromPath()
			c.Set(nil)
		}
	})
	add("look up absent things", func(w *World) {
		w.G.GetNodesWithAllLabels(set("zz")).Next()
		w.G.GetEdgesWithAnyLabel(set("zz")).Next()
		w.G.GetNodesWithProperty("zz").Next()
		w.G.GetEdgesWithProperty("zz").Next()
		w.G.FindNodes(set("zz"), PM{"zz": 1}).Next()
		w.G.FindEdges(set("zz"), PM{"p": 99}).Next()
		w.G.FindNodes(set(), PM{"p": 99}).Next()
		for _, i := range w.M.nodes(allN) {
			w.N[i].GetProperty("zz")
			w.N[i].HasLabel("zz")
			w.N[i].GetEdgesWithLabel(lpg.AnyEdge, "zz").Next()
			w.N[i].GetEdgesWithAnyLabel(lpg.IncomingEdge, set("zz", "x")).Next()
		}
	})
	return ts
}

func init() {
	register(&Prop{
		ID:     "C07",
		Bounds: "29 reads x 29 reads over 21 graphs (with and without indexes): each read alone, each pair in sequence, and each read started from every callback (first 6 and all) of each other, on the same graph and (first 2 and all) on two other graphs; 8 kinds of edits of returned values; every read, alone and inside of itself, on 6 parametrised families of graphs of up to 17 elements; every read in all states of 2 alphabets to depth 3 (quick) / 4 (thorough); a graph of every kind of property value; reads repeated up to 300 times",
		Tasks: func(th bool) []Task {
			var ts []Task
			reads := append(allReads(), tampers()...)
			nop := func() {}
			maxK := dt(th, 6, 40)
			zs := append(zoo(indexKinds), ZG{"values", valueGraph})
			for zi, z := range zs {
				z := z
				others := []ZG{zs[(zi+1)%len(zs)], zs[(zi+7)%len(zs)]}
				ts = append(ts, Task{Name: "two-graphs-" + z.Name, Run: func(c *Ctx) {
					for oi := range reads {
						for ii := range reads {
							for _, y := range others {
								outer, inner := reads[oi], reads[ii]
								c.Case(func() string {
									return fmt.Sprintf("%q on graph %s, with %q on graph %s inside of it", outer.name, z.Name, inner.name, y.Name)
								}, func() {
									ro := outer.run(z.Build(), nop)
									ri := inner.run(y.Build(), nop)
									w, o := z.Build(), y.Build()
									for k := 0; k < 3; k++ {
										n := 0
										r := outer.run(w, func() {
											n++
											if k == 0 && n < 40 || n == k {
												c.st.Transitions++
												if got := inner.run(o, nop); got != ri {
													fail("%q started on another graph from callback %d of %q returns\n%s\ninstead of\n%s", inner.name, n, outer.name, got, ri)
												}
											}
										})
										if r != ro {
											fail("%q returns\n%s\ninstead of\n%s when %q is started on another graph from its callback %d (0: all)", outer.name, r, ro, inner.name, k)
										}
										c.st.Traces++
									}
									obsAll(w)
									obsAll(o)
									c.st.States++
									c.st.Checks += w.checks + o.checks
								})
							}
						}
					}
				}})
				ts = append(ts, Task{Name: "nested-" + z.Name, Run: func(c *Ctx) {
					for oi := range reads {
						for ii := range reads {
							outer, inner := reads[oi], reads[ii]
							c.Case(func() string {
								return fmt.Sprintf("graph %s: %q, then %q, then the second inside of the first", z.Name, outer.name, inner.name)
							}, func() {
								w := z.Build()
								var ro, ri, ri2 string
								calls := 0
								w.unchanged(outer.name, func() { ro = outer.run(w, func() { calls++ }) })
								w.unchanged(inner.name, func() { ri = inner.run(w, nop) })
								w2 := z.Build()
								ri2 = inner.run(w2, nop)
								if ri != ri2 {
									fail("%q returns something else after %q:\n%s\ninstead of\n%s", inner.name, outer.name, ri, ri2)
								}
								c.st.Transitions += 3
								for k := 0; k <= calls && k <= maxK; k++ {
									n := 0
									w.unchanged(fmt.Sprintf("%q inside of %q", inner.name, outer.name), func() {
										r := outer.run(w, func() {
											n++
											if k == 0 && n < 40 || n == k {
												c.st.Transitions++
												if got := inner.run(w, nop); got != ri {
													fail("%q started from callback %d of %q returns\n%s\ninstead of\n%s", inner.name, n, outer.name, got, ri)
												}
											}
										})
										if r != ro {
											fail("%q returns\n%s\ninstead of\n%s when %q is started from its callback %d (0: all)", outer.name, r, ro, inner.name, k)
										}
									})
									c.st.Traces++
								}
								obsAll(w)
								c.st.States++
								c.st.Checks += w.checks
							})
						}
					}
				}})
			}
			var us []*Universe
			for _, u := range historyUniverses(th) {
				if u.Name == "mixed" || u.Name == "edges-removed" {
					u.Depth -= 1
					us = append(us, u)
				}
			}
			ts = append(ts, uTasks(us, "states-", []int{0}, func(w *wx) {
				for _, r := range reads {
					w.unchanged(r.name, func() { r.run(w.World, nop) })
				}
				obsAll(w.World)
			})...)
			return append(append(ts, wideReadTasks(th)...), repeatTasks(th)...)
		},
	})
}
