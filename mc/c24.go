package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// setWorld: a node set, an edge set and a label map over the elements of one graph.
type setWorld struct {
	*World
	ns   *lpg.NodeSet
	es   *lpg.EdgeSet
	nm   *lpg.NodeMap
	inNS []bool
	inES []bool
	inNM []bool
}

type setOp struct {
	name string
	ok   func(w *setWorld) bool
	do   func(w *setWorld)
}

func where(b []bool) []int {
	out := []int{}
	for i, x := range b {
		if x {
			out = append(out, i)
		}
	}
	return out
}

func (w *setWorld) observeNodeSet() {
	want := where(w.inNS)
	w.expect(w.nodesOf(w.ns.Iterator()), want, "NodeSet.Iterator")
	w.expect(w.nodeList(w.ns.Slice()), want, "NodeSet.Slice")
	w.expect([]int{w.ns.Len()}, []int{len(want)}, "NodeSet.Len")
	for i := range w.N {
		if w.ns.Has(w.N[i]) != w.inNS[i] {
			fail("NodeSet.Has(n%d) is %v", i, !w.inNS[i])
		}
	}
	w.drained(w.ns.Iterator(), len(want), "NodeSet.Iterator")
	l := w.ns.Slice()
	for i := range l {
		l[i] = nil
	}
}

func (w *setWorld) observeEdgeSet() {
	want := where(w.inES)
	w.expect(w.edgesOf(w.es.Iterator()), want, "EdgeSet.Iterator")
	w.expect(w.edgeList(w.es.Slice()), want, "EdgeSet.Slice")
	w.expect([]int{w.es.Len()}, []int{len(want)}, "EdgeSet.Len")
	for i := range w.E {
		if w.es.Has(w.E[i]) != w.inES[i] {
			fail("EdgeSet.Has(e%d) is %v", i, !w.inES[i])
		}
	}
	w.drained(w.es.Iterator(), len(want), "EdgeSet.Iterator")
	l := w.es.Slice()
	for i := range l {
		l[i] = nil
	}
}

// drained: the estimate is unknown or enough, and the end is final.
func (w *setWorld) drained(it lpg.Iterator, n int, what string) {
	if m := it.MaxSize(); m != -1 && m < n {
		fail("%s estimates %d elements, there are %d", what, m, n)
	}
	k := 0
	for it.Next() {
		k++
	}
	for i := 0; i < 3; i++ {
		if it.Next() {
			fail("%s goes on after its end", what)
		}
	}
	if k != n {
		fail("%s yields %d elements, expected %d", what, k, n)
	}
}

func (w *setWorld) observeNodeMap() {
	all := where(w.inNM)
	w.expect(w.nodesOf(w.nm.Iterator()), all, "NodeMap.Iterator")
	w.drained(w.nm.Iterator(), len(all), "NodeMap.Iterator")
	if w.nm.IsEmpty() != (len(all) == 0) {
		fail("NodeMap.IsEmpty() is %v, there are %d nodes", w.nm.IsEmpty(), len(all))
	}
	for _, ls := range append(subsets([]string{"A", "B", "C"}), []string{"Z"}, []string{"A", "Z"}) {
		var want []int
		for _, i := range all {
			if hasAll(w.M.N[i].Labels, ls) {
				want = append(want, i)
			}
		}
		if want == nil {
			want = []int{}
		}
		w.expect(w.nodesOf(w.nm.IteratorAllLabels(set(ls...))), want, "NodeMap.IteratorAllLabels(%q)", ls)
		w.drained(w.nm.IteratorAllLabels(set(ls...)), len(want), fmt.Sprintf("NodeMap.IteratorAllLabels(%q)", ls))
	}
	w.expect(w.nodesOf(w.nm.IteratorAllLabels(lpg.StringSet{})), all, "NodeMap.IteratorAllLabels(zero StringSet)")
	// two iterators at once
	a, b := w.nm.Iterator(), w.nm.Iterator()
	var la, lb []int
	for i := 0; ; i++ {
		x := false
		if i%3 != 1 && a.Next() {
			la = append(la, w.nodeIdx(a.Node()))
			x = true
		}
		if i%3 != 2 && b.Next() {
			lb = append(lb, w.nodeIdx(b.Node()))
			x = true
		}
		if !x && i > 3*len(all)+6 {
			break
		}
	}
	sort.Ints(la)
	sort.Ints(lb)
	w.expect(append([]int{}, la...), all, "the first of two NodeMap iterators")
	w.expect(append([]int{}, lb...), all, "the second of two NodeMap iterators")
}

func setWorldOf(n int) *setWorld {
	w := &setWorld{World: newWorld(), ns: lpg.NewNodeSet(), es: lpg.NewEdgeSet(), nm: lpg.NewNodeMap()}
	lbl := [][]string{{"A"}, {"A", "B"}, nil, {"B", "C"}}
	for i := 0; i < n; i++ {
		w.NewNode(lbl[i%4], nil)
	}
	for i := 0; i < n; i++ {
		w.NewEdge(i, (i+1)%n, "x", nil)
	}
	w.inNS, w.inES, w.inNM = make([]bool, n), make([]bool, n), make([]bool, n)
	return w
}

// exploreSets runs every sequence of operations.
func exploreSets(c *Ctx, n int, ops []setOp, depth int, offs []int, observe func(w *setWorld), shard, shards int) {
	type hist []int
	build := func(h hist, off int) *setWorld {
		mapDefault(off)
		w := setWorldOf(n)
		for _, o := range h {
			ops[o].do(w)
		}
		return w
	}
	seen := map[fpKey]bool{}
	frontier := []hist{{}}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []hist
		for _, h := range frontier {
			w := build(h, 0)
			for o := range ops {
				if d == 0 && o%shards != shard || ops[o].ok != nil && !ops[o].ok(w) {
					continue
				}
				nh := append(append(hist{}, h...), o)
				c.st.Transitions++
				fresh := false
				ok := c.Case(func() string {
					var s []string
					for _, x := range nh {
						s = append(s, ops[x].name)
					}
					return fmt.Sprintf("%d nodes and edges: %s", n, strings.Join(s, "; "))
				}, func() {
					defer mapDefault(0)
					for _, off := range offs {
						w := build(nh, off)
						if off == offs[0] {
							k := fingerprint("", w.G, w.N, w.E, w.M, w.ns, w.es, w.nm, w.inNS, w.inES, w.inNM)
							if seen[k] {
								return
							}
							seen[k] = true
							fresh = true
						}
						if msg := runGuarded(func() { observe(w) }); msg != "" {
							delete(seen, fingerprint("", w.G, w.N, w.E, w.M, w.ns, w.es, w.nm, w.inNS, w.inES, w.inNM))
							fail("map iteration starting at %d: %s", off, msg)
						}
						c.st.Checks += w.checks
					}
				})
				if ok && fresh {
					c.st.States++
					c.st.Traces++
					next = append(next, nh)
				}
			}
		}
		frontier = next
	}
}

func init() {
	register(&Prop{
		ID:     "C24",
		Bounds: "all sequences of add and remove on a node set and an edge set over 5 elements until no new memory state appears within depth 9 (thorough: 6 elements, depth 11), and on both together; all sequences of add, remove and relabel (to each of 5 label sets, node relabeled before or after the map) on a label map over 3 nodes to depth 5 (thorough: 6), 2 nodes to depth 6 (thorough: 8) and 4 nodes to depth 4 (thorough: 5), map iteration starting at each of 8 positions; growing and shrinking to 60, 130 and 300 elements in 3 orders and 3 modes; label maps over every number of labels up to 20 and selected ones up to 300, their nodes with every pair of labels, with one label each, with runs of labels, or with all of them; nodes relabeled to and from up to 300 labels; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); sets of 65606 elements",
		Assume: []string{"The elements of a set belong to one graph. A label map is told of every change of the labels of its nodes; nodes that are not in it are not relabeled through it."},
		Tasks: func(th bool) []Task {
			var ts []Task
			{
				n := dt(th, 5, 6)
				var nops, eops []setOp
				for i := 0; i < n; i++ {
					i := i
					nops = append(nops, setOp{fmt.Sprintf("NodeSet.Add(n%d)", i), nil, func(w *setWorld) { w.ns.Add(w.N[i]); w.inNS[i] = true }},
						setOp{fmt.Sprintf("NodeSet.Remove(n%d)", i), nil, func(w *setWorld) { w.ns.Remove(w.N[i]); w.inNS[i] = false }})
					eops = append(eops, setOp{fmt.Sprintf("EdgeSet.Add(e%d)", i), nil, func(w *setWorld) { w.es.Add(w.E[i]); w.inES[i] = true }},
						setOp{fmt.Sprintf("EdgeSet.Remove(e%d)", i), nil, func(w *setWorld) { w.es.Remove(w.E[i]); w.inES[i] = false }})
				}
				ts = append(ts, Task{Name: "node-set", Run: func(c *Ctx) {
					exploreSets(c, n, nops, dt(th, 9, 11), []int{0}, (*setWorld).observeNodeSet, 0, 1)
				}}, Task{Name: "edge-set", Run: func(c *Ctx) {
					exploreSets(c, n, eops, dt(th, 9, 11), []int{0}, (*setWorld).observeEdgeSet, 0, 1)
				}}, Task{Name: "both", Run: func(c *Ctx) {
					rm := setOp{"n0 removed from the graph", func(w *setWorld) bool { return !w.M.N[0].Gone }, func(w *setWorld) { w.RemoveNode(0) }}
					exploreSets(c, n, append(append([]setOp{rm}, nops[:6]...), eops[:6]...), dt(th, 5, 6), []int{0}, func(w *setWorld) { w.observeNodeSet(); w.observeEdgeSet(); obsContents(w.World) }, 0, 1)
				}})
			}
			var mops []setOp
			relabels := [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {"C", "A"}}
			mapOps := func(n int) []setOp {
				mops = nil
				for i := 0; i < n; i++ {
					i := i
					in := func(w *setWorld) bool { return w.inNM[i] }
					mops = append(mops, setOp{fmt.Sprintf("NodeMap.Add(n%d)", i), nil, func(w *setWorld) { w.nm.Add(w.N[i]); w.inNM[i] = true }},
						setOp{fmt.Sprintf("NodeMap.Remove(n%d)", i), nil, func(w *setWorld) { w.nm.Remove(w.N[i]); w.inNM[i] = false }})
					for _, ls := range relabels {
						ls := ls
						for _, first := range []bool{false, true} {
							first := first
							mops = append(mops, setOp{fmt.Sprintf("n%d relabeled to %q (node first: %v)", i, ls, first), in, func(w *setWorld) {
								old := w.N[i].GetLabels()
								if first {
									w.SetLabels(i, ls)
								}
								w.nm.Replace(w.N[i], old, set(ls...))
								if !first {
									w.SetLabels(i, ls)
								}
							}})
						}
						mops = append(mops, setOp{fmt.Sprintf("n%d, not in the map, relabeled to %q", i, ls), func(w *setWorld) bool { return !w.inNM[i] }, func(w *setWorld) { w.SetLabels(i, ls) }})
					}
				}
				return mops
			}
			for _, x := range []struct{ n, depth int }{{2, dt(th, 6, 8)}, {3, dt(th, 5, 6)}, {4, dt(th, 4, 5)}} {
				x := x
				for sh := 0; sh < 8; sh++ {
					sh := sh
					ts = append(ts, Task{Name: fmt.Sprintf("label-map-%d/%d", x.n, sh), Run: func(c *Ctx) {
						exploreSets(c, x.n, mapOps(x.n), x.depth, []int{0, 1, 2, 3, 4, 5, 6, 7}, (*setWorld).observeNodeMap, sh, 8)
					}})
				}
			}
			ts = append(ts, Task{Name: "ramp", Run: func(c *Ctx) {
				const n = 60
				for _, stride := range []int{1, 7, 59} {
					stride := stride
					for off := 0; off < 8; off++ {
						off := off
						c.Case(func() string {
							return fmt.Sprintf("%d elements added and removed with stride %d, map iteration starting at %d", n, stride, off)
						}, func() {
							defer mapDefault(0)
							mapDefault(off)
							w := setWorldOf(n)
							for round := 0; round < 2; round++ {
								for k := 0; k < 2*n; k++ {
									i := k * stride % n
									if k < n {
										w.ns.Add(w.N[i])
										w.es.Add(w.E[i])
										w.nm.Add(w.N[i])
									} else {
										w.ns.Remove(w.N[i])
										w.es.Remove(w.E[i])
										w.nm.Remove(w.N[i])
									}
									w.inNS[i], w.inES[i], w.inNM[i] = k < n, k < n, k < n
									w.observeNodeSet()
									w.observeEdgeSet()
									if k%6 == 0 {
										w.observeNodeMap()
									}
									c.st.States++
									c.st.Transitions++
								}
							}
							c.st.Traces++
							c.st.Checks += w.checks
						})
					}
				}
			}})
			return append(append(ts, hugeSetTasks(th)...), append(manyRelabelTasks(th), append(similarMaps(), vastTask("vast", vastSets)...)...)...)
		},
	})
}
