package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Graphs with many different names: n node labels, n edge labels and n
// property keys. What depends on the number of names shows here.

func nameL(i int) string { return fmt.Sprint("L", i) }
func nameE(i int) string { return fmt.Sprint("e", i) }
func nameK(i int) string { return fmt.Sprint("k", i) }

// pickNames are a few of n names, and one that does not occur.
func pickNames(n int, name func(int) string) []string {
	var out []string
	for _, i := range uniq([]int{0, 1 % n, n / 2, n - 1, n}) {
		out = append(out, name(i))
	}
	return out
}

func allNames(n int, name func(int) string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name(i))
	}
	return out
}

// nameSets are the label sets asked for: none, single ones, pairs, all, and
// all with one that does not occur.
func nameSets(n int, name func(int) string) [][]string {
	out := [][]string{{}, {name(0)}, {name(n)}, {name(0), name(n - 1)}, {name(n - 1), name(n / 2), name(n)}, allNames(n, name), allNames(n+1, name)}
	if n > 2 {
		out = append(out, allNames(n, name)[1:n-1], []string{name(n / 2), name(n/2 + 1)})
	}
	return out
}

var nameSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 129}

// nameTasks grows a graph of many names around node 0, renames everything and
// removes it, in several orders.
func nameTasks(name string, sizes []int, index func(w *World, n int), observe func(n int) func(w *World)) []Task {
	var ts []Task
	for s := 0; s < 4; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%snames/%d", name, s), Run: func(c *Ctx) {
			for si, n := range sizes {
				if si%4 != s {
					continue
				}
				ob := observe(n)
				for oi, on := range rampOrderNames {
					for when := 0; when < 2; when++ {
						if index == nil && when > 0 {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("%d labels and keys, order %s, index phase %d", n, on, when)
						}, func() {
							defer mapDefault(0)
							mapDefault((2*oi + n) % 8)
							w := newWorld()
							look := func() {
								ob(w)
								c.st.States++
							}
							sparse := func(i int) {
								c.st.Transitions++
								if n <= 6 || i == n/2 || i == n/4 || i == n-2 {
									look()
								}
							}
							if index != nil && when == 0 {
								index(w, n)
							}
							p := PM{}
							for i := 0; i < n; i++ {
								p[nameK(i)] = i % 3
							}
							w.NewNode(allNames(n, nameL), p)
							for i := 0; i < n; i++ {
								j := (i + 1) % n
								w.NewNode([]string{nameL(i), nameL(j)}, PM{nameK(i): 1, nameK(j): 2})
								w.NewEdge(0, i+1, nameE(i), PM{nameK(i): i % 3, nameK(j): 1})
								w.NewEdge(i+1, 0, nameE(i*7%n), PM{nameK(i): 1})
								sparse(i)
							}
							w.NewEdge(0, 0, nameE(n/2), p)
							if index != nil && when == 1 {
								index(w, n)
							}
							look()
							order := rampOrders[on](n)
							for k, i := range order {
								w.SetEdgeLabel(2*i, nameE((i+1)%n))
								w.SetLabels(i+1, []string{nameL((i + 2) % n)})
								w.SetEdgeProp(2*i, nameK((i+3)%n), 2)
								w.DelNodeProp(i+1, nameK(i))
								sparse(k)
							}
							w.SetLabels(0, allNames(n, nameL)[n/2:])
							look()
							for k, i := range order {
								switch k % 3 {
								case 0:
									w.RemoveEdge(2 * i)
								case 1:
									w.RemoveNode(i + 1)
								case 2:
									w.RemoveEdge(2*i + 1)
									w.DelNodeProp(0, nameK(i))
								}
								sparse(k)
							}
							look()
							for _, i := range order {
								if w.M.N[i+1].Gone {
									x := w.NewNode([]string{nameL(i)}, PM{nameK(i): 1})
									w.NewEdge(0, x, nameE(i), PM{nameK(i): 1})
									c.st.Transitions++
								}
							}
							look()
							w.Detach(0)
							look()
							for i := range w.M.N {
								if !w.M.N[i].Gone {
									w.RemoveNode(i)
								}
							}
							look()
							c.st.Traces++
							c.st.Checks += w.checks
						})
					}
				}
			}
		}})
	}
	return ts
}

// obsNames: label lookups among many labels.
func obsNames(n int) func(w *World) {
	ns, es := nameSets(n, nameL), nameSets(n, nameE)
	return func(w *World) {
		for _, ls := range ns {
			w.expect(w.nodesOf(w.G.GetNodesWithAllLabels(set(ls...))), w.M.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) }), "GetNodesWithAllLabels(%q)", ls)
		}
		w.expect(w.nodesOf(w.G.GetNodes()), w.M.nodes(allN), "GetNodes")
		for _, ls := range es {
			w.expect(w.edgesOf(w.G.GetEdgesWithAnyLabel(set(ls...))), w.M.edges(func(_ int, e *MEdge) bool { return hasStr(ls, e.Label) }), "GetEdgesWithAnyLabel(%q)", ls)
		}
		w.expect(w.edgesOf(w.G.GetEdges()), w.M.edges(allE), "GetEdges")
	}
}

// obsFindNames: find queries among many labels and keys.
func obsFindNames(n int) func(w *World) {
	qs := []PM{nil}
	all := PM{}
	for i := 0; i < n; i++ {
		all[nameK(i)] = i % 3
	}
	qs = append(qs, all, PM{nameK(0): 1, nameK(n): 1})
	for _, k := range pickNames(n, nameK) {
		qs = append(qs, PM{k: 1}, PM{k: 2, nameK(0): 1})
	}
	ns, es := nameSets(n, nameL), nameSets(n, nameE)
	return func(w *World) {
		for _, q := range qs {
			for _, ls := range ns {
				want := w.M.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) && propsMatch(n.Props, q) })
				w.expect(w.nodesOf(w.G.FindNodes(set(ls...), copyPM(q))), want, "FindNodes(%q,%s)", ls, propStr(q))
				f := lpg.GetNodeFilterFunc(set(ls...), copyPM(q))
				w.expect(w.M.nodes(func(i int, _ *MNode) bool { return f(w.N[i]) }), want, "GetNodeFilterFunc(%q,%s)", ls, propStr(q))
			}
			for _, ls := range es {
				want := w.M.edges(func(_ int, e *MEdge) bool { return (len(ls) == 0 || hasStr(ls, e.Label)) && propsMatch(e.Props, q) })
				w.expect(w.edgesOf(w.G.FindEdges(set(ls...), copyPM(q))), want, "FindEdges(%q,%s)", ls, propStr(q))
				f := lpg.GetEdgeFilterFunc(set(ls...), copyPM(q))
				w.expect(w.M.edges(func(i int, _ *MEdge) bool { return f(w.E[i]) }), want, "GetEdgeFilterFunc(%q,%s)", ls, propStr(q))
			}
		}
	}
}
