package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// obsContents: what enumerating the graph yields is what the history left (C01).
func obsContents(w *World) {
	w.expect(w.nodesOf(w.G.GetNodes()), w.M.nodes(allN), "GetNodes")
	w.expect(w.edgesOf(w.G.GetEdges()), w.M.edges(allE), "GetEdges")
	w.expect([]int{w.G.NumNodes()}, []int{len(w.M.nodes(allN))}, "NumNodes")
	w.expect([]int{w.G.NumEdges()}, []int{len(w.M.edges(allE))}, "NumEdges")
	var l []int
	if !lpg.ForEachNode(w.G, func(n *lpg.Node) bool { l = append(l, w.nodeIdx(n)); return true }) {
		fail("ForEachNode returned false")
	}
	sort.Ints(l)
	w.expect(l, w.M.nodes(allN), "ForEachNode")
	for i := range w.M.N {
		if !w.M.N[i].Gone {
			w.obsNode(i)
		}
	}
	for i := range w.M.E {
		if !w.M.E[i].Gone {
			w.obsEdge(i)
		}
	}
}

type hasProps interface {
	GetProperty(string) (any, bool)
	ForEachProperty(func(string, any) bool) bool
}

func (w *World) obsProps(what string, p hasProps, want PM) {
	got := PM{}
	n := 0
	p.ForEachProperty(func(k string, v any) bool { got[k] = v; n++; return true })
	w.checks += 2
	if n != len(got) || !sameProps(got, want) {
		fail("%s has properties %s, expected %s", what, propStr(got), propStr(want))
	}
	for k, v := range want {
		x, ok := p.GetProperty(k)
		if !ok || !sameProps(PM{"": x}, PM{"": v}) {
			fail("%s.GetProperty(%q) returns %v,%v, expected %v", what, k, x, ok, v)
		}
	}
	for _, k := range []string{"p", "q", "nokey"} {
		if _, exp := want[k]; !exp {
			if _, ok := p.GetProperty(k); ok {
				fail("%s.GetProperty(%q) finds a property that is not there", what, k)
			}
		}
	}
}

func (w *World) obsNode(i int) {
	n, m := w.N[i], w.M.N[i]
	w.checks++
	if got := n.GetLabels().SortedSlice(); !sameStrs(got, m.Labels) {
		fail("n%d has labels %q, expected %q", i, got, m.Labels)
	}
	for _, l := range append([]string{"A", "B", "nolabel"}, m.Labels...) {
		if n.HasLabel(l) != hasStr(m.Labels, l) {
			fail("n%d.HasLabel(%q) is wrong, labels are %q", i, l, m.Labels)
		}
	}
	w.obsProps(fmt.Sprintf("n%d", i), n, m.Props)
	if n.GetGraph() != w.G {
		fail("n%d.GetGraph() is not its graph", i)
	}
}

func (w *World) obsEdge(i int) {
	e, m := w.E[i], w.M.E[i]
	w.checks++
	if e.GetLabel() != m.Label {
		fail("e%d has label %q, expected %q", i, e.GetLabel(), m.Label)
	}
	if e.GetFrom() != w.N[m.From] || e.GetTo() != w.N[m.To] {
		fail("e%d has wrong endpoints, expected n%d -> n%d", i, m.From, m.To)
	}
	w.obsProps(fmt.Sprintf("e%d", i), e, m.Props)
	if e.GetGraph() != w.G {
		fail("e%d.GetGraph() is not its graph", i)
	}
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// obsAdjacency: every view of the edges around a node agrees with the edge set (C02).
func obsAdjacency(labels []string) func(w *World) {
	return obsAdjacencyOf(labels, subsets(labels))
}

func obsAdjacencyOf(labels []string, labelSubsets [][]string) func(w *World) {
	return func(w *World) {
		m := &w.M
		for i := range m.N {
			if m.N[i].Gone {
				continue
			}
			n := w.N[i]
			for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge, lpg.AnyEdge} {
				inc := func(f func(l string) bool) []int {
					out := []int{}
					for x := range m.E {
						e := &m.E[x]
						if e.Gone || !f(e.Label) {
							continue
						}
						if dir != lpg.IncomingEdge && e.From == i {
							out = append(out, x)
						}
						if dir != lpg.OutgoingEdge && e.To == i && !(dir == lpg.AnyEdge && e.From == i) {
							out = append(out, x)
						}
					}
					return out
				}
				// in AnyEdge listings a loop may appear once or twice
				norm := func(l []int) []int {
					if dir != lpg.AnyEdge {
						return l
					}
					out := []int{}
					for k, x := range l {
						if k > 0 && l[k-1] == x && m.E[x].From == m.E[x].To && (k < 2 || l[k-2] != x) {
							continue
						}
						out = append(out, x)
					}
					return out
				}
				w.expect(norm(w.edgesOf(n.GetEdges(dir))), inc(func(string) bool { return true }), "n%d.GetEdges(%d)", i, dir)
				for _, l := range labels {
					w.expect(norm(w.edgesOf(n.GetEdgesWithLabel(dir, l))), inc(func(s string) bool { return s == l }), "n%d.GetEdgesWithLabel(%d,%q)", i, dir, l)
				}
				for _, ls := range labelSubsets {
					w.expect(norm(w.edgesOf(n.GetEdgesWithAnyLabel(dir, set(ls...)))), inc(func(s string) bool { return len(ls) == 0 || hasStr(ls, s) }), "n%d.GetEdgesWithAnyLabel(%d,%q)", i, dir, ls)
				}
			}
			for _, l := range labels {
				var nx, pv []int
				for x := range m.E {
					if e := &m.E[x]; !e.Gone && e.Label == l {
						if e.From == i {
							nx = append(nx, e.To)
						}
						if e.To == i {
							pv = append(pv, e.From)
						}
					}
				}
				w.expect(w.nodeList(lpg.NextNodesWith(n, l)), uniq(nx), "NextNodesWith(n%d,%q)", i, l)
				w.expect(w.nodeList(lpg.PrevNodesWith(n, l)), uniq(pv), "PrevNodesWith(n%d,%q)", i, l)
			}
			for j := range m.N {
				if m.N[j].Gone {
					continue
				}
				w.expect(w.edgeList(lpg.EdgesBetweenNodes(n, w.N[j])), m.edges(func(_ int, e *MEdge) bool { return e.From == i && e.To == j }), "EdgesBetweenNodes(n%d,n%d)", i, j)
			}
		}
		src := m.nodes(func(i int, _ *MNode) bool { return len(m.edges(func(_ int, e *MEdge) bool { return e.To == i })) == 0 })
		snk := m.nodes(func(i int, _ *MNode) bool {
			return len(m.edges(func(_ int, e *MEdge) bool { return e.From == i })) == 0
		})
		w.expect(w.nodeList(lpg.Sources(w.G)), src, "Sources")
		w.expect(w.nodesOf(lpg.SourcesItr(w.G)), src, "SourcesItr")
		w.expect(w.nodeList(lpg.Sinks(w.G)), snk, "Sinks")
		w.expect(w.nodesOf(lpg.SinksItr(w.G)), snk, "SinksItr")
		var fr, to []int
		for _, x := range m.edges(allE) {
			fr, to = append(fr, m.E[x].From), append(to, m.E[x].To)
		}
		w.expect(w.nodeList(lpg.SourceNodes(w.G.GetEdges())), uniq(fr), "SourceNodes(GetEdges)")
		w.expect(w.nodeList(lpg.TargetNodes(w.G.GetEdges())), uniq(to), "TargetNodes(GetEdges)")
	}
}

// obsLabels: label lookups are exact (C03).
func obsLabels(nodeLabels, edgeLabels []string) func(w *World) {
	ns, es := subsets(nodeLabels), subsets(edgeLabels)
	return func(w *World) {
		for _, ls := range ns {
			w.expect(w.nodesOf(w.G.GetNodesWithAllLabels(set(ls...))), w.M.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) }), "GetNodesWithAllLabels(%q)", ls)
		}
		w.expect(w.nodesOf(w.G.GetNodesWithAllLabels(lpg.StringSet{})), w.M.nodes(allN), "GetNodesWithAllLabels(zero StringSet)")
		for _, ls := range es {
			w.expect(w.edgesOf(w.G.GetEdgesWithAnyLabel(set(ls...))), w.M.edges(func(_ int, e *MEdge) bool { return hasStr(ls, e.Label) }), "GetEdgesWithAnyLabel(%q)", ls)
		}
	}
}

// obsPropLookups: property lookups equal a scan (C04).
func obsPropLookups(keys []string, vals []any) func(w *World) {
	return func(w *World) {
		for _, k := range keys {
			w.expect(w.nodesOf(w.G.GetNodesWithProperty(k)), w.M.nodes(func(_ int, n *MNode) bool { _, ok := n.Props[k]; return ok }), "GetNodesWithProperty(%q)", k)
			w.expect(w.edgesOf(w.G.GetEdgesWithProperty(k)), w.M.edges(func(_ int, e *MEdge) bool { _, ok := e.Props[k]; return ok }), "GetEdgesWithProperty(%q)", k)
			for _, v := range vals {
				q := PM{k: v}
				w.expect(w.nodesOf(w.G.FindNodes(lpg.StringSet{}, q)), w.M.nodes(func(_ int, n *MNode) bool { return propsMatch(n.Props, q) }), "FindNodes({},%s)", propStr(q))
				w.expect(w.edgesOf(w.G.FindEdges(lpg.StringSet{}, q)), w.M.edges(func(_ int, e *MEdge) bool { return propsMatch(e.Props, q) }), "FindEdges({},%s)", propStr(q))
			}
		}
	}
}

// obsFind: find queries select exactly the matching elements, and so do the filters (C05).
func obsFind(nodeLabels, edgeLabels []string, queries []PM) func(w *World) {
	ns, es := subsets(nodeLabels), subsets(edgeLabels)
	return func(w *World) {
		if w.nf == nil {
			w.nf, w.ef = map[string]func(*lpg.Node) bool{}, map[string]func(*lpg.Edge) bool{}
		}
		for qi, q := range queries {
			for li, ls := range ns {
				want := w.M.nodes(func(_ int, n *MNode) bool { return hasAll(n.Labels, ls) && propsMatch(n.Props, q) })
				w.expect(w.nodesOf(w.G.FindNodes(set(ls...), copyPM(q))), want, "FindNodes(%q,%s)", ls, propStr(q))
				f := lpg.GetNodeFilterFunc(set(ls...), copyPM(q))
				w.expect(w.M.nodes(func(i int, _ *MNode) bool { return f(w.N[i]) }), want, "GetNodeFilterFunc(%q,%s)", ls, propStr(q))
				if key := fmt.Sprint(li, qi); w.nf[key] == nil {
					w.nf[key] = f
				} else {
					f := w.nf[key]
					w.expect(w.M.nodes(func(i int, _ *MNode) bool { return f(w.N[i]) }), want, "the function returned by an earlier GetNodeFilterFunc(%q,%s)", ls, propStr(q))
				}
			}
			for li, ls := range es {
				want := w.M.edges(func(_ int, e *MEdge) bool { return (len(ls) == 0 || hasStr(ls, e.Label)) && propsMatch(e.Props, q) })
				w.expect(w.edgesOf(w.G.FindEdges(set(ls...), copyPM(q))), want, "FindEdges(%q,%s)", ls, propStr(q))
				f := lpg.GetEdgeFilterFunc(set(ls...), copyPM(q))
				w.expect(w.M.edges(func(i int, _ *MEdge) bool { return f(w.E[i]) }), want, "GetEdgeFilterFunc(%q,%s)", ls, propStr(q))
				if key := fmt.Sprint(li, qi); w.ef[key] == nil {
					w.ef[key] = f
				} else {
					f := w.ef[key]
					w.expect(w.M.edges(func(i int, _ *MEdge) bool { return f(w.E[i]) }), want, "the function returned by an earlier GetEdgeFilterFunc(%q,%s)", ls, propStr(q))
				}
			}
		}
		w.expect(w.nodesOf(w.G.FindNodes(lpg.StringSet{}, nil)), w.M.nodes(allN), "FindNodes({},nil)")
		w.expect(w.edgesOf(w.G.FindEdges(lpg.StringSet{}, nil)), w.M.edges(allE), "FindEdges({},nil)")
	}
}
