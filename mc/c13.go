package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// leg is a choice of the first edges, made for a node.
type collectCase struct {
	from     int
	dir      int // 1 out, -1 in, 0 any
	leg      int // 0: all edges of the node in the direction, 1: those with label x, 2..: a set of edges
	legSet   []int
	filter   int // 0 all, 1 label x, 2 property p=1, 3..: all but one edge
	min, max int
}

func (k collectCase) String() string {
	leg := []string{"all edges", "edges labeled x", fmt.Sprint("edges ", k.legSet)}[k.leg]
	f := []string{"no filter", "only label x", "only p=1"}
	fs := ""
	if k.filter < 3 {
		fs = f[k.filter]
	} else {
		fs = fmt.Sprint("all but e", k.filter-3)
	}
	return fmt.Sprintf("from n%d, direction %d, first %s, %s, length %d..%d", k.from, k.dir, leg, fs, k.min, k.max)
}

func lpgDir(d int) lpg.EdgeDir {
	switch {
	case d > 0:
		return lpg.OutgoingEdge
	case d < 0:
		return lpg.IncomingEdge
	}
	return lpg.AnyEdge
}

func (w *World) collectRef(k collectCase) []string {
	var out []string
	pass := func(e int) bool {
		me := &w.M.E[e]
		switch k.filter {
		case 0:
			return true
		case 1:
			return me.Label == "x"
		case 2:
			return propsMatch(me.Props, PM{"p": 1})
		}
		return e != k.filter-3
	}
	first := func(e int) bool {
		switch k.leg {
		case 0:
			return true
		case 1:
			return w.M.E[e].Label == "x"
		}
		return hasInt(k.legSet, e)
	}
	ei := &PI{Dir: k.dir, Min: k.min, Max: k.max}
	w.M.trails(k.from, ei, func(_ *PI, e int) bool { return pass(e) }, func(es, ns []int) {
		if first(es[0]) {
			out = append(out, matchStr(append([]int{k.from}, ns...), es, nil, false))
		}
	})
	sort.Strings(out)
	return out
}

// collect runs the library. step is called for each path with its number.
func (w *World) collect(k collectCase, step func(i int, p *lpg.Path) bool) {
	n := w.N[k.from]
	var leg lpg.EdgeIterator
	switch k.leg {
	case 0:
		leg = n.GetEdges(lpgDir(k.dir))
	case 1:
		leg = n.GetEdgesWithLabel(lpgDir(k.dir), "x")
	default:
		es := lpg.NewEdgeSet()
		for _, e := range k.legSet {
			es.Add(w.E[e])
		}
		leg = es.Iterator()
	}
	filter := func(e *lpg.Edge) bool {
		switch k.filter {
		case 0:
			return true
		case 1:
			return e.GetLabel() == "x"
		case 2:
			v, ok := e.GetProperty("p")
			return ok && valEq(v, 1)
		}
		return w.edgeIdx(e) != k.filter-3
	}
	i := 0
	lpg.CollectAllPaths(w.G, n, leg, filter, lpgDir(k.dir), k.min, k.max, func(p *lpg.Path) bool {
		i++
		if i > 200000 {
			fail("%s: does not end", k)
		}
		return step(i, p)
	})
}

func (w *World) checkCollect(k collectCase, maxStop int) (trans int64) {
	want := w.collectRef(k)
	cmp := func(got []string, how string) {
		w.checks++
		sort.Strings(got)
		if !sameStrs(got, want) {
			fail("%s: %s: called back with %d paths\n  %s\nexpected %d\n  %s\nreference:\n%s", k, how, len(got), clip(strings.Join(got, "\n  "), 1500), len(want), clip(strings.Join(want, "\n  "), 1500), w.M.String())
		}
	}
	var got []string
	var kept []*lpg.Path
	w.collect(k, func(i int, p *lpg.Path) bool {
		got = append(got, w.pathStr(p))
		w.connected(nil, p)
		kept = append(kept, p)
		return true
	})
	atCall := append([]string{}, got...)
	for i, p := range kept {
		if s := w.pathStr(p); s != atCall[i] {
			fail("%s: the path given to call %d was %s and is %s after the enumeration", k, i+1, atCall[i], s)
		}
	}
	cmp(got, "plain")
	// the callback ruins its path in several ways
	var loop *lpg.Edge
	for i := range w.M.E {
		loop = w.E[i]
	}
	for how := 0; how < 5; how++ {
		got = nil
		w.collect(k, func(i int, p *lpg.Path) bool {
			got = append(got, w.pathStr(p))
			switch how {
			case 0:
				p.Clear()
			case 1:
				p.RemoveLast()
			case 2: // replace the last edge
				last := p.GetNode(p.NumNodes() - 2)
				p.RemoveLast()
				for it := last.GetEdges(lpg.AnyEdge); it.Next(); {
					if e := it.Edge(); e != nil {
						p.Append(lpg.PathElement{Edge: e, Reverse: e.GetFrom() != last})
						break
					}
				}
			case 3: // go on to somewhere else
				for it := p.Last().GetEdges(lpg.AnyEdge); it.Next(); {
					if e := it.Edge(); e != nil {
						p.Append(lpg.PathElement{Edge: e, Reverse: e.GetFrom() != p.Last()})
						break
					}
				}
			case 4:
				p.SetOnlyNode(p.First())
				p.RemoveLast()
				p.Append(lpg.PathElement{Edge: loop})
			}
			return true
		})
		cmp(got, fmt.Sprint("callback changing its path, way ", how))
	}
	// stop at every call
	for stop := 1; stop <= len(want) && stop <= maxStop; stop++ {
		seen := map[string]bool{}
		n := 0
		w.collect(k, func(i int, p *lpg.Path) bool {
			n = i
			s := w.pathStr(p)
			if j := sort.SearchStrings(want, s); j == len(want) || want[j] != s || seen[s] {
				fail("%s: stopping at call %d: call %d has path %s which is not expected", k, stop, i, s)
			}
			seen[s] = true
			return i < stop
		})
		w.checks++
		if n != stop {
			fail("%s: the callback asked to stop at call %d, but was called %d times", k, stop, n)
		}
		trans += int64(n)
	}
	return trans + 6*int64(len(want))
}

func init() {
	register(&Prop{
		ID: "C13",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges (1 or 2 nodes: 4 edges), with edge labels and properties up to 2 edges, and 6 larger shapes; every start node, 3 directions, every set of first edges, 4 or more edge filters, 14 length bounds; stopping at every callback (shapes: up to the 12th); " +
			"walks from several starts with several lengths, filters and first edges on every member up to a size of 8 parametrised families of graphs (chains, cycles, zigzags, stars, parallel edges, loops, pairs; every size up to 10-14, then those around powers of two up to 34, thorough 66; fewer questions on sizes 65 to 300); " +
			"chains of up to 34 (thorough 70) edges with one oddity, or one edge the filter refuses, at every place; 5 ways of changing the path inside the callback; compared with a brute force enumeration of trails; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"The first edges are edges of the start node in the given direction."},
		Tasks: func(th bool) []Task {
			var ts []Task
			lens := [][2]int{{-1, -1}, {1, 1}, {1, 2}, {2, 2}, {2, -1}, {-1, 1}, {-1, 2}, {1, 3}, {1, -1}, {3, 3}, {2, 3}, {0, 2}, {0, 0}, {5, -1}}
			task := func(name string, graphs []*GSpec, sets bool, maxStop int, shards int) {
				for s := 0; s < shards; s++ {
					s := s
					ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
						for gi, g := range graphs {
							if gi%shards != s {
								continue
							}
							for dir := -1; dir <= 1; dir++ {
								dir := dir
								c.Case(func() string {
									return fmt.Sprintf("graph %s, direction %d, every start, first edges, filter and length", g, dir)
								}, func() {
									w := newWorld()
									g.fill(w, nil, nil)
									for from := range g.Nodes {
										var inc []int
										w.M.step(from, dir, func(e, _ int) { inc = append(inc, e) })
										legs := []collectCase{{leg: 0}, {leg: 1}}
										if sets {
											for _, l := range intSubsets(len(inc)) {
												x := []int{}
												for _, i := range l {
													x = append(x, inc[i])
												}
												legs = append(legs, collectCase{leg: 2, legSet: x})
											}
										}
										for _, k := range legs {
											nf := 3
											if k.leg == 0 {
												nf += len(g.Edges)
											}
											for f := 0; f < nf; f++ {
												for _, l := range lens {
													k := k
													k.from, k.dir, k.filter, k.min, k.max = from, dir, f, l[0], l[1]
													c.st.Transitions += w.checkCollect(k, maxStop)
													c.st.Traces++
												}
											}
										}
									}
									obsContents(w)
									c.st.States++
									c.st.Checks += w.checks
								})
							}
						}
					}})
				}
			}
			small := concat(graphFamily{n: 1, maxE: 4, nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 2, maxE: dt(th, 3, 4), nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 2, minE: 4, maxE: 4, nks: nkPlain[:1], eks: ekPlain[:1]}.list())
			task("small", small, true, 1000, 16)
			three := graphFamily{n: 3, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list()
			task("three-nodes", three, true, 1000, 16)
			task("properties", concat(graphFamily{n: 1, maxE: 2, nks: nkPlain[:1], eks: ekProps}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkPlain[:1], eks: ekProps}.list()), true, 1000, 4)
			for i, g := range bigShapes() {
				task(fmt.Sprint("shape-", i), []*GSpec{g}, th, dt(th, 12, 60), 1)
			}
			task("three-nodes-one-label-four-edges", graphFamily{n: 3, minE: 4, maxE: 4, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), true, 1000, 16)
			task("four-nodes-three-edges", graphFamily{n: 4, minE: 3, maxE: 3, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), true, 1000, 8)
			// every size of the parametrised families
			ts = append(ts, wideTasks("wide", nil, wideSizes(dt(th, 14, 24), dt(th, 34, 66)), []int{0, 1}, func(c *Ctx, f wideFamily, n, kk int, g *GSpec) {
				lens := [][2]int{{-1, -1}, {1, n}, {n, n}, {n - 1, -1}, {n / 2, n - 1}, {2, 2}}
				if !isSparse(f.name) && n > 4 {
					lens = [][2]int{{1, 1}, {1, 2}, {2, 2}}
					if n > 20 {
						lens = lens[:1]
					}
				}
				for dir := -1; dir <= 1; dir++ {
					c.Case(func() string {
						return fmt.Sprintf("%s, direction %d, several starts, first edges, filters and lengths", f.label(n, kk), dir)
					}, func() {
						w := newWorld()
						g.fill(w, nil, nil)
						for _, from := range uniq([]int{0, 1 % len(g.Nodes), len(g.Nodes) / 2, len(g.Nodes) - 1}) {
							var inc []int
							w.M.step(from, dir, func(e, _ int) { inc = append(inc, e) })
							legs := []collectCase{{leg: 0}, {leg: 1}}
							if len(inc) > 1 {
								legs = append(legs, collectCase{leg: 2, legSet: inc[len(inc)/2:]})
							}
							for _, k := range legs {
								for _, fi := range []int{0, 1, 2, 3 + len(g.Edges)/2, 2 + len(g.Edges)} {
									for _, l := range lens {
										if l[0] == 0 || l[1] == 0 {
											continue
										}
										k := k
										k.from, k.dir, k.filter, k.min, k.max = from, dir, fi, l[0], l[1]
										c.st.Transitions += w.checkCollect(k, 12)
										c.st.Traces++
									}
								}
							}
						}
						c.st.States++
						c.st.Checks += w.checks
					})
				}
			})...)
			ts = append(ts, hugeCollectTasks(th)...)
			ts = append(ts, oddCollectTasks(th)...)
			if th {
				task("three-nodes-four-edges", graphFamily{n: 3, minE: 4, maxE: 4, nks: nkPlain[:1], eks: ekPlain}.list(), true, 1000, 48)
				task("four-nodes", graphFamily{n: 4, maxE: 4, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), true, 1000, 32)
			}
			return append(ts, vastTask("vast", vastCollect)...)
		},
	})
}
