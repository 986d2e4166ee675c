package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// build is a way to arrive at a given graph: everything in it is invisible in
// the result, except for the unrelated elements.
type build struct {
	ix     int  // index type on "p" of nodes and edges, or -1
	late   bool // the index is declared after the graph was built
	noise  int
	edited bool // properties, labels and elements arrive by edits and removals
	rev    bool // noise is created before the graph
}

func (b build) String() string {
	s := ixLabel(b.ix)
	if b.late {
		s += " declared last"
	}
	if b.edited {
		s += ", built by edits"
	}
	return s + fmt.Sprintf(", unrelated elements %d (first=%v)", b.noise, b.rev)
}

// unrelated elements, not connected to the graph. They use the same labels and
// properties, so they change every size estimate.
func (b build) addNoise(w *World) {
	switch b.noise {
	case 1: // many isolated nodes
		for i := 0; i < 7; i++ {
			w.NewNode(nil, nil)
		}
	case 2: // many edges of the labels in use
		for i := 0; i < 4; i++ {
			a := w.NewNode([]string{"noise"}, PM{"p": 9})
			w.NewEdge(a, a, "x", PM{"p": 9})
			w.NewEdge(a, a, "y", nil)
		}
	case 3: // a similar component
		n := len(w.N)
		w.NewNode([]string{"A"}, PM{"p": 1})
		w.NewNode([]string{"A", "B"}, PM{"p": 2})
		w.NewNode([]string{"B"}, PM{"p": 1})
		w.NewEdge(n, n+1, "x", PM{"p": 1})
		w.NewEdge(n+1, n, "y", PM{"p": 1})
		w.NewEdge(n+1, n+2, "x", nil)
	case 4: // one isolated node with everything
		w.NewNode([]string{"A", "B"}, PM{"p": 1})
	}
}

// world builds g; the elements of g have the numbers from n0 and e0 on.
func (b build) world(g *GSpec, norder, eorder []int) (w *World, n0, e0 int) {
	w = newWorld()
	index := func() {
		if b.ix >= 0 {
			w.G.AddNodePropertyIndex("p", lpg.IndexType(b.ix))
			w.G.AddEdgePropertyIndex("p", lpg.IndexType(b.ix))
		}
	}
	if !b.late {
		index()
	}
	if b.rev {
		b.addNoise(w)
	}
	if b.edited {
		x, y := w.NewNode([]string{"A"}, PM{"p": 1}), w.NewNode([]string{"B"}, PM{"p": 2})
		w.NewEdge(x, y, "x", PM{"p": 1})
		e := w.NewEdge(y, y, "x", PM{"p": 1})
		w.NewEdge(y, x, "y", nil)
		w.RemoveEdge(e)
		n0, e0 = len(w.N), len(w.E)
		// the same elements, with contents that change afterwards
		bare := &GSpec{NKs: make([]NK, len(g.NKs)), EKs: make([]EK, len(g.EKs)), Nodes: g.Nodes, Edges: g.Edges}
		for i := range g.NKs {
			bare.NKs[i] = NK{L: []string{"B", "old"}, P: PM{"p": 2, "old": 1}}
		}
		for i := range g.EKs {
			bare.EKs[i] = EK{L: "old", P: PM{"p": 2}}
		}
		bare.fill(w, norder, eorder)
		w.RemoveNode(x)
		for k := range g.Edges {
			ek := g.EKs[g.Edges[k].Kind]
			w.DelEdgeProp(e0+k, "p")
			for p, v := range ek.P {
				w.SetEdgeProp(e0+k, p, v)
			}
			w.SetEdgeLabel(e0+k, ek.L)
		}
		for i, k := range g.Nodes {
			w.SetLabels(n0+i, g.NKs[k].L)
			w.DelNodeProp(n0+i, "p")
			w.DelNodeProp(n0+i, "old")
			for p, v := range g.NKs[k].P {
				w.SetNodeProp(n0+i, p, v)
			}
		}
		for i := range g.Nodes {
			w.NewEdge(n0+i, y, "x", nil)
		}
		w.RemoveNode(y)
	} else {
		n0, e0 = len(w.N), len(w.E)
		g.fill(w, norder, eorder)
	}
	if !b.rev {
		b.addNoise(w)
	}
	if b.late {
		index()
	}
	return
}

// coreMatches runs the pattern and returns the matches within g, in terms of
// its element numbers. back reads the paths from the end.
func (w *World) coreMatches(p Pat, syms *Syms, n0, e0, n int, back bool) []string {
	var ls map[string]*lpg.PatternSymbol
	if syms != nil {
		s := &Syms{N: map[string][]int{}, E: map[string][]int{}}
		for k, l := range syms.N {
			s.N[k] = shift(l, n0)
		}
		for k, l := range syms.E {
			s.E[k] = shift(l, e0)
		}
		ls = s.lpg(w)
	}
	acc, err := p.lpg().FindPaths(w.G, ls)
	if err != nil {
		fail("%s: error %v", p, err)
	}
	out := []string{}
	for i, path := range acc.Paths {
		ns, es := []int{}, []int{}
		inside := true
		for k := 0; k < path.NumNodes(); k++ {
			x := w.nodeIdx(path.GetNode(k)) - n0
			inside = inside && x >= 0 && x < n
			ns = append(ns, x)
		}
		for k := 0; k < path.NumEdges(); k++ {
			es = append(es, w.edgeIdx(path.GetEdge(k))-e0)
		}
		if !inside {
			continue
		}
		sym := map[string]string{}
		for k, v := range acc.Symbols[i] {
			switch x := v.(type) {
			case *lpg.Node:
				sym[k] = fmt.Sprint("n", w.nodeIdx(x)-n0)
			case *lpg.Path:
				l := []int{}
				for j := 0; j < x.NumEdges(); j++ {
					l = append(l, w.edgeIdx(x.GetEdge(j))-e0)
				}
				sym[k] = edgeSetStr(l)
			default:
				fail("%s: symbol %s is a %T", p, k, v)
			}
		}
		out = append(out, matchStr(ns, es, sym, back))
	}
	sort.Strings(out)
	return out
}

func shift(l []int, by int) []int {
	out := []int{}
	for _, x := range l {
		out = append(out, x+by)
	}
	return out
}

func allBuilds(full bool) []build {
	var out []build
	for _, ix := range []int{-1, int(lpg.HashIndex), int(lpg.BtreeIndex)} {
		for _, late := range []bool{false, true} {
			for noise := 0; noise <= 4; noise++ {
				for _, edited := range []bool{false, true} {
					for _, rev := range []bool{false, true} {
						if ix < 0 && late || noise == 0 && rev || !full && late && noise > 1 {
							continue
						}
						out = append(out, build{ix, late, noise, edited, rev})
					}
				}
			}
		}
	}
	return out
}

// planTask compares every pattern in every build and creation order of a graph
// with the first build.
func planTask(name string, graphs []*GSpec, pats []Pat, syms func(g *GSpec) []*Syms, builds, orderBuilds []build, maxMatches int, shards int) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
			for gi, g := range graphs {
				if gi%shards != s {
					continue
				}
				type world struct {
					b              build
					norder, eorder []int
				}
				var ws []world
				for _, b := range builds {
					ws = append(ws, world{b, nil, nil})
				}
				for _, b := range orderBuilds {
					nps, eps := perms, perms
					if len(g.Nodes) > 5 || len(g.Edges) > 6 {
						nps, eps = someOrders, someOrders
					}
					for i, np := range nps(len(g.Nodes)) {
						for j, ep := range eps(len(g.Edges)) {
							if i+j > 0 && (len(g.Edges) < 4 || i == 0 || j == 0) {
								ws = append(ws, world{b, np, ep})
							}
						}
					}
				}
				c.Case(func() string {
					return fmt.Sprintf("graph %s, %d patterns, %d ways to build it", g, len(pats), len(ws))
				}, func() {
					checks := int64(0)
					for _, sy := range syms(g) {
						base, n0, e0 := build{ix: -1}.world(g, nil, nil)
						ref := make([][]string, len(pats))
						rev := make([][]string, len(pats))
						skip := make([]bool, len(pats))
						for i, p := range pats {
							if _, ok := base.M.refMatchesMax(p, nil, maxMatches); !ok {
								skip[i] = true
								continue
							}
							ref[i] = base.coreMatches(p, sy, n0, e0, len(g.Nodes), false)
							rev[i] = base.coreMatches(p.mirror(), sy, n0, e0, len(g.Nodes), true)
							if !sameStrs(ref[i], rev[i]) {
								fail("%s (supplied %s) and the mirrored pattern %s do not have the same matches\nfirst:\n  %s\nmirrored, read backwards:\n  %s\ngraph:\n%s", p, sy, p.mirror(), strings.Join(ref[i], "\n  "), strings.Join(rev[i], "\n  "), base.M.String())
							}
							checks++
						}
						for _, x := range ws {
							w, n0, e0 := x.b.world(g, x.norder, x.eorder)
							for i, p := range pats {
								if skip[i] {
									continue
								}
								for _, back := range []bool{false, true} {
									q := p
									if back {
										q = p.mirror()
									}
									got := w.coreMatches(q, sy, n0, e0, len(g.Nodes), back)
									checks++
									if !sameStrs(got, ref[i]) {
										fail("%s (supplied %s) has other matches than in the plain graph when built with %s, nodes in order %v, edges in order %v\nthere:\n  %s\nplain:\n  %s\ngraph:\n%s", q, sy, x.b, x.norder, x.eorder, strings.Join(got, "\n  "), strings.Join(ref[i], "\n  "), base.M.String())
									}
								}
							}
							c.st.States++
							c.st.Traces += int64(2 * len(pats))
						}
					}
					c.st.Checks += checks
					c.st.Transitions += checks
				})
			}
		}})
	}
	return ts
}

func init() {
	register(&Prop{
		ID: "C12",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges (with properties: 2 nodes and 2 edges), and 6 larger shapes; each built in every node and edge creation order, without and with hash and btree indexes declared first or last, with 5 kinds of unrelated elements before or after, directly or by edits and removals; " +
			"all patterns with 0-2 (shapes: 3) relationships of a mixed catalogue (fixed and variable length, all directions, labels, property conditions, repeated names, supplied sets), and their mirror images; 8 parametrised families of graphs in every size up to 5 and those around powers of two up to 17, in 9 orders, and of 65, 129 and 300 elements; all variants are compared with one another",
		Assume: []string{"Length bounds are at least one, or -1; query values are not nil."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nAny, nA, nP := PI{}, PI{L: []string{"A"}}, PI{P: PM{"p": 1}}
			nAP := PI{L: []string{"A"}, P: PM{"p": 1}}
			ex, ep := PI{L: []string{"x"}}, PI{P: PM{"p": 1}}
			few := [][2]int{{1, 1}, {1, 2}, {-1, -1}}
			structural := append([]Pat{{nAny}, {nA}}, patterns(1, []PI{nAny, nA}, rel(allDirs, []PI{{}, ex}, append(few, [2]int{2, 2})))...)
			structural = append(structural, patterns(2, []PI{nAny}, rel(allDirs, []PI{{}}, few))...)
			structural = append(structural, patterns(2, []PI{nA, nAny}, rel([]int{1, 0}, []PI{ex}, one))...)
			for _, p := range namings(patterns(2, []PI{nAny}, rel(allDirs, []PI{{}}, one)), []string{"", "a"}, []string{"", "e"}, func(p Pat) bool { return p.repeats() }) {
				structural = append(structural, p)
			}
			props := append([]Pat{{nP}, {nAP}}, patterns(1, []PI{nAny, nA, nP, nAP}, rel(allDirs, []PI{{}, ep, {L: []string{"x"}, P: PM{"p": 1}}}, [][2]int{{1, 1}, {1, 2}}))...)
			props = append(props, patterns(2, []PI{nAny, nP}, rel([]int{1, 0}, []PI{{}, ep}, one))...)
			bs, some := allBuilds(true), allBuilds(false)
			// without property conditions an index is never asked
			noIx := []build{{ix: int(lpg.HashIndex), late: true}, {ix: int(lpg.BtreeIndex), edited: true}}
			for _, b := range some {
				if b.ix < 0 || th {
					noIx = append(noIx, b)
				}
			}
			orders := []build{{ix: -1}, {ix: -1, noise: 1}}
			ixOrders := []build{{ix: int(lpg.HashIndex)}, {ix: int(lpg.BtreeIndex), noise: 2}}
			small := concat(graphFamily{n: 1, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkPlain, eks: ekPlain}.list())
			ts = append(ts, planTask("structure", small, structural, noSyms, noIx, orders[dt(th, 1, 0):], 200, 16)...)
			three := graphFamily{n: 3, minE: 1, maxE: 2, nks: nkPlain, eks: ekPlain[:1]}.list()
			three = append(three, graphFamily{n: 3, minE: 3, maxE: 3, nks: nkPlain[:1], eks: ekPlain[:1]}.list()...)
			if th {
				three = graphFamily{n: 3, maxE: 3, nks: nkPlain, eks: ekPlain}.list()
			}
			ts = append(ts, planTask("structure-three", three, structural, noSyms, noIx, orders[dt(th, 1, 0):], 200, dt(th, 16, 64))...)
			pg := concat(graphFamily{n: 1, maxE: 2, nks: nkProps[1:4], eks: ekProps}.list(), graphFamily{n: 2, minE: 1, maxE: dt(th, 1, 2), nks: nkProps[:4], eks: ekProps}.list())
			ts = append(ts, planTask("properties", pg, props, noSyms, bs, ixOrders, 200, 16)...)
			shp := append(append([]Pat{}, structural...), props...)
			shp = append(shp, patterns(3, []PI{nAny}, rel(allDirs, []PI{{}}, one))...)
			shp = append(shp, patterns(3, []PI{nA, nAny}, rel([]int{1, 0}, []PI{ex}, one))...)
			for i, g := range bigShapes() {
				ob := ixOrders[:1]
				if len(g.Nodes)+len(g.Edges) > 8 {
					ob = nil
				}
				ts = append(ts, planTask(fmt.Sprintf("shape-%d", i), []*GSpec{g}, shp, noSyms, some, ob, dt(th, 100, 1000), 1)...)
			}
			// supplied sets
			supplied := func(g *GSpec) []*Syms {
				var out []*Syms
				for _, l := range intSubsets(len(g.Nodes)) {
					out = append(out, &Syms{N: map[string][]int{"a": l}})
				}
				for _, l := range intSubsets(len(g.Edges)) {
					out = append(out, &Syms{E: map[string][]int{"e": l}})
				}
				return out
			}
			sp := namings(append(patterns(1, []PI{nAny, nA}, rel(allDirs, []PI{{}}, one)), patterns(2, []PI{nAny}, rel([]int{1, 0}, []PI{{}}, one))...), []string{"", "a"}, []string{"", "e"}, func(p Pat) bool {
				a, e := false, false
				for _, x := range p {
					a, e = a || x.Name == "a", e || x.Name == "e"
				}
				return a || e
			})
			sg := concat(graphFamily{n: 1, maxE: 2, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), graphFamily{n: 2, minE: 1, maxE: 2, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), graphFamily{n: 3, minE: 2, maxE: 2, nks: nkPlain[:1], eks: ekPlain[:1]}.list())
			ts = append(ts, planTask("supplied", sg, sp, supplied, noIx, orders[:1], 200, 8)...)
			// every size of the parametrised families, in several orders
			var wb []build
			for _, b := range some {
				if b.noise < 3 && (b.noise == 0 || b.rev) && (b.noise > 0 || b.edited) {
					wb = append(wb, b)
				}
			}
			wp := append(append([]Pat{{nAny}}, patterns(1, []PI{nAny, nA}, rel(allDirs, []PI{{}, ex, ep}, [][2]int{{1, 1}, {1, 2}}))...), patterns(1, []PI{nAny, nP}, rel([]int{1, 0}, []PI{{}}, one))...)
			wp = append(wp, patterns(2, []PI{nAny}, rel([]int{1, 0}, []PI{ex}, one))...)
			for _, f := range wideFamilies {
				f := f
				ts = append(ts, planTask("wide-"+f.name, wideGraphs(wideSizes(dt(th, 5, 17), dt(th, 17, 41)), []int{0}, func(x wideFamily) bool { return x.name == f.name }), wp, noSyms, wb, ixOrders, dt(th, 150, 600), 3)...)
			}
			for _, f := range wideFamilies {
				for _, n := range []int{65, 129, 300} {
					g := f.graph(n, 2)
					ts = append(ts, planTask(fmt.Sprintf("huge-%s-%d", f.name, n), []*GSpec{g}, append([]Pat{{nAny}, {nA}, {nP}}, ownPatterns(n)...), noSyms, wb, nil, 600, 1)...)
				}
			}
			return ts
		},
	})
}
