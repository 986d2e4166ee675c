package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// product calls f with every combination of choices.
func product(sizes []int, f func(ix []int)) {
	ix := make([]int, len(sizes))
	for {
		f(ix)
		k := 0
		for k < len(ix) {
			ix[k]++
			if ix[k] < sizes[k] {
				break
			}
			ix[k] = 0
			k++
		}
		if k == len(ix) {
			return
		}
	}
}

// patterns builds all patterns with ne relationships from the choices.
func patterns(ne int, nodes, edges []PI) []Pat {
	var out []Pat
	sizes := make([]int, 2*ne+1)
	for i := range sizes {
		sizes[i] = len(nodes)
		if i%2 == 1 {
			sizes[i] = len(edges)
		}
	}
	product(sizes, func(ix []int) {
		p := make(Pat, len(ix))
		for i, k := range ix {
			if i%2 == 0 {
				p[i] = nodes[k]
			} else {
				p[i] = edges[k]
			}
		}
		out = append(out, p)
	})
	return out
}

// rel makes relationship choices: all directions with the given conditions and lengths.
func rel(dirs []int, conds []PI, lens [][2]int) []PI {
	var out []PI
	for _, d := range dirs {
		for _, c := range conds {
			for _, l := range lens {
				c.Dir, c.Min, c.Max = d, l[0], l[1]
				out = append(out, c)
			}
		}
	}
	return out
}

var (
	allDirs = []int{1, -1, 0}
	one     = [][2]int{{1, 1}}
)

type graphFamily struct {
	name       string
	n          int
	minE, maxE int
	nks        []NK
	eks        []EK
}

func (f graphFamily) list() []*GSpec {
	var out []*GSpec
	enumGraphs(f.n, f.minE, f.maxE, f.nks, f.eks, func(g *GSpec) { out = append(out, g) })
	return out
}

var (
	nkPlain = []NK{{}, {L: []string{"A"}}}
	ekPlain = []EK{{L: "x"}, {L: "y"}}
	nkProps = []NK{{}, {L: []string{"A"}}, {L: []string{"A"}, P: PM{"p": 1}}, {L: []string{"B"}, P: PM{"p": 1}}, {L: []string{"A", "B"}, P: PM{"p": 2}}}
	ekProps = []EK{{L: "x"}, {L: "x", P: PM{"p": 1}}, {L: "y", P: PM{"p": 1}}}
)

// variant is a way of embedding a graph: with an index, and among unrelated nodes.
type variant struct {
	ix    int
	noise int
}

func (v variant) String() string {
	return fmt.Sprintf("%s, %d unrelated nodes", ixLabel(v.ix), v.noise)
}

func (v variant) world() *World {
	return withIndex(v.ix, func(w *World) {})()
}

// noise adds isolated nodes of no interest to the patterns, after the graph
func addNoise(w *World, n int) {
	for i := 0; i < n; i++ {
		w.NewNode([]string{"noise"}, PM{"p": 50 + i})
	}
}

// patternTask runs all patterns on all graphs in all variants.
func patternTask(name string, graphs []*GSpec, pats []Pat, vs []variant, shards int) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
			for gi, g := range graphs {
				if gi%shards != s {
					continue
				}
				for _, v := range vs {
					c.Case(func() string { return fmt.Sprintf("graph %s(%s), %d patterns", g, v, len(pats)) }, func() {
						w := v.world()
						g.fill(w, nil, nil)
						addNoise(w, v.noise)
						w.allFinds = gi%2 == 0
						for _, p := range pats {
							want, ok := w.M.refMatchesMax(p, nil, dt(c.thorough, 300, 5000))
							if !ok {
								continue
							}
							w.checkPattern(p, nil, want)
							c.st.Traces++
							c.st.Transitions += int64(len(want)) + 1
						}
						c.st.States++
						c.st.Checks += w.checks
					})
				}
			}
		}})
	}
	return ts
}

func concatPats(ls ...[]Pat) []Pat {
	var out []Pat
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

// nameOne names one element of every pattern, in every way: the node element
// versions get the name a, the others e.
func nameOne(ps []Pat, a, e string) (nodes, edges []Pat) {
	for _, p := range ps {
		for i := range p {
			q := append(Pat{}, p...)
			if i%2 == 0 {
				q[i].Name = a
				nodes = append(nodes, q)
			} else {
				q[i].Name = e
				edges = append(edges, q)
			}
		}
	}
	return nodes, edges
}

// smallSubsets are the sets of up to k of n elements, the smallest first.
func smallSubsets(n, k int) [][]int {
	var out [][]int
	for sz := 0; sz <= k; sz++ {
		for _, l := range intSubsets(n) {
			if len(l) == sz {
				out = append(out, l)
			}
		}
	}
	return out
}

func nodeSets(name string, sets func(n int) [][]int) func(g *GSpec) []*Syms {
	return func(g *GSpec) []*Syms {
		var out []*Syms
		for _, l := range sets(len(g.Nodes)) {
			out = append(out, &Syms{N: map[string][]int{name: l}})
		}
		return out
	}
}

func edgeSets(name string, sets func(n int) [][]int) func(g *GSpec) []*Syms {
	return func(g *GSpec) []*Syms {
		var out []*Syms
		for _, l := range sets(len(g.Edges)) {
			out = append(out, &Syms{E: map[string][]int{name: l}})
		}
		return out
	}
}

func concat(ls ...[]*GSpec) []*GSpec {
	var out []*GSpec
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

func init() {
	vPlain := []variant{{-1, 0}, {-1, 4}}
	vIndex := []variant{{-1, 0}, {int(lpg.BtreeIndex), 0}, {int(lpg.HashIndex), 0}, {-1, 5}, {int(lpg.BtreeIndex), 5}, {int(lpg.HashIndex), 5}}
	register(&Prop{
		ID: "C09",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges over 2 node and 2 edge labels (loops, parallel edges), 2 nodes and 2 edges (thorough 3) with properties, 2 nodes and 1 edge with property values of several kinds under one key, and 6 larger shapes; all patterns with 0-2 (shapes: 3) relationships of length one over 2-4 node and 2-5 relationship conditions in all 3 directions; " +
			"patterns of up to 2 relationships, supplemented by chains of relationships as long as the graph, on every member up to a size of 8 parametrised families of graphs (chains, cycles, zigzags, stars, parallel edges, loops, pairs; every size up to 10-14, then those around powers of two up to 34, thorough 66; fewer questions on sizes 65 to 300), relationships with one, several and unknown labels; " +
			"without index, with btree and hash indexes, with and without unrelated nodes (which moves the start of the search); chains of 2-4 nodes with every combination of property values against all combinations of conditions on the nodes and on the relationships; compared with a brute force matcher; with every set of up to two elements supplied for each position of a pattern (the search then starts there); chains of up to 34 (thorough 70) edges with one of 9 oddities at every place, patterns with one different element at that place; pairs with more than 300 (thorough 5000) matches are left out; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Query values are of the kinds that can be compared, and not nil; a relationship is not both to-left and undirected."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nAny, nA := PI{}, PI{L: []string{"A"}}
			nodes2 := []PI{nAny, nA}
			ex := PI{L: []string{"x"}}
			exy := PI{L: []string{"x", "y"}}
			single := []Pat{{nAny}, {nA}, {PI{L: []string{"A", "B"}}}, {PI{P: PM{"p": 1}}}, {PI{L: []string{"A"}, P: PM{"p": 1}}}, {PI{L: []string{"zz"}}}, {PI{P: PM{"zz": 1}}}, {PI{P: PM{"p": native{1}}}}, {PI{L: []string{"B", "A"}, P: PM{"p": 2, "zz": 1}}}}
			p1 := append(append([]Pat{}, single...), patterns(1, nodes2, rel(allDirs, []PI{{}, ex, exy}, one))...)
			p2 := patterns(2, nodes2, rel(allDirs, []PI{{}, ex}, one))
			small := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain, eks: ekPlain}.list())
			ts = append(ts, patternTask("small", small, append(append([]Pat{}, p1...), p2...), vPlain, 4)...)
			three := graphFamily{n: 3, maxE: 3, nks: nkPlain, eks: ekPlain}.list()
			ts = append(ts, patternTask("three-nodes", three, append(append([]Pat{}, p1...), p2...), vPlain, 12)...)
			if th {
				ts = append(ts, patternTask("three-nodes-four-edges", graphFamily{n: 3, minE: 4, maxE: 4, nks: nkPlain, eks: ekPlain}.list(), append(append([]Pat{}, p1...), p2...), vPlain, 32)...)
				ts = append(ts, patternTask("four-nodes", graphFamily{n: 4, maxE: 3, nks: nkPlain, eks: ekPlain[:1]}.list(), append(append([]Pat{}, p1...), patterns(3, nodes2, rel(allDirs, []PI{{}}, one))...), vPlain, 16)...)
			}
			// properties
			nodes4 := []PI{nAny, nA, {P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 1}}}
			edges5 := []PI{{}, {P: PM{"p": 1}}, {L: []string{"x"}, P: PM{"p": 1}}, exy}
			pp := append(append([]Pat{}, single...), patterns(1, nodes4, rel(allDirs, edges5, one))...)
			pp2 := patterns(2, []PI{nAny, {L: []string{"A"}, P: PM{"p": 1}}}, rel(allDirs, []PI{{}, {P: PM{"p": 1}}}, one))
			props := concat(graphFamily{n: 1, maxE: 2, nks: nkProps, eks: ekProps}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkProps, eks: ekProps}.list())
			ts = append(ts, patternTask("props", props, append(pp, pp2...), vIndex, 12)...)
			// values of several kinds under one key, where no ordered index is involved
			kinds := []any{1, "1", []any{1}, native{"1"}, []any{1, "a"}, true}
			nkKinds, ekKinds := []NK{{}}, []EK{{L: "x"}}
			nodeKinds, relKinds := []PI{nAny}, []PI{{}}
			for _, k := range kinds {
				nkKinds = append(nkKinds, NK{P: PM{"p": k}})
				ekKinds = append(ekKinds, EK{L: "x", P: PM{"p": k}})
			}
			for _, k := range []any{1, "1", []any{1}, native{"1"}, []string{"1"}, []any{1, 2}, native{[]int{1}}} {
				nodeKinds = append(nodeKinds, PI{P: PM{"p": k}})
				relKinds = append(relKinds, PI{P: PM{"p": k}})
			}
			pk := concatPats(patterns(0, nodeKinds, nil), patterns(1, nodeKinds, rel([]int{1}, relKinds[:1], one)), patterns(1, nodeKinds[:2], rel(allDirs, relKinds, one)))
			vKinds := []variant{{-1, 0}, {int(lpg.HashIndex), 0}, {-1, 3}, {int(lpg.HashIndex), 3}}
			ts = append(ts, patternTask("kinds", concat(graphFamily{n: 1, maxE: 1, nks: nkKinds, eks: ekKinds}.list(), graphFamily{n: 2, maxE: 1, nks: nkKinds, eks: ekKinds}.list()), pk, vKinds, 8)...)
			// larger shapes, three relationships
			p3 := patterns(3, []PI{nAny, nA}, rel(allDirs, []PI{{}, ex}, one))
			big := append(append(append([]Pat{}, p1...), p2...), p3...)
			big = append(big, pp...)
			ts = append(ts, patternTask("shapes", bigShapes(), big, vIndex, 6)...)
			// every size of the parametrised families, and long patterns
			pw := append(append([]Pat{}, single...), patterns(1, []PI{nAny, nA, {P: PM{"p": 1}}}, rel(allDirs, []PI{{}, ex, {P: PM{"p": 1}}}, one))...)
			pw = append(pw, patterns(2, []PI{nAny, nA}, rel(allDirs, []PI{{}}, one))...)
			// several labels
			nAB := PI{L: []string{"B", "A"}}
			pw = append(pw, patterns(1, []PI{nAny, nAB}, rel(allDirs, []PI{exy, {L: []string{"y", "w", "x"}}, {L: []string{"y", "zz"}, P: PM{"p": 1}}, {L: []string{"w"}}}, one))...)
			ts = append(ts, widePatterns("wide", nil, wideSizes(20, dt(th, 66, 140)), []int{0, 1}, func(n int) []Pat { return pw }, wideVariants, dt(th, 1200, 5000))...)
			ts = append(ts, widePatterns("wide-own", nil, wideSizes(12, dt(th, 41, 140)), []int{2}, func(n int) []Pat {
				var out []Pat
				for _, i := range []int{0, 1, n / 2, n - 1, n, n + 1} {
					own := PI{P: PM{"p": i}}
					out = append(out, Pat{own}, Pat{own, relOf(1, 1, 1), nAny}, Pat{nAny, relOf(0, 1, 1), own}, Pat{nAny, {P: PM{"p": i}, Dir: 1, Min: 1, Max: 1}, nAny}, Pat{nA, {P: PM{"p": i}, Dir: -1, Min: 1, Max: 1}, nAny, relOf(0, 1, 1), nAny})
				}
				return out
			}, wideVariants, 1200)...)
			ts = append(ts, widePatterns("long", func(f wideFamily) bool { return isSparse(f.name) && f.name != "out-star" && f.name != "in-star" }, wideSizes(dt(th, 12, 20), dt(th, 40, 70)), []int{0, 1}, func(n int) []Pat {
				var out []Pat
				for _, k := range []int{n - 1, n, n + 1, n / 2, 3, 4, 5, 6, 7, 8, 9, 10} {
					for _, d := range []int{1, -1} {
						if k < 1 {
							continue
						}
						out = append(out, longPattern(k, relOf(d, 1, 1), nAny, nAny), longPattern(k, relOf(d, 1, 1), nA, PI{L: []string{"A"}, P: PM{"p": 1}}))
						out = append(out, longPattern(k, relOf(d, 1, 1, "x", "y"), nAny, nA))
					}
					if k > 0 && k <= 10 {
						out = append(out, longPattern(k, relOf(0, 1, 1), nAny, nA))
					}
				}
				return out
			}, wideVariants[:2], 1200)...)
			ts = append(ts, hugePatternTasks(th)...)
			ts = append(ts, oddPatternTasks("fixed", th, oddFixed)...)
			ts = append(ts, similarPatterns("similar-names", similarFixed)...)
			// several nodes of a pattern with the same labels and different values
			for n := 2; n <= 4; n++ {
				ts = append(ts, patternTask(fmt.Sprintf("interior-%d", n), interiorGraphs(n), interiorPatterns(n-1), wideVariants[:2], 4)...)
			}
			// The search starts at any position of the pattern: one position is
			// named, and every set of one or two elements is supplied for it.
			sn, se := nameOne(concatPats(patterns(1, nodes2, rel(allDirs, []PI{{}, ex, exy}, one)), patterns(2, nodes2, rel(allDirs, []PI{{}, ex}, one))), "a", "e")
			startGraphs := concat(graphFamily{n: 2, maxE: 2, nks: nkPlain, eks: ekPlain}.list(), bigShapes())
			vStart := []variant{{-1, 0}, {int(lpg.HashIndex), 3}}
			few := func(n int) [][]int { return smallSubsets(n, 2) }
			ts = append(ts, symTask("start-node", startGraphs, sn, vStart, 8, nodeSets("a", few))...)
			ts = append(ts, symTask("start-edge", startGraphs, se, vStart, 8, edgeSets("e", few))...)
			// the same with property conditions
			sn, se = nameOne(concatPats(pp, pp2), "a", "e")
			startProps := concat(graphFamily{n: 1, maxE: 2, nks: nkProps, eks: ekProps}.list(), graphFamily{n: 2, minE: 1, maxE: 1, nks: nkProps, eks: ekProps}.list(), bigShapes())
			vStart = []variant{{-1, 0}, {int(lpg.BtreeIndex), 0}, {int(lpg.HashIndex), 3}}
			ts = append(ts, symTask("start-node-props", startProps, sn, vStart, 8, nodeSets("a", few))...)
			ts = append(ts, symTask("start-edge-props", startProps, se, vStart, 8, edgeSets("e", few))...)
			// three relationships, mixed directions
			sn, se = nameOne(patterns(3, []PI{nAny}, rel(allDirs, []PI{{}, ex}, one)), "a", "e")
			singles := func(n int) [][]int { return smallSubsets(n, 1)[1:] }
			ts = append(ts, symTask("start-node-3", bigShapes(), sn, vPlain[:1], 6, nodeSets("a", singles))...)
			ts = append(ts, symTask("start-edge-3", bigShapes(), se, vPlain[:1], 6, edgeSets("e", singles))...)
			return append(ts, vastTask("vast", vastMatches)...)
		},
	})
}
