package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// named gives names to the elements of a pattern: names[i] for element i.
func (p Pat) named(names ...string) Pat {
	out := append(Pat{}, p...)
	for i, n := range names {
		out[i].Name = n
	}
	return out
}

// namings returns the patterns with every assignment of names from the given
// node and edge names ("" included) to the elements.
func namings(ps []Pat, nodeNames, edgeNames []string, keep func(p Pat) bool) []Pat {
	var out []Pat
	for _, p := range ps {
		sizes := make([]int, len(p))
		for i := range p {
			sizes[i] = len(nodeNames)
			if i%2 == 1 {
				sizes[i] = len(edgeNames)
				if p[i].Min != 1 || p[i].Max != 1 {
					sizes[i] = 1
				}
			}
		}
		product(sizes, func(ix []int) {
			q := append(Pat{}, p...)
			for i, k := range ix {
				if i%2 == 0 {
					q[i].Name = nodeNames[k]
				} else {
					q[i].Name = edgeNames[k]
				}
			}
			if keep == nil || keep(q) {
				out = append(out, q)
			}
		})
	}
	return out
}

func (p Pat) repeats() bool {
	seen := map[string]bool{}
	for _, x := range p {
		if x.Name != "" && seen[x.Name] {
			return true
		}
		seen[x.Name] = true
	}
	return false
}

func intSubsets(n int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		l := []int{}
		for i := 0; i < n; i++ {
			if m&(1<<i) != 0 {
				l = append(l, i)
			}
		}
		out = append(out, l)
	}
	return out
}

// symCase is a choice of supplied values, made for a graph.
type symCase struct {
	name string
	f    func(g *GSpec) []*Syms
}

func symTask(name string, graphs []*GSpec, pats []Pat, vs []variant, shards int, syms func(g *GSpec) []*Syms) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
			for gi, g := range graphs {
				if gi%shards != s {
					continue
				}
				for _, v := range vs {
					for _, sy := range syms(g) {
						c.Case(func() string {
							return fmt.Sprintf("graph %s(%s), supplied %s, %d patterns", g, v, sy, len(pats))
						}, func() {
							w := v.world()
							g.fill(w, nil, nil)
							addNoise(w, v.noise)
							w.allFinds = gi%2 == 0
							for _, p := range pats {
								want, ok := w.M.refMatchesMax(p, sy, dt(c.thorough, 300, 5000))
								if !ok {
									continue
								}
								w.checkPattern(p, sy, want)
								c.st.Traces++
								c.st.Transitions += int64(len(want)) + 1
							}
							c.st.States++
							c.st.Checks += w.checks
						})
					}
				}
			}
		}})
	}
	return ts
}

func (s *Syms) String() string {
	if s == nil {
		return "nothing"
	}
	return fmt.Sprintf("node sets %v, edge sets %v", s.N, s.E)
}

func noSyms(*GSpec) []*Syms { return []*Syms{nil} }

func init() {
	vPlain := []variant{{-1, 0}, {-1, 4}}
	vIndex := []variant{{int(lpg.HashIndex), 0}, {int(lpg.BtreeIndex), 5}}
	register(&Prop{
		ID: "C11",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges; all patterns with 1-3 relationships whose elements carry every assignment of 2 node and 2 relationship names with a repetition; with nothing supplied and with every subset (the empty one included) of the nodes or edges supplied for a name, two names at once, " +
			"supplied sets and cycles of names on every member up to a size of 8 parametrised families of graphs (chains, cycles, zigzags, stars, parallel edges, loops, pairs; every size up to 10-14, then those around powers of two up to 34, thorough 66; fewer questions on sizes 65 to 300); " +
			"cycles of 1-6 edges with one name at any two places of a pattern of up to 33 relationships; sets supplied for the wrong kind of element, and one name for a node and a relationship; variable-length relationships between repeated nodes and over supplied edges; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings)",
		Assume: []string{"A name is not used for a variable-length relationship and another relationship."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nAny, nA := PI{}, PI{L: []string{"A"}}
			vQ := vPlain[1:]
			if th {
				vQ = vPlain
			}
			rels := rel(allDirs, []PI{{}}, one)
			p1 := patterns(1, []PI{nAny}, rels)
			p2 := patterns(2, []PI{nAny}, rels)
			p2x := patterns(2, []PI{nAny, nA}, rel(allDirs, []PI{{L: []string{"x"}}}, one))
			p3 := patterns(3, []PI{nAny}, rels)
			nn, en := []string{"", "a", "b"}, []string{"", "e"}
			rep := func(p Pat) bool { return p.repeats() }
			small := concat(graphFamily{n: 1, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain, eks: ekPlain}.list())
			three := graphFamily{n: 3, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list()
			// repeated names
			r12 := append(namings(p1, nn, en, nil), namings(p2, nn, []string{"", "e", "f"}, rep)...)
			r12 = append(r12, namings(p2x, []string{"", "a"}, []string{"", "e"}, rep)...)
			r3 := namings(p3, []string{"", "a"}, en, rep)
			ts = append(ts, symTask("repeated", small, r12, vQ, 8, noSyms)...)
			ts = append(ts, symTask("repeated-three-nodes", three, r12, vPlain, 8, noSyms)...)
			r3all := r3
			if th {
				r3all = namings(p3, nn, en, rep)
			}
			ts = append(ts, symTask("repeated-shapes", bigShapes(), append(append([]Pat{}, r12...), r3all...), vPlain, 6, noSyms)...)
			ts = append(ts, symTask("repeated-3-relationships", graphFamily{n: 2, maxE: 3, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), r3all, vPlain, 4, noSyms)...)
			// repeated names with different conditions at the two places
			mixed := namings(patterns(2, []PI{nAny, nA, {P: PM{"p": 1}}}, rel([]int{1, 0}, []PI{{}, {L: []string{"x"}}}, one)), []string{"a"}, []string{"e"}, nil)
			ts = append(ts, symTask("conditions", graphFamily{n: 2, maxE: 2, nks: nkProps[:4], eks: ekProps}.list(), mixed, vIndex, 6, noSyms)...)
			// variable length between repeated nodes
			lens := [][2]int{{-1, -1}, {1, 2}, {2, 2}}
			v1 := namings(patterns(1, []PI{nAny}, rel(allDirs, []PI{{}, {L: []string{"x"}}}, lens)), []string{"a"}, []string{""}, nil)
			v2 := namings(patterns(2, []PI{nAny}, rel(allDirs, []PI{{}}, [][2]int{{1, 1}, {1, 2}, {-1, -1}})), []string{"", "a"}, []string{"", "e"}, rep)
			vn := []Pat{}
			for _, p := range append(append([]Pat{}, v1...), v2...) {
				p = append(Pat{}, p...)
				for i := 1; i < len(p); i += 2 {
					if p[i].Min != 1 || p[i].Max != 1 {
						p[i].Name = fmt.Sprint("v", i)
					}
				}
				vn = append(vn, p)
			}
			ts = append(ts, symTask("variable-length", small, vn, vQ, 8, noSyms)...)
			ts = append(ts, symTask("variable-length-shapes", bigShapes(), vn, vPlain, 6, noSyms)...)
			// supplied sets
			nodeSubsets := func(g *GSpec) []*Syms {
				var out []*Syms
				for _, l := range intSubsets(len(g.Nodes)) {
					out = append(out, &Syms{N: map[string][]int{"a": l}})
				}
				return out
			}
			edgeSubsets := func(g *GSpec) []*Syms {
				var out []*Syms
				for _, l := range intSubsets(len(g.Edges)) {
					out = append(out, &Syms{E: map[string][]int{"e": l, "v": l}})
				}
				return out
			}
			bothSubsets := func(g *GSpec) []*Syms {
				var out []*Syms
				for _, l := range intSubsets(len(g.Nodes)) {
					for _, m := range intSubsets(len(g.Nodes)) {
						out = append(out, &Syms{N: map[string][]int{"a": l, "b": m}})
					}
					for _, m := range intSubsets(len(g.Edges)) {
						out = append(out, &Syms{N: map[string][]int{"a": l}, E: map[string][]int{"e": m}})
					}
				}
				return out
			}
			wrong := func(g *GSpec) []*Syms {
				var ne, ee []int
				for i := range g.Nodes {
					ne = append(ne, i)
				}
				for i := range g.Edges {
					ee = append(ee, i)
				}
				return []*Syms{{N: map[string][]int{"e": ne}}, {E: map[string][]int{"a": ee}}, {N: map[string][]int{"e": {}}}, {E: map[string][]int{"a": {}}}, {N: map[string][]int{"e": ne, "a": ne}}, {E: map[string][]int{"e": ee, "a": ee}}}
			}
			hasName := func(ns ...string) func(p Pat) bool {
				return func(p Pat) bool {
					for _, n := range ns {
						found := false
						for _, x := range p {
							if x.Name == n {
								found = true
							}
						}
						if !found {
							return false
						}
					}
					return true
				}
			}
			sg := concat(graphFamily{n: 1, maxE: 2, nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 3, maxE: dt(th, 2, 3), nks: nkPlain[:1], eks: ekPlain[:1]}.list())
			sn := []Pat{{PI{Name: "a"}}, {PI{Name: "a", L: []string{"A"}}}}
			sn = append(sn, namings(append(append([]Pat{}, p1...), p2...), []string{"", "a"}, []string{"", "e"}, hasName("a"))...)
			sn = append(sn, namings(patterns(1, []PI{nAny}, rel(allDirs, []PI{{}}, lens)), []string{"", "a"}, []string{""}, hasName("a"))...)
			ts = append(ts, symTask("supplied-nodes", sg, sn, vPlain, 6, nodeSubsets)...)
			// supplied sets against conditions and indexes: the set can be larger or
			// smaller than what the condition selects
			cN, cE := nameOne(append(patterns(1, []PI{{L: []string{"A"}}, {P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 1}}, {P: PM{"p": 1, "q": 1}}}, rel([]int{1, 0}, []PI{{}, {L: []string{"x"}}, {P: PM{"p": 1}}, {L: []string{"x"}, P: PM{"p": 1}}}, one)),
				Pat{{P: PM{"p": 1}}}, Pat{{L: []string{"A"}, P: PM{"p": 1}}}, Pat{{P: PM{"p": 2}}}, Pat{{L: []string{"B"}}}, Pat{{L: []string{"A", "B"}, P: PM{"p": 2}}}), "a", "e")
			cN2, cE2 := nameOne(patterns(2, []PI{nAny, {P: PM{"p": 1}}}, rel([]int{1, -1}, []PI{{}, {P: PM{"p": 1}}}, one)), "a", "e")
			cg := concat(graphFamily{n: 3, nks: nkProps}.list(), graphFamily{n: 2, minE: 1, maxE: 2, nks: nkProps[1:4], eks: ekProps}.list(), graphFamily{n: 1, minE: 1, maxE: 3, nks: nkProps[2:3], eks: ekProps}.list(), bigShapes())
			vAll := []variant{{-1, 0}, {int(lpg.HashIndex), 0}, {int(lpg.BtreeIndex), 5}}
			ts = append(ts, symTask("conditions-nodes", cg, append(cN, cN2...), vAll, 8, nodeSubsets)...)
			ts = append(ts, symTask("conditions-edges", cg, append(cE, cE2...), vAll, 8, edgeSubsets)...)
			// larger supplied sets, and names that close long cycles
			ts = append(ts, wideTasks("wide", nil, wideSizes(10, dt(th, 34, 66)), []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
				var sets [][]int
				nn, ne := len(g.Nodes), len(g.Edges)
				for _, m := range []int{1, 2, 3} {
					for r := 0; r < m; r++ {
						for _, sz := range []int{nn, nn / 2, min(8, nn)} {
							var l []int
							for i := r; i < sz; i += m {
								l = append(l, i)
							}
							sets = append(sets, l)
						}
					}
				}
				pats := []Pat{{{Name: "a"}}, {{Name: "a", L: []string{"A"}}}, {{Name: "a", P: PM{"p": 1}}}}
				for _, d := range allDirs {
					e := relOf(d, 1, 1)
					en := e
					en.Name = "e"
					ep := en
					ep.P = PM{"p": 1}
					ex := en
					ex.L = []string{"x"}
					pats = append(pats, Pat{{Name: "a"}, e, {}}, Pat{{}, e, {Name: "a", L: []string{"A"}}}, Pat{{Name: "a"}, e, {Name: "b"}, e, {Name: "a"}}, Pat{{}, en, {}}, Pat{{}, ep, {}}, Pat{{}, ex, {L: []string{"A"}}}, Pat{{Name: "a"}, en, {}}, Pat{{}, e, {Name: "a", P: PM{"p": 1}}, en, {}})
				}
				if n <= 10 {
					cyc := longPattern(n, relOf(1, 1, 1), PI{Name: "a"}, PI{Name: "a"})
					back := longPattern(n, relOf(-1, 1, 1), PI{Name: "a"}, PI{Name: "a"})
					pats = append(pats, cyc, back)
				}
				for _, v := range wideVariants {
					c.Case(func() string { return fmt.Sprintf("%s (%s), supplied sets", f.label(n, k), v) }, func() {
						w := v.world()
						g.fill(w, nil, nil)
						addNoise(w, v.noise)
						for _, l := range sets {
							var es []int
							for _, i := range l {
								if i < ne {
									es = append(es, i)
								}
							}
							for _, sy := range []*Syms{nil, {N: map[string][]int{"a": l}}, {E: map[string][]int{"e": es}}, {N: map[string][]int{"a": l}, E: map[string][]int{"e": es}}} {
								for _, p := range pats {
									want, ok := w.M.refMatchesMax(p, sy, 600)
									if !ok {
										continue
									}
									w.checkPattern(p, sy, want)
									c.st.Traces++
									c.st.Transitions += int64(len(want)) + 1
								}
							}
						}
						c.st.States++
						c.st.Checks += w.checks
					})
				}
			})...)
			ts = append(ts, hugeSymTasks(th)...)
			ts = append(ts, oddNameTasks(th)...)
			ts = append(ts, similarSyms()...)
			se := namings(append(append([]Pat{}, p1...), p2...), []string{"", "a"}, []string{"", "e"}, hasName("e"))
			sve := patterns(1, []PI{nAny}, rel(allDirs, []PI{{Name: "v"}}, lens))
			for _, p := range patterns(2, []PI{nAny}, rel(allDirs, []PI{{}}, [][2]int{{1, 1}, {1, 2}})) {
				p = append(Pat{}, p...)
				for i := 1; i < len(p); i += 2 {
					if p[i].Min == 1 && p[i].Max == 1 {
						p[i].Name = "e"
					} else {
						p[i].Name = "v"
					}
				}
				if p[1].Max != p[3].Max {
					sve = append(sve, p)
				}
			}
			ts = append(ts, symTask("supplied-edges", sg, append(se, sve...), vPlain, 6, edgeSubsets)...)
			ab := namings(append(append([]Pat{}, p1...), p2...), []string{"a", "b"}, []string{"e"}, nil)
			ts = append(ts, symTask("supplied-both", concat(graphFamily{n: 2, maxE: 2, nks: nkPlain[:1], eks: ekPlain[:1]}.list(), graphFamily{n: 3, minE: 2, maxE: 2, nks: nkPlain[:1], eks: ekPlain[:1]}.list()), ab, vPlain, 6, bothSubsets)...)
			ts = append(ts, symTask("wrong-kind", sg, append(append([]Pat{}, ab...), append(sn, se...)...), vPlain, 3, wrong)...)
			// one name for a node and a relationship
			var two []Pat
			for _, q := range namings(concatPats(p1, p2, patterns(1, []PI{nAny}, rel(allDirs, []PI{{}, {L: []string{"x"}}}, [][2]int{{1, 2}, {-1, -1}}))), []string{"", "a"}, []string{"", "a"}, nil) {
				if q[1].Max != 1 {
					q = append(Pat{}, q...)
					q[1].Name = "a"
				}
				if q.twoKinds() {
					two = append(two, q)
				}
			}
			ts = append(ts, symTask("two-kinds", sg, two, vPlain, 3, noSyms)...)
			ts = append(ts, symTask("two-kinds-supplied", sg, two, vPlain[:1], 3, nodeSubsets)...)
			return ts
		},
	})
}
