package main

import "github.com/cloudprivacylabs/lpg/v2"

func init() {
	vPlain := []variant{{-1, 0}, {-1, 4}}
	vBoth := []variant{{-1, 0}, {int(lpg.HashIndex), 0}, {-1, 6}, {int(lpg.BtreeIndex), 6}}
	register(&Prop{
		ID: "C10",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 (one or two nodes: 4) edges, and 6 larger shapes; all patterns with 1 or 2 relationships of which at least one has variable length, over 10 length bounds, 3 directions, 2 node and 2 relationship conditions (shapes: 3 relationships); " +
			"variable-length patterns on every member up to a size of 8 parametrised families of graphs (chains, cycles, zigzags, stars, parallel edges, loops, pairs; every size up to 10-14, then those around powers of two up to 34, thorough 66; fewer questions on sizes 65 to 300); " +
			"chains of up to 34 (thorough 70) edges with one of 9 oddities at every place; with and without unrelated nodes and indexes; compared with a brute force enumeration of trails; pattern and graph pairs with more than 300 (thorough: 5000) matches are left out; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings)",
		Assume: []string{"Length bounds are at least one, or -1."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nAny, nA := PI{}, PI{L: []string{"A"}}
			ex := PI{L: []string{"x"}}
			lens := [][2]int{{-1, -1}, {1, 2}, {2, 2}, {2, -1}, {-1, 1}, {-1, 2}, {1, 3}, {1, -1}, {3, 3}, {2, 3}}
			lensFew := [][2]int{{1, 1}, {-1, -1}, {2, 2}, {1, 2}}
			onlyVar := func(ps []Pat) []Pat {
				var out []Pat
				for _, p := range ps {
					for i := 1; i < len(p); i += 2 {
						if p[i].Min != 1 || p[i].Max != 1 {
							out = append(out, p)
							break
						}
					}
				}
				return out
			}
			v1 := patterns(1, []PI{nAny, nA}, rel(allDirs, []PI{{}, ex}, lens))
			v2 := onlyVar(patterns(2, []PI{nAny, nA}, rel(allDirs, []PI{{}}, lensFew)))
			if !th {
				v1 = append(patterns(1, []PI{nAny, nA}, rel(allDirs, []PI{{}, ex}, lens[:6])), patterns(1, []PI{nAny}, rel(allDirs, []PI{{}}, lens[6:]))...)
			}
			v2x := onlyVar(patterns(2, []PI{nAny, nA}, rel(allDirs, []PI{ex}, [][2]int{{1, 1}, {1, -1}, {2, 2}})))
			all := append(append(append([]Pat{}, v1...), v2...), v2x...)
			small := concat(graphFamily{n: 1, maxE: 4, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: dt(th, 2, 4), nks: nkPlain, eks: ekPlain}.list(),
				graphFamily{n: 2, minE: 3, maxE: 3, nks: nkPlain, eks: ekPlain[:1]}.list(), graphFamily{n: 2, minE: 4, maxE: 4, nks: nkPlain[:1], eks: ekPlain[:1]}.list())
			ts = append(ts, patternTask("small", small, all, vPlain, 8)...)
			three := graphFamily{n: 3, maxE: 3, nks: nkPlain, eks: ekPlain[:1]}.list()
			ts = append(ts, patternTask("three-nodes", three, append(append([]Pat{}, v1...), v2...), vPlain, 12)...)
			labels := graphFamily{n: 3, minE: 2, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list()
			ts = append(ts, patternTask("three-nodes-labels", labels, append(append([]Pat{}, v1...), v2x...), vPlain, 8)...)
			// properties along the path
			pe := []PI{{P: PM{"p": 1}}, {L: []string{"x"}, P: PM{"p": 1}}}
			pn := []PI{nAny, {P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 1}}}
			vp := patterns(1, pn, rel(allDirs, pe, [][2]int{{-1, -1}, {2, 2}, {1, 2}}))
			vp = append(vp, onlyVar(patterns(2, pn[:2], rel(allDirs, pe[:1], [][2]int{{1, 1}, {1, 2}})))...)
			ts = append(ts, patternTask("props", graphFamily{n: 2, minE: 1, maxE: dt(th, 2, 3), nks: nkProps[:4], eks: ekProps}.list(), vp, vBoth, 8)...)
			// every size of the parametrised families
			ts = append(ts, widePatterns("wide", func(f wideFamily) bool { return isSparse(f.name) }, wideSizes(dt(th, 20, 40), dt(th, 42, 70)), []int{0, 1}, func(n int) []Pat {
				var out []Pat
				for _, l := range [][2]int{{-1, -1}, {1, n}, {n, n}, {n - 1, n}, {n / 2, -1}, {n + 1, -1}, {-1, n - 1}, {2, 3}, {7, 9}} {
					if l[0] == 0 || l[1] == 0 || l == [2]int{1, 1} {
						continue
					}
					for _, d := range allDirs {
						out = append(out, Pat{nAny, relOf(d, l[0], l[1]), nAny}, Pat{nA, relOf(d, l[0], l[1], "x", "y"), nAny}, Pat{nAny, relOf(d, l[0], l[1]), {L: []string{"A"}, P: PM{"p": 1}}})
						out = append(out, Pat{nAny, relOf(d, l[0], l[1]), nAny, relOf(d, 1, 1), nA}, Pat{{P: PM{"p": 1}}, relOf(1, 1, 1), nAny, relOf(d, l[0], l[1]), nAny})
					}
				}
				return out
			}, []variant{{-1, 0}, {int(lpg.HashIndex), 3}}, dt(th, 1200, 5000))...)
			ts = append(ts, widePatterns("wide-dense", func(f wideFamily) bool { return !isSparse(f.name) }, wideSizes(6, dt(th, 34, 66)), []int{0, 1}, func(n int) []Pat {
				var out []Pat
				lens := [][2]int{{1, 2}, {2, 2}}
				if n <= 4 {
					lens = append(lens, [2]int{-1, -1}, [2]int{n, n}, [2]int{2, -1}, [2]int{3, 5})
				}
				for _, l := range lens {
					for _, d := range allDirs {
						out = append(out, Pat{nAny, relOf(d, l[0], l[1]), nAny}, Pat{nA, relOf(d, l[0], l[1], "x"), nAny}, Pat{nAny, relOf(d, l[0], l[1], "y"), nA})
					}
				}
				return out
			}, []variant{{-1, 0}, {int(lpg.HashIndex), 3}}, dt(th, 1500, 5000))...)
			ts = append(ts, hugeTrailTasks(th)...)
			ts = append(ts, oddPatternTasks("variable", th, oddVariable)...)
			ts = append(ts, similarPatterns("similar-names", similarVariable)...)
			// shapes
			v3 := onlyVar(patterns(3, []PI{nAny, nA}, rel(allDirs, []PI{{}}, [][2]int{{1, 1}, {1, 2}})))
			if th {
				v3 = onlyVar(patterns(3, []PI{nAny, nA}, rel(allDirs, []PI{{}}, [][2]int{{1, 1}, {1, 2}, {2, -1}})))
			}
			sh := append(append([]Pat{}, all...), v3...)
			for _, g := range bigShapes() {
				ts = append(ts, patternTask("shape-"+g.String()[:24], []*GSpec{g}, sh, vBoth[1:3], 1)...)
			}
			if th {
				ts = append(ts, patternTask("three-nodes-four-edges", graphFamily{n: 3, minE: 4, maxE: 4, nks: nkPlain, eks: ekPlain[:1]}.list(), append(append([]Pat{}, v1...), v2...), vPlain, 32)...)
			}
			return ts
		},
	})
}
