package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Families of graphs with one parameter: every size up to a bound is explored,
// so that behaviour that starts at some size is met as well.

var (
	wideNK = []NK{{}, {L: []string{"A"}}, {L: []string{"A", "B"}, P: PM{"p": 1}}}
	wideEK = []EK{{L: "x"}, {L: "y"}, {L: "x", P: PM{"p": 1}}}
)

type wideFamily struct {
	name string
	// edges of the graph with n nodes (or n edges, where the nodes are few)
	nodes func(n int) int
	edges func(n int) [][2]int
}

func each(n int, f func(i int) [2]int) [][2]int {
	var out [][2]int
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

func same(n int) int { return n }
func plusOne(n int) int {
	return n + 1
}

var wideFamilies = []wideFamily{
	{"chain", plusOne, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{i, i + 1} }) }},
	{"cycle", same, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{i, (i + 1) % n} }) }},
	{"zigzag", plusOne, func(n int) [][2]int {
		return each(n, func(i int) [2]int {
			if i%2 == 0 {
				return [2]int{i, i + 1}
			}
			return [2]int{i + 1, i}
		})
	}},
	{"out-star", plusOne, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{0, i + 1} }) }},
	{"in-star", plusOne, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{i + 1, 0} }) }},
	{"parallel", func(int) int { return 2 }, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{0, 1} }) }},
	{"loops", func(int) int { return 1 }, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{0, 0} }) }},
	{"pairs", func(n int) int { return 2 * n }, func(n int) [][2]int { return each(n, func(i int) [2]int { return [2]int{2 * i, 2*i + 1} }) }},
}

// The families in which few paths exist.
func isSparse(name string) bool { return name != "parallel" && name != "loops" }

// graph is the member of size n. kinds: 0 the elements are of the kinds of
// wideNK and wideEK in turn, 1 they are all of the first kind, 2 every element
// has its own property value.
func (f wideFamily) graph(n, kinds int) *GSpec {
	g := &GSpec{NKs: wideNK, EKs: wideEK}
	for i := 0; i < f.nodes(n); i++ {
		g.Nodes = append(g.Nodes, i%len(wideNK))
	}
	for i, e := range f.edges(n) {
		g.Edges = append(g.Edges, GE{e[0], e[1], i * 2 % len(wideEK)})
	}
	switch kinds {
	case 1:
		for i := range g.Nodes {
			g.Nodes[i] = 0
		}
		for i := range g.Edges {
			g.Edges[i].Kind = 0
		}
	case 2:
		g.NKs, g.EKs = nil, nil
		for i := range g.Nodes {
			l := wideNK[i%len(wideNK)].L
			g.NKs = append(g.NKs, NK{L: l, P: PM{"p": i}})
			g.Nodes[i] = i
		}
		for i := range g.Edges {
			g.EKs = append(g.EKs, EK{L: wideEK[i%len(wideEK)].L, P: PM{"p": i}})
			g.Edges[i].Kind = i
		}
	}
	return g
}

func (f wideFamily) label(n, kinds int) string {
	return fmt.Sprintf("%s of size %d, kinds %d", f.name, n, kinds)
}

// wideSizes: every size up to all, then those around powers of two up to max.
func wideSizes(all, max int) []int {
	var out []int
	for n := 1; n <= all; n++ {
		out = append(out, n)
	}
	for p := 8; p <= 1024; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/4} {
			if n > all && n <= max {
				out = append(out, n)
			}
		}
	}
	return out
}

// wideTasks makes one task per family and list of sizes.
func wideTasks(prefix string, keep func(f wideFamily) bool, sizes []int, kinds []int, run func(c *Ctx, f wideFamily, n, k int, g *GSpec)) []Task {
	var ts []Task
	for _, f := range wideFamilies {
		if keep != nil && !keep(f) {
			continue
		}
		for s := 0; s < 2; s++ {
			f, s := f, s
			ts = append(ts, Task{Name: fmt.Sprintf("%s-%s/%d", prefix, f.name, s), Run: func(c *Ctx) {
				for i, n := range sizes {
					if i%2 != s {
						continue
					}
					for _, k := range kinds {
						run(c, f, n, k, f.graph(n, k))
					}
				}
			}})
		}
	}
	return ts
}

// widePatterns compares patterns with the reference on the members of the
// families.
func widePatterns(prefix string, keep func(f wideFamily) bool, sizes, kinds []int, pats func(n int) []Pat, vs []variant, maxMatches int) []Task {
	return wideTasks(prefix, keep, sizes, kinds, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for _, v := range vs {
			c.Case(func() string { return fmt.Sprintf("%s (%s), patterns", f.label(n, k), v) }, func() {
				w := v.world()
				g.fill(w, nil, nil)
				addNoise(w, v.noise)
				for _, p := range pats(n) {
					want, ok := w.M.refMatchesMax(p, nil, maxMatches)
					if !ok {
						continue
					}
					w.checkPattern(p, nil, want)
					c.st.Traces++
					c.st.Transitions += int64(len(want)) + 1
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}

// wideVariants: without and with indexes.
var wideVariants = []variant{{-1, 0}, {int(lpg.HashIndex), 0}, {int(lpg.BtreeIndex), 3}}

// longPattern has n relationships of the given kind between unconditioned
// nodes, the first node and the last with their own conditions.
func longPattern(n int, rel PI, first, last PI) Pat {
	p := Pat{first}
	for i := 0; i < n; i++ {
		p = append(p, rel, PI{})
	}
	p[len(p)-1] = last
	return p
}

func relOf(dir, min, max int, l ...string) PI { return PI{Dir: dir, Min: min, Max: max, L: l} }
