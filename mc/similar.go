package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Two names that are easily taken for one another: they differ in case, in
// white space, in one character, in composition, in how a number is written,
// in what separates their parts. All ordered pairs of them are the labels,
// keys, values and variable names of a small graph.

var similarNames = []string{"", "a", "A", " a", "a ", "a\t", "\na", "aa", "ab", "ba", "abc", "abC", "b", "á", "a\u0301", "ä", "Å", "å", "\u212b", "k", "K", "\u212a", "s", "S", "ſ", "ß", "ss", "SS", "i", "I", "İ", "ı", "ǆ", "ǅ", "Ω", "\u2126", "σ", "ς",
	"a b", "a  b", "a,b", "a, b", "a:b", "a|b", "a\x00", "\x00", "a\x00b", "a.b", "a/b", "a-b", "a_b", "ab\u200b", "\u200bab", "ａ", "[a]", "[a b]", "map[]", "[]", "\"a\"", "'a'", "a'", "\\a", "%61", "&#97;", "\\u0061",
	"0", "00", "-0", "1", "01", "+1", "-1", "1.0", "1e0", " 1", "10", "true", "True", "nil", "null", "<nil>", "*", "a*", ".*", "^a", "?", "_", "-", "_a", "a1", "a01", "a10", "label", "labels", "Labels", "id", "n", "e", "to", "from",
	strings.Repeat("x", 64), strings.Repeat("x", 64) + "y", strings.Repeat("x", 63), strings.Repeat("x", 32) + "X" + strings.Repeat("x", 31), strings.Repeat("x", 63) + "X", "X" + strings.Repeat("x", 63), strings.Repeat("y", 300), strings.Repeat("y", 299) + "z"}

// specialStrings are strings special by themselves and similar ones.
var specialStrings = append(append([]string{}, nastyStrings...), similarNames...)

// similarWorld is a graph of the names s and t.
func similarWorld(w *World, s, t string) {
	w.NewNode([]string{s}, PM{s: s})
	w.NewNode([]string{t}, PM{t: t})
	w.NewNode([]string{s, t}, PM{s: t, t: s, "val": s})
	w.NewNode(nil, PM{"val": t})
	w.NewNode([]string{t}, PM{s: s, "val": s})
	w.NewEdge(0, 1, s, PM{s: s})
	w.NewEdge(1, 2, t, PM{t: t})
	w.NewEdge(2, 0, s, PM{t: s, s: t, "val": t})
	w.NewEdge(2, 2, t, PM{"val": s})
	w.NewEdge(0, 4, t, PM{"val": t})
	w.NewEdge(3, 0, s, nil)
	w.NewEdge(3, 4, t, nil)
}

// similarEdits change one name to the other one by one.
func similarEdits(w *World, s, t string) []func() {
	return []func(){
		func() { w.SetLabels(0, []string{t}); w.SetEdgeLabel(0, t) },
		func() { w.SetNodeProp(0, s, t); w.SetEdgeProp(0, s, t); w.SetNodeProp(3, "val", s) },
		func() { w.DelNodeProp(2, s); w.DelEdgeProp(2, t) },
		func() { w.SetLabels(2, []string{s}); w.SetEdgeLabel(2, t); w.SetEdgeLabel(2, s) },
		func() { w.SetNodeProp(1, s, t); w.SetEdgeProp(1, s, s) },
		func() { w.RemoveEdge(1); w.DelNodeProp(1, t) },
		func() { w.RemoveNode(0) },
		func() { w.NewEdge(1, 3, s, PM{t: s}); w.RemoveNode(2) },
	}
}

// similarTasks look at the graph of every ordered pair of names.
func similarTasks(name string, run func(c *Ctx, s, t string)) []Task {
	var ts []Task
	for sh := 0; sh < 8; sh++ {
		sh := sh
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, sh), Run: func(c *Ctx) {
			for i, s := range similarNames {
				if i%8 != sh {
					continue
				}
				for _, t := range similarNames {
					if s != t {
						c.st.States++
						run(c, s, t)
					}
				}
			}
		}})
	}
	return ts
}

// similarObserved looks at the graph before, between and after the changes.
func similarObserved(name string, index []int, observe func(s, t string) func(w *World)) []Task {
	return similarTasks(name, func(c *Ctx, s, t string) {
		for _, ix := range index {
			c.Case(func() string {
				return fmt.Sprintf("the names %q and %q, index %s", clip(s, 70), clip(t, 70), variant{ix, 0})
			}, func() {
				w, ob := newWorld(), observe(s, t)
				if ix >= 0 {
					for i, k := range []string{t, "val", s} {
						if i < 2 || ix == int(lpg.BtreeIndex) {
							w.G.AddNodePropertyIndex(k, lpg.IndexType(ix))
							w.G.AddEdgePropertyIndex(k, lpg.IndexType(ix))
						}
					}
				}
				similarWorld(w, s, t)
				ob(w)
				for _, ed := range similarEdits(w, s, t) {
					ed()
					ob(w)
					c.st.Transitions++
				}
				c.st.Traces++
				c.st.Checks += w.checks
			})
		}
	})
}

var noIndex = []int{-1}
var everyIndex = []int{-1, int(lpg.HashIndex), int(lpg.BtreeIndex)}

// similarPatterns runs patterns over the two names on the graph of them.
func similarPatterns(name string, pats func(s, t string) []Pat) []Task {
	return similarTasks(name, func(c *Ctx, s, t string) {
		for _, ix := range []int{-1, int(lpg.HashIndex)} {
			for k, p := range pats(s, t) {
				if ix >= 0 && k%3 != 0 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("the names %q and %q, index %s, pattern %s", clip(s, 70), clip(t, 70), variant{ix, 0}, p)
				}, func() {
					w := newWorld()
					if ix >= 0 {
						w.G.AddNodePropertyIndex(s, lpg.IndexType(ix))
						w.G.AddEdgePropertyIndex(t, lpg.IndexType(ix))
					}
					similarWorld(w, s, t)
					w.checkPattern(p, nil, w.M.refMatches(p, nil))
					c.st.Traces++
					c.st.Transitions++
					c.st.Checks += w.checks
				})
			}
		}
	})
}

func similarFixed(s, t string) []Pat {
	one := func(l ...string) PI { return relOf(1, 1, 1, l...) }
	out := []Pat{
		{PI{L: []string{s}}},
		{PI{P: PM{s: s}}},
		{PI{}, one(t), PI{}},
		{PI{P: PM{t: s}}, one(), PI{}},
		{PI{L: []string{s}, P: PM{t: s}}, relOf(0, 1, 1, s, t), PI{}},
		{PI{}, PI{P: PM{s: t}, Min: 1, Max: 1, Dir: 1}, PI{L: []string{t}}},
		{PI{}, one(s), PI{}, one(t), PI{L: []string{t}}},
		{PI{L: []string{s, t}}, relOf(-1, 1, 1, t), PI{}},
	}
	if s != "" && t != "" {
		// the two are variables
		out = append(out,
			Pat{PI{Name: s}, one(), PI{Name: t}},
			Pat{PI{Name: s}, PI{Min: 1, Max: 1, Dir: 1, Name: t}, PI{}, one(), PI{Name: s}},
			Pat{PI{Name: s, L: []string{t}}, one(s), PI{Name: t}, one(t), PI{Name: t}})
	}
	return out
}

func similarVariable(s, t string) []Pat {
	return []Pat{
		{PI{L: []string{s}}, relOf(1, 1, 3, t), PI{}},
		{PI{}, relOf(0, 1, 2, s), PI{L: []string{t}}},
		{PI{P: PM{s: s}}, relOf(-1, 1, -1, s, t), PI{P: PM{t: t}}},
	}
}

// similarSyms supplies a value for one of two variables of similar names.
func similarSyms() []Task {
	return similarTasks("similar-variables", func(c *Ctx, s, t string) {
		if s == "" || t == "" {
			return
		}
		pats := []Pat{
			{PI{Name: s}, relOf(1, 1, 1), PI{Name: t}},
			{PI{Name: t}, PI{Min: 1, Max: 1, Dir: 1, Name: s}, PI{}},
			{PI{Name: s}, relOf(0, 1, 2), PI{Name: t}, relOf(1, 1, 1), PI{}},
		}
		for pi, p := range pats {
			var all []*Syms
			if pi != 1 {
				all = append(all, &Syms{N: map[string][]int{s: {0, 2}}}, &Syms{N: map[string][]int{t: {1}}}, &Syms{N: map[string][]int{s: {2}, t: {0, 1}}})
			} else {
				all = append(all, &Syms{E: map[string][]int{s: {0, 3}}}, &Syms{N: map[string][]int{t: {2}}, E: map[string][]int{s: {2, 3, 5}}})
			}
			for _, sy := range all {
				c.Case(func() string {
					return fmt.Sprintf("the names %q and %q, pattern %s, supplied nodes %v edges %v", clip(s, 70), clip(t, 70), p, sy.N, sy.E)
				}, func() {
					w := newWorld()
					similarWorld(w, s, t)
					w.checkPattern(p, sy, w.M.refMatches(p, sy))
					c.st.Traces++
					c.st.Transitions++
					c.st.Checks += w.checks
				})
			}
		}
	})
}

// similarTrips encodes and decodes the graph of every ordered pair.
func similarTrips() []Task {
	cs, tgs := codecs(), targets()
	return similarTasks("similar-names", func(c *Ctx, s, t string) {
		for _, separate := range []bool{false, true} {
			c.Case(func() string {
				return fmt.Sprintf("the names %q and %q, separate edges %v", clip(s, 70), clip(t, 70), separate)
			}, func() {
				w := newWorld()
				similarWorld(w, s, t)
				w.roundTrip(&cs[0], separate, tgs[len(s)%len(tgs)], nil)
				c.st.Traces++
				c.st.Transitions++
				c.st.Checks += w.checks
			})
		}
	})
}

// similarCopies copies the graph of every ordered pair, whole or from a node.
func similarCopies(sub bool) []Task {
	return similarTasks("similar-names", func(c *Ctx, s, t string) {
		for k := 0; k < 2; k++ {
			tf := transforms[(len(s)+2*len(t)+k)%len(transforms)]
			c.Case(func() string {
				return fmt.Sprintf("the names %q and %q, properties %s", clip(s, 70), clip(t, 70), tf.name)
			}, func() {
				src, tg := newWorld(), newWorld()
				if k == 1 {
					tg.NewNode([]string{t}, PM{s: t})
					tg.NewEdge(0, 0, t, PM{t: s})
				}
				similarWorld(src, s, t)
				if sub {
					nm := map[*lpg.Node]*lpg.Node{}
					copySubgraph(src, tg, tf, 1, nm)
					copySubgraph(src, tg, tf, 3, nm)
				} else {
					copyGraph(src, tg, tf)
				}
				both(srcTgt, [2]*World{src, tg})
				c.st.Traces++
				c.st.Transitions++
				c.st.Checks += src.checks + tg.checks
			})
		}
	})
}

// similarMaps keeps nodes of two names in a label map.
func similarMaps() []Task {
	return similarTasks("similar-names", func(c *Ctx, s, t string) {
		c.Case(func() string { return fmt.Sprintf("nodes labeled %q and %q", clip(s, 70), clip(t, 70)) }, func() {
			w := newWorld()
			similarWorld(w, s, t)
			nm := lpg.NewNodeMap()
			in := make([]bool, len(w.N))
			look := func() {
				for _, ls := range subsets([]string{s, t}) {
					want := []int{}
					for _, i := range where(in) {
						if hasAll(w.M.N[i].Labels, ls) {
							want = append(want, i)
						}
					}
					w.expect(w.nodesOf(nm.IteratorAllLabels(set(ls...))), want, "NodeMap.IteratorAllLabels(%q)", ls)
				}
				w.expect(w.nodesOf(nm.Iterator()), where(in), "NodeMap.Iterator")
				c.st.Transitions++
			}
			for i := range w.N {
				nm.Add(w.N[i])
				in[i] = true
				look()
			}
			for _, i := range []int{1, 2, 4, 0, 3} {
				for _, ls := range [][]string{{s}, {t}, {s, t}, nil, {t}} {
					old := set(w.M.N[i].Labels...)
					w.SetLabels(i, ls)
					nm.Replace(w.N[i], old, set(ls...))
					look()
				}
				nm.Remove(w.N[i])
				in[i] = false
				look()
			}
			if !nm.IsEmpty() {
				fail("the map is not empty in the end")
			}
			c.st.Traces++
			c.st.Checks += w.checks
		})
	})
}
