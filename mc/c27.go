package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// symsOf turns the symbol values of a reference match into supplied values.
func symsOf(sym map[string]string) *Syms {
	s := &Syms{N: map[string][]int{}, E: map[string][]int{}}
	s.add(sym)
	return s
}

func (s *Syms) add(sym map[string]string) {
	for k, v := range sym {
		for _, x := range strings.Split(v, ",") {
			i, err := strconv.Atoi(x[1:])
			if err != nil {
				panic(err)
			}
			if x[0] == 'n' {
				if !hasInt(s.N[k], i) {
					s.N[k] = append(s.N[k], i)
				}
			} else if !hasInt(s.E[k], i) {
				s.E[k] = append(s.E[k], i)
			}
		}
	}
}

func copySym(sym map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range sym {
		out[k] = v
	}
	return out
}

// obsSymbol compares what a symbol lists with what was added to it.
func (w *World) obsSymbol(name string, ps *lpg.PatternSymbol, s *Syms) {
	w.checks++
	if l, ok := s.N[name]; ok {
		w.expect(w.nodeList(ps.NodeSlice()), sorted(l), "NodeSlice of symbol %s", name)
		w.expect([]int{ps.Nodes.Len()}, []int{len(l)}, "number of nodes of symbol %s", name)
	} else if len(ps.NodeSlice()) != 0 {
		fail("symbol %s lists %d nodes, none was added", name, len(ps.NodeSlice()))
	}
	l, ok := s.E[name]
	p := ps.EdgeSlice()
	if !ok {
		if p != nil && p.NumEdges() != 0 {
			fail("symbol %s lists %d edges, none was added", name, p.NumEdges())
		}
		return
	}
	var got []int
	for i := 0; i < p.NumEdges(); i++ {
		got = append(got, w.edgeIdx(p.GetEdge(i)))
	}
	sort.Ints(got)
	w.expect(got, sorted(l), "EdgeSlice of symbol %s", name)
	w.expect(w.edgesOf(ps.Edges.Iterator()), sorted(l), "edges of symbol %s", name)
}

// addTo adds the value of a match to a symbol, in one of the ways there are.
func (w *World) addTo(ps *lpg.PatternSymbol, v any, way int) {
	w.checks++
	switch x := v.(type) {
	case *lpg.Node:
		if way == 1 {
			ps.AddNode(x)
			return
		}
	case *lpg.Path:
		if way == 1 {
			ps.AddPath(x)
			return
		}
		if way == 2 {
			for i := 0; i < x.NumEdges(); i++ {
				ps.Add(x.GetEdge(i))
			}
			return
		}
	}
	if !ps.Add(v) {
		fail("PatternSymbol.Add(%T) returns false", v)
	}
}

// matchAcc gives every match to a function.
type matchAcc struct {
	f func(ctx *lpg.MatchContext, path *lpg.Path, sym map[string]any)
}

func (a *matchAcc) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, sym map[string]interface{}) {
	a.f(ctx, path, sym)
}

// each runs the pattern, as a pattern or through its plan.
func (w *World) each(p Pat, ls map[string]*lpg.PatternSymbol, plan bool, f func(path *lpg.Path, sym map[string]any)) {
	lp := p.lpg()
	var names []string
	for _, x := range p {
		if x.Name != "" {
			names = append(names, x.Name)
		}
	}
	names = normLabels(names)
	if got := lp.GetSymbolNames().SortedSlice(); !sameStrs(got, names) {
		fail("%s: GetSymbolNames is %q, expected %q", p, got, names)
	}
	if !plan {
		if err := lp.Run(w.G, ls, &matchAcc{func(_ *lpg.MatchContext, path *lpg.Path, sym map[string]any) { f(path, sym) }}); err != nil {
			fail("%s: error %v", p, err)
		}
		return
	}
	pl, err := lp.GetPlan(w.G, ls)
	if err != nil {
		fail("%s: GetPlan: %v", p, err)
	}
	if err := pl.Run(w.G, ls, &matchAcc{func(ctx *lpg.MatchContext, path *lpg.Path, sym map[string]any) {
		w.checks++
		if s, t := w.pathStr(pl.GetCurrentPath()), w.pathStr(path); s != t {
			fail("%s: GetCurrentPath is %s while the match %s is reported", p, s, t)
		}
		cur := pl.CaptureSymbolValues()
		if len(cur) != len(sym) {
			fail("%s: %d symbol values are captured and %d reported", p, len(cur), len(sym))
		}
		for k, v := range sym {
			if a, b := w.symStr(cur[k]), w.symStr(v); a != b {
				fail("%s: the captured value of %s is %s, the reported one %s", p, k, a, b)
			}
		}
		if ctx.Graph != w.G {
			fail("%s: the match context has another graph", p)
		}
		f(path, sym)
	}}); err != nil {
		fail("%s: error %v", p, err)
	}
}

func (w *World) matchOf(path *lpg.Path, sym map[string]any) string {
	s := map[string]string{}
	for k, v := range sym {
		s[k] = w.symStr(v)
	}
	return w.pathStr(path) + matchStr(nil, nil, s, false)
}

const maxChain = 400

// chain feeds every match of a pattern to the rest of the patterns, one by one.
func (w *World) chain(ps []Pat, way int, plan, nested bool) (want, got []string, ok bool) {
	over := false
	var ref func(k int, bound map[string]string, sofar string)
	ref = func(k int, bound map[string]string, sofar string) {
		if over || len(want) > maxChain {
			return
		}
		if k == len(ps) {
			want = append(want, sofar)
			return
		}
		var sy *Syms
		if k > 0 {
			sy = symsOf(bound)
		}
		type m struct {
			s   string
			sym map[string]string
		}
		var ms []m
		if !w.M.matchesMax(ps[k], sy, maxChain, func(n, e []int, sym map[string]string) {
			ms = append(ms, m{matchStr(n, e, sym, false), copySym(sym)})
		}) {
			over = true
			return
		}
		for _, x := range ms {
			b := copySym(bound)
			for name, v := range x.sym {
				b[name] = v
			}
			ref(k+1, b, sofar+" | "+x.s)
		}
	}
	ref(0, map[string]string{}, "")
	if over || len(want) > maxChain {
		return nil, nil, false
	}
	var run func(k int, vals map[string]any, sofar string)
	run = func(k int, vals map[string]any, sofar string) {
		if k == len(ps) {
			got = append(got, sofar)
			return
		}
		ls := map[string]*lpg.PatternSymbol{}
		for name, v := range vals {
			ls[name] = &lpg.PatternSymbol{}
			w.addTo(ls[name], v, way)
		}
		type m struct {
			s    string
			vals map[string]any
		}
		var ms []m
		step := func(x m) {
			b := map[string]any{}
			for name, v := range vals {
				b[name] = v
			}
			for name, v := range x.vals {
				b[name] = v
			}
			run(k+1, b, sofar+" | "+x.s)
		}
		w.each(ps[k], ls, plan, func(path *lpg.Path, sym map[string]any) {
			x := m{w.matchOf(path, sym), sym}
			if nested {
				step(x)
			} else {
				ms = append(ms, x)
			}
			if len(got)+len(ms) > 4*maxChain {
				fail("%v: more than %d matches", ps, 4*maxChain)
			}
		})
		for _, x := range ms {
			step(x)
		}
	}
	run(0, nil, "")
	sort.Strings(want)
	sort.Strings(got)
	return want, got, true
}

// collect adds the values of all matches of the first pattern to symbols, and
// supplies them to the second one.
func (w *World) collectSyms(p1, p2 Pat, way int, plan bool) {
	sy := symsOf(nil)
	n := 0
	if !w.M.matchesMax(p1, nil, maxChain, func(_, _ []int, sym map[string]string) {
		n++
		sy.add(sym)
	}) || n == 0 {
		return
	}
	ls := map[string]*lpg.PatternSymbol{}
	cur, adds := symsOf(nil), 0
	w.each(p1, nil, plan, func(_ *lpg.Path, sym map[string]any) {
		for k, v := range sym {
			if ls[k] == nil {
				ls[k] = &lpg.PatternSymbol{}
			}
			w.addTo(ls[k], v, way)
			cur.add(map[string]string{k: w.symStr(v)})
			if adds++; adds < 12 {
				w.obsSymbol(k, ls[k], cur)
			}
		}
	})
	for k, ps := range ls {
		w.obsSymbol(k, ps, sy)
	}
	want, ok := w.M.refMatchesMax(p2, sy, maxChain)
	if !ok {
		return
	}
	var got []string
	w.each(p2, ls, plan, func(path *lpg.Path, sym map[string]any) { got = append(got, w.matchOf(path, sym)) })
	sort.Strings(got)
	w.checks++
	if !sameStrs(got, want) {
		fail("with the values of all matches of %s supplied: ", p1)
	}
	w.samePaths(p2, got, want)
	for k, ps := range ls {
		w.obsSymbol(k, ps, sy)
	}
}

func chainPatterns() (first, second []Pat) {
	n := func(name string, l ...string) PI { return PI{Name: name, L: l} }
	r := func(name string, dir, min, max int, l ...string) PI {
		return PI{Name: name, Dir: dir, Min: min, Max: max, L: l}
	}
	first = []Pat{
		{n("a")},
		{n("a", "A")},
		{n("a"), r("e", 1, 1, 1), n("b")},
		{n("a"), r("e", 0, 1, 1, "x"), n("")},
		{n("b"), r("", -1, 1, 1), n("a", "A")},
		{n("a"), r("e", 1, 1, 2), n("b")},
		{n("a"), r("e", 0, -1, -1), n("b")},
		{n("b"), r("e", -1, 2, -1), n("")},
		{n("a"), r("e", 1, 1, 1), n(""), r("f", 0, 1, 1), n("b")},
	}
	second = []Pat{
		{n("a")},
		{n("b", "A")},
		{n("a"), r("", 1, 1, 1), n("b")},
		{n("b"), r("", 0, 1, 1), n("a")},
		{n(""), r("e", 1, 1, 1), n("")},
		{n("c"), r("e", -1, 1, 1), n("a")},
		{n("a"), r("e", 0, 1, 2), n("c")},
		{n(""), r("f", 0, 1, 1), n(""), r("e", 0, 1, 1), n("")},
		{n("a"), r("", 0, 1, 2), n("a")},
		{n("a"), r("g", 1, 1, -1), n("b"), r("e", 0, 1, 1), n("c")},
		{n("c"), r("e", 0, -1, -1, "x"), n("")},
	}
	return
}

func init() {
	register(&Prop{
		ID: "C27",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges over 2 node and 2 edge kinds, 6 larger shapes, 8 parametrised families of graphs in every size up to 6 and those around powers of two up to 17 (thorough: 33); all pairs of 9 first and 11 second patterns (fixed and variable length, names shared): every match of the first supplied to the second on its own, inside of the first search or after it, and all its matches together, and the head or tail nodes of the first search together; " +
			"all triples of 5 x 6 x 6 patterns on graphs of up to 2 nodes and 2 edges and the larger shapes; values added in 3 ways, searches run directly and through plans, without index and with hash and btree indexes; chains with more than 400 results are left out; patterns of up to 129 elements with every element named; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"A name is used for one kind of element throughout a chain; a node set or edge set that was never added to is not supplied."},
		Tasks: func(th bool) []Task {
			var ts []Task
			first, second := chainPatterns()
			pairs := func(c *Ctx, desc string, build func() *World) {
				for i, p1 := range first {
					for j, p2 := range second {
						c.Case(func() string { return fmt.Sprintf("%s: %s, then %s", desc, p1, p2) }, func() {
							w := build()
							k := i*len(second) + j
							for v := 0; v < 2; v++ {
								want, got, ok := w.chain([]Pat{p1, p2}, (k+v)%3, k%2 == v, v == 1)
								if ok && !sameStrs(want, got) {
									fail("supplying every match of %s to %s gives\n %s\nexpected\n %s\nreference:\n%s", p1, p2, clip(strings.Join(got, "\n "), 1500), clip(strings.Join(want, "\n "), 1500), w.M.String())
								}
								c.st.Traces++
								c.st.Transitions += int64(len(want))
							}
							w.collectSyms(p1, p2, k%3, k%2 == 1)
							w.collectSyms(p1, p2, (k+1)%3, k%2 == 0)
							if k%2 == 0 {
								w.endsSupplied(p1, p2)
							}
							c.st.Checks += w.checks
						})
					}
				}
				c.st.States++
			}
			graphs := concat(
				graphFamily{"", 1, 0, 3, nkPlain, ekPlain}.list(),
				graphFamily{"", 2, 0, 3, nkPlain, ekPlain}.list(),
				graphFamily{"", 3, 1, 3, nkPlain[:1], ekPlain}.list(),
				graphFamily{"", 3, 1, dt(th, 2, 3), nkPlain, ekPlain}.list(),
				bigShapes())
			vs := []variant{{-1, 0}, {int(lpg.HashIndex), 3}, {int(lpg.BtreeIndex), 0}, {-1, 5}}
			const shards = 32
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("pairs/%d", s), Run: func(c *Ctx) {
					for gi, g := range graphs {
						if gi%shards != s {
							continue
						}
						v := vs[(gi/shards)%len(vs)]
						pairs(c, fmt.Sprintf("graph %s(%s)", g, v), func() *World {
							w := v.world()
							g.fill(w, nil, nil)
							addNoise(w, v.noise)
							return w
						})
					}
				}})
			}
			small := concat(graphFamily{"", 1, 0, 2, nkPlain, ekPlain}.list(), graphFamily{"", 2, 1, 2, nkPlain, ekPlain}.list(), bigShapes())
			for s := 0; s < 8; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("triples/%d", s), Run: func(c *Ctx) {
					for gi, g := range small {
						if gi%8 != s {
							continue
						}
						for i, p1 := range []Pat{first[0], first[2], first[3], first[5], first[8]} {
							for j, p2 := range []Pat{second[2], second[3], second[5], second[6], second[8], second[9]} {
								for k, p3 := range []Pat{second[1], second[2], second[4], second[6], second[7], second[10]} {
									c.Case(func() string { return fmt.Sprintf("graph %s: %s, then %s, then %s", g, p1, p2, p3) }, func() {
										v := vs[(i+j+k)%len(vs)]
										w := v.world()
										g.fill(w, nil, nil)
										want, got, ok := w.chain([]Pat{p1, p2, p3}, (i+j+k)%3, (i+j+k)%2 == 0, (i+k)%2 == 0)
										if ok && !sameStrs(want, got) {
											fail("the chain gives\n %s\nexpected\n %s\nreference:\n%s", clip(strings.Join(got, "\n "), 1500), clip(strings.Join(want, "\n "), 1500), w.M.String())
										}
										c.st.Traces++
										c.st.Transitions += int64(len(want))
										c.st.Checks += w.checks
									})
								}
							}
						}
						c.st.States++
					}
				}})
			}
			ts = append(ts, wideTasks("wide-", func(wideFamily) bool { return true }, wideSizes(6, dt(th, 17, 33)), []int{1, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
				pairs(c, fmt.Sprintf("%s of size %d with %d kinds", f.name, n, k), func() *World {
					w := newWorld()
					g.fill(w, nil, nil)
					return w
				})
			})...)
			ts = append(ts, longNameTasks(th)...)
			return append(ts, vastTask("vast", vastSymbols)...)
		},
	})
}
