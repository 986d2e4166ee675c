package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// abandoned is what a callback panics with to give an operation up.
type abandoned struct{}

// abandon runs f, whose callbacks may give it up. It returns whether they did.
func abandon(f func()) (up bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abandoned); !is {
				panic(r)
			}
			up = true
		}
	}()
	f()
	return
}

// giveUpAt panics in the k-th call.
func giveUpAt(k int) func() {
	n := 0
	return func() {
		if n++; n == k {
			panic(abandoned{})
		}
	}
}

// survey takes the elements a failed operation left in the graph into the
// reference: they are there, but they must be so in every view.
func (w *World) survey() (nodes, edges int) {
	for it := w.G.GetNodes(); it.Next(); {
		n := it.Node()
		if _, known := w.np[n]; known {
			continue
		}
		w.regNode(n, n.GetLabels().SortedSlice(), propsOf(n))
		nodes++
	}
	for it := w.G.GetEdges(); it.Next(); {
		e := it.Edge()
		if _, known := w.ep[e]; known {
			continue
		}
		w.regEdge(e, w.nodeIdx(e.GetFrom()), w.nodeIdx(e.GetTo()), e.GetLabel(), propsOf(e))
		edges++
	}
	return
}

// stops are reads that are told to stop at the k-th element.
func stops() []read {
	var rs []read
	add := func(name string, f func(w *World, more func() bool)) {
		rs = append(rs, read{name, func(w *World, cb func()) string {
			f(w, func() bool { return !abandon(cb) })
			return ""
		}})
	}
	add("ForEachNode stopped", func(w *World, more func() bool) {
		n, stopped := 0, false
		if r := lpg.ForEachNode(w.G, func(*lpg.Node) bool {
			if stopped {
				fail("ForEachNode goes on after it was stopped")
			}
			n++
			stopped = !more()
			return !stopped
		}); r == stopped {
			fail("ForEachNode returns %v, stopped is %v", r, stopped)
		}
	})
	add("ForEachProperty stopped", func(w *World, more func() bool) {
		one := func(f func(func(string, any) bool) bool) {
			stopped := false
			if r := f(func(string, any) bool {
				if stopped {
					fail("ForEachProperty goes on after it was stopped")
				}
				stopped = !more()
				return !stopped
			}); r == stopped {
				fail("ForEachProperty returns %v, stopped is %v", r, stopped)
			}
		}
		for _, i := range w.M.nodes(allN) {
			one(w.N[i].ForEachProperty)
		}
		for _, i := range w.M.edges(allE) {
			one(w.E[i].ForEachProperty)
		}
	})
	add("CollectAllPaths stopped", func(w *World, more func() bool) {
		for _, i := range w.M.nodes(allN) {
			stopped := false
			lpg.CollectAllPaths(w.G, w.N[i], w.N[i].GetEdges(lpg.AnyEdge), func(*lpg.Edge) bool { return true }, lpg.AnyEdge, 1, 3, func(*lpg.Path) bool {
				if stopped {
					fail("CollectAllPaths goes on after it was stopped")
				}
				stopped = !more()
				return !stopped
			})
		}
	})
	add("iterators dropped", func(w *World, more func() bool) {
		for _, f := range w.factories() {
			for it := f.make(); it.Next() && more(); {
				it.Value()
			}
		}
	})
	return rs
}

var vsC28 = []variant{{-1, 0}, {int(lpg.HashIndex), 3}, {int(lpg.BtreeIndex), 0}}

// wideOp visits elements until it is told to stop.
type wideOp struct {
	name string
	run  func(w *World, more func() bool) string
}

func wideOps() []wideOp {
	var ops []wideOp
	for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.AnyEdge} {
		for _, start := range []int{0, 1} {
			dir, start := dir, start
			ops = append(ops, wideOp{fmt.Sprintf("CollectAllPaths(%d) from node %d", dir, start), func(w *World, more func() bool) string {
				if start >= len(w.N) {
					return ""
				}
				var o []string
				lpg.CollectAllPaths(w.G, w.N[start], w.N[start].GetEdges(dir), func(*lpg.Edge) bool { return true }, dir, 1, -1, func(p *lpg.Path) bool {
					o = append(o, w.pathStr(p))
					return more()
				})
				return sortedJoin(o)
			}})
		}
	}
	for _, p := range []Pat{
		{{Name: "n"}},
		{{L: []string{"A"}}, relOf(1, 1, 1), {Name: "b"}},
		{{Name: "a"}, relOf(0, 1, 12), {L: []string{"A", "B"}}},
		{{L: []string{"A", "B"}}, {Name: "e", Dir: -1, Min: 1, Max: -1}, {}},
	} {
		p := p
		ops = append(ops, wideOp{p.String(), func(w *World, more func() bool) string {
			var o []string
			stopped := false
			if err := p.lpg().Run(w.G, nil, &matchAcc{func(_ *lpg.MatchContext, path *lpg.Path, sym map[string]any) {
				o = append(o, w.matchOf(path, sym))
				if !stopped && !more() {
					stopped = true
				}
			}}); err != nil {
				return err.Error()
			}
			return sortedJoin(o)
		}})
	}
	ops = append(ops, wideOp{"ForEachNode", func(w *World, more func() bool) string {
		var o []int
		lpg.ForEachNode(w.G, func(n *lpg.Node) bool { o = append(o, w.nodeIdx(n)); return more() })
		return fmt.Sprint(sortedInts(o))
	}}, wideOp{"the iterators", func(w *World, more func() bool) string {
		var o []string
		for _, f := range w.factories() {
			var l []int
			for it := f.make(); it.Next(); {
				l = append(l, w.itemIdx(f.edge, it.Value()))
				if !more() {
					break
				}
			}
			o = append(o, fmt.Sprint(f.name, sortedInts(l)))
		}
		return strings.Join(o, "\n")
	}})
	return ops
}

// fileUse is a use of a JSON codec or of a renderer.
type fileUse struct {
	name string
	run  func(j *lpg.JSON, r *lpg.DOTRenderer, ws []*World) string
}

func fileUses() []fileUse {
	enc := func(k int, mk func() io.Writer) func(*lpg.JSON, *lpg.DOTRenderer, []*World) string {
		return func(j *lpg.JSON, _ *lpg.DOTRenderer, ws []*World) string {
			var b bytes.Buffer
			out := io.Writer(&b)
			if mk != nil {
				out = mk()
			}
			var err error
			if abandon(func() { err = j.Encode(ws[k].G, out) }) {
				return "abandoned"
			}
			if err != nil {
				return err.Error()
			}
			return canonJSON(b.Bytes())
		}
	}
	dec := func(doc string, r io.Reader) func(*lpg.JSON, *lpg.DOTRenderer, []*World) string {
		return func(j *lpg.JSON, _ *lpg.DOTRenderer, _ []*World) string {
			g := lpg.NewGraph()
			in := io.Reader(strings.NewReader(doc))
			if r != nil {
				in = io.MultiReader(in, r)
			}
			var err error
			if abandon(func() { err = j.Decode(g, json.NewDecoder(in)) }) {
				return "abandoned"
			}
			if err != nil {
				return "error"
			}
			return summary(g, typedStr).String()
		}
	}
	dot := func(k int, mk func() io.Writer) func(*lpg.JSON, *lpg.DOTRenderer, []*World) string {
		return func(_ *lpg.JSON, r *lpg.DOTRenderer, ws []*World) string {
			var b bytes.Buffer
			out := io.Writer(&b)
			if mk != nil {
				out = mk()
			}
			var err error
			if abandon(func() { err = r.Render(ws[k].G, "G", out) }) {
				return "abandoned"
			}
			if err != nil {
				return err.Error()
			}
			want := ws[k].M.dotRef(0, 0, func(int) string { return "" })
			if got := dotSG(b.String(), func(map[string]string) string { return "" }); !got.iso(want) {
				return "another graph\n" + got.String()
			}
			return "the graph"
		}
	}
	return []fileUse{
		{"encode the first graph", enc(0, nil)},
		{"encode the second graph", enc(1, nil)},
		{"encode to a failing writer", enc(0, func() io.Writer { return &faultWriter{failAt: 4, sticky: true, bytes: -1} })},
		{"encode, abandoned", enc(1, func() io.Writer { return &cbWriter{cb: giveUpAt(5)} })},
		{"decode a document", dec(`{"nodes":[{"n":0,"labels":["A","B"],"properties":{"p":1,"k":"v"},"edges":[{"to":1,"label":"x","properties":{"p":[1]}}]},{"n":1,"labels":["A"],"properties":{"p":2}}]}`, nil)},
		{"decode another document", dec(`{"edges":[{"from":3,"to":3,"label":"A"},{"from":3,"to":0}],"nodes":[{"n":3,"properties":{"B":null,"p":"p"}},{"n":0,"labels":["p"]}]}`, nil)},
		{"decode a document with a missing node", dec(`{"nodes":[{"n":0,"labels":["C"],"properties":{"p":1},"edges":[{"to":2}]}]}`, nil)},
		{"decode half a document", dec(`{"nodes":[{"n":0,"labels":["C"],"properties":{"p":1}},{"n":1}],"ed`, nil)},
		{"decode from a failing reader", dec(`{"nodes":[{"n":5,"labels":["C"]}],`, &cutReader{err: errInjected})},
		{"render without some nodes", func(_ *lpg.JSON, r *lpg.DOTRenderer, ws []*World) string {
			var out string
			for k, w := range ws {
				var b bytes.Buffer
				r2 := *r
				r2.NodeRenderer = func(id string, n *lpg.Node, out io.Writer) (bool, error) {
					if w.nodeIdx(n) == 1 {
						return false, nil
					}
					return r.RenderNode(id, n, out)
				}
				if err := r2.RenderNodesEdges(w.G, &b); err != nil {
					return err.Error()
				}
				got := dotSG("digraph G {\n"+b.String()+"}\n", func(map[string]string) string { return "" })
				if !got.iso(w.M.dotRef(2, 0, func(int) string { return "" })) {
					out += fmt.Sprintf("another graph instead of %d\n%s", k, got)
				}
			}
			return out
		}},
		{"render the first graph", dot(0, nil)},
		{"render the second graph", dot(1, nil)},
		{"render to a failing writer", dot(0, func() io.Writer { return &faultWriter{failAt: 3, bytes: -1} })},
		{"render to a writer that fails late", dot(0, func() io.Writer { return &faultWriter{failAt: 6, bytes: -1} })},
		{"render, abandoned", dot(1, func() io.Writer { return &cbWriter{cb: giveUpAt(3)} })},
		{"render, abandoned late", dot(1, func() io.Writer { return &cbWriter{cb: giveUpAt(6)} })},
	}
}

// patUse is a use of a pattern and of supplied symbols.
type patUse struct {
	name string
	run  func(p Pat, lp lpg.Pattern, ws []*World, sy []*Syms, ls []map[string]*lpg.PatternSymbol) string
}

func patUses() []patUse {
	var us []patUse
	on := func(name string, gi, si, stop int) {
		us = append(us, patUse{name, func(p Pat, lp lpg.Pattern, ws []*World, sy []*Syms, ls []map[string]*lpg.PatternSymbol) string {
			w := ws[gi]
			var s *Syms
			var l map[string]*lpg.PatternSymbol
			if si >= 0 {
				s, l = sy[si], ls[si]
			}
			want, ok := w.M.refMatchesMax(p, s, 500)
			if !ok {
				return ""
			}
			var got []string
			cb := giveUpAt(stop)
			var err error
			up := abandon(func() {
				err = lp.Run(w.G, l, &matchAcc{func(_ *lpg.MatchContext, path *lpg.Path, sym map[string]any) {
					got = append(got, w.matchOf(path, sym))
					cb()
				}})
			})
			switch {
			case up:
				if len(want) < stop {
					fail("%s finds %d matches instead of %d", name, len(got), len(want))
				}
			case err != nil:
				if !s.wrongKind(p) {
					fail("%s: error %v", name, err)
				}
			default:
				sort.Strings(got)
				if !sameStrs(got, want) {
					fail("%s: %s finds\n %s\nexpected\n %s", p, name, clip(strings.Join(got, "\n "), 1500), clip(strings.Join(want, "\n "), 1500))
				}
			}
			return ""
		}})
	}
	on("a search in the first graph", 0, -1, 0)
	on("a search in the second graph", 1, -1, 0)
	on("an abandoned search in the first graph", 0, -1, 2)
	on("a search in the first graph with nodes supplied", 0, 0, 0)
	on("a search in the first graph with edges supplied", 0, 1, 0)
	on("a search in the first graph with edges supplied for a node", 0, 2, 0)
	on("an abandoned search in the first graph with nodes supplied", 0, 0, 1)
	return us
}

func init() {
	register(&Prop{
		ID: "C28",
		Bounds: "29 reads over 21 graphs given up by a panic of the caller in each of the first 6 callbacks (thorough: 60), and 4 ways of stopping early at each of the first 6 elements, each followed by all 29 reads and by changes of the graph; path collections, searches and iterations over 6 parametrised families of graphs of up to 17 (thorough: 65) elements stopped and given up at up to 8 places; copies given up in every callback; decoding of 11 documents into 9 graphs cut off at every byte, with every failing and abandoned call of the property unmarshaler, every edge end unknown and every value replaced by 14 others, followed by decoding a whole document into the same graph; " +
			"all sequences of 3 (thorough: 4) of 16 successful, failing and abandoned uses of one codec and one renderer in 4 settings; all sequences of 4 (thorough: 5) of 7 uses of one pattern with one collection of supplied symbols, 15 patterns over 4 pairs of graphs; all pairs of 15 patterns reported to one accumulator; reads given up up to 300 times in a row",
		Assume: []string{"A failed decode or copy may leave any part of what was to be added in the graph."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nop := func() {}
			for _, z := range zoo(indexKinds) {
				z := z
				ts = append(ts, Task{Name: "abandon-" + z.Name, Run: func(c *Ctx) {
					reads := allReads()
					var want []string
					w := z.Build()
					for _, r := range reads {
						want = append(want, r.run(w, nop))
					}
					ws := writers()
					for ri, r := range append(append([]read{}, reads...), stops()...) {
						ri, r := ri, r
						c.Case(func() string { return fmt.Sprintf("graph %s, %q given up in its callbacks", z.Name, r.name) }, func() {
							w := z.Build()
							// the outcome of a read does not depend on the graph being built alike
							for k := 1; k <= dt(c.thorough, 6, 60); k++ {
								n := 0
								up := abandon(func() {
									at := giveUpAt(k)
									r.run(w, func() { n++; at() })
								})
								for i, r2 := range reads {
									if got := r2.run(w, nop); got != want[i] {
										fail("after %q was given up in its callback %d, %q returns\n%s\ninstead of\n%s", r.name, k, r2.name, got, want[i])
									}
								}
								c.st.Traces++
								c.st.Transitions += int64(len(reads)) + 1
								w.checks += int64(len(reads))
								if !up && n < k {
									break
								}
							}
							obsAll(w)
							abandon(func() { r.run(w, giveUpAt(1)) })
							ws[ri%len(ws)].run(w)
							obsCopy(w)
							ws[(ri*7+3)%len(ws)].run(w)
							obsCopy(w)
							c.st.States++
							c.st.Checks += w.checks
						})
					}
				}})
				// copies given up
				ts = append(ts, Task{Name: "copies-" + z.Name, Run: func(c *Ctx) {
					ct := copyTargets()
					for ti := range ct {
						for how := 0; how < 4; how++ {
							c.Case(func() string {
								return fmt.Sprintf("graph %s copied into %s, way %d, given up in its callbacks", z.Name, ct[ti].name, how)
							}, func() {
								for k := 1; k <= 60; k++ {
									src, t := z.Build(), ct[ti].build(transforms[0])
									if how == 3 {
										t = src
									}
									at := giveUpAt(k)
									clone := func(_ string, v any) any { at(); return v }
									up := abandon(func() {
										switch how {
										case 0:
											lpg.CopyGraph(src.G, t.G, clone)
										case 1:
											lpg.CopyGraphf(src.G, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
												at()
												m := lpg.CopyNode(n, t.G, clone)
												at()
												return m
											}, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge { at(); return lpg.CopyEdge(e, t.G, clone, m) })
										default:
											for _, i := range src.M.nodes(allN) {
												lpg.CopySubgraph(src.N[i], t.G, clone, map[*lpg.Node]*lpg.Node{})
											}
										}
									})
									if how != 3 {
										obsCopy(src)
									}
									nt := t.M.nodes(allN)
									t.survey()
									obsCopy(t)
									for _, i := range nt {
										t.SetLabels(i, []string{"B"})
										t.SetNodeProp(i, "p", 2)
									}
									if l := t.M.nodes(allN); len(l) > 0 {
										t.NewEdge(l[0], l[len(l)-1], "x", PM{"p": 1})
										t.Detach(l[len(l)-1])
									}
									obsCopy(t)
									c.st.Traces++
									c.st.Transitions++
									c.st.Checks += src.checks + t.checks
									if !up {
										break
									}
								}
								c.st.States++
							})
						}
					}
				}})
			}
			// long paths and many elements, stopped and given up at several places
			ts = append(ts, wideTasks("wide", func(f wideFamily) bool { return isSparse(f.name) }, wideSizes(4, dt(th, 17, 65)), []int{0, 1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
				ops := wideOps()
				for oi, op := range ops {
					c.Case(func() string { return fmt.Sprintf("%s, %s stopped", f.label(n, k), op.name) }, func() {
						w := vsC28[(n+k)%len(vsC28)].world()
						g.fill(w, nil, nil)
						want := make([]string, len(ops))
						total := 0
						for i, o := range ops {
							m := 0
							want[i] = o.run(w, func() bool { m++; return true })
							if i == oi {
								total = m
							}
						}
						for _, at := range []int{1, 2, 3, 5, 9, total / 2, total - 1, total} {
							if at < 1 || at > total {
								continue
							}
							for way := 0; way < 2; way++ {
								m := 0
								abandon(func() {
									op.run(w, func() bool {
										if m++; m == at && way == 1 {
											panic(abandoned{})
										}
										return m < at
									})
								})
								for i, o := range ops {
									if got := o.run(w, func() bool { return true }); got != want[i] {
										fail("after %s was stopped at element %d of %d (%d), %s gives\n%s\ninstead of\n%s", op.name, at, total, way, o.name, clip(got, 1500), clip(want[i], 1500))
									}
									w.checks++
								}
								c.st.Traces++
								c.st.Transitions += int64(len(ops)) + 1
							}
						}
						obsAll(w)
						c.st.States++
						c.st.Checks += w.checks
					})
				}
			})...)
			// decoding that fails; all values are turned into numbers, so that they
			// can be in an index with others
			num := func(key string, v json.RawMessage) (string, any, error) {
				n := 0
				if json.Unmarshal(v, &n) != nil {
					n = len(v)
				}
				return key, n, nil
			}
			docs := append(baseDocs(),
				[]byte(`{"nodes":[{"n":0,"labels":["A"],"properties":{"p":1},"edges":[{"to":0,"label":"x","properties":{"p":2,"k":1}}]},{"n":1,"labels":["B","A"],"properties":{"p":2,"q":1},"edges":[{"to":0,"label":"y","properties":{"p":1}}]},{"n":2,"labels":["C"],"properties":{"q":1}}],"edges":[{"from":2,"to":1,"label":"x","properties":{"q":2}},{"from":0,"to":2,"label":"z","properties":{"p":3}}]}`),
				[]byte(`{"edges":[{"from":2,"to":1,"label":"x","properties":{"q":2}},{"from":1,"to":2,"label":"z","properties":{"p":3}}],"nodes":[{"n":1,"labels":["B"],"properties":{"p":1}},{"n":2,"labels":["A","B"],"properties":{"q":1},"edges":[{"to":7,"properties":{"p":1}},{"to":1,"label":"A"}]},{"n":7,"labels":["C"],"properties":{"p":7}}]}`))
			var dz []ZG
			for i, z := range zoo(indexKinds) {
				if i%5 < 2 {
					dz = append(dz, z)
				}
			}
			dz = append(dz, ZG{"empty", newWorld})
			ctl := docs[1]
			for di := range docs {
				doc := docs[di]
				ts = append(ts, Task{Name: fmt.Sprintf("decode/%d", di), Run: func(c *Ctx) {
					try := func(z ZG, how string, f func(g *lpg.Graph) error) {
						w := z.Build()
						var err error
						up := abandon(func() { err = f(w.G) })
						n, e := w.survey()
						if up || err != nil {
							// the document is read into the same graph again
							obsAll(w)
							obsLabels([]string{"A", "B", "C"}, []string{"x", "y", "z", "A"})(w)
							obsPropLookups([]string{"p", "q", "k", "s"}, []any{1, 2, 3, 7})(w)
							want, _, _ := refDoc(ctl, typedStr)
							if err := (lpg.JSON{PropertyUnmarshaler: num}).Decode(w.G, json.NewDecoder(bytes.NewReader(ctl))); err != nil {
								fail("%s: decoding a whole document afterwards fails: %v", how, err)
							}
							n, e = w.survey()
							if n != len(want.N) || e != len(want.E) {
								fail("%s: decoding a whole document afterwards adds %d nodes and %d edges instead of %d and %d", how, n, e, len(want.N), len(want.E))
							}
						}
						obsCopy(w)
						c.st.Traces++
						c.st.Transitions++
						c.st.Checks += w.checks
					}
					for _, z := range dz {
						c.Case(func() string { return fmt.Sprintf("document %s cut off, read into graph %s", doc, z.Name) }, func() {
							for i := 0; i <= len(doc); i++ {
								try(z, fmt.Sprintf("failure after %d bytes", i), func(g *lpg.Graph) error {
									j := lpg.JSON{PropertyUnmarshaler: num}
									if i%2 == 0 {
										return j.Decode(g, json.NewDecoder(&cutReader{data: doc[:i], err: errInjected}))
									}
									return j.Decode(g, json.NewDecoder(bytes.NewReader(doc[:i])))
								})
							}
							c.st.States++
						})
						c.Case(func() string {
							return fmt.Sprintf("document %s with failing calls of the unmarshaler, read into graph %s", doc, z.Name)
						}, func() {
							for k := 1; ; k++ {
								calls := 0
								for way := 0; way < 2; way++ {
									calls = 0
									try(z, fmt.Sprintf("call %d of the unmarshaler fails (%d)", k, way), func(g *lpg.Graph) error {
										j := lpg.JSON{PropertyUnmarshaler: func(key string, v json.RawMessage) (string, any, error) {
											if calls++; calls == k {
												if way == 1 {
													panic(abandoned{})
												}
												return key, 1, errInjected
											}
											return num(key, v)
										}}
										err := j.Decode(g, json.NewDecoder(bytes.NewReader(doc)))
										if calls >= k && !errors.Is(err, errInjected) {
											fail("call %d of the unmarshaler fails, Decode returns %v", k, err)
										}
										return err
									})
								}
								if calls < k {
									break
								}
							}
							c.st.States++
						})
						c.Case(func() string {
							return fmt.Sprintf("document %s with replaced values, read into graph %s", doc, z.Name)
						}, func() {
							for ri, d := range replaceAll(doc) {
								if !c.thorough && ri%3 != di%3 {
									continue
								}
								try(z, string(d), func(g *lpg.Graph) error {
									j := lpg.JSON{PropertyUnmarshaler: num}
									return j.Decode(g, json.NewDecoder(bytes.NewReader(d)))
								})
							}
							c.st.States++
						})
					}
				}})
			}
			// uses of one codec and one renderer
			fu := fileUses()
			for s := 0; s < 4; s++ {
				for first := range fu {
					s, first := s, first
					ts = append(ts, Task{Name: fmt.Sprintf("codec/%d/%d", s, first), Run: func(c *Ctx) {
						mk := func() (*lpg.JSON, *lpg.DOTRenderer) {
							j, r := &lpg.JSON{MarshalEdgesSeparately: s&1 != 0}, &lpg.DOTRenderer{}
							if s&2 != 0 {
								j.Interner = lpg.MapInterner{}
								r.NodeRenderer = func(id string, n *lpg.Node, w io.Writer) (bool, error) {
									return true, lpg.DefaultDOTNodeRender(id, n, w)
								}
							}
							return j, r
						}
						graphs := func() []*World {
							a, b := newWorld(), newWorld()
							a.NewNode([]string{"A", "B"}, PM{"p": 1, "k": "v"})
							a.NewNode([]string{"C"}, PM{"p": []any{"x", 2}})
							a.NewEdge(0, 1, "x", PM{"p": "q"})
							a.NewEdge(1, 0, "", nil)
							b.NewNode(nil, nil)
							b.NewNode([]string{"p"}, PM{"A": nil, "": 1})
							b.NewNode([]string{"B"}, nil)
							b.NewEdge(1, 1, "A", nil)
							b.NewEdge(2, 1, "x", PM{"k": false})
							return []*World{a, b}
						}
						alone := make([]string, len(fu))
						for i := range fu {
							j, r := mk()
							alone[i] = fu[i].run(j, r, graphs())
						}
						seqs(len(fu), dt(c.thorough, 2, 3), func(rest []int) {
							seq := append([]int{first}, rest...)
							name := func() string {
								var l []string
								for _, i := range seq {
									l = append(l, fu[i].name)
								}
								return fmt.Sprintf("setting %d: %s", s, strings.Join(l, ", "))
							}
							c.Case(name, func() {
								j, r := mk()
								ws := graphs()
								for _, i := range seq {
									if got := fu[i].run(j, r, ws); got != alone[i] {
										fail("%q gives\n%s\nalone it gives\n%s", fu[i].name, got, alone[i])
									}
								}
								for _, w := range ws {
									obsAll(w)
									c.st.Checks += w.checks
								}
								c.st.Traces++
								c.st.Transitions += int64(len(seq))
								c.st.Checks += int64(len(seq))
							})
						})
						c.st.States++
					}})
				}
			}
			// uses of one pattern and one collection of symbols
			pf, ps := chainPatterns()
			pats := append(append([]Pat{}, pf[2:]...), ps[3:]...)
			shapes := concat(bigShapes(), graphFamily{"", 2, 2, 2, nkPlain, ekPlain}.list()[:6])
			pu := patUses()
			for gi := 0; gi < 16; gi++ {
				gi, part := gi%4, gi/4
				ts = append(ts, Task{Name: fmt.Sprintf("pattern/%d/%d", gi, part), Run: func(c *Ctx) {
					build := func() ([]*World, []*Syms, []map[string]*lpg.PatternSymbol) {
						a, b := newWorld(), newWorld()
						if gi%2 == 1 {
							a.G.AddNodePropertyIndex("p", lpg.HashIndex)
							b.G.AddEdgePropertyIndex("p", lpg.BtreeIndex)
						}
						shapes[gi].fill(a, nil, nil)
						shapes[len(shapes)-1-gi].fill(b, nil, nil)
						var ns, es []int
						for i := range a.N {
							if i != 1 {
								ns = append(ns, i)
							}
						}
						for i := range a.E {
							if i != 1 {
								es = append(es, i)
							}
						}
						sy := []*Syms{{N: map[string][]int{"a": ns, "b": {0}}}, {E: map[string][]int{"e": es}}, {E: map[string][]int{"a": es}}}
						var ls []map[string]*lpg.PatternSymbol
						for _, s := range sy {
							ls = append(ls, s.lpg(a))
						}
						return []*World{a, b}, sy, ls
					}
					for pi, p := range pats {
						if pi%4 != part {
							continue
						}
						seqs(len(pu), dt(c.thorough, 4, 5), func(seq []int) {
							c.Case(func() string {
								var l []string
								for _, i := range seq {
									l = append(l, pu[i].name)
								}
								return fmt.Sprintf("graphs %d, one pattern %s: %s", gi, p, strings.Join(l, ", "))
							}, func() {
								ws, sy, ls := build()
								lp := p.lpg()
								for _, i := range seq {
									pu[i].run(p, lp, ws, sy, ls)
								}
								for i := range sy {
									for name := range ls[i] {
										ws[0].obsSymbol(name, ls[i][name], sy[i])
									}
								}
								for i, it := range p.lpg() {
									if js(it.Labels.SortedSlice()) != js(lp[i].Labels.SortedSlice()) || js(it.Properties) != js(lp[i].Properties) || it.Min != lp[i].Min || it.Max != lp[i].Max || it.Name != lp[i].Name || it.ToLeft != lp[i].ToLeft || it.Undirected != lp[i].Undirected {
										fail("element %d of the pattern was changed from %v to %v", i, it, lp[i])
									}
								}
								c.st.Traces++
								c.st.Transitions += int64(len(seq))
								c.st.Checks += ws[0].checks + ws[1].checks + int64(len(seq))
							})
						})
						c.st.States++
						// one accumulator for two searches
						for _, p2 := range pats {
							c.Case(func() string { return fmt.Sprintf("graph %d: %s and %s into one accumulator", gi, p, p2) }, func() {
								ws, _, _ := build()
								w := ws[0]
								a, ok1 := w.M.refMatchesMax(p, nil, 500)
								b, ok2 := w.M.refMatchesMax(p2, nil, 500)
								if !ok1 || !ok2 {
									return
								}
								heads, tails := map[int]bool{}, map[int]bool{}
								ends := func(nodes, _ []int, _ map[string]string) {
									heads[nodes[0]], tails[nodes[len(nodes)-1]] = true, true
								}
								keys := func(m map[int]bool) []int {
									l := []int{}
									for k := range m {
										l = append(l, k)
									}
									sort.Ints(l)
									return l
								}
								acc := lpg.DefaultMatchAccumulator{}
								for _, x := range []Pat{p, p2} {
									w.M.matches(x, nil, ends)
									if err := x.lpg().Run(w.G, nil, &acc); err != nil {
										fail("error %v", err)
									}
									w.expect(w.nodeList(acc.GetHeadNodes()), keys(heads), "GetHeadNodes")
									w.expect(w.nodeList(acc.GetTailNodes()), keys(tails), "GetTailNodes")
								}
								var got []string
								if len(acc.Paths) != len(acc.Symbols) {
									fail("%d paths and %d symbol maps", len(acc.Paths), len(acc.Symbols))
								}
								for i := range acc.Paths {
									got = append(got, w.matchOf(acc.Paths[i], acc.Symbols[i]))
								}
								want := append(append([]string{}, a...), b...)
								sort.Strings(got)
								sort.Strings(want)
								if !sameStrs(got, want) {
									fail("the accumulator has\n %s\nexpected\n %s", clip(strings.Join(got, "\n "), 1500), clip(strings.Join(want, "\n "), 1500))
								}
								c.st.Traces++
								c.st.Transitions += 2
								c.st.Checks += w.checks + 1
							})
						}
					}
				}})
			}
			ts = append(ts, stopAgainTasks(th)...)
			return ts
		},
	})
}

// seqs gives every sequence of the given length over 0..n-1.
func seqs(n, length int, f func([]int)) {
	sizes := make([]int, length)
	for i := range sizes {
		sizes[i] = n
	}
	product(sizes, func(ix []int) { f(append([]int{}, ix...)) })
}
