package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// someOrders are a few permutations of n elements.
func someOrders(n int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	return [][]int{id, revOrder(n), interleaved(n)}
}

func wideGraphs(sizes, kinds []int, keep func(f wideFamily) bool) (out []*GSpec) {
	for _, f := range wideFamilies {
		if keep != nil && !keep(f) {
			continue
		}
		for _, n := range sizes {
			for _, k := range kinds {
				out = append(out, f.graph(n, k))
			}
		}
	}
	return
}

// ---- C19, C20

func wideCopyTasks(th bool, sub bool) []Task {
	tgs := copyTargets()
	return wideTasks("wide", nil, wideSizes(dt(th, 14, 24), dt(th, 41, 70)), []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		z := specGraph(g)
		nn := len(g.Nodes)
		for tgi := -1; tgi < len(tgs); tgi++ {
			if !sub && tgi < 0 {
				continue
			}
			tf := transforms[(n+tgi+1)%len(transforms)]
			if tgi < 0 {
				tf = transforms[0]
			}
			tn := "itself"
			if tgi >= 0 {
				tn = tgs[tgi].name
			}
			target := func(src *World) *World {
				if tgi < 0 {
					return src
				}
				return tgs[tgi].build(tf)
			}
			done := func(src, t *World) {
				both(srcTgt, [2]*World{src, t})
				c.st.Checks += src.checks + t.checks
				c.st.Traces++
				c.st.Transitions++
			}
			if !sub {
				c.Case(func() string { return fmt.Sprintf("%s, copied into %s, properties %s", f.label(n, k), tn, tf.name) }, func() {
					src := z.Build()
					t := target(src)
					copyGraph(src, t, tf)
					done(src, t)
					copyGraph(src, t, tf)
					done(src, t)
					// every second and third node, and all but one
					for _, m := range []int{2, 3, nn} {
						for _, clone := range []bool{false, true} {
							sel := make([]int, nn)
							for i := range sel {
								sel[i] = -2
								if i%m == 1 {
									sel[i] = -1
								} else if m < nn && i%7 == 3 && tgi > 0 {
									sel[i] = 1
								}
							}
							src, t := z.Build(), tgs[tgi].build(tf)
							copySelected(src, t, tf, sel, clone)
							done(src, t)
						}
					}
				})
				c.st.States++
				continue
			}
			c.Case(func() string {
				return fmt.Sprintf("%s, subgraphs copied into %s, properties %s", f.label(n, k), tn, tf.name)
			}, func() {
				for _, st := range uniq([]int{0, 1 % nn, nn / 2, nn - 1}) {
					// without and with nodes that are mapped already
					for _, pre := range [][]int{nil, {nn / 2}, {nn - 1, nn / 3}} {
						if pre != nil && tgi == 0 {
							continue
						}
						src := z.Build()
						t := target(src)
						nm := map[*lpg.Node]*lpg.Node{}
						old := t.M.nodes(allN)
						for i, x := range pre {
							nm[src.N[x]] = t.N[old[i%len(old)]]
						}
						copySubgraph(src, t, tf, st, nm)
						copySubgraph(src, t, tf, (st+1)%nn, nm)
						copySubgraph(src, t, tf, 0, nm)
						done(src, t)
					}
				}
			})
			c.st.States++
		}
	})
}

// ---- C21

// variants of g that differ in one place.
func (g *GSpec) oneChanged(at int) []*GSpec {
	cp := func() *GSpec {
		return &GSpec{NKs: g.NKs, EKs: g.EKs, Nodes: append([]int{}, g.Nodes...), Edges: append([]GE{}, g.Edges...)}
	}
	nn := len(g.Nodes)
	var out []*GSpec
	a := cp()
	a.Edges[at].From, a.Edges[at].To = a.Edges[at].To, a.Edges[at].From
	b := cp()
	b.Edges[at].Kind = (b.Edges[at].Kind + 1) % len(b.EKs)
	d := cp()
	d.Edges[at].To = (d.Edges[at].To + 1) % nn
	x := at % nn
	e := cp()
	e.Nodes[x] = (e.Nodes[x] + 1) % len(e.NKs)
	return append(out, a, b, d, e)
}

// The check takes exponential time where many elements are equivalent, so the
// larger graphs have elements of their own kinds.
func wideIsoTasks(th bool) []Task {
	return wideTasks("wide", nil, wideSizes(dt(th, 12, 20), dt(th, 41, 70)), []int{0, 1, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		if k < 2 && (len(g.Nodes) > dt(th, 6, 7) || len(g.Edges) > dt(th, 6, 7)) {
			return
		}
		qs := equivalences[:3]
		if len(g.Nodes) > 6 || len(g.Edges) > 6 {
			qs = equivalences[:1]
		}
		ask := func(g2 *GSpec, np, ep []int) {
			c.Case(func() string {
				return fmt.Sprintf("%s and %s, nodes created in the order %v, edges %v", f.label(n, k), g2, np, ep)
			}, func() {
				w1 := specWorld(g, nil, nil)
				w2 := specWorld(g2, np, ep)
				for qi := range qs {
					q := &qs[qi]
					want := g.classes(q.n1, q.e1).iso(g2.classes(q.n2, q.e2))
					got, err := checkIso(g, g2, w1, w2, q, context.Background(), nil)
					if err != nil || got != want {
						fail("equivalent are %s: the answer is %v, error %v, expected %v", q.name, got, err, want)
					}
					c.st.Traces++
					c.st.Transitions++
					c.st.Checks++
				}
			})
			c.st.States++
		}
		for _, np := range someOrders(len(g.Nodes)) {
			for _, ep := range someOrders(len(g.Edges)) {
				ask(g, np, ep)
			}
		}
		for _, at := range uniq([]int{0, len(g.Edges) / 2, len(g.Edges) - 1}) {
			for _, g2 := range g.oneChanged(at) {
				ask(g2, nil, nil)
				ask(g2, revOrder(len(g.Nodes)), interleaved(len(g.Edges)))
			}
		}
	})
}

// ---- C22

func longListTasks(th bool) []Task {
	var ts []Task
	for s := 0; s < 4; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("long-lists/%d", s), Run: func(c *Ctx) {
			for si, n := range wideSizes(dt(th, 24, 40), dt(th, 140, 300)) {
				if si%4 != s {
					continue
				}
				for kind := 0; kind < 3; kind++ {
					item := func(x int) val {
						switch kind {
						case 0:
							return vi(x)
						case 1:
							return vs(fmt.Sprintf("%03d", x+500))
						}
						return vl(vi(x), vi(x))
					}
					mk := func(at, delta, l int) val {
						var out []val
						for i := 0; i < l; i++ {
							x := 7 * i % 11
							if i == at {
								x += delta
							}
							out = append(out, item(x))
						}
						return vl(out...)
					}
					base := mk(-1, 0, n)
					bases := longReps(base)
					c.Case(func() string {
						return fmt.Sprintf("a list of %d items of kind %d, compared with lists that differ at one position, prefixes and extensions", n, kind)
					}, func() {
						others := []val{base, mk(-1, 0, n+1)}
						for at := 0; at < n; at++ {
							if at > 40 && at < n-3 {
								continue
							}
							others = append(others, mk(at, 1, n), mk(at, -1, n), mk(-1, 0, at+1), mk(at, 1, at+1), mk(at, -100, n+1))
						}
						for _, o := range others {
							want, ok := base.cmp(o)
							if !ok {
								panic("bad test values")
							}
							for _, a := range bases {
								for _, b := range longReps(o) {
									if got, p := compare(a, b); p || got != want {
										fail("comparing %s with %s gives %d (panic %v), expected %d", valStr(a), valStr(b), got, p, want)
									}
									if got, p := compare(b, a); p || got != -want {
										fail("comparing %s with %s gives %d (panic %v), expected %d", valStr(b), valStr(a), got, p, -want)
									}
									c.st.Traces += 2
									c.st.Transitions += 2
									c.st.Checks += 2
								}
							}
						}
					})
					c.st.States++
				}
				// long strings
				c.Case(func() string { return fmt.Sprintf("strings of %d bytes", n) }, func() {
					b := make([]byte, n)
					for i := range b {
						b[i] = 'm'
					}
					for at := 0; at <= n; at++ {
						for _, x := range []byte{'a', 'z', 0} {
							o := append([]byte{}, b...)
							if at < n {
								o[at] = x
							} else {
								o = append(o, x)
							}
							for _, w := range []any{native{string(o)}, string(o)} {
								want, _ := vs(string(b)).cmp(vs(string(o)))
								if got, p := compare(string(b), w); p || got != want {
									fail("comparing %q with %q gives %d, expected %d", b, o, got, want)
								}
								if got, p := compare(w, native{string(b)}); p || got != -want {
									fail("comparing %q with %q gives %d, expected %d", o, b, got, -want)
								}
								c.st.Traces += 2
								c.st.Transitions += 2
							}
						}
					}
				})
				c.st.States++
			}
		}}, Task{Name: fmt.Sprintf("deeply-wrapped/%d", s), Run: func(c *Ctx) {
			for n := s; n <= dt(th, 40, 100); n += 4 {
				c.Case(func() string { return fmt.Sprintf("values nested and wrapped %d deep", n) }, func() {
					var mk = func(x int, wrap bool) any {
						var v any = x
						for i := 0; i < n; i++ {
							v = []any{v}
							if wrap {
								v = native{v}
							}
						}
						return v
					}
					var only = func(x int) any {
						var v any = x
						for i := 0; i < n; i++ {
							v = native{v}
						}
						return v
					}
					for _, x := range []int{0, 1, 2} {
						want := sign(1 - x)
						for _, pair := range [][2]any{{mk(1, false), mk(x, false)}, {mk(1, false), mk(x, true)}, {mk(1, true), mk(x, true)}, {only(1), x}, {1, only(x)}, {only(1), only(x)}} {
							if got, p := compare(pair[0], pair[1]); p || got != want {
								fail("comparing %d with %d gives %d (panic %v), expected %d", 1, x, got, p, want)
							}
							if got, p := compare(pair[1], pair[0]); p || got != -want {
								fail("comparing %d with %d gives %d (panic %v), expected %d", x, 1, got, p, -want)
							}
							c.st.Traces += 2
							c.st.Transitions += 2
							c.st.Checks += 2
						}
					}
				})
				c.st.States++
			}
		}})
	}
	return ts
}

// longReps are a few representations of a list.
func longReps(v val) []any {
	var out []any
	var gen []any
	var ints []int
	var strs []string
	for _, x := range v.l {
		switch x.kind {
		case 'i':
			ints = append(ints, x.i)
			gen = append(gen, x.i)
		case 's':
			strs = append(strs, x.s)
			gen = append(gen, x.s)
		default:
			gen = append(gen, longReps(x)[len(gen)%2])
		}
	}
	out = append(out, gen)
	if len(ints) == len(v.l) {
		out = append(out, ints)
	}
	if len(strs) == len(v.l) {
		out = append(out, strs)
	}
	wrapped := make([]any, len(gen))
	for i := range gen {
		wrapped[i] = native{gen[i]}
	}
	return append(out, native{gen}, wrapped)
}

// ---- C25

func wideDOTTasks(th bool) []Task {
	return wideTasks("wide", nil, wideSizes(dt(th, 16, 24), dt(th, 34, 60)), []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		c.Case(func() string { return f.label(n, k) + ", default renderers, and with elements excluded" }, func() {
			w := specGraph(g).Build()
			for off := 0; off < 8; off += 3 {
				mapDefault(off)
				w.checkDOT("G")
			}
			mapDefault(0)
			nn, ne := len(w.N), len(w.E)
			full := func(k int) int {
				if k > 62 {
					k = 62
				}
				return 1<<k - 1
			}
			m := 0x5555555555555555
			for _, exN := range uniq([]int{0, 1, m & full(nn), full(nn) &^ m, 1 << min(nn-1, 61), full(nn)}) {
				for _, exE := range uniq([]int{0, 1, m & full(ne), full(ne) &^ m, 1 << min(ne-1, 61), full(ne)}) {
					w.checkDOTExcluding(exN, exE, (exN+exE)%2 == 0)
					c.st.Traces++
					c.st.Transitions++
				}
			}
			c.st.Checks += w.checks
		})
		c.st.States++
	})
}

// ---- C07

func wideReadTasks(th bool) []Task {
	return wideTasks("wide", func(f wideFamily) bool { return isSparse(f.name) }, []int{3, 8, 9, 12, 17}, []int{0}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		reads := append(allReads(), tampers()...)
		for _, ix := range []int{-1, int(lpg.HashIndex), int(lpg.BtreeIndex)} {
			for _, r := range reads {
				if n > 5 && strings.HasPrefix(r.name, "CheckIso") { // takes exponential time
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("%s, %s: %q, alone and inside of itself", f.label(n, k), ixLabel(ix), r.name)
				}, func() {
					w := newWorld()
					if ix >= 0 {
						w.G.AddNodePropertyIndex("p", lpg.IndexType(ix))
						w.G.AddEdgePropertyIndex("p", lpg.IndexType(ix))
					}
					g.fill(w, nil, nil)
					var want string
					w.unchanged(r.name, func() { want = r.run(w, func() {}) })
					calls := 0
					w.unchanged(r.name+" inside of itself", func() {
						got := r.run(w, func() {
							calls++
							if calls < 4 || calls == 9 {
								if x := r.run(w, func() {}); x != want {
									fail("inside of itself it returns\n%s\ninstead of\n%s", x, want)
								}
							}
						})
						if got != want {
							fail("it returns\n%s\ninstead of\n%s", got, want)
						}
					})
					obsContents(w)
					obsAdjacency([]string{"x", "y"})(w)
					c.st.States++
					c.st.Traces += 2
					c.st.Transitions += 2
					c.st.Checks += w.checks
				})
			}
		}
	})
}
