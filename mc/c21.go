package main

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// equivalence is a pair of relations between the elements of two graphs, given
// by classes of the kinds of elements.
type equivalence struct {
	name           string
	n1, n2, e1, e2 func(kind int) int
}

func kindOf(k int) int  { return k }
func oneKind(k int) int { return 0 }
func swapped(k int) int {
	if k < 2 {
		return 1 - k
	}
	return k
}
func other(k int) int { return -1 - k }

var equivalences = []equivalence{
	{"nodes and edges of the same kind", kindOf, kindOf, kindOf, kindOf},
	{"all nodes, edges of the same kind", oneKind, oneKind, kindOf, kindOf},
	{"nodes of the same kind, all edges", kindOf, kindOf, oneKind, oneKind},
	{"all nodes and edges", oneKind, oneKind, oneKind, oneKind},
	{"nodes of swapped kinds, edges of the same kind", kindOf, swapped, kindOf, kindOf},
	{"all nodes, edges of swapped kinds", oneKind, oneKind, kindOf, swapped},
	{"no nodes, all edges", kindOf, other, oneKind, oneKind},
	{"all nodes, no edges", oneKind, oneKind, kindOf, other},
}

func (g *GSpec) classes(n, e func(int) int) *SG {
	s := &SG{}
	for _, k := range g.Nodes {
		s.N = append(s.N, strconv.Itoa(n(k)))
	}
	for _, x := range g.Edges {
		s.E = append(s.E, SE{x.From, x.To, strconv.Itoa(e(x.Kind))})
	}
	return s
}

// checkIso asks the library about two graphs built from specs (elements in the
// order of the specs).
func checkIso(g1, g2 *GSpec, w1, w2 *World, q *equivalence, ctx context.Context, hook func()) (bool, error) {
	return lpg.CheckIsomorphism(ctx, w1.G, w2.G, func(a, b *lpg.Node) bool {
		i, ok1 := w1.np[a]
		j, ok2 := w2.np[b]
		if !ok1 || !ok2 {
			fail("the node function is called with nodes that are not of the first and the second graph")
		}
		if hook != nil {
			hook()
		}
		return q.n1(g1.Nodes[i]) == q.n2(g2.Nodes[j])
	}, func(a, b *lpg.Edge) bool {
		i, ok1 := w1.ep[a]
		j, ok2 := w2.ep[b]
		if !ok1 || !ok2 {
			fail("the edge function is called with edges that are not of the first and the second graph")
		}
		if hook != nil {
			hook()
		}
		return q.e1(g1.Edges[i].Kind) == q.e2(g2.Edges[j].Kind)
	})
}

var errCancel = errors.New("cancelled by the test")

// countCtx is cancelled at the k-th question.
type countCtx struct {
	k, at int
	done  chan struct{}
	over  bool
}

func (c *countCtx) ask() {
	c.k++
	if c.at > 0 && c.k >= c.at && !c.over {
		c.over = true
		close(c.done)
	}
}
func (c *countCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *countCtx) Value(any) any               { return nil }
func (c *countCtx) Done() <-chan struct{}       { c.ask(); return c.done }
func (c *countCtx) Err() error {
	c.ask()
	if c.over {
		return errCancel
	}
	return nil
}

func specWorld(g *GSpec, np, ep []int) *World {
	w := newWorld()
	g.fill(w, np, ep)
	return w
}

func reversed(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = n - 1 - i
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C21",
		Bounds: "all pairs of graphs up to isomorphism with equal numbers of nodes and edges: up to 2 nodes and 4 edges and 3 nodes and 3 edges over 2 node and 2 edge kinds, 3 nodes and 4 edges over one node kind, 4 nodes and 4 edges over one kind (thorough: one edge more); pairs of different sizes; equal pairs in every node order and both edge orders, the others in 2; " +
			"8 pairs of equivalence relations; structured pairs of up to 6 nodes (cycles, stars, grids; thorough: 7); 8 parametrised families of graphs in every size up to 12 and those around powers of two up to 40 (over 6 elements with kinds of their own; up to 300 with fewer questions), against themselves in 9 orders and against 4 kinds of changes in 3 places; graphs of up to 6 nodes alike but for one node, edge or direction at any place of either; cancellation at every question asked to the context and at every call of the functions (at about 400 evenly spaced ones where there are more)",
		Assume: []string{"The relations are equivalence relations across the graphs (given by classes).", "The oracle tries all node assignments and compares the edge multisets between each pair of nodes."},
		Tasks: func(th bool) []Task {
			var ts []Task
			all := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 4, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: dt(th, 4, 5), nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 3, maxE: dt(th, 2, 3), nks: nkPlain, eks: ekPlain}.list(),
				graphFamily{n: 3, minE: dt(th, 3, 4), maxE: dt(th, 4, 4), nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 4, maxE: dt(th, 4, 5), nks: nkPlain[:1], eks: ekPlain[:1]}.list(),
				graphFamily{n: 3, minE: dt(th, 3, 4), maxE: dt(th, 3, 4), nks: nkPlain, eks: ekPlain[:1]}.list())
			groups := map[string][]*GSpec{}
			for _, g := range all {
				k := fmt.Sprintf("%d nodes %d edges", len(g.Nodes), len(g.Edges))
				groups[k] = append(groups[k], g)
			}
			one := func(c *Ctx, g1, g2 *GSpec, w1 *World, orders [][2][]int) {
				for qi := range equivalences {
					q := &equivalences[qi]
					want := g1.classes(q.n1, q.e1).iso(g2.classes(q.n2, q.e2))
					for _, o := range orders {
						w2 := specWorld(g2, o[0], o[1])
						got, err := checkIso(g1, g2, w1, w2, q, context.Background(), nil)
						if err != nil {
							fail("graphs %s and %s, equivalent are %s: error %v", g1, g2, q.name, err)
						}
						if got != want {
							fail("graphs %s and %s (nodes created in the order %v, edges %v), equivalent are %s: the answer is %v, expected %v", g1, g2, o[0], o[1], q.name, got, want)
						}
						c.st.Traces++
						c.st.Transitions++
						c.st.Checks++
					}
				}
			}
			shards := 16
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("pairs/%d", s), Run: func(c *Ctx) {
					k := 0
					for n := 0; n <= 4; n++ {
						for e := 0; e <= 5; e++ {
							gs := groups[fmt.Sprintf("%d nodes %d edges", n, e)]
							for i, g1 := range gs {
								k++
								if k%shards != s {
									continue
								}
								c.Case(func() string { return fmt.Sprintf("graph %s with every graph of %d nodes and %d edges", g1, n, e) }, func() {
									w1 := specWorld(g1, nil, nil)
									for j, g2 := range gs {
										orders := [][2][]int{{nil, nil}}
										if i == j {
											orders = nil
											for _, p := range perms(n) {
												orders = append(orders, [2][]int{p, nil}, [2][]int{p, reversed(e)})
											}
										} else if (i+j)%2 == 0 {
											orders[0] = [2][]int{reversed(n), reversed(e)}
										}
										one(c, g1, g2, w1, orders)
									}
								})
								c.st.States++
							}
						}
					}
				}})
			}
			ts = append(ts, Task{Name: "sizes", Run: func(c *Ctx) {
				small := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 2, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 2, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 3, maxE: 1, nks: nkPlain, eks: ekPlain}.list())
				for _, g1 := range small {
					c.Case(func() string { return fmt.Sprintf("graph %s with graphs of every size", g1) }, func() {
						w1 := specWorld(g1, nil, nil)
						for _, g2 := range small {
							one(c, g1, g2, w1, [][2][]int{{nil, nil}})
						}
					})
					c.st.States++
				}
			}})
			// larger graphs with a lot of symmetry, or almost
			var shapes []*GSpec
			shape := func(n int, kinds []int, edges ...GE) {
				g := &GSpec{NKs: nkPlain, EKs: ekPlain, Edges: edges, Nodes: make([]int, n)}
				copy(g.Nodes, kinds)
				shapes = append(shapes, g)
			}
			ring := func(from, n, step int) (out []GE) {
				for i := 0; i < n; i++ {
					out = append(out, GE{from + i, from + (i+step)%n, 0})
				}
				return
			}
			cat := func(l ...[]GE) (out []GE) {
				for _, x := range l {
					out = append(out, x...)
				}
				return
			}
			shape(6, nil, ring(0, 6, 1)...)
			shape(6, nil, ring(0, 6, 5)...)
			shape(6, nil, cat(ring(0, 3, 1), ring(3, 3, 1))...)
			shape(6, nil, cat(ring(0, 4, 1), ring(4, 2, 1))...)
			shape(6, nil, cat(ring(0, 5, 1), ring(5, 1, 1))...)
			shape(6, []int{1, 0, 0, 1}, ring(0, 6, 1)...)
			shape(6, []int{1, 0, 1}, ring(0, 6, 1)...)
			shape(6, []int{0, 1, 0, 1}, ring(0, 6, 1)...)
			shape(5, nil, GE{0, 1, 0}, GE{0, 2, 0}, GE{0, 3, 0}, GE{0, 4, 0})
			shape(5, nil, GE{1, 0, 0}, GE{0, 2, 0}, GE{0, 3, 0}, GE{0, 4, 0})
			shape(5, nil, GE{1, 0, 0}, GE{2, 0, 0}, GE{0, 3, 0}, GE{0, 4, 0})
			shape(5, nil, GE{0, 1, 0}, GE{1, 2, 0}, GE{2, 3, 0}, GE{3, 4, 0})
			shape(5, nil, GE{0, 1, 0}, GE{0, 1, 0}, GE{2, 3, 0}, GE{3, 4, 0})
			shape(5, nil, GE{0, 1, 0}, GE{1, 0, 0}, GE{2, 3, 0}, GE{3, 4, 0})
			shape(4, nil, GE{0, 1, 0}, GE{0, 1, 1}, GE{2, 3, 0}, GE{2, 3, 0}, GE{1, 2, 1}, GE{3, 0, 1})
			shape(4, nil, GE{0, 1, 0}, GE{0, 1, 0}, GE{2, 3, 0}, GE{2, 3, 1}, GE{1, 2, 1}, GE{3, 0, 1})
			shape(4, nil, GE{0, 1, 0}, GE{0, 1, 1}, GE{2, 3, 1}, GE{2, 3, 0}, GE{1, 2, 0}, GE{3, 0, 1})
			shape(4, nil, GE{0, 1, 0}, GE{0, 1, 0}, GE{0, 1, 1}, GE{2, 3, 0}, GE{2, 3, 1}, GE{2, 3, 1})
			shape(4, nil, GE{0, 1, 0}, GE{0, 1, 1}, GE{0, 1, 1}, GE{2, 3, 0}, GE{2, 3, 1}, GE{2, 3, 1})
			shape(4, nil, GE{0, 0, 0}, GE{0, 0, 0}, GE{1, 1, 1}, GE{2, 2, 1}, GE{1, 2, 0}, GE{2, 1, 0})
			shape(4, nil, GE{0, 0, 0}, GE{0, 0, 1}, GE{1, 1, 0}, GE{2, 2, 1}, GE{1, 2, 0}, GE{2, 1, 0})
			if th {
				shape(7, nil, ring(0, 7, 1)...)
				shape(7, nil, ring(0, 7, 2)...)
				shape(7, nil, ring(0, 7, 3)...)
				shape(7, nil, cat(ring(0, 4, 1), ring(4, 3, 1))...)
			}
			for i, g1 := range shapes {
				i, g1 := i, g1
				ts = append(ts, Task{Name: fmt.Sprintf("shapes/%d", i), Run: func(c *Ctx) {
					for j, g2 := range shapes {
						c.Case(func() string { return fmt.Sprintf("graphs %s and %s", g1, g2) }, func() {
							n, e := len(g2.Nodes), len(g2.Edges)
							rot := make([]int, n)
							for k := range rot {
								rot[k] = (k*2 + 1) % n
								if n%2 == 0 {
									rot[k] = (k + n/2) % n
								}
							}
							orders := [][2][]int{{nil, nil}, {reversed(n), reversed(e)}}
							if i == j {
								orders = append(orders, [2][]int{rot, nil}, [2][]int{rot, reversed(e)})
							}
							one(c, g1, g2, specWorld(g1, nil, nil), orders)
						})
						c.st.States++
					}
				}})
			}
			// cancellation
			cgs := concat(graphFamily{n: 1, maxE: 2, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 2, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 3, minE: 2, maxE: dt(th, 2, 3), nks: nkPlain[:1], eks: ekPlain}.list(), shapes[8:dt(th, 12, 21)])
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("cancel/%d", s), Run: func(c *Ctx) {
					for i, g1 := range cgs {
						if i%shards != s {
							continue
						}
						for _, g2 := range cgs {
							if len(g1.Nodes) != len(g2.Nodes) || len(g1.Edges) != len(g2.Edges) {
								continue
							}
							for qi := range equivalences {
								q := &equivalences[qi]
								c.Case(func() string {
									return fmt.Sprintf("graphs %s and %s, equivalent are %s, cancelled at every point", g1, g2, q.name)
								}, func() { cancelEverywhere(c, g1, g2, q) })
								c.st.States++
							}
						}
					}
				}})
			}
			return append(ts, append(wideIsoTasks(th), append(hugeIsoTasks(th), oddIsoTasks(th)...)...)...)
		},
	})
}

func cancelEverywhere(c *Ctx, g1, g2 *GSpec, q *equivalence) {
	w1, w2 := specWorld(g1, nil, nil), specWorld(g2, nil, nil)
	want := g1.classes(q.n1, q.e1).iso(g2.classes(q.n2, q.e2))
	judge := func(got bool, err, ctxErr error, how string) {
		c.st.Traces++
		c.st.Transitions++
		c.st.Checks++
		if err != nil {
			if ctxErr == nil {
				fail("%s: the error %v is returned although the context is not cancelled", how, err)
			}
			if !errors.Is(err, ctxErr) {
				fail("%s: the error %v is returned, that of the context is %v", how, err, ctxErr)
			}
			return
		}
		if got != want {
			fail("%s: the answer is %v without an error, expected %v", how, got, want)
		}
	}
	// points: about 400 per pair at most, spread over longer runs
	points := func(n int, f func(k int)) {
		step := 1
		if n > 400 {
			step = n / 400
		}
		for k := 1; k <= n+1; k += step {
			f(k)
		}
	}
	ctx := &countCtx{done: make(chan struct{})}
	got, err := checkIso(g1, g2, w1, w2, q, ctx, nil)
	judge(got, err, nil, "never cancelled")
	points(ctx.k, func(k int) {
		ctx := &countCtx{at: k, done: make(chan struct{})}
		got, err := checkIso(g1, g2, w1, w2, q, ctx, nil)
		var e error
		if ctx.over {
			e = errCancel
		}
		judge(got, err, e, fmt.Sprintf("cancelled at question %d to the context", k))
	})
	calls := 0
	checkIso(g1, g2, w1, w2, q, context.Background(), func() { calls++ })
	points(calls, func(k int) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if k == calls+1 {
			cancel() // from the start
		}
		n := 0
		got, err := checkIso(g1, g2, w1, w2, q, ctx, func() {
			if n++; n == k {
				cancel()
			}
		})
		judge(got, err, ctx.Err(), fmt.Sprintf("cancelled at call %d of the functions", k))
	})
	ctx2, cancel := context.WithDeadline(context.Background(), time.Unix(0, 0))
	defer cancel()
	got, err = checkIso(g1, g2, w1, w2, q, ctx2, nil)
	judge(got, err, ctx2.Err(), "deadline in the past")
}
