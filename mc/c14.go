package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// pel is a path element of the reference: an edge and its direction.
type pel struct {
	e   int
	rev bool
}

// mpath is the reference path: a start node (-1: empty) and elements.
type mpath struct {
	start int
	els   []pel
}

func (m mpath) clone() mpath { return mpath{m.start, append([]pel{}, m.els...)} }

// ppath is a path of the library with its reference.
type ppath struct {
	p *lpg.Path
	m mpath
}

// pworld is a pool of paths. slot is the two current ones; every path that was
// ever made stays in all and must keep its contents.
type pworld struct {
	w      *World
	all    []*ppath
	slot   [2]int
	shared [][]lpg.PathElement
	refs   [][]pel
	buf    []lpg.PathElement // spare capacity behind the first shared list
}

func (x *pworld) src(l pel) int {
	if l.rev {
		return x.w.M.E[l.e].To
	}
	return x.w.M.E[l.e].From
}

func (x *pworld) dst(l pel) int {
	if l.rev {
		return x.w.M.E[l.e].From
	}
	return x.w.M.E[l.e].To
}

func (x *pworld) el(l pel) lpg.PathElement { return lpg.PathElement{Edge: x.w.E[l.e], Reverse: l.rev} }

func (x *pworld) els(l []pel) []lpg.PathElement {
	out := make([]lpg.PathElement, 0, len(l))
	for _, y := range l {
		out = append(out, x.el(y))
	}
	return out
}

func (x *pworld) last(m mpath) int {
	if len(m.els) > 0 {
		return x.dst(m.els[len(m.els)-1])
	}
	return m.start
}

func (x *pworld) nodes(m mpath) []int {
	if m.start < 0 {
		return nil
	}
	out := []int{m.start}
	for _, l := range m.els {
		out = append(out, x.dst(l))
	}
	return out
}

// chain: l starts at n and is connected.
func (x *pworld) chain(n int, l []pel) bool {
	for _, y := range l {
		if n >= 0 && x.src(y) != n {
			return false
		}
		n = x.dst(y)
	}
	return true
}

func (x *pworld) show(m mpath) string {
	if m.start < 0 {
		return "empty"
	}
	sb := strings.Builder{}
	fmt.Fprintf(&sb, "n%d", m.start)
	for _, l := range m.els {
		fmt.Fprintf(&sb, "-e%d-n%d", l.e, x.dst(l))
	}
	return sb.String()
}

// check compares everything a path answers with the reference.
func (x *pworld) check(i int) {
	p, m := x.all[i].p, x.all[i].m
	w := x.w
	bad := func(what string, got, want any) {
		fail("path %d should be %s: %s is %v, expected %v", i, x.show(m), what, got, want)
	}
	ns := x.nodes(m)
	w.checks++
	if p.NumNodes() != len(ns) {
		bad("NumNodes", p.NumNodes(), len(ns))
	}
	if p.NumEdges() != len(m.els) {
		bad("NumEdges", p.NumEdges(), len(m.els))
	}
	if p.IsEmpty() != (len(ns) == 0) {
		bad("IsEmpty", p.IsEmpty(), len(ns) == 0)
	}
	for k, n := range ns {
		if p.GetNode(k) != w.N[n] {
			bad(fmt.Sprint("GetNode ", k), p.GetNode(k), w.N[n])
		}
	}
	for k, l := range m.els {
		if p.GetEdge(k) != w.E[l.e] {
			bad(fmt.Sprint("GetEdge ", k), p.GetEdge(k), w.E[l.e])
		}
		if el := x.el(l); el.GetSourceNode() != w.N[x.src(l)] || el.GetTargetNode() != w.N[x.dst(l)] {
			bad(fmt.Sprint("source and target of element ", k), "wrong", fmt.Sprint(x.src(l), x.dst(l)))
		}
	}
	if p.GetEdge(len(m.els)) != nil {
		bad("GetEdge behind the last", p.GetEdge(len(m.els)), nil)
	}
	if len(ns) == 0 {
		if p.First() != nil || p.Last() != nil {
			bad("First/Last", fmt.Sprint(p.First(), p.Last()), "nil")
		}
	} else if p.First() != w.N[ns[0]] || p.Last() != w.N[ns[len(ns)-1]] {
		bad("First/Last", fmt.Sprint(p.First(), p.Last()), fmt.Sprint(w.N[ns[0]], w.N[ns[len(ns)-1]]))
	}
}

func (x *pworld) prefix(p, q mpath) bool {
	a, b := x.nodes(p), x.nodes(q)
	if len(b) > len(a) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	for i := range q.els {
		if p.els[i].e != q.els[i].e {
			return false
		}
	}
	return true
}

func (x *pworld) checkAll() {
	for i := range x.all {
		x.check(i)
	}
	a, b := x.all[x.slot[0]], x.all[x.slot[1]]
	for _, y := range x.all {
		for _, z := range []*ppath{a, b} {
			if g, want := y.p.HasPrefixPath(z.p), x.prefix(y.m, z.m); g != want {
				fail("HasPrefixPath of %s and %s is %v", x.show(y.m), x.show(z.m), g)
			}
			if len(y.m.els) > 0 || len(z.m.els) > 0 {
				if g, want := y.p.HasPrefix(x.els(z.m.els)), len(z.m.els) == 0 || x.prefix(y.m, z.m); g != want {
					fail("HasPrefix of %s and the elements of %s is %v", x.show(y.m), x.show(z.m), g)
				}
			}
			x.w.checks++
		}
	}
	for i, l := range x.shared {
		for k := range l {
			if l[k] != x.el(x.refs[i][k]) {
				fail("the caller's list of path elements %d was changed at %d", i, k)
			}
		}
	}
	if e := x.buf[:cap(x.buf)]; e[len(e)-1] != (lpg.PathElement{}) {
		fail("the space behind the caller's list of path elements was written to")
	}
}

type pop struct {
	name string
	// run returns false if the operation is not claimed in this state
	run func(x *pworld) bool
}

// pathOps are the operations over the elements els and chains of the graph.
func pathOps(els []pel, chains [][]pel, starts []int) []pop {
	var ops []pop
	add := func(name string, f func(x *pworld) bool) { ops = append(ops, pop{name, f}) }
	put := func(x *pworld, s int, p *lpg.Path, m mpath) {
		x.all = append(x.all, &ppath{p, m})
		x.slot[s] = len(x.all) - 1
	}
	app := func(x *pworld, s int, l []pel) bool {
		t := x.all[x.slot[s]]
		if t.m.start < 0 && !x.chain(-1, l) {
			return false
		}
		for _, y := range l {
			if x.w.M.E[y.e].Gone {
				return false
			}
		}
		arg := x.els(l)
		if !x.chain(x.last(t.m), l) {
			if !panics(func() { t.p.Append(arg...) }) {
				fail("appending something disconnected to %s does not panic", x.show(t.m))
			}
			return true
		}
		if r := t.p.Append(arg...); r != t.p {
			fail("Append does not return the path")
		}
		if t.m.start < 0 && len(l) > 0 {
			t.m.start = x.src(l[0])
		}
		t.m.els = append(t.m.els, l...)
		// the argument belongs to the caller
		for i := range arg {
			arg[i] = lpg.PathElement{}
		}
		return true
	}
	for s := 0; s < 2; s++ {
		s := s
		for _, l := range els {
			l := l
			add(fmt.Sprintf("append %+v to %d", l, s), func(x *pworld) bool { return app(x, s, []pel{l}) })
		}
		for _, l := range chains {
			l := l
			add(fmt.Sprintf("append %+v to %d", l, s), func(x *pworld) bool { return app(x, s, l) })
		}
		for t := 0; t < 2; t++ {
			t := t
			add(fmt.Sprintf("append path %d to %d", t, s), func(x *pworld) bool {
				a, b := x.all[x.slot[s]], x.all[x.slot[t]]
				conn := a.m.start < 0 || b.m.start < 0 || x.last(a.m) == b.m.start
				if !conn {
					if !panics(func() { a.p.AppendPath(b.p) }) {
						fail("appending the path %s to %s does not panic", x.show(b.m), x.show(a.m))
					}
					return true
				}
				a.p.AppendPath(b.p)
				if a.m.start < 0 {
					a.m.start = b.m.start
				}
				a.m.els = append(a.m.els, append([]pel{}, b.m.els...)...)
				return true
			})
		}
		add(fmt.Sprintf("clone %d to %d", s, 1-s), func(x *pworld) bool {
			a := x.all[x.slot[s]]
			put(x, 1-s, a.p.Clone(), a.m.clone())
			return true
		})
		for _, r := range [][2]int{{0, -1}, {1, -1}, {0, 2}, {0, 3}, {1, 3}, {0, 0}, {1, 1}, {2, 9}, {-9, -1}, {-9, -2}} {
			r := r
			add(fmt.Sprintf("slice %d with %v to %d", s, r, 1-s), func(x *pworld) bool {
				a := x.all[x.slot[s]]
				ns := x.nodes(a.m)
				from, to := r[0], r[1]
				if from == -9 {
					from = len(ns) - 1 // the last node
				}
				if to == -2 {
					to = len(ns)
				}
				var m mpath
				switch {
				case len(ns) == 0:
					return false
				case from == to: // one node
					if from != 0 && from >= len(a.m.els) {
						return false
					}
					m = mpath{start: ns[from]}
				default:
					e := to
					if e == -1 || e > len(ns) {
						e = len(ns)
					}
					if from >= len(ns) || e <= from || e == from+1 && from != len(ns)-1 {
						return false
					}
					m = mpath{start: ns[from], els: append([]pel{}, a.m.els[from:e-1]...)}
				}
				put(x, 1-s, a.p.Slice(from, to), m)
				return true
			})
		}
		add(fmt.Sprintf("remove last of %d", s), func(x *pworld) bool {
			a := x.all[x.slot[s]]
			if r := a.p.RemoveLast(); r != a.p {
				fail("RemoveLast does not return the path")
			}
			if len(a.m.els) > 0 {
				a.m.els = append([]pel{}, a.m.els[:len(a.m.els)-1]...)
			} else {
				a.m.start = -1
			}
			return true
		})
		add(fmt.Sprintf("remove first of %d", s), func(x *pworld) bool {
			a := x.all[x.slot[s]]
			if len(a.m.els) == 1 {
				return false // what is left of it is not documented
			}
			if r := a.p.RemoveFirst(); r != a.p {
				fail("RemoveFirst does not return the path")
			}
			if len(a.m.els) > 0 {
				x.w.M.E[a.m.els[0].e].Gone = true
				a.m.start = x.dst(a.m.els[0])
				a.m.els = append([]pel{}, a.m.els[1:]...)
			} else {
				a.m.start = -1
			}
			return true
		})
		add(fmt.Sprintf("clear %d", s), func(x *pworld) bool {
			a := x.all[x.slot[s]]
			a.p.Clear()
			a.m = mpath{start: -1}
			return true
		})
		for _, n := range starts {
			n := n
			add(fmt.Sprintf("only node n%d in %d", n, s), func(x *pworld) bool {
				a := x.all[x.slot[s]]
				a.p.SetOnlyNode(x.w.N[n])
				a.m = mpath{start: n}
				return true
			})
			add(fmt.Sprintf("new from node n%d in %d", n, s), func(x *pworld) bool {
				put(x, s, lpg.PathFromNode(x.w.N[n]), mpath{start: n})
				return true
			})
		}
		for k := 0; k < 2; k++ {
			k := k
			add(fmt.Sprintf("new from shared elements %d in %d", k, s), func(x *pworld) bool {
				l := x.refs[k]
				put(x, s, lpg.NewPathFromElements(x.shared[k]...), mpath{start: x.src(l[0]), els: append([]pel{}, l...)})
				return true
			})
		}
	}
	add("new from edges in 0", func(x *pworld) bool {
		var es []*lpg.Edge
		m := mpath{start: -1}
		for _, l := range x.refs[0] {
			if l.rev {
				return false
			}
			es = append(es, x.w.E[l.e])
			if m.start < 0 {
				m.start = x.src(l)
			}
			m.els = append(m.els, l)
		}
		put(x, 0, lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(es)...), m)
		return true
	})
	return ops
}

type pathSpace struct {
	g      *GSpec
	els    []pel
	chains [][]pel
	starts []int
	shared [][]pel
}

func (ps *pathSpace) fresh() *pworld {
	x := &pworld{w: newWorld()}
	ps.g.fill(x.w, nil, nil)
	for _, l := range ps.shared {
		x.refs = append(x.refs, l)
		x.shared = append(x.shared, x.els(l))
	}
	x.buf = make([]lpg.PathElement, 0, len(ps.shared[0])+1)
	x.buf = append(x.buf, x.shared[0]...)
	x.shared[0] = x.buf
	for s := 0; s < 2; s++ {
		x.all = append(x.all, &ppath{&lpg.Path{}, mpath{start: -1}})
		x.slot[s] = s
	}
	return x
}

func pathSpaces() []*pathSpace {
	eks := []EK{{L: "x"}}
	line := &GSpec{NKs: []NK{{}}, EKs: eks, Nodes: []int{0, 0, 0}, Edges: []GE{{0, 1, 0}, {1, 2, 0}, {2, 0, 0}}}
	loops := &GSpec{NKs: []NK{{}}, EKs: eks, Nodes: []int{0, 0}, Edges: []GE{{0, 1, 0}, {0, 1, 0}, {1, 1, 0}}}
	return []*pathSpace{
		{g: line, els: []pel{{0, false}, {1, false}, {2, false}, {0, true}},
			chains: [][]pel{{}, {{0, false}, {1, false}}, {{1, false}, {0, false}}, {{1, false}, {1, true}, {0, true}}},
			starts: []int{0, 1}, shared: [][]pel{{{0, false}, {1, false}}, {{1, false}, {1, true}, {0, true}}}},
		{g: loops, els: []pel{{0, false}, {1, true}, {2, false}},
			chains: [][]pel{{{0, false}, {2, false}}, {{0, false}, {1, true}}, {{2, false}, {0, false}}},
			starts: []int{0, 1}, shared: [][]pel{{{0, false}, {2, false}, {2, false}}, {{2, false}, {1, true}}}},
	}
}

func init() {
	register(&Prop{
		ID: "C14",
		Bounds: "all sequences of up to 3 (thorough 4) operations on two current paths (append of elements, of lists, of paths to themselves or each other, clones, 10 kinds of slices, removing the last edge or the first one, clearing, single nodes, paths made from the caller's lists) from two empty paths, " +
			"and up to 3 operations after each pair of first operations that fills both, over a cycle graph and a graph with parallel edges and a loop; after every operation every path made so far, the caller's lists and all prefix tests are compared with the reference sequences; " +
			"walks of every length up to 20 and those around powers of two up to 70 (thorough 40, 140) in 5 families of graphs: appended in lists of several lengths, cloned and extended differently at every length, removed step by step, split and joined at every position, all slices, all prefixes; a path of 65606 edges",
		Assume: []string{"Slices of exactly one node that is not the last, given by two different bounds, and positions behind the end are not claimed, nor what RemoveFirst leaves of a path with one edge; elements appended to an empty path are connected."},
		Tasks: func(th bool) []Task {
			var ts []Task
			depth := dt(th, 4, 5)
			for si, ps := range pathSpaces() {
				ops := pathOps(ps.els, ps.chains, ps.starts)
				for first := range ops {
					ps, first := ps, first
					ts = append(ts, Task{Name: fmt.Sprintf("space%d/first-%d", si, first), Run: func(c *Ctx) {
						seq := []int{first}
						// run replays the sequence; it is called on every sequence whose
						// prefixes were all found to hold
						run := func() (ok bool) {
							x := ps.fresh()
							for _, o := range seq {
								if !ops[o].run(x) {
									return false
								}
							}
							x.checkAll()
							c.st.Checks += x.w.checks
							obsPathGraph(x)
							return true
						}
						var rec func()
						rec = func() {
							ok := false
							c.Case(func() string {
								var s []string
								for _, o := range seq {
									s = append(s, ops[o].name)
								}
								return fmt.Sprintf("graph %s, two empty paths; then: %s", ps.g, strings.Join(s, "; "))
							}, func() { ok = run() })
							if !ok {
								return
							}
							c.st.States++
							c.st.Traces++
							c.st.Transitions += int64(len(seq))
							if len(seq) == depth {
								return
							}
							for o := range ops {
								seq = append(seq, o)
								rec()
								seq = seq[:len(seq)-1]
							}
						}
						rec()
					}})
				}
			}
			return append(append(ts, longPathTasks(th)...), append(hugePathTasks(th), vastTask("vast", vastPath)...)...)
		},
	})
}

func obsPathGraph(x *pworld) {
	g := x.w.G
	live := map[*lpg.Edge]bool{}
	for it := g.GetEdges(); it.Next(); {
		live[it.Edge()] = true
	}
	gone := 0
	for i, e := range x.w.E {
		if x.w.M.E[i].Gone {
			gone++
		}
		if live[e] == x.w.M.E[i].Gone {
			fail("after the path operations edge e%d is in the graph: %v", i, live[e])
		}
	}
	if g.NumNodes() != len(x.w.N) || g.NumEdges() != len(x.w.E)-gone {
		fail("path operations changed the graph: %d nodes and %d edges", g.NumNodes(), g.NumEdges())
	}
	for i, e := range x.w.E {
		if !x.w.M.E[i].Gone && (e.GetFrom() != x.w.N[x.w.M.E[i].From] || e.GetTo() != x.w.N[x.w.M.E[i].To]) {
			fail("path operations changed edge e%d", i)
		}
	}
}
