package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- C14: long paths

// longWalk is a connected walk of n steps in the member of size n of the
// family: chain, cycle, zigzag, loops and parallel edges (there and back).
func longWalk(f wideFamily, n int) []pel {
	var l []pel
	for i := 0; i < n; i++ {
		switch f.name {
		case "zigzag", "parallel":
			l = append(l, pel{i, i%2 == 1})
		default:
			l = append(l, pel{i, false})
		}
	}
	return l
}

func hasWalk(f wideFamily) bool {
	return f.name == "chain" || f.name == "cycle" || f.name == "zigzag" || f.name == "parallel" || f.name == "loops"
}

func longPathTasks(th bool) []Task {
	return wideTasks("long", hasWalk, wideSizes(dt(th, 20, 40), dt(th, 70, 140)), []int{1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		walk := longWalk(f, n)
		type run struct {
			name string
			f    func(x *pworld)
		}
		var runs []run
		// every path of the pool, and every pair of a path and a prefix
		checkAll := func(x *pworld) {
			for i := range x.all {
				x.check(i)
			}
		}
		put := func(x *pworld, p *lpg.Path, m mpath) *ppath {
			pp := &ppath{p, m.clone()}
			x.all = append(x.all, pp)
			return pp
		}
		from := func(x *pworld, l []pel) mpath {
			if len(l) == 0 {
				return mpath{start: -1}
			}
			return mpath{x.src(l[0]), append([]pel{}, l...)}
		}
		// other: a step that leaves the same node as step i of the walk but differs from it
		other := func(x *pworld, i int) (pel, bool) {
			at := x.src(walk[i])
			for e := range x.w.M.E {
				for _, rev := range []bool{true, false} {
					l := pel{e, rev}
					if l != walk[i] && x.src(l) == at {
						return l, true
					}
				}
			}
			return pel{}, false
		}
		for _, chunk := range []int{1, 2, 3, 7, 8, 16, n} {
			for _, clone := range []bool{false, true} {
				chunk, clone := chunk, clone
				runs = append(runs, run{fmt.Sprintf("append the walk in lists of %d, clones in between: %v, then remove it step by step", chunk, clone), func(x *pworld) {
					a := put(x, &lpg.Path{}, mpath{start: -1})
					for i := 0; i < n; i += chunk {
						l := walk[i:min(i+chunk, n)]
						arg := x.els(l)
						a.p.Append(arg...)
						for j := range arg {
							arg[j] = lpg.PathElement{}
						}
						a.m = from(x, walk[:i+len(l)])
						if clone {
							cl := put(x, a.p.Clone(), a.m)
							// the clone goes another way
							if i+len(l) < n {
								if o, ok := other(x, i+len(l)); ok {
									cl.p.Append(x.el(o))
									cl.m.els = append(cl.m.els, o)
								}
							}
						} else {
							x.check(len(x.all) - 1)
						}
					}
					checkAll(x)
					for len(a.m.els) > 0 {
						if clone {
							put(x, a.p.Clone(), a.m)
						}
						a.p.RemoveLast()
						a.m.els = a.m.clone().els[:len(a.m.els)-1]
						if o, ok := other(x, len(a.m.els)); ok && clone {
							b := a.p.Clone()
							b.Append(x.el(o))
							m := a.m.clone()
							m.els = append(m.els, o)
							put(x, b, m)
							// the original grows and shrinks as well
							a.p.Append(x.el(o))
							if a.p.GetEdge(len(a.m.els)) != x.w.E[o.e] {
								fail("the step appended after RemoveLast is not there")
							}
							a.p.RemoveLast()
						} else {
							x.check(0)
						}
					}
					checkAll(x)
					a.p.RemoveLast()
					a.m = mpath{start: -1}
					x.check(0)
				}})
			}
		}
		runs = append(runs, run{"append the second part of the walk as a path to the first, for every split", func(x *pworld) {
			for i := 0; i <= n; i++ {
				a := put(x, lpg.NewPathFromElements(x.els(walk[:i])...), from(x, walk[:i]))
				b := put(x, lpg.NewPathFromElements(x.els(walk[i:])...), from(x, walk[i:]))
				a.p.AppendPath(b.p)
				a.m = from(x, walk)
				x.check(len(x.all) - 2)
				x.check(len(x.all) - 1)
				// what follows on either does not show in the other
				b.p.RemoveLast()
				if len(b.m.els) > 0 {
					b.m.els = b.m.clone().els[:len(b.m.els)-1]
					if o, ok := other(x, i+len(b.m.els)); ok {
						b.p.Append(x.el(o))
						b.m.els = append(b.m.els, o)
					}
				}
				if i+1 < n {
					// a path that starts elsewhere
					q := lpg.NewPathFromElements(x.els(walk[i+1:])...)
					if i > 0 && x.src(walk[i+1]) != x.dst(walk[i-1]) {
						p := lpg.NewPathFromElements(x.els(walk[:i])...)
						if !panics(func() { p.AppendPath(q) }) {
							fail("appending a path that does not start where the path of %d edges ends does not panic", i)
						}
					}
				}
			}
			checkAll(x)
		}})
		runs = append(runs, run{"append a list that is disconnected at one position, for every position", func(x *pworld) {
			for i := 1; i < n; i++ {
				l := append(append([]pel{}, walk[:i]...), walk[i+1:]...)
				if x.chain(-1, l) {
					continue
				}
				a := put(x, lpg.PathFromNode(x.w.N[x.src(l[0])]), mpath{start: x.src(l[0])})
				if !panics(func() { a.p.Append(x.els(l)...) }) {
					fail("appending a list that is disconnected at %d does not panic", i)
				}
			}
		}})
		runs = append(runs, run{"all slices", func(x *pworld) {
			a := put(x, lpg.NewPathFromElements(x.els(walk)...), from(x, walk))
			for i := 0; i <= n; i++ {
				for j := i + 2; j <= n+1; j++ {
					if n > 20 && i > 2 && j-i > 3 && j < n-1 {
						continue
					}
					m := from(x, walk[i:j-1])
					s := put(x, a.p.Slice(i, j), m)
					x.check(len(x.all) - 1)
					if j == n+1 {
						put(x, a.p.Slice(i, -1), m)
					}
					// extending the slice does not show in the path
					if j-1 < n {
						if o, ok := other(x, j-1); ok {
							s.p.Append(x.el(o))
							s.m.els = append(s.m.els, o)
						}
					}
				}
				if i < n {
					put(x, a.p.Slice(i, i), mpath{start: x.src(walk[i])})
				}
			}
			checkAll(x)
		}})
		runs = append(runs, run{"prefixes, and lists that differ from a prefix at one position", func(x *pworld) {
			a := put(x, lpg.NewPathFromElements(x.els(walk)...), from(x, walk))
			for i := 1; i <= n; i++ {
				p := x.els(walk[:i])
				if !a.p.HasPrefix(p) || !a.p.HasPrefixPath(lpg.NewPathFromElements(p...)) {
					fail("the first %d steps are not a prefix of the walk of %d", i, n)
				}
				b := lpg.NewPathFromElements(p...)
				if i < n && (b.HasPrefix(x.els(walk)) || b.HasPrefixPath(a.p)) {
					fail("the walk of %d steps is a prefix of its first %d", n, i)
				}
				x.w.checks += 2
				for _, to := range []int{i, n} {
					for at := max(0, i-1); at < i; at++ {
						q := x.els(walk[:to])
						if o, ok := other(x, at); ok && o.e != walk[at].e {
							q[at] = x.el(o)
							if a.p.HasPrefix(q) {
								fail("a list of %d steps that differs at %d is a prefix of the walk", to, at)
							}
							x.w.checks++
						}
					}
				}
			}
			x.check(0)
		}})
		for _, r := range runs {
			r := r
			c.Case(func() string { return fmt.Sprintf("%s, walk of %d steps: %s", f.label(n, k), n, r.name) }, func() {
				x := &pworld{w: newWorld()}
				g.fill(x.w, nil, nil)
				r.f(x)
				obsPathGraph(x)
				c.st.States += int64(len(x.all))
				c.st.Transitions += int64(n)
				c.st.Traces++
				c.st.Checks += x.w.checks
			})
		}
	})
}

// ---- C15: long walks of a cursor, nodes with many edges

func longCursorTasks(th bool) []Task {
	return wideTasks("wide", nil, wideSizes(dt(th, 20, 40), dt(th, 70, 140)), []int{0, 1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		c.Case(func() string {
			return f.label(n, k) + ", cursor at every node, then pushes as far as possible and pops"
		}, func() {
			w := newWorld()
			g.fill(w, nil, nil)
			x := &pworld{w: w}
			cu := &lpg.Cursor{}
			for at := range w.N {
				if at > 3 && at < len(w.N)-3 && at%5 != 0 {
					continue
				}
				cu.Set(w.N[at])
				w.checkCursor(cu, at, mpath{}, false, x)
			}
			used := make([]bool, len(w.E))
			at := 0
			cu.Set(w.N[0])
			cu.StartPath()
			m := mpath{start: 0}
			for step := 0; step <= n; step++ {
				next := -1
				for e := range w.M.E {
					if !used[e] && w.M.E[e].From == at {
						next = e
						break
					}
				}
				if next < 0 {
					break
				}
				used[next] = true
				cu.PushToPath(w.E[next])
				at = w.M.E[next].To
				m.els = append(m.els, pel{next, false})
				w.checkCursor(cu, at, m, true, x)
				// down and up again
				cu.PopFromPath()
				cu.PushToPath(w.E[next])
			}
			w.checkCursor(cu, at, m, true, x)
			for len(m.els) > 0 {
				cu.PopFromPath()
				m.els = m.els[:len(m.els)-1]
				at = x.last(m)
				w.checkCursor(cu, at, m, true, x)
			}
			obsContents(w)
			c.st.States += int64(len(w.N))
			c.st.Transitions += int64(2 * n)
			c.st.Traces++
			c.st.Checks += w.checks
		})
	})
}
