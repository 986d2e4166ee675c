package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// checkCursor compares everything the cursor lists with the reference, for the
// current node at (-1: none).
func (w *World) checkCursor(cu *lpg.Cursor, at int, m mpath, started bool, x *pworld) {
	labels := []string{"x", "y", "zz", ""}
	sel := func(dir int, label *string) (es, ns []int) {
		es, ns = []int{}, []int{}
		if at >= 0 {
			for e := range w.M.E {
				me := &w.M.E[e]
				if me.Gone || label != nil && me.Label != *label {
					continue
				}
				if dir >= 0 && me.From == at {
					es, ns = append(es, e), append(ns, me.To)
				}
				if dir <= 0 && me.To == at {
					es, ns = append(es, e), append(ns, me.From)
				}
			}
		}
		return uniq(es), uniq(ns)
	}
	// a loop may be listed once or twice for both directions
	edges := func(it lpg.EdgeIterator, dir int) []int {
		l := w.edgesOf(it)
		if dir != 0 {
			return l
		}
		out := []int{}
		for i, e := range l {
			if i > 0 && l[i-1] == e && w.M.E[e].From == w.M.E[e].To && (i < 2 || l[i-2] != e) {
				continue
			}
			out = append(out, e)
		}
		return out
	}
	for _, dir := range []int{1, -1, 0} {
		es, ns := sel(dir, nil)
		w.expect(edges(cu.Edges(lpgDir(dir)), dir), es, "Edges(%d) at n%d", dir, at)
		w.expect(w.nodesOf(cu.Nodes(lpgDir(dir))), ns, "Nodes(%d) at n%d", dir, at)
		for i := range labels {
			es, ns := sel(dir, &labels[i])
			w.expect(edges(cu.EdgesWith(lpgDir(dir), labels[i]), dir), es, "EdgesWith(%d,%q) at n%d", dir, labels[i], at)
			w.expect(w.nodesOf(cu.NodesWith(lpgDir(dir), labels[i])), ns, "NodesWith(%d,%q) at n%d", dir, labels[i], at)
			switch dir {
			case 1:
				w.expect(w.edgesOf(cu.ForwardWith(labels[i])), es, "ForwardWith(%q) at n%d", labels[i], at)
				w.expect(w.nodesOf(cu.NextNodesWith(labels[i])), ns, "NextNodesWith(%q) at n%d", labels[i], at)
			case -1:
				w.expect(w.edgesOf(cu.BackwardWith(labels[i])), es, "BackwardWith(%q) at n%d", labels[i], at)
				w.expect(w.nodesOf(cu.PrevNodesWith(labels[i])), ns, "PrevNodesWith(%q) at n%d", labels[i], at)
			}
		}
		switch dir {
		case 1:
			w.expect(w.edgesOf(cu.Forward()), es, "Forward at n%d", at)
			w.expect(w.nodesOf(cu.NextNodes()), ns, "NextNodes at n%d", at)
		case -1:
			w.expect(w.edgesOf(cu.Backward()), es, "Backward at n%d", at)
			w.expect(w.nodesOf(cu.PrevNodes()), ns, "PrevNodes at n%d", at)
		}
	}
	if started {
		x.all = []*ppath{{cu.GetPath(), m}}
		x.check(0)
	}
}

// cursorSpace explores all sequences of pushes, pops and repositionings.
func cursorTask(name string, graphs []*GSpec, depth, shards int) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
			for gi, g := range graphs {
				if gi%shards != s {
					continue
				}
				// operations: 0 pop, 1 start path, 2.. set to node, then push of an edge
				nset := len(g.Nodes)
				nops := 2 + nset + len(g.Edges)
				opName := func(o int) string {
					switch {
					case o == 0:
						return "pop"
					case o == 1:
						return "start path"
					case o < 2+nset:
						return fmt.Sprintf("set n%d", o-2)
					}
					return fmt.Sprintf("push e%d", o-2-nset)
				}
				var seq []int
				run := func() bool {
					w := newWorld()
					g.fill(w, nil, nil)
					x := &pworld{w: w}
					cu := &lpg.Cursor{}
					at, started, moved := -1, false, false
					m := mpath{start: -1}
					for i, o := range seq {
						lastOp := i == len(seq)-1
						switch {
						case o == 0: // not claimed when the cursor was moved off its path
							if !started || moved {
								return false
							}
							if cu.PopFromPath() != cu {
								fail("PopFromPath does not return the cursor")
							}
							if len(m.els) > 0 {
								m.els = append([]pel{}, m.els[:len(m.els)-1]...)
								at = x.last(m)
							} else {
								m.start = -1
							}
						case o == 1:
							if at < 0 {
								if !lastOp {
									return false
								}
								if !panics(func() { cu.StartPath() }) {
									fail("StartPath without a node does not panic")
								}
								return false
							}
							cu.StartPath()
							m, started, moved = mpath{start: at}, true, false
						case o < 2+nset:
							at = o - 2
							cu.Set(w.N[at])
							moved = true
						default:
							e := o - 2 - nset
							if !started || moved {
								return false
							}
							me := &w.M.E[e]
							if me.From != at {
								if m.start < 0 || !lastOp {
									return false
								}
								if !panics(func() { cu.PushToPath(w.E[e]) }) {
									fail("pushing e%d, which does not leave n%d, does not panic", e, at)
								}
								return false
							}
							if cu.PushToPath(w.E[e]) != cu {
								fail("PushToPath does not return the cursor")
							}
							if m.start < 0 {
								m.start = at
							}
							m.els = append(append([]pel{}, m.els...), pel{e, false})
							at = me.To
						}
					}
					w.checkCursor(cu, at, m, started, x)
					obsContents(w)
					obsAdjacency([]string{"x", "y"})(w)
					cu.Set(nil)
					w.checkCursor(cu, -1, m, started, x)
					c.st.Checks += w.checks
					return true
				}
				var rec func()
				rec = func() {
					ok := false
					c.Case(func() string {
						var l []string
						for _, o := range seq {
							l = append(l, opName(o))
						}
						return fmt.Sprintf("graph %s, cursor: %s", g, strings.Join(l, "; "))
					}, func() { ok = run() })
					if !ok {
						return
					}
					c.st.States++
					c.st.Traces++
					c.st.Transitions += int64(len(seq))
					if len(seq) == depth {
						return
					}
					for o := 0; o < nops; o++ {
						seq = append(seq, o)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			}
		}})
	}
	return ts
}

func init() {
	register(&Prop{
		ID:     "C15",
		Bounds: "all graphs up to isomorphism with up to 2 nodes and 3 edges, 3 nodes and 2 edges, 3 edges over one label, and 6 larger shapes: every sequence of up to 6 (thorough 7) cursor operations (set to any node, start path, push any edge, pop), every listing in every direction and label compared after each; the longest walk and back, and nodes of any degree, in every size up to 20 and those around powers of two up to 70, and 65 to 300, of 8 parametrised families of graphs; listings without a node; neighbours met again after up to 300 other ones; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Pushes and pops happen while the cursor stands at the end of its path; pushing an edge onto an emptied path begins the path at that edge's source."},
		Tasks: func(th bool) []Task {
			var ts []Task
			small := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain[:1], eks: ekPlain}.list(),
				graphFamily{n: 3, maxE: 2, nks: nkPlain[:1], eks: ekPlain}.list(), graphFamily{n: 3, minE: 3, maxE: 3, nks: nkPlain[:1], eks: ekPlain[:dt(th, 1, 2)]}.list())
			ts = append(ts, cursorTask("small", small, dt(th, 6, 7), 16)...)
			for i, g := range bigShapes() {
				ts = append(ts, cursorTask(fmt.Sprint("shape-", i), []*GSpec{g}, dt(th, 6, 7), 1)...)
			}
			return append(append(ts, longCursorTasks(th)...), append(hugeCursorTasks(th), append(againTasks(th), vastTask("vast", vastCursor)...)...)...)
		},
	})
}
